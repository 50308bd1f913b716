#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
#include <gbs/transform.h>
#include <gbs/offsets.h>
using namespace gbs;
namespace drv {
using BC=BSCurve<T,3>; using BR=BSCurveRational<T,3>; using BS=BSSurface<T,3>; using BSR=BSSurfaceRational<T,3>;
using BG=BSCurveGeneral<T,3,false>; using BGR=BSCurveGeneral<T,3,true>;
using SG=BSSurfaceGeneral<T,3,false>; using SGR=BSSurfaceGeneral<T,3,true>;
using V=std::vector<T>; using OS=std::optional<size_t>;
auto t1(const std::shared_ptr<Curve<T,3>>&c,T d,size_t n,size_t p,KnotsCalcMode m){return to_bs_curve(c,d,n,p,m);}
void t2(std::list<BC>&l,std::vector<BR>&r){unify_curves_degree(l);unify_curves_knots(l);unify_curves_degree(r);unify_curves_knots(r);}
auto t3(const std::vector<BC>&l){return unified_curves(l);}
void t4(std::vector<BSCurveInfo<T,3>>&l){unify_degree(l);unify_knots(l);}
auto t5(const BG&a,const BG&b){return join(a,b);}
auto t6(const BGR&a,const BGR&b){return join(a,b);}
auto t7(const BG&a,const BGR&b){return join(a,b);}
auto t8(const Curve<T,3>&a,const Curve<T,3>&b){return c2_connect(a,b);}
auto t9(const Curve<T,3>&a,const Curve<T,3>&b,T du,size_t p,size_t n){return cn_connect<T,3>(a,b,du,p,n);}
auto t12(const Curve<T,2>&a,const Curve<T,2>&b,T u1,T u2,bool s1,bool s2,T e){return c2_connect(a,b,u1,u2,s1,s2,e);}
auto t13(const Curve<T,2>&a,const Curve<T,2>&b,T e){return c2_connect(a,b,e);}
auto t14(const Curve<T,3>&a,const Curve<T,3>&b){return c3_connect(a,b);}
auto t15(const Curve<T,2>&a,const Curve<T,2>&b,T e){return c3_connect(a,b,e);}
auto t16(const BSCurveGeneral<T,2,false>&a,T v){return add_dimension(a,v);}
auto t17(const BSCurveGeneral<T,2,true>&a,T v){return add_dimension(a,v);}
auto t18(const BG&c,const point<T,3>&p,T u,T un,bool n,OS m){return extention_to_point(c,p,u,un,n,m);}
auto t19(const BG&c,const point<T,3>&p,T u,bool n,OS m){return extention_to_point(c,p,u,n,m);}
auto t20(const BG&c,const point<T,3>&p,bool n,OS m){return extended_to_point(c,p,n,m);}
auto t21(const BG&c,const point<T,3>&p,bool a,bool n,OS m){return extended_to_point(c,p,a,n,m);}
auto t22(const BG&c,T l,bool a,bool r,bool n,OS m){return extended(c,l,a,r,n,m);}
auto t23(const BGR&c,T l,bool a,bool r,bool n,OS m){return extended(c,l,a,r,n,m);}
void s1(std::vector<BSSurfaceInfo<T,3>>&l){unify_knots(l);}
auto s2(const BSSurfaceGeneral<T,2,false>&a,T v){return add_dimension(a,v);}
auto s3(const SG&a,const BG&c,bool n,OS m){return extention_to_curve(a,c,n,m);}
auto s4(const SG&a,const SG&b){return join(a,b);}
auto s5(const SG&a,T u){return split_u(a,u);}
auto s6(const SG&a,T u){return split_v(a,u);}
auto s7(const SG&a,const BG&c,bool n,OS m){return extended_to_curve(a,c,n,m);}
auto s8(const SG&a,T l,bool n,OS m){return extention(a,l,n,m);}
auto s9(const SG&a,T l,bool n,OS m){return extended(a,l,n,m);}
auto s10(const SG&a,T l,SurfaceBound b,bool n,OS m){return extention(a,l,b,n,m);}
auto s11(const SG&a,T l,SurfaceBound b,bool n,OS m){return extended(a,l,b,n,m);}
auto h1(const BC&c,const std::vector<bsc_constraint<T,3>>&k,bool f){return moved_to_constraints(c,k,f);}
auto h2(BC&c,const std::vector<bsc_constraint<T,3>>&k,bool f){return move_to_constraints(c,k,f);}
auto h3(const BC&c,const point<T,3>&p,T u,bool f){return moved_to_point(c,p,u,f);}
auto h4(BC&c,const point<T,3>&p,T u,bool f){return move_to_point(c,p,u,f);}
auto h5(const BC&c,const std::vector<bsc_constraint<T,3>>&k,size_t i,size_t j){return moved_to_constraints_delta(c,k,i,j);}
auto h6(const BS&c,const std::vector<bss_constraint<T,3>>&k,bool f){return moved_to_constraints(c,k,f);}
auto h7(const BS&c,const point<T,3>&p,T u,T v,bool f){return moved_to_point(c,p,u,v,f);}
auto h8(BS&c,const point<T,3>&p,T u,T v,bool f){return move_to_point(c,p,u,v,f);}
auto h9(const BS&c,const std::vector<bss_constraint<T,3>>&k,size_t i1,size_t i2,size_t j1,size_t j2){return moved_to_constraints_delta(c,k,i1,i2,j1,j2);}
void f1(BC&c,const point<T,3>&v){translate(c,v);}
void f2(BR&c,const point<T,3>&v){translate(c,v);}
void f3(BC&c,T s,point<T,3> o){scale(c,s,o);}
void f4(BR&c,T s,point<T,3> o){scale(c,s,o);}
void f5(BC&c,T s,size_t i,point<T,3> o){scale(c,s,i,o);}
void f6(BR&c,T s,size_t i,point<T,3> o){scale(c,s,i,o);}
void f7(BS&c,T s,point<T,3> o){scale(c,s,o);}
void f8(BSR&c,T s,point<T,3> o){scale(c,s,o);}
void f9(BC&c,T a,const point<T,3>&x){rotate(c,a,x);}
void f10(BR&c,T a,const point<T,3>&x){rotate(c,a,x);}
void f11(BS&c,T a,const point<T,3>&x){rotate(c,a,x);}
void f12(BSR&c,T a,const point<T,3>&x){rotate(c,a,x);}
void f13(BSCurve<T,2>&c,T a){rotate(c,a);}
void f14(BSCurveRational<T,2>&c,T a){rotate(c,a);}
auto f15(const ax2<T,3>&a,const ax2<T,3>&b){return build_trf_matrix(a,b);}
void f16(point<T,3>&p,const Matrix4<T>&M){transform<T>(p,M);}
auto f17(const point<T,3>&p,T a,const point<T,3>&x){return rotated(p,a,x);}
auto o1(const BSSfunction<T>&f,const BS&s,const V&u,const V&v){return offset_points<T>(f,s,u,v);}
auto o2(const BSSfunction<T>&f,const SG&s,size_t a,size_t b){return offset_approx(f,s,a,b);}
}
namespace drv { auto ns1(const BSCfunction<T>&f,T p,T u0,T a,T b,size_t n){return newton_solve<T>(f,p,u0,a,b,n);} }
