#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscanalysis.h>
#include <gbs/bscapprox.h>
#include <gbs/bscinterp.h>
#include <gbs/bssinterp.h>
#include <gbs/bssbuild.h>
#include <gbs/curvescheck.h>
#include <gbs/polestools.h>
#include <gbs/transform.h>
#include <gbs/transformpoints.h>
#include <gbs/loft/loftCurves.h>
#include <gbs-mesh/tfi.h>
#include <gbs-io/fromtext.h>
using namespace gbs;
namespace drv {
using BC=BSCurve<T,3>; using BR=BSCurveRational<T,3>; using BS=BSSurface<T,3>; using BSR=BSSurfaceRational<T,3>;
using BG=BSCurveGeneral<T,3,false>; using BGR=BSCurveGeneral<T,3,true>; using PC=std::shared_ptr<Curve<T,3>>;
using V=std::vector<T>; using P3=point<T,3>; using P2=point<T,2>; using VP=std::vector<P3>; using VVP=std::vector<std::vector<P3>>; using KM=std::vector<std::pair<T,size_t>>;
auto a1(const P3&p,const std::vector<BC>&v,T t){return closest_curve<T,3>(p,v.begin(),v.end(),t);}
auto a2(const P3&p,const std::vector<PC>&v,T t){return closest_p_curve<T,3>(p,v.begin(),v.end(),t);}
auto a3(const std::list<Curve<T,3>*>&l){return has_nurbs<T,3>(l);}
auto a4(const BG&c){return check_curve(c);}
auto a4b(const BGR&c){return check_curve(c);}
void a5(KM&a,V&k,VP&p,size_t d,const KM&b){unify_knots(a,k,p,d,b);}
auto a6(const Curve<T,3>&a,const Curve<T,3>&b,T t1,T t2){return c2_connect<T,3>(a,b,t1,t2);}
auto a7(const Curve<T,3>&a,const Curve<T,3>&b,T e){return c2_connect<T,3>(a,b,e);}
auto a8(const P2&a,const P2&b,const P2&c,const P2&d,const P2&e,const P2&f,T x){return c2_connect<T>(a,b,c,d,e,f,x);}
void a9(MatrixX<T>&N,const V&ku,const V&kv,const V&u,const V&v,size_t p,size_t q){fill_poles_matrix<T>(N,ku,kv,u,v,p,q);}
auto a10(const VP&Q,const V&ku,const V&kv,const V&u,const V&v,size_t p,size_t q){return build_poles<T,3>(Q,ku,kv,u,v,p,q);}
auto a12(const std::vector<BC>&v){return check_curves_bounds<T,3>(v.begin(),v.end());}
void a13(const V&f,V&k){unflat_knots(f,k);}
void a13b(const V&f,std::vector<size_t>&m,V&k){unflat_knots(f,m,k);}
auto a13c(const V&f){return unflat_knots(f);}
auto a14(T u,size_t p,V&k,VP&P){return insert_knot(u,p,k,P);}
void a15(V&v,T x,T t){insert_unique_ordered(v,x,t);}
auto a16(const VVP&p){return transpose_poles<T,3>(p);}
auto a16b(const VVP&p,size_t b){return transpose_poles<T,3>(p,b);}
void a16c(const VVP&p,VVP&o,size_t a,size_t b,size_t c){transpose_block<T,3>(p,o,a,b,c);}
void b1(BC&c,const Matrix4<T>&M){transform<T,false>(static_cast<BG&>(c),M);}
void b2(BS&c,const Matrix4<T>&M){transform<T,false>(static_cast<BSSurfaceGeneral<T,3,false>&>(c),M);}
void b1r(BR&c,const Matrix4<T>&M){transform<T,true>(static_cast<BGR&>(c),M);}
void b2r(BSR&c,const Matrix4<T>&M){transform<T,true>(static_cast<BSSurfaceGeneral<T,3,true>&>(c),M);}
void b3(P3&p,const Vector3<T>&L,const Matrix3<T>&M){transform<T>(p,L,M);}
auto b4(const P3&p,const Vector3<T>&L,const Matrix3<T>&M){return transformed<T>(p,L,M);}
auto b5(const P3&p,const Matrix4<T>&M){return transformed<T>(p,M);}
auto b6(const P3&p,const P3&v){return translated<T,3>(p,v);}
auto b7(const std::array<T,4>&p,const P3&v){return translated<T,3>(p,v);}
void b8(std::array<T,4>&p,const P3&v){translate<T,3>(p,v);}
void b9(P2&p,T a,const P2&O){rotate<T,2>(p,a,O);}
void b9b(P2&p,T a){rotate<T>(p,a);}
auto b10(const P2&p,T a){return rotated<T>(p,a);}
auto b11(const P2&p,T a,const P2&O){return rotated<T,2>(p,a,O);}
auto b12(const Vector3<T>&O,const Matrix3<T>&P){return build_trf_matrix<T>(O,P);}
auto b13(const ax2<T,3>&a){return build_trf_matrix<T>(a);}
auto b14(const P3&a,const P3&b){return angle<T>(a,b);}
auto b15(const P2&a,const P2&b){return angle<T>(a,b);}
auto b17(P3 a){normalize(a);return a;}
auto b18(T a){return radians(a)+degrees(a)+kronecker<T,T>(a,a);}
auto b20(const BC&c,const P3&v){return transformed(c,[&v](const auto&x){return translated<T,3>(x,v);});}
void b21(BC&c,T a){rotate(c,a,P3{0,0,1});}
auto c4(std::initializer_list<BC> l,size_t q){return loft(l,q);}
auto c4b(std::initializer_list<BR> l,size_t q){return loft(l,q);}
auto c6(const std::vector<BC>&l,const V&v,const V&fv,size_t q){return loft_generic<T,3>(l,v,fv,q);}
auto c7(const std::vector<BC>&l,const V&v,size_t q){return loft_generic<T,3>(l.begin(),l.end(),v,q);}
auto c8(const std::vector<BC>&l,const V&v,size_t q){return loft_generic<T,3>(l,v,q);}
auto c9(const std::vector<BC>&l,size_t q){return loft_generic<T,3>(l.begin(),l.end(),q);}
auto c10(const std::vector<BC>&l,size_t q){return loft_generic<T,3>(l,q);}
auto c11(const std::vector<PC>&a,const std::vector<PC>&b,const V&u,const V&v,T t){return check_curve_lattice<T,3>(a,b,u,v,t);}
auto c12(const char*n,size_t p,KnotsCalcMode m,size_t s){return bscurve_approx_from_points<T,3>(n,p,m,s);}
auto c13(const char*n,size_t s){return bscurve_approx_from_points<T,2>(n,3,KnotsCalcMode::CHORD_LENGTH,s);}
auto c14(const BC&a,const BC&b){return join(&a,&b);}
auto c15(std::initializer_list<BC> l,const V&v,size_t q){return loft(l,v,q);}
auto c16(T u,const V&k,const std::vector<P3>&P,size_t p,size_t d){return eval_value_par<T,3>(u,k,P,p,d);}
auto c17(T u,const V&k,const V&P,size_t p,size_t d){return eval_value_decasteljau<T,3>(u,k,P,p,d);}
}
