#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/extrema.h>
using namespace gbs;
namespace drv {
using C=Curve<T,3>; using S=Surface<T,3>; using V=std::vector<T>; using P=point<T,3>;
auto a1(const points_vector<T,3>&p,const BSCurve<T,3>&c){return dev_from_points(p,c);}
auto a2(const C&c,T a,T b,size_t d,bool ad){return length(c,a,b,d,ad);}
auto a3(const C&c,size_t d,bool ad){return length(c,d,ad);}
auto a4(const C&c,T a,T b,size_t n,size_t p){return abs_curv<T,3>(c,a,b,n,p);}
auto a5(const C&c,T a,T b,size_t n,size_t p,T t){return abs_curv_adaptive<T,3>(c,a,b,n,p,t);}
auto a6(const C&c,size_t n,size_t p,T t){return abs_curv_adaptive<T,3>(c,n,p,t);}
auto a7(const C&c,T a,T b,size_t n,size_t p,T t){return curve_length_function<T,3>(c,a,b,n,p,t);}
auto a8(const C&c,size_t n,size_t p,T t){return curve_length_function<T,3>(c,n,p,t);}
auto a9(const C&c,size_t n,size_t p){return abs_curv<T,3>(c,n,p);}
auto a10(const C&c,T a,T b,size_t n,size_t l){return uniform_distrib_params<T,3>(c,a,b,n,l);}
auto a11(const C&c,size_t n,size_t l){return uniform_distrib_params<T,3>(c,n,l);}
auto a12(const C&c,T a,T b,size_t n,T d,size_t m){return deviation_based_params<T,3>(c,a,b,n,d,m);}
auto a13(const C&c,size_t n,T d,size_t m){return deviation_based_params<T,3>(c,n,d,m);}
auto a14(const C&c,const V&u,size_t d){return make_points(c,u,d);}
auto a15(const C&c,size_t n){return discretize(c,n);}
auto a16(const C&c,size_t n,T d,size_t m){return discretize(c,n,d,m);}
auto a17(const C&c,size_t n,T d,size_t m){return discretize_with_params(c,n,d,m);}
auto a18(const C&c,T u){return tangential_direction(c,u);}
auto a19(const C&c,T u){return tangential_line(c,u);}
auto a20(const Curve<T,2>&c,T u){return normal_direction(c,u);}
auto a21(const C&c,T u){return normal_direction(c,u);}
auto a22(const C&c,T u){return normal_line(c,u);}
auto a25(const C&c,T a,T b,T t,nlopt::algorithm s){return max_curvature_pos(c,a,b,t,s);}
auto a26(const C&c,T t,nlopt::algorithm s){return max_curvature_pos(c,t,s);}
auto a27(const Curve<T,2>&a,const Curve<T,2>&b,T u){return compute_rolling_ball(a,b,u);}
auto e1(const C&c,const P&p,T u,T t,nlopt::algorithm s){return extrema_curve_point(c,p,u,t,s);}
auto e2(const C&c,const P&p,T t,nlopt::algorithm s,size_t n){return extrema_curve_point(c,p,t,s,n);}
auto e3(const S&c,const P&p,T u,T v,T t,nlopt::algorithm s){return extrema_surf_pnt(c,p,u,v,t,s);}
auto e4(const S&c,const P&p,T t,nlopt::algorithm s,size_t n,size_t m){return extrema_surf_pnt(c,p,t,s,n,m);}
auto e5(const C&c,const C&p,T u,T v,T t,nlopt::algorithm s){return extrema_curve_curve(c,p,u,v,t,s);}
auto e6(const C&c,const C&p,T t,nlopt::algorithm s,size_t n,size_t m){return extrema_curve_curve(c,p,t,s,n,m);}
auto e7(const Line<T,2>&a,const Line<T,2>&b){return extrema_curve_curve(a,b);}
auto e8(const C&c,const std::vector<std::shared_ptr<C>>&l,T t,nlopt::algorithm s,size_t n,size_t m){return extrema_curve_curve_lst<T,3>(c,l.begin(),l.end(),t,s,n,m);}
auto e9(const S&c,const C&p,T u,T v,T w,T t,nlopt::algorithm s){return extrema_surf_curve(c,p,u,v,w,t,s);}
auto e10(const S&c,const C&p,T t,nlopt::algorithm s,size_t n,size_t m,size_t o){return extrema_surf_curve(c,p,t,s,n,m,o);}
auto e11(const C&c,size_t i,T x,std::optional<T> u,int d,size_t m){return solve_coordinate(c,i,x,u,d,m);}
auto e12(const C&c,size_t i,T x,int d,size_t m){return max_coordinate(c,i,x,d,m);}
auto e13(const C&c,size_t i,T x,int d,size_t m){return min_coordinate(c,i,x,d,m);}
}
