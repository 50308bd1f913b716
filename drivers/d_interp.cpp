#include "common.h"
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bssinterp.h>
#include <gbs/bssapprox.h>
using namespace gbs;
namespace drv {
using P3=points_vector<T,3>; using V=std::vector<T>;
auto i1(const std::vector<constrType<T,3,1>>&Q,const V&u,bool a){return interpolate<T,3,1>(Q,u,a);}
auto i2(const std::vector<constrType<T,3,2>>&Q,const V&u,bool a){return interpolate<T,3,2>(Q,u,a);}
auto i3(const std::vector<constrType<T,3,3>>&Q,KnotsCalcMode m,bool a){return interpolate<T,3,3>(Q,m,a);}
auto i4(const std::vector<constrType<T,3,1>>&Q,const V&u,size_t p){return interpolate<T,3>(Q,u,p);}
auto i5(const std::vector<constrType<T,3,1>>&Q,size_t p,KnotsCalcMode m){return interpolate<T,3>(Q,p,m);}
auto i6(const P3&Q,size_t p,KnotsCalcMode m){return interpolate<T,3>(Q,p,m);}
auto i7(const std::vector<P3>&Q,size_t p,KnotsCalcMode m){return interpolate<T,3>(Q,p,m);}
auto i8(const P3&Q,const V&u,size_t p){return interpolate<T,3>(Q,u,p);}
auto i9(const V&Q,const V&u,size_t p){return interpolate<T>(Q,u,p);}
auto i10(const bsc_bound<T,3>&a,const bsc_bound<T,3>&b,const std::vector<bsc_constraint<T,3>>&c,size_t p){return interpolate<T,3>(a,b,c,p);}
auto b1(const std::vector<constrType<T,3,2>>&Q,const V&k,const V&u,size_t p){return build_poles<T,3,2>(Q,k,u,p);}
auto b2(const std::vector<constrPoint<T,3>>&Q,const V&k,size_t p){return build_poles<T,3>(Q,k,p);}
auto b3(const P3&Q,const V&k,const V&u,size_t p){return build_poles(Q,k,u,p);}
auto b4(const std::vector<std::vector<constrType<T,3,1>>>&Q,const V&k,const V&u,size_t p){return build_poles<T,3,1>(Q,k,u,p);}
auto tgd(const P3&Q,const V&u){return build_3pt_tg_dir(Q,u);}
auto tgv(const P3&Q,const V&u){return build_3pt_tg_vec(Q,u);}
auto a1(const P3&p,size_t d,size_t n,const V&u,const V&k){return approx_bound_fixed(p,d,n,u,k);}
auto a2(const P3&p,size_t d,size_t n,const V&u,const V&k){return approx(p,d,n,u,k);}
auto a3(const P3&p,size_t d,size_t n,const V&u,bool f){return approx(p,d,n,u,f);}
auto a4(const P3&p,const V&u,const BSCurve<T,3>&c,bool f,T dm,T da,size_t nm){return refine_approx(p,u,c,f,dm,da,nm);}
auto a5(const P3&p,const V&u,size_t d,bool f,T dm,T da,size_t nm){return approx(p,u,d,f,dm,da,nm);}
auto a6(const P3&p,size_t d,KnotsCalcMode m,bool f,T dm,T da,size_t nm,bool ad){return approx(p,d,m,f,dm,da,nm,ad);}
auto a7(const P3&p,size_t d,size_t n,KnotsCalcMode m,bool ad){return approx(p,d,n,m,ad);}
auto a8(const std::vector<P3>&p,size_t d,size_t n,KnotsCalcMode m,bool ad){return approx(p,d,n,m,ad);}
auto a9(const Curve<T,3>&c,T d,size_t p,KnotsCalcMode m,size_t np){return approx(c,d,p,m,np);}
auto a10(const Curve<T,3>&c,T d,size_t n,size_t p,KnotsCalcMode m){return approx(c,d,n,p,m);}
auto a11(const Curve<T,3>&c,size_t p,size_t n,V k,T d,size_t np,size_t nm){return approx<T,3>(c,p,n,k,d,np,nm);}
auto a12(const Curve<T,3>&c,T d,T tol,size_t p,size_t np){return approx<T,3>(c,d,tol,p,np);}
auto a13(const Curve<T,3>&c,T d,T tol,size_t p,size_t n,size_t np){return approx<T,3>(c,d,tol,p,n,np);}
auto a14(const Curve<T,3>&c,T u1,T u2,T d,T tol,size_t p,size_t np){return approx<T,3>(c,u1,u2,d,tol,p,np);}
auto a15(const Curve<T,3>&c,const std::function<std::array<T,3>(const std::array<T,3>&)>&f,T d,T tol,size_t p,size_t np){return approx<T,3>(c,f,d,tol,p,np);}
auto a16(const Curve<T,3>&c,size_t p,size_t np){return approx<T,3>(c,p,np);}
auto s1(const P3&Q,size_t n,size_t p,size_t q,KnotsCalcMode m){return interpolate<T,3>(Q,n,p,q,m);}
auto s2(const std::vector<bss_constraint<T,3>>&Q,size_t n,size_t p,size_t q,const std::array<T,4>&b,const std::array<size_t,2>&m){return interpolate<T,3>(Q,n,p,q,b,m);}
auto s3(const P3&Q,const V&ku,const V&kv,const V&u,const V&v,size_t p,size_t q){return build_poles(Q,ku,kv,u,v,p,q);}
auto s4(const std::vector<bss_constraint<T,3>>&Q,const V&ku,const V&kv,size_t p,size_t q){return build_poles(Q,ku,kv,p,q);}
auto s5(const P3&Q,const V&ku,const V&kv,const V&u,const V&v,size_t p,size_t q){return approx(Q,ku,kv,u,v,p,q);}
auto s6(const std::vector<bss_constraint<T,3>>&Q,const V&ku,const V&kv,size_t p,size_t q){return approx(Q,ku,kv,p,q);}
}
namespace drv { auto bpN(const Eigen::PartialPivLU<MatrixX<T>>&N,const points_vector<T,3>&q){return build_poles<T,3>(N,q);} }
