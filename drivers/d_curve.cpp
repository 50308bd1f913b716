#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscbuild.h>
using namespace gbs;
template class gbs::Curve<T,1>; template class gbs::Curve<T,2>; template class gbs::Curve<T,3>;
template class gbs::BSCurve<T,1>; template class gbs::BSCurve<T,2>; template class gbs::BSCurve<T,3>;
template class gbs::BSCurveRational<T,2>; template class gbs::BSCurveRational<T,3>;
template class gbs::BSCfunction<T>;
template class gbs::Line<T,2>; template class gbs::Line<T,3>;
template class gbs::Circle2d<T>; template class gbs::Circle3d<T>;
template class gbs::CurveReparametrized<T,2>; template class gbs::CurveReparametrized<T,3>;
template class gbs::CurveTrimmed<T,2>; template class gbs::CurveTrimmed<T,3>;
template class gbs::CurveComposite<T,2>; template class gbs::CurveComposite<T,3>;
template class gbs::CurveReversed<T,2>; template class gbs::CurveReversed<T,3>;
template class gbs::CurveExtended<T,2>; template class gbs::CurveExtended<T,3>;
template class gbs::CurveOffset2D<T,BSCfunction<T>>;
template class gbs::CurveOffset3D<T,BSCfunction<T>>;
template class gbs::CurveOnSurface<T,2>; template class gbs::CurveOnSurface<T,3>;
namespace drv {
#define DIMS(D) \
points_vector<T,D> values(const Curve<T,D>&c,const std::vector<T>&u,size_t d){return c.values(u,d);} \
points_vector<T,D> d_dms(const Curve<T,D>&c,const std::vector<T>&u){return c.d_dms(u);} \
points_vector<T,D> d_dm2s(const Curve<T,D>&c,const std::vector<T>&u){return c.d_dm2s(u);}
DIMS(1) DIMS(2) DIMS(3)
template <size_t dim, bool rat> void bsc(BSCurveGeneral<T,dim,rat>&c,const BSCurveGeneral<T,dim,rat>&cc,
  const std::vector<std::array<T,dim+rat>>&P,std::vector<std::array<T,dim+rat>>&Pm,const std::vector<T>&k,const std::vector<size_t>&m,size_t p,
  T u,T u2,T tol,size_t r,bool b,std::vector<std::pair<T,size_t>>&km,const std::array<T,2>&bd)
{
  using C=std::conditional_t<rat,BSCurveRational<T,dim>,BSCurve<T,dim>>;
  C c1(P,k,m,p); C c2(P,k,p); C c3(cc); c1=c2;
  c.isRational(); cc.degree(); cc.order(); cc.knotsFlats(); cc.knots(); cc.mults(); cc.info();
  c.insertKnot(u,r); c.insertKnots(km); c.removeKnot(u,tol,r); cc.poles(); cc.poles_begin(); cc.poles_end();
  c.copyPoles(P); c.movePoles(Pm); cc.pole(r); c.pole(r)=P[0]; c.copyKnots(k); c.reverse(); cc.reversed();
  c.trim(u,u2,b); c.changeBounds(u,u2); c.changeBounds(bd); c.bounds(); c.increaseDegree(r);
}
template void bsc<1,false>(BSCurveGeneral<T,1,false>&,const BSCurveGeneral<T,1,false>&,const std::vector<std::array<T,1>>&,std::vector<std::array<T,1>>&,const std::vector<T>&,const std::vector<size_t>&,size_t,T,T,T,size_t,bool,std::vector<std::pair<T,size_t>>&,const std::array<T,2>&);
template void bsc<2,false>(BSCurveGeneral<T,2,false>&,const BSCurveGeneral<T,2,false>&,const std::vector<std::array<T,2>>&,std::vector<std::array<T,2>>&,const std::vector<T>&,const std::vector<size_t>&,size_t,T,T,T,size_t,bool,std::vector<std::pair<T,size_t>>&,const std::array<T,2>&);
template void bsc<3,false>(BSCurveGeneral<T,3,false>&,const BSCurveGeneral<T,3,false>&,const std::vector<std::array<T,3>>&,std::vector<std::array<T,3>>&,const std::vector<T>&,const std::vector<size_t>&,size_t,T,T,T,size_t,bool,std::vector<std::pair<T,size_t>>&,const std::array<T,2>&);
template void bsc<2,true>(BSCurveGeneral<T,2,true>&,const BSCurveGeneral<T,2,true>&,const std::vector<std::array<T,3>>&,std::vector<std::array<T,3>>&,const std::vector<T>&,const std::vector<size_t>&,size_t,T,T,T,size_t,bool,std::vector<std::pair<T,size_t>>&,const std::array<T,2>&);
template void bsc<3,true>(BSCurveGeneral<T,3,true>&,const BSCurveGeneral<T,3,true>&,const std::vector<std::array<T,4>>&,std::vector<std::array<T,4>>&,const std::vector<T>&,const std::vector<size_t>&,size_t,T,T,T,size_t,bool,std::vector<std::pair<T,size_t>>&,const std::array<T,2>&);
void ratctor(const std::vector<std::array<T,3>>&P,const std::vector<T>&w,const std::vector<T>&k,const std::vector<size_t>&m,size_t p){ BSCurveRational<T,3> c(P,w,k,m,p); BSCurveRational<T,3> c2(P,k,w,p); c.value(k[0]); c2.value(k[0]);}
bool ck(size_t n,const std::vector<T>&k,size_t p){return check_curve(n,k,p);}
// free functions of the basis / knot layer
T bf(T u,size_t i,size_t p,size_t d,const std::vector<T>&k){return basis_function(u,i,p,d,k);}
void bd(size_t i,size_t p,size_t d,T u,const std::vector<T>&k,T*N){basis_ders(i,p,d,u,k,N);}
void bfs(size_t i,size_t p,T u,const std::vector<T>&k,T*N,std::vector<T>&V){basis_funcs(i,p,u,k,N);basis_funcs(i,p,u,k,V);}
void dbf(size_t i,size_t p,size_t n,T u,const std::vector<T>&k,T*N){ders_basis_funs(i,p,n,u,k,N);}
auto evd(T u,const std::vector<T>&k,const points_vector<T,3>&P,size_t p){return eval_value_deboor_cox(u,k,P,p);}
auto sw(const points_vector<T,4>&P,points_vector<T,3>&Q,std::vector<T>&w){separate_weights<T,3>(P,Q,w);}
auto sp(points_vector<T,4>&P,T s){scale_poles(P,s);scale_weights(P,s);return scaled_poles(P,s);}
auto sws(const points_vector<T,4>&P,T s){return scaled_weights(P,s);}
auto bk1(const std::vector<T>&u,size_t p){return build_simple_mult_flat_knots<T>(u,p);}
auto bk2(T a,T b,size_t n,size_t p){return build_simple_mult_flat_knots<T>(a,b,n,p);}
auto bk3(const std::vector<T>&u,size_t p,size_t m){return build_mult_flat_knots<T>(u,p,m);}
auto bk4(T a,T b,size_t n,size_t p,size_t m){return build_mult_flat_knots<T>(a,b,n,p,m);}
auto cp(const points_vector<T,3>&P,KnotsCalcMode m,bool a){return curve_parametrization(P,m,a);}
auto rk(T u,size_t p,std::vector<T>&U,points_vector<T,3>&P,T tol){return remove_knot(u,p,U,P,tol);}
auto rk2(T u,size_t n,std::vector<T>&U,points_vector<T,3>&P,size_t p){remove_knot(u,n,U,P,p);}
auto seg(const point<T,3>&a,const point<T,3>&b,bool n){return build_segment(a,b,n);}
auto ell(T a,T b,const point<T,3>&c){return build_ellipse<T,3>(a,b,c);}
auto ell2(T a,T b,const point<T,2>&c){return build_ellipse<T,2>(a,b,c);}
auto circ(T a,const point<T,3>&c){return build_circle<T,3>(a,c);}
auto der(const BSCurve<T,3>&c){return build_derivate(c);}
auto integ(const BSCurve<T,3>&c,point<T,3> p){return build_integrate(c,p);}
}
