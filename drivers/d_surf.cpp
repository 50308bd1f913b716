#include "common.h"
#include <gbs/surfaces>
#include <gbs/bssanalysis.h>
using namespace gbs;
template class gbs::Surface<T,1>; template class gbs::Surface<T,2>; template class gbs::Surface<T,3>;
template class gbs::BSSurface<T,1>; template class gbs::BSSurface<T,2>; template class gbs::BSSurface<T,3>;
template class gbs::BSSurfaceGeneral<T,2,false>; template class gbs::BSSurfaceGeneral<T,3,false>;
template class gbs::BSSurfaceRational<T,2>; template class gbs::BSSurfaceRational<T,3>;
template class gbs::BSSfunction<T>;
template class gbs::SurfaceOfRevolution<T>;
namespace drv {
template <size_t dim, bool rat> void bss(BSSurfaceGeneral<T,dim,rat>&s,const BSSurfaceGeneral<T,dim,rat>&cs,
  const std::vector<std::array<T,dim+rat>>&P,std::vector<std::array<T,dim+rat>>&Pm,const std::vector<T>&k,const std::vector<T>&kv,
  const std::vector<size_t>&m,const std::vector<size_t>&mv,size_t p,size_t q,T u,T u2,size_t r,size_t r2)
{
  using S=std::conditional_t<rat,BSSurfaceRational<T,dim>,BSSurface<T,dim>>;
  S s1(P,k,kv,p,q); S s2(P,k,kv,m,mv,p,q); S s3(cs); s1=s2;
  cs.degreeU();cs.degreeV();cs.orderU();cs.orderV();cs.knotsFlatsU();cs.knotsFlatsV();cs.knotsU();cs.knotsV();cs.multsU();cs.multsV();
  s.insertKnotU(u,r);s.insertKnotV(u,r);cs.poles();cs.pole(r,r2);s.pole(r,r2)=P[0];cs.polesU(r);cs.polesV(r);cs.nPolesU();cs.nPolesV();
  cs.poles_begin();cs.poles_end();s.copyPoles(P);s.movePoles(Pm);s.bounds();s.changeUBounds(u,u2);s.changeVBounds(u,u2);
  s.increaseDegreeU();s.increaseDegreeV();s.invertUV();s.reverseU();s.reverseV();s.trimU(u,u2);s.trimV(u,u2);cs.isoU(u);cs.isoV(u);
}
#define I(D,R) template void bss<D,R>(BSSurfaceGeneral<T,D,R>&,const BSSurfaceGeneral<T,D,R>&,const std::vector<std::array<T,D+R>>&,std::vector<std::array<T,D+R>>&,const std::vector<T>&,const std::vector<T>&,const std::vector<size_t>&,const std::vector<size_t>&,size_t,size_t,T,T,size_t,size_t);
I(2,false) I(3,false) I(2,true) I(3,true)
#define V(D) void sv(const Surface<T,D>&s,const std::vector<T>&u,const std::vector<T>&v,const std::vector<std::array<T,2>>&uv,size_t du,size_t dv){ s.values(u,v,du,dv); s.values(uv,du,dv); s.d_dmus(uv); s.d_dmvs(uv); s.d_dmu2s(uv); s.d_dmv2s(uv);}
V(1) V(2) V(3)
auto ds(const Surface<T,3>&s,size_t nu,size_t nv){return discretize(s,nu,nv);}
auto du(const Surface<T,3>&s,T a,T b,T c,size_t n,T d,size_t m){return deviation_based_u_params(s,a,b,c,n,d,m);}
auto dv(const Surface<T,3>&s,T a,T b,T c,size_t n,T d,size_t m){return deviation_based_v_params(s,a,b,c,n,d,m);}
void rc(const points_vector<T,3>&P,const std::vector<T>&w,const std::vector<T>&k,const std::vector<T>&kv,const std::vector<size_t>&m,const std::vector<size_t>&mv,size_t p,size_t q)
{ BSSurfaceRational<T,3> a(P,w,k,kv,p,q); BSSurfaceRational<T,3> b(P,w,k,kv,m,mv,p,q); a.value(k[0],kv[0]); b.value(k[0],kv[0]); }
}
