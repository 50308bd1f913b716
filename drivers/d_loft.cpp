#include "common.h"
#include <gbs/bssbuild.h>
#include <gbs/loft/loftCurves.h>
using namespace gbs;
namespace drv {
using BC=BSCurve<T,3>; using BR=BSCurveRational<T,3>; using V=std::vector<T>;
using LP=std::list<BSCurveGeneral<T,3,false>*>; using LPR=std::list<BSCurveGeneral<T,3,true>*>;
auto l1(const std::vector<BC>&l,const V&v,size_t q){return loft(l,v,q);}
auto l2(const std::vector<BC>&l,size_t q){return loft(l,q);}
auto l3(const std::vector<BR>&l,size_t q){return loft(l,q);}
auto l3b(const std::vector<BR>&l,const V&v,size_t q){return loft(l,v,q);}
auto l4(const std::vector<std::shared_ptr<Curve<T,3>>>&l,size_t q,T d,size_t n,size_t p){return loft<T,3>(l,q,d,n,p);}
auto l5(const std::vector<std::shared_ptr<Curve<T,3>>>&l,const V&v,size_t q,T d,size_t n,size_t p){return loft<T,3>(l,v,q,d,n,p);}
auto l6(const LP&l,const BC&s,size_t q){return loft<T,3,false>(l,s,q);}
auto l7(const LPR&l,const BC&s,size_t q){return loft<T,3,true>(l,s,q);}
auto l8(const std::list<BC>&l,const BC&s,size_t q){return loft<T,3>(l,s,q);}
auto l9(const LP&l,const BC&s,const V&k,size_t p,size_t q,size_t n,size_t m){return loft_approx<T,3,false>(l,s,k,p,q,n,m);}
auto l10(const LP&l,const BC&s,size_t p,size_t q,size_t n,size_t m,size_t r){return loft_approx<T,3,false>(l,s,p,q,n,m,r);}
auto l11(const LP&l,const BC&s,size_t q){return loft_approx<T,3,false>(l,s,q);}
auto l12(const std::list<BC>&l,const BC&s,size_t q){return loft_approx<T,3>(l,s,q);}
auto l13(const std::vector<BC>&l,const V&v,const V&fv,size_t q){return loft_generic<T,3>(l.begin(),l.end(),v,fv,q);}
auto g1(const std::vector<BC>&u,const Curve<T,3>&c,T tol){return build_intersections<T,3>(u.begin(),u.end(),c,tol);}
auto g2(const std::vector<BC>&u,const std::vector<BC>&v,T tol){return gordon<T,3>(u.begin(),u.end(),v.begin(),v.end(),tol);}
}
