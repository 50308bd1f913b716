#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/mshedge.h>
#include <gbs-mesh/smoothing.h>
using namespace gbs;
template class gbs::msh_edge<T,2>; template class gbs::msh_edge<T,3>;
namespace drv {
using CL=std::vector<std::shared_ptr<Curve<T,3>>>; using V=std::vector<T>; using VV=std::vector<V>;
auto t1(const CL&a,const CL&b,const V&k,const V&e,size_t n,size_t m,const std::shared_ptr<Surface<T,3>>&s){return tfi_mesh_2d<T,3,1,1,false>(a,b,k,e,n,m,s);}
auto t2(const CL&a,const CL&b,const VV&k,const VV&e,size_t n,size_t m){return tfi_mesh_2d<T,3,1,1,false>(a,b,k,e,n,m);}
auto t3(const CL&a,const CL&b,size_t n,size_t m,T tol){return tfi_mesh_2d<T,3,1,1,false>(a,b,n,m,tol);}
auto t4(const std::shared_ptr<Surface<T,3>>&s,const V&k,const V&e,size_t n,size_t m){return tfi_mesh_2d<T,3,1,1,false>(s,k,e,n,m);}
auto t5(const CL&a,const CL&b,const V&k,const V&e,size_t n,size_t m,const std::shared_ptr<Surface<T,3>>&s){return tfi_mesh_2d<T,3,2,2,true>(a,b,k,e,n,m,s);}
auto t6(const CL&a,const V&u,T d){return msh_curves_set_sizes(a,u,d);}
auto t7(const CL&a,const VV&u,T d){return msh_curves_set_sizes(a,u,d);}
auto t8(const CL&a,const V&u,size_t d){return msh_curves_set_sizes(a,u,d);}
auto t9(const CL&a,const VV&u,size_t d){return msh_curves_set_sizes(a,u,d);}
void t10(const Surface<T,3>&s,points_vector<T,3>&p,T t){project_points_on_surface(s,p,t);}
auto t11(const CL&a,const CL&b,T t){return lattice_intersections(a,b,t);}
auto t12(const V&k,bool s){return build_tfi_blend_function(k,s);}
void t13(points_vector<T,2>&p,size_t nj,size_t a,size_t b,size_t c,size_t d,size_t n,T t){elliptic_structured_smoothing(p,nj,a,b,c,d,n,t);}
}
