#include "common.h"
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <topology/edge.h>
#include <topology/vertex.h>
#include <topology/wire.h>
using namespace gbs;
template class gbs::Edge<T,2>; template class gbs::Edge<T,3>;
template class gbs::Vertex<T,2>; template class gbs::Vertex<T,3>;
namespace drv {
using FL=std::list<std::shared_ptr<HalfEdgeFace<T,2>>>; using EL=std::list<std::shared_ptr<HalfEdge<T,2>>>;
using PE=std::shared_ptr<HalfEdge<T,2>>; using PF=std::shared_ptr<HalfEdgeFace<T,2>>; using PV=std::shared_ptr<HalfEdgeVertex<T,2>>;
using P2=std::array<T,2>; using VP=std::vector<P2>;
auto m1(const Surface<T,3>&s,size_t a,size_t b,T d){return meshSurfaceBoundary(s,a,b,d);}
auto m2(FL&l,const P2&x,T t){return boyerWatson<T>(l,x,t);}
auto m3(const VP&c,T t){return delaunay2DBoyerWatson<T>(c,t);}
auto m4(const VP&c,const VP&i,T t){return delaunay2DBoyerWatson<T>(c,i,t);}
auto m5(const VP&o,const std::vector<VP>&i,T t){return delaunay2DConstrained<T>(o,i,t);}
auto m6(const VP&o,T t){return delaunay2DConstrained<T>(o,t);}
auto m7(const Surface<T,3>&s,FL&l,T c,size_t m,T t){return delaunay2DBoyerWatsonSurfaceMeshRefine<T,3,DistanceMeshSurface2<T,3>>(s,l,c,m,t);}
auto m8(FL&l,T c,size_t m,T t){return delaunay2DBoyerWatsonMeshRefine<T,2,MaxEdgeSize<T,2>>(l,c,m,t);}
auto m9(const Surface<T,3>&s,size_t a,size_t b,T d,T t){return delaunay2DBoyerWatsonSurfaceBase<T,3>(s,a,b,d,t);}
auto m10(const Surface<T,3>&s,T c,size_t m,size_t a,size_t b,T d,T t){return delaunay2DBoyerWatsonSurfaceMesh<T,3,DeviationMeshSurface2<T,3>>(s,c,m,a,b,d,t);}
auto m11(FL&l,const VP&c,T t){return delaunay2DBoyerWatsonAddInnerBound<T,2>(l,c,t);}
auto m12(FL&l,const VP&c,T t){return delaunay2DBoyerWatsonAddOuterBound<T,2>(l,c,t);}
auto m13(const FL&l){return getTriangle2dMeshArea(l);}
auto m14(const FL&l){return getTriangle2dMeshAreaPar(l);}
auto m15(const FL&l){return getVerticesVectorFromFaces<T,2>(l);}
auto h1(const PF&f,const PE&e,const P2&c){return add_face(f,e,c);}
void h3(PF&a,PF&b){flip(a,b);}
auto h4(const PV&v,const PE&e){return make_opposite(v,e);}
void h5(PE&a,PE&b){link_edges(a,b);chain_edges(a,b);}
auto h7(const EL&l,const PV&v){return add_vertex(l,v);}
auto h8(const PF&l,const PV&v){return add_vertex(l,v);}
auto h9(FL&l,const PV&v){return remove_faces(l,v);}
auto h10(EL&l){return takeClosedLoops(l);}
auto h11(FL&l,const EL&b,T t){return takeExternalFaces<T>(l,b,t);}
auto h12(FL&l,const EL&b,T t){return takeInternalFaces<T>(l,b,t);}
void h13(EL&l){reverseBoundary(l);}
auto h14(PE&e,FL&l){return splitHalfEdge(e,l);}
auto h15(const PV&v){return getFacesAttachedToVertex(v);}
auto h16(const FL&l){return getFacesBoundary(l);}
auto h17(const FL&l){return getOrientedFacesBoundaries(l);}
auto h18(const PF&f){return getNeighboringFaces(f);}
auto h19(const HalfEdgeVertex<T,2>&f){return getNeighboringVertices(f);}
auto h20(const PF&a,const PF&b){return getCommonEdges(a,b);}
auto h22(const FL&l){return getEdgesMap<T,2>(l);}
auto h23(const VP&l,T o){return getEncompassingMesh(l,o);}
auto h26(const VP&c){return make_HalfEdges<T>(c);}
auto h27(const P2&x,const EL&l,T t){return is_inside(x,l,t);}
auto h28(const EL&l){return are_edges_2d_ccw<T>(l);}
auto h29(const PE&e){return getPreviousFace(e);}
auto h30(const PE&e){return getNextFace(e);}

auto r1(const P2&a,const P2&b,const P2&c){return orient2d<T>(a,b,c);}
}
