#include "common.h"
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <topology/baseIntersection.h>
#include <topology/baseGeom.h>
#include <topology/edge.h>
#include <topology/vertex.h>
#include <topology/wire.h>
using namespace gbs;
namespace drv {
using FL=std::list<std::shared_ptr<HalfEdgeFace<T,2>>>; using EL=std::list<std::shared_ptr<HalfEdge<T,2>>>;
using PE=std::shared_ptr<HalfEdge<T,2>>; using PF=std::shared_ptr<HalfEdgeFace<T,2>>; using PV=std::shared_ptr<HalfEdgeVertex<T,2>>;
using P2=std::array<T,2>; using P3=std::array<T,3>; using VP=std::vector<P2>;
auto a1(T a,T b,T c,T d,T e,T f){return orient_2d<T>(a,b,c,d,e,f);}
auto a2(const P2&a,const P2&b,const P2&c){return orient_2d<T>(a,b,c);}
auto a3(const P2&a,const P2&b,const P2&c){return are_ccw<T>(a,b,c);}
auto a4(const P3&a,const P3&b,const P3&c){return tri_area<T>(a,b,c);}
auto a5(const P2&a,const P2&b,const P2&c){return tri_area<T>(a,b,c);}
auto a6(const P2&a,const P2&b,const P2&c){return perimeter<T>(a,b,c);}
auto a7(const Surface<T,3>&s,const P2&a,const P2&b,const P2&c){return surface_triangle_deviation<T,3>(s,a,b,c);}
auto a8(const P2&a,const P2&b,const P2&c,const P2&d){return in_triangle<T>(a,b,c,d);}
auto a9(const P2&a,const P2&b,const P2&c,const P2&d){return triangle_barycentric_coordinates<T>(a,b,c,d);}
auto a10(const P2&a,const P2&b,const P2&c,const P2&d){return in_triangle_barycentric<T>(a,b,c,d);}
auto a11(T a,T b,T c,T d,T e,T f,T g,T h){return in_circle<T>(a,b,c,d,e,f,g,h);}
auto a12(const P2&a,const P2&b,const P2&c,const P2&d){return in_circle<T>(a,b,c,d);}
auto a13(const P2&a,const P2&b,const P2&c,const P2&d,T t){return seg_seg_strict_intersection<T>(a,b,c,d,t);}
auto a14(const P2&a,const P2&b,const P2&c,T t){return on_segment<T>(a,b,c,t);}
auto a15(const P2&a,const P2&b,const P2&c,const P2&d,T t){return seg_D_strict_end_intersection<T>(a,b,c,d,t);}
auto a16(const P2&a,const P2&b,const P2&c,T t){return seg_H_strict_end_intersection<T>(a,b,c,t);}
auto a13b(const P2&a,const P2&b,const P2&c,const P2&d){return seg_seg_strict_intersection<T>(a,b,c,d);}
auto a14b(const P2&a,const P2&b,const P2&c){return on_segment<T>(a,b,c);}
auto a15b(const P2&a,const P2&b,const P2&c,const P2&d){return seg_D_strict_end_intersection<T>(a,b,c,d);}
auto a16b(const P2&a,const P2&b,const P2&c){return seg_H_strict_end_intersection<T>(a,b,c);}
auto b1(const VP&c){return make_shared_h_vertices<T,2>(c);}
auto b2(const VP&c){return make_shared_h_edges<T,2>(c);}
auto b1b(const VP&c){return make_shared_h_vertices<T,2,VP>(c);}
auto b2b(const VP&c){return make_shared_h_edges<T,2,VP>(c);}
auto b3(const PF&f){return is_ccw<T>(f);}
auto b4(const FL&f){return are_face_ccw(f);}
auto b5(const HalfEdge<T,2>&e,const HalfEdgeFace<T,2>&f){return areFacesEdgesIntersect<T>(e,f);}
auto b6(const HalfEdgeVertex<T,2>&v){return is_boundary<T,2>(v);}
auto b7(const HalfEdgeFace<T,2>&f){return getTriangleVertices<T,2>(f);}
auto b8(const PF&f){return getTriangleVertices<T,2>(f);}
auto b9(const HalfEdgeFace<T,2>&f){return getTriangleCoords<T,2>(f);}
auto b10(const PF&f){return getTriangleCoords<T,2>(f);}
auto b11(const FL&f){return getOrientedFacesBoundary<T,2>(f);}
auto b12(const PE&f){return edge_direction<T,2>(f);}
auto b13(const PE&f){return edge_sq_length<T,2>(f);}
auto b14(const PE&f,const Surface<T,3>&s){return edge_sq_length<T,3>(f,s);}
auto b15(std::vector<PV>&v){return base_delaunay2d_mesh<T>(v);}
auto b17(const PF&f,const EL&b,T t){return is_centroid_inside_boundary<T,EL>(f,b,t);}
auto b18(const PE&e){return is_locally_delaunay<T>(e);}
auto b19(const P2&x,const PF&f){return in_circle<T>(x,f);}
void b20(PV&v,PE&e){associate<T,2>(v,e);}
void b21(const FL&l){repairVertexEdges<T,2>(l);}
auto b22(const PE&e,const P2&c){return add_face<T,2>(e,c);}
auto b23(const PF&f,const PE&e,const P2&c){return add_face<T,2>(f,e,c);}
void w1(Wire<T,3>&w,std::shared_ptr<Edge<T,3>>&e,const Edge<T,3>&f){w.addEdge(e);w.addEdge(f);}
auto w2(const Wire<T,3>&w){return w.isClosed();}
auto w3(Wire<T,3>&w){return w.close();}
void w4(Wire<T,3>&w){w.tessellate();}
auto g1(const P2&a,const P2&b,const P2&c){return circle_center<T>(a,b,c);}
auto g2(const P3&a,const P3&b,const P3&c){return sphere_center<T>(a,b,c);}
auto g3(const P2&a,const P2&b,const P2&c){return incenter<T>(a,b,c);}
auto g4(const P2&a,const P2&b,const P2&c,const P2&d){return computeUV<T,2>(a,b,c,d);}
auto g5(const P3&a,const P3&b,const P3&c,const P3&d){return computeUV<T,3>(a,b,c,d);}
auto g6(const VP&a){return getCoordsMinMax<T,2>(a);}
auto g7(const std::vector<P3>&a){return getCoordsMinMax<T,3>(a);}
auto g8(const PE&e,T pos){return getEdgePoint<T,2>(e,pos);}
auto q1(const Surface<T,3>&s,const PF&f){return DistanceMeshSurface<T,3>{s}(f);}
auto q2(const Surface<T,3>&s,const PF&f){return DistanceMeshSurface2<T,3>{s}(f);}
auto q3(const Surface<T,3>&s,const PF&f){return DistanceMeshSurface3<T,3>{s}(f);}
auto q4(const Surface<T,3>&s,const PF&f){return DeviationMeshSurface<T,3>{s}(f);}
auto q5(const Surface<T,3>&s,const PF&f){return DeviationMeshSurface2<T,3>{s}(f);}
auto q6(const Surface<T,3>&s,const PF&f){return MaxEdgeSizeSurface<T,3>{s}(f);}
auto q7(const PF&f){return MaxEdgeSize<T,2>{}(f);}
auto q8(const PF&f){return TriangleShapeEdgeSplit<T,2>{T(0.02)}(f);}
auto q9(const PF&f){return TriangleShape<T,2>{T(0.02)}(f);}
auto q10(const PF&f){return TriangleShape2<T,2>{T(0.02)}(f);}
}
template class gbs::Wire<T,2>; template class gbs::Wire<T,3>;
