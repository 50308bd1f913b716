#include "common.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromtext.h>
#include <gbs-io/fromjson2.h>
using namespace gbs;
namespace drv {
using A=rapidjson::Document::AllocatorType; using J=rapidjson::Value;
J w1(const Curve<T,2>*c,A&a){return make_json<T>(c,a);}
J w2(const Curve<T,3>*c,A&a){return make_json<T,3>(c,a);}
J w3(const Surface<T,3>*c,A&a){return make_json<T>(c,a);}
J w4(const Surface<T,2>*c,A&a){return make_json<T,2>(c,a);}
J w5(const CurveOnSurface<T,3>&c,A&a){return make_json(c,a);}
J w6(const BSCfunction<T>&c,A&a){return make_json(c,a);}
J w7(const CurveOffset3D<T,BSCfunction<T>>&c,A&a){return make_json(c,a);}
auto r1(const J&v){return make_curve<T,2>(v);}
auto r2(const J&v){return make_curve<T,3>(v);}
auto r3(const J&v){return make_surface<T,2>(v);}
auto r4(const J&v){return make_surface<T>(v);}
auto r5(const J&v){return make_bscurve<T,3>(v);}
auto r6(const J&v){return make_bssurface<T,3>(v);}
auto r7(const J&v,const std::vector<T>&u){return make_bscurve<T,3>(v,u);}
auto r8(const J&v){return bscurve_interp_cn<T,3>(v);}
auto r9(const char*f,rapidjson::Document&d){return parse_file(f,d);}
auto r10(const char*f){return bscurve_approx_from_points<T,3>(f,3,KnotsCalcMode::CHORD_LENGTH,1);}
auto r11(const std::string&f){return bscurve_approx_from_points<T,2>(f,3);}
J w8(const Line<T,2>&c,A&a){return make_json<T,2>(c,a);}
J w9(const Line<T,3>&c,A&a){return make_json<T,3>(c,a);}
auto r12(const J&v){return bscurve_direct_mults<T,3>(v);}
auto r13(const J&v){return bscurve_direct_mults<T,2>(v);}
}
