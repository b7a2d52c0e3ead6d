//@ text
// C10: the magnitude of the part of a geometry that lies in a domain
#include "common.hh"
#include <iostream>
#include <cstddef>
#include <memory>
#include <frackit/common/id.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/magnitude/containedmagnitude.hh>
using namespace vf;
using Dk = Disk<double>; using Qu = Quadrilateral<double, 3>; using S3 = Segment<double, 3>; using Bx = Box<double>;
//@ stub cm_count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void cm_count_up(const Standard_Transient*) {}
//@ stub cm_count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int cm_count_down(const Standard_Transient*) { return 1; }
//@ stub cm_location : TopLoc_Location::TopLoc_Location\(\)
extern "C" void cm_location(TopLoc_Location* l) { *reinterpret_cast<void**>(l) = nullptr; }
//@ stub cm_location_assign : TopLoc_SListOfItemLocation::Assign\(.*
extern "C" TopLoc_SListOfItemLocation& cm_location_assign(TopLoc_SListOfItemLocation* a, const TopLoc_SListOfItemLocation&) { return *a; }
//@ stub cm_location_clear : TopLoc_SListOfItemLocation::Clear\(\)
extern "C" void cm_location_clear(TopLoc_SListOfItemLocation*) {}
//@ stub cm_begin : opencascade::handle<.*>::BeginScope\(\)
extern "C" void cm_begin(void*) {}
//@ stub cm_end : opencascade::handle<.*>::EndScope\(\)
extern "C" void cm_end(void** h) { *h = nullptr; }


namespace ghost {
// shapes are known by their kind and mark
enum { entity = 1, domain = 2, common = 3 };
template<class T> void mark(T& s, int k) { s.Orientation(TopAbs_Orientation(k)); }
template<class T> int mark(const T& s) { return int(s.Orientation()); }
const void* the_entity; const void* the_domain; int pieces; double tolerance; int the_kind; double the_position;
double size_of(int kind, int k) { return vf_uf3("size", kind, k, 0.0); }
template<class T> void shape_of(T* out, const void* g, int k) { new (out) T(); mark(*out, g == the_domain ? domain : the_kind == k ? entity : 0); }
template<class T> void list(std::vector<T>* out, int m)
{
    new (out) std::vector<T>();
    vf_lemma("pieces-of-the-common-part", m == common);
    for (int i = 0; i < pieces; ++i) { T t; mark(t, i); out->push_back(t); }
}
}
using namespace ghost;
//@ stub cm_shape_s : TopoDS_Edge Frackit::OCCUtilities::getShape<.*>\(Frackit::Segment<double, 3> const&\)
extern "C" void cm_shape_s(TopoDS_Edge* out, const S3& g) { shape_of(out, &g, 1); vf_lemma("the-segment", &g == the_entity); }
//@ stub cm_shape_d : TopoDS_Face Frackit::OCCUtilities::getShape<.*>\(Frackit::Disk<double> const&\)
extern "C" void cm_shape_d(TopoDS_Face* out, const Dk& g) { shape_of(out, &g, 2); vf_lemma("the-disk", vf_eq(g.center().x(), the_position)); }
//@ stub cm_shape_q : TopoDS_Face Frackit::OCCUtilities::getShape<.*>\(Frackit::Quadrilateral<double, 3> const&\)
extern "C" void cm_shape_q(TopoDS_Face* out, const Qu& g) { shape_of(out, &g, 3); vf_lemma("the-quadrilateral", vf_eq(g.corner(0).x(), the_position)); }
//@ stub cm_shape_b : TopoDS_Solid Frackit::OCCUtilities::getShape<.*>\(Frackit::Box<double> const&\)
extern "C" void cm_shape_b(TopoDS_Solid* out, const Bx& g) { shape_of(out, &g, 0); }
//@ stub cm_eps : double Frackit::defaultEpsilon<double>\(Frackit::Box<double> const&\)
extern "C" double cm_eps(const Bx& g) { return &g == the_domain ? tolerance : -1.0; }
//@ stub cm_intersect : TopoDS_Shape Frackit::OCCUtilities::intersect<double>\(TopoDS_Shape const&, TopoDS_Shape const&, double\)
extern "C" void cm_intersect(TopoDS_Shape* out, const TopoDS_Shape& a, const TopoDS_Shape& b, double eps)
{
    vf_lemma("entity-and-domain", (mark(a) == entity && mark(b) == domain) || (mark(b) == entity && mark(a) == domain));
    vf_lemma("default-tolerance-of-the-domain", vf_eq(eps, tolerance));
    new (out) TopoDS_Shape(); mark(*out, common);
}
//@ stub cm_edges : .*Frackit::OCCUtilities::getEdges<TopoDS_Shape>\(TopoDS_Shape const&\)
extern "C" void cm_edges(std::vector<TopoDS_Edge>* out, const TopoDS_Shape& s) { list(out, mark(s)); }
//@ stub cm_faces : .*Frackit::OCCUtilities::getFaces<TopoDS_Shape>\(TopoDS_Shape const&\)
extern "C" void cm_faces(std::vector<TopoDS_Face>* out, const TopoDS_Shape& s) { list(out, mark(s)); }
//@ stub cm_length : double Frackit::compute(Magnitude|Length)<double>\(TopoDS_Edge const&\)
extern "C" double cm_length(const TopoDS_Edge& e) { return size_of(1, mark(e)); }
//@ stub cm_area : double Frackit::compute(Magnitude|Area)<double>\(TopoDS_Face const&, double, gp_Pnt const&\)
extern "C" double cm_area(const TopoDS_Face& f, double, const gp_Pnt&) { return size_of(2, mark(f)); }
//@ harness contained property=C10 merge=0 runs=40 stubs=cm_count_up,cm_count_down,cm_location,cm_location_assign,cm_location_clear,cm_begin,cm_end,cm_shape_s,cm_shape_d,cm_shape_q,cm_shape_b,cm_eps,cm_intersect,cm_edges,cm_faces,cm_length,cm_area bound="at most 3 pieces"
extern "C" void contained()
{
    const int kind = vf_choose("kind", 0, 4);
    const bool pointer = kind >= 2 && vf_choose("pointer", 0, 2);
    const Bx box(0.0, 0.0, 0.0, 1.0, 1.0, 1.0);
    double x = real("x");
    if (!vf_symbolic()) x = x - 2.0*std::floor(0.5*x) - 1.0;       // [-1,1)
    pieces = vf_choose("pieces", 0, 4); tolerance = positive("tolerance");
    the_domain = &box; the_kind = kind; the_position = x;
    const auto p = std::make_shared<P3>(x, 0.0, 0.0);
    const auto s = std::make_shared<S3>(P3(x, 0.5, 0.5), P3(x + 1.0, 0.5, 0.5));
    const auto d = std::make_shared<Dk>(P3(x, 0.5, 0.5), D3(V3(0.0, 1.0, 0.0)), D3(V3(0.0, 0.0, 1.0)), 0.4, 0.2);
    const auto q = std::make_shared<Qu>(P3(x, 0.0, 0.5), P3(x + 1.0, 0.0, 0.5), P3(x, 1.0, 0.5), P3(x + 1.0, 1.0, 0.5));
    the_entity = s.get();
    double r;
    if (kind == 0) r = computeContainedMagnitude(*p, box);
    else if (kind == 1) r = computeContainedMagnitude(*s, box);
    else if (kind == 2) r = pointer ? computeContainedMagnitude(std::shared_ptr<Geometry>(d), box) : computeContainedMagnitude(*d, box);
    else r = pointer ? computeContainedMagnitude(std::shared_ptr<Geometry>(q), box) : computeContainedMagnitude(*q, box);
    double want = 0.0;
    if (vf_symbolic()) { if (kind > 0) for (int i = 0; i < pieces; ++i) want = want + size_of(kind == 1 ? 1 : 2, i); }
    else
    {
        vf_assume(std::fabs(x) > 0.01 && std::fabs(x) < 0.99);
        if (kind == 2) want = x > 0.0 ? M_PI*0.4*0.2 : 0.0;
        else if (kind != 0) want = 1.0 - std::fabs(x);
    }
    vf_assert("sum-over-the-pieces-inside", vf_eq(r, want));
}
