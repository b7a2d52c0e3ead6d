// C20: the interface of intersections with faces given as shapes: bounding boxes first,
// then the algorithm for the pair, in either order of the arguments
#include "common.hh"
#include <iostream>
#include <cstddef>
#include <frackit/common/id.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/intersection/intersect.hh>
using namespace vf;
using Dk = Disk<double>; using Qu = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; using Cy = CylinderSurface<double>; using Fa = TopoDS_Face;
using E3 = EmptyIntersection<3>;

//@ stub fc_count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void fc_count_up(const Standard_Transient*) {}
//@ stub fc_count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int fc_count_down(const Standard_Transient*) { return 1; }
//@ stub fc_location : TopLoc_Location::TopLoc_Location\(\)
extern "C" void fc_location(TopLoc_Location* l) { *reinterpret_cast<void**>(l) = nullptr; }
//@ stub fc_location_assign : TopLoc_SListOfItemLocation::Assign\(.*
extern "C" TopLoc_SListOfItemLocation& fc_location_assign(TopLoc_SListOfItemLocation* a, const TopLoc_SListOfItemLocation&) { return *a; }
//@ stub fc_location_clear : TopLoc_SListOfItemLocation::Clear\(\)
extern "C" void fc_location_clear(TopLoc_SListOfItemLocation*) {}
//@ stub fc_begin : opencascade::handle<.*>::BeginScope\(\)
extern "C" void fc_begin(void*) {}
//@ stub fc_end : opencascade::handle<.*>::EndScope\(\)
extern "C" void fc_end(void** h) { *h = nullptr; }

namespace ghost {
// a face is known by its mark, which its copies share
template<class T> struct Any { alignas(T) unsigned char raw[sizeof(T)]; const T& get() const { return *reinterpret_cast<const T*>(raw); } };
const void* the_shape; double asked; int marks[2];
Fa face(int mark) { Fa f; f.Orientation(TopAbs_Orientation(mark)); return f; }
int mark(const Fa& f) { return int(f.Orientation()); }
template<class V> void answer(V* out, double k, int a, int b, double eps)
{
    vf_lemma("the-geometries", (a == marks[0] && b == marks[1]) || (a == marks[1] && b == marks[0]));
    vf_lemma("the-tolerance", vf_eq(eps, asked));
    new (out) V(); out->push_back(typename V::value_type(P3(k, 0.0, 0.0)));
}
template<class V> double get(const V& v) { return v.size() != 1 ? -1.0 : std::holds_alternative<P3>(v[0]) ? std::get<P3>(v[0]).x() : std::holds_alternative<E3>(v[0]) ? 0.0 : -1.0; }
int known(const void* p) { return p == the_shape ? marks[0] : 99; }
}
using namespace ghost;
//@ stub fc_boxes_meet : bool Frackit::doIntersect<double>\(Frackit::(Bounding)?Box<double> const&, Frackit::(Bounding)?Box<double> const&, double\)
extern "C" bool fc_boxes_meet(const BoundingBox<double>& a, const BoundingBox<double>& b, double eps)
{
    const double x = 1.0 + marks[0], y = 1.0 + marks[1];
    vf_lemma("the-boxes", vf_or(vf_and(a.xMax() == x, b.xMax() == y), vf_and(a.xMax() == y, b.xMax() == x)));
    vf_lemma("the-tolerance", vf_eq(eps, asked));
    return vf_uf3("boxes_meet", 0.0, 0.0, 0.0) > 0.5;
}
//@ stub fc_box_f : .*Frackit::getBoundingBox(<.*>)?\(TopoDS_(Face|Shape) const&\)
extern "C" void fc_box_f(BoundingBox<double>* out, const Fa& g) { new (out) BoundingBox<double>(0.0, 0.0, 0.0, 1.0 + mark(g), 1.0, 1.0); }
//@ stub fc_box_c : .*Frackit::getBoundingBox<Frackit::CylinderSurface<double> ?>\(.*
extern "C" void fc_box_c(BoundingBox<double>* out, const Cy& g) { new (out) BoundingBox<double>(0.0, 0.0, 0.0, 1.0 + known(&g), 1.0, 1.0); }
//@ stub fc_shape_d : Frackit::OCCUtilities::getShape<double>\(Frackit::Disk<double> const&\)|.*Frackit::OCCUtilities::getShape<.*>\(Frackit::Disk<double> const&.*\)
extern "C" void fc_shape_d(Fa* out, const Dk& g) { new (out) Fa(face(known(&g))); }
//@ stub fc_shape_q : .*Frackit::OCCUtilities::getShape<.*>\(Frackit::Quadrilateral<double, 3> const&.*\)
extern "C" void fc_shape_q(Fa* out, const Qu& g) { new (out) Fa(face(known(&g))); }
//@ stub fc_shape_p : .*Frackit::OCCUtilities::getShape<.*>\(Frackit::Polygon<double, 3> const&.*\)
extern "C" void fc_shape_p(Fa* out, const Po& g) { new (out) Fa(face(known(&g))); }
//@ stub fc_is_face_face : Frackit::IntersectionAlgorithms::intersect_face_face_3d\(.*
extern "C" void fc_is_face_face(Intersection<Fa, Fa>* out, const Fa& a, const Fa& b, double eps) { answer(out, 1.0, mark(a), mark(b), eps); }
//@ stub fc_is_cyl_face : .*Frackit::IntersectionAlgorithms::intersect_cylinderSurface_face<double>\(.*
extern "C" void fc_is_cyl_face(Intersection<Cy, Fa>* out, const Cy& a, const Fa& b, double eps) { answer(out, 2.0, known(&a), mark(b), eps); }
namespace ghost {
template<class A> void with_face(double k)
{
    Any<A> a;
    the_shape = &a.get();
    const Fa f = face(marks[1]);
    const double want = vf_uf3("boxes_meet", 0.0, 0.0, 0.0) > 0.5 ? k : 0.0;
    vf_assert("the-answer-of-the-pair-or-empty-boxes-apart", get(intersect(a.get(), f, asked)) == want);
    vf_assert("either-order", get(intersect(f, a.get(), asked)) == want);
}
// concrete runs
template<class A> void with_face(const A& a, const Fa& f, bool empty)
{
    const auto r = intersect(a, f, 1e-6), s = intersect(f, a, 1e-6);
    vf_assert("the-answer-of-the-pair-or-empty-boxes-apart", isEmptyIntersection(r) == empty);
    vf_assert("either-order", isEmptyIntersection(s) == empty && r.size() == s.size());
}
}
//@ harness interface_faces property=C20 stubs=fc_count_up,fc_count_down,fc_location,fc_location_assign,fc_location_clear,fc_begin,fc_end,fc_boxes_meet,fc_box_f,fc_box_c,fc_shape_d,fc_shape_q,fc_shape_p,fc_is_face_face,fc_is_cyl_face merge=0 runs=12
extern "C" void interface_faces()
{
    const int which = vf_choose("pair", 0, 5);
    marks[0] = 1; marks[1] = 2; the_shape = nullptr;
    asked = positive("eps");
    if (vf_symbolic())
    {
        if (which == 0)
        {
            const Fa a = face(1), b = face(2);
            const double want = vf_uf3("boxes_meet", 0.0, 0.0, 0.0) > 0.5 ? 1.0 : 0.0;
            vf_assert("the-answer-of-the-pair-or-empty-boxes-apart", get(intersect(a, b, asked)) == want);
            vf_assert("either-order", get(intersect(b, a, asked)) == want);
        }
        if (which == 1) with_face<Dk>(1.0);
        if (which == 2) with_face<Qu>(1.0);
        if (which == 3) with_face<Po>(1.0);
        if (which == 4) with_face<Cy>(2.0);
    }
    else
    {
        const double z = vf_choose("apart", 0, 2) ? 5.0 : 0.0;
        const bool e = z > 0.0;
        const D3 ex(V3(1.0, 0.0, 0.0)), ey(V3(0.0, 1.0, 0.0)), ez(V3(0.0, 0.0, 1.0));
        const Qu q2(P3(-1, 0, z - 1), P3(1, 0, z - 1), P3(-1, 0, z + 1), P3(1, 0, z + 1));
        const Fa f = OCCUtilities::getShape(q2);
        if (which == 0) with_face(OCCUtilities::getShape(Dk(P3(0, 0, 0), ex, ey, 2, 1)), f, e);
        if (which == 1) with_face(Dk(P3(0, 0, 0), ex, ey, 2, 1), f, e);
        if (which == 2) with_face(Qu(P3(-1, -1, 0), P3(1, -1, 0), P3(-1, 1, 0), P3(1, 1, 0)), f, e);
        if (which == 3) with_face(Po(std::vector<P3>{P3(-1, -1, 0), P3(1, -1, 0), P3(1, 1, 0)}), f, e);
        if (which == 4) with_face(Cy(Circle<double, 3>(P3(0, 0, 0), ez, 0.5), 2), f, e);
    }
}
