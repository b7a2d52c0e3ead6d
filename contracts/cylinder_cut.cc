// C20 a lateral cylinder surface and a planar geometry
#include <vector>
#include <algorithm>
#include <array>
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/intersection/intersect.hh>
using namespace vf;
using Pl = Frackit::Plane<double, 3>;
using Cy = CylinderSurface<double>;
using L3 = Line<double, 3>;
using S3 = Segment<double, 3>;
using E3 = EmptyIntersection<3>;
using El = Ellipse<double, 3>;
using Ar = EllipseArc<double, 3>;

namespace ghost {
struct RawVec { double x, y, z; };
inline R3 raw(const void* p) { const RawVec* v = static_cast<const RawVec*>(p); return r3(v->x, v->y, v->z); }
inline P3 p3(R3 v) { return P3(v.x, v.y, v.z); }
double state(const char* n, int id) { return vf_uf3(n, id, 0.0, 0.0); }
// any planar geometry
struct Sheet
{
    using ctype = double;
    static constexpr int myDimension() { return 2; }
    static constexpr int worldDimension() { return 3; }
    const Pl* plane;
    static std::string name() { return "Sheet"; }
    const Pl& supportingPlane() const { return *plane; }
    P3 center() const { return P3(state("cx", 0), state("cy", 0), state("cz", 0)); }
};
// OpenCASCADE shapes, by what they are; wires and vertices by their number and the points they have
struct Raw { const void* ghost; void* location; int orientation; };
enum { sheet_face = 1, solid, lateral, inner_face, outline, outline_on_surface, outline_cut, inner_outline, curves, first_wire };
const int* tag(int k) { static const int t[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}; return &t[k]; }
template<class S> void shape(S* out, int k) { static_assert(sizeof(S) == sizeof(Raw), ""); new (out) Raw{tag(k), nullptr, 0}; }
int which_shape(const TopoDS_Shape& s) { return **reinterpret_cast<const int* const*>(&s); }
template<class T> void shapes(std::vector<T>* out, int first, int n)
{ new (out) std::vector<T>(); for (int i = 0; i < n; ++i) { Raw r{tag(first + i), nullptr, 0}; out->push_back(reinterpret_cast<const T&>(r)); } }
struct Count { bool level; int faces, outer, vertices, curves; } the_count;
R3 tip(int wire, int k) { return r3(vf_uf3("wx", wire, k, 0.0), vf_uf3("wy", wire, k, 0.0), vf_uf3("wz", wire, k, 0.0)); }
bool on_surface(R3 p) { return vf_uf3("on_surface", p.x, p.y, p.z) > 0.5; }
bool on_piece(R3 a, R3 b, R3 p) { return vf_uf3("on_piece", vf_uf3("pair", a.x, a.y, a.z), vf_uf3("pair", b.x, b.y, b.z), vf_uf3("pair", p.x, p.y, p.z)) > 0.5; }
bool as_one(R3 a, R3 b) { return vf_uf3("as_one", vf_uf3("pair", a.x, a.y, a.z), vf_uf3("pair", b.x, b.y, b.z), 0.0) > 0.5; }
Cy surface() { const P3 c = point("c"); const double r = positive("r"), h = positive("h"); return Cy(Circle<double, 3>(c, direction("ca"), r), h); }
}
using namespace ghost;
namespace Frackit { template<> struct IntersectionTraits<CylinderSurface<double>, ghost::Sheet> : IntersectionTraits<CylinderSurface<double>, Disk<double>> {}; }
//@ stub failure : Standard_Failure::Standard_Failure\(char const\*\)
extern "C" void failure(Standard_Failure*, const char*) {}
//@ stub count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void count_up(const Standard_Transient*) {}
//@ stub count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int count_down(const Standard_Transient*) { return 1; }
//@ stub vec_angle : gp_Vec::Angle\(gp_Vec const&\) const
extern "C" double vec_angle(const gp_Vec* a, const gp_Vec& b)
{
    const double k = ghost::the_count.level ? 1.0 : 0.0;
    vf_lemma("cosine", vf_eq(dot(raw(a), raw(&b)), k));
    return ghost::the_count.level ? 0.0 : M_PI/2.0;
}
//@ stub sheet_shape : .*Frackit::OCCUtilities::getShape<ghost::Sheet>\(.*
extern "C" void sheet_shape(TopoDS_Shape* out, const Sheet&) { shape(out, sheet_face); }
//@ stub solid_shape : .*Frackit::OCCUtilities::getShape<double>\(Frackit::Cylinder<double> const&\)
extern "C" void solid_shape(TopoDS_Solid* out, const Cylinder<double>&) { shape(out, solid); }
//@ stub lateral_shape : .*Frackit::OCCUtilities::getShape<double>\(Frackit::CylinderSurface<double> const&\)
extern "C" void lateral_shape(TopoDS_Face* out, const Cy&) { shape(out, lateral); }
//@ stub kernel_common : TopoDS_Shape Frackit::OCCUtilities::intersect<double>\(.*
extern "C" void kernel_common(TopoDS_Shape* out, const TopoDS_Shape& a, const TopoDS_Shape& b, double)
{
    const int x = which_shape(a), y = which_shape(b);
    auto both = [&] (int u, int v) { return (x == u && y == v) || (x == v && y == u); };
    const int r = both(sheet_face, solid) ? inner_face : both(outline, lateral) ? outline_on_surface : both(inner_outline, lateral) ? curves : 0;
    vf_lemma("known-shapes", r != 0);
    shape(out, r);
}
//@ stub kernel_cut : TopoDS_Shape Frackit::OCCUtilities::cut<double>\(.*
extern "C" void kernel_cut(TopoDS_Shape* out, const TopoDS_Shape& a, const TopoDS_Shape& b, double)
{ vf_lemma("known-shapes", which_shape(a) == outline && which_shape(b) == lateral); shape(out, outline_cut); }
//@ stub kernel_faces : (_ZN7Frackit12OCCUtilities8getFacesI12TopoDS_Shape.*|std::vector<TopoDS_Face.*Frackit::OCCUtilities::getFaces<TopoDS_Shape>.*)
extern "C" void kernel_faces(std::vector<TopoDS_Face>* out, const TopoDS_Shape& s)
{ vf_lemma("known-shapes", which_shape(s) == inner_face); shapes(out, inner_face, the_count.faces); }
//@ stub kernel_wires : (_ZN7Frackit12OCCUtilities8getWiresI12TopoDS_Shape.*|std::vector<TopoDS_Wire.*Frackit::OCCUtilities::getWires<TopoDS_Shape>.*)
extern "C" void kernel_wires(std::vector<TopoDS_Wire>* out, const TopoDS_Shape& s)
{
    const int k = which_shape(s);
    if (k == sheet_face) shapes(out, outline, 1);
    else if (k == inner_face) shapes(out, inner_outline, 1);
    else { vf_lemma("known-shapes", k == outline_on_surface || k == curves); shapes(out, first_wire, k == curves ? the_count.curves : the_count.outer); }
}
//@ stub kernel_vertices : (_ZN7Frackit12OCCUtilities11getVerticesI12TopoDS_Shape.*|std::vector<TopoDS_Vertex.*Frackit::OCCUtilities::getVertices<TopoDS_Shape>.*)
extern "C" void kernel_vertices(std::vector<TopoDS_Vertex>* out, const TopoDS_Shape& s)
{ vf_lemma("known-shapes", which_shape(s) == outline_cut); shapes(out, first_wire + 2, the_count.vertices); }
//@ stub kernel_point : Frackit::OCCUtilities::point\(TopoDS_Vertex const&\)
extern "C" void kernel_point(P3* out, const TopoDS_Vertex& v) { new (out) P3(p3(tip(which_shape(v), 0))); }
//@ stub kernel_tips : .*getWireTips<double>\(TopoDS_Wire const&\)
extern "C" void kernel_tips(std::pair<P3, P3>* out, const TopoDS_Wire& w) { const int k = which_shape(w); new (out) std::pair<P3, P3>(p3(tip(k, 0)), p3(tip(k, 1))); }
//@ stub kernel_closed : BRep_Tool::IsClosed\(TopoDS_Shape const&\)
extern "C" bool kernel_closed(const TopoDS_Shape&) { return state("closed", 0) > 0.5; }
//@ stub surface_contains : Frackit::CylinderSurface<double>::contains\(Frackit::Point<double, 3> const&, double\) const
extern "C" bool surface_contains(const Cy*, const P3& p, double eps) { vf_lemma("tolerance", vf_eq(eps, state("eps", 0))); return on_surface(r3(p)); }
//@ stub segment_contains : Frackit::Segment<double, 3>::contains\(Frackit::Point<double, 3> const&, double, bool\) const
extern "C" bool segment_contains(const S3* s, const P3& p, double eps, bool) { vf_lemma("tolerance", vf_eq(eps, state("eps", 0))); return on_piece(r3(s->source()), r3(s->target()), r3(p)); }
//@ stub arc_contains : Frackit::EllipseArc<double, 3>::contains\(Frackit::Point<double, 3> const&, double, bool\) const
extern "C" bool arc_contains(const Ar* s, const P3& p, double eps, bool) { vf_lemma("tolerance", vf_eq(eps, state("eps", 0))); return on_piece(r3(s->source()), r3(s->target()), r3(p)); }
//@ stub points_equal : Frackit::PointBase<Frackit::Point<double, 3>, double, 3>::isEqual\(Frackit::Point<double, 3> const&, double\) const
extern "C" bool points_equal(const P3* a, const P3& b, double eps) { vf_lemma("tolerance", vf_eq(eps, state("eps", 0))); return as_one(r3(*a), r3(b)); }
// the arc between the tips of a wire on the given ellipse (arc_choice)
//@ stub arc_of_wire : .*IntersectionAlgorithms::Detail::makeArc<double>\(.*
extern "C" void arc_of_wire(Ar* out, const TopoDS_Wire& w, const El& e, double eps)
{
    vf_lemma("tolerance", vf_eq(eps, state("eps", 0)));
    vf_lemma("the-ellipse", all(vf_eq(e.center().x(), state("ex", 0)), vf_eq(e.center().y(), state("ey", 0)), vf_eq(e.center().z(), state("ez", 0)), vf_eq(e.majorAxisLength(), state("er", 0))));
    new (static_cast<void*>(out)) El(e);
    const int k = which_shape(w);
    new (const_cast<P3*>(&out->source())) P3(p3(tip(k, 0)));
    new (const_cast<P3*>(&out->target())) P3(p3(tip(k, 1)));
}
namespace ghost {
template<class V> bool is_point(const V& v, R3 p) { return std::holds_alternative<P3>(v) && same(r3(std::get<P3>(v)), p); }
template<class V> bool is_piece(const V& v, R3 a, R3 b, bool arc)
{
    if (arc) return std::holds_alternative<Ar>(v) && same(r3(std::get<Ar>(v).source()), a) && same(r3(std::get<Ar>(v).target()), b);
    return std::holds_alternative<S3>(v) && same(r3(std::get<S3>(v).source()), a) && same(r3(std::get<S3>(v).target()), b);
}
// a rectangle with center m, half edges u and v
Quadrilateral<double, 3> rectangle(R3 m, R3 u, R3 v) { return Quadrilateral<double, 3>(p3(m - u - v), p3(m + u - v), p3(m - u + v), p3(m + u + v)); }
}
namespace ghost {
// any result of the kernel; what the repository has to make of it
void pieces(bool level, int faces, int outer, int vertices, int curves)
{
    const Cy c = surface();
    const R3 d = r3(c.direction()), o = r3(c.centerSegment().source());
    const P3 p = point("p");
    const Pl plane(p, level ? c.direction() : c.base1());
    Sheet s; s.plane = &plane;
    the_count = Count{level, faces, outer, vertices, curves};
    const double eps = positive("eps");
    vf_assume(state("closed", 0) == 0.0); vf_assume(state("eps", 0) == eps);
    const R3 m = o + dot(r3(p) - o, d)*d;
    vf_assume(state("ex", 0) == m.x); vf_assume(state("ey", 0) == m.y); vf_assume(state("ez", 0) == m.z); vf_assume(state("er", 0) == c.radius());
    const auto is = IntersectionAlgorithms::intersect_cylinderSurface_planarGeometry(c, s, positive("charlength"), eps);
    // the distinct corners of the outline on the surface
    const R3 v0 = tip(first_wire + 2, 0), v1 = tip(first_wire + 3, 0);
    const bool on0 = vertices > 0 && on_surface(v0);
    const bool on1 = vertices > 1 && on_surface(v1) && !(on0 && as_one(v0, v1));
    unsigned i = 0;
    const int n = faces ? curves : outer;
    auto covered = [&] (R3 v) { for (int k = 0; k < n; ++k) if (on_piece(tip(first_wire + k, 0), tip(first_wire + k, 1), v)) return true; return false; };
    if (faces || !outer)
    {
        if (on0 && !covered(v0)) { vf_lemma("touching-point", i < is.size() && is_point(is[i], v0)); ++i; }
        if (on1 && !covered(v1)) { vf_lemma("touching-point", i < is.size() && is_point(is[i], v1)); ++i; }
    }
    for (int k = 0; k < n; ++k, ++i) vf_lemma("piece-on-the-surface", i < is.size() && is_piece(is[i], tip(first_wire + k, 0), tip(first_wire + k, 1), level));
    if (i == 0) vf_lemma("empty", is.size() == 1 && std::holds_alternative<E3>(is[0]));
    else vf_lemma("nothing-else", is.size() == i);
}
}
namespace ghost {
// the same on real shapes
using Qu = Quadrilateral<double, 3>;
bool example(int k)
{
    const Cy c = surface();
    const R3 a = r3(c.base1()), b = r3(c.base2()), d = r3(c.direction()), m = r3(c.centerSegment().center());
    const double r = c.radius(), h = c.height(), e = 1e-6*(r + h);
    auto patch = [] (R3 m, R3 u, R3 v) { return Qu(p3(m - u - v), p3(m + u - v), p3(m - u + v), p3(m + u + v)); };
    auto rhombus = [] (R3 m, R3 u, R3 v) { return Qu(p3(m - u), p3(m - v), p3(m + v), p3(m + u)); };
    auto at = [&] (const P3& p, R3 q) { return norm2(r3(p) - q) < e*e; };
    auto seg = [&] (const auto& v, R3 p, R3 q)
    {
        if (!std::holds_alternative<S3>(v)) return false;
        const S3& s = std::get<S3>(v);
        return (at(s.source(), p) && at(s.target(), q)) || (at(s.source(), q) && at(s.target(), p));
    };
    auto pnt = [&] (const auto& v, R3 p) { return std::holds_alternative<P3>(v) && at(std::get<P3>(v), p); };
    auto none = [&] (const auto& v) { return v.size() == 1 && std::holds_alternative<E3>(v[0]); };
    auto cut = [&] (const Qu& q) { return intersect(c, q, 1e-6*r); };
    const double f = 0.1 + 0.5*unit("f");   // distance of the plane from the axis, in radii
    const R3 x = (r*std::sqrt(1 - f*f))*a, y = f*r*b;
    if (k == 0) { const auto v = cut(patch(m + 1.6*r*a, 0.6*r*a, 0.3*h*d)); return v.size() == 1 && seg(v[0], m + r*a - 0.3*h*d, m + r*a + 0.3*h*d); }
    if (k == 1) { const auto v = cut(rhombus(m + 2*r*a, r*a, 0.2*h*d)); return v.size() == 1 && pnt(v[0], m + r*a); }
    if (k == 2) return none(cut(patch(m + 2*r*a + y, 0.6*r*a, 0.3*h*d)));
    if (k == 3)
    {
        const auto v = cut(patch(m + y, 2*r*a, h*d));
        return v.size() == 2 && ((seg(v[0], m + y + x - 0.5*h*d, m + y + x + 0.5*h*d) && seg(v[1], m + y - x - 0.5*h*d, m + y - x + 0.5*h*d))
                              || (seg(v[1], m + y + x - 0.5*h*d, m + y + x + 0.5*h*d) && seg(v[0], m + y - x - 0.5*h*d, m + y - x + 0.5*h*d)));
    }
    if (k == 4) return none(cut(patch(m + y, 0.3*r*a, 0.3*h*d)));
    if (k == 5) { const auto v = cut(rhombus(m + y, x, 0.2*h*d)); return v.size() == 2 && ((pnt(v[0], m + y + x) && pnt(v[1], m + y - x)) || (pnt(v[1], m + y + x) && pnt(v[0], m + y - x))); }
    if (k == 6)
    {
        const auto v = cut(patch(m + f*h*0.5*d, 3*r*a, 3*r*b));
        if (v.size() != 1 || !std::holds_alternative<El>(v[0])) return false;
        const El& g = std::get<El>(v[0]);
        return at(g.center(), m + f*h*0.5*d) && std::fabs(g.majorAxisLength() - r) < e && std::fabs(g.minorAxisLength() - r) < e && std::fabs(std::fabs(dot(r3(g.normal()), d)) - 1) < 1e-6;
    }
    if (k == 7)
    {
        const auto v = cut(patch(m + f*h*0.5*d + 2*r*a, 2*r*a, 3*r*b));   // the half on the side of a
        if (v.size() != 1 || !std::holds_alternative<Ar>(v[0])) return false;
        const Ar& g = std::get<Ar>(v[0]);
        const R3 o = m + f*h*0.5*d;
        return at(g.getPoint(0.5), o + r*a) && ((at(g.source(), o + r*b) && at(g.target(), o - r*b)) || (at(g.source(), o - r*b) && at(g.target(), o + r*b)));
    }
    // an inclined plane all around the cylinder
    vf_assume(h > 6*r);
    const double n = 1/std::sqrt(1 + f*f);
    const R3 maj = n*(a + f*d);
    const auto v = cut(patch(m, 4*r*maj, 3*r*b));
    if (v.size() != 1 || !std::holds_alternative<El>(v[0])) return false;
    const El& g = std::get<El>(v[0]);
    return at(g.center(), m) && std::fabs(g.majorAxisLength() - r/n) < e && std::fabs(g.minorAxisLength() - r) < e
           && std::fabs(std::fabs(dot(r3(g.majorAxis()), maj)) - 1) < 1e-6 && std::fabs(std::fabs(dot(r3(g.minorAxis()), b)) - 1) < 1e-6;
}
}
//@ harness cylinder_outline property=C20 stubs=failure,count_up,count_down,vec_angle,circle_contract,elliptic_contract,sheet_shape,solid_shape,lateral_shape,kernel_common,kernel_cut,kernel_faces,kernel_wires,kernel_vertices,kernel_point,kernel_tips,kernel_closed,surface_contains,segment_contains,arc_contains,points_equal,arc_of_wire nomerge=cylinderSurface_planarGeometry runs=60 bound="at most 2 pieces and touching points of the outline"
extern "C" void cylinder_outline()
{
    if (vf_symbolic()) pieces(vf_choose("level", 0, 2), 0, vf_choose("outer", 1, 3), 0, 0);
    else vf_assert("example", example(vf_choose("k", 0, 1)));
}
//@ harness cylinder_touching property=C20 stubs=failure,count_up,count_down,vec_angle,circle_contract,elliptic_contract,sheet_shape,solid_shape,lateral_shape,kernel_common,kernel_cut,kernel_faces,kernel_wires,kernel_vertices,kernel_point,kernel_tips,kernel_closed,surface_contains,segment_contains,arc_contains,points_equal,arc_of_wire nomerge=cylinderSurface_planarGeometry runs=60 bound="at most 2 pieces and touching points of the outline"
extern "C" void cylinder_touching()
{
    if (vf_symbolic()) pieces(vf_choose("level", 0, 2), 0, 0, vf_choose("vertices", 0, 3), 0);
    else vf_assert("example", example(vf_choose("k", 1, 3)));
}
//@ harness cylinder_inside property=C20 stubs=failure,count_up,count_down,vec_angle,circle_contract,elliptic_contract,sheet_shape,solid_shape,lateral_shape,kernel_common,kernel_cut,kernel_faces,kernel_wires,kernel_vertices,kernel_point,kernel_tips,kernel_closed,surface_contains,segment_contains,arc_contains,points_equal,arc_of_wire nomerge=cylinderSurface_planarGeometry runs=60 bound="at most 2 pieces and touching points of the outline"
extern "C" void cylinder_inside()
{
    if (vf_symbolic()) pieces(vf_choose("level", 0, 2), 1, 0, vf_choose("vertices", 0, 2), vf_choose("curves", 0, 3));
    else vf_assert("example", example(vf_choose("k", 3, 9)));
}
