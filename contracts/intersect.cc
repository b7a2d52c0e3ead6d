// C20 intersections
#include <array>
#include <limits>
#include <algorithm>
#include <vector>
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/intersection/intersect.hh>
using namespace vf;
using Pl = Frackit::Plane<double, 3>;
using L3 = Line<double, 3>;
using S3 = Segment<double, 3>;
using E3 = EmptyIntersection<3>;

// ---- OpenCASCADE contracts
//@ stub allocate : Standard::Allocate\(unsigned long\)
extern "C" void* allocate(unsigned long n) { return ::operator new(n); }
//@ stub count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void count_up(const Standard_Transient*) {}
//@ stub count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int count_down(const Standard_Transient*) { return 1; }
//@ stub failure : Standard_Failure::Standard_Failure\(char const\*\)
extern "C" void failure(Standard_Failure*, const char*) {}
// the angle between two directions or vectors
namespace ghost {
struct RawVec { double x, y, z; };
inline R3 raw(const void* p) { const RawVec* v = static_cast<const RawVec*>(p); return r3(v->x, v->y, v->z); }
// point and direction (or normal) of the object an OpenCASCADE constructor was called for
struct Flat { double px, py, pz, dx, dy, dz; };
inline void keep(void* self, const gp_Pnt& p, const gp_Dir& d)
{ Flat* f = static_cast<Flat*>(self); f->px = p.X(); f->py = p.Y(); f->pz = p.Z(); f->dx = d.X(); f->dy = d.Y(); f->dz = d.Z(); }
inline R3 at(const void* f) { const Flat* q = static_cast<const Flat*>(f); return r3(q->px, q->py, q->pz); }
inline R3 along(const void* f) { const Flat* q = static_cast<const Flat*>(f); return r3(q->dx, q->dy, q->dz); }
// the product of two unit vectors is at most 1 (Cauchy-Schwarz, from Lagrange's identity)
inline double cosine(R3 a, R3 b)
{
    const double d = dot(a, b);
    const R3 k = cross(a, b), w = r3(vf_name(k.x), vf_name(k.y), vf_name(k.z));
    const double A = vf_name(norm2(a)), B = vf_name(norm2(b));
    vf_lemma("unit", vf_and(vf_eq(A, 1.0), vf_eq(B, 1.0)));
    vf_lemma("lagrange", vf_eq(d*d + norm2(w), A*B));
    vf_lemma("square", vf_le(0.0, norm2(w)));
    vf_lemma("bound", vf_le(d*d, 1.0));
    vf_lemma("cauchy-schwarz", vf_and(vf_le(-1.0, d), vf_le(d, 1.0)));
    return d;
}
}
using namespace ghost;
//@ stub dir_angle : gp_Dir::Angle\(gp_Dir const&\) const
extern "C" double dir_angle(const gp_Dir* a, const gp_Dir& b) { return std::acos(dot(raw(a), raw(&b))); }
//@ stub vec_angle : gp_Vec::Angle\(gp_Vec const&\) const
extern "C" double vec_angle(const gp_Vec* a, const gp_Vec& b) { return std::acos(dot(raw(a), raw(&b))); }
//@ stub geom_plane : Geom_Plane::Geom_Plane\(gp_Pnt const&, gp_Dir const&\)
extern "C" void geom_plane(Geom_Plane* self, const gp_Pnt& p, const gp_Dir& n) { keep(self, p, n); }
//@ stub geom_line : Geom_Line::Geom_Line\(gp_Pnt const&, gp_Dir const&\)
extern "C" void geom_line(Geom_Line* self, const gp_Pnt& p, const gp_Dir& d) { keep(self, p, d); }
// the intersection of a line with a plane it is not parallel to: the point on both
//@ stub int_cs : GeomAPI_IntCS::GeomAPI_IntCS\(opencascade::handle<Geom_Curve> const&, opencascade::handle<Geom_Surface> const&\)
extern "C" void int_cs(GeomAPI_IntCS* self, const Handle(Geom_Curve)& c, const Handle(Geom_Surface)& s)
{
    const R3 o = at(c.get()), d = along(c.get()), p = at(s.get()), n = along(s.get());
    vf_lemma("not-parallel", vf_not(vf_eq(dot(d, n), 0.0)));
    const double t = dot(p - o, n)/dot(d, n);
    const R3 x = o + t*d;
    RawVec* r = reinterpret_cast<RawVec*>(self);
    r->x = x.x; r->y = x.y; r->z = x.z;
}
//@ stub int_cs_done : GeomAPI_IntCS::IsDone\(\) const
extern "C" bool int_cs_done(const GeomAPI_IntCS*) { return true; }
//@ stub int_cs_point : GeomAPI_IntCS::Point\(int\) const
extern "C" const gp_Pnt& int_cs_point(const GeomAPI_IntCS* self, int) { return *reinterpret_cast<const gp_Pnt*>(self); }
//@ stub int_cs_end : GeomAPI_IntCS::~GeomAPI_IntCS\(\)
extern "C" void int_cs_end(GeomAPI_IntCS*) {}

//@ harness plane_line property=C20 stubs=failure,allocate,count_up,count_down,dir_angle,geom_plane,geom_line,int_cs,int_cs_done,int_cs_point,int_cs_end nomerge=intersect;plane_line
extern "C" void plane_line()
{
    const P3 p = point("p"), o = point("o");
    const D3 n = direction("n");
    const Pl plane(p, n);
    const double eps = positive("eps");
    const bool par = vf_symbolic() ? false : vf_choose("parallel", 0, 2);
    const D3 d = par ? direction_orth("d", n) : direction("d");
    const L3 l(o, d);
    const double c = cosine(r3(d), r3(n));
    const bool parallel = std::abs(M_PI/2.0 - std::acos(c)) <= Frackit::Precision<double>::angular();
    const double dist = norm(dot(r3(p) - r3(o), r3(n))*r3(n));
    if (!vf_symbolic()) vf_assume(par || std::abs(dot(r3(d), r3(n))) > 1e-3);
    if (!vf_symbolic()) vf_assume(!par || std::abs(dist - eps) > 1e-6);
    const auto is = intersect(plane, l, eps);
    if (!parallel)
    {
        vf_assert("a-point", std::holds_alternative<P3>(is));
        const P3& x = std::get<P3>(is);
        vf_assert("on-the-plane", vf_eq(dot(r3(x) - r3(p), r3(n)), 0.0));
        vf_assert("on-the-line", zero(cross(r3(x) - r3(o), r3(d))));
    }
    else if (dist <= eps)
    {
        vf_assert("a-line", std::holds_alternative<L3>(is));
        const L3& x = std::get<L3>(is);
        vf_assert("the-line", vf_and(same(r3(x.supportingPoint()), r3(o)), same(r3(x.direction()), r3(d))));
    }
    else vf_assert("empty", std::holds_alternative<E3>(is));
}

namespace ghost {
struct Curve : Geom_Curve
{
    R3 o, d;
    void Reverse() override {} double ReversedParameter(const double u) const override { return u; }
    double FirstParameter() const override { return 0.0; } double LastParameter() const override { return 0.0; }
    bool IsClosed() const override { return false; } bool IsPeriodic() const override { return false; }
    GeomAbs_Shape Continuity() const override { return GeomAbs_C2; } bool IsCN(const int) const override { return true; }
    void D0(const double u, gp_Pnt& p) const override { const R3 q = o + u*d; p = gp_Pnt(q.x, q.y, q.z); }
    void D1(const double, gp_Pnt&, gp_Vec&) const override {}
    void D2(const double, gp_Pnt&, gp_Vec&, gp_Vec&) const override {}
    void D3(const double, gp_Pnt&, gp_Vec&, gp_Vec&, gp_Vec&) const override {}
    gp_Vec DN(const double, const int n) const override { return n == 1 ? gp_Vec(d.x, d.y, d.z) : gp_Vec(0.0, 0.0, 0.0); }
    void Transform(const gp_Trsf&) override {}
    Handle(Geom_Geometry) Copy() const override { return Handle(Geom_Geometry)(); }
};
}
//@ stub curve_value : Geom_Curve::Value\(double\) const
extern "C" void curve_value(gp_Pnt* out, const Geom_Curve* c, double u) { new (out) gp_Pnt(); c->D0(u, *out); }
// the intersection of two planes that are not parallel: a parametrisation (by length) of the line in both
//@ stub int_ss : GeomAPI_IntSS::GeomAPI_IntSS\(opencascade::handle<Geom_Surface> const&, opencascade::handle<Geom_Surface> const&, double\)
extern "C" void int_ss(GeomAPI_IntSS* self, const Handle(Geom_Surface)& a, const Handle(Geom_Surface)& b, double)
{
    const R3 n = cross(along(a.get()), along(b.get()));
    vf_lemma("not-parallel", vf_not(zero(n)));
    Curve* c = new Curve();
    c->o = r3(vf_real("ix"), vf_real("iy"), vf_real("iz"));
    vf_assume(dot(c->o - at(a.get()), along(a.get())) == 0.0);
    vf_assume(dot(c->o - at(b.get()), along(b.get())) == 0.0);
    c->d = r3(vf_real("jx"), vf_real("jy"), vf_real("jz"));
    vf_assume(norm2(c->d) == 1.0);
    vf_assume(dot(c->d, along(a.get())) == 0.0);
    vf_assume(dot(c->d, along(b.get())) == 0.0);
    new (self) Handle(Geom_Curve)(c);
}
//@ stub int_ss_done : GeomAPI_IntSS::IsDone\(\) const
extern "C" bool int_ss_done(const GeomAPI_IntSS*) { return true; }
//@ stub int_ss_line : GeomAPI_IntSS::Line\(int\) const
extern "C" const Handle(Geom_Curve)& int_ss_line(const GeomAPI_IntSS* self, int) { return *reinterpret_cast<const Handle(Geom_Curve)*>(self); }
//@ stub int_ss_end : GeomAPI_IntSS::~GeomAPI_IntSS\(\)
extern "C" void int_ss_end(GeomAPI_IntSS*) {}

//@ harness plane_plane property=C20 stubs=failure,allocate,count_up,count_down,vec_angle,geom_plane,curve_value,int_ss,int_ss_done,int_ss_line,int_ss_end nomerge=intersect;plane_plane runs=40
extern "C" void plane_plane()
{
    const P3 p = point("p"), q = point("q");
    const D3 n = direction("n");
    const double eps = positive("eps");
    const int par = vf_symbolic() ? 0 : vf_choose("parallel", 0, 3);
    const D3 m = par ? exact_direction((par == 1 ? 1.0 : -1.0)*r3(n)) : direction("m");
    const Pl a(p, n), b(q, m);
    const double c = cosine(r3(n), r3(m)), t = std::acos(c);
    const double tol = Frackit::Precision<double>::angular();
    const bool parallel = vf_symbolic() ? vf_or(t <= tol, M_PI - t <= tol) : par != 0;
    const double dist = std::abs(dot(r3(q) - r3(p), r3(n)));
    if (!vf_symbolic()) vf_assume(par || std::abs(c) < 0.999);
    if (!vf_symbolic()) vf_assume(!par || std::abs(dist - eps) > 1e-6);
    const auto is = intersect(a, b, eps);
    if (!parallel)
    {
        vf_assert("a-line", std::holds_alternative<L3>(is));
        const L3& l = std::get<L3>(is);
        const R3 o = r3(l.supportingPoint()), d = r3(l.direction());
        vf_assert("in-the-first-plane", vf_and(vf_eq(dot(o - r3(p), r3(n)), 0.0), vf_eq(dot(d, r3(n)), 0.0)));
        vf_assert("in-the-second-plane", vf_and(vf_eq(dot(o - r3(q), r3(m)), 0.0), vf_eq(dot(d, r3(m)), 0.0)));
    }
    else if (dist < eps)
    {
        vf_assert("a-plane", std::holds_alternative<Pl>(is));
        const Pl& x = std::get<Pl>(is);
        vf_assert("the-plane", vf_and(same(r3(x.supportingPoint()), r3(p)), same(r3(x.normal()), r3(n))));
    }
    else vf_assert("empty", std::holds_alternative<E3>(is));
}

// ---- segments
namespace ghost {
inline P3 p3(R3 v) { return P3(v.x, v.y, v.z); }
inline double max2(double a, double b) { return vf_ite(a < b, b, a); }
inline double min2(double a, double b) { return vf_ite(b < a, b, a); }
inline bool apart(double a, double b, double eps) { return any(vf_eq(a, b), a - b > eps, b - a > eps); }
// an OpenCASCADE shape is what its vertices and edges are: up to four edges with two vertices each
struct Part { R3 v[2]; };
struct Sketch { int edges; Part part[4]; };
struct Raw { const void* ghost; void* location; int orientation; };
template<class S> void draw(S* out, const void* ghost) { static_assert(sizeof(S) == sizeof(Raw), ""); new (out) Raw{ghost, nullptr, 0}; }
template<class G> const G& drawn(const TopoDS_Shape& s) { return **reinterpret_cast<const G* const*>(&s); }
struct Walk { const Part* part; int i; };
}
//@ stub make_edge : TopoDS_Edge Frackit::OCCUtilities::makeEdge<double, 3>\(.*
extern "C" void make_edge(TopoDS_Edge* out, const P3& a, const P3& b)
{ Part* p = new Part(); p->v[0] = r3(a); p->v[1] = r3(b); draw(out, p); }
//@ stub get_edges : (_ZN7Frackit12OCCUtilities8getEdgesI12TopoDS_Shape.*|std::vector<TopoDS_Edge.*Frackit::OCCUtilities::getEdges<TopoDS_Shape>.*)
extern "C" void get_edges(std::vector<TopoDS_Edge>* out, const TopoDS_Shape& s)
{
    new (out) std::vector<TopoDS_Edge>();
    const Sketch& k = drawn<Sketch>(s);
    for (int i = 0; i < k.edges; ++i) { Raw e{&k.part[i], nullptr, 0}; out->push_back(reinterpret_cast<const TopoDS_Edge&>(e)); }
}
//@ stub explore : TopExp_Explorer::TopExp_Explorer\(TopoDS_Shape const&, TopAbs_ShapeEnum, TopAbs_ShapeEnum\)
extern "C" void explore(TopExp_Explorer* self, const TopoDS_Shape& s, int find, int)
{ vf_lemma("vertices", find == TopAbs_VERTEX); Walk* w = reinterpret_cast<Walk*>(self); w->part = &drawn<Part>(s); w->i = 0; }
//@ stub explore_more : TopExp_Explorer::More\(\) const
extern "C" bool explore_more(const TopExp_Explorer* self) { return reinterpret_cast<const Walk*>(self)->i < 2; }
//@ stub explore_next : TopExp_Explorer::Next\(\)
extern "C" void explore_next(TopExp_Explorer* self) { ++reinterpret_cast<Walk*>(self)->i; }
//@ stub explore_end : TopExp_Explorer::~TopExp_Explorer\(\)
extern "C" void explore_end(TopExp_Explorer*) {}
//@ stub explore_current : TopExp_Explorer::Current\(\) const
extern "C" const TopoDS_Shape& explore_current(const TopExp_Explorer* self)
{ const Walk* w = reinterpret_cast<const Walk*>(self); TopoDS_Shape* s = static_cast<TopoDS_Shape*>(::operator new(sizeof(TopoDS_Shape))); draw(s, &w->part->v[w->i]); return *s; }
//@ stub as_vertex : TopoDS::Vertex\(TopoDS_Shape const&\)
extern "C" const TopoDS_Vertex& as_vertex(const TopoDS_Shape& s) { return static_cast<const TopoDS_Vertex&>(s); }
//@ stub vertex_point : Frackit::OCCUtilities::point\(TopoDS_Vertex const&\)
extern "C" void vertex_point(P3* out, const TopoDS_Vertex& v) { new (out) P3(p3(drawn<R3>(v))); }
// the fragments of two segments: the segments themselves, cut where they meet
//@ stub fragment_two : Frackit::OCCUtilities::fragment(<double>)?\(std::vector<TopoDS_Shape.*|TopoDS_Shape Frackit::OCCUtilities::fragment<double>\(.*
extern "C" void fragment_two(TopoDS_Shape* out, const std::vector<TopoDS_Shape>& v, double)
{
    vf_lemma("two-edges", v.size() == 2);
    const Part& a = drawn<Part>(v[0]); const Part& b = drawn<Part>(v[1]);
    const R3 x = r3(vf_uf3("meet_x", 0.0, 0.0, 0.0), vf_uf3("meet_y", 0.0, 0.0, 0.0), vf_uf3("meet_z", 0.0, 0.0, 0.0));
    const bool cut1 = vf_uf3("cut", 1.0, 0.0, 0.0) > 0.5, cut2 = vf_uf3("cut", 2.0, 0.0, 0.0) > 0.5;
    Sketch* s = new Sketch(); s->edges = 0;
    if (cut1) { s->part[s->edges++] = Part{{a.v[0], x}}; s->part[s->edges++] = Part{{x, a.v[1]}}; } else s->part[s->edges++] = a;
    if (cut2) { s->part[s->edges++] = Part{{x, b.v[1]}}; s->part[s->edges++] = Part{{b.v[0], x}}; } else s->part[s->edges++] = b;
    draw(out, s);
}
// points on a common line, known by their position along it
namespace ghost { inline double position(const P3& p) { return vf_uf3("position", p.x(), p.y(), p.z()); } }
//@ stub contains_on_line : Frackit::Segment<double, 3>::contains\(Frackit::Point<double, 3> const&, double, bool\) const
extern "C" bool contains_on_line(const S3* s, const P3& p, double eps, bool)
{
    const double u = position(s->source()), v = position(s->target()), x = position(p);
    return any(vf_and(u <= x, x <= v), vf_and(v <= x, x <= u), vf_and(u - x < eps, x - u < eps), vf_and(v - x < eps, x - v < eps));
}
//@ harness segment_on_line property=C20
extern "C" void segment_on_line()
{
    const P3 o = point("o");
    const R3 d = r3(direction("d"));
    const double eps = positive("eps"), l = positive("l"), x = real("x");
    const bool turn = vf_choose("turn", 0, 2);
    const double m = turn ? -l : l;
    if (!vf_symbolic()) vf_assume(l > 1e-3 && std::abs(std::abs(x) - eps) > 1e-6 && std::abs(std::abs(x - m) - eps) > 1e-6 && std::abs(x) > 1e-6 && std::abs(x - m) > 1e-6);
    const S3 s(o, p3(r3(o) + m*d));
    const P3 p = p3(r3(o) + x*d);
    const bool want = any(vf_and(0.0 <= x, x <= m), vf_and(m <= x, x <= 0.0), vf_and(x < eps, -x < eps), vf_and(m - x < eps, x - m < eps));
    vf_assert("contains", vf_iff(s.contains(p, eps, false), want));
    vf_assert("contains-checked", vf_iff(s.contains(p, eps), want));
    vf_assert("equal", vf_iff(s.source().isEqual(p, eps), vf_and(x < eps, -x < eps)));
}
//@ harness segments_collinear property=C20 stubs=contains_on_line,failure,allocate,count_up,count_down,vec_angle,make_edge,get_edges,fragment_two,explore,explore_more,explore_next,explore_end,explore_current,as_vertex,vertex_point runs=60
extern "C" void segments_collinear()
{
    const P3 o = point("o");
    const D3 dir = direction("d");
    const R3 d = r3(dir);
    const double eps = vf_symbolic() ? positive("eps") : 1e-6;
    // positions of the corners along the common line
    const double e = vf_symbolic() ? positive("length") : 1.0 + unit("length");
    double a = real("a"), b = real("b");
    if (!vf_symbolic())
    {
        const int k = vf_choose("case", 0, 5);
        if (k == 1) a = 0.0;
        if (k == 2) a = e;
        if (k == 3) b = 0.0;
        if (k == 4) b = e;
    }
    vf_assume(e > eps);
    if (vf_choose("order", 0, 2)) vf_assume(b - a > eps); else vf_assume(a - b > eps);
    vf_assume(apart(a, 0.0, eps)); vf_assume(apart(a, e, eps)); vf_assume(apart(b, 0.0, eps)); vf_assume(apart(b, e, eps));
    if (vf_symbolic()) { vf_assume(vf_uf3("cut", 1.0, 0.0, 0.0) < 0.5); vf_assume(vf_uf3("cut", 2.0, 0.0, 0.0) < 0.5); }
    const S3 s(o, p3(r3(o) + e*d)), t(p3(r3(o) + a*d), p3(r3(o) + b*d));
    const double lo = max2(0.0, min2(a, b)), hi = min2(e, max2(a, b));
    if (vf_symbolic())
    {
        vf_assume(position(s.source()) == 0.0); vf_assume(position(s.target()) == e);
        vf_assume(position(t.source()) == a); vf_assume(position(t.target()) == b);
    }
    const auto is = IntersectionAlgorithms::intersect_segment_segment(s, t, eps);
    if (lo < hi)
    {
        vf_assert("a-segment", std::holds_alternative<S3>(is));
        const S3& x = std::get<S3>(is);
        const R3 u = r3(x.source()), v = r3(x.target()), l = r3(o) + lo*d, h = r3(o) + hi*d;
        vf_assert("the-overlap", vf_or(vf_and(same(u, l), same(v, h)), vf_and(same(u, h), same(v, l))));
    }
    else if (lo == hi)
    {
        vf_assert("a-point", std::holds_alternative<P3>(is));
        vf_assert("the-common-corner", same(r3(std::get<P3>(is)), r3(o) + lo*d));
    }
    else vf_assert("empty", std::holds_alternative<E3>(is));
}

// segments that are not parallel: known by whether the common point of their lines is inside, at an end or off them
namespace ghost {
enum Where { inside_of, at_source, at_target, off };
inline double number(const P3& p) { return vf_uf3("number", p.x(), p.y(), p.z()); }
}
//@ stub contains_numbered : Frackit::Segment<double, 3>::contains\(Frackit::Point<double, 3> const&, double, bool\) const
extern "C" bool contains_numbered(const S3* s, const P3& p, double, bool)
{
    const double k = number(p), u = number(s->source()), v = number(s->target());
    return any(k == u, k == v, vf_and(k == 0.0, vf_uf3("meets", u, v, 0.0) > 0.5));
}
//@ stub equal_numbered : ::isEqual\(Frackit::Point<double, 3> const&, double\) const
extern "C" bool equal_numbered(const P3* a, const P3& b, double) { return number(*a) == number(b); }
//@ stub open_angle : gp_Vec::Angle\(gp_Vec const&\) const
extern "C" double open_angle(const gp_Vec*, const gp_Vec&) { const double a = vf_uf3("angle", 0.0, 0.0, 0.0); vf_assume(a > 0.1 && a < 3.0); return a; }
//@ harness segments_crossing property=C20 stubs=contains_numbered,equal_numbered,failure,allocate,count_up,count_down,open_angle,make_edge,get_edges,fragment_two,explore,explore_more,explore_next,explore_end,explore_current,as_vertex,vertex_point runs=400
extern "C" void segments_crossing()
{
    const int w1 = vf_choose("where", 0, 4), w2 = vf_choose("where", 0, 4);
    const P3 x = point("x");
    const double eps = vf_symbolic() ? positive("eps") : 1e-6;
    const bool meet = w1 != off && w2 != off;
    P3 a = point("a"), b = point("b"), c = point("c"), d = point("d");
    if (vf_symbolic())
    {
        vf_assume(number(x) == 0.0); vf_assume(number(a) == 1.0); vf_assume(number(b) == 2.0); vf_assume(number(c) == 3.0); vf_assume(number(d) == 4.0);
        vf_assume(vf_iff(vf_uf3("cut", 1.0, 0.0, 0.0) > 0.5, meet && w1 == inside_of));
        vf_assume(vf_iff(vf_uf3("cut", 2.0, 0.0, 0.0) > 0.5, meet && w2 == inside_of));
        vf_assume(vf_uf3("meet_x", 0.0, 0.0, 0.0) == x.x()); vf_assume(vf_uf3("meet_y", 0.0, 0.0, 0.0) == x.y()); vf_assume(vf_uf3("meet_z", 0.0, 0.0, 0.0) == x.z());
        vf_assume(vf_iff(vf_uf3("meets", 1.0, 2.0, 0.0) > 0.5, w1 == inside_of)); vf_assume(vf_iff(vf_uf3("meets", 3.0, 4.0, 0.0) > 0.5, w2 == inside_of));
        if (w1 == at_source) a = x;
        if (w1 == at_target) b = x;
        if (w2 == at_source) c = x;
        if (w2 == at_target) d = x;
    }
    else
    {
        const R3 u = r3(direction("u")), v = r3(direction("v"));
        vf_assume(norm2(cross(u, v)) > 0.05);
        const bool skew = w1 == off && vf_choose("skew", 0, 2);
        const auto place = [&] (int w, R3 dir, P3& s, P3& t)
        {
            const double l = 1.0 + unit("length"), from = w == inside_of ? -0.4*l : w == at_source ? 0.0 : w == at_target ? -l : 0.3*l;
            s = p3(r3(x) + from*dir); t = p3(r3(x) + (from + l)*dir);
            if (w == at_source) s = x;
            if (w == at_target) t = x;
        };
        place(skew ? 0 : w1, u, a, b); place(w2, v, c, d);
        if (skew) { const R3 n = cross(u, v); a = p3(r3(a) + n); b = p3(r3(b) + n); }
    }
    const S3 s(a, b), t(c, d);
    const auto is = IntersectionAlgorithms::intersect_segment_segment(s, t, eps);
    if (meet)
    {
        vf_assert("a-point", std::holds_alternative<P3>(is));
        vf_assert("the-common-point", same(r3(std::get<P3>(is)), r3(x)));
    }
    else vf_assert("empty", std::holds_alternative<E3>(is));
}

// ---- planar geometries and lines
namespace ghost {
// any planar geometry: a supporting plane, a center and a containment predicate
struct Sheet
{
    using ctype = double;
    static constexpr int myDimension() { return 2; }
    static constexpr int worldDimension() { return 3; }
    int id; double tolerance;
    const Pl* plane;
    static std::string name() { return "Sheet"; }
    const Pl& supportingPlane() const { return *plane; }
    P3 center() const { return P3(vf_uf3("cx", id, 0.0, 0.0), vf_uf3("cy", id, 0.0, 0.0), vf_uf3("cz", id, 0.0, 0.0)); }
    bool inside(const P3& p) const { return vf_uf3("inside", p.x(), p.y(), p.z()) > 0.5; }
    bool contains(const P3& p, double eps, bool = true) const { vf_lemma("containment-tolerance", vf_eq(eps, tolerance)); return inside(p); }
};
// the relation of the line to the planar geometry, and the points in which it enters, leaves or touches it
enum { nothing, touching, crossing };
struct Meet { int how; R3 a, b; };
// what the kernel is handed: the probing segment and the face
struct Probe { R3 u, v; };
}
namespace Frackit {
template<> struct IntersectionTraits<ghost::Sheet, Line<double, 3>> { using type = std::variant<Point<double, 3>, Segment<double, 3>, EmptyIntersection<3>>; };
template<> struct IntersectionTraits<ghost::Sheet, ghost::Sheet> { using type = std::variant<Point<double, 3>, Segment<double, 3>, TopoDS_Face, EmptyIntersection<3>>; };
}
//@ stub any_plane_line : .*Frackit::IntersectionAlgorithms::intersect_plane_line<double>\(.*
extern "C" void any_plane_line(std::variant<P3, L3, E3>* out, const Pl&, const L3& l, double eps)
{
    vf_lemma("tolerance", vf_eq(eps, vf_uf3("eps", 0.0, 0.0, 0.0)));
    const double k = vf_uf3("plane_line", 0.0, 0.0, 0.0);
    if (k == 0.0) new (out) std::variant<P3, L3, E3>(E3());
    else if (k == 1.0) new (out) std::variant<P3, L3, E3>(P3(vf_uf3("hx", 0.0, 0.0, 0.0), vf_uf3("hy", 0.0, 0.0, 0.0), vf_uf3("hz", 0.0, 0.0, 0.0)));
    else new (out) std::variant<P3, L3, E3>(l);
}
//@ stub sheet_shape : .*Frackit::OCCUtilities::getShape<ghost::Sheet>\(.*
extern "C" void sheet_shape(TopoDS_Shape* out, const Sheet& s) { draw(out, &s); }
namespace ghost {
// the characteristic length is at least the longest edge, the major axis or the distance of the corners from the
// center (see sizes below), so the part of the line in the face lies within two of it from the projection of the
// center onto the line: it is found if the probing segment covers that
void covers(const Part& e)
{
    const R3 m = r3(vf_uf3("mx", 0.0, 0.0, 0.0), vf_uf3("my", 0.0, 0.0, 0.0), vf_uf3("mz", 0.0, 0.0, 0.0));
    const R3 d = r3(vf_uf3("lx", 0.0, 0.0, 0.0), vf_uf3("ly", 0.0, 0.0, 0.0), vf_uf3("lz", 0.0, 0.0, 0.0));
    const double l = 2.0*vf_uf3("charlength", 0.0, 0.0, 0.0);
    const double u = dot(e.v[0] - m, d), v = dot(e.v[1] - m, d);
    vf_lemma("probe-on-the-line", vf_and(zero(e.v[0] - m - u*d), zero(e.v[1] - m - v*d)));
    vf_lemma("probe-covers-the-face", vf_or(vf_and(u <= -l, l <= v), vf_and(v <= -l, l <= u)));
}
R3 hit(const char* x, const char* y, const char* z) { return r3(vf_uf3(x, 0.0, 0.0, 0.0), vf_uf3(y, 0.0, 0.0, 0.0), vf_uf3(z, 0.0, 0.0, 0.0)); }
bool how(double k) { return vf_uf3("meets", 0.0, 0.0, 0.0) == k; }
}
//@ stub common_part : TopoDS_Shape Frackit::OCCUtilities::intersect<double>\(.*
extern "C" void common_part(TopoDS_Shape* out, const TopoDS_Shape& edge, const TopoDS_Shape&, double)
{
    covers(drawn<Part>(edge));
    Sketch* s = new Sketch(); s->edges = 0;
    if (how(2.0)) { s->edges = 1; s->part[0] = Part{{hit("ax", "ay", "az"), hit("bx", "by", "bz")}}; }
    draw(out, s);
}
//@ stub cut_part : TopoDS_Shape Frackit::OCCUtilities::cut<double>\(.*
extern "C" void cut_part(TopoDS_Shape* out, const TopoDS_Shape& edge, const TopoDS_Shape&, double)
{
    const Part& e = drawn<Part>(edge);
    covers(e);
    Sketch* s = new Sketch();
    if (how(0.0)) { s->edges = 1; s->part[0] = e; }
    else
    {
        const R3 a = hit("ax", "ay", "az"), b = how(2.0) ? hit("bx", "by", "bz") : a;
        s->edges = 2; s->part[0] = Part{{e.v[0], a}}; s->part[1] = Part{{b, e.v[1]}};
    }
    draw(out, s);
}
//@ stub edge_vertices : (_ZN7Frackit12OCCUtilities11getVerticesI11TopoDS_Edge.*|std::vector<TopoDS_Vertex.*Frackit::OCCUtilities::getVertices<TopoDS_Edge>.*)
extern "C" void edge_vertices(std::vector<TopoDS_Vertex>* out, const TopoDS_Edge& e)
{
    new (out) std::vector<TopoDS_Vertex>();
    const Part& p = drawn<Part>(e);
    for (int i = 0; i < 2; ++i) { Raw v{&p.v[i], nullptr, 0}; out->push_back(reinterpret_cast<const TopoDS_Vertex&>(v)); }
}
//@ stub shape_vertices : (_ZN7Frackit12OCCUtilities11getVerticesI12TopoDS_Shape.*|std::vector<TopoDS_Vertex.*Frackit::OCCUtilities::getVertices<TopoDS_Shape>.*)
extern "C" void shape_vertices(std::vector<TopoDS_Vertex>* out, const TopoDS_Shape& sh)
{
    new (out) std::vector<TopoDS_Vertex>();
    const Sketch& s = drawn<Sketch>(sh);
    for (int k = 0; k < s.edges; ++k)
        for (int i = 0; i < 2; ++i) { Raw v{&s.part[k].v[i], nullptr, 0}; out->push_back(reinterpret_cast<const TopoDS_Vertex&>(v)); }
}
namespace ghost {
bool far(R3 a, R3 b, double eps) { return norm2(a - b) >= eps*eps; }
}
//@ harness planar_line property=C20 stubs=failure,allocate,count_up,count_down,any_plane_line,sheet_shape,make_edge,get_edges,common_part,cut_part,edge_vertices,shape_vertices,vertex_point runs=60
extern "C" void planar_line()
{
    const double eps = vf_symbolic() ? positive("eps") : 1e-6;
    const D3 dir = direction("d");
    const P3 o = point("o");
    const L3 l(o, dir);
    const int kind = vf_choose("kind", 0, 3), meet = vf_choose("meet", 0, 3);
    if (vf_symbolic())
    {
        const Pl plane(o, dir);
        Sheet s; s.id = 0; s.plane = &plane; s.tolerance = real("tolerance");
        const double len = positive("charlength");
        const R3 d = r3(dir), m = r3(o) + dot(r3(s.center()) - r3(o), d)*d;
        vf_assume(vf_uf3("mx", 0.0, 0.0, 0.0) == m.x); vf_assume(vf_uf3("my", 0.0, 0.0, 0.0) == m.y); vf_assume(vf_uf3("mz", 0.0, 0.0, 0.0) == m.z);
        vf_assume(vf_uf3("lx", 0.0, 0.0, 0.0) == d.x); vf_assume(vf_uf3("ly", 0.0, 0.0, 0.0) == d.y); vf_assume(vf_uf3("lz", 0.0, 0.0, 0.0) == d.z);
        vf_assume(vf_uf3("charlength", 0.0, 0.0, 0.0) == len);
        vf_assume(vf_uf3("eps", 0.0, 0.0, 0.0) == eps);
        vf_assume(vf_uf3("plane_line", 0.0, 0.0, 0.0) == kind);
        vf_assume(vf_uf3("meets", 0.0, 0.0, 0.0) == meet);
        const R3 a = hit("ax", "ay", "az"), b = hit("bx", "by", "bz");
        const P3 h = p3(hit("hx", "hy", "hz"));
        // a touching point is in the face, i.e. away from the ends of what covers the face by some margin
        const double t = real("t");
        vf_assume(vf_and(-2.0*len <= t, t <= 2.0*len)); vf_assume(eps <= len);
        if (meet == touching) vf_assume(same(a, m + t*d));
        const auto is = IntersectionAlgorithms::intersect_planarGeometry_line(s, l, len, s.tolerance, eps);
        if (kind == 0) vf_assert("apart", std::holds_alternative<E3>(is));
        else if (kind == 1)
        {
            vf_assert("point-if-contained", std::holds_alternative<P3>(is) == s.inside(h) && std::holds_alternative<E3>(is) == !s.inside(h));
            if (std::holds_alternative<P3>(is)) vf_assert("the-point", same(r3(std::get<P3>(is)), r3(h)));
        }
        else if (meet == crossing)
        {
            vf_assert("a-segment", std::holds_alternative<S3>(is));
            const S3& x = std::get<S3>(is);
            vf_assert("the-common-part", vf_or(vf_and(same(r3(x.source()), a), same(r3(x.target()), b)), vf_and(same(r3(x.source()), b), same(r3(x.target()), a))));
        }
        else if (meet == touching)
        {
            vf_assert("a-touching-point", std::holds_alternative<P3>(is));
            vf_assert("the-touching-point", same(r3(std::get<P3>(is)), a));
        }
        else vf_assert("no-common-part", std::holds_alternative<E3>(is));
    }
    else
    {
        // a disk and a line through a point at a given distance from its center
        const P3 c = point("c");
        const D3 a = direction("a"), b = direction_orth("b", a);
        const double A = 1.0 + unit("A"), B = A*(0.5 + 0.5*unit("B"));
        const Disk<double> k(Ellipse<double, 3>(c, a, b, A, B));
        const D3 n = k.normal();
        const double len = k.majorAxisLength();
        const R3 ra = r3(k.majorAxis()), rb = r3(k.minorAxis()), rn = r3(n);
        if (kind == 0)
        {
            const L3 g(p3(r3(c) + A*rn), D3(V3(ra.x, ra.y, ra.z)));
            vf_assert("apart", std::holds_alternative<E3>(IntersectionAlgorithms::intersect_planarGeometry_line(k, g, len, 1e-6, eps)));
        }
        else if (kind == 1)
        {
            const double f = 2.0*unit("f");
            vf_assume(std::abs(f - 1.0) > 1e-3);
            const R3 x = r3(c) + f*B*rb, w = rn + 0.3*ra;
            const auto is = IntersectionAlgorithms::intersect_planarGeometry_line(k, L3(p3(x + 2.0*w), D3(V3(w.x, w.y, w.z))), len, 1e-6, eps);
            vf_assert("point-if-contained", std::holds_alternative<P3>(is) == (f < 1.0));
            if (std::holds_alternative<P3>(is)) vf_assert("the-point", same(r3(std::get<P3>(is)), x));
        }
        else
        {
            const double f = meet == crossing ? 0.9*unit("f") : meet == touching ? 1.0 : 1.1 + unit("f");
            const L3 g(p3(r3(c) + f*B*rb + 3.0*ra), D3(V3(ra.x, ra.y, ra.z)));
            const auto is = IntersectionAlgorithms::intersect_planarGeometry_line(k, g, len, 1e-6, eps);
            const double h = std::sqrt(std::max(0.0, 1.0 - f*f))*A;
            const R3 u = r3(c) + f*B*rb - h*ra, v = r3(c) + f*B*rb + h*ra;
            if (meet == crossing)
            {
                vf_assert("a-segment", std::holds_alternative<S3>(is));
                const S3& x = std::get<S3>(is);
                vf_assert("the-common-part", vf_or(vf_and(same(r3(x.source()), u), same(r3(x.target()), v)), vf_and(same(r3(x.source()), v), same(r3(x.target()), u))));
            }
            else if (meet == touching && std::holds_alternative<P3>(is)) // rounding decides whether the kernel sees it
            {
                vf_assert("a-touching-point", std::holds_alternative<P3>(is));
                vf_assert("the-touching-point", norm2(r3(std::get<P3>(is)) - u) < 1e-4);
            }
            else if (meet == nothing) vf_assert("no-common-part", std::holds_alternative<E3>(is));
        }
    }
}

// ---- two planar geometries
namespace ghost {
using Cut = std::variant<P3, S3, E3>;
using Common = std::variant<S3, P3, E3>;
P3 corner(int id, int k) { return P3(vf_uf3("qx", id, k, 0.0), vf_uf3("qy", id, k, 0.0), vf_uf3("qz", id, k, 0.0)); }
double state(const char* n, int id) { return vf_uf3(n, id, 0.0, 0.0); }
bool lies_on(const S3& s, const P3& p) { return vf_uf3("lies_on", vf_uf3("pt", s.source().x(), s.source().y(), s.source().z()), vf_uf3("pt", s.target().x(), s.target().y(), s.target().z()), vf_uf3("pt", p.x(), p.y(), p.z())) > 0.5; }
const L3& the_line(const L3* l = nullptr) { static const L3* p; if (l) p = l; return *p; }
}
//@ stub any_plane_plane : .*Frackit::IntersectionAlgorithms::intersect_plane_plane<double>\(.*
extern "C" void any_plane_plane(std::variant<L3, Pl, E3>* out, const Pl& a, const Pl& b, double eps)
{
    vf_lemma("tolerance", vf_eq(eps, state("eps", 0)));
    vf_lemma("planes", vf_and(vf_eq(a.supportingPoint().x(), state("plane", 1)), vf_eq(b.supportingPoint().x(), state("plane", 2))));
    const double k = state("planes", 0);
    if (k == 0.0) new (out) std::variant<L3, Pl, E3>(E3());
    else if (k == 1.0) new (out) std::variant<L3, Pl, E3>(the_line());
    else new (out) std::variant<L3, Pl, E3>(a);
}
//@ stub sheet_line : .*Frackit::IntersectionAlgorithms::intersect_planarGeometry_line<ghost::Sheet, double>\(.*
extern "C" void sheet_line(Cut* out, const Sheet& s, const L3& l, double len, double tolerance, double eps)
{
    vf_lemma("arguments", all(vf_eq(len, state("charlength", 0)), vf_eq(tolerance, s.tolerance), vf_eq(eps, state("eps", 0)), same(r3(l.supportingPoint()), r3(the_line().supportingPoint())), same(r3(l.direction()), r3(the_line().direction()))));
    const double k = state("cut", s.id);
    if (k == 0.0) new (out) Cut(E3());
    else if (k == 1.0) new (out) Cut(corner(s.id, 0));
    else new (out) Cut(S3(corner(s.id, 0), corner(s.id, 1)));
}
//@ stub any_segments : .*Frackit::IntersectionAlgorithms::intersect_segment_segment<double, 3>\(.*
extern "C" void any_segments(Common* out, const S3& s, const S3& t, double eps)
{
    const bool st = vf_and(vf_and(same(r3(s.source()), r3(corner(1, 0))), same(r3(s.target()), r3(corner(1, 1)))), vf_and(same(r3(t.source()), r3(corner(2, 0))), same(r3(t.target()), r3(corner(2, 1)))));
    vf_lemma("arguments", vf_and(st, vf_eq(eps, state("eps", 0))));
    const double k = state("common", 0);
    if (k == 0.0) new (out) Common(E3());
    else if (k == 1.0) new (out) Common(corner(3, 0));
    else new (out) Common(S3(corner(3, 0), corner(3, 1)));
}
//@ stub contains_any : Frackit::Segment<double, 3>::contains\(Frackit::Point<double, 3> const&, double, bool\) const
extern "C" bool contains_any(const S3* s, const P3& p, double eps, bool) { vf_lemma("tolerance", vf_eq(eps, state("eps", 0))); return lies_on(*s, p); }
//@ harness planar_planar property=C20 stubs=any_plane_plane,sheet_line,any_segments,contains_any runs=800
extern "C" void planar_planar()
{
    const int planes = vf_choose("planes", 0, 3), cut1 = vf_choose("cut1", 0, 3), cut2 = vf_choose("cut2", 0, 3), common = vf_choose("common", 0, 3);
    using R = Intersection<Sheet, Sheet>;
    if (vf_symbolic())
    {
        const L3 line(point("o"), direction("d"));
        the_line(&line);
        const double eps = positive("eps"), len = positive("charlength");
        const D3 n = direction("n"), m = direction("m");
        const Pl a(point("a"), n), b(point("b"), m);
        Sheet s, t; s.id = 1; t.id = 2; s.plane = &a; t.plane = &b; s.tolerance = real("s"); t.tolerance = real("t");
        vf_assume(state("plane", 1) == a.supportingPoint().x()); vf_assume(state("plane", 2) == b.supportingPoint().x());
        vf_assume(state("eps", 0) == eps); vf_assume(state("charlength", 0) == len);
        vf_assume(state("planes", 0) == planes); vf_assume(state("cut", 1) == cut1); vf_assume(state("cut", 2) == cut2); vf_assume(state("common", 0) == common);
        bool thrown = false;
        R is;
        try { is = IntersectionAlgorithms::intersect_planarGeometry_planarGeometry(s, t, len, s.tolerance, t.tolerance, eps); }
        catch (const std::runtime_error&) { thrown = true; }
        vf_assert("throws-for-a-common-plane", thrown == (planes == 2));
        if (thrown) return;
        // the common part of what the line has in common with each
        int want = 0; P3 p;
        if (planes == 1)
        {
            if (cut1 == 2 && cut2 == 2) { want = common; p = corner(3, 0); }
            if (cut1 == 2 && cut2 == 1) { want = lies_on(S3(corner(1, 0), corner(1, 1)), corner(2, 0)); p = corner(2, 0); }
            if (cut1 == 1 && cut2 == 2) { want = lies_on(S3(corner(2, 0), corner(2, 1)), corner(1, 0)); p = corner(1, 0); }
            if (cut1 == 1 && cut2 == 1) { want = norm2(r3(corner(1, 0)) - r3(corner(2, 0))) < eps*eps; p = corner(1, 0); }
        }
        if (want == 0) vf_assert("empty", std::holds_alternative<E3>(is));
        else if (want == 1)
        {
            vf_assert("a-point", std::holds_alternative<P3>(is));
            vf_assert("the-common-point", same(r3(std::get<P3>(is)), r3(p)));
        }
        else
        {
            vf_assert("a-segment", std::holds_alternative<S3>(is));
            vf_assert("the-common-segment", vf_and(same(r3(std::get<S3>(is).source()), r3(corner(3, 0))), same(r3(std::get<S3>(is).target()), r3(corner(3, 1)))));
        }
    }
    else
    {
        // two quadrilaterals, one in the plane z = 0, the other upright above the x axis, from x = l to x = r;
        // a corner on the axis instead of an edge makes for a touching point
        using Q = Quadrilateral<double, 3>;
        auto lower = [] (int cut) { return cut == 2 ? Q(P3(0, -1, 0), P3(1, -1, 0), P3(0, 1, 0), P3(1, 1, 0))
                                         : cut == 1 ? Q(P3(0.5, 0, 0), P3(0, 1, 0), P3(1, 1, 0), P3(0.5, 2, 0))
                                                    : Q(P3(0, 1, 0), P3(1, 1, 0), P3(0, 2, 0), P3(1, 2, 0)); };
        auto upper = [] (int cut, double x) { return cut == 2 ? Q(P3(x, 0, -1), P3(x + 1, 0, -1), P3(x, 0, 1), P3(x + 1, 0, 1))
                                                   : cut == 1 ? Q(P3(x, 0, 0), P3(x - 0.5, 0, 1), P3(x + 0.5, 0, 1), P3(x, 0, 2))
                                                              : Q(P3(x, 0, 1), P3(x + 1, 0, 1), P3(x, 0, 2), P3(x + 1, 0, 2)); };
        if (planes != 1)
        {
            bool thrown = false;
            std::variant<P3, S3, Polygon<double, 3>, E3> is;
            try { is = intersect(lower(2), planes ? Q(P3(0.5, 0, 0), P3(2, 0, 0), P3(0.5, 3, 0), P3(2, 3, 0)) : Q(P3(0, -1, 1e-3), P3(1, -1, 1e-3), P3(0, 1, 1e-3), P3(1, 1, 1e-3)), 1e-6); }
            catch (const std::runtime_error&) { thrown = true; }
            vf_assert("throws-for-a-common-plane", thrown == (planes == 2));
            if (!thrown) vf_assert("empty", std::holds_alternative<E3>(is));
            return;
        }
        // relative position: apart, touching in a point, overlapping
        double x = 0.5;
        if (cut1 == 2 && cut2 == 2) x = common == 0 ? 1.5 : common == 1 ? 1.0 : 0.25;
        if (common == 0 && cut2 == 1) x = 1.5;
        if (common == 0 && cut1 == 1) x = 0.75;
        const auto is = IntersectionAlgorithms::intersect_quadrilateral_quadrilateral(lower(cut1), upper(cut2, x), 1e-6);
        if (cut1 == 0 || cut2 == 0 || (common == 0)) vf_assert("empty", std::holds_alternative<E3>(is));
        else if (cut1 == 2 && cut2 == 2 && common == 2)
        {
            vf_assert("a-segment", std::holds_alternative<S3>(is));
            const S3& s = std::get<S3>(is);
            vf_assert("the-common-segment", vf_or(vf_and(same(r3(s.source()), r3(0.25, 0, 0)), same(r3(s.target()), r3(1, 0, 0))), vf_and(same(r3(s.target()), r3(0.25, 0, 0)), same(r3(s.source()), r3(1, 0, 0)))));
        }
        else
        {
            vf_assert("a-point", std::holds_alternative<P3>(is));
            vf_assert("the-common-point", same(r3(std::get<P3>(is)), r3(cut1 == 2 && cut2 == 2 ? 1.0 : 0.5, 0, 0)));
        }
    }
}

// ---- the interface: bounding boxes first, then the algorithm of the pair, in either order of the arguments.
// The geometries are only handed on, so any storage stands for them.
namespace ghost {
using Dk = Disk<double>;
using Qu = Quadrilateral<double, 3>;
using Po = Polygon<double, 3>;
using Cy = CylinderSurface<double>;
template<class T> struct Any { alignas(T) unsigned char raw[sizeof(T)]; const T& get() const { return *reinterpret_cast<const T*>(raw); } };
const void* pick(int i, const void* p = nullptr) { static const void* q[2]; if (p) q[i] = p; return q[i]; }
double asked(double e, bool set = false) { static double q; if (set) q = e; return q; }
// the algorithm was asked for these geometries with this tolerance; its answer is a mark
template<class V> struct Mark { static void put(V* out, double k) { new (out) V(P3(k, 0.0, 0.0)); } static double get(const V& v) { return std::holds_alternative<P3>(v) ? std::get<P3>(v).x() : std::holds_alternative<E3>(v) ? 0.0 : -1.0; } };
template<class V> struct Mark<std::vector<V>>
{
    static void put(std::vector<V>* out, double k) { new (out) std::vector<V>(); out->push_back(V(P3(k, 0.0, 0.0))); }
    static double get(const std::vector<V>& v) { return v.size() == 1 ? Mark<V>::get(v[0]) : -1.0; }
};
template<class V> void answer(V* out, double k, const void* a, const void* b, double eps)
{
    vf_lemma("the-geometries", a == pick(0) && b == pick(1));
    vf_lemma("the-tolerance", vf_eq(eps, asked(0.0)));
    Mark<V>::put(out, k);
}
void box_of(BoundingBox<double>* out, const void* g)
{ const double k = g == pick(0) ? 1.0 : g == pick(1) ? 2.0 : 3.0; new (out) BoundingBox<double>(0.0, 0.0, 0.0, k, 1.0, 1.0); }
}
//@ stub boxes_meet : bool Frackit::doIntersect<double>\(Frackit::(Bounding)?Box<double> const&, Frackit::(Bounding)?Box<double> const&, double\)
extern "C" bool boxes_meet(const BoundingBox<double>& a, const BoundingBox<double>& b, double eps)
{
    vf_lemma("the-boxes", vf_or(vf_and(a.xMax() == 1.0, b.xMax() == 2.0), vf_and(a.xMax() == 2.0, b.xMax() == 1.0)));
    vf_lemma("the-tolerance", vf_eq(eps, asked(0.0)));
    return vf_uf3("boxes_meet", 0.0, 0.0, 0.0) > 0.5;
}
//@ stub box_s : .*Frackit::getBoundingBox<Frackit::Segment<double, 3> ?>\(.*
extern "C" void box_s(BoundingBox<double>* out, const S3& g) { box_of(out, &g); }
//@ stub box_d : .*Frackit::getBoundingBox<Frackit::Disk<double> ?>\(.*
extern "C" void box_d(BoundingBox<double>* out, const Dk& g) { box_of(out, &g); }
//@ stub box_q : .*Frackit::getBoundingBox<Frackit::Quadrilateral<double, 3> ?>\(.*
extern "C" void box_q(BoundingBox<double>* out, const Qu& g) { box_of(out, &g); }
//@ stub box_p : .*Frackit::getBoundingBox<Frackit::Polygon<double, 3> ?>\(.*
extern "C" void box_p(BoundingBox<double>* out, const Po& g) { box_of(out, &g); }
//@ stub box_c : .*Frackit::getBoundingBox<Frackit::CylinderSurface<double> ?>\(.*
extern "C" void box_c(BoundingBox<double>* out, const Cy& g) { box_of(out, &g); }
//@ stub is_segment_segment : .*Frackit::IntersectionAlgorithms::intersect_segment_segment<double, 3>\(.*
extern "C" void is_segment_segment(Intersection<S3, S3>* out, const S3& a, const S3& b, double eps) { answer(out, 1.0, &a, &b, eps); }
//@ stub is_disk_disk : .*Frackit::IntersectionAlgorithms::intersect_disk_disk<double>\(.*
extern "C" void is_disk_disk(Intersection<Dk, Dk>* out, const Dk& a, const Dk& b, double eps) { answer(out, 2.0, &a, &b, eps); }
//@ stub is_quadrilateral_quadrilateral : .*Frackit::IntersectionAlgorithms::intersect_quadrilateral_quadrilateral<double>\(.*
extern "C" void is_quadrilateral_quadrilateral(Intersection<Qu, Qu>* out, const Qu& a, const Qu& b, double eps) { answer(out, 3.0, &a, &b, eps); }
//@ stub is_polygon_polygon : .*Frackit::IntersectionAlgorithms::intersect_polygon_polygon<double>\(.*
extern "C" void is_polygon_polygon(Intersection<Po, Po>* out, const Po& a, const Po& b, double eps) { answer(out, 4.0, &a, &b, eps); }
//@ stub is_quadrilateral_disk : .*Frackit::IntersectionAlgorithms::intersect_quadrilateral_disk<double>\(.*
extern "C" void is_quadrilateral_disk(Intersection<Qu, Dk>* out, const Qu& a, const Dk& b, double eps) { answer(out, 5.0, &a, &b, eps); }
//@ stub is_polygon_disk : .*Frackit::IntersectionAlgorithms::intersect_polygon_disk<double>\(.*
extern "C" void is_polygon_disk(Intersection<Po, Dk>* out, const Po& a, const Dk& b, double eps) { answer(out, 6.0, &a, &b, eps); }
//@ stub is_cylinderSurface_disk : .*Frackit::IntersectionAlgorithms::intersect_cylinderSurface_disk<double>\(.*
extern "C" void is_cylinderSurface_disk(Intersection<Cy, Dk>* out, const Cy& a, const Dk& b, double eps) { answer(out, 7.0, &a, &b, eps); }
//@ stub is_cylinderSurface_quadrilateral : .*Frackit::IntersectionAlgorithms::intersect_cylinderSurface_quadrilateral<double>\(.*
extern "C" void is_cylinderSurface_quadrilateral(Intersection<Cy, Qu>* out, const Cy& a, const Qu& b, double eps) { answer(out, 8.0, &a, &b, eps); }
//@ stub is_cylinderSurface_polygon : .*Frackit::IntersectionAlgorithms::intersect_cylinderSurface_polygon<double>\(.*
extern "C" void is_cylinderSurface_polygon(Intersection<Cy, Po>* out, const Cy& a, const Po& b, double eps) { answer(out, 9.0, &a, &b, eps); }
//@ stub is_disk_line : .*Frackit::IntersectionAlgorithms::intersect_disk_line<double>\(.*
extern "C" void is_disk_line(Intersection<Dk, L3>* out, const Dk& a, const L3& b, double eps) { answer(out, 20.0, &a, &b, eps); }
//@ stub is_quadrilateral_line : .*Frackit::IntersectionAlgorithms::intersect_quadrilateral_line<double>\(.*
extern "C" void is_quadrilateral_line(Intersection<Qu, L3>* out, const Qu& a, const L3& b, double eps) { answer(out, 21.0, &a, &b, eps); }
//@ stub is_plane_line : .*Frackit::IntersectionAlgorithms::intersect_plane_line<double>\(.*
extern "C" void is_plane_line(Intersection<Pl, L3>* out, const Pl& a, const L3& b, double eps) { answer(out, 22.0, &a, &b, eps); }
namespace ghost {
template<class A, class B> void pair(double k, bool boxes)
{
    Any<A> a; Any<B> b;
    pick(0, &a.get()); pick(1, &b.get());
    const double eps = asked(positive("eps"), true);
    const bool meet = vf_uf3("boxes_meet", 0.0, 0.0, 0.0) > 0.5;
    const auto r = intersect(a.get(), b.get(), eps);
    const double want = !boxes || meet ? k : 0.0;
    vf_assert("the-answer-of-the-pair-or-empty-boxes-apart", Mark<std::decay_t<decltype(r)>>::get(r) == want);
    if constexpr (!std::is_same_v<A, B>)
    {
        const auto t = intersect(b.get(), a.get(), eps);
        vf_assert("either-order", Mark<std::decay_t<decltype(t)>>::get(t) == want);
    }
    else vf_assert("either-order", true);
}
// concrete runs: the same intersection for either order
template<class V> int kind(const V& v) { return int(v.index()); }
template<class V> int kind(const std::vector<V>& v) { int k = 10*int(v.size()); for (const auto& x : v) k += int(x.index()); return k; }
template<class A, class B> void pair(const A& a, const B& b, bool empty)
{
    const double eps = 1e-6;
    const auto r = intersect(a, b, eps);
    vf_assert("the-answer-of-the-pair-or-empty-boxes-apart", isEmptyIntersection(r) == empty);
    if constexpr (!std::is_same_v<A, B>) vf_assert("either-order", kind(intersect(b, a, eps)) == kind(r));
    else vf_assert("either-order", true);
}
}
//@ harness interface property=C20 stubs=boxes_meet,box_s,box_d,box_q,box_p,box_c,is_segment_segment,is_disk_disk,is_quadrilateral_quadrilateral,is_polygon_polygon,is_quadrilateral_disk,is_polygon_disk,is_cylinderSurface_disk,is_cylinderSurface_quadrilateral,is_cylinderSurface_polygon,is_disk_line,is_quadrilateral_line,is_plane_line runs=12
extern "C" void interface()
{
    const int which = vf_choose("pair", 0, 12);
    if (vf_symbolic())
    {
        if (which == 0) pair<S3, S3>(1.0, true);
        if (which == 1) pair<Dk, Dk>(2.0, true);
        if (which == 2) pair<Qu, Qu>(3.0, true);
        if (which == 3) pair<Po, Po>(4.0, true);
        if (which == 4) pair<Qu, Dk>(5.0, true);
        if (which == 5) pair<Po, Dk>(6.0, true);
        if (which == 6) pair<Cy, Dk>(7.0, true);
        if (which == 7) pair<Cy, Qu>(8.0, true);
        if (which == 8) pair<Cy, Po>(9.0, true);
        if (which == 9) pair<Dk, L3>(20.0, false);
        if (which == 10) pair<Qu, L3>(21.0, false);
        if (which == 11) pair<Pl, L3>(22.0, false);
    }
    else
    {
        const double z = vf_choose("apart", 0, 2) ? 5.0 : 0.0;
        const bool e = z > 0.0;
        const D3 ex(V3(1.0, 0.0, 0.0)), ey(V3(0.0, 1.0, 0.0)), ez(V3(0.0, 0.0, 1.0));
        const Dk d(P3(0, 0, 0), ex, ey, 2, 1), d2(P3(0, 0, z), ex, ez, 2, 1);
        const Qu q(P3(-1, -1, 0), P3(1, -1, 0), P3(-1, 1, 0), P3(1, 1, 0)), q2(P3(-1, 0, z - 1), P3(1, 0, z - 1), P3(-1, 0, z + 1), P3(1, 0, z + 1));
        const Po o(std::vector<P3>{P3(-1, -1, 0), P3(1, -1, 0), P3(1, 1, 0)}), o2(std::vector<P3>{P3(-1, 0, z - 1), P3(1, 0, z - 1), P3(1, 0, z + 1)});
        const Cy c(Circle<double, 3>(P3(0, 0, z - 1), ez, 0.5), 2);
        const L3 l(P3(0, 0.25, z), ex), m(P3(0, 0, 0), ez);
        if (which == 0) pair(S3(P3(-1, 0, 0), P3(1, 0, 0)), S3(P3(0, -1, z), P3(0, 1, z)), e);
        if (which == 1) pair(d, d2, e);
        if (which == 2) pair(q, q2, e);
        if (which == 3) pair(o, o2, e);
        if (which == 4) pair(q, d2, e);
        if (which == 5) pair(o, d2, e);
        if (which == 6) pair(c, d, e);
        if (which == 7) pair(c, q, e);
        if (which == 8) pair(c, o, e);
        if (which == 9) pair(d, l, e);
        if (which == 10) pair(q, l, e);
        if (which == 11) pair(Pl(P3(0, 0, 0), ez), e ? l : m, e);
    }
}

// ---- the characteristic length handed on covers both geometries
namespace ghost {
R3 poly(const void* p, int k) { return hit(k == 0 ? "p0x" : k == 1 ? "p1x" : k == 2 ? "p2x" : "pcx", k == 0 ? "p0y" : k == 1 ? "p1y" : k == 2 ? "p2y" : "pcy", k == 0 ? "p0z" : k == 1 ? "p1z" : k == 2 ? "p2z" : "pcz") + (p == pick(1) ? 1.0 : 0.0)*hit("dx", "dy", "dz"); }
bool reaches(double l, const Dk& d) { return vf_le(d.majorAxisLength(), l); }
bool reaches(double l, const Qu& q)
{
    const R3 a = r3(q.corner(0)), b = r3(q.corner(1)), c = r3(q.corner(2)), d = r3(q.corner(3));
    return vf_and(0.0 <= l, all(norm2(b - a) <= l*l, norm2(c - a) <= l*l, norm2(d - b) <= l*l, norm2(d - c) <= l*l));
}
bool reaches(double l, const Po& p)
{ const R3 c = poly(&p, 3); return vf_and(0.0 <= l, all(norm2(poly(&p, 0) - c) <= l*l, norm2(poly(&p, 1) - c) <= l*l, norm2(poly(&p, 2) - c) <= l*l)); }
template<class V, class A, class B> void sized(V* out, const A& a, const B& b, double l, double eps)
{
    vf_lemma("the-geometries", &a == pick(0) && &b == pick(1));
    vf_lemma("the-tolerance", vf_eq(eps, asked(0.0)));
    vf_lemma("covers-the-first", reaches(l, a));
    vf_lemma("covers-the-second", reaches(l, b));
    Mark<V>::put(out, 1.0);
}
template<class V, class A, class B> void sized_one(V* out, const A& a, const B& b, const A& what, double l, double eps)
{
    vf_lemma("the-geometries", (&a == pick(0) && (const void*)&b == pick(1)) || (&a == pick(1) && (const void*)&b == pick(0)));
    vf_lemma("the-tolerance", vf_eq(eps, asked(0.0)));
    vf_lemma("covers-the-shape", reaches(l, what));
    Mark<V>::put(out, 1.0);
}
}
//@ stub poly_corner : Frackit::Polygon<double, 3>::corner\(unsigned int\) const
extern "C" const P3& poly_corner(const Po* p, unsigned i) { return *new P3(p3(poly(p, i))); }
//@ stub poly_count : Frackit::Polygon<double, 3>::numCorners\(\) const
extern "C" std::size_t poly_count(const Po*) { return 3; }
//@ stub poly_center : Frackit::Polygon<double, 3>::center\(\) const
extern "C" const P3& poly_center(const Po* p) { return *new P3(p3(poly(p, 3))); }
//@ stub poly_convex : Frackit::Polygon<double, 3>::isConvex\(\) const
extern "C" bool poly_convex(const Po* p) { return state("convex", p == pick(0) ? 1 : 2) > 0.5; }
//@ stub quad_convex : Frackit::Quadrilateral<double, 3>::isConvex\(\) const
extern "C" bool quad_convex(const Qu* q) { return state("convex", q == pick(0) ? 1 : 2) > 0.5; }
//@ stub sized_dk_dk : .*intersect_planarGeometry_planarGeometry<Frackit::Disk<double> ?, Frackit::Disk<double> ?, double>\(.*
extern "C" void sized_dk_dk(Intersection<Dk, Dk>* out, const Dk& a, const Dk& b, double l, double, double, double eps) { sized(out, a, b, l, eps); }
//@ stub sized_qu_qu : .*intersect_planarGeometry_planarGeometry<Frackit::Quadrilateral<double, 3> ?, Frackit::Quadrilateral<double, 3> ?, double>\(.*
extern "C" void sized_qu_qu(Intersection<Qu, Qu>* out, const Qu& a, const Qu& b, double l, double, double, double eps) { sized(out, a, b, l, eps); }
//@ stub sized_po_po : .*intersect_planarGeometry_planarGeometry<Frackit::Polygon<double, 3> ?, Frackit::Polygon<double, 3> ?, double>\(.*
extern "C" void sized_po_po(Intersection<Po, Po>* out, const Po& a, const Po& b, double l, double, double, double eps) { sized(out, a, b, l, eps); }
//@ stub sized_qu_dk : .*intersect_planarGeometry_planarGeometry<Frackit::Quadrilateral<double, 3> ?, Frackit::Disk<double> ?, double>\(.*
extern "C" void sized_qu_dk(Intersection<Qu, Dk>* out, const Qu& a, const Dk& b, double l, double, double, double eps) { sized(out, a, b, l, eps); }
//@ stub sized_po_dk : .*intersect_planarGeometry_planarGeometry<Frackit::Polygon<double, 3> ?, Frackit::Disk<double> ?, double>\(.*
extern "C" void sized_po_dk(Intersection<Po, Dk>* out, const Po& a, const Dk& b, double l, double, double, double eps) { sized(out, a, b, l, eps); }
//@ stub sized_dk_line : .*intersect_planarGeometry_line<Frackit::Disk<double> ?, double>\(.*
extern "C" void sized_dk_line(Intersection<Dk, L3>* out, const Dk& a, const L3& b, double l, double, double eps) { sized_one(out, a, b, a, l, eps); }
//@ stub sized_qu_line : .*intersect_planarGeometry_line<Frackit::Quadrilateral<double, 3> ?, double>\(.*
extern "C" void sized_qu_line(Intersection<Qu, L3>* out, const Qu& a, const L3& b, double l, double, double eps) { sized_one(out, a, b, a, l, eps); }
//@ stub sized_cy_dk : .*intersect_cylinderSurface_planarGeometry<double, Frackit::Disk<double> ?>\(.*
extern "C" void sized_cy_dk(Intersection<Cy, Dk>* out, const Cy& c, const Dk& a, double l, double eps) { sized_one(out, a, c, a, l, eps); }
//@ stub sized_cy_qu : .*intersect_cylinderSurface_planarGeometry<double, Frackit::Quadrilateral<double, 3> ?>\(.*
extern "C" void sized_cy_qu(Intersection<Cy, Qu>* out, const Cy& c, const Qu& a, double l, double eps) { sized_one(out, a, c, a, l, eps); }
//@ stub sized_cy_po : .*intersect_cylinderSurface_planarGeometry<double, Frackit::Polygon<double, 3> ?>\(.*
extern "C" void sized_cy_po(Intersection<Cy, Po>* out, const Cy& c, const Po& a, double l, double eps) { sized_one(out, a, c, a, l, eps); }
namespace ghost {
template<class T> struct Some : Any<T> { Some(const char*, const char*) {} };
template<> struct Some<Dk> : Any<Dk> { Some(const char* n, const char*) { put(get().majorAxisLength(), positive(n)); } };
template<> struct Some<Qu> : Any<Qu> { Some(const char*, const char* c) { for (int i = 0; i < 4; ++i) put(get().corner(i), point(c)); } };
template<class A, class B, class F> void size_of(const F& f, bool convex)
{
    Some<A> a("A1", "c1"); Some<B> b("A2", "c2");
    pick(0, &a.get()); pick(1, &b.get());
    const double eps = asked(positive("eps"), true);
    bool thrown = false;
    try { const auto r = f(a.get(), b.get(), eps); vf_assert("answer", Mark<std::decay_t<decltype(r)>>::get(r) == 1.0); }
    catch (const std::runtime_error&) { thrown = true; }
    vf_assert("throws-iff-not-convex", thrown == !convex);
}
}
//@ harness sizes property=C20 stubs=poly_corner,poly_count,poly_center,poly_convex,quad_convex,sized_dk_dk,sized_qu_qu,sized_po_po,sized_qu_dk,sized_po_dk,sized_dk_line,sized_qu_line,sized_cy_dk,sized_cy_qu,sized_cy_po runs=60
extern "C" void sizes()
{
    namespace I = IntersectionAlgorithms;
    const int which = vf_choose("pair", 0, 10), c1 = vf_choose("convex1", 0, 2), c2 = vf_choose("convex2", 0, 2);
    if (vf_symbolic())
    {
        vf_assume(state("convex", 1) == c1); vf_assume(state("convex", 2) == c2);
        if (which == 0) size_of<Dk, Dk>([] (auto& a, auto& b, double e) { return I::intersect_disk_disk(a, b, e); }, true);
        if (which == 1) size_of<Qu, Qu>([] (auto& a, auto& b, double e) { return I::intersect_quadrilateral_quadrilateral(a, b, e); }, c1 && c2);
        if (which == 2) size_of<Po, Po>([] (auto& a, auto& b, double e) { return I::intersect_polygon_polygon(a, b, e); }, c1 && c2);
        if (which == 3) size_of<Qu, Dk>([] (auto& a, auto& b, double e) { return I::intersect_quadrilateral_disk(a, b, e); }, true);
        if (which == 4) size_of<Po, Dk>([] (auto& a, auto& b, double e) { return I::intersect_polygon_disk(a, b, e); }, true);
        if (which == 5) size_of<Dk, L3>([] (auto& a, auto& b, double e) { return I::intersect_disk_line(a, b, e); }, true);
        if (which == 6) size_of<Qu, L3>([] (auto& a, auto& b, double e) { return I::intersect_quadrilateral_line(a, b, e); }, true);
        if (which == 7) size_of<Cy, Dk>([] (auto& a, auto& b, double e) { return I::intersect_cylinderSurface_disk(a, b, e); }, true);
        if (which == 8) size_of<Cy, Qu>([] (auto& a, auto& b, double e) { return I::intersect_cylinderSurface_quadrilateral(a, b, e); }, c2);
        if (which == 9) size_of<Cy, Po>([] (auto& a, auto& b, double e) { return I::intersect_cylinderSurface_polygon(a, b, e); }, c2);
    }
    else
    {
        // a small shape and one long enough to be cut short if only the small one counted
        const Qu dart(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(0.1, 0.1, 0));
        const double L = 100.0 + 100.0*unit("L");
        const Qu big(P3(-L, -L, 0), P3(L, -L, 0), P3(-L, L, 0), P3(L, L, 0)), small(P3(0, 0, -1), P3(1, 0, -1), P3(0, 0, 1), P3(1, 0, 1));
        const D3 ex(V3(1.0, 0.0, 0.0)), ey(V3(0.0, 1.0, 0.0)), ez(V3(0.0, 0.0, 1.0));
        auto whole = [] (const auto& v, R3 a, R3 b)
        {
            if (!std::holds_alternative<S3>(v)) return false;
            const R3 s = r3(std::get<S3>(v).source()), t = r3(std::get<S3>(v).target());
            return norm2(s - a) + norm2(t - b) < 1e-8 || norm2(s - b) + norm2(t - a) < 1e-8;
        };
        const Dk disk(P3(0, 0, 0), ex, ey, L, L), coin(P3(0, 0, 0), ex, ez, 1, 1), upright(P3(0, 0, 0), ex, ez, L, 1);
        bool ok = true;
        if (which == 0) ok = whole(I::intersect_disk_disk(c1 ? disk : upright, c1 ? upright : disk, 1e-6), r3(-L, 0, 0), r3(L, 0, 0));
        if (which == 1) ok = whole(I::intersect_quadrilateral_quadrilateral(c1 ? big : small, c1 ? small : big, 1e-6), r3(0, 0, 0), r3(1, 0, 0));
        if (which == 3 && c1) ok = whole(I::intersect_quadrilateral_disk(Qu(P3(0.9*L, 0, -1), P3(0.9*L + 1, 0, -1), P3(0.9*L, 0, 1), P3(0.9*L + 1, 0, 1)), c2 ? disk : Dk(P3(0, 0, 0), ex, ey, L, 1), 1e-6), r3(0.9*L, 0, 0), r3(0.9*L + 1, 0, 0));
        else if (which == 3) ok = whole(I::intersect_quadrilateral_disk(big, upright, 1e-6), r3(-L, 0, 0), r3(L, 0, 0));
        if (which == 5) ok = whole(I::intersect_disk_line(disk, L3(P3(0, 0, 0), ex), 1e-6), r3(-L, 0, 0), r3(L, 0, 0));
        if (which == 6) ok = whole(I::intersect_quadrilateral_line(big, L3(P3(0, 0, 0), ex), 1e-6), r3(-L, 0, 0), r3(L, 0, 0));
        if (which == 4) ok = whole(I::intersect_polygon_disk(Po(std::vector<P3>{P3(0.9*L, 0, -1), P3(0.9*L + 1, 0, -1), P3(0.9*L + 1, 0, 1), P3(0.9*L, 0, 1)}), disk, 1e-6), r3(0.9*L, 0, 0), r3(0.9*L + 1, 0, 0));
        vf_assert("answer", ok);
        bool thrown = false;
        try { I::intersect_quadrilateral_quadrilateral(c1 ? small : dart, big, 1e-6); } catch (const std::runtime_error&) { thrown = true; }
        vf_assert("throws-iff-not-convex", thrown == !c1);
    }
}

//@ stub default_segments : .*Frackit::IntersectionAlgorithms::intersect_segment_segment<double, 3>\(.*
extern "C" void default_segments(Common* out, const S3&, const S3&, double eps) { new (out) Common(P3(eps, 0.0, 0.0)); }
//@ stub default_plane_line : .*Frackit::IntersectionAlgorithms::intersect_plane_line<double>\(.*
extern "C" void default_plane_line(std::variant<P3, L3, E3>* out, const Pl&, const L3&, double eps) { new (out) std::variant<P3, L3, E3>(P3(eps, 0.0, 0.0)); }
//@ stub boxes_always : bool Frackit::doIntersect<double>\(Frackit::(Bounding)?Box<double> const&, Frackit::(Bounding)?Box<double> const&, double\)
extern "C" bool boxes_always(const BoundingBox<double>&, const BoundingBox<double>&, double) { return true; }
//@ harness default_tolerance property=C20 stubs=default_segments,default_plane_line,boxes_always,box_s
extern "C" void default_tolerance()
{
    const double c = Frackit::Precision<double>::confusion();
    if (vf_symbolic())
    {
        const P3 o = point("o"), p = point("p"), q = point("q");
        const D3 d = direction("d");
        const double l = positive("l"), m = positive("m");
        const S3 s(o, p3(r3(o) + l*r3(d))), t(p, p3(r3(p) + m*r3(d)));
        const auto is = intersect(s, t);
        vf_assert("the-smaller-default", vf_eq(std::get<P3>(is).x(), c*min2(l, m)));
        const auto pl = intersect(Pl(o, d), L3(p, d));
        vf_assert("confusion-without-size", vf_eq(std::get<P3>(pl).x(), c));
    }
    else
    {
        // parallel at a distance that only the larger of the two default tolerances would bridge
        const double l = 1.0 + unit("l"), h = std::sqrt(l);
        const S3 s(P3(0, 0, 0), P3(1e-3, 0, 0)), t(P3(-1, h*1e-8, 0), P3(l, h*1e-8, 0));
        vf_assert("the-smaller-default", isEmptyIntersection(intersect(s, t)) && isEmptyIntersection(intersect(t, s)));
        vf_assert("confusion-without-size", isEmptyIntersection(intersect(Pl(P3(0, 0, 0), D3(V3(0.0, 0.0, 1.0))), L3(P3(0, 0, 1.1e-7), D3(V3(1.0, 0.0, 0.0))))));
    }
}
//@ harness unimplemented property=C20 throws=1
extern "C" void unimplemented()
{
    bool thrown = false;
    try { intersect(L3(point("o"), direction("d")), L3(point("p"), direction("e")), positive("eps")); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("throws", thrown);
}
//@ harness empty_intersection property=C20 bound="at most 3 pieces"
extern "C" void empty_intersection()
{
    const int k = vf_choose("kind", 0, 3), n = vf_choose("n", 0, 4);
    auto make = [] (int k) { return k == 0 ? Cut(E3()) : k == 1 ? Cut(P3(0, 0, 0)) : Cut(S3(P3(0, 0, 0), P3(1, 0, 0))); };
    vf_assert("variant", isEmptyIntersection(make(k)) == (k == 0));
    vf_assert("geometry", isEmptyIntersection(E3()) && !isEmptyIntersection(P3(0, 0, 0)));
    std::vector<Cut> v;
    bool all_empty = true;
    for (int i = 0; i < n; ++i) { const int j = vf_choose("piece", 0, 3); v.push_back(make(j)); if (j) all_empty = false; }
    vf_assert("pieces", isEmptyIntersection(v) == all_empty);
}

