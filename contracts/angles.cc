// C21 intersection angles
#include <array>
#include <limits>
#include <algorithm>
#include <vector>
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/intersection/intersectionangle.hh>
using namespace vf;
using Pl = Frackit::Plane<double, 3>;
using S3 = Segment<double, 3>;
using Cs = CylinderSurface<double>;
using El = Ellipse<double, 3>;
using Arc = EllipseArc<double, 3>;
using IA = IntersectionAngle<double>;

namespace ghost {
// any planar geometry: all that matters is its supporting plane
struct Sheet
{
    using ctype = double;
    static constexpr int myDimension() { return 2; }
    static constexpr int worldDimension() { return 3; }
    const Pl* plane;
    std::string name() const { return "Sheet"; }
    const Pl& supportingPlane() const { return *plane; }
};
Pl plane(const char* n) { const P3 p = point(n); return Pl(p, direction(n)); }
// the angle between two planes with the unit normals n1, n2
double spec(R3 n1, R3 n2)
{
    const double d = dot(n1, n2), c = std::abs(d);
    const R3 k = cross(n1, n2), w = r3(vf_name(k.x), vf_name(k.y), vf_name(k.z));
    const double N1 = vf_name(norm2(n1)), N2 = vf_name(norm2(n2));
    vf_lemma("unit", vf_and(vf_eq(N1, 1.0), vf_eq(N2, 1.0)));
    vf_lemma("lagrange", vf_eq(d*d + norm2(w), N1*N2));
    vf_lemma("square", vf_le(0.0, norm2(w)));
    vf_lemma("bound", vf_le(c*c, 1.0));
    vf_lemma("cauchy-schwarz", vf_le(c, 1.0));
    return std::acos(vf_symbolic() || c < 1.0 ? c : 1.0);
}
double spec(const Pl& a, const Pl& b) { return spec(r3(a.normal()), r3(b.normal())); }
Cs surface()
{
    const P3 c = point("c");
    const double r = positive("r"), h = positive("h");
    return Cs(Circle<double, 3>(c, direction("n"), r), h);
}
}
using namespace ghost;

// requires: nothing; ensures: a plane through p (its normal is the subject of C08)
//@ stub tangent_contract : Frackit::CylinderSurface<double>::getTangentPlane\(.*
extern "C" void tangent_contract(Pl* out, const Cs*, const P3& p)
{
    const R3 n = r3(vf_uf3("tx", p.x(), p.y(), p.z()), vf_uf3("ty", p.x(), p.y(), p.z()), vf_uf3("tz", p.x(), p.y(), p.z()));
    vf_assume(norm2(n) == 1.0);
    new (out) Pl();
    put(out->supportingPoint(), p);
    put(out->normal(), exact_direction(n));
}

//@ harness angle_planes property=C21
extern "C" void angle_planes()
{
    const Pl a = plane("a"), b = plane("b");
    const double t = IA()(a, b);
    vf_assert("angle-of-the-normals", vf_eq(t, spec(a, b)));
    vf_assert("between-0-and-90-degrees", vf_and(vf_le(0.0, t), vf_le(t, M_PI/2.0)));
    vf_assert("symmetric", vf_eq(t, IA()(b, a)));
    const Line<double, 3> l(point("l"), direction("d"));
    vf_assert("same-for-a-line", vf_eq(t, IA()(a, b, l)));
}
//@ harness angle_orientation property=C21
extern "C" void angle_orientation()
{
    const Pl a = plane("a"), b = plane("b");
    const Pl c(point("o"), exact_direction(-1.0*r3(b.normal())));
    vf_assert("independent-of-orientation-and-offset", vf_eq(IA()(a, b), IA()(a, c)));
}
//@ harness angle_sheets property=C21
extern "C" void angle_sheets()
{
    const Pl a = plane("a"), b = plane("b");
    Sheet s, t; s.plane = &a; t.plane = &b;
    const P3 p = point("p"), q = point("q");
    vf_assert("in-a-point", vf_eq(IA()(s, t, p), spec(a, b)));
    vf_assert("in-a-segment", vf_eq(IA()(s, t, S3(p, q)), spec(a, b)));
}
//@ harness angle_cylinder_straight property=C21 stubs=tangent_contract,circle_contract,elliptic_contract
extern "C" void angle_cylinder_straight()
{
    const Cs c = surface();
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    const P3 p = point("p"), q = point("q");
    if (!vf_symbolic()) vf_assume(norm2(r3(p) - r3(c.centerSegment().supportingLine().projection(p))) > 1e-3);
    const double want = spec(a, c.getTangentPlane(p));
    vf_assert("in-a-point", vf_eq(IA()(s, c, p), want));
    vf_assert("in-a-point-swapped", vf_eq(IA()(c, s, p), want));
    vf_assert("in-a-segment", vf_eq(IA()(s, c, S3(p, q)), want));
    vf_assert("in-a-segment-swapped", vf_eq(IA()(c, s, S3(p, q)), want));
}
namespace ghost {
P3 along(double t)
{
    if (t == 1.0) t = 0.0;
    return P3(vf_uf3("px", t, 0.0, 0.0), vf_uf3("py", t, 0.0, 0.0), vf_uf3("pz", t, 0.0, 0.0));
}
double smaller(double a, double b) { return vf_ite(b < a, b, a); }
template<class C> double least(const Pl& a, const Cs& c, const C& curve, int n)
{
    double m = spec(a, c.getTangentPlane(curve.getPoint(0.0)));
    for (int i = 1; i <= n; ++i) m = smaller(m, spec(a, c.getTangentPlane(curve.getPoint(double(i)/n))));
    return m;
}
El ellipse()
{
    const P3 c = point("ec");
    const D3 a = direction("ea"), b = direction_orth("eb", a);
    const double A = positive("A"), B = positive("B");
    return El(c, a, b, vf_ite(A < B, B, A), vf_ite(A < B, A, B));
}
}
//@ stub ellipse_point : Frackit::Ellipse<double, 3>::getPoint\(double\) const
extern "C" void ellipse_point(P3* out, const El*, double t) { new (out) P3(along(t)); }
//@ stub arc_point : Frackit::EllipseArc<double, 3>::getPoint\(double\) const
extern "C" void arc_point(P3* out, const Arc*, double t) { new (out) P3(along(t)); }
//@ harness angle_cylinder_ellipse property=C21 stubs=tangent_contract,circle_contract,elliptic_contract,ellipse_point
extern "C" void angle_cylinder_ellipse()
{
    const Cs c = surface();
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    const El e = ellipse();
    const double want = least(a, c, e, 8);
    vf_assert("least-of-eight-samples", vf_eq(IA()(s, c, e), want));
    vf_assert("swapped", vf_eq(IA()(c, s, e), want));
}
//@ harness angle_cylinder_arc property=C21 stubs=tangent_contract,circle_contract,elliptic_contract,arc_point
extern "C" void angle_cylinder_arc()
{
    const Cs c = surface();
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    // an arc is known by the points on it (arc_point)
    alignas(Arc) unsigned char raw[sizeof(Arc)];
    if (!vf_symbolic()) { const El e = ellipse(); new (raw) Arc(e, e.getPoint(0.0), e.getPoint(0.25)); }
    const Arc& arc = *reinterpret_cast<const Arc*>(raw);
    const double want = least(a, c, arc, 4);
    vf_assert("least-of-four-samples", vf_eq(IA()(s, c, arc), want));
    vf_assert("swapped", vf_eq(IA()(c, s, arc), want));
}
namespace ghost {
using Piece = std::variant<EmptyIntersection<3>, P3, S3>;
struct Part { int i; static std::string name() { return "Part"; } };
}
//@ harness angle_variant property=C21 stubs=tangent_contract,circle_contract,elliptic_contract
extern "C" void angle_variant()
{
    const Cs c = surface();
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    const P3 p = point("p"), q = point("q");
    if (!vf_symbolic()) vf_assume(norm2(r3(p) - r3(c.centerSegment().supportingLine().projection(p))) > 1e-3);
    if (!vf_symbolic()) vf_assume(norm2(r3(q) - r3(c.centerSegment().supportingLine().projection(q))) > 1e-3);
    const int kind = vf_choose("kind", 0, 3);
    Piece v;
    if (kind == 1) v = p;
    if (kind == 2) v = S3(q, p);
    bool thrown = false; double t = 0.0;
    try { t = IA()(s, c, v); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("no-angle-without-intersection", thrown == (kind == 0));
    if (!thrown) vf_assert("angle-of-the-alternative", vf_eq(t, spec(a, c.getTangentPlane(kind == 1 ? p : q))));
}
//@ harness angle_list property=C21 stubs=tangent_contract,circle_contract,elliptic_contract bound="at most 3 pieces"
extern "C" void angle_list()
{
    const Cs c = surface();
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    const int n = vf_choose("n", 1, 4);
    std::vector<Piece> v;
    double want = 0.0;
    for (int i = 0; i < n; ++i)
    {
        const P3 p = point("p"), q = point("q");
        if (!vf_symbolic()) vf_assume(norm2(r3(p) - r3(c.centerSegment().supportingLine().projection(p))) > 1e-3);
        if (vf_choose("kind", 0, 2)) v.push_back(p); else v.push_back(S3(p, q));
        const double t = spec(a, c.getTangentPlane(p));
        want = i ? smaller(want, t) : t;
    }
    vf_assert("least-angle", vf_eq(IA()(s, c, v), want));
}

// ---- faces.  OpenCASCADE's surface behind a face is any parametrised surface: a ghost
// class whose points and derivatives are arbitrary functions of the parameters.  On the
// native side the face is a real one, the lateral surface of a cylinder.
namespace ghost {
struct Surface : Geom_Surface
{
    void UReverse() override {} void VReverse() override {}
    double UReversedParameter(const double u) const override { return u; }
    double VReversedParameter(const double v) const override { return v; }
    void Bounds(double&, double&, double&, double&) const override {}
    bool IsUClosed() const override { return false; } bool IsVClosed() const override { return false; }
    bool IsUPeriodic() const override { return false; } bool IsVPeriodic() const override { return false; }
    Handle(Geom_Curve) UIso(const double) const override { return Handle(Geom_Curve)(); }
    Handle(Geom_Curve) VIso(const double) const override { return Handle(Geom_Curve)(); }
    GeomAbs_Shape Continuity() const override { return GeomAbs_C2; }
    bool IsCNu(const int) const override { return true; } bool IsCNv(const int) const override { return true; }
    void D0(const double, const double, gp_Pnt&) const override {}
    void D2(const double, const double, gp_Pnt&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&) const override {}
    void D3(const double, const double, gp_Pnt&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&, gp_Vec&) const override {}
    gp_Vec DN(const double, const double, const int, const int) const override { return gp_Vec(); }
    void Transform(const gp_Trsf&) override {}
    Handle(Geom_Geometry) Copy() const override { return Handle(Geom_Geometry)(); }
    int k;                                   // which face
    R3 du(double u, double v) const { return r3(vf_uf3("ux", u, v, k), vf_uf3("uy", u, v, k), vf_uf3("uz", u, v, k)); }
    R3 dv(double u, double v) const { return r3(vf_uf3("vx", u, v, k), vf_uf3("vy", u, v, k), vf_uf3("vz", u, v, k)); }
    void D1(const double u, const double v, gp_Pnt& p, gp_Vec& a, gp_Vec& b) const override
    {
        p = gp_Pnt(vf_uf3("sx", u, v, k), vf_uf3("sy", u, v, k), vf_uf3("sz", u, v, k));
        const R3 du_ = du(u, v), dv_ = dv(u, v);
        a = gp_Vec(du_.x, du_.y, du_.z); b = gp_Vec(dv_.x, dv_.y, dv_.z);
    }
};
// a face is only ever handed to face_surface below, which knows its surface
struct Face
{
    Surface* s; alignas(TopoDS_Face) unsigned char raw[sizeof(TopoDS_Face)];
    const TopoDS_Face& face() const { return *reinterpret_cast<const TopoDS_Face*>(this); }
};
double mark(const P3& p) { return vf_uf3("mark", p.x(), p.y(), p.z()); }
struct Proj { double mark, k; };
double proj_u(double m, double k) { return vf_uf3("pu", m, k, 0.0); }
double proj_v(double m, double k) { return vf_uf3("pv", m, k, 0.0); }
}
//@ stub face_surface : Frackit::OCCUtilities::getGeomHandle\(TopoDS_Face const&\)
extern "C" void face_surface(Handle(Geom_Surface)* out, const TopoDS_Face& f)
{ new (out) Handle(Geom_Surface)(reinterpret_cast<const Face&>(f).s); }
//@ stub project : GeomAPI_ProjectPointOnSurf::GeomAPI_ProjectPointOnSurf\(gp_Pnt const&, opencascade::handle<Geom_Surface> const&, Extrema_ExtAlgo\)
extern "C" void project(GeomAPI_ProjectPointOnSurf* self, const gp_Pnt& p, const Handle(Geom_Surface)& s, int)
{ Proj* q = reinterpret_cast<Proj*>(self); q->mark = mark(P3(p.X(), p.Y(), p.Z())); q->k = static_cast<const Surface*>(s.get())->k; }
//@ stub project_parameters : GeomAPI_ProjectPointOnSurf::LowerDistanceParameters\(double&, double&\) const
extern "C" void project_parameters(const GeomAPI_ProjectPointOnSurf* self, double& u, double& v)
{ const Proj* q = reinterpret_cast<const Proj*>(self); u = proj_u(q->mark, q->k); v = proj_v(q->mark, q->k); }
// reference counts: objects live on as long as the harness
//@ stub count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void count_up(const Standard_Transient*) {}
//@ stub count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int count_down(const Standard_Transient*) { return 1; }
//@ stub project_end : GeomAPI_ProjectPointOnSurf::~GeomAPI_ProjectPointOnSurf\(\)
extern "C" void project_end(GeomAPI_ProjectPointOnSurf*) {}

namespace ghost {
R3 unit_normal(const Surface& s, const P3& p)
{
    const double u = proj_u(mark(p), s.k), v = proj_v(mark(p), s.k);
    const R3 n = cross(s.du(u, v), s.dv(u, v));
    nondegenerate(norm2(n));
    const double l = norm(n);
    return r3(vf_name(n.x/l), vf_name(n.y/l), vf_name(n.z/l));
}
// concrete runs: the lateral surface of a cylinder, and a point on it
P3 rim(const Cs& c, double t, double h)
{
    const Circle<double, 3>& b = c.lowerBoundingCircle();
    const R3 p = r3(b.getPoint(t)) + h*r3(c.direction());
    return P3(p.x, p.y, p.z);
}
}
//@ harness angle_face_point property=C21 stubs=count_up,count_down,face_surface,project,project_parameters,project_end
extern "C" void angle_face_point()
{
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    if (vf_symbolic())
    {
        Surface srf; srf.k = 1;
        Face f; f.s = &srf;
        const P3 p = point("p");
        const double want = spec(r3(a.normal()), unit_normal(srf, p));
        vf_assert("tangent-plane-at-the-projection", vf_eq(IA()(s, f.face(), p), want));
        vf_assert("swapped", vf_eq(IA()(f.face(), s, p), want));
    }
    else
    {
        const Cs c = surface();
        const auto f = OCCUtilities::getFaces(OCCUtilities::getShape(c))[0];
        const P3 p = rim(c, unit("t"), 0.5*c.height());
        const double want = spec(a, c.getTangentPlane(p));
        vf_assert("tangent-plane-at-the-projection", vf_eq(IA()(s, f, p), want));
        vf_assert("swapped", vf_eq(IA()(f, s, p), want));
    }
}
//@ harness angle_faces_point property=C21 stubs=count_up,count_down,face_surface,project,project_parameters,project_end
extern "C" void angle_faces_point()
{
    if (vf_symbolic())
    {
        Surface s1, s2; s1.k = 1; s2.k = 2;
        Face f1, f2; f1.s = &s1; f2.s = &s2;
        const P3 p = point("p");
        const double want = spec(unit_normal(s1, p), unit_normal(s2, p));
        vf_assert("tangent-planes-at-the-projection", vf_eq(IA()(f1.face(), f2.face(), p), want));
    }
    else
    {
        const Cs c = surface();
        const P3 p = rim(c, unit("t"), 0.5*c.height());
        const Cs d(Circle<double, 3>(p, direction("m"), 1.0), 1.0);
        const P3 q = rim(d, unit("t"), 0.5);
        const V3 to(q, p);
        const Cs e(Circle<double, 3>(d.lowerBoundingCircle().center() + to, d.direction(), 1.0), 1.0);
        const auto f = OCCUtilities::getFaces(OCCUtilities::getShape(c))[0], g = OCCUtilities::getFaces(OCCUtilities::getShape(e))[0];
        vf_assert("tangent-planes-at-the-projection", vf_eq(IA()(f, g, p), spec(c.getTangentPlane(p), e.getTangentPlane(p))));
    }
}
namespace ghost {
struct Curve : Geom_Curve
{
    double first, last;
    void Reverse() override {} double ReversedParameter(const double u) const override { return u; }
    double FirstParameter() const override { return first; } double LastParameter() const override { return last; }
    bool IsClosed() const override { return false; } bool IsPeriodic() const override { return false; }
    GeomAbs_Shape Continuity() const override { return GeomAbs_C2; } bool IsCN(const int) const override { return true; }
    void D0(const double u, gp_Pnt& p) const override { const P3 q = along(u); p = gp_Pnt(q.x(), q.y(), q.z()); }
    void D1(const double, gp_Pnt&, gp_Vec&) const override {}
    void D2(const double, gp_Pnt&, gp_Vec&, gp_Vec&) const override {}
    void D3(const double, gp_Pnt&, gp_Vec&, gp_Vec&, gp_Vec&) const override {}
    gp_Vec DN(const double, const int) const override { return gp_Vec(); }
    void Transform(const gp_Trsf&) override {}
    Handle(Geom_Geometry) Copy() const override { return Handle(Geom_Geometry)(); }
    static P3 along(double u) { return P3(vf_uf3("cx", u, 0.0, 0.0), vf_uf3("cy", u, 0.0, 0.0), vf_uf3("cz", u, 0.0, 0.0)); }
};
struct Edge
{
    Curve* c; alignas(TopoDS_Edge) unsigned char raw[sizeof(TopoDS_Edge)];
    const TopoDS_Edge& edge() const { return *reinterpret_cast<const TopoDS_Edge*>(this); }
};
double at_point(const P3& p) { const double t = vf_uf3("angle", p.x(), p.y(), p.z()); vf_assume(t >= 0.0); vf_assume(t <= M_PI/2.0); return t; }
double least_along(const Curve& c)
{
    double m = at_point(Curve::along(c.first));
    for (int i = 1; i < 5; ++i) m = smaller(m, at_point(Curve::along(c.first + 0.25*i*(c.last - c.first))));
    return m;
}
}
//@ stub edge_curve : Frackit::OCCUtilities::getGeomHandle\(TopoDS_Edge const&\)
extern "C" void edge_curve(Handle(Geom_Curve)* out, const TopoDS_Edge& e)
{ new (out) Handle(Geom_Curve)(reinterpret_cast<const Edge&>(e).c); }
//@ stub curve_value : Geom_Curve::Value\(double\) const
extern "C" void curve_value(gp_Pnt* out, const Geom_Curve* c, double u) { new (out) gp_Pnt(); c->D0(u, *out); }
// the angles at points: angle_face_point, angle_faces_point
//@ stub face_point_angle : (_ZNK7Frackit17IntersectionAngleIdEclIN5ghost5Sheet.*RK11TopoDS_FaceRKNS_5PointIdLi3EEE|double Frackit::IntersectionAngle<double>::operator\(\)<ghost::Sheet.*>\(ghost::Sheet const&, TopoDS_Face const&, Frackit::Point<double, 3> const&\) const)
extern "C" double face_point_angle(const IA*, const Sheet&, const TopoDS_Face&, const P3& p) { return at_point(p); }
//@ stub faces_point_angle : Frackit::IntersectionAngle<double>::operator\(\)\(TopoDS_Face const&, TopoDS_Face const&, Frackit::Point<double, 3> const&\) const
extern "C" double faces_point_angle(const IA*, const TopoDS_Face&, const TopoDS_Face&, const P3& p) { return at_point(p); }
//@ harness angle_face_edge property=C21 stubs=count_up,count_down,edge_curve,curve_value,face_point_angle,faces_point_angle
extern "C" void angle_face_edge()
{
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    if (vf_symbolic())
    {
        Curve c; c.first = real("first"); c.last = real("last");
        Face f, g; f.s = g.s = nullptr; Edge e; e.c = &c;
        const double want = least_along(c);
        vf_assert("least-along-the-edge", vf_eq(IA()(s, f.face(), e.edge()), want));
        vf_assert("swapped", vf_eq(IA()(f.face(), s, e.edge()), want));
        vf_assert("of-two-faces", vf_eq(IA()(f.face(), g.face(), e.edge()), want));
    }
    else
    {
        const Cs c = surface();
        const auto f = OCCUtilities::getFaces(OCCUtilities::getShape(c))[0];
        const auto e = OCCUtilities::getEdges(f)[0];
        const auto h = OCCUtilities::getGeomHandle(e);
        double want = 10.0, both = 10.0;
        for (int i = 0; i < 5; ++i)
        {
            const P3 p = OCCUtilities::point(h->Value(h->FirstParameter() + 0.25*i*(h->LastParameter() - h->FirstParameter())));
            want = smaller(want, spec(a, c.getTangentPlane(p)));
            both = smaller(both, IA()(f, f, p));
        }
        vf_assert("least-along-the-edge", vf_eq(IA()(s, f, e), want));
        vf_assert("swapped", vf_eq(IA()(f, s, e), want));
        vf_assert("of-two-faces", vf_eq(IA()(f, f, e), both));
    }
}
//@ harness angle_face_in_face property=C21
extern "C" void angle_face_in_face()
{
    const Pl a = plane("a");
    Sheet s; s.plane = &a;
    Face f, g, h;
    vf_assert("no-angle-within-a-face", all(vf_eq(IA()(s, f.face(), g.face()), 0.0), vf_eq(IA()(f.face(), s, g.face()), 0.0), vf_eq(IA()(f.face(), g.face(), h.face()), 0.0)));
}
