// C11 bounding box intersection; C12 distances; C13 default tolerances
#include "common.hh"
#include "elliptic.hh"
#include <optional>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/intersection/bboxintersection.hh>
using namespace vf;
using B = Box<double>;
using L3 = Line<double, 3>;
using S3 = Segment<double, 3>;
using Q3 = Quadrilateral<double, 3>;
using Po3 = Polygon<double, 3>;
using Di = Disk<double>;
using El = Ellipse<double, 3>;
using Ci = Circle<double, 3>;
using CS = CylinderSurface<double>;

namespace {
inline double conf_() { return Frackit::Precision<double>::confusion(); }
#define conf conf_()
bool away(double x) { return vf_symbolic() || x > 1e-6 || x < -1e-6; }
B box(const char* n)
{
    const P3 lo = point(n);
    const double l = nonneg("l"), w = nonneg("w"), h = nonneg("h");
    return B(lo.x(), lo.y(), lo.z(), lo.x() + l, lo.y() + w, lo.z() + h);
}
// an arbitrary function of a point and an unordered pair of points
double hash(R3 p) { return vf_uf3("h", p.x, p.y, p.z); }
}

//@ harness boxes_intersect property=C11
extern "C" void boxes_intersect()
{
    const B a = box("a"), b = box("b");
    const double eps = positive("eps");
    const bool r = doIntersect(a, b, eps);
    const bool near = all(a.xMin() < b.xMax() + eps, b.xMin() < a.xMax() + eps, a.yMin() < b.yMax() + eps, b.yMin() < a.yMax() + eps, a.zMin() < b.zMax() + eps, b.zMin() < a.zMax() + eps);
    const bool apart = any(a.xMin() > b.xMax() + eps, b.xMin() > a.xMax() + eps, a.yMin() > b.yMax() + eps, b.yMin() > a.yMax() + eps, a.zMin() > b.zMax() + eps, b.zMin() > a.zMax() + eps);
    vf_assert("gaps-below-tolerance-intersect", vf_imp(near, r));
    vf_assert("gap-above-tolerance-does-not", vf_imp(apart, vf_not(r)));
    vf_assert("symmetric", vf_imp(any(near, apart), vf_iff(r, doIntersect(b, a, eps))));
}
//@ harness boxes_intersect_default property=C11
extern "C" void boxes_intersect_default()
{
    const B a = box("a"), b = box("b");
    const double eps = 0.5*(defaultEpsilon(a) + defaultEpsilon(b));
    vf_assert("default-tolerance", vf_iff(doIntersect(a, b), doIntersect(a, b, eps)));
    const P3 p(a.xMin() + unit("i")*(a.xMax() - a.xMin()), a.yMin() + unit("j")*(a.yMax() - a.yMin()), a.zMin() + unit("k")*(a.zMax() - a.zMin()));
    nondegenerate(norm2(r3(a.xMax() - a.xMin(), a.yMax() - a.yMin(), a.zMax() - a.zMin())));
    vf_assume(all(b.xMin() <= p.x(), p.x() <= b.xMax(), b.yMin() <= p.y(), p.y() <= b.yMax(), b.zMin() <= p.z(), p.z() <= b.zMax()));
    vf_assert("common-point-intersects", doIntersect(a, b));
}

//@ harness distance_points property=C12
extern "C" void distance_points()
{
    const P3 p = point("p"), q = point("q");
    const double d = computeDistance(p, q);
    vf_assert("euclidean", vf_and(d >= 0.0, vf_eq(d*d, norm2(r3(p) - r3(q)))));
    vf_assert("symmetric", vf_eq(d, computeDistance(q, p)));
    const P2 s(real("x"), real("y")), t(real("x2"), real("y2"));
    const double e = computeDistance(s, t), dx = s.x() - t.x(), dy = s.y() - t.y();
    vf_assert("euclidean-2d", vf_and(e >= 0.0, vf_eq(e*e, dx*dx + dy*dy)));
}
//@ harness distance_line property=C12
extern "C" void distance_line()
{
    const P3 s = point("s"), p = point("p");
    const D3 d = direction("d");
    const L3 l(s, d);
    const double r = computeDistance(p, l), t = dot(r3(p) - r3(s), r3(d));
    vf_assert("distance-to-nearest-point", vf_and(r >= 0.0, vf_eq(r*r, norm2(r3(p) - r3(s)) - t*t)));
    vf_assert("order-irrelevant", vf_eq(computeDistance(l, p), r));
}
// Contract of containment in a segment with the default tolerance (C05)
namespace { double beyond(double t, double L) { if (t < 0.0) return t; if (t > L) return t - L; return 0.0; } }
//@ stub segment_contains : .*Frackit::Segment<double, 3>::contains\(Frackit::Point<double, 3> const&, bool\) const
extern "C" bool segment_contains(const S3* s, const P3& p, bool)
{
    const R3 d = r3(s->direction()), o = r3(p) - r3(s->source());
    const double t = dot(o, d), L = s->length(), x = beyond(t, L);
    return norm2(o) - t*t + x*x < conf*conf*L*L;
}
//@ harness distance_segment property=C12 stubs=segment_contains
extern "C" void distance_segment()
{
    // p = a + k e + w with w orthogonal to the segment direction e: every point of space
    const P3 a = point("a");
    const D3 d = direction("d");
    const double L = positive("L"), k0 = real("k"), z = unit("z");
    const bool close = vf_symbolic() ? false : vf_bool("close");
    const double k = close ? (k0 < 0.0 ? -z*conf*L : L + z*conf*L) : k0;
    R3 w = r3(vec("w"));
    if (vf_symbolic()) vf_assume(dot(w, r3(d)) == 0.0); else w = w - dot(w, r3(d))*r3(d);
    const R3 b = r3(a) + L*r3(d), q = r3(a) + k*r3(d) + w;
    const S3 s(a, P3(b.x, b.y, b.z));
    const P3 p(q.x, q.y, q.z);
    vf_lemma("direction", same(r3(s.direction()), r3(d)));
    const R3 o = r3(s.supportingLine().projection(p));
    vf_lemma("projection", same(o, r3(a) + k*r3(d)));
    const double r = computeDistance(p, s), m = norm2(w);
    vf_assert("order-irrelevant", vf_eq(computeDistance(s, p), r));
    vf_assert("nonnegative", r >= 0.0);
    if (!vf_symbolic() && !close) vf_assume(away(k) && away(k - L));
    if (k >= 0.0 && k <= L) vf_assert("beside", vf_eq(r*r, m));
    else if (k <= -conf*L) vf_assert("before-source", vf_eq(r*r, m + k*k));
    else if (k >= L + conf*L) vf_assert("after-target", vf_eq(r*r, m + (k - L)*(k - L)));
    else if (k < 0.0) vf_assert("tolerance-at-source", vf_or(vf_eq(r*r, m), vf_eq(r*r, m + k*k)));
    else vf_assert("tolerance-at-target", vf_or(vf_eq(r*r, m), vf_eq(r*r, m + (k - L)*(k - L))));
}
//@ harness point_on_segment property=C12
extern "C" void point_on_segment()
{
    const P3 p = point("p"), a = point("a"), b = point("b");
    nondegenerate(norm2(r3(a) - r3(b)));
    const S3 s(a, b);
    const double eps = positive("eps"), d = computeDistance(p, s);
    vf_assert("on-iff-distance-below-tolerance", vf_iff(pointOnGeometry(p, s, eps), d < eps));
    vf_assert("on-default", vf_iff(pointOnGeometry(p, s), d < defaultEpsilon(s)));
}

// Contract of the point-segment distance for callers: a nonnegative function of the
// point and the (unordered) ends
//@ stub segment_distance : .*Frackit::computeDistance<double, double, 3>\(Frackit::Point<double, 3> const&, Frackit::Segment<double, 3> const&\)
extern "C" double segment_distance(const P3& p, const S3& s)
{
    const double a = hash(r3(s.source())), b = hash(r3(s.target()));
    const double d = vf_uf3("dist", hash(r3(p)), a + b, a*b);
    vf_assume(d >= 0.0);
    vf_assume(d < 1e300);
    return d;
}

namespace {
// an affine frame
struct Frame
{
    P3 a; V3 e, f;
    Frame() : a(point("a")), e(vec("e")), f(vec("f")) { nondegenerate(norm2(cross(r3(e), r3(f)))); }
    P3 at(double u, double v) const { const R3 q = r3(a) + u*r3(e) + v*r3(f); return P3(q.x, q.y, q.z); }
};
template<unsigned N> void minimum(double r, const double (&d)[N])
{
    bool hit = vf_eq(r, d[0]), low = vf_le(r, d[0]);
    for (unsigned i = 1; i < N; ++i) { hit = vf_or(hit, vf_eq(r, d[i])); low = vf_and(low, vf_le(r, d[i])); }
    vf_assert("boundary-distance-attained", hit);
    vf_assert("boundary-distance-minimal", low);
}
}
//@ harness quad_boundary property=C12 stubs=segment_distance
extern "C" void quad_boundary()
{
    const Frame F;
    const double s = positive("s"), t = positive("t");
    if (vf_symbolic()) vf_assume(s + t > 1.0); else vf_assume(s + t > 1.01);
    const P3 c[4] = {F.a, F.at(1, 0), F.at(0, 1), F.at(s, t)}, p = point("p");
    const Q3 q(c[0], c[1], c[2], c[3]);
    const double eps = positive("eps");
    const unsigned e[4][2] = {{0,1},{1,3},{3,2},{2,0}};
    double d[4];
    for (unsigned i = 0; i < 4; ++i) d[i] = computeDistance(p, S3(c[e[i][0]], c[e[i][1]]));
    minimum(computeDistanceToBoundary(p, q), d);
    if (!vf_symbolic()) for (unsigned i = 0; i < 4; ++i) vf_assume(away(d[i] - eps));
    vf_assert("on-boundary-iff-near-an-edge", vf_iff(pointOnGeometryBoundary(p, q, eps), any(d[0] < eps, d[1] < eps, d[2] < eps, d[3] < eps)));
    const double de = defaultEpsilon(q);
    vf_assert("on-boundary-default", vf_iff(pointOnGeometryBoundary(p, q), any(d[0] < de, d[1] < de, d[2] < de, d[3] < de)));
}
namespace {
// convex polygons with N corners in an affine frame: corners on a strictly convex chain
template<unsigned N> void polygon_boundary_impl()
{
    const Frame F;
    std::vector<P3> c;
    // first three corners general, the others from the frame with convexity assumed
    c.push_back(F.a); c.push_back(F.at(1, 0));
    if (N == 3) c.push_back(F.at(0, 1));
    else { const double s = positive("s"), t = positive("t"); vf_assume(vf_symbolic() ? s + t > 1.0 : s + t > 1.01); c.push_back(F.at(s, t)); c.push_back(F.at(0, 1)); }
    const P3 p = point("p");
    std::optional<Po3> made;
    try { made.emplace(c); } catch (const std::runtime_error&) { vf_assume(false); }   // C06 says when it is accepted
    const Po3& g = *made;
    const double eps = positive("eps");
    double d[N];
    for (unsigned i = 0; i < N; ++i) d[i] = computeDistance(p, S3(c[i], c[(i + 1)%N]));
    minimum(computeDistanceToBoundary(p, g), d);
    bool near = false, near_default = false;
    const double de = defaultEpsilon(g);
    for (unsigned i = 0; i < N; ++i)
    {
        if (!vf_symbolic()) vf_assume(away(d[i] - eps) && d[i] > 1e-6);
        near = vf_or(near, d[i] < eps); near_default = vf_or(near_default, d[i] < de);
    }
    vf_assert("on-boundary-iff-near-an-edge", vf_iff(pointOnGeometryBoundary(p, g, eps), near));
    vf_assert("on-boundary-default", vf_iff(pointOnGeometryBoundary(p, g), near_default));
}
}
//@ harness polygon_boundary_3 property=C12 stubs=segment_distance throws=1 bound="polygons with 3 corners"
extern "C" void polygon_boundary_3() { polygon_boundary_impl<3>(); }
//@ harness polygon_boundary_4 property=C12 stubs=segment_distance throws=1 bound="polygons with 4 corners"
extern "C" void polygon_boundary_4() { polygon_boundary_impl<4>(); }

// OpenCASCADE computes the distance between a point and an ellipse or circle: assumed
// to be some nonnegative function of the point and the curve
//@ stub ellipse_distance : .*Frackit::computeDistance<Frackit::Point<double, 3>, Frackit::Ellipse<double, 3> >\(Frackit::Point<double, 3> const&, .*
extern "C" double ellipse_distance(const P3& p, const El& e, double, int, int)
{
    const double d = vf_uf3("dist", hash(r3(p)), vf_uf3("e", hash(r3(e.center())), hash(r3(e.majorAxis())), hash(r3(e.minorAxis()))), vf_uf3("r", e.majorAxisLength(), e.minorAxisLength(), 0.0));
    vf_assume(d >= 0.0);
    return d;
}
//@ stub circle_distance : .*Frackit::computeDistance<Frackit::Point<double, 3>, Frackit::Circle<double, 3> >\(Frackit::Point<double, 3> const&, .*
extern "C" double circle_distance(const P3& p, const Ci& e, double, int, int)
{
    const double d = vf_uf3("distc", hash(r3(p)), vf_uf3("e", hash(r3(e.center())), hash(r3(e.normal())), 0.0), e.radius());
    vf_assume(d >= 0.0);
    return d;
}
//@ harness disk_boundary property=C12 stubs=ellipse_distance,elliptic_contract
extern "C" void disk_boundary()
{
    const P3 c = point("c"), p = point("p");
    const D3 a = direction("a"), b = direction_orth("b", a);
    const double m = positive("m"), l = m + nonneg("dl"), eps = positive("eps");
    const Di d(c, a, b, l, m);
    const double r = computeDistance(p, El(c, a, b, l, m));
    if (!vf_symbolic()) vf_assume(away(r - eps));
    vf_assert("on-boundary-iff-near-the-ellipse", vf_iff(pointOnGeometryBoundary(p, d, eps), r < eps));
    vf_assert("on-boundary-default", vf_iff(pointOnGeometryBoundary(p, d), r < conf*0.5*(l + m)));
}
//@ harness cylinder_boundary property=C12 stubs=circle_distance,circle_contract,elliptic_contract
extern "C" void cylinder_boundary()
{
    const P3 c = point("c"), p = point("p");
    const D3 n = direction("n");
    const double rad = positive("r"), h = positive("h"), eps = positive("eps");
    const CS s(Ci(c, n, rad), h);
    const R3 t = r3(c) + h*r3(n);
    const double lo = computeDistance(p, Ci(c, n, rad)), up = computeDistance(p, Ci(P3(t.x, t.y, t.z), n, rad));
    if (!vf_symbolic()) vf_assume(away(lo - eps) && away(up - eps));
    vf_assert("on-boundary-iff-near-a-rim", vf_iff(pointOnGeometryBoundary(p, s, eps), vf_or(lo < eps, up < eps)));
    const double de = conf*0.5*(rad + h);
    vf_assert("on-boundary-default", vf_iff(pointOnGeometryBoundary(p, s), vf_or(lo < de, up < de)));
}
//@ harness distance_variant property=C12 stubs=segment_distance
extern "C" void distance_variant()
{
    const P3 p = point("p"), q = point("q"), t = point("t");
    using Var = std::variant<P3, S3>;
    vf_assert("point-alternative", vf_eq(computeDistance(p, Var(q)), computeDistance(p, q)));
    vf_assert("segment-alternative", vf_eq(computeDistance(p, Var(S3(q, t))), computeDistance(p, S3(q, t))));
}
//@ harness distance_vector property=C12 bound="vectors of 1 to 3 geometries"
extern "C" void distance_vector()
{
    const int n = vf_choose("n", 1, 4);
    const P3 p = point("p");
    std::vector<P3> v; double d[3];
    for (int i = 0; i < n; ++i) { v.push_back(point("q")); d[i] = computeDistance(p, v[i]); vf_assume(d[i] < 1e300); }
    const double r = computeDistance(p, v);
    bool hit = false;
    for (int i = 0; i < n; ++i) { vf_assert("minimal", vf_le(r, d[i])); hit = vf_or(hit, vf_eq(r, d[i])); }
    vf_assert("attained", hit);
}

// ---- C13
//@ harness epsilon_curves property=C13 stubs=circle_contract,elliptic_contract
extern "C" void epsilon_curves()
{
    const P3 p = point("p"), q = point("q");
    const double e = defaultEpsilon(S3(p, q));
    vf_assert("segment", vf_and(e >= 0.0, vf_eq(e*e/(conf*conf), norm2(r3(p) - r3(q)))));
    const D3 a = direction("a"), b = direction_orth("b", a);
    const double l = positive("l"), m = positive("m");
    vf_assert("circle", vf_eq(defaultEpsilon(Ci(p, a, l))/conf, l));
    vf_assert("ellipse", vf_eq(defaultEpsilon(El(p, a, b, l, m))/conf, 0.5*(l + m)));
    vf_assert("disk", vf_eq(defaultEpsilon(Di(p, a, b, l, m))/conf, 0.5*(l + m)));
    vf_assert("cylinder-surface", vf_eq(defaultEpsilon(CS(Ci(p, a, l), m))/conf, 0.5*(l + m)));
    vf_assert("sphere", vf_eq(defaultEpsilon(Sphere<double>(p, l))/conf, l));
    vf_assert("other", all(vf_eq(defaultEpsilon(p)/conf, 1.0), vf_eq(defaultEpsilon(L3(p, a))/conf, 1.0)));
}
//@ harness epsilon_box property=C13
extern "C" void epsilon_box()
{
    const B b = box("lo");
    const R3 d = r3(b.xMax() - b.xMin(), b.yMax() - b.yMin(), b.zMax() - b.zMin());
    const double e = defaultEpsilon(b);
    vf_assert("diagonal", vf_and(e >= 0.0, vf_eq(e*e/(conf*conf), norm2(d))));
}
//@ harness epsilon_quad property=C13 throws=1
extern "C" void epsilon_quad()
{
    const Frame F;
    const double s = positive("s"), t = positive("t");
    if (vf_symbolic()) vf_assume(s + t > 1.0); else vf_assume(s + t > 1.01);
    const Q3 q(F.a, F.at(1, 0), F.at(0, 1), F.at(s, t));
    const double e = defaultEpsilon(q);
    vf_assert("quadrilateral", vf_and(e > 0.0, vf_eq(4.0*e*e/(conf*conf), q.area())));
    const std::vector<P3> c{F.a, F.at(1, 0), F.at(0, 1)};
    std::optional<Po3> made;
    try { made.emplace(c); } catch (const std::runtime_error&) { vf_assume(false); }   // C06 says when it is accepted
    const Po3& g = *made;
    const double h = defaultEpsilon(g);
    vf_assert("polygon", vf_and(h > 0.0, vf_eq(4.0*h*h/(conf*conf), g.area())));
}
// the bounding box of a shape is computed by OpenCASCADE: Bnd_Box::Get is assumed to
// return some ordered extents
namespace { R3 ghost_lo, ghost_hi; TopoDS_Shape shape_of(const B& b) { return OCCUtilities::getShape(b); } }
//@ stub bnd_get : Bnd_Box::Get\(
extern "C" void bnd_get(const void*, double& a, double& b, double& c, double& d, double& e, double& f)
{ a = ghost_lo.x; b = ghost_lo.y; c = ghost_lo.z; d = ghost_hi.x; e = ghost_hi.y; f = ghost_hi.z; }
//@ stub bnd_add : BRepBndLib::Add\(
extern "C" void bnd_add(const void*, void*, bool) {}
//@ stub bnd_init : Bnd_Box::Bnd_Box\(\)
extern "C" void bnd_init(void*) {}
//@ harness epsilon_shape property=C13 stubs=bnd_get,bnd_add,bnd_init
extern "C" void epsilon_shape()
{
    const P3 lo = point("lo");
    const double l = positive("l"), w = positive("w"), h = positive("h");
    ghost_lo = r3(lo); ghost_hi = ghost_lo + r3(l, w, h);
    alignas(16) static char raw[sizeof(TopoDS_Shape)];
    const TopoDS_Shape& s = *reinterpret_cast<TopoDS_Shape*>(raw);
    if (!vf_symbolic()) new (raw) TopoDS_Shape(shape_of(B(lo.x(), lo.y(), lo.z(), lo.x() + l, lo.y() + w, lo.z() + h)));
    const B b = OCCUtilities::getBoundingBox(s);
    vf_assert("extents", all(vf_eq(b.xMin(), ghost_lo.x), vf_eq(b.yMin(), ghost_lo.y), vf_eq(b.zMin(), ghost_lo.z), vf_eq(b.xMax(), ghost_hi.x), vf_eq(b.yMax(), ghost_hi.y), vf_eq(b.zMax(), ghost_hi.z)));
    const double e = defaultEpsilon(s);
    vf_assert("shape", vf_and(e > 0.0, vf_eq(e*e/(conf*conf), l*l + w*w + h*h)));
}
