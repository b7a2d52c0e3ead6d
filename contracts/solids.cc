// C08 boxes; C10 volumes; C07 containment in spheres, cylinders, hollow cylinders,
// cylinder surfaces, disks, ellipses and circles
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/magnitude/volume.hh>
#include <frackit/magnitude/area.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/magnitude.hh>
using namespace vf;
using B = Box<double>;
using S3 = Segment<double, 3>;
using Q3 = Quadrilateral<double, 3>;
using Di = Disk<double>;
using El = Ellipse<double, 3>;
using Ci = Circle<double, 3>;
using Cy = Cylinder<double>;
using HC = HollowCylinder<double>;
using CS = CylinderSurface<double>;
using Pl = Plane<double, 3>;

namespace {
inline double conf_() { return Frackit::Precision<double>::confusion(); }
#define conf conf_()
// a right-handed orthonormal basis and an origin
struct Basis
{
    P3 o; D3 d1, d2, d3; R3 a, b, n;
    Basis() : o(point("o")), d1(direction("a")), d2(direction_orth("b", d1)),
              d3(D3(crossProduct(V3(d1), V3(d2)))), a(r3(d1)), b(r3(d2)), n(cross(r3(d1), r3(d2))) {}
    P3 at(double x, double y, double z) const
    { const R3 q = r3(o) + x*a + y*b + z*n; return P3(q.x, q.y, q.z); }
};
// an origin, a unit axis, and a radial vector orthogonal to it
struct Axis
{
    P3 o; D3 d; R3 n, w;
    Axis(bool radial = false) : o(point("o")), d(direction("d")), n(r3(d)), w(r3(0, 0, 0))
    {
        if (!radial) return;
        w = r3(vec("w"));
        if (vf_symbolic()) vf_assume(dot(w, n) == 0.0);
        else w = w - dot(w, n)*n;
    }
    P3 at(double t) const { const R3 q = r3(o) + t*n; return P3(q.x, q.y, q.z); }
    P3 at(double t, double k) const { const R3 q = r3(o) + t*n + k*w; return P3(q.x, q.y, q.z); }
};
bool away(double x) { return vf_symbolic() || x > 1e-6 || x < -1e-6; }
B box()
{
    const P3 lo = point("lo");
    const double l = nonneg("l"), w = nonneg("w"), h = nonneg("h");
    return B(lo.x(), lo.y(), lo.z(), lo.x() + l, lo.y() + w, lo.z() + h);
}
}

//@ harness box_construction property=C08 throws=1
extern "C" void box_construction()
{
    const P3 lo = point("lo"), hi = point("hi");
    const bool ordered = all(lo.x() <= hi.x(), lo.y() <= hi.y(), lo.z() <= hi.z());
    bool thrown = false;
    try {
        const B b(lo.x(), lo.y(), lo.z(), hi.x(), hi.y(), hi.z());
        vf_check("extents", all(b.xMin() == lo.x(), b.yMin() == lo.y(), b.zMin() == lo.z(), b.xMax() == hi.x(), b.yMax() == hi.y(), b.zMax() == hi.z()));
    } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("inverted-extents-are-rejected", vf_iff(thrown, vf_not(ordered)));
}
//@ harness box_construction_points property=C08 throws=1
extern "C" void box_construction_points()
{
    const P3 lo = point("lo"), hi = point("hi");
    const bool ordered = all(lo.x() <= hi.x(), lo.y() <= hi.y(), lo.z() <= hi.z());
    bool thrown = false;
    try {
        const B b(lo, hi);
        vf_check("extents", all(b.xMin() == lo.x(), b.yMin() == lo.y(), b.zMin() == lo.z(), b.xMax() == hi.x(), b.yMax() == hi.y(), b.zMax() == hi.z()));
    } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("inverted-extents-are-rejected", vf_iff(thrown, vf_not(ordered)));
}
//@ harness box_topology property=C08
extern "C" void box_topology()
{
    const B b = box();
    const double x[2] = {b.xMin(), b.xMax()}, y[2] = {b.yMin(), b.yMax()}, z[2] = {b.zMin(), b.zMax()};
    vf_assert("counts", B::numCorners() == 8 && B::numEdges() == 12 && B::numFaces() == 6);
    // every corner position occurs once
    R3 c[8];
    for (unsigned i = 0; i < 8; ++i) c[i] = r3(b.corner(i));
    for (unsigned i = 0; i < 8; ++i) vf_assert("corners", same(c[i], r3(x[i & 1], y[(i >> 1) & 1], z[i >> 2])));
    // edges connect corners that differ in one coordinate, each pair once
    const unsigned e[12][2] = {{0,1},{0,2},{1,3},{2,3},{0,4},{1,5},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
    for (unsigned k = 0; k < 12; ++k)
    {
        const S3 s = b.edge(k);
        vf_assert("edges", vf_or(vf_and(same(r3(s.source()), c[e[k][0]]), same(r3(s.target()), c[e[k][1]])),
                                 vf_and(same(r3(s.source()), c[e[k][1]]), same(r3(s.target()), c[e[k][0]]))));
    }
    const unsigned f[6][4] = {{0,1,2,3},{0,1,4,5},{0,2,4,6},{1,3,5,7},{2,3,6,7},{4,5,6,7}};
    for (unsigned k = 0; k < 6; ++k)
    {
        const Q3 q = b.face(k);
        for (unsigned i = 0; i < 4; ++i) vf_assert("faces", same(r3(q.corner(i)), c[f[k][i]]));
    }
    vf_assert("volume", vf_eq(b.volume(), (x[1] - x[0])*(y[1] - y[0])*(z[1] - z[0])));
    vf_assert("volume-nonnegative", b.volume() >= 0.0);
    vf_assert("free-volume", vf_eq(computeVolume(b), b.volume()));
    vf_assert("magnitude", vf_eq(computeMagnitude(b), b.volume()));
    vf_assert("center", same(2.0*r3(b.center()), r3(x[0] + x[1], y[0] + y[1], z[0] + z[1])));
}
//@ harness box_invalid_index property=C08 throws=1
extern "C" void box_invalid_index()
{
    const B b(0, 0, 0, 1, 1, 1);
    const unsigned i = vf_int("i", 8, 1000), j = vf_int("j", 12, 1000), k = vf_int("k", 6, 1000);
    int n = 0;
    try { b.corner(i); } catch (const std::runtime_error&) { ++n; }
    try { b.edge(j); } catch (const std::runtime_error&) { ++n; }
    try { b.face(k); } catch (const std::runtime_error&) { ++n; }
    vf_assert("rejected", n == 3);
}
//@ harness box_contains property=C08,C07
extern "C" void box_contains()
{
    const B b = box();
    const P3 p = point("p");
    const double eps = positive("eps");
    auto near = [&] (double e) {
        return all(b.xMin() - e < p.x(), p.x() < b.xMax() + e, b.yMin() - e < p.y(), p.y() < b.yMax() + e, b.zMin() - e < p.z(), p.z() < b.zMax() + e); };
    vf_assert("contains-iff-within-tolerance", vf_iff(b.contains(p, eps), near(eps)));
    vf_assert("corners", all(b.contains(b.corner(0), eps), b.contains(b.corner(7), eps), b.contains(b.center(), eps)));
    const R3 d = r3(b.xMax() - b.xMin(), b.yMax() - b.yMin(), b.zMax() - b.zMin());
    vf_assert("contains-default", vf_iff(b.contains(p), near(conf*norm(d))));
}

//@ harness sphere_contains property=C07,C10
extern "C" void sphere_contains()
{
    const P3 c = point("c"), p = point("p");
    const double r = positive("r"), eps = positive("eps");
    const Sphere<double> s(c, r);
    vf_assert("accessors", vf_and(same(r3(s.center()), r3(c)), vf_eq(s.radius(), r)));
    const double d2 = norm2(r3(p) - r3(c));
    if (!vf_symbolic()) vf_assume(away(d2 - r*r - eps*eps));
    vf_assert("contains", vf_iff(s.contains(p, eps), d2 < r*r + eps*eps));
    if (!vf_symbolic()) vf_assume(away(d2 - r*r));
    vf_assert("contains-default", vf_iff(s.contains(p), d2 < r*r*(1.0 + conf*conf)));
    vf_assert("volume", vf_eq(3.0*s.volume(), 4.0*M_PI*r*r*r));
    vf_assert("free-volume", vf_eq(computeVolume(s), s.volume()));
    vf_assert("magnitude", vf_eq(computeMagnitude(s), s.volume()));
}

//@ harness disk_contains property=C07,C10 stubs=circle_contract,elliptic_contract
extern "C" void disk_contains()
{
    const Basis F;
    const double a = positive("ma"), b = positive("mi"), eps = positive("eps");
    const double x = real("x"), y = real("y"), h = real("h");
    const Di d(F.o, F.d1, F.d2, a, b);
    vf_assert("normal", same(r3(d.normal()), F.n));
    const P3 p = F.at(x, y, h);               // every point of space has this form
    const double k = x*x/(a*a) + y*y/(b*b);
    if (!vf_symbolic()) vf_assume(away(k - 1.0 - eps*eps) && away(std::fabs(h) - eps) && away(k - 1.0) && away(h));
    const bool onplane = vf_and(h < eps, -h < eps);
    const Pl pl = d.supportingPlane();
    vf_assert("plane", all(same(r3(pl.normal()), F.n), same(r3(pl.supportingPoint()), r3(F.o)), same(r3(pl.base1()), F.a), same(r3(pl.base2()), F.b)));
    vf_assert("contains", vf_iff(d.contains(p, eps), vf_and(onplane, k <= 1.0 + eps*eps)));
    vf_assert("contains-known-plane", vf_iff(d.contains(p, eps, false), k <= 1.0 + eps*eps));
    vf_assert("contains-default", vf_iff(d.contains(p), all(h < conf, -h < conf, k <= 1.0 + conf*conf)));
    vf_assert("contains-default-known-plane", vf_iff(d.contains(p, false), k <= 1.0 + conf*conf));
    vf_assert("area", vf_eq(d.area(), M_PI*a*b));
    vf_assert("free-area", vf_eq(computeArea(d), d.area()));
    vf_assert("magnitude", vf_eq(computeMagnitude(d), d.area()));
    const El e = d.boundingEllipse();
    vf_assert("boundary", all(same(r3(e.center()), r3(F.o)), same(r3(e.majorAxis()), F.a), same(r3(e.minorAxis()), F.b), vf_eq(e.majorAxisLength(), a), vf_eq(e.minorAxisLength(), b)));
    const Di d2(e);
    vf_assert("from-ellipse", all(same(r3(d2.center()), r3(F.o)), same(r3(d2.majorAxis()), F.a), same(r3(d2.minorAxis()), F.b), vf_eq(d2.majorAxisLength(), a), vf_eq(d2.minorAxisLength(), b), same(r3(d2.normal()), F.n)));
}

//@ harness ellipse_contains property=C07 stubs=circle_contract,elliptic_contract
extern "C" void ellipse_contains()
{
    const Basis F;
    const double a = positive("ma"), b = positive("mi"), eps = positive("eps");
    const double x = real("x"), y = real("y"), h = real("h");
    const El d(F.o, F.d1, F.d2, a, b);
    const P3 p = F.at(x, y, h);
    const double k = x*x/(a*a) + y*y/(b*b) - 1.0;
    if (!vf_symbolic()) vf_assume(away(std::fabs(k) - eps) && away(std::fabs(h) - eps) && away(k) && away(h));
    vf_assert("contains", vf_iff(d.contains(p, eps), all(h < eps, -h < eps, k < eps, -k < eps)));
    vf_assert("contains-known-plane", vf_iff(d.contains(p, eps, false), all(k < eps, -k < eps)));
    vf_assert("contains-default", vf_iff(d.contains(p), all(h < conf, -h < conf, k < conf, -k < conf)));
    vf_assert("contains-default-known-plane", vf_iff(d.contains(p, false), all(k < conf, -k < conf)));
}

//@ harness circle_contains property=C07 stubs=circle_contract,elliptic_contract
extern "C" void circle_contains()
{
    const Axis F(true);
    const double r = positive("r"), eps = positive("eps");
    const double h = real("h");
    const Ci d(F.o, F.d, r);
    const P3 p = F.at(h, 1.0);
    const double k = std::sqrt(norm2(F.w) + h*h);
    if (!vf_symbolic()) vf_assume(away(std::fabs(k - r) - eps) && away(std::fabs(h) - eps) && away(k - r) && away(h));
    vf_assert("accessors", all(same(r3(d.center()), r3(F.o)), vf_eq(d.radius(), r)));
    vf_assert("contains", vf_iff(d.contains(p, eps), all(h < eps, -h < eps, k - r < eps, r - k < eps)));
    const double e2 = conf*r;
    vf_assert("contains-default", vf_iff(d.contains(p), all(h < e2, -h < e2, k - r < e2, r - k < e2)));
}

//@ harness cylinder_contains property=C07 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_contains()
{
    const Axis F(true);
    const double r = positive("r"), H = positive("H"), eps = positive("eps");
    const double t = real("t");
    const Cy c(Ci(F.o, F.d, r), H);
    const P3 p = F.at(t, 1.0);
    const double k = norm2(F.w);
    if (!vf_symbolic()) vf_assume(away(k - r*r - eps*eps) && away(t + eps) && away(t - H - eps) && away(k - r*r) && away(t) && away(t - H));
    const double e2 = conf*0.5*(r + H);
    vf_lemma("axis", same(r3(c.centerSegment().target()), r3(F.at(H))));
    vf_lemma("foot", same(r3(c.centerSegment().supportingLine().projection(p)), r3(F.at(t))));
    vf_assert("contains", vf_iff(c.contains(p, eps), all(t < H + eps, -t < eps, k <= r*r + eps*eps)));
    vf_assert("contains-default", vf_iff(c.contains(p), all(t < H + e2, -t < e2, k <= r*r + e2*e2)));
}

//@ harness hollow_cylinder_contains property=C07 stubs=circle_contract,elliptic_contract
extern "C" void hollow_cylinder_contains()
{
    const Axis F(true);
    const double ri = positive("ri"), dr = nonneg("dr"), H = positive("H"), eps = positive("eps");
    const double t = real("t"), ro = ri + dr;
    const HC c(F.o, F.d, ri, ro, H);
    const P3 p = F.at(t, 1.0);
    const double k = norm2(F.w);
    if (!vf_symbolic()) vf_assume(away(k - ro*ro - eps*eps) && away(k - ri*ri + eps*eps) && away(t + eps) && away(t - H - eps) && away(k - ro*ro) && away(k - ri*ri) && away(t) && away(t - H));
    const double e2 = conf*0.5*(ro + H);
    vf_lemma("axis", same(r3(c.centerSegment().target()), r3(F.at(H))));
    vf_lemma("foot", same(r3(c.centerSegment().supportingLine().projection(p)), r3(F.at(t))));
    vf_assert("contains", vf_iff(c.contains(p, eps), all(t < H + eps, -t < eps, k <= ro*ro + eps*eps, k >= ri*ri - eps*eps)));
    vf_assert("contains-default", vf_iff(c.contains(p), all(t < H + e2, -t < e2, k <= ro*ro + e2*e2, k >= ri*ri - e2*e2)));
}

//@ harness cylinder_surface_contains property=C07 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_surface_contains()
{
    const Axis F(true);
    const double r = positive("r"), H = positive("H"), eps = positive("eps");
    const double t = real("t");
    const CS c(Ci(F.o, F.d, r), H);
    const P3 p = F.at(t, 1.0);
    const double k = std::sqrt(norm2(F.w));
    if (!vf_symbolic()) vf_assume(away(std::fabs(k - r) - eps) && away(t + eps) && away(t - H - eps) && away(k - r) && away(t) && away(t - H));
    const double e2 = conf*0.5*(r + H);
    vf_lemma("axis", same(r3(c.centerSegment().target()), r3(F.at(H))));
    vf_lemma("foot", same(r3(c.centerSegment().supportingLine().projection(p)), r3(F.at(t))));
    vf_assert("contains", vf_iff(c.contains(p, eps), all(t < H + eps, -t < eps, k - r < eps, r - k < eps)));
    vf_assert("contains-default", vf_iff(c.contains(p), all(t < H + e2, -t < e2, k - r < e2, r - k < e2)));
}

//@ harness cylinder_parts property=C09,C10 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_parts()
{
    const Basis F;
    const double r = positive("r"), H = positive("H");
    const Cy c(Di(F.o, F.d1, F.d2, r, r), H);
    vf_assert("axes", all(same(r3(c.base1()), F.a), same(r3(c.base2()), F.b), same(r3(c.base3()), F.n), same(r3(c.direction()), F.n)));
    vf_assert("size", all(vf_eq(c.height(), H), vf_eq(c.radius(), r)));
    vf_assert("bottom", all(same(r3(c.bottomFace().center()), r3(F.o)), same(r3(c.bottomFace().normal()), F.n), vf_eq(c.bottomFace().majorAxisLength(), r), vf_eq(c.bottomFace().minorAxisLength(), r)));
    vf_assert("top", all(same(r3(c.topFace().center()), r3(F.at(0, 0, H))), same(r3(c.topFace().normal()), F.n), same(r3(c.topFace().majorAxis()), F.a), same(r3(c.topFace().minorAxis()), F.b), vf_eq(c.topFace().majorAxisLength(), r), vf_eq(c.topFace().minorAxisLength(), r)));
    vf_assert("center-segment", vf_and(same(r3(c.centerSegment().source()), r3(F.o)), same(r3(c.centerSegment().target()), r3(F.at(0, 0, H)))));
    vf_assert("volume", vf_eq(c.volume(), M_PI*r*r*H));
    vf_assert("free-volume", vf_eq(computeVolume(c), c.volume()));
    vf_assert("magnitude", vf_eq(computeMagnitude(c), c.volume()));
}
//@ harness cylinder_lateral property=C09,C10 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_lateral()
{
    const Axis F;
    const double r = positive("r"), H = positive("H");
    const Cy c(Ci(F.o, F.d, r), H);
    const CS s = c.lateralFace();
    vf_assert("lateral", all(same(r3(s.direction()), F.n), vf_eq(s.radius(), r), vf_eq(s.height(), H), same(r3(s.lowerBoundingCircle().center()), r3(F.o)), same(r3(s.upperBoundingCircle().center()), r3(F.at(H)))));
    vf_assert("rims", all(vf_eq(s.upperBoundingCircle().radius(), r), vf_eq(s.lowerBoundingCircle().radius(), r), same(r3(s.upperBoundingCircle().normal()), F.n)));
    vf_assert("lateral-area", vf_eq(s.area(), 2.0*M_PI*r*H));
    vf_assert("free-area", vf_eq(computeArea(s), s.area()));
    vf_assert("magnitude", vf_eq(computeMagnitude(s), s.area()));
}
//@ harness surface_cylinder property=C09 stubs=circle_contract,elliptic_contract
extern "C" void surface_cylinder()
{
    const Axis F;
    const double r = positive("r"), H = positive("H");
    const CS s(Ci(F.o, F.d, r), H);
    vf_assert("accessors", all(same(r3(s.direction()), F.n), same(r3(s.base3()), F.n), vf_eq(s.radius(), r), vf_eq(s.height(), H), same(r3(s.base1()), r3(s.lowerBoundingCircle().base1())), same(r3(s.base2()), r3(s.lowerBoundingCircle().base2())), same(r3(s.centerSegment().source()), r3(F.o)), same(r3(s.centerSegment().target()), r3(F.at(H)))));
    const Cy b = s.cylinder();
    vf_assert("back", all(same(r3(b.direction()), F.n), vf_eq(b.radius(), r), vf_eq(b.height(), H), same(r3(b.bottomFace().center()), r3(F.o)), same(r3(b.topFace().center()), r3(F.at(H)))));
}
//@ harness cylinder_aligned property=C09,C10 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_aligned()
{
    const double r = positive("r"), H = positive("H"), z = real("z");
    const Cy c(r, H, z);
    vf_assert("placed", all(same(r3(c.direction()), r3(0, 0, 1)), same(r3(c.bottomFace().center()), r3(0, 0, z)), same(r3(c.topFace().center()), r3(0, 0, z + H)), vf_eq(c.radius(), r), vf_eq(c.height(), H), vf_eq(c.volume(), M_PI*r*r*H)));
    const Cy d(r, H);
    vf_assert("default-offset", vf_and(same(r3(d.bottomFace().center()), r3(0, 0, 0)), same(r3(d.topFace().center()), r3(0, 0, H))));
    const CS s(r, H);
    vf_assert("surface", all(same(r3(s.direction()), r3(0, 0, 1)), same(r3(s.lowerBoundingCircle().center()), r3(0, 0, 0)), same(r3(s.upperBoundingCircle().center()), r3(0, 0, H)), vf_eq(s.radius(), r), vf_eq(s.height(), H)));
    const double dr = nonneg("dr");
    const HC h(r, r + dr, H);
    vf_assert("hollow", all(same(r3(h.axis()), r3(0, 0, 1)), same(r3(h.centerSegment().source()), r3(0, 0, 0)), same(r3(h.centerSegment().target()), r3(0, 0, H)), vf_eq(h.innerRadius(), r), vf_eq(h.outerRadius(), r + dr), vf_eq(h.height(), H)));
}
//@ harness cylinder_requires_circular_base property=C09 stubs=circle_contract,elliptic_contract throws=1
extern "C" void cylinder_requires_circular_base()
{
    const Basis F;
    const double a = positive("ma"), b = positive("mi"), H = positive("H");
    bool thrown = false;
    try { const Cy c(Di(F.o, F.d1, F.d2, a, b), H); } catch (const std::runtime_error&) { thrown = true; }
    if (!vf_symbolic()) vf_assume(away(a - b));
    vf_assert("noncircular-base-is-rejected", vf_iff(thrown, vf_or(a - b > a*conf, b - a > a*conf)));
}
//@ harness cylinder_from_circle property=C09,C10 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_from_circle()
{
    const Axis F;
    const double r = positive("r"), H = positive("H");
    const Ci b(F.o, F.d, r);
    const Cy c(b, H);
    vf_assert("placed", all(same(r3(c.direction()), F.n), same(r3(c.bottomFace().center()), r3(F.o)), same(r3(c.topFace().center()), r3(F.at(H))), vf_eq(c.radius(), r), vf_eq(c.height(), H)));
    vf_assert("bases", vf_and(same(r3(c.base1()), r3(b.base1())), same(r3(c.base2()), r3(b.base2()))));
}
//@ harness cylinder_tangent property=C09 stubs=circle_contract,elliptic_contract
extern "C" void cylinder_tangent()
{
    const Axis F(true);
    const double r = positive("r"), H = positive("H"), t = real("t");
    if (vf_symbolic()) vf_assume(norm2(F.w) == r*r); else vf_assume(norm2(F.w) > 1e-2);
    const double s = vf_symbolic() ? 1.0 : r/std::sqrt(norm2(F.w));
    const CS c(Ci(F.o, F.d, r), H);
    const P3 p = F.at(t, s);
    vf_lemma("foot", same(r3(c.centerSegment().supportingLine().projection(p)), r3(F.at(t))));
    const Pl pl = c.getTangentPlane(p);
    vf_assert("through-point", same(r3(pl.supportingPoint()), r3(p)));
    vf_assert("radial-normal", same(r*r3(pl.normal()), s*F.w));
}
//@ harness hollow_cylinder_parts property=C09,C10 stubs=circle_contract,elliptic_contract
extern "C" void hollow_cylinder_parts()
{
    const Axis F;
    const double ri = positive("ri"), dr = nonneg("dr"), H = positive("H"), ro = ri + dr;
    const HC c(F.o, F.d, ri, ro, H);
    vf_assert("size", all(vf_eq(c.height(), H), vf_eq(c.innerRadius(), ri), vf_eq(c.outerRadius(), ro)));
    vf_assert("axis", all(same(r3(c.axis()), F.n), same(r3(c.base3()), F.n), same(r3(c.centerSegment().source()), r3(F.o)), same(r3(c.centerSegment().target()), r3(F.at(H)))));
    vf_assert("volume", vf_eq(c.volume(), M_PI*H*(ro*ro - ri*ri)));
    vf_assert("volume-nonnegative", c.volume() >= 0.0);
    vf_assert("free-volume", vf_eq(computeVolume(c), c.volume()));
    vf_assert("magnitude", vf_eq(computeMagnitude(c), c.volume()));
    vf_assert("inner-circles", all(same(r3(c.bottomInnerCircle().center()), r3(F.o)), same(r3(c.topInnerCircle().center()), r3(F.at(H))), vf_eq(c.bottomInnerCircle().radius(), ri), vf_eq(c.topInnerCircle().radius(), ri)));
    // the outer circles are made on demand, in any order
    if (vf_choose("top-first", 0, 2)) c.topOuterCircle();
    const Ci& lo = c.bottomOuterCircle();
    const Ci& up = c.topOuterCircle();
    vf_assert("outer-circles", all(same(r3(lo.center()), r3(F.o)), same(r3(up.center()), r3(F.at(H))), vf_eq(lo.radius(), ro), vf_eq(up.radius(), ro), same(r3(up.normal()), F.n)));
}
//@ harness hollow_cylinder_faces property=C09 stubs=circle_contract,elliptic_contract
extern "C" void hollow_cylinder_faces()
{
    const Axis F;
    const double ri = positive("ri"), dr = nonneg("dr"), H = positive("H"), ro = ri + dr;
    const HC c(F.o, F.d, ri, ro, H);
    if (vf_choose("outer-first", 0, 2)) c.outerLateralFace();
    const CS& i = c.innerLateralFace();
    const CS& o = c.outerLateralFace();
    vf_assert("inner", all(vf_eq(i.radius(), ri), vf_eq(i.height(), H), same(r3(i.direction()), F.n), same(r3(i.lowerBoundingCircle().center()), r3(F.o)), same(r3(i.upperBoundingCircle().center()), r3(F.at(H)))));
    vf_assert("outer", all(vf_eq(o.radius(), ro), vf_eq(o.height(), H), same(r3(o.direction()), F.n), same(r3(o.lowerBoundingCircle().center()), r3(F.o)), same(r3(o.upperBoundingCircle().center()), r3(F.at(H)))));
    const Cy f = c.fullCylinder();
    vf_assert("full", all(vf_eq(f.radius(), ro), vf_eq(f.height(), H), same(r3(f.direction()), F.n), same(r3(f.bottomFace().center()), r3(F.o)), same(r3(f.topFace().center()), r3(F.at(H)))));
}
//@ harness hollow_cylinder_inverted property=C09 stubs=circle_contract,elliptic_contract throws=1
extern "C" void hollow_cylinder_inverted()
{
    const Axis F;
    const double ri = positive("ri"), ro = positive("ro"), H = positive("H");
    bool thrown = false;
    try { const HC c(F.o, F.d, ri, ro, H); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("inverted-radii-are-rejected", vf_iff(thrown, ro < ri));
}
