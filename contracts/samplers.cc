// C19 samplers.  Distributions are ghost functions: arbitrary values within their range,
// recorded so that the contract can say which draw ended up where.
#include <random>
#include <memory>
#include <algorithm>
#include <numeric>
#include <array>
#include <iterator>
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/precision/precision.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
using namespace vf;
using B = Box<double>;
using Cy = Cylinder<double>;
using HC = HollowCylinder<double>;

namespace ghost {
double drawn[4], low[4], high[4]; int draws[4];
// a distribution on an interval
template<int I> struct Uni
{
    Uni(double lo, double hi) { low[I] = lo; high[I] = hi; }
    template<class G> double operator() (G&)
    {
        ++draws[I];
        drawn[I] = low[I] + unit("draw")*(high[I] - low[I]);
        return drawn[I];
    }
};
struct Traits { using DistributionBase1 = Uni<0>; using DistributionBase2 = Uni<1>; using DistributionBase3 = Uni<2>; };
bool once() { return draws[0] == 1 && draws[1] == 1 && draws[2] == 1; }
void start() { for (int i = 0; i < 4; ++i) draws[i] = 0; }
bool range(int i, double a, double b) { return vf_and(vf_eq(low[i], a), vf_eq(high[i], b)); }
bool within(double x, double a, double b) { return vf_and(vf_le(a, x), vf_le(x, b)); }
B box()
{
    const P3 lo = point("lo");
    const double l = nonneg("l"), w = nonneg("w"), h = nonneg("h");
    return B(lo.x(), lo.y(), lo.z(), lo.x() + l, lo.y() + w, lo.z() + h);
}
}
using namespace ghost;

//@ harness sample_box property=C19
extern "C" void sample_box()
{
    start();
    const B b = box();
    auto s = makePointSampler<Traits>(b);
    const P3 p = s();
    vf_assert("extents-as-ranges", all(range(0, b.xMin(), b.xMax()), range(1, b.yMin(), b.yMax()), range(2, b.zMin(), b.zMax())));
    vf_assert("one-draw-each", once());
    vf_assert("coordinates-drawn", same(r3(p), r3(drawn[0], drawn[1], drawn[2])));
    vf_assert("inside", all(within(p.x(), b.xMin(), b.xMax()), within(p.y(), b.yMin(), b.yMax()), within(p.z(), b.zMin(), b.zMax())));
}
//@ harness sample_cylinder property=C19 stubs=circle_contract,elliptic_contract
extern "C" void sample_cylinder()
{
    start();
    const P3 c = point("c");
    const D3 a = direction("a"), b = direction_orth("b", a);
    const double r = positive("r"), h = positive("h");
    const Disk<double> bottom(c, a, b, r, r);
    const Cy cyl(bottom, h);
    auto s = makePointSampler<Traits>(cyl);
    const P3 p = s();
    vf_assert("ranges", all(range(0, 0.0, r*r), range(1, 0.0, 2.0*M_PI), range(2, 0.0, h)));
    vf_assert("one-draw-each", once());
    const R3 n = r3(bottom.normal()), o = r3(p) - r3(c), e = o - dot(o, n)*n;
    vf_assert("height-drawn", vf_eq(dot(o, n), drawn[2]));
    vf_assert("squared-radius-drawn", vf_eq(norm2(e), drawn[0]));
    const double q = std::sqrt(drawn[0]);
    vf_assert("angle-drawn", vf_and(vf_eq(dot(o, r3(a)), q*std::cos(drawn[1])), vf_eq(dot(o, r3(b)), q*std::sin(drawn[1]))));
}
//@ harness sample_hollow_cylinder property=C19 stubs=circle_contract,elliptic_contract
extern "C" void sample_hollow_cylinder()
{
    start();
    const P3 c = point("c");
    const D3 a = direction("a");
    const double r1 = positive("r1"), r2 = r1 + positive("dr"), h = positive("h");
    const HC hc(c, a, r1, r2, h);
    auto s = makePointSampler<Traits>(hc);
    const P3 p = s();
    vf_assert("ranges", all(range(0, r1*r1, r2*r2), range(1, 0.0, 2.0*M_PI), range(2, 0.0, h)));
    vf_assert("one-draw-each", once());
    const R3 n = r3(a), o = r3(p) - r3(c), e = o - dot(o, n)*n;
    vf_assert("height-drawn", vf_eq(dot(o, n), drawn[2]));
    vf_assert("squared-radius-drawn", vf_eq(norm2(e), drawn[0]));
}
// the random number generator: any value of the unit interval
//@ stub canonical : double std::generate_canonical<double,.*
extern "C" double canonical(void*) { const double u = unit("u"); vf_assume(u < 1.0); return u; }
//@ harness sample_uniform_box property=C19 stubs=canonical
extern "C" void sample_uniform_box()
{
    const B b = box();
    auto s = makeUniformPointSampler(b);
    const P3 p = s();
    vf_assert("inside", all(within(p.x(), b.xMin(), b.xMax()), within(p.y(), b.yMin(), b.yMax()), within(p.z(), b.zMin(), b.zMax())));
}
//@ harness sample_uniform_cylinder property=C19 stubs=canonical,circle_contract,elliptic_contract
extern "C" void sample_uniform_cylinder()
{
    const P3 c = point("c");
    const D3 a = direction("a"), b = direction_orth("b", a);
    const double r = positive("r"), h = positive("h");
    const Disk<double> bottom(c, a, b, r, r);
    auto s = makeUniformPointSampler(Cy(bottom, h));
    const P3 p = s();
    const R3 n = r3(bottom.normal()), o = r3(p) - r3(c), e = o - dot(o, n)*n;
    vf_assert("inside", all(within(dot(o, n), 0.0, h), vf_le(norm2(e), r*r)));
}

// ---- disks
namespace ghost {
// any distribution: the first draws may be unusable, one of the first three is positive
template<int I> struct Any
{
    template<class G> double operator() (G&)
    {
        ++draws[I];
        drawn[I] = real("draw");
        if (draws[I] == 3) vf_assume(drawn[I] > 0.0);
        return drawn[I];
    }
};
double angles[3]; int angle_draws;
template<int I> struct Angle { template<class G> double operator() (G&) { ++angle_draws; angles[I] = real("angle"); return angles[I]; } };
struct DiskTraits
{
    using MajorAxisLengthDistribution = Any<0>; using MinorAxisLengthDistribution = Any<1>;
    using XAngleDistribution = Angle<0>; using YAngleDistribution = Angle<1>; using ZAngleDistribution = Angle<2>;
};
R3 center;
double smaller(double a, double b) { return vf_ite(b < a, b, a); }
double larger(double a, double b) { return vf_ite(a < b, b, a); }
struct Centers : PointSampler<P3> { P3 operator() () override { const P3 c = point("c"); center = r3(c); return c; } };
R3 rotx(double t, R3 v) { const double c = std::cos(t), s = std::sin(t); return r3(v.x, c*v.y - s*v.z, s*v.y + c*v.z); }
R3 roty(double t, R3 v) { const double c = std::cos(t), s = std::sin(t); return r3(c*v.x + s*v.z, v.y, c*v.z - s*v.x); }
R3 rotz(double t, R3 v) { const double c = std::cos(t), s = std::sin(t); return r3(c*v.x - s*v.y, s*v.x + c*v.y, v.z); }
}
//@ harness sample_disk property=C19 stubs=elliptic_contract bound="at most 3 draws until a length is positive"
extern "C" void sample_disk()
{
    start(); angle_draws = 0;
    DiskSampler<double, DiskTraits> s{Centers(), Any<0>(), Any<1>(), Angle<0>(), Angle<1>(), Angle<2>()};
    const Disk<double> d = s();
    const double a = drawn[0], b = drawn[1];
    vf_assert("lengths-positive", vf_and(d.majorAxisLength() > 0.0, d.minorAxisLength() > 0.0));
    vf_assert("major-length-drawn", vf_eq(d.majorAxisLength(), a));
    vf_assert("minor-length-drawn-and-clamped", vf_eq(d.minorAxisLength(), vf_ite(b > a, a, b)));
    vf_assert("center-sampled", same(r3(d.center()), center));
    vf_assert("angles-drawn-once", angle_draws == 3);
    const R3 e1 = rotz(angles[2], roty(angles[1], r3(1.0, 0.0, 0.0)));
    const R3 e2 = rotz(angles[2], roty(angles[1], rotx(angles[0], r3(0.0, 1.0, 0.0))));
    vf_lemma("rotations-preserve-length", vf_and(vf_eq(norm2(e1), 1.0), vf_eq(norm2(e2), 1.0)));
    vf_assert("major-axis-rotated", same(r3(d.majorAxis()), e1));
    vf_assert("minor-axis-rotated", same(r3(d.minorAxis()), e2));
}

// ---- quadrilaterals
namespace ghost {
double min_edge; double edges[8]; int edge_draws, admissible;
// edge lengths: some draws are too short, at most two in a row
struct EdgeLengths
{
    template<class G> double operator() (G&)
    {
        const double e = real("edge");
        ++edge_draws;
        if (vf_choose("long enough", 0, 2) || short_ == 1) { vf_assume(e >= min_edge); edges[admissible++] = e; short_ = 0; }
        else { vf_assume(e < min_edge); ++short_; }
        return e;
    }
    int short_ = 0;
};
struct QuadTraits
{
    using StrikeAngleDistribution = Angle<0>; using DipAngleDistribution = Angle<1>;
    using StrikeLengthDistribution = Any<0>; using DipLengthDistribution = Any<1>;
    using EdgeLengthDistribution = EdgeLengths;
};
using OldSampler = Frackit::Detail::DeprecatedQuadrilateralSamplerImpl<double, QuadTraits>;
using QSampler = QuadrilateralSampler<3, double, QuadTraits>;
using PSampler = PolygonSampler<3, double, QuadTraits>;
}
// a quadrilateral is known by its corners (C06)
//@ stub quad_corners : Frackit::Quadrilateral<double, 3>::Quadrilateral\(Frackit::Point<double, 3> const&, Frackit::Point<double, 3> const&, Frackit::Point<double, 3> const&, Frackit::Point<double, 3> const&\)
extern "C" void quad_corners(Quadrilateral<double, 3>* self, const P3& a, const P3& b, const P3& c, const P3& d)
{
    new (const_cast<P3*>(&self->corner(0))) P3(a); new (const_cast<P3*>(&self->corner(1))) P3(b);
    new (const_cast<P3*>(&self->corner(2))) P3(c); new (const_cast<P3*>(&self->corner(3))) P3(d);
}
//@ harness sample_quad_deprecated property=C19 stubs=quad_corners merge=0 bound="at most one inadmissible draw in a row"
extern "C" void sample_quad_deprecated()
{
    angle_draws = edge_draws = admissible = 0;
    min_edge = positive("min");
    OldSampler s{Centers(), Angle<0>(), Angle<1>(), EdgeLengths(), min_edge};
    const Quadrilateral<double, 3> q = s();
    vf_assert("four-admissible-edges-used", admissible == 4);
    const double strike = angles[0], dip = angles[1];
    const R3 y = rotz(strike, r3(0.0, 1.0, 0.0));
    vf_lemma("unit-axis", vf_eq(norm2(y), 1.0));
    // dipping around the strike direction
    const R3 x = rotz(strike, roty(dip, r3(1.0, 0.0, 0.0)));
    vf_assert("corner-1", same(r3(q.corner(0)), center - 0.5*edges[0]*x - 0.5*edges[2]*y));
    vf_assert("corner-2", same(r3(q.corner(1)), center + 0.5*edges[1]*x - 0.5*edges[3]*y));
    vf_assert("corner-3", same(r3(q.corner(2)), center - 0.5*edges[0]*x + 0.5*edges[2]*y));
    vf_assert("corner-4", same(r3(q.corner(3)), center + 0.5*edges[1]*x + 0.5*edges[3]*y));
}

namespace ghost {
P3 polygon_corner(int i) { return P3(vf_uf3("px", i, 0.0, 0.0), vf_uf3("py", i, 0.0, 0.0), vf_uf3("pz", i, 0.0, 0.0)); }
}
//@ stub four_corners : Frackit::PolygonSampler<3, double, .*>::sampleCorners\(\)
extern "C" void four_corners(std::vector<P3>* out, void*)
{ new (out) std::vector<P3>(); for (int i = 0; i < 4; ++i) out->push_back(polygon_corner(i)); }
//@ harness sample_quad property=C19 stubs=quad_corners,four_corners
extern "C" void sample_quad()
{
    start();
    QSampler s{Centers(), Angle<0>(), Angle<1>(), Any<0>(), Any<1>()};
    const Quadrilateral<double, 3> q = s();
    if (!vf_symbolic())
    {
        // the polygon is a convex one, so going around it never changes the orientation
        const R3 p[4] = {r3(q.corner(0)), r3(q.corner(1)), r3(q.corner(3)), r3(q.corner(2))};
        R3 n[4]; for (int i = 0; i < 4; ++i) n[i] = cross(p[(i + 1)%4] - p[i], p[(i + 2)%4] - p[(i + 1)%4]);
        bool ok = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ok = ok && dot(n[i], n[j]) >= -1e-9*norm2(p[0] - p[2])*norm2(p[1] - p[3]);
        vf_assert("all-corners-around-the-polygon", ok);
        return;
    }
    // corners of a quadrilateral are numbered row by row, those of a polygon around it
    vf_assert("all-corners-around-the-polygon", all(same(r3(q.corner(0)), r3(polygon_corner(0))), same(r3(q.corner(1)), r3(polygon_corner(1))),
                                                    same(r3(q.corner(3)), r3(polygon_corner(2))), same(r3(q.corner(2)), r3(polygon_corner(3)))));
}

// ---- polygons: bounded to fixed draws of the coordinates within the unit square, and of
// the lengths; all strike and dip angles and all centers
namespace ghost {
int corners_drawn, draw_index; double fixed_length[2]; int pattern;
struct NumCorners { template<class G> int operator() (G&) { return corners_drawn; } };
template<int I> struct Length { template<class G> double operator() (G&) { ++draws[I]; return fixed_length[I]; } };
struct PolyTraits
{
    using StrikeAngleDistribution = Angle<0>; using DipAngleDistribution = Angle<1>;
    using StrikeLengthDistribution = Length<0>; using DipLengthDistribution = Length<1>;
    using NumCornersDistribution = NumCorners;
};
using PolySampler = PolygonSampler<3, double, PolyTraits>;
}
//@ stub fixed_canonical : double std::generate_canonical<double,.*
extern "C" double fixed_canonical(void*)
{
    static const double values[2][12] = {{0.5, 0.25, 0.75, 0.125, 0.875, 0.0625, 0.375, 0.625, 0.9375, 0.1875, 0.3125, 0.6875},
                                         {0.95, 0.05, 0.4, 0.3, 0.6, 0.97, 0.02, 0.7, 0.2, 0.5, 0.8, 0.1}};
    return values[pattern][draw_index++%12];
}
//@ harness polygon_sampler_gives_up property=C19 stubs=fixed_canonical
extern "C" void polygon_sampler_gives_up()
{
    start(); angle_draws = draw_index = pattern = 0;
    const int why = vf_choose("why", 0, 4);
    corners_drawn = why == 1 ? 2 : 3;
    fixed_length[0] = why == 2 ? -1.0 : 2.0;
    fixed_length[1] = why == 3 ? -1.0 : 1.0;
    PolySampler s{Centers(), Angle<0>(), Angle<1>(), Length<0>(), Length<1>(), NumCorners()};
    bool thrown = false;
    try { s.sampleCorners(); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("throws-iff-no-admissible-value", thrown == (why != 0));
}
//@ harness sample_polygon property=C19 stubs=fixed_canonical bound="3 or 4 corners, two sequences of coordinates, fixed lengths"
extern "C" void sample_polygon()
{
    start(); angle_draws = draw_index = 0;
    pattern = vf_choose("pattern", 0, 2);
    corners_drawn = vf_choose("n", 3, 5);
    fixed_length[0] = 3.0; fixed_length[1] = 0.5;
    PolySampler s{Centers(), Angle<0>(), Angle<1>(), Length<0>(), Length<1>(), NumCorners()};
    const std::vector<P3> v = s.sampleCorners();
    vf_assert("number-of-corners", int(v.size()) == corners_drawn);
    vf_assert("one-draw-each", angle_draws == 2 && draws[0] == 1 && draws[1] == 1);
    const double strike = angles[0], dip = angles[1];
    // undo the rotations: the polygon lies in a plane and is convex
    const int n = corners_drawn;
    R3 lo = r3(v[0]), hi = lo;
    for (int i = 1; i < n; ++i)
    {
        const R3 p = r3(v[i]);
        lo = r3(smaller(lo.x, p.x), smaller(lo.y, p.y), smaller(lo.z, p.z));
        hi = r3(larger(hi.x, p.x), larger(hi.y, p.y), larger(hi.z, p.z));
    }
    vf_assert("bounding-box-around-the-sampled-center", same(0.5*(lo + hi), center));
    const R3 ex = rotz(strike, roty(dip, r3(1.0, 0.0, 0.0))), ey = rotz(strike, r3(0.0, 1.0, 0.0)), ez = cross(ex, ey);
    bool planar = true, convex = true;
    double width[2] = {0.0, 0.0};
    for (int i = 0; i < n; ++i)
    {
        const R3 e = r3(v[(i + 1)%n]) - r3(v[i]), f = r3(v[(i + 2)%n]) - r3(v[(i + 1)%n]);
        planar = vf_and(planar, vf_eq(dot(e, ez), 0.0));
        convex = vf_and(convex, vf_le(0.0, dot(cross(e, f), ez)));
    }
    vf_assert("in-the-dipping-plane", planar);
    vf_assert("convex", convex);
}
