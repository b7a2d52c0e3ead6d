// C09 parametrisation of ellipses, circles, disks and arcs; C10 lengths of closed curves
#include "common.hh"
#include "elliptic.hh"
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/magnitude.hh>
using namespace vf;
using El = Ellipse<double, 3>;
using Ci = Circle<double, 3>;
using Di = Disk<double>;
using Arc = EllipseArc<double, 3>;

namespace {
inline double conf() { return Frackit::Precision<double>::confusion(); }
// an arbitrary ellipse together with its local frame
struct Frame
{
    P3 o; D3 d1, d2; R3 a, b; double A, B;
    Frame() : o(point("o")), d1(direction("a")), d2(direction_orth("b", d1)), a(r3(d1)), b(r3(d2)), A(positive("ma")), B(positive("mi")) {}
    El ellipse() const { return El(o, d1, d2, A, B); }
    R3 pos(double x, double y) const { return r3(o) + x*a + y*b; }
    P3 at(double x, double y) const { const R3 q = pos(x, y); return P3(q.x, q.y, q.z); }
};
// local coordinates of an arbitrary point on the ellipse
struct OnEllipse
{
    double x, y;
    OnEllipse(const Frame& F, const char* n) : x(real(n)), y(real(n))
    {
        if (vf_symbolic()) vf_assume(x*x/(F.A*F.A) + y*y/(F.B*F.B) == 1.0);
        else
        {
            const double p = x; const int k = vf_choose("axis", 0, 6);
            x = F.A*std::cos(p); y = F.B*std::sin(p);
            if (k == 0) { x = 0; y = F.B; } else if (k == 1) { x = 0; y = -F.B; }
            else if (k == 2) { x = F.A; y = 0; } else if (k == 3) { x = -F.A; y = 0; }
            vf_assume(k < 4 || (std::fabs(x) > 1e-4*F.A && std::fabs(y) > 1e-4*F.B));
        }
    }
};
}

//@ harness ellipse_points property=C09 stubs=elliptic_contract
extern "C" void ellipse_points()
{
    const Frame F;
    const El e = F.ellipse();
    const double t = nonneg("t"), eps = positive("eps");
    const P3 p = e.getPointFromAngle(t);
    vf_assert("point-at-angle", same(r3(p), F.pos(F.A*std::cos(t), F.B*std::sin(t))));
    if (!vf_symbolic()) vf_assume(eps > 1e-6);
    vf_assert("on-ellipse", e.contains(p, eps));
    vf_assert("in-plane", vf_eq(dot(cross(F.a, F.b), r3(p) - r3(F.o)), 0.0));
    const double k = unit("k");
    vf_assert("point-at-parameter", same(r3(e.getPoint(k)), F.pos(F.A*std::cos(2.0*M_PI*k), F.B*std::sin(2.0*M_PI*k))));
    vf_assert("closed", vf_and(same(r3(e.getPoint(0.0)), F.pos(F.A, 0.0)), same(r3(e.getPoint(1.0)), F.pos(F.A, 0.0))));
    vf_assert("quarter", vf_and(same(r3(e.getPoint(0.25)), F.pos(0.0, F.B)), same(r3(e.getPoint(0.5)), F.pos(-F.A, 0.0))));
}
//@ harness ellipse_angle property=C09 stubs=elliptic_contract nomerge=getAngle
extern "C" void ellipse_angle()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse q(F, "q");
    const double x = q.x, y = q.y;
    const P3 p = F.at(x, y);
    const double al = e.getAngle(p, false);
    vf_assert("range", vf_and(al >= 0.0, al < 2.0*M_PI));
    const double tx = F.A*conf(), ty = F.B*conf();
    const bool ax = vf_and(x < tx, -x < tx), ay = vf_and(y < ty, -y < ty);
    if (ax) vf_check("minor-axis", vf_eq(al, vf_ite(y < 0.0, 1.5*M_PI, 0.5*M_PI)));
    else if (ay) vf_check("major-axis", vf_eq(al, vf_ite(x < 0.0, M_PI, 0.0)));
    else
    {
        // cosine and sine of the principal angle
        const double z = y*(F.A/F.B)/x, c = std::cos(std::atan(z)), n = std::sin(std::atan(z));
        vf_lemma("tangent", vf_eq(z*F.B*x, y*F.A));
        vf_lemma("cosine", vf_eq(c*c*F.A*F.A, x*x));
        vf_lemma("cosine-signed", vf_eq(c*F.A, vf_ite(x < 0.0, -x, x)));
        vf_lemma("sine-signed", vf_eq(n*F.B, vf_ite(x < 0.0, -y, y)));
        if (x > 0.0)
        {
            if (y > 0.0) { vf_check("quadrant-1", al < 0.5*M_PI); vf_check("inverse-1", same(r3(e.getPointFromAngle(al)), r3(p))); }
            else { vf_check("quadrant-4", al > 1.5*M_PI); vf_check("inverse-4", same(r3(e.getPointFromAngle(al)), r3(p))); }
        }
        else if (y > 0.0) { vf_check("quadrant-2", vf_and(al > 0.5*M_PI, al < M_PI)); vf_check("inverse-2", same(r3(e.getPointFromAngle(al)), r3(p))); }
        else { vf_check("quadrant-3", vf_and(al > M_PI, al < 1.5*M_PI)); vf_check("inverse-3", same(r3(e.getPointFromAngle(al)), r3(p))); }
    }
    vf_check("parameter", vf_eq(e.getParam(p, false)*(2.0*M_PI), al));
}
//@ harness ellipse_angle_checked property=C09 stubs=elliptic_contract throws=1
extern "C" void ellipse_angle_checked()
{
    const Frame F;
    const El e = F.ellipse();
    const double x = real("x"), y = real("y");
    const P3 p = F.at(x, y);
    bool t1 = false, t2 = false;
    double a1 = 0, a2 = 0;
    const double k = x*x/(F.A*F.A) + y*y/(F.B*F.B) - 1.0;
    if (!vf_symbolic()) vf_assume(std::fabs(k) > 1e-6);
    try { a1 = e.getAngle(p); } catch (const std::runtime_error&) { t1 = true; }
    try { a2 = e.getParam(p); } catch (const std::runtime_error&) { t2 = true; }
    vf_assert("points-off-the-ellipse-are-rejected", vf_iff(t1, vf_or(k >= conf(), -k >= conf())));
    vf_assert("same-for-parameter", t1 == t2);
    vf_assert("same-value", vf_imp(vf_not(t1), vf_and(vf_eq(a1, e.getAngle(p, false)), vf_eq(a2*(2.0*M_PI), a1))));
}
//@ harness circle_points property=C09 stubs=circle_contract,elliptic_contract
extern "C" void circle_points()
{
    const P3 o = point("o");
    const D3 n = direction("n");
    const double r = positive("r"), t = nonneg("t"), k = unit("k");
    const Ci c(o, n, r);
    const R3 a = r3(c.base1()), b = r3(c.base2());
    vf_assert("point-at-angle", same(r3(c.getPointFromAngle(t)), r3(o) + (r*std::cos(t))*a + (r*std::sin(t))*b));
    vf_assert("at-radius", vf_eq(norm2(r3(c.getPointFromAngle(t)) - r3(o)), r*r));
    vf_assert("in-plane", vf_eq(dot(r3(n), r3(c.getPointFromAngle(t)) - r3(o)), 0.0));
    vf_assert("point-at-parameter", same(r3(c.getPoint(k)), r3(o) + (r*std::cos(2.0*M_PI*k))*a + (r*std::sin(2.0*M_PI*k))*b));
    vf_assert("closed", vf_and(same(r3(c.getPoint(0.0)), r3(o) + r*a), same(r3(c.getPoint(1.0)), r3(o) + r*a)));
}
//@ harness disk_points property=C09 stubs=elliptic_contract
extern "C" void disk_points()
{
    const Frame F;
    const Di d(F.o, F.d1, F.d2, F.A, F.B);
    const double k = unit("k"), s = unit("s"), eps = positive("eps");
    const P3 p = d.getPoint(k, s);
    vf_assert("point-at-parameters", same(r3(p), F.pos(s*F.A*std::cos(2.0*M_PI*k), s*F.B*std::sin(2.0*M_PI*k))));
    vf_lemma("inside", vf_and(s*s <= 1.0, 0.0 <= s*s));
    if (!vf_symbolic()) vf_assume(eps > 1e-6);
    vf_assert("in-disk", d.contains(p, eps));
    vf_assert("center", same(r3(d.getPoint(k, 0.0)), r3(F.o)));
    vf_assert("rim", same(r3(d.getPoint(k, 1.0)), r3(d.boundingEllipse().getPoint(k))));
}

// contract of Ellipse::getAngle used for arcs: a function of the point with values in
// [0, 2 pi) (ellipse_angle proves the range)
//@ stub angle_contract : Frackit::Ellipse<double, 3>::getAngle\(Frackit::Point<double, 3> const&, bool\)
extern "C" double angle_contract(const El*, const P3& p, bool)
{
    const double a = vf_uf3("angle", p.x(), p.y(), p.z());
    vf_assume(vf_and(a >= 0.0, a < 2.0*M_PI));
    return a;
}

//@ harness arc_construction property=C09 stubs=elliptic_contract,angle_contract
extern "C" void arc_construction()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s"), t(F, "t");
    const P3 S = F.at(s.x, s.y), T = F.at(t.x, t.y);
    const Arc a(e, S, T);
    const double tol = F.A*conf();
    const R3 d = r3(S) - r3(T);
    vf_assert("ends", vf_and(same(r3(a.source()), r3(S)), same(r3(a.target()), r3(T))));
    vf_assert("full-iff-ends-coincide", vf_iff(a.isFullEllipse(), norm2(d) < tol*tol));
    vf_assert("source-angle", vf_eq(a.sourceAngleOnEllipse(), e.getAngle(S, false)));
    vf_assert("target-angle", vf_imp(vf_not(a.isFullEllipse()), vf_eq(a.targetAngleOnEllipse(), e.getAngle(T, false))));
    const El& q = a.supportingEllipse();
    vf_assert("ellipse", all(same(r3(q.center()), r3(F.o)), same(r3(q.majorAxis()), F.a), same(r3(q.minorAxis()), F.b), vf_eq(q.majorAxisLength(), F.A), vf_eq(q.minorAxisLength(), F.B)));
}
//@ harness arc_contains property=C09,C07 stubs=elliptic_contract,angle_contract
extern "C" void arc_contains()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s"), t(F, "t"), q(F, "q");
    const P3 S = F.at(s.x, s.y), T = F.at(t.x, t.y), Q = F.at(q.x, q.y);
    const Arc a(e, S, T);
    vf_assume(vf_not(a.isFullEllipse()));
    const double eps = positive("eps");
    const double x = a.sourceAngleOnEllipse(), y = a.targetAngleOnEllipse(), al = e.getAngle(Q, false);
    if (!vf_symbolic()) vf_assume(eps > 1e-6 && eps < 1.0 && std::fabs(std::fabs(al - x) - eps) > 1e-6 && std::fabs(std::fabs(al - y) - eps) > 1e-6 && std::fabs(x - y) > 1e-6);
    const bool c = a.contains(Q, eps, false);
    if (x > y) vf_check("contained-iff-angle-in-wrapped-range", vf_iff(c, vf_or(al >= x - eps, al <= y + eps)));
    else vf_check("contained-iff-angle-in-range", vf_iff(c, vf_and(al >= x - eps, al <= y + eps)));
    vf_check("on-ellipse-check", vf_iff(a.contains(Q, eps), c));
    vf_check("ends-contained", vf_and(a.contains(S, eps, false), a.contains(T, eps, false)));
}
//@ harness arc_full property=C09,C07 stubs=elliptic_contract,angle_contract
extern "C" void arc_full()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s"), q(F, "q");
    const P3 S = F.at(s.x, s.y), Q = F.at(q.x, q.y);
    const Arc a(e, S, S);
    const double eps = positive("eps"), k = unit("k");
    vf_assert("is-full", a.isFullEllipse());
    if (!vf_symbolic()) vf_assume(eps > 1e-6);
    vf_assert("every-point-of-the-ellipse-is-contained", vf_and(a.contains(Q, eps), a.contains(Q, eps, false)));
    const double st = a.sourceAngleOnEllipse();
    if (!vf_symbolic()) vf_assume(st > 1e-3 || st == 0.0);
    vf_assume(vf_or(st >= Frackit::Precision<double>::angular(), vf_eq(st, 0.0)));
    vf_assert("parametrisation", same(r3(a.getPoint(k)), r3(e.getPointFromAngle(st + 2.0*M_PI*k))));
}
//@ harness arc_contains_offellipse property=C09,C07 stubs=elliptic_contract,angle_contract
extern "C" void arc_contains_offellipse()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s"), t(F, "t");
    const double x = real("x"), y = real("y"), eps = positive("eps");
    const P3 S = F.at(s.x, s.y), T = F.at(t.x, t.y), Q = F.at(x, y);
    const double k = x*x/(F.A*F.A) + y*y/(F.B*F.B) - 1.0;
    if (!vf_symbolic()) vf_assume(eps > 1e-6 && std::fabs(k) > eps + 1e-6);
    vf_assume(vf_or(k >= eps, -k >= eps));
    const Arc a(e, S, T);
    vf_assert("points-off-the-ellipse-are-rejected", vf_not(a.contains(Q, eps)));
}
//@ harness arc_points property=C09 stubs=elliptic_contract,angle_contract
extern "C" void arc_points()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s"), t(F, "t");
    const P3 S = F.at(s.x, s.y), T = F.at(t.x, t.y);
    const Arc a(e, S, T);
    vf_assume(vf_not(a.isFullEllipse()));
    const double x = a.sourceAngleOnEllipse(), y = a.targetAngleOnEllipse(), k = unit("k");
    vf_assume(x != y);
    const double span = vf_ite(x < y, y - x, 2.0*M_PI + y - x);     // counterclockwise from source to target
    vf_assert("parametrisation", same(r3(a.getPoint(k)), r3(e.getPointFromAngle(x + span*k))));
    vf_assert("starts-at-source-angle", same(r3(a.getPoint(0.0)), r3(e.getPointFromAngle(x))));
    vf_assert("ends-at-target-angle", same(r3(a.getPoint(1.0)), r3(e.getPointFromAngle(y))));
}
//@ harness curve_lengths property=C10 stubs=circle_contract,elliptic_contract
extern "C" void curve_lengths()
{
    const Frame F;
    const El e = F.ellipse();
    const double r = positive("r");
    const Ci c(F.o, F.d1, r);
    vf_assert("circle", vf_eq(computeLength(c), 2.0*M_PI*r));
    vf_assert("circle-magnitude", vf_eq(computeMagnitude(c), computeLength(c)));
    const double L = computeLength(e);
    const double big = vf_ite(F.A < F.B, F.B, F.A), small = vf_ite(F.A < F.B, F.A, F.B);
    vf_assert("ellipse-perimeter", vf_eq(L, 4.0*big*std::comp_ellint_2(std::sqrt(1.0 - small*small/(big*big)))));
    vf_assert("circular-ellipse", vf_imp(F.A == F.B, vf_eq(L, 2.0*M_PI*F.A)));
    vf_assert("ellipse-magnitude", vf_eq(computeMagnitude(e), L));
}
//@ harness full_arc_length property=C10 stubs=elliptic_contract,angle_contract
extern "C" void full_arc_length()
{
    const Frame F;
    const El e = F.ellipse();
    const OnEllipse s(F, "s");
    const Arc a(e, F.at(s.x, s.y), F.at(s.x, s.y));
    vf_assert("full-arc", vf_and(vf_eq(computeLength(a), computeLength(e)), vf_eq(computeMagnitude(a), computeLength(e))));
}
