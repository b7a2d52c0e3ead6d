// C06 derived quantities of triangles, quadrilaterals and polygons; C07 containment in them
#include "common.hh"
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
using namespace vf;
using T3 = Triangle<double, 3>;
using Q3 = Quadrilateral<double, 3>;
using Po3 = Polygon<double, 3>;
using Pl = Plane<double, 3>;
using S3 = Segment<double, 3>;

namespace {
// an affine frame: origin and two edge vectors spanning a plane
struct Frame
{
    P3 a; V3 e, f;
    R3 n;                                     // e x f
    double A;                                 // |e x f|
    Frame() : a(point("a")), e(vec("e")), f(vec("f"))
    {
        n = cross(r3(e), r3(f));
        nondegenerate(norm2(n));
        A = norm(n);
    }
    P3 at(double u, double v) const
    {
        const R3 q = r3(a) + u*r3(e) + v*r3(f);
        return P3(q.x, q.y, q.z);
    }
};
double neg(double x) { return vf_ite(x < 0.0, -x, 0.0); }
}

//@ harness triangle_basics property=C06
extern "C" void triangle_basics()
{
    const Frame F;
    const P3 p[3] = {F.a, F.at(1, 0), F.at(0, 1)};
    const T3 t(p[0], p[1], p[2]);
    vf_assert("area", vf_and(vf_eq(2.0*t.area(), F.A), t.area() > 0.0));
    vf_assert("center", same(3.0*r3(t.center()), r3(p[0]) + r3(p[1]) + r3(p[2])));
    vf_assert("normal", same(F.A*r3(t.normal()), F.n));
    vf_assert("corners", all(same(r3(t.corner(0)), r3(p[0])), same(r3(t.corner(1)), r3(p[1])), same(r3(t.corner(2)), r3(p[2]))));
    vf_assert("counts", T3::numCorners() == 3 && T3::numEdges() == 3);
    for (unsigned i = 0; i < 3; ++i)
    {
        const S3 s = t.edge(i);
        vf_assert("edges", all(same(r3(s.source()), r3(p[i])), same(r3(s.target()), r3(p[(i + 1) % 3]))));
    }
    const Pl pl = t.supportingPlane();
    const R3 m = r3(pl.normal()), s = r3(pl.supportingPoint());
    vf_assert("plane", all(same(m, r3(t.normal())), vf_eq(dot(F.n, s - r3(F.a)), 0.0)));
}

//@ harness triangle_invalid_edge property=C06 throws=1
extern "C" void triangle_invalid_edge()
{
    const T3 t(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0));
    const unsigned i = vf_int("i", 3, 1000);
    bool thrown = false;
    try { t.edge(i); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("rejected", thrown);
}

//@ harness triangle_contains property=C07
extern "C" void triangle_contains()
{
    const Frame F;
    const T3 t(F.a, F.at(1, 0), F.at(0, 1));
    const double u = real("u"), v = real("v"), eps = positive("eps");
    const P3 p = F.at(u, v);                  // any point of the plane
    // area of the three sub-triangles exceeds the area by the parts outside
    const double excess = (neg(u) + neg(v) + neg(1.0 - u - v))*F.A;
    if (!vf_symbolic()) vf_assume(std::fabs(excess - eps*eps) > 1e-7);
    const bool c = t.contains(p, eps);
    vf_assert("inside-is-contained", vf_imp(all(u >= 0.0, v >= 0.0, u + v <= 1.0), c));
    vf_assert("contained-iff-excess-area-below-tolerance", vf_iff(c, excess < eps*eps));
    vf_assert("plane-check-irrelevant-on-plane", vf_iff(c, t.contains(p, eps, false)));
}
//@ harness triangle_contains_offplane property=C07
extern "C" void triangle_contains_offplane()
{
    const Frame F;
    const T3 t(F.a, F.at(1, 0), F.at(0, 1));
    const double u = real("u"), v = real("v"), h = real("h"), eps = positive("eps");
    const R3 q = r3(F.at(u, v)) + (h/F.A)*F.n;   // any point of space, at distance |h| from the plane
    vf_assume(vf_or(h >= eps, -h >= eps));
    if (!vf_symbolic()) vf_assume(std::fabs(h) > eps + 1e-9);
    vf_lemma("offset", vf_eq(dot(r3(t.normal()), q - r3(F.a)), h));
    vf_assert("off-plane-is-rejected", vf_not(t.contains(P3(q.x, q.y, q.z), eps)));
    vf_assert("off-plane-is-rejected-explicit", vf_not(t.contains(P3(q.x, q.y, q.z), eps, true)));
}
//@ harness triangle_contains_default property=C07
extern "C" void triangle_contains_default()
{
    const Frame F;
    const T3 t(F.a, F.at(1, 0), F.at(0, 1));
    const double u = real("u"), v = real("v");
    if (!vf_symbolic()) vf_assume(u > 0.1 && v > 0.1 && u + v < 0.9 && norm2(r3(F.e)) > 1.0 && norm2(r3(F.f)) > 1.0);
    else vf_assume(all(u >= 0.0, v >= 0.0, u + v <= 1.0));
    const double D = V3(F.a, t.center()).length(), D2 = norm2(r3(F.e) + r3(F.f));
    vf_lemma("default-length", vf_eq(9.0*D*D, D2));
    vf_lemma("lagrange", vf_eq(norm2(cross(r3(F.e) + r3(F.f), r3(F.f))), F.A*F.A));
    vf_lemma("default-length-positive", D > 0.0);
    const double a1 = T3(F.a, F.at(1, 0), F.at(u, v)).area(), a2 = T3(F.at(1, 0), F.at(0, 1), F.at(u, v)).area(), a3 = T3(F.at(0, 1), F.a, F.at(u, v)).area();
    vf_lemma("sub-areas", vf_eq(a1 + a2 + a3, t.area()));
    vf_assert("inside-is-contained", t.contains(F.at(u, v)));
    const double h = real("h");
    // far outside of the plane (more than a millionth of the longest edge)
    const R3 q = r3(F.at(u, v)) + (h/F.A)*F.n;
    const double L2 = norm2(r3(F.e)) + norm2(r3(F.f));
    vf_assume(h*h > 1e-12*L2);
    vf_lemma("offset", vf_eq(dot(r3(t.normal()), q - r3(F.a)), h));
    vf_lemma("parallelogram", vf_and(vf_le(0.0, norm2(r3(F.e) - r3(F.f))), vf_eq(D2 + norm2(r3(F.e) - r3(F.f)), 2.0*L2)));
    vf_lemma("bound", h*h > 4e-12*D*D);
    vf_lemma("bound-abs", vf_or(h > 1e-6*D, -h > 1e-6*D));
    vf_assert("off-plane-is-rejected", vf_not(t.contains(P3(q.x, q.y, q.z))));
}
//@ harness triangle_contains_default_noplane property=C07
extern "C" void triangle_contains_default_noplane()
{
    const Frame F;
    const T3 t(F.a, F.at(1, 0), F.at(0, 1));
    const double u = real("u"), v = real("v");
    if (!vf_symbolic()) vf_assume(u > 0.1 && v > 0.1 && u + v < 0.9 && norm2(r3(F.e)) > 1.0 && norm2(r3(F.f)) > 1.0);
    const double h = real("h");
    const R3 q = r3(F.at(u, v)) + (h/F.A)*F.n;
    const P3 p(q.x, q.y, q.z);
    // skipping the plane check has to be honoured: the answer is that of the area criterion alone
    const double eps = Frackit::Precision<double>::confusion()*V3(F.a, t.center()).length();
    vf_assert("plane-check-skipped", vf_iff(t.contains(p, false), t.contains(p, eps, false)));
    vf_assert("plane-check-done", vf_iff(t.contains(p, true), t.contains(p, eps, true)));
}

// corners a, a+e, a+f, a+s e+t f (lexicographic order); strictly convex iff s,t > 0 and s+t > 1
//@ harness quad_basics property=C06
extern "C" void quad_basics()
{
    const Frame F;
    const double s = positive("s"), t = positive("t");
    if (vf_symbolic()) vf_assume(s + t > 1.0); else vf_assume(s + t > 1.01);
    const P3 p[4] = {F.a, F.at(1, 0), F.at(0, 1), F.at(s, t)};
    const Q3 q(p[0], p[1], p[2], p[3]);
    vf_assert("area", vf_eq(2.0*q.area(), (s + t)*F.A));
    // centroid: (c1*t + c2*s)/(s+t) with c1, c2 the centroids of the two halves
    const R3 c1 = r3(p[0]) + r3(p[1]) + r3(p[3]), c2 = r3(p[0]) + r3(p[3]) + r3(p[2]);
    vf_assert("center", same((3.0*(s + t))*r3(q.center()), t*c1 + s*c2));
    vf_assert("convex", q.isConvex());
    const unsigned ed[4][2] = {{0, 1}, {1, 3}, {0, 2}, {2, 3}};
    for (unsigned i = 0; i < 4; ++i)
    {
        vf_assert("corners", same(r3(q.corner(i)), r3(p[i])));
        const S3 g = q.edge(i);
        vf_assert("edges", all(same(r3(g.source()), r3(p[ed[i][0]])), same(r3(g.target()), r3(p[ed[i][1]]))));
    }
    vf_assert("counts", Q3::numCorners() == 4 && Q3::numEdges() == 4);
    const R3 m = r3(q.supportingPlane().normal()), o = r3(q.supportingPlane().supportingPoint());
    vf_assert("plane-normal", vf_and(zero(cross(m, F.n)), vf_eq(norm2(m), 1.0)));
    vf_assert("plane-through-corners", all(vf_eq(dot(F.n, r3(p[0]) - o), 0.0), vf_eq(dot(F.n, r3(p[3]) - o), 0.0)));
}

//@ harness quad_invalid_edge property=C06 throws=1
extern "C" void quad_invalid_edge()
{
    const Q3 q(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(1, 1, 0));
    const unsigned i = vf_int("i", 4, 1000);
    bool thrown = false;
    try { q.edge(i); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("rejected", thrown);
}

//@ harness quad_convexity property=C06
extern "C" void quad_convexity()
{
    const Frame F;
    const double s = real("s"), t = real("t");
    nonzero(s); nonzero(t); nonzero(s + t - 1.0);
    const Q3 q(F.a, F.at(1, 0), F.at(0, 1), F.at(s, t));
    vf_assert("convex-iff-turning-one-way", vf_iff(q.isConvex(), all(s > 0.0, t > 0.0, s + t > 1.0)));
}

//@ harness quad_contains property=C07
extern "C" void quad_contains()
{
    const Frame F;
    const double s = positive("s"), t = positive("t");
    if (vf_symbolic()) vf_assume(s + t > 1.0); else vf_assume(s + t > 1.01);
    const Q3 q(F.a, F.at(1, 0), F.at(0, 1), F.at(s, t));
    const double u = real("u"), v = real("v"), eps = positive("eps");
    const P3 p = F.at(u, v);
    // signed (twice the) areas spanned by the point and the four edges
    const double k0 = v, k1 = (s - 1.0)*v - t*(u - 1.0), k3 = -s*(v - t) - (1.0 - t)*(u - s), k2 = u;
    const double excess = (neg(k0) + neg(k1) + neg(k2) + neg(k3))*F.A;
    if (!vf_symbolic()) vf_assume(std::fabs(excess - eps*eps) > 1e-7);
    vf_lemma("on-plane", vf_eq(dot(r3(q.supportingPlane().normal()), r3(p) - r3(F.a)), 0.0));
    const P3 e[5] = {F.a, F.at(1, 0), F.at(s, t), F.at(0, 1), F.a};
    const double k[4] = {k0, k1, k3, k2};
    double w = 0.0;
    for (int i = 0; i < 4; ++i)
    {
        const double a = vf_name(neg(k[i])*F.A), b = vf_name(k[i]*F.A);
        vf_lemma("triangle-area", vf_eq(Triangle<double, 3>(e[i], e[i + 1], p).area(), 0.5*b + a));
        w = w + b;
    }
    vf_lemma("area", vf_eq(q.area(), 0.5*w));
    const bool c = q.contains(p, eps);
    vf_assert("inside-is-contained", vf_imp(all(k0 >= 0.0, k1 >= 0.0, k2 >= 0.0, k3 >= 0.0), c));
    vf_assert("contained-iff-excess-area-below-tolerance", vf_iff(c, excess < eps*eps));
    vf_assert("plane-check-irrelevant-on-plane", vf_iff(c, q.contains(p, eps, false)));
}
//@ harness quad_contains_offplane property=C07
extern "C" void quad_contains_offplane()
{
    const Frame F;
    const double s = positive("s"), t = positive("t");
    if (vf_symbolic()) vf_assume(s + t > 1.0); else vf_assume(s + t > 1.01);
    const Q3 q(F.a, F.at(1, 0), F.at(0, 1), F.at(s, t));
    const double u = real("u"), v = real("v"), h = real("h"), eps = positive("eps");
    const R3 x = r3(F.at(u, v)) + (h/F.A)*F.n;
    vf_assume(vf_or(h >= eps, -h >= eps));
    if (!vf_symbolic()) vf_assume(std::fabs(h) > eps + 1e-9);
    vf_lemma("offset", vf_or(vf_eq(dot(r3(q.supportingPlane().normal()), x - r3(F.a)), h), vf_eq(dot(r3(q.supportingPlane().normal()), x - r3(F.a)), -h)));
    vf_assert("off-plane-is-rejected", vf_not(q.contains(P3(x.x, x.y, x.z), eps)));
    vf_assert("default-tolerance", vf_iff(q.contains(F.at(u, v)), q.contains(F.at(u, v), Frackit::Precision<double>::confusion()*V3(F.a, F.at(s, t)).length())));
}

// polygons: corners (0,0),(1,0),(0,1),(s3,t3),.. of the frame, which is every planar polygon
// whose first three corners are not collinear
namespace {
struct Poly
{
    int n;
    double s[6], t[6];
    std::vector<P3> c;
    Poly(const Frame& F, int num) : n(num)
    {
        s[0] = 0; t[0] = 0; s[1] = 1; t[1] = 0; s[2] = 0; t[2] = 1;
        for (int i = 3; i < n; ++i) { s[i] = real("s"); t[i] = real("t"); }
        for (int i = 0; i < n; ++i) c.push_back(F.at(s[i], t[i]));
    }
    double es(int i) const { return s[(i + 1) % n] - s[i % n]; }
    double et(int i) const { return t[(i + 1) % n] - t[i % n]; }
    double turn(int i) const { return es(i + n - 1)*et(i) - et(i + n - 1)*es(i); }     // at corner i
    double fan(int i) const { return s[i]*t[i + 1] - t[i]*s[i + 1]; }                  // twice the area of (0,i,i+1)
    // the sign of the product of two turns, as it follows from unit edge vectors
    void turnLemmas(const Frame& F) const
    {
        const double A2 = vf_name(norm2(F.n));
        vf_lemma("normal", A2 > 0.0);
        double L[6], k[6];
        std::vector<S3> g;
        for (int i = 0; i < n; ++i)
        {
            g.emplace_back(c[i], c[(i + 1) % n]);
            L[i] = vf_name(g[i].length());
            k[i] = vf_name(turn(i));
            vf_lemma("length", vf_and(L[i] >= 0.0, k[i] != 0.0));
        }
        for (int i = 0; i < n; ++i)
        {
            const int j = (i + n - 1) % n;
            const double d = vf_name(V3(g[j].source(), g[j].target())*V3(g[i].source(), g[i].target()));
            vf_lemma("lagrange", vf_eq(L[j]*L[j]*L[i]*L[i], d*d + k[i]*k[i]*A2));
            vf_lemma("edge-length", L[i] > 0.0);
        }
        for (int i = 0; i < n; ++i) vf_lemma("edge-length-2", L[i] > 0.0);
        const R3 z = r3(g[n - 1].direction()), o = r3(g[0].direction());
        for (int i = 1; i < n; ++i)
        {
            const double v = vf_name(dot(cross(r3(g[i - 1].direction()), r3(g[i].direction())), cross(z, o)));
            const double D = vf_name(L[i - 1]*L[i]*L[n - 1]*L[0]);
            const double kk = vf_name(k[i]*k[0]);
            vf_lemma("edge-lengths", D > 0.0);
            vf_lemma("turn-product", vf_eq(v*D, kk*A2));
            vf_lemma("turn-sign", vf_iff(v < 0.0, kk < 0.0));
        }
    }
    void convex() const      // turns only left and runs around once
    {
        for (int i = 0; i < n; ++i) nondegenerate(turn(i));
        for (int i = 1; i + 1 < n; ++i) nondegenerate(fan(i));
    }
};
}
//@ harness polygon_convexity property=C06 bound="polygons with 3 to 5 corners"
extern "C" void polygon_convexity()
{
    const Frame F;
    const Poly P(F, vf_choose("n", 3, 6));
    bool allPos = true, allNeg = true;
    for (int i = 0; i < P.n; ++i)
    {
        nonzero(P.turn(i));
        if (!vf_symbolic()) vf_assume(P.es(i)*P.es(i) + P.et(i)*P.et(i) > 1e-4);
        allPos = vf_and(allPos, P.turn(i) > 0.0);
        allNeg = vf_and(allNeg, P.turn(i) < 0.0);
    }
    P.turnLemmas(F);
    const Po3 p(P.c);
    vf_assert("convex-iff-turning-one-way", vf_iff(p.isConvex(), vf_or(allPos, allNeg)));
}
//@ harness polygon_basics property=C06 bound="polygons with 3 to 5 corners" runs=6000
extern "C" void polygon_basics()
{
    const Frame F;
    const Poly P(F, vf_choose("n", 3, 6));
    P.convex();
    P.turnLemmas(F);
    const Po3 p(P.c);
    vf_assert("convex", p.isConvex());
    double k = 0.0;
    R3 m = r3(0, 0, 0);
    for (int i = 1; i + 1 < P.n; ++i)
    {
        k = k + P.fan(i);
        m = m + P.fan(i)*(r3(P.c[0]) + r3(P.c[i]) + r3(P.c[i + 1]));
    }
    vf_assert("area", vf_eq(2.0*p.area(), k*F.A));
    vf_assert("center", same((3.0*k)*r3(p.center()), m));
    vf_assert("counts", p.numCorners() == std::size_t(P.n) && p.numEdges() == std::size_t(P.n));
    for (int i = 0; i < P.n; ++i)
    {
        const S3 g = p.edge(i);
        vf_assert("corners-and-edges", all(same(r3(p.corner(i)), r3(P.c[i])), same(r3(g.source()), r3(P.c[i])), same(r3(g.target()), r3(P.c[(i + 1) % P.n]))));
    }
    const R3 nn = r3(p.supportingPlane().normal()), o = r3(p.supportingPlane().supportingPoint());
    vf_assert("plane", all(zero(cross(nn, F.n)), vf_eq(norm2(nn), 1.0), vf_eq(dot(F.n, r3(P.c[0]) - o), 0.0)));
}
//@ harness polygon_contains property=C07 bound="polygons with 3 to 5 corners" runs=6000
extern "C" void polygon_contains()
{
    const Frame F;
    const Poly P(F, vf_choose("n", 3, 6));
    P.convex();
    P.turnLemmas(F);
    const Po3 p(P.c);
    const double u = real("u"), v = real("v"), eps = positive("eps");
    double out = 0.0, sum = 0.0, areas = 0.0, total = 0.0;
    bool inside = true;
    const P3 q = F.at(u, v);
    for (int i = 1; i + 1 < P.n; ++i) total = total + P.fan(i);
    for (int i = 0; i < P.n; ++i)
    {
        const double k = vf_name(P.es(i)*(v - P.t[i]) - P.et(i)*(u - P.s[i]));   // twice the signed area of (edge i, point)
        const double m = vf_name(neg(k));
        out = out + m;
        sum = sum + k;
        inside = vf_and(inside, k >= 0.0);
        const double a = T3(P.c[i], P.c[(i + 1) % P.n], q).area();
        areas = areas + a;
        vf_lemma("sub-area", vf_eq(2.0*a, (k + 2.0*m)*F.A));
        vf_lemma("sub-outside", vf_and(m >= 0.0, vf_iff(m == 0.0, k >= 0.0)));
    }
    vf_lemma("signed-areas", vf_eq(sum, total));
    const double total_ = vf_name(total), out_ = vf_name(out);
    vf_lemma("area", vf_eq(2.0*p.area(), total_*F.A));
    vf_lemma("outside", vf_and(out_ >= 0.0, vf_iff(out_ == 0.0, inside)));
    vf_lemma("areas", vf_eq(areas - p.area(), out_*F.A));
    const double excess = vf_name(out_*F.A);
    vf_lemma("excess", vf_and(excess >= 0.0, vf_imp(inside, excess == 0.0)));
    if (!vf_symbolic()) vf_assume(std::fabs(excess - eps*eps) > 1e-6);
    const bool c = p.contains(q, eps);
    vf_assert("inside-is-contained", vf_imp(inside, c));
    vf_assert("contained-iff-excess-area-below-tolerance", vf_iff(c, excess < eps*eps));
    vf_assert("plane-check-irrelevant-on-plane", vf_iff(c, p.contains(F.at(u, v), eps, false)));
    const double deps = Frackit::Precision<double>::confusion()*norm(r3(P.c[0]) - r3(p.center()));
    vf_assert("default-tolerance", vf_iff(p.contains(q), p.contains(q, deps)));
    const double h = real("h");
    vf_assume(vf_or(h > eps, -h > eps));
    const R3 x = r3(F.at(u, v)) + (h/F.A)*F.n;
    vf_lemma("offset", vf_or(vf_eq(dot(r3(p.supportingPlane().normal()), x - r3(F.a)), h), vf_eq(dot(r3(p.supportingPlane().normal()), x - r3(F.a)), -h)));
    vf_assert("off-plane-is-rejected", vf_not(p.contains(P3(x.x, x.y, x.z), eps)));
}
//@ harness polygon_invalid property=C06 throws=1
extern "C" void polygon_invalid()
{
    std::vector<P3> c;
    const int n = vf_choose("n", 0, 3);
    for (int i = 0; i < n; ++i) c.push_back(point("c"));
    bool thrown = false;
    try { Po3 p(c); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("too-few-corners-rejected", thrown);
}
