// C03 lines and planes: projection and containment; C04 plane bases; C05 segments
#include "common.hh"
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/segment.hh>
using namespace vf;
using L3 = Line<double, 3>;
using Pl = Plane<double, 3>;
using S3 = Segment<double, 3>;

namespace {
// any plane whose stored basis satisfies the class invariant
Pl plane(const char* n)
{
    const P3 p = point(n);
    const D3 m = direction(n), b1 = direction_orth(n, m);
    D3 b2 = D3(crossProduct(V3(m), V3(b1)));
    return Pl(p, b1, b2, m);
}
bool orthonormal(const Pl& pl)
{
    const R3 a = r3(pl.base1()), b = r3(pl.base2()), n = r3(pl.normal());
    return all(vf_eq(norm2(a), 1.0), vf_eq(norm2(b), 1.0), vf_eq(norm2(n), 1.0),
               vf_eq(dot(a, b), 0.0), vf_eq(dot(a, n), 0.0), vf_eq(dot(b, n), 0.0));
}
}

//@ harness line_projection property=C03
extern "C" void line_projection()
{
    const P3 s = point("s"), p = point("p");
    const D3 d = direction("d");
    const L3 l(s, d);
    vf_assert("accessors", same(r3(l.supportingPoint()), r3(s)) & same(r3(l.direction()), r3(d)));
    const P3 q = l.projection(p);
    vf_assert("on-line", zero(cross(r3(q) - r3(s), r3(d))));
    vf_assert("orthogonal", vf_eq(dot(r3(p) - r3(q), r3(d)), 0.0));
    vf_assert("idempotent", same(r3(l.projection(q)), r3(q)));
    const double eps = positive("eps");
    const double dist2 = norm2(r3(p) - r3(q));
    vf_assert("contains-iff-distance-below-tolerance", vf_iff(l.contains(p, eps), dist2 < eps*eps));
    vf_assert("contains-default", vf_iff(l.contains(p), dist2 < Frackit::Precision<double>::confusion()*Frackit::Precision<double>::confusion()));
    const double t = real("t");
    const R3 o = r3(s) + t*r3(d);
    const P3 on(o.x, o.y, o.z);
    vf_assert("own-points", l.contains(on, eps));
    vf_assert("nearest", vf_le(dist2, norm2(r3(p) - o)));
}

//@ harness plane_projection property=C03
extern "C" void plane_projection()
{
    const P3 a = point("a");
    const D3 n = direction("n");
    const Pl pl(a, n);
    const P3 p = point("p");
    const P3 q = pl.projection(p);
    vf_assert("on-plane", vf_eq(dot(r3(n), r3(q) - r3(a)), 0.0));
    vf_assert("along-normal", zero(cross(r3(n), r3(p) - r3(q))));
    vf_assert("idempotent", same(r3(pl.projection(q)), r3(q)));
    const double eps = positive("eps");
    const double dist2 = norm2(r3(p) - r3(q));
    const double h = dot(r3(n), r3(p) - r3(a));
    vf_assert("offset", vf_eq(dist2, h*h));
    vf_assert("contains-iff-distance-below-tolerance", vf_iff(pl.contains(p, eps), vf_and(h < eps, -h < eps)));
    const double c = Frackit::Precision<double>::confusion();
    vf_assert("contains-default", vf_iff(pl.contains(p), vf_and(h < c, -h < c)));
    vf_assert("contains-projection", pl.contains(q, eps));
}

//@ harness plane_projects_segment property=C03
extern "C" void plane_projects_segment()
{
    const P3 a = point("a"), s = point("s"), t = point("t");
    const D3 n = direction("n");
    const Pl pl(a, n);
    const S3 r = pl.projection(S3(s, t));
    vf_assert("source", same(r3(r.source()), r3(pl.projection(s))));
    vf_assert("target", same(r3(r.target()), r3(pl.projection(t))));
}

//@ harness plane_projects_line property=C03
extern "C" void plane_projects_line()
{
    const P3 a = point("a"), s = point("s");
    const D3 n = direction("n"), d = direction("d");
    const R3 c = cross(r3(n), r3(d));
    if (vf_symbolic()) vf_assume(norm2(c) > 0.0); else vf_assume(norm2(c) > 1e-2);
    const Pl pl(a, n);
    const L3 r = pl.projection(L3(s, d));
    vf_assert("support-on-plane", vf_eq(dot(r3(n), r3(r.supportingPoint()) - r3(a)), 0.0));
    vf_assert("direction-in-plane", vf_eq(dot(r3(n), r3(r.direction())), 0.0));
    vf_assert("unit", vf_eq(norm2(r3(r.direction())), 1.0));
    const double t = real("t");
    const R3 o = r3(s) + t*r3(d);
    const P3 q = pl.projection(P3(o.x, o.y, o.z));
    vf_assert("contains-projected-points", zero(cross(r3(q) - r3(r.supportingPoint()), r3(r.direction()))));
}

//@ harness plane_from_normal property=C04
extern "C" void plane_from_normal()
{
    const P3 a = point("a");
    const D3 n = direction("n");
    const Pl pl(a, n);
    vf_assert("support", same(r3(pl.supportingPoint()), r3(a)));
    vf_assert("normal", same(r3(pl.normal()), r3(n)));
    vf_assert("orthonormal", orthonormal(pl));
    vf_assert("right-handed", vf_eq(dot(cross(r3(pl.base1()), r3(pl.base2())), r3(n)), 1.0));
}

//@ harness plane_from_points property=C04
extern "C" void plane_from_points()
{
    const P3 a = point("a");
    const V3 u = vec("u"), v = vec("v");
    const R3 n = cross(r3(u), r3(v));
    nondegenerate(norm2(n));
    const P3 b = a + u, c = a + v;
    const Pl pl(a, b, c);
    vf_assert("orthonormal", orthonormal(pl));
    vf_assert("right-handed", vf_eq(dot(cross(r3(pl.base1()), r3(pl.base2())), r3(pl.normal())), 1.0));
    const R3 m = r3(pl.normal()), s = r3(pl.supportingPoint());
    vf_assert("through-points", all(vf_eq(dot(m, r3(a) - s), 0.0), vf_eq(dot(m, r3(b) - s), 0.0), vf_eq(dot(m, r3(c) - s), 0.0)));
    vf_assert("orientation", dot(m, n) > 0.0);
    const double eps = positive("eps");
    vf_assert("contains-points", all(pl.contains(a, eps), pl.contains(b, eps), pl.contains(c, eps)));
}

//@ harness plane_from_basis property=C04
extern "C" void plane_from_basis()
{
    const P3 p = point("p");
    const D3 m = direction("n"), b1 = direction_orth("b", m);
    const D3 b2 = D3(crossProduct(V3(m), V3(b1)));
    const Pl pl(p, b1, b2, m);
    vf_assert("orthonormal", orthonormal(pl));
    vf_assert("as-given", all(same(r3(pl.supportingPoint()), r3(p)), same(r3(pl.base1()), r3(b1)), same(r3(pl.base2()), r3(b2)), same(r3(pl.normal()), r3(m))));
}

//@ harness segment_points property=C05
extern "C" void segment_points()
{
    const P3 s = point("s"), t = point("t");
    const R3 e = r3(t) - r3(s);
    const S3 g(s, t);
    vf_assert("ends", all(same(r3(g.source()), r3(s)), same(r3(g.target()), r3(t))));
    vf_assert("length", vf_and(vf_eq(g.length()*g.length(), norm2(e)), vf_le(0.0, g.length())));
    vf_assert("squared-length", vf_eq(g.squaredLength(), norm2(e)));
    vf_assert("center", same(2.0*r3(g.center()), r3(s) + r3(t)));
    const double k = unit("k");
    vf_assert("parametrisation", same(r3(g.getPoint(k)), r3(s) + k*e));
    const S3 r = g.getReversed();
    vf_assert("reversed", all(same(r3(r.source()), r3(t)), same(r3(r.target()), r3(s))));
    nondegenerate(norm2(e));
    vf_assert("direction", vf_and(zero(cross(r3(g.direction()), e)), dot(r3(g.direction()), e) > 0.0));
    vf_assert("direction-unit", vf_eq(norm2(r3(g.direction())), 1.0));
    const L3 l = g.supportingLine();
    vf_assert("supporting-line", vf_and(zero(cross(r3(l.supportingPoint()) - r3(s), e)), zero(cross(r3(l.direction()), e))));
}

//@ harness segment_contains property=C05,C07
extern "C" void segment_contains()
{
    const P3 s = point("s");
    const V3 ev = vec("e"), wv = vec("w");
    const R3 e = r3(ev);
    nondegenerate(norm2(e));
    const double k = real("k"), eps = positive("eps");
    // p = s + k e + w with w orthogonal to e: every point has this form
    R3 w = r3(wv);
    if (vf_symbolic()) vf_assume(dot(w, e) == 0.0);
    else w = w - (dot(w, e)/norm2(e))*e;
    const P3 t = s + ev;
    const R3 p = r3(s) + k*e + w;
    const P3 P(p.x, p.y, p.z);
    const S3 g(s, t);
    const double over = vf_ite(k < 0.0, k, vf_ite(k > 1.0, k - 1.0, 0.0));
    const double dist2 = norm2(w) + over*over*norm2(e);
    if (!vf_symbolic()) vf_assume(std::fabs(std::sqrt(dist2) - eps) > 1e-6 && std::fabs(std::sqrt(norm2(w)) - eps) > 1e-6);
    const L3 l = g.supportingLine();
    const double len = norm(e), sp1 = V3(l.direction())*V3(s, P), sp2 = V3(l.direction())*V3(t, P);
    vf_lemma("line-distance", vf_eq(V3(P, l.projection(P)).squaredLength(), norm2(w)));
    vf_lemma("along-1", vf_eq(sp1, k*len));
    vf_lemma("along-2", vf_eq(sp2, (k - 1.0)*len));
    vf_lemma("end-1", vf_eq(V3(s, P).squaredLength(), norm2(w) + k*k*len*len));
    vf_lemma("end-2", vf_eq(V3(t, P).squaredLength(), norm2(w) + (k - 1.0)*(k - 1.0)*len*len));
    vf_lemma("length", vf_and(vf_eq(len*len, norm2(e)), len > 0.0));
    vf_lemma("side-1", vf_iff(sp1 < 0.0, k < 0.0));
    vf_lemma("side-2", vf_iff(sp2 < 0.0, k < 1.0));
    const bool c = g.contains(P, eps);
    if (k < 0.0) vf_check("contains-iff-distance-below-tolerance", vf_iff(c, norm2(w) + k*k*len*len < eps*eps));
    else if (k > 1.0) vf_check("contains-iff-distance-below-tolerance-2", vf_iff(c, norm2(w) + (k - 1.0)*(k - 1.0)*len*len < eps*eps));
    else vf_check("contains-iff-distance-below-tolerance-3", vf_iff(c, norm2(w) < eps*eps));
    vf_assert("on-line-known", vf_imp(norm2(w) < eps*eps, vf_iff(g.contains(P, eps, false), dist2 < eps*eps)));
}
//@ harness segment_contains_default property=C05,C07
extern "C" void segment_contains_default()
{
    const P3 s = point("s"), t = point("t");
    const R3 e = r3(t) - r3(s);
    nondegenerate(norm2(e));
    const S3 g(s, t);
    const double k = unit("k");
    vf_assert("own-points", g.contains(g.getPoint(k)));
    vf_assert("own-points-no-line-check", g.contains(g.getPoint(k), false));
    vf_assert("ends", all(g.contains(s), g.contains(t)));
    const P3 q = point("q");
    vf_assert("same-as-scaled-tolerance", vf_iff(g.contains(q), g.contains(q, Frackit::Precision<double>::confusion()*g.length())));
}
