// C01 vector algebra, C02 directions
#include "common.hh"
using namespace vf;

//@ harness vector3_ops property=C01
extern "C" void vector3_ops()
{
    const V3 a = vec("a"), b = vec("b"), c = vec("c");
    const R3 A = r3(a), B = r3(b), C = r3(c);
    const double s = real("s"), q = real("q");
    vf_assert("dot", vf_eq(a*b, dot(A, B)));
    vf_assert("sum", same(r3(a + b), A + B));
    vf_assert("difference", same(r3(a - b), A - B));
    V3 m = a; V3& mr = (m *= s);
    vf_assert("scale", same(r3(m), s*A) & (&mr == &m));
    nonzero(q);
    V3 d = a; d /= q;
    vf_assert("divide", same(q*r3(d), A));
    vf_assert("squaredLength", vf_eq(a.squaredLength(), norm2(A)));
    vf_assert("length", vf_eq(a.length()*a.length(), norm2(A)) & vf_le(0.0, a.length()));
    const V3 n = crossProduct(a, b);
    vf_assert("cross", same(r3(n), cross(A, B)));
    vf_assert("cross-orthogonal", vf_eq(n*a, 0.0) & vf_eq(n*b, 0.0));
    vf_assert("box", vf_eq(boxProduct(a, b, c), dot(A, cross(B, C))));
    vf_assert("box-cyclic", vf_eq(boxProduct(a, b, c), boxProduct(b, c, a)));
    vf_assert("zero-vector", zero(r3(V3())));
    const P3 p = point("p"), o = point("o");
    vf_assert("from-points", same(r3(V3(p, o)), r3(o) - r3(p)));
    vf_assert("point-plus-vector", same(r3(p + a), r3(p) + A));
    vf_assert("point-minus-vector", same(r3(p - a), r3(p) - A));
    vf_assert("translate-and-back", same(r3((p + a) - a), r3(p)));
    P3 k = p; k *= s;
    vf_assert("point-scale", same(r3(k), s*r3(p)));
    P3 l = p; l /= q;
    vf_assert("point-divide", same(q*r3(l), r3(p)));
    P3 t = p; t += a;
    vf_assert("point-translate", same(r3(t), r3(p) + A));
    t -= b;
    vf_assert("point-translate-back", same(r3(t), (r3(p) + A) - B));
    vf_assert("origin", zero(r3(P3())));
}

//@ harness righthand property=C01
extern "C" void righthand()
{
    const V3 a = vec("a"), b = vec("b"), c = vec("c");
    const double v = dot(r3(a), cross(r3(b), r3(c)));
    nonzero(v);
    vf_assert("right-hand-system", vf_iff(isRightHandSystem(a, b, c), v > 0.0));
    vf_assert("antisymmetric", vf_not(vf_and(isRightHandSystem(a, b, c), isRightHandSystem(b, a, c))));
}

//@ harness vector2_ops property=C01
extern "C" void vector2_ops()
{
    const double ax = real("ax"), ay = real("ay"), bx = real("bx"), by = real("by"), s = real("s"), q = real("q");
    const V2 a(ax, ay), b(bx, by);
    vf_assert("dot", vf_eq(a*b, ax*bx + ay*by));
    const V2 u = a + b, d = a - b;
    vf_assert("sum", all(vf_eq(u.x(), ax + bx), vf_eq(u.y(), ay + by)));
    vf_assert("difference", all(vf_eq(d.x(), ax - bx), vf_eq(d.y(), ay - by)));
    V2 m = a; m *= s;
    vf_assert("scale", all(vf_eq(m.x(), ax*s), vf_eq(m.y(), ay*s)));
    nonzero(q);
    V2 e = a; e /= q;
    vf_assert("divide", all(vf_eq(e.x()*q, ax), vf_eq(e.y()*q, ay)));
    vf_assert("squaredLength", vf_eq(a.squaredLength(), ax*ax + ay*ay));
    vf_assert("length", vf_eq(a.length()*a.length(), ax*ax + ay*ay) & vf_le(0.0, a.length()));
    vf_assert("cross", vf_eq(crossProduct(a, b), ax*by - ay*bx));
    const P2 p(ax, ay), o(bx, by);
    const V2 po(p, o);
    vf_assert("from-points", all(vf_eq(po.x(), bx - ax), vf_eq(po.y(), by - ay)));
    const P2 t = p + b, r = p - b;
    vf_assert("point-plus-vector", all(vf_eq(t.x(), ax + bx), vf_eq(t.y(), ay + by)));
    vf_assert("point-minus-vector", all(vf_eq(r.x(), ax - bx), vf_eq(r.y(), ay - by)));
    const double eps = positive("eps");
    vf_assert("isEqual", vf_iff(p.isEqual(o, eps), (bx - ax)*(bx - ax) + (by - ay)*(by - ay) < eps*eps));
    const V1 c1(ax), d1(bx);
    V1 f1 = c1; f1 *= s;
    vf_assert("1d", all(vf_eq(c1*d1, ax*bx), vf_eq((c1 + d1).x(), ax + bx), vf_eq((c1 - d1).x(), ax - bx), vf_eq(f1.x(), ax*s), vf_eq(c1.squaredLength(), ax*ax)));
    const P1 p1(ax), o1(bx);
    vf_assert("1d-points", all(vf_eq(V1(p1, o1).x(), bx - ax), vf_eq((p1 + d1).x(), ax + bx), vf_eq((p1 - d1).x(), ax - bx)));
    vf_assert("1d-isEqual", vf_iff(p1.isEqual(o1, eps), (bx - ax)*(bx - ax) < eps*eps));
}

//@ harness point_equality property=C01
extern "C" void point_equality()
{
    const P3 p = point("p"), o = point("o");
    const double eps = positive("eps");
    const double d2 = norm2(r3(p) - r3(o));
    vf_assert("isEqual", vf_iff(p.isEqual(o, eps), d2 < eps*eps));
    vf_assert("symmetric", vf_iff(p.isEqual(o, eps), o.isEqual(p, eps)));
    vf_assert("reflexive", p.isEqual(p, eps));
    vf_assert("default-tolerance", vf_iff(p.isEqual(o), d2 < Frackit::Precision<double>::confusion()*Frackit::Precision<double>::confusion()));
}

//@ harness rotate_isometry property=C01
extern "C" void rotate_isometry()
{
    V3 a = vec("a"), b = vec("b");
    const D3 axis = direction("axis");
    const double phi = real("phi");
    const double ab = a*b, al = a*V3(axis);
    const R3 A = r3(a), k = r3(axis);
    rotate(a, axis, phi);
    rotate(b, axis, phi);
    vf_assert("preserves-inner-products", vf_eq(a*b, ab));
    vf_assert("fixes-axis-component", vf_eq(a*V3(axis), al));
    // Rodrigues' formula: counter-clockwise around the axis
    const R3 e = std::cos(phi)*A + std::sin(phi)*cross(k, A) + ((1.0 - std::cos(phi))*dot(k, A))*k;
    vf_assert("rodrigues", same(r3(a), e));
}

//@ harness rotate_many property=C01 bound="lists of at most 3 vectors"
extern "C" void rotate_many()
{
    const D3 axis = direction("axis");
    const double phi = real("phi");
    const int n = vf_choose("n", 1, 4);
    std::vector<V3> vs;
    for (int i = 0; i < n; ++i) vs.push_back(vec("v"));
    std::vector<V3> w = vs;
    rotate(w, axis, phi);
    vf_assert("size", w.size() == vs.size());
    for (int i = 0; i < n; ++i)
    {
        V3 s = vs[i];
        rotate(s, axis, phi);
        vf_assert("each-as-single", same(r3(w[i]), r3(s)));
    }
}

//@ harness degrees property=C01
extern "C" void degrees()
{
    const double x = real("x");
    vf_assert("inverse", vf_eq(toRadians(toDegrees(x)), x) & vf_eq(toDegrees(toRadians(x)), x));
    vf_assert("half-turn", vf_eq(toDegrees(M_PI), 180.0) & vf_eq(toRadians(180.0), M_PI));
    vf_assert("linear", vf_eq(toRadians(x)*180.0, x*M_PI));
}

//@ harness intervals property=C11
extern "C" void intervals()
{
    const double a = real("a"), b = a + nonneg("la"), c = real("c"), d = c + nonneg("lc");
    const double eps = positive("eps");
    const std::array<double, 2> i1{a, b}, i2{c, d};
    const bool r = intervalsOverlap(i1, i2, eps);
    vf_assert("gap-below-tolerance-overlaps", vf_imp(vf_and(a < d + eps, b > c - eps), r));
    vf_assert("gap-above-tolerance-does-not", vf_imp(vf_or(a > d + eps, b < c - eps), vf_not(r)));
}

//@ harness parallel property=C01
extern "C" void parallel()
{
    const V3 a = vec("a"), b = vec("b");
    const double h = positive("h");                   // tolerance 2h on the angle
    nondegenerate(norm2(r3(a))); nondegenerate(norm2(r3(b)));
    vf_assume(h < 1.5);
    const double c = a*b/a.length()/b.length(), q = std::cos(M_PI/2 - h), t = 1.0 - 2.0*q*q;   // t = cos(2h)
    if (!vf_symbolic()) vf_assume(std::fabs(std::fabs(c) - t) > 1e-9);
    const R3 ua = r3(a.x()/a.length(), a.y()/a.length(), a.z()/a.length()), ub = r3(b.x()/b.length(), b.y()/b.length(), b.z()/b.length());
    const double m1 = norm(ua - ub), m2 = norm(ua + ub);
    vf_lemma("chord-1", vf_eq(m1*m1, 2.0 - 2.0*c));
    vf_lemma("chord-2", vf_eq(m2*m2, 2.0 + 2.0*c));
    vf_lemma("sine-positive", q > 0.0);
    vf_lemma("chord-below-1", vf_iff(m1 < 2.0*q, c > t));
    vf_lemma("chord-below-2", vf_iff(m2 < 2.0*q, -c > t));
    vf_assert("parallel-iff-angle-within-tolerance", vf_iff(a.isParallel(b, 2.0*h), vf_or(c > t, -c > t)));
    vf_assert("symmetric", vf_iff(a.isParallel(b, 2.0*h), b.isParallel(a, 2.0*h)));
}
//@ harness parallel_multiples property=C01
extern "C" void parallel_multiples()
{
    const V3 a = vec("a"); const double t = real("t");
    nondegenerate(norm2(r3(a))); nonzero(t);
    V3 b = a; b *= t;
    vf_assert("multiples-are-parallel", a.isParallel(b));
}

//@ harness dir_ctor property=C02
extern "C" void dir_ctor()
{
    const V3 a = vec("a");
    nondegenerate(norm2(r3(a)));
    D3 d(a);
    vf_assert("unit", vf_eq(norm2(r3(d)), 1.0));
    vf_assert("parallel", zero(cross(r3(d), r3(a))));
    vf_assert("same-orientation", dot(r3(d), r3(a)) > 0.0);
    vf_assert("as-vector", same(r3(V3(d)), r3(d)));
    const double s = real("s");
    vf_assert("scaled", same(r3(d*s), s*r3(d)));
    const R3 e = r3(d);
    d.invert();
    vf_assert("inverted", same(r3(d), -1.0*e));
}
//@ harness dir_ctor_2d property=C02
extern "C" void dir_ctor_2d()
{
    const double x = real("x"), y = real("y"), s = real("s");
    nondegenerate(x*x + y*y);
    D2 d(V2(x, y));
    vf_assert("unit", vf_eq(d.x()*d.x() + d.y()*d.y(), 1.0));
    vf_assert("parallel", vf_eq(d.x()*y, d.y()*x));
    vf_assert("same-orientation", d.x()*x + d.y()*y > 0.0);
    const V2 v = d*s;
    vf_assert("scaled", all(vf_eq(v.x(), s*d.x()), vf_eq(v.y(), s*d.y())));
    const double ox = d.x(), oy = d.y();
    d.invert();
    vf_assert("inverted", all(vf_eq(d.x(), -ox), vf_eq(d.y(), -oy)));
    nonzero(x);
    D1 e{V1(x)};
    vf_assert("1d-sign", vf_and(vf_eq(e.x()*e.x(), 1.0), e.x()*x > 0.0));
    const double ex = e.x();
    vf_assert("1d-scaled", vf_eq((e*s).x(), s*ex));
    e.invert();
    vf_assert("1d-inverted", vf_eq(e.x(), -ex));
}
//@ harness orthogonal_vector property=C02
extern "C" void orthogonal_vector()
{
    const V3 a = vec("a");
    nondegenerate(norm2(r3(a)));
    const V3 o = makeOrthogonalVector(a);
    vf_assert("orthogonal", vf_eq(dot(r3(a), r3(o)), 0.0));
    vf_assert("nonzero", norm2(r3(o)) > 0.0);
}
