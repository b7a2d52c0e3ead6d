// the bodies of the constructors whose contracts elliptic.hh states
#include "common.hh"
#include "elliptic.hh"
using namespace vf;
using Ci = Frackit::Circle<double, 3>;

//@ harness elliptic_constructor property=C09,C07,C10
extern "C" void elliptic_constructor()
{
    const P3 o = point("o");
    const D3 maj = direction("a"), min = direction_orth("b", maj);
    const double a = positive("ma"), b = positive("mi");
    const EG g(o, maj, min, a, b);
    vf_assert("as-given", all(same(r3(g.center()), r3(o)), same(r3(g.majorAxis()), r3(maj)), same(r3(g.minorAxis()), r3(min)), vf_eq(g.majorAxisLength(), a), vf_eq(g.minorAxisLength(), b)));
    vf_assert("normal", same(r3(g.normal()), cross(r3(maj), r3(min))));
}

//@ harness circle_constructor property=C09,C07,C10 stubs=elliptic_contract nomerge=makeOrthogonalVector;makeBaseGeometry_;Circle
extern "C" void circle_constructor()
{
    const P3 o = point("o");
    const D3 n = direction("n");
    const double r = positive("r");
    const Ci c(o, n, r);
    vf_assert("as-given", all(same(r3(c.center()), r3(o)), vf_eq(c.radius(), r), vf_eq(c.majorAxisLength(), r), vf_eq(c.minorAxisLength(), r)));
    vf_assert("axes", all(vf_eq(norm2(r3(c.base1())), 1.0), vf_eq(dot(r3(c.base1()), r3(n)), 0.0), same(r3(c.base2()), cross(r3(n), r3(c.base1())))));
    vf_assert("normal", same(r3(c.normal()), r3(n)));
}
