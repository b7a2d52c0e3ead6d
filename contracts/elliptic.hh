// Contracts of the constructors every elliptical geometry goes through.  A caller is
// checked against these (precondition as an obligation at the call, postcondition
// assumed); elliptic.cc proves the constructors' bodies against the same clauses.
#ifndef VF_ELLIPTIC_HH
#define VF_ELLIPTIC_HH
#include <new>
#include <frackit/geometry/ellipticalgeometry.hh>
#include <frackit/geometry/circle.hh>
namespace vf {
using EG = Frackit::EllipticalGeometry<double, 3>;
// the fields are private: a contract sets them through the accessors' references
template<class T> inline void put(const T& field, const T& value) { const_cast<T&>(field) = value; }
inline bool elliptic_pre(const D3& maj, const D3& min)
{ return all(vf_eq(norm2(r3(maj)), 1.0), vf_eq(norm2(r3(min)), 1.0), vf_eq(dot(r3(maj), r3(min)), 0.0)); }
}

//@ stub elliptic_contract : Frackit::EllipticalGeometry<double, 3>::EllipticalGeometry\(Frackit::Point<double, 3> const&, Frackit::Direction<double, 3> const&, Frackit::Direction<double, 3> const&, double, double\)
// requires unit orthogonal axes; ensures the arguments are stored and normal = major x minor
extern "C" void elliptic_contract(vf::EG* self, const vf::P3& c, const vf::D3& maj, const vf::D3& min, double a, double b)
{
    using namespace vf;
    vf_assert("pre:ellipse-axes-orthonormal", elliptic_pre(maj, min));
    new (self) EG(P3(0.0, 0.0, 0.0), D3(V3(1.0, 0.0, 0.0)), D3(V3(0.0, 1.0, 0.0)), a, b);
    put(self->center(), c);
    put(self->majorAxis(), maj);
    put(self->minorAxis(), min);
    put(self->normal(), exact_direction(cross(r3(maj), r3(min))));
}

//@ stub circle_contract : Frackit::Circle<double, 3>::Circle\(Frackit::Point<double, 3> const&, Frackit::Direction<double, 3> const&, double\)
// requires a unit normal; ensures center, normal, radius as given and (major, minor, normal) right-handed orthonormal
extern "C" void circle_contract(Frackit::Circle<double, 3>* self, const vf::P3& c, const vf::D3& n, double r)
{
    using namespace vf;
    vf_assert("pre:circle-normal-unit", vf_eq(norm2(r3(n)), 1.0));
    new (self) Frackit::Circle<double, 3>(P3(0.0, 0.0, 0.0), D3(V3(0.0, 0.0, 1.0)), r);
    put(self->center(), c);
    const D3 m = direction_orth("axis", n);
    put(self->majorAxis(), m);
    put(self->minorAxis(), exact_direction(cross(r3(n), r3(m))));
    put(self->normal(), n);
}
#endif
