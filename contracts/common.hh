// Ghost vocabulary shared by the contract files: arbitrary values of the
// library's types (constrained only by their class invariants) and the
// mathematical functions the contracts are written in.
#ifndef VF_COMMON_HH
#define VF_COMMON_HH
#include <array>
#include <cmath>
#include <string>
#include <vector>
#include <variant>
#include <stdexcept>
#include "vf.hh"
#include <frackit/common/math.hh>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>

namespace vf {
using namespace Frackit;
using P3 = Point<double, 3>;
using V3 = Vector<double, 3>;
using D3 = Direction<double, 3>;
using P2 = Point<double, 2>;
using V2 = Vector<double, 2>;
using D2 = Direction<double, 2>;
using P1 = Point<double, 1>;
using V1 = Vector<double, 1>;
using D1 = Direction<double, 1>;

template<class... B> inline bool all(bool a, B... b)
{ if constexpr (sizeof...(b) == 0) return a; else return vf_and(a, all(b...)); }
template<class... B> inline bool any(bool a, B... b)
{ if constexpr (sizeof...(b) == 0) return a; else return vf_or(a, any(b...)); }

// ---- ghost vectors: plain triples of reals, independent of the library
struct R3 { double x, y, z; };
inline R3 r3(double x, double y, double z) { return R3{x, y, z}; }
template<class T> inline R3 r3(const T& t) { return R3{t.x(), t.y(), t.z()}; }
inline R3 operator+(R3 a, R3 b) { return R3{a.x + b.x, a.y + b.y, a.z + b.z}; }
inline R3 operator-(R3 a, R3 b) { return R3{a.x - b.x, a.y - b.y, a.z - b.z}; }
inline R3 operator*(double s, R3 b) { return R3{s*b.x, s*b.y, s*b.z}; }
inline double dot(R3 a, R3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline double norm2(R3 a) { return dot(a, a); }
inline double norm(R3 a) { return std::sqrt(norm2(a)); }
inline R3 cross(R3 a, R3 b) { return R3{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
inline bool same(R3 a, R3 b) { return all(vf_eq(a.x, b.x), vf_eq(a.y, b.y), vf_eq(a.z, b.z)); }
inline bool zero(R3 a) { return same(a, R3{0, 0, 0}); }

inline double real(const char* n) { return vf_real(n); }
inline double positive(const char* n)
{
    if (!vf_symbolic()) return vf_native_positive(n);
    double v = vf_real(n); vf_assume(v > 0.0); return v;
}
inline double nonneg(const char* n)
{
    if (!vf_symbolic()) return vf_native_nonneg(n);
    double v = vf_real(n); vf_assume(v >= 0.0); return v;
}
inline double unit(const char* n)   // in [0,1]
{
    if (!vf_symbolic()) return vf_native_unit(n);
    double v = vf_real(n); vf_assume(v >= 0.0); vf_assume(v <= 1.0); return v;
}
// degenerate input (zero area, zero length, ...) is excluded exactly by the
// contract; concrete runs stay away from it far enough for rounding not to matter
inline void nondegenerate(double measure)
{ vf_assume(vf_symbolic() ? measure > 0.0 : measure > 1e-3); }
inline void nonzero(double measure)
{ if (vf_symbolic()) vf_assume(measure != 0.0); else vf_assume(measure > 1e-3 || measure < -1e-3); }

inline P3 point(const char* n)
{ std::string s(n); double x = vf_real(n); double y = vf_real(n); double z = vf_real(n); return P3(x, y, z); }
inline V3 vec(const char* n)
{ double x = vf_real(n); double y = vf_real(n); double z = vf_real(n); return V3(x, y, z); }

// a direction object with exactly these coordinates
inline D3 exact_direction(R3 v)
{
    if (!vf_symbolic()) return D3(V3(v.x, v.y, v.z));
    D3 d(V3(1.0, 0.0, 0.0));
    vf_put_double(&d, sizeof(d), 0, v.x);
    vf_put_double(&d, sizeof(d), 1, v.y);
    vf_put_double(&d, sizeof(d), 2, v.z);
    return d;
}
// an arbitrary direction: any object of the class satisfying its invariant |d| = 1
inline D3 direction(const char* n)
{
    double x = vf_real(n), y = vf_real(n), z = vf_real(n);
    if (!vf_symbolic()) { vf_assume(x*x + y*y + z*z > 1e-3); return D3(V3(x, y, z)); }
    const D3 d = exact_direction(R3{x, y, z});
    vf_assume(x*x + y*y + z*z == 1.0);
    return d;
}

// a direction orthogonal to another one
inline D3 direction_orth(const char* n, const D3& o)
{
    if (!vf_symbolic())
    {
        double x = vf_real(n), y = vf_real(n), z = vf_real(n);
        V3 v(x, y, z); V3 ov(o);
        V3 p = v - V3(o.x()*(v*ov), o.y()*(v*ov), o.z()*(v*ov));
        vf_assume(p.length() > 1e-3);
        return D3(p);
    }
    D3 d = direction(n);
    vf_assume(d.x()*o.x() + d.y()*o.y() + d.z()*o.z() == 0.0);
    return d;
}
} // namespace vf
#endif
