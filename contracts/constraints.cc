// C14 constraint evaluation, C15 constraint matrices.  The library's templates are
// verified for an entity type whose operations (intersection, distances, angles) are
// arbitrary functions: the contracts of the geometry the constraints are evaluated on.
#include "common.hh"
#include "elliptic.hh"
#include <algorithm>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/distance/distancetoboundary.hh>
using namespace vf;
using S3 = Segment<double, 3>;
using El = Ellipse<double, 3>;
using Arc = EllipseArc<double, 3>;

namespace ghost {
double hash(R3 p) { return vf_uf3("h", p.x, p.y, p.z); }

struct Patch        // a two-dimensional intersection
{
    using ctype = double;
    static constexpr int myDimension() { return 2; }
    static constexpr int worldDimension() { return 3; }
    double tag;
};
double computeArea(const Patch& p) { const double a = vf_uf3("area", p.tag, 0.0, 0.0); return a; }

using Empty = EmptyIntersection<3>;
using Piece = std::variant<Empty, P3, S3, Patch>;

// ---- the operations on entities
const Piece* single;              // the intersection of the pair under consideration
const std::vector<Piece>* several;
bool eps_given; double eps_value; int intersections, wrong_args;
int ent1, ent2;

bool is_pair(int a, int b) { return (a == ent1 && b == ent2) || (a == ent2 && b == ent1); }
double distance(int a, int b) { return vf_uf3("d", a + b, a*b, 0.0); }
double angle() { return vf_uf3("angle", 1.0, 2.0, 3.0); }
double boundary(const P3& p, int e) { return vf_uf3("bd", hash(r3(p)), e, 0.0); }
bool on_boundary(const P3& p, int e) { return vf_uf3("on", hash(r3(p)), e, 0.0) > 0.0; }

// a two-dimensional entity in space, identified by a number; K selects whether pairs
// intersect in one piece or in several
template<int K> struct EntityT
{
    using ctype = double;
    static constexpr int myDimension() { return 2; }
    static constexpr int worldDimension() { return 3; }
    int id;
    friend double computeDistance(const EntityT& a, const EntityT& b) { return distance(a.id, b.id); }
    friend double computeDistanceToBoundary(const P3& p, const EntityT& e) { return boundary(p, e.id); }
    friend bool pointOnGeometryBoundary(const P3& p, const EntityT& e) { return on_boundary(p, e.id); }
    friend bool isAdmissibleDistanceToBoundary(const Patch& p, const EntityT& e, double thr) { return vf_uf3("pbd", p.tag, e.id, 0.0) >= thr; }
    friend auto intersect(const EntityT& a, const EntityT& b)
    {
        ++intersections;
        if (!is_pair(a.id, b.id)) ++wrong_args;
        if constexpr (K == 0) return *single; else return *several;
    }
    friend auto intersect(const EntityT& a, const EntityT& b, double e) { eps_given = true; eps_value = e; return intersect(a, b); }
};
using EntityS = EntityT<0>;
using EntityV = EntityT<1>;

struct AngleEngine
{
    template<class E, class Is> double operator() (const E& a, const E& b, const Is&) const
    { if (!is_pair(a.id, b.id)) ++wrong_args; return angle(); }
};

// ---- the specification of one piece
bool spec_empty(const Piece& p) { return p.index() == 0; }
int spec_dim(const Piece& p) { return p.index() < 2 ? 0 : p.index() == 2 ? 1 : 2; }
bool spec_magnitude(const Piece& p, double min)
{
    if (p.index() < 2) return true;
    if (p.index() == 2) { const S3& s = std::get<2>(p); return norm(r3(s.target()) - r3(s.source())) >= min; }
    return computeArea(std::get<3>(p)) >= min;
}
bool spec_boundary_point(const P3& p, int e, double min) { return vf_or(on_boundary(p, e), boundary(p, e) >= min); }
bool spec_boundary(const Piece& p, int e, double min)
{
    if (p.index() == 0) return true;
    if (p.index() == 1) return spec_boundary_point(std::get<1>(p), e, min);
    if (p.index() == 2) return vf_and(spec_boundary_point(std::get<2>(p).source(), e, min), spec_boundary_point(std::get<2>(p).target(), e, min));
    return vf_uf3("pbd", std::get<3>(p).tag, e, 0.0) >= min;
}
Piece piece(const char* n)
{
    const int kind = vf_choose(n, 0, 4);
    if (kind == 0) return Piece(Empty());
    if (kind == 1) return Piece(point("p"));
    if (kind == 2) return Piece(S3(point("s"), point("t")));
    Patch q; q.tag = real("tag");
    return Piece(q);
}
} // namespace ghost
using namespace ghost;

namespace ghost {
using Con = EntityNetworkConstraints<double, AngleEngine>;
struct Setting
{
    bool useDist, useAngle, useMag, useIs, equi, useEps;
    double dist, ang, mag, is, eps;
    Con c;
    Setting() : c(AngleEngine())
    {
        useDist = vf_bool("useDist"); useAngle = vf_bool("useAngle"); useMag = vf_bool("useMag");
        useIs = vf_bool("useIs"); equi = vf_bool("equi"); useEps = vf_bool("useEps");
        dist = real("dist"); ang = real("ang"); mag = real("mag"); is = real("is"); eps = positive("eps");
        // set in any order of set/neglect: neglected constraints were active before
        c.setMinDistance(dist); c.setMinIntersectingAngle(ang); c.setMinIntersectionMagnitude(mag);
        c.setMinIntersectionDistance(is); c.setIntersectionEpsilon(eps);
        noDist(!useDist); noAngle(!useAngle); noMag(!useMag); noIs(!useIs); noEps(!useEps);
        c.allowEquiDimensionalIntersections(equi);
    }
    void noDist(bool b) { if (b) c.neglectMinDistance(); }
    void noAngle(bool b) { if (b) c.neglectMinIntersectionAngle(); }
    void noMag(bool b) { if (b) c.neglectMinIntersectionMagnitude(); }
    void noIs(bool b) { if (b) c.neglectMinIntersectionDistance(); }
    void noEps(bool b) { if (b) c.setDefaultIntersectionEpsilon(); }
    bool active() const { return vf_or(vf_or(useDist, useAngle), vf_or(useMag, useIs)); }
    // what evaluate() has to return for the pieces p[0..n)
    bool spec(const Piece* p, int n) const
    {
        bool empty = true, dim = true, mg = true, bd = true;
        for (int i = 0; i < n; ++i)
        {
            empty = empty && spec_empty(p[i]);
            dim = dim && spec_dim(p[i]) <= 1;
            mg = vf_and(mg, spec_magnitude(p[i], mag));
            bd = vf_and(bd, vf_and(spec_boundary(p[i], ent1, is), spec_boundary(p[i], ent2, is)));
        }
        const bool apart = vf_imp(useDist, distance(ent1, ent2) >= dist);
        const bool meet = all(vf_or(equi, dim), vf_imp(useMag, mg), vf_imp(useAngle, angle() >= ang), vf_imp(useIs, bd));
        return vf_or(vf_not(active()), empty ? apart : meet);
    }
};
void start() { ent1 = 1; ent2 = 2; intersections = 0; wrong_args = 0; eps_given = false; eps_value = 0.0; }
}

//@ harness evaluate_pair property=C14
extern "C" void evaluate_pair()
{
    start();
    const Setting S;
    const Piece p = piece("kind");
    single = &p;
    const EntityS a{ent1}, b{ent2};
    const bool r = S.c.evaluate(a, b);
    vf_assert("iff-constraints-hold", vf_iff(r, S.spec(&p, 1)));
    vf_assert("pair-considered", wrong_args == 0);
    vf_assert("epsilon-used-iff-set", vf_imp(vf_and(S.active(), intersections > 0), vf_and(vf_iff(eps_given, S.useEps), vf_imp(S.useEps, vf_eq(eps_value, S.eps)))));
}
//@ harness evaluate_pair_several property=C14 bound="at most 2 intersection pieces per pair"
extern "C" void evaluate_pair_several()
{
    start();
    const Setting S;
    const int n = vf_choose("n", 0, 3);
    Piece p[2];
    std::vector<Piece> v;
    for (int i = 0; i < n; ++i) { p[i] = piece("kind"); v.push_back(p[i]); }
    several = &v;
    const EntityV a{ent1}, b{ent2};
    const bool r = S.c.evaluate(a, b);
    vf_assert("iff-constraints-hold", vf_iff(r, S.spec(p, n)));
    vf_assert("pair-considered", wrong_args == 0);
}
//@ harness constraints_default property=C14
extern "C" void constraints_default()
{
    start();
    const Con c{AngleEngine()};
    const Piece p = piece("kind");
    single = &p;
    vf_assert("nothing-required-by-default", c.evaluate(EntityS{ent1}, EntityS{ent2}));
    Con d{AngleEngine()};
    const double m = real("m");
    d.setMinDistance(m);
    // intersecting pairs: equi-dimensional intersections are not admissible per default
    const bool r = d.evaluate(EntityS{ent1}, EntityS{ent2});
    vf_assert("distance-and-dimension", vf_iff(r, spec_empty(p) ? distance(ent1, ent2) >= m : spec_dim(p) <= 1));
    vf_assert("default-tolerance", !eps_given);
}
// disjoint entities: a pair is admissible iff far enough apart
namespace ghost {
struct Sets
{
    Con c; double min; Piece none;
    Sets() : c(AngleEngine()), none(Empty()) { start(); min = real("min"); c.setMinDistance(min); single = &none; }
    bool ok(int a, int b) const { return distance(a, b) >= min; }
};
}
//@ harness evaluate_set property=C14 bound="sets of at most 3 entities"
extern "C" void evaluate_set()
{
    const Sets S;
    const int n = vf_choose("n", 0, 4);
    std::vector<EntityS> v;
    bool all_ok = true;
    for (int i = 0; i < n; ++i) { v.push_back(EntityS{10 + i}); all_ok = vf_and(all_ok, S.ok(10 + i, 1)); }
    vf_assert("set-against-entity", vf_iff(S.c.evaluate(v, EntityS{1}), all_ok));
    vf_assert("entity-against-set", vf_iff(S.c.evaluate(EntityS{1}, v), all_ok));
}
//@ harness evaluate_sets property=C14 bound="sets of at most 2 entities"
extern "C" void evaluate_sets()
{
    const Sets S;
    const int n = vf_choose("n", 0, 3), m = vf_choose("m", 0, 3);
    std::vector<EntityS> v, w;
    bool all_ok = true;
    for (int i = 0; i < n; ++i) v.push_back(EntityS{10 + i});
    for (int k = 0; k < m; ++k) w.push_back(EntityS{20 + k});
    for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) all_ok = vf_and(all_ok, S.ok(10 + i, 20 + k));
    vf_assert("set-against-set", vf_iff(S.c.evaluate(v, w), all_ok));
}
// ---- the building blocks on the library's own intersection types
namespace ghost {
double frac(double t) { return t - std::floor(t); }
R3 arc_point(double t) { return r3(vf_uf3("ax", t, 0, 0), vf_uf3("ay", t, 0, 0), vf_uf3("az", t, 0, 0)); }
}
//@ stub arc_get_point : Frackit::EllipseArc<double, 3>::getPoint\(double\) const
extern "C" void arc_get_point(P3* out, const Arc*, double t) { const R3 q = arc_point(t); new (out) P3(q.x, q.y, q.z); }
//@ harness arc_boundary property=C14 stubs=arc_get_point
extern "C" void arc_boundary()
{
    start();
    const El full(P3(0.0, 0.0, 0.0), D3(V3(1.0, 0.0, 0.0)), D3(V3(0.0, 1.0, 0.0)), 2.0, 1.0);
    const double t0 = vf_symbolic() ? 0.0 : frac(real("t0")), t1 = vf_symbolic() ? 0.0 : frac(t0 + 0.02 + 0.9*frac(real("dt")));
    const Arc a(full, vf_symbolic() ? P3(2.0, 0.0, 0.0) : full.getPoint(t0),
                      vf_symbolic() ? P3(0.0, 1.0, 0.0) : full.getPoint(t1));
    if (vf_symbolic()) vf_havoc_doubles(const_cast<Arc*>(&a), sizeof(Arc));      // any arc
    const double min = real("min");
    const EntityS e{1};
    const bool r = ConstraintImpl::isAdmissibleDistanceToBoundary(a, e, min);
    const bool so = on_boundary(a.source(), 1), to = on_boundary(a.target(), 1);
    const bool sfar = boundary(a.source(), 1) >= min, tfar = boundary(a.target(), 1) >= min;
    bool inner = true;
    for (int i = 0; i <= 4; ++i) inner = vf_and(inner, boundary(a.getPoint(0.25*i), 1) >= min);
    vf_assert("ends-touching-the-boundary", vf_imp(vf_or(so, to), vf_iff(r, vf_and(vf_or(so, sfar), vf_or(to, tfar)))));
    vf_assert("points-along-the-arc", vf_imp(vf_and(vf_not(so), vf_not(to)), vf_iff(r, inner)));
}
