//@ text
// C14: constraints between entities known through pointers to the abstract base class
#include "common.hh"
#include <iostream>
#include <cstddef>
#include <memory>
#include <frackit/common/id.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/box.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/distance/distance.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/geometryutilities/assign.hh>
using namespace vf;
using Dk = Disk<double>; using Qu = Quadrilateral<double, 3>;

namespace ghost {
double mark(const Dk& d) { return d.center().z(); }
double mark(const Qu& q) { return q.corner(0).z(); }
int kind(const Dk&) { return 1; }
int kind(const Qu&) { return 2; }
int calls; int ik1, ik2; double im1, im2;
template<class A, class B> void seen(const A& a, const B& b) { ++calls; ik1 = kind(a); ik2 = kind(b); im1 = mark(a); im2 = mark(b); }
double sym_dist(int k, double x, int l, double y) { return vf_uf3("d", x + y, k*x + l*y, k*l); }      // symmetric
template<class A, class B> double dist(const A& a, const B& b) { return sym_dist(kind(a), mark(a), kind(b), mark(b)); }
struct AngleEngine { template<class A, class B, class I> double operator() (const A&, const B&, const I&) const { return 0.0; } };
using Con = EntityNetworkConstraints<double, AngleEngine>;
using DD = Intersection<Dk, Dk>; using DQ = Intersection<Dk, Qu>; using QD = Intersection<Qu, Dk>; using QQ = Intersection<Qu, Qu>;
}

using namespace ghost;
//@ stub b_dd : auto Frackit::intersect<Frackit::Disk<double>, Frackit::Disk<double> ?>\(
extern "C" void b_dd(DD* r, const Dk& a, const Dk& b) { seen(a, b); new (r) DD(EmptyIntersection<3>()); }
//@ stub b_dq : auto Frackit::intersect<Frackit::Disk<double>, Frackit::Quadrilateral<double, 3> ?>\(
extern "C" void b_dq(DQ* r, const Dk& a, const Qu& b) { seen(a, b); new (r) DQ(EmptyIntersection<3>()); }
//@ stub b_qd : auto Frackit::intersect<Frackit::Quadrilateral<double, 3>, Frackit::Disk<double> ?>\(
extern "C" void b_qd(QD* r, const Qu& a, const Dk& b) { seen(a, b); new (r) QD(EmptyIntersection<3>()); }
//@ stub b_qq : auto Frackit::intersect<Frackit::Quadrilateral<double, 3>, Frackit::Quadrilateral<double, 3> ?>\(
extern "C" void b_qq(QQ* r, const Qu& a, const Qu& b) { seen(a, b); new (r) QQ(EmptyIntersection<3>()); }
//@ stub d_dd : PromotedType Frackit::computeDistance<Frackit::Disk<double>, Frackit::Disk<double> ?>\(
extern "C" double d_dd(const Dk& a, const Dk& b, double, int, int) { return dist(a, b); }
//@ stub d_dq : PromotedType Frackit::computeDistance<Frackit::Disk<double>, Frackit::Quadrilateral<double, 3> ?>\(
extern "C" double d_dq(const Dk& a, const Qu& b, double, int, int) { return dist(a, b); }
//@ stub d_qd : PromotedType Frackit::computeDistance<Frackit::Quadrilateral<double, 3>, Frackit::Disk<double> ?>\(
extern "C" double d_qd(const Qu& a, const Dk& b, double, int, int) { return dist(a, b); }
//@ stub d_qq : PromotedType Frackit::computeDistance<Frackit::Quadrilateral<double, 3>, Frackit::Quadrilateral<double, 3> ?>\(
extern "C" double d_qq(const Qu& a, const Qu& b, double, int, int) { return dist(a, b); }

namespace ghost {
struct Entity       // an entity, and the pointer to its base class it is handed over by
{
    int k; std::shared_ptr<Dk> d; std::shared_ptr<Qu> q;
    Entity(int kind_, double x) : k(kind_)
    {
        if (k == 1) d = std::make_shared<Dk>(P3(0.0, 0.0, x), D3(V3(1.0, 0.0, 0.0)), D3(V3(0.0, 1.0, 0.0)), 1.0, 1.0);
        else q = std::make_shared<Qu>(P3(0.0, 0.0, x), P3(1.0, 0.0, x), P3(0.0, 1.0, x), P3(1.0, 1.0, x));
    }
    std::shared_ptr<Geometry> base() const { if (k == 1) return d; return q; }
    double mark() const { return k == 1 ? ghost::mark(*d) : ghost::mark(*q); }
};
double dist(const Entity& a, const Entity& b)
{
    if (!vf_symbolic())
    {
        if (a.k == 1) return b.k == 1 ? computeDistance(*a.d, *b.d) : computeDistance(*a.d, *b.q);
        return b.k == 1 ? computeDistance(*a.q, *b.d) : computeDistance(*a.q, *b.q);
    }
    return sym_dist(a.k, a.mark(), b.k, b.mark());
}
bool considered(const Entity& a, const Entity& b)
{
    if (!vf_symbolic()) return true;        // recorded by the contracts of intersect()
    const bool ab = all(ik1 == a.k, ik2 == b.k, vf_eq(im1, a.mark()), vf_eq(im2, b.mark()));
    const bool ba = all(ik1 == b.k, ik2 == a.k, vf_eq(im1, b.mark()), vf_eq(im2, a.mark()));
    return vf_and(calls == 1, vf_or(ab, ba));
}
}
//@ harness evaluate_base property=C14 merge=0 runs=30 stubs=b_dd,b_dq,b_qd,b_qq,d_dd,d_dq,d_qd,d_qq
extern "C" void evaluate_base()
{
    calls = 0;
    Con c{AngleEngine()};
    const double m = real("m");
    c.setMinDistance(m);
    const double x = real("x"), y = real("y");
    vf_assume(x != y);
    const Entity a(vf_choose("ka", 1, 3), x), b(vf_choose("kb", 1, 3), y);
    const int how = vf_choose("how", 0, 4);
    bool r = false;
    if (how == 0) r = c.evaluate(a.base(), b.base());
    else if (how == 1) r = b.k == 1 ? c.evaluate(a.base(), *b.d) : c.evaluate(a.base(), *b.q);
    else if (how == 2) r = a.k == 1 ? c.evaluate(*a.d, b.base()) : c.evaluate(*a.q, b.base());
    else r = c.evaluate(std::vector<std::shared_ptr<Geometry>>{a.base()}, b.base());
    vf_assert("the-entities-pointed-to", considered(a, b));
    vf_assert("iff-far-enough", vf_iff(r, dist(a, b) >= m));
}

//@ harness evaluate_unknown property=C14 merge=0 throws=1
extern "C" void evaluate_unknown()
{
    Con c{AngleEngine()};
    c.setMinDistance(real("m"));
    const std::shared_ptr<Geometry> box = std::make_shared<Box<double>>(0.0, 0.0, 0.0, 1.0, 1.0, 1.0);
    const Entity a(1, 0.0);
    bool thrown = false;
    try { c.evaluate(box, a.base()); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("unsupported-geometry-is-rejected", thrown);
}

// ---- assign(): the geometry pointed to, if it is of the type asked for
//@ harness assign_base property=C18 merge=0 runs=200
extern "C" void assign_base()
{
    const double x = real("x"), y = real("y");
    vf_assume(x != y);
    const Entity a(vf_choose("ka", 1, 3), x);
    Entity b(vf_choose("kb", 1, 3), y);
    const int how = vf_choose("how", 0, 2);
    const std::shared_ptr<Geometry> p = a.base();
    bool r;
    if (b.k == 1) r = how ? assign(p, *b.d) : assign(p.get(), *b.d);
    else r = how ? assign(p, *b.q) : assign(p.get(), *b.q);
    vf_assert("iff-of-this-type", r == (a.k == b.k));
    vf_assert("the-geometry-pointed-to-or-unchanged", vf_eq(b.mark(), a.k == b.k ? x : y));
    vf_assert("source-unchanged", vf_eq(a.mark(), x));
}

// an intersection edge given as a shape: decided at its two ends
#include <TopExp.hxx>
#include <TopoDS_Edge.hxx>
#include <TopoDS_Vertex.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
//@ stub tx_count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void tx_count_up(const Standard_Transient*) {}
//@ stub tx_count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int tx_count_down(const Standard_Transient*) { return 1; }
//@ stub tx_location : TopLoc_Location::TopLoc_Location\(\)
extern "C" void tx_location(TopLoc_Location* l) { *reinterpret_cast<void**>(l) = nullptr; }
//@ stub tx_location_clear : TopLoc_SListOfItemLocation::Clear\(\)
extern "C" void tx_location_clear(TopLoc_SListOfItemLocation*) {}
//@ stub tx_begin : opencascade::handle<.*>::BeginScope\(\)
extern "C" void tx_begin(void*) {}
//@ stub tx_end : opencascade::handle<.*>::EndScope\(\)
extern "C" void tx_end(void** h) { *h = nullptr; }
//@ stub tx_first : TopExp::FirstVertex\(
extern "C" void tx_first(TopoDS_Vertex* v, const TopoDS_Edge&, bool) { new (v) TopoDS_Vertex(); v->Orientation(TopAbs_FORWARD); }
//@ stub tx_last : TopExp::LastVertex\(
extern "C" void tx_last(TopoDS_Vertex* v, const TopoDS_Edge&, bool) { new (v) TopoDS_Vertex(); v->Orientation(TopAbs_REVERSED); }
namespace ghost {
const P3* ends[2];
double hash(R3 p) { return vf_uf3("h", p.x, p.y, p.z); }
double boundary(const P3& p, int e) { return vf_uf3("bd", hash(r3(p)), e, 0.0); }
bool on_boundary(const P3& p, int e) { return vf_uf3("on", hash(r3(p)), e, 0.0) > 0.0; }
struct Body
{
    using ctype = double;
    int id;
    friend double computeDistanceToBoundary(const P3& p, const Body& e) { return boundary(p, e.id); }
    friend bool pointOnGeometryBoundary(const P3& p, const Body& e) { return on_boundary(p, e.id); }
};
}
//@ stub tx_point : Frackit::OCCUtilities::point\(TopoDS_Vertex const&\)
extern "C" void tx_point(P3* p, const TopoDS_Vertex& v) { new (p) P3(*ends[v.Orientation() == TopAbs_FORWARD ? 0 : 1]); }
//@ harness edge_boundary property=C14 stubs=tx_count_up,tx_count_down,tx_location,tx_location_clear,tx_begin,tx_end,tx_first,tx_last,tx_point
extern "C" void edge_boundary()
{
    const P3 p = point("p"), q = point("q");
    const double min = real("min");
    ends[0] = &p; ends[1] = &q;
    TopoDS_Edge edge;
    if (!vf_symbolic())
    {
        vf_assume(norm(r3(p) - r3(q)) > 1e-3);
        edge = BRepBuilderAPI_MakeEdge(gp_Pnt(p.x(), p.y(), p.z()), gp_Pnt(q.x(), q.y(), q.z()));
    }
    const bool r = ConstraintImpl::isAdmissibleDistanceToBoundary(edge, Body{1}, min);
    const bool a = vf_or(on_boundary(p, 1), boundary(p, 1) >= min), b = vf_or(on_boundary(q, 1), boundary(q, 1) >= min);
    vf_assert("both-ends", vf_iff(r, vf_and(a, b)));
}
