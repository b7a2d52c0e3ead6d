// C22 entity networks: what the builders make of entities and sub-domains
#include <algorithm>
#include <array>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <fstream>
#include <unordered_map>
#include <vector>
#include "common.hh"
#include <TopTools_DataMapOfShapeInteger.hxx>
#include <TopTools_DataMapIteratorOfDataMapOfShapeInteger.hxx>
#include <TopTools_ListOfShape.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
#include <BRepAlgoAPI_Common.hxx>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
#include <BRepBuilderAPI_Command.hxx>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/occ/breputilities.hh>
#define private public
#define protected public
#include <frackit/entitynetwork/networkbuilder.hh>
#undef private
#undef protected
using namespace vf;
using Q3 = Quadrilateral<double, 3>;
using S3 = Segment<double, 3>;
using Bx = Box<double>;
using Base = EntityNetworkBuilderBase<double>;
using Free = EntityNetworkBuilder<double>;
using Contained = ContainedEntityNetworkBuilder<double>;
using List = TopTools_ListOfShape;
using Map = TopTools_DataMapOfShapeInteger;

// ---- the proof side: shapes are numbers, boolean operations are their history
namespace ghost {
constexpr int N = 72;
const int* tag(int k)
{
    static const int t[N] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,
                             36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71};
    return &t[k];
}
struct Raw { const void* ghost; void* location; int orientation; };
static_assert(sizeof(Raw) == sizeof(TopoDS_Shape), "");
void shape(TopoDS_Shape* out, int k) { new (static_cast<void*>(out)) Raw{tag(k), nullptr, 0}; }
int which(const TopoDS_Shape& s) { return **reinterpret_cast<const int* const*>(&s); }
TopoDS_Shape make(int k) { TopoDS_Shape s; shape(&s, k); return s; }
// shapes: entities 1..4, sub-domains 5, 6, their union 7, pieces that belong to several shapes, edges in which shapes meet
enum { entity = 1, domain = 5, unite = 7, shared = 70, meeting = 71 };
enum Outcome { deleted, kept, modified, split, met, overlapping };
struct History { int outcome[N]; int arguments[8]; int numArguments; int tools[4]; int numTools; bool built; double fuzzy; int tool[N]; };
History confining, fragmenting;
History* now;
List answer[2];
// the pieces a shape is turned into by an operation
int piece(const History* h, int s, int k) { return h == &confining ? 10 + 2*s + k : 24 + 2*s + k; }
void pieces(const History* h, int s, int* out, int& n)
{
    n = 0;
    const int o = h->outcome[s];
    if (o == kept || o == met) out[n++] = s;
    if (o == modified || o == split || o == overlapping) out[n++] = piece(h, s, 0);
    if (o == split) out[n++] = piece(h, s, 1);
    if (o == overlapping) out[n++] = shared;
}
void begin(History* h) { now = h; h->numArguments = h->numTools = 0; h->built = false; h->fuzzy = 0.0; }
}
using namespace ghost;
namespace ghost {
struct Allocator : NCollection_BaseAllocator
{
    void* Allocate(const size_t n) override { return ::operator new(n); }
    void Free(void*) override {}
};
Handle(NCollection_BaseAllocator)* the_allocator;
}
//@ stub count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void count_up(const Standard_Transient*) {}
//@ stub count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int count_down(const Standard_Transient*) { return 1; }
//@ stub location : TopLoc_Location::TopLoc_Location\(\)
extern "C" void location(TopLoc_Location* l) { *reinterpret_cast<void**>(l) = nullptr; }
//@ stub location_assign : TopLoc_SListOfItemLocation::Assign\(.*
extern "C" TopLoc_SListOfItemLocation& location_assign(TopLoc_SListOfItemLocation* a, const TopLoc_SListOfItemLocation&) { return *a; }
//@ stub location_clear : TopLoc_SListOfItemLocation::Clear\(\)
extern "C" void location_clear(TopLoc_SListOfItemLocation*) {}
//@ stub handle_begin : opencascade::handle<.*>::BeginScope\(\)
extern "C" void handle_begin(void*) {}
//@ stub handle_end : opencascade::handle<.*>::EndScope\(\)
extern "C" void handle_end(void** h) { *h = nullptr; }
//@ stub location_equal : TopLoc_Location::IsEqual\(.*
extern "C" bool location_equal(const TopLoc_Location*, const TopLoc_Location&) { return true; }
//@ stub failure : Standard_Failure::Standard_Failure\(char const\*\)
extern "C" void failure(Standard_Failure*, const char*) {}
//@ stub allocator : NCollection_BaseAllocator::CommonBaseAllocator\(\)
extern "C" const Handle(NCollection_BaseAllocator)& allocator()
{
    if (!the_allocator) the_allocator = new Handle(NCollection_BaseAllocator)(new Allocator());
    return *the_allocator;
}
//@ stub standard_allocate : Standard::Allocate\(unsigned long\)
extern "C" void* standard_allocate(unsigned long n) { return ::operator new(n); }
//@ stub standard_free : Standard::Free\(void\*\)
extern "C" void standard_free(void*) {}
// containers: what the out-of-line parts of OpenCASCADE's list and map do
namespace ghost {
struct RawList { void* table; void* allocator; NCollection_ListNode *first, *last; int length; };
struct RawMap { void* table; void* allocator; NCollection_ListNode **data, **data2; int numBuckets, size; bool isDouble; };
static_assert(sizeof(RawList) == sizeof(NCollection_BaseList) && sizeof(RawMap) == sizeof(NCollection_BaseMap), "");
RawList& raw(NCollection_BaseList* l) { return *reinterpret_cast<RawList*>(l); }
constexpr int buckets = 7;
}
//@ stub list_clear : NCollection_BaseList::PClear\(.*
extern "C" void list_clear(NCollection_BaseList* l, NCollection_DelListNode) { RawList& r = raw(l); r.first = r.last = nullptr; r.length = 0; }
//@ stub list_append : NCollection_BaseList::PAppend\(NCollection_ListNode\*\)
extern "C" void list_append(NCollection_BaseList* l, NCollection_ListNode* n)
{
    RawList& r = raw(l);
    n->Next() = nullptr;
    if (r.last) r.last->Next() = n; else r.first = n;
    r.last = n;
    ++r.length;
}
//@ stub list_join : NCollection_BaseList::PAppend\(NCollection_BaseList&\)
extern "C" void list_join(NCollection_BaseList* l, NCollection_BaseList& other)
{
    RawList &r = raw(l), &o = raw(&other);
    if (!o.first) return;
    if (r.last) r.last->Next() = o.first; else r.first = o.first;
    r.last = o.last;
    r.length += o.length;
    o.first = o.last = nullptr; o.length = 0;
}
//@ stub map_begin_resize : NCollection_BaseMap::BeginResize\(.*
extern "C" bool map_begin_resize(const NCollection_BaseMap* map, int, int& n, NCollection_ListNode**& a, NCollection_ListNode**& b)
{
    const RawMap& m = *reinterpret_cast<const RawMap*>(map);
    if (m.numBuckets == buckets && m.data) return false;
    n = buckets;
    a = new NCollection_ListNode*[buckets + 1];
    for (int i = 0; i <= buckets; ++i) a[i] = nullptr;
    b = nullptr;
    return true;
}
//@ stub map_end_resize : NCollection_BaseMap::EndResize\(.*
extern "C" void map_end_resize(NCollection_BaseMap* map, int, int n, NCollection_ListNode** a, NCollection_ListNode** b)
{ RawMap& m = *reinterpret_cast<RawMap*>(map); m.numBuckets = n; m.data = a; m.data2 = b; }
//@ stub map_destroy : NCollection_BaseMap::Destroy\(.*
extern "C" void map_destroy(NCollection_BaseMap* map, NCollection_DelMapNode, bool)
{ RawMap& m = *reinterpret_cast<RawMap*>(map); if (m.data) for (int i = 0; i <= m.numBuckets; ++i) m.data[i] = nullptr; m.size = 0; }
//@ stub shape_hash : TopoDS_Shape::HashCode\(int\) const
extern "C" int shape_hash(const TopoDS_Shape* s, int upper) { return which(*s) % upper + 1; }
//@ stub shape_same : TopoDS_Shape::IsSame\(TopoDS_Shape const&\) const
extern "C" bool shape_same(const TopoDS_Shape* a, const TopoDS_Shape& b) { return which(*a) == which(b); }
namespace ghost { int registered; }
// boolean operations
//@ stub common : BRepAlgoAPI_Common::BRepAlgoAPI_Common\(\)
extern "C" void common(BRepAlgoAPI_Common*) { begin(&confining); }
//@ stub common_end : BRepAlgoAPI_Common::~BRepAlgoAPI_Common\(\)
extern "C" void common_end(BRepAlgoAPI_Common*) {}
//@ stub fragments : BRepAlgoAPI_BuilderAlgo::BRepAlgoAPI_BuilderAlgo\(\)
extern "C" void fragments(BRepAlgoAPI_BuilderAlgo*) { begin(&fragmenting); }
//@ stub fragments_end : BRepAlgoAPI_BuilderAlgo::~BRepAlgoAPI_BuilderAlgo\(\)
extern "C" void fragments_end(BRepAlgoAPI_BuilderAlgo*) {}
//@ stub op_arguments : BRepAlgoAPI_BuilderAlgo::SetArguments\(.*
extern "C" void op_arguments(BRepAlgoAPI_BuilderAlgo*, const List& l) { now->numArguments = 0; for (const auto& s : l) now->arguments[now->numArguments++] = which(s); }
//@ stub op_tools : BRepAlgoAPI_BooleanOperation::SetTools\(.*
extern "C" void op_tools(BRepAlgoAPI_BooleanOperation*, const List& l) { now->numTools = 0; for (const auto& s : l) now->tools[now->numTools++] = which(s); }
//@ stub op_fuzzy : BOPAlgo_Options::SetFuzzyValue\(double\)
extern "C" void op_fuzzy(BOPAlgo_Options*, double e) { now->fuzzy = e; }
//@ stub op_parallel : BOPAlgo_Options::SetRunParallel\(bool\)
extern "C" void op_parallel(BOPAlgo_Options*, bool) {}
namespace ghost { bool knows(const History* h, int s) { for (int i = 0; i < h->numArguments; ++i) if (h->arguments[i] == s) return true; return false; } }
//@ stub op_build : BRepAlgoAPI_(BuilderAlgo|BooleanOperation)::Build\(.*
extern "C" void op_build(BRepAlgoAPI_BuilderAlgo*, const Message_ProgressRange&) { now->built = true; for (int i = 0; i < now->numArguments; ++i) now->tool[now->arguments[i]] = now->numTools == 1 ? now->tools[0] : -1; }
//@ stub op_done : BRepBuilderAPI_Command::IsDone\(\) const
extern "C" bool op_done(const BRepBuilderAPI_Command*) { return now->built && (now == &confining ? now->numArguments > 0 && now->numTools > 0 : now->numArguments > 1); }
//@ stub op_deleted : BRepAlgoAPI_BuilderAlgo::IsDeleted\(.*
extern "C" bool op_deleted(BRepAlgoAPI_BuilderAlgo*, const TopoDS_Shape& s) { vf_lemma("an-argument", knows(now, which(s))); return now->outcome[which(s)] == deleted; }
//@ stub op_modified : BRepAlgoAPI_BuilderAlgo::Modified\(.*
extern "C" const List& op_modified(BRepAlgoAPI_BuilderAlgo*, const TopoDS_Shape& s)
{
    vf_lemma("an-argument", knows(now, which(s)));
    const int k = which(s), o = now->outcome[k];
    List* l = new List();
    if (o == modified || o == split || o == overlapping) l->Append(make(piece(now, k, 0)));
    if (o == split) l->Append(make(piece(now, k, 1)));
    if (o == overlapping) l->Append(make(shared));
    return *l;
}
//@ stub op_generated : BRepAlgoAPI_BuilderAlgo::Generated\(.*
extern "C" const List& op_generated(BRepAlgoAPI_BuilderAlgo*, const TopoDS_Shape& s)
{
    List* l = new List();
    if (now->outcome[which(s)] == met || now->outcome[which(s)] == split) l->Append(make(meeting));
    return *l;
}
//@ stub shape_type : TopoDS_Shape::ShapeType\(\) const
extern "C" int shape_type(const TopoDS_Shape* s)
{
    const int k = which(*s);
    if (k == meeting) return TopAbs_EDGE;
    return k == unite || k == domain || k == domain + 1 || (k >= piece(&fragmenting, domain, 0) && k <= piece(&fragmenting, domain + 1, 1)) ? TopAbs_SOLID : TopAbs_FACE;
}
//@ stub progress : Message_ProgressRange::.*
extern "C" void progress(Message_ProgressRange*) {}
//@ stub shape_fuse : TopoDS_Shape Frackit::OCCUtilities::fuse<double>\(.*
extern "C" void shape_fuse(TopoDS_Shape* out, const std::vector<TopoDS_Shape>& l, double)
{
    vf_lemma("both-sub-domains", l.size() == 2 && ((which(l[0]) == domain && which(l[1]) == domain + 1) || (which(l[1]) == domain && which(l[0]) == domain + 1)));
    shape(out, unite);
}
//@ stub shape_of_box : OCCUtilities::getShape<double>\(Frackit::Box.*
extern "C" void shape_of_box(TopoDS_Shape* out, const Bx&) { shape(out, ++registered); }
//@ stub shape_of_quad : OCCUtilities::getShape<double>\(Frackit::Quadrilateral.*
extern "C" void shape_of_quad(TopoDS_Shape* out, const Q3&) { shape(out, ++registered); }
//@ stub shape_of_segment : OCCUtilities::getShape<double, ?3>\(Frackit::Segment.*
extern "C" void shape_of_segment(TopoDS_Shape* out, const S3&) { shape(out, ++registered); }
//@ stub shape_eps : .*defaultEpsilon.*TopoDS_Shape.*
extern "C" double shape_eps(const TopoDS_Shape& s) { const double e = vf_uf3("eps", which(s), 0.0, 0.0); vf_assume(e > 0.0 && e < 1e10); return e; }

namespace ghost {
// any registered entities and sub-domains: network j has numEntities[j] entities, those of network 0 come first
struct Setup { int num[2]; bool has[2], bounds[2], uni; };
int first(const Setup& s, int j) { return j == 0 ? entity : entity + s.num[0]; }
void fill(Base& b, const Setup& s)
{
    for (int j = 0; j < 2; ++j)
    {
        if (s.has[j]) { b.subDomains_[j] = make(domain + j); b.subDomainBoundsNetwork_[j] = s.bounds[j]; }
        for (int i = 0; i < s.num[j]; ++i) b.networks_[j].Append(make(first(s, j) + i));
    }
    b.confineToSubDomainUnion_ = s.uni;
    b.entityDimension_ = 2; b.domainDimension_ = 3;
    b.setEpsilon(1e-3);
}
bool holds(const List& l, const int* want, int n)
{
    if (l.Extent() != n) return false;
    for (int i = 0; i < n; ++i)
    {
        int c = 0;
        for (const auto& s : l) if (which(s) == want[i]) ++c;
        if (c != 1) return false;
    }
    return true;
}
bool maps(const Map& m, const int* key, const int* value, int n)
{
    if (m.Extent() != n) return false;
    for (int i = 0; i < n; ++i) { int v = -1; if (!m.Find(make(key[i]), v) || v != value[i]) return false; }
    return true;
}
}

// ---- the concrete side: horizontal and vertical rectangles in two boxes, what becomes of them is known
namespace ghost {
struct Report { bool covered, disjoint, owned, confined, domains, repeated, dimension; };
#ifdef VF_NATIVE
struct Rect { int net; bool horizontal; double at, x0, x1, y0, y1; };     // z = at, x0..x1, y0..y1; or x = at, z in x0..x1
Q3 quad(const Rect& r)
{
    if (r.horizontal) return Q3(P3(r.x0, r.y0, r.at), P3(r.x1, r.y0, r.at), P3(r.x0, r.y1, r.at), P3(r.x1, r.y1, r.at));
    return Q3(P3(r.at, r.y0, r.x0), P3(r.at, r.y1, r.x0), P3(r.at, r.y0, r.x1), P3(r.at, r.y1, r.x1));
}
double unit(const char* n) { const double v = vf_real(n); return v - std::floor(v); }
Report examine();
const Report& sample_network() { static Report r; r = examine(); return r; }
struct Frag { int net, number; double x0, x1, y0, y1, z0, z1, area; };
Frag frag(const TopoDS_Shape& s, int net, int number)
{
    const auto b = OCCUtilities::getBoundingBox(s);
    return Frag{net, number, b.xMin(), b.xMax(), b.yMin(), b.yMax(), b.zMin(), b.zMax(), computeArea(TopoDS::Face(s))};
}
bool inside(const Frag& f, const Rect& r)
{
    const double t = 1e-3;
    if (r.horizontal) return f.z0 > r.at - t && f.z1 < r.at + t && f.x0 > r.x0 - t && f.x1 < r.x1 + t && f.y0 > r.y0 - t && f.y1 < r.y1 + t;
    return f.x0 > r.at - t && f.x1 < r.at + t && f.z0 > r.x0 - t && f.z1 < r.x1 + t && f.y0 > r.y0 - t && f.y1 < r.y1 + t;
}
double overlap(double a, double b, double c, double d) { return std::max(0.0, std::min(b, d) - std::max(a, c)); }
Report examine()
{
    Report rep{true, true, true, true, true, true, true};
    const bool contained = vf_choose("contained", 0, 2), uni = vf_choose("union", 0, 2);
    bool bounds[2] = {bool(vf_choose("bounds", 0, 2)), bool(vf_choose("bounds", 0, 2))};
    const Bx box[2] = {Bx(0, 0, 0, 1, 1, 1), Bx(1, 0, 0, 2, 1, 1)};
    std::vector<Rect> rects;
    for (int j = 0; j < 2; ++j)
    {
        const int n = vf_choose("entities", 1, 4);
        for (int i = 0; i < n; ++i)
        {
            const bool h = vf_choose("horizontal", 0, 3) > 0;
            const int k = 7*j + 2*i + (h ? 0 : 1);          // distinct levels; some above the boxes
            if (h) { const double x = j + 0.6*unit("x") - 0.3; rects.push_back({j, true, 0.13 + 0.13*((k*3 + 12) % 14), x, x + 0.8, 0.3, 0.7}); }
            else rects.push_back({j, false, j + 0.31 + 0.047*k, 0.05 + 0.5*unit("z"), 0.9 + 0.4*unit("z"), 0.1, 0.9}); 
        }
    }
    Free f; Contained c;
    Base& b = contained ? static_cast<Base&>(c) : static_cast<Base&>(f);
    b.setConfineToSubDomainUnion(uni);
    for (int j = 0; j < 2; ++j) { if (bounds[j]) b.addConfiningSubDomain(box[j], Id(j)); else b.addSubDomain(box[j], Id(j)); }
    for (const auto& r : rects) b.addSubDomainEntity(quad(r), Id(r.net));
    std::vector<Frag> frags;
    std::size_t before = 0;
    for (int turn = 0; turn < 2; ++turn)
    {
        frags.clear();
        if (contained)
        {
            const auto& n = c.build();
            rep.dimension = n.entityDimension() == 2 && n.domainDimension() == 3;
            rep.domains = n.subDomainIds().size() == 2;
            for (int j = 0; j < 2; ++j)
            {
                double v = 0.0;
                for (const auto& s : n.subDomainFragments(Id(j)))
                {
                    v += computeVolume(TopoDS::Solid(s));
                    const auto bb = OCCUtilities::getBoundingBox(s);
                    rep.domains = rep.domains && bb.xMin() > j - 1e-3 && bb.xMax() < j + 1.001;
                }
                rep.domains = rep.domains && std::abs(v - 1.0) < 1e-6;
                const auto& m = n.subDomainEntityFragmentsIndexMap(Id(j));
                rep.owned = rep.owned && m.Extent() == n.subDomainEntityFragments(Id(j)).Extent();
                for (const auto& s : n.subDomainEntityFragments(Id(j)))
                { int v = -1; rep.owned = rep.owned && m.Find(s, v); frags.push_back(frag(s, j, v)); }
            }
        }
        else
        {
            const auto& n = f.build();
            rep.dimension = n.entityDimension() == 2;
            const auto& m = n.entityFragmentsIndexMap();
            rep.owned = rep.owned && m.Extent() == n.entityFragments().Extent();
            for (const auto& s : n.entityFragments()) { int v = -1; rep.owned = rep.owned && m.Find(s, v); frags.push_back(frag(s, -1, v)); }
        }
        rep.repeated = b.isBuilt() && (turn == 0 || before == frags.size());
        before = frags.size();
    }
    // the primary entity of each piece and back
    std::map<int, int> number;
    std::vector<double> area(rects.size(), 0.0);
    std::vector<int> count(rects.size(), 0);
    for (const auto& g : frags)
    {
        int e = -1;
        for (std::size_t i = 0; i < rects.size(); ++i) if ((g.net < 0 || g.net == rects[i].net) && inside(g, rects[i])) { e = i; break; }
        if (e < 0) { rep.confined = false; continue; }
        area[e] += g.area; ++count[e];
        if (contained)
        {
            int pos = 0;
            for (int i = 0; i <= e; ++i) if (rects[i].net == rects[e].net) ++pos;
            rep.owned = rep.owned && g.number == pos;
        }
        const int key = contained ? 100*g.net + g.number : g.number;
        if (number.count(key) && number[key] != e) rep.owned = false;
        number[key] = e;
    }
    std::set<int> used;
    for (const auto& p : number) rep.owned = rep.owned && used.insert(p.second).second;
    for (std::size_t i = 0; i < rects.size(); ++i)
    {
        const Rect& r = rects[i];
        const int j = r.net;
        const bool confined = bounds[j] || uni;
        const double lo = !confined ? -10.0 : bounds[j] ? j : 0.0, hi = !confined ? 10.0 : bounds[j] ? j + 1.0 : 2.0;
        double a;
        if (r.horizontal) a = (confined && r.at > 1.0 ? 0.0 : overlap(r.x0, r.x1, lo, hi))*(r.y1 - r.y0);
        else a = overlap(r.x0, r.x1, 0.0, confined ? 1.0 : 10.0)*(r.y1 - r.y0);
        if (std::abs(area[i] - a) > 1e-6) rep.covered = false;
        if (!r.horizontal || a == 0.0) continue;
        // vertical rectangles cut horizontal ones in two
        std::vector<double> cuts;
        for (const auto& v : rects) if (!v.horizontal)
        {
            const bool vc = bounds[v.net] || uni;
            if (v.x0 < r.at && r.at < (vc ? std::min(1.0, v.x1) : v.x1) && std::max(lo, r.x0) < v.at && v.at < std::min(hi, r.x1)) cuts.push_back(v.at);
        }
        // so do the sides of the boxes, if they are part of the network
        if (contained && r.at < 1.0) for (double x : {0.0, 1.0, 2.0}) if (std::max(lo, r.x0) < x && x < std::min(hi, r.x1)) cuts.push_back(x);
        if (count[i] != 1 + int(cuts.size())) rep.disjoint = false;
    }
    return rep;
}
#else
const Report& sample_network();
#endif
}
//@ harness confine property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps merge=0 maxsteps=20000000 runs=400 bound="2 sub-domains, 2 and 1 entities, 2 pieces each"
extern "C" void confine()
{
    if (!vf_symbolic()) { const Report& r = sample_network(); vf_assert("list", r.covered); vf_assert("map", r.owned); vf_assert("own-domain", r.confined); return; }
    Free b;
    Setup s;
    s.num[0] = 2; s.num[1] = 1;
    const int kind = vf_choose("kind", 0, 5);      // how the first network is confined
    s.has[0] = kind > 0; s.bounds[0] = kind == 1; s.uni = kind != 2; s.has[1] = kind != 4; s.bounds[1] = false;
    fill(b, s);
    for (int j = 0; j < 2; ++j)
        if (s.has[j] && (s.bounds[j] || s.uni))
            for (int i = 0; i < s.num[j]; ++i) confining.outcome[first(s, j) + i] = j == 0 ? vf_choose("outcome", 0, 5) : 3*vf_choose("outcome", 0, 2);
    b.initializeBuild_();
    b.confineNetworks_();
    for (int j = 0; j < 2; ++j)
    {
        const bool confined = s.has[j] && (s.bounds[j] || s.uni);
        int key[8], val[8], n = 0;
        for (int i = 0; i < s.num[j]; ++i)
        {
            const int e = first(s, j) + i;
            int p[4], k = 0;
            if (confined) pieces(&confining, e, p, k); else { p[0] = e; k = 1; }
            for (int a = 0; a < k; ++a) { key[n] = p[a]; val[n++] = i + 1; }
        }
        vf_assert("list", holds(b.networkFragmentLists_.at(j), key, n));
        vf_assert("map", maps(b.networkFragmentMaps_.at(j), key, val, n));
    }
    const int whole = s.has[0] && s.has[1] ? unite : s.has[0] ? domain : domain + 1;
    bool r = true;
    for (int j = 0; j < 2; ++j)
        if (s.has[j] && (s.bounds[j] || s.uni))
            for (int i = 0; i < s.num[j]; ++i) r = r && confining.tool[first(s, j) + i] == (s.bounds[j] ? domain + j : whole);
    vf_assert("own-domain", r && (confining.numArguments == 0 || confining.fuzzy == 1e-3));
}

//@ harness fragment property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps merge=0 maxsteps=20000000 runs=400 bound="2 sub-domains, 2 and 1 entities, 2 pieces each"
extern "C" void fragment()
{
    if (!vf_symbolic()) { const Report& r = sample_network(); vf_assert("all-shapes-together", r.disjoint); vf_assert("lists", r.covered); vf_assert("maps", r.owned); vf_assert("sub-domains", r.domains); return; }
    Contained b;
    const bool only = vf_choose("network-only", 0, 2);
    const int few = vf_choose("few", 0, 3), num = few == 0 ? 3 : few == 1 ? 1 : 0, subs = few == 2 ? 1 : 2, total = num + (only ? 0 : subs);
    const int at[3] = {12, 13, 16}, net[3] = {0, 0, 1}, idx[3] = {3, 5, 3};
    b.setEpsilon(1e-3);
    for (int j = 0; j < 2; ++j) { b.networkFragmentLists_[j]; b.networkFragmentMaps_[j]; }
    for (int i = 0; i < num; ++i)
    {
        b.networkFragmentLists_[net[i]].Append(make(at[i]));
        b.networkFragmentMaps_[net[i]].Bind(make(at[i]), idx[i]);
        fragmenting.outcome[at[i]] = total < 2 ? kept : i == 1 ? 1 + 4*vf_choose("outcome", 0, 2) : vf_choose("outcome", 0, 6);
    }
    for (int j = 0; j < subs; ++j) b.subDomains_[j] = make(domain + j);
    fragmenting.outcome[domain] = only || total < 2 ? kept : vf_choose("outcome", 1, 5);
    fragmenting.outcome[domain + 1] = kept;
    b.fragment_(only);
    bool r = fragmenting.numArguments == total && fragmenting.numTools == 0 && fragmenting.fuzzy == 1e-3;
    for (int i = 0; i < num; ++i) r = r && knows(&fragmenting, at[i]);
    if (!only) for (int j = 0; j < subs; ++j) r = r && knows(&fragmenting, domain + j);
    vf_assert("all-shapes-together", r || total < 2);
    bool lists = true, index = true;
    for (int j = 0; j < 2; ++j)
    {
        int key[8], val[8], n = 0;
        for (int i = 0; i < num; ++i) if (net[i] == j)
        {
            int p[4], k; pieces(&fragmenting, at[i], p, k);
            for (int a = 0; a < k; ++a) { bool has = false; for (int c = 0; c < n; ++c) has = has || key[c] == p[a]; if (!has) { key[n] = p[a]; val[n++] = idx[i]; } }
        }
        lists = lists && holds(b.networkFragmentLists_.at(j), key, n);
        index = index && maps(b.networkFragmentMaps_.at(j), key, val, n);
    }
    vf_assert("lists", lists);
    vf_assert("maps", index);
    bool sub = b.subDomainFragmentLists_.size() == (only ? 0u : unsigned(subs));
    if (!only) for (int j = 0; j < subs; ++j) { int p[4], k; pieces(&fragmenting, domain + j, p, k); sub = sub && holds(b.subDomainFragmentLists_.at(j), p, k); }
    vf_assert("sub-domains", sub);
}

namespace ghost {
// final pieces of entity i of network j
void final_pieces(const Setup& s, int j, int i, int* out, int& n)
{
    const bool confined = s.has[j] && (s.bounds[j] || s.uni);
    const int e = first(s, j) + i;
    int p[4], k = 1;
    p[0] = e;
    if (confined) pieces(&confining, e, p, k);
    n = 0;
    for (int a = 0; a < k; ++a) { int q[4], m; pieces(&fragmenting, p[a], q, m); for (int c = 0; c < m; ++c) out[n++] = q[c]; }
}
void outcomes(const Setup& s, bool sub)
{
    const int cut = s.num[1] == 0 ? 1 : vf_choose("cut", 1, 5);
    for (int k = 0; k < 24; ++k) fragmenting.outcome[k] = k == domain || k == domain + 1 ? (sub ? 3 : 1) : cut;
    for (int j = 0; j < 2; ++j)
        if (s.has[j] && (s.bounds[j] || s.uni))
            for (int i = 0; i < s.num[j]; ++i) confining.outcome[first(s, j) + i] = vf_choose("outcome", 0, 2)*(1 + 2*j);
    // a single shape is not split
    int total = sub ? s.has[0] + s.has[1] : 0;
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < s.num[j]; ++i)
        {
            int p[4], n = 1;
            if (s.has[j] && (s.bounds[j] || s.uni)) pieces(&confining, first(s, j) + i, p, n);
            total += n;
        }
    if (total < 2) for (int k = 0; k < 24; ++k) fragmenting.outcome[k] = kept;
}
void setup(Setup& s)
{
    int kind = vf_choose("kind", 0, 6);
    s.num[0] = s.num[1] = 2;
    if (kind >= 4) { s.num[0] = 1; s.num[1] = 0; kind = kind == 4 ? 0 : 3; }
    s.has[0] = kind > 0; s.bounds[0] = kind == 1; s.has[1] = kind > 0 && kind < 3; s.bounds[1] = kind == 1; s.uni = kind != 2;
}
// every entity has its own number, shared by all of its pieces
bool numbered(const Setup& s, const Map& m)
{
    int total = 0, number[4], c = 0;
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < s.num[j]; ++i)
        {
            int p[8], n;
            final_pieces(s, j, i, p, n);
            total += n;
            if (n == 0) continue;
            int v = -1;
            for (int a = 0; a < n; ++a) { int w = -1; if (!m.Find(make(p[a]), w) || w < 1 || (a > 0 && w != v)) return false; v = w; }
            for (int a = 0; a < c; ++a) if (number[a] == v) return false;
            number[c++] = v;
        }
    return m.Extent() == total;
}
}
//@ harness build_free property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps merge=0 maxsteps=20000000 runs=400 bound="2 sub-domains, 2 entities each, or one entity and one sub-domain at most"
extern "C" void build_free()
{
    if (!vf_symbolic())
    {
        const Report& r = sample_network();
        vf_assert("not-built", true); vf_assert("pieces", r.covered && r.disjoint); vf_assert("numbers", r.owned); vf_assert("built", r.repeated); vf_assert("dimension", r.dimension);
        return;
    }
    Free b;
    Setup s; setup(s);
    outcomes(s, false);
    fill(b, s);
    bool thrown = false;
    try { b.network(); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("not-built", thrown && !b.isBuilt());
    for (int turn = 0; turn < 2; ++turn)
    {
        const EntityNetwork& n = b.build();
        int all[16], k = 0;
        for (int j = 0; j < 2; ++j) for (int i = 0; i < s.num[j]; ++i) { int m; final_pieces(s, j, i, all + k, m); k += m; }
        vf_assert("pieces", holds(n.entityFragments(), all, k));
        vf_assert("numbers", numbered(s, n.entityFragmentsIndexMap()));
        vf_assert("built", b.isBuilt() && &b.network() == &n);
        vf_assert("dimension", n.entityDimension() == 2);
    }
}
//@ harness build_contained property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps merge=0 maxsteps=20000000 runs=400 bound="2 sub-domains, 2 entities each, or one entity and one sub-domain at most"
extern "C" void build_contained()
{
    if (!vf_symbolic())
    {
        const Report& r = sample_network();
        vf_assert("not-built", true); vf_assert("sub-domains", r.domains); vf_assert("pieces", r.covered && r.disjoint); vf_assert("numbers", r.owned); vf_assert("built", r.repeated); vf_assert("dimension", r.dimension);
        return;
    }
    Contained b;
    Setup s; setup(s);
    outcomes(s, true);
    fill(b, s);
    bool thrown = false;
    try { b.network(); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("not-built", thrown && !b.isBuilt());
    for (int turn = 0; turn < 2; ++turn)
    {
        const ContainedEntityNetwork& n = b.build();
        const auto& ids = n.subDomainIds();
        bool sub = ids.size() == (s.has[0] ? 1u : 0u) + (s.has[1] ? 1u : 0u);
        for (int j = 0; j < 2; ++j) if (s.has[j])
        {
            int c = 0;
            for (const auto& id : ids) if (id.get() == j) ++c;
            int p[4], k; pieces(&fragmenting, domain + j, p, k);
            sub = sub && c == 1 && holds(n.subDomainFragments(Id(j)), p, k);
        }
        vf_assert("sub-domains", sub);
        bool lists = true, index = true;
        for (int j = 0; j < 2; ++j)
        {
            if (!s.has[j] && s.num[j] == 0) continue;
            int key[16], val[16], k = 0;
            for (int i = 0; i < s.num[j]; ++i) { int m; final_pieces(s, j, i, key + k, m); for (int a = 0; a < m; ++a) val[k + a] = i + 1; k += m; }
            lists = lists && holds(n.subDomainEntityFragments(Id(j)), key, k);
            index = index && maps(n.subDomainEntityFragmentsIndexMap(Id(j)), key, val, k);
        }
        vf_assert("pieces", lists);
        vf_assert("numbers", index);
        vf_assert("built", b.isBuilt() && &b.network() == &n);
        vf_assert("dimension", n.entityDimension() == 2 && n.domainDimension() == 3);
    }
}

namespace ghost {
// what has been registered so far: the order numbers of the shapes
struct Registered { int domainDim, entityDim, domains, entities, next, sub[2], num[2], net[2][4]; bool bounds[2]; };
bool same(const TopoDS_Shape& s, int k) { return vf_symbolic() ? which(s) == k : !s.IsNull(); }
bool agrees(const Base& b, const Registered& m)
{
    bool r = int(b.subDomains_.size()) == m.domains && b.subDomainBoundsNetwork_.size() == b.subDomains_.size();
    int nets = 0;
    for (int j = 0; j < 2; ++j)
    {
        if (m.sub[j]) r = r && b.subDomains_.count(j) && same(b.subDomains_.at(j), m.sub[j]) && b.subDomainBoundsNetwork_.at(j) == m.bounds[j];
        if (m.num[j] == 0) continue;
        ++nets;
        if (!b.networks_.count(j)) return false;
        int k = 0;
        for (const auto& s : b.networks_.at(j)) { r = r && k < m.num[j] && same(s, m.net[j][k]); ++k; }
        r = r && k == m.num[j];
    }
    return r && int(b.networks_.size()) == nets;
}
}
//@ harness registration property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps,shape_of_box,shape_of_quad,shape_of_segment merge=0 maxsteps=20000000 bound="3 operations in a row, 2 ids"
extern "C" void registration()
{
    const Bx box(0, 0, 0, 1, 1, 1);
    const Q3 quad(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(1, 1, 0));
    const S3 seg(P3(0, 0, 0), P3(1, 0, 0));
    Free b;
    Registered m{};
    registered = 0;
    bool refused = true, stored = true;
    for (int step = 0; step < 3; ++step)
    {
        const int op = vf_choose("operation", 0, 13), j = op % 2;
        bool fine = true, thrown = false;
        if (op < 6)
        {
            const int dim = op < 4 ? 3 : 2;
            fine = !(m.entities && dim <= m.entityDim) && !(m.domains && dim != m.domainDim) && !m.sub[j];
            if (fine) { ++m.domains; m.domainDim = dim; m.sub[j] = ++m.next; m.bounds[j] = op == 2 || op == 3; }
        }
        else if (op < 12)
        {
            const int dim = op < 8 || op == 10 ? 2 : 1, n = op < 10 ? j : 0;
            fine = !(m.entities && dim != m.entityDim) && !(m.domains && dim >= m.domainDim);
            if (fine) { ++m.entities; m.entityDim = dim; m.net[n][m.num[n]++] = ++m.next; }
        }
        else { const int next = m.next; m = Registered{}; m.next = next; }
        try
        {
            if (op < 2) b.addSubDomain(box, Id(j));
            else if (op < 4) b.addConfiningSubDomain(box, Id(j));
            else if (op < 6) b.addSubDomain(quad, Id(j));
            else if (op < 8) b.addSubDomainEntity(quad, Id(j));
            else if (op < 10) b.addSubDomainEntity(seg, Id(j));
            else if (op == 10) b.addEntity(quad);
            else if (op == 11) b.addEntity(seg);
            else b.clear();
        }
        catch (const std::runtime_error&) { thrown = true; }
        refused = refused && thrown == !fine;
        stored = stored && agrees(b, m);
    }
    vf_assert("refused", refused);
    vf_assert("stored", stored && !b.isBuilt());
}
//@ harness several property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps,shape_of_box,shape_of_quad,shape_of_segment merge=0 bound="2 entities"
extern "C" void several()
{
    const Q3 quad(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(1, 1, 0));
    const std::vector<Q3> quads{quad, quad};
    Free b;
    registered = 0;
    const int id = vf_choose("id", 0, 2);
    const bool any = vf_choose("any", 0, 2);
    if (any) b.addEntities(quads); else b.addSubDomainEntities(quads, Id(id));
    Registered m{};
    const int n = any ? 0 : id;
    m.num[n] = 2; m.net[n][0] = 1; m.net[n][1] = 2;
    vf_assert("stored", agrees(b, m));
}
//@ harness tolerance property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps,shape_of_box,shape_of_quad,shape_of_segment merge=0 maxsteps=20000000 bound="2 sub-domains, 2 and 1 entities"
extern "C" void tolerance()
{
    Free b;
    registered = 0;
    const bool domains = vf_choose("domains", 0, 2), entities = vf_choose("entities", 0, 2), given = vf_choose("given", 0, 2);
    const double mine = vf_real("tolerance"), size = 0.1 + std::abs(vf_real("size"));
    if (domains) { b.addSubDomain(Bx(0, 0, 0, 1, 1, size), Id(0)); b.addSubDomain(Bx(0, 0, 0, size, 2, 2), Id(1)); }
    if (entities)
    {
        b.addSubDomainEntity(Q3(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(1, 1, 0)), Id(0));
        b.addSubDomainEntity(Q3(P3(0, 0, 0), P3(size, 0, 0), P3(0, 1, 0), P3(size, 1, 0)), Id(0));
        b.addSubDomainEntity(Q3(P3(0, 0, 0), P3(size, 0, 0), P3(0, 0.5, 0), P3(size, 0.5, 0)), Id(1));
    }
    if (given) b.setEpsilon(mine);
    double least = Frackit::Precision<double>::confusion();
    bool one = true;
    const auto take = [&] (const TopoDS_Shape& s) { const double e = defaultEpsilon(s); if (one || e < least) least = e; one = false; };
    if (domains) for (const auto& p : b.subDomains_) take(p.second);
    else for (const auto& p : b.networks_) for (const auto& s : p.second) take(s);
    vf_assert("smallest-default", given ? b.getEpsilon_() == mine : vf_eq(b.getEpsilon_(), least));
    vf_assert("remembered", given ? b.getEpsilon_() == mine : vf_eq(b.getEpsilon_(), least));
    b.setDefaultEpsilon();
    vf_assert("reset", vf_eq(b.getEpsilon_(), least));
}
//@ harness extended property=C22 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,common,common_end,fragments,fragments_end,op_arguments,op_tools,op_fuzzy,op_parallel,op_build,op_done,op_deleted,op_modified,op_generated,shape_type,progress,shape_fuse,shape_eps,shape_of_box,shape_of_quad,shape_of_segment merge=0 maxsteps=20000000 runs=400 bound="2 sub-domains, 2 entities"
extern "C" void extended()
{
    const bool early = vf_choose("entity-before", 0, 2), cleared = vf_choose("cleared", 0, 2);
    const int turn = vf_choose("first", 0, 2);
    if (!vf_symbolic())
    {
        // a rectangle in each of two boxes, and one in both: no matter when they were registered
        const auto rect = [] (double x0, double x1, double z) { return Q3(P3(x0, 0.2, z), P3(x1, 0.2, z), P3(x0, 0.8, z), P3(x1, 0.8, z)); };
        const Bx box[2] = {Bx(0, 0, 0, 1, 1, 1), Bx(1, 0, 0, 2, 1, 1)};
        Free b;
        b.addSubDomain(box[turn], Id(turn));
        b.addSubDomainEntity(rect(0.5, 1.5, 0.3), Id(turn));
        if (early) b.addSubDomainEntity(rect(1 - turn + 0.1, 1 - turn + 0.9, 0.6), Id(1 - turn));
        b.build();
        if (cleared) { b.clear(); b.addSubDomain(box[turn], Id(turn)); b.addSubDomainEntity(rect(0.5, 1.5, 0.3), Id(turn)); }
        b.addSubDomain(box[1 - turn], Id(1 - turn));
        if (!early || cleared) b.addSubDomainEntity(rect(1 - turn + 0.1, 1 - turn + 0.9, 0.6), Id(1 - turn));
        b.build();
        double a = 0.0;
        for (const auto& s : b.network().entityFragments()) a += computeArea(TopoDS::Face(s));
        vf_assert("registered-later", std::abs(a - 1.8*0.6) < 1e-6 && b.network().entityFragments().Extent() == 2);
        return;
    }
    Free b;
    b.setEpsilon(1e-3);
    for (int k = 0; k < N; ++k) confining.outcome[k] = fragmenting.outcome[k] = kept;
    b.subDomains_[turn] = make(domain + turn); b.subDomainBoundsNetwork_[turn] = false;
    b.networks_[turn].Append(make(entity));
    if (early) b.networks_[1 - turn].Append(make(entity + 1));
    b.entityDimension_ = 2; b.domainDimension_ = 3;
    b.build();
    bool r = confining.tool[entity] == domain + turn;
    if (cleared) { b.clear(); b.subDomains_[turn] = make(domain + turn); b.subDomainBoundsNetwork_[turn] = false; b.networks_[turn].Append(make(entity)); }
    b.subDomains_[1 - turn] = make(domain + 1 - turn); b.subDomainBoundsNetwork_[1 - turn] = false;
    if (!early || cleared) b.networks_[1 - turn].Append(make(entity + 1));
    const int all[2] = {entity, entity + 1};
    r = r && holds(b.build().entityFragments(), all, 2);
    for (int i = 0; i < 2; ++i) r = r && confining.tool[entity + i] == unite;
    vf_assert("registered-later", r);
}
