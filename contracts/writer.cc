// C23 writers: what is written of an entity network
#include <algorithm>
#include <array>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <fstream>
#include <unordered_map>
#include <vector>
#include "common.hh"
#include <TopTools_DataMapOfShapeInteger.hxx>
#include <TopTools_DataMapIteratorOfDataMapOfShapeInteger.hxx>
#include <TopTools_ListOfShape.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
#include <TopoDS_Builder.hxx>
#include <TopExp.hxx>
#include <TopoDS_Iterator.hxx>
#include <BRepTools.hxx>
#include <TopoDS_Shape.hxx>
#define private public
#include <TopExp_Explorer.hxx>
#undef private
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
#define private public
#define protected public
#include <frackit/io/gmshwriter.hh>
#undef private
#undef protected
#ifdef VF_NATIVE
#include <BRepPrimAPI_MakeBox.hxx>
#endif
using namespace vf;
using Q3 = Quadrilateral<double, 3>;
using Bx = Box<double>;
using List = TopTools_ListOfShape;
using Map = TopTools_DataMapOfShapeInteger;
using Groups = std::unordered_map<std::size_t, std::vector<std::size_t>>;

// ---- the proof side: shapes are numbers, a table says what they consist of
namespace ghost {
constexpr int N = 72;
const int* tag(int k)
{
    static const int t[N] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,
                             36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71};
    return &t[k];
}
struct Raw { const void* ghost; void* location; int orientation; };
static_assert(sizeof(Raw) == sizeof(TopoDS_Shape), "");
void shape(TopoDS_Shape* out, int k, int o) { new (static_cast<void*>(out)) Raw{tag(k), nullptr, o}; }
int which(const TopoDS_Shape& s) { return **reinterpret_cast<const int* const*>(&s); }
int turned(const TopoDS_Shape& s) { return reinterpret_cast<const Raw*>(&s)->orientation; }
TopoDS_Shape make(int k, int o = 0) { TopoDS_Shape s; shape(&s, k, o); return s; }
// vertices 1.., edges 10.., wires 20.., faces 30.., shells 40.., solids 50.., compounds 60..
enum { vertex = 1, edge = 10, wire = 20, face = 30, shell = 40, solid = 50, compound = 60 };
int kind(int k)
{
    const int t[7] = {TopAbs_VERTEX, TopAbs_EDGE, TopAbs_WIRE, TopAbs_FACE, TopAbs_SHELL, TopAbs_SOLID, TopAbs_COMPOUND};
    return t[k/10];
}
int child[N][4], turn[N][4], children[N];
void consists(int k, int c, int o = 0) { child[k][children[k]] = c; turn[k][children[k]++] = o; }
struct Found { int k, o; };
void collect(int k, int o, int what, Found* out, int& n)
{
    if (kind(k) == what) { out[n++] = Found{k, o}; return; }
    for (int i = 0; i < children[k]; ++i) collect(child[k][i], o != turn[k][i] ? 1 : 0, what, out, n);
}
}
using namespace ghost;
namespace ghost {
struct Allocator : NCollection_BaseAllocator
{
    void* Allocate(const size_t n) override { return ::operator new(n); }
    void Free(void*) override {}
};
Handle(NCollection_BaseAllocator)* the_allocator;
}
//@ stub count_up : Standard_Transient::IncrementRefCounter\(\) const
extern "C" void count_up(const Standard_Transient*) {}
//@ stub count_down : Standard_Transient::DecrementRefCounter\(\) const
extern "C" int count_down(const Standard_Transient*) { return 1; }
//@ stub location : TopLoc_Location::TopLoc_Location\(\)
extern "C" void location(TopLoc_Location* l) { *reinterpret_cast<void**>(l) = nullptr; }
//@ stub location_assign : TopLoc_SListOfItemLocation::Assign\(.*
extern "C" TopLoc_SListOfItemLocation& location_assign(TopLoc_SListOfItemLocation* a, const TopLoc_SListOfItemLocation&) { return *a; }
//@ stub location_clear : TopLoc_SListOfItemLocation::Clear\(\)
extern "C" void location_clear(TopLoc_SListOfItemLocation*) {}
//@ stub handle_begin : opencascade::handle<.*>::BeginScope\(\)
extern "C" void handle_begin(void*) {}
//@ stub handle_end : opencascade::handle<.*>::EndScope\(\)
extern "C" void handle_end(void** h) { *h = nullptr; }
//@ stub location_equal : TopLoc_Location::IsEqual\(.*
extern "C" bool location_equal(const TopLoc_Location*, const TopLoc_Location&) { return true; }
//@ stub failure : Standard_Failure::Standard_Failure\(char const\*\)
extern "C" void failure(Standard_Failure*, const char*) {}
//@ stub allocator : NCollection_BaseAllocator::CommonBaseAllocator\(\)
extern "C" const Handle(NCollection_BaseAllocator)& allocator()
{
    if (!the_allocator) the_allocator = new Handle(NCollection_BaseAllocator)(new Allocator());
    return *the_allocator;
}
//@ stub standard_allocate : Standard::Allocate\(unsigned long\)
extern "C" void* standard_allocate(unsigned long n) { return ::operator new(n); }
//@ stub standard_free : Standard::Free\(void\*\)
extern "C" void standard_free(void*) {}
// containers: what the out-of-line parts of OpenCASCADE's list and map do
namespace ghost {
struct RawList { void* table; void* allocator; NCollection_ListNode *first, *last; int length; };
struct RawMap { void* table; void* allocator; NCollection_ListNode **data, **data2; int numBuckets, size; bool isDouble; };
static_assert(sizeof(RawList) == sizeof(NCollection_BaseList) && sizeof(RawMap) == sizeof(NCollection_BaseMap), "");
RawList& raw(NCollection_BaseList* l) { return *reinterpret_cast<RawList*>(l); }
constexpr int buckets = 7;
}
//@ stub list_clear : NCollection_BaseList::PClear\(.*
extern "C" void list_clear(NCollection_BaseList* l, NCollection_DelListNode) { RawList& r = raw(l); r.first = r.last = nullptr; r.length = 0; }
//@ stub list_append : NCollection_BaseList::PAppend\(NCollection_ListNode\*\)
extern "C" void list_append(NCollection_BaseList* l, NCollection_ListNode* n)
{
    RawList& r = raw(l);
    n->Next() = nullptr;
    if (r.last) r.last->Next() = n; else r.first = n;
    r.last = n;
    ++r.length;
}
//@ stub list_join : NCollection_BaseList::PAppend\(NCollection_BaseList&\)
extern "C" void list_join(NCollection_BaseList* l, NCollection_BaseList& other)
{
    RawList &r = raw(l), &o = raw(&other);
    if (!o.first) return;
    if (r.last) r.last->Next() = o.first; else r.first = o.first;
    r.last = o.last;
    r.length += o.length;
    o.first = o.last = nullptr; o.length = 0;
}
//@ stub map_begin_resize : NCollection_BaseMap::BeginResize\(.*
extern "C" bool map_begin_resize(const NCollection_BaseMap* map, int, int& n, NCollection_ListNode**& a, NCollection_ListNode**& b)
{
    const RawMap& m = *reinterpret_cast<const RawMap*>(map);
    if (m.numBuckets == buckets && m.data) return false;
    n = buckets;
    a = new NCollection_ListNode*[buckets + 1];
    for (int i = 0; i <= buckets; ++i) a[i] = nullptr;
    b = new NCollection_ListNode*[24];
    return true;
}
//@ stub map_end_resize : NCollection_BaseMap::EndResize\(.*
extern "C" void map_end_resize(NCollection_BaseMap* map, int, int n, NCollection_ListNode** a, NCollection_ListNode** b)
{ RawMap& m = *reinterpret_cast<RawMap*>(map); m.numBuckets = n; m.data = a; m.data2 = b; }
//@ stub map_destroy : NCollection_BaseMap::Destroy\(.*
extern "C" void map_destroy(NCollection_BaseMap* map, NCollection_DelMapNode, bool)
{ RawMap& m = *reinterpret_cast<RawMap*>(map); if (m.data) for (int i = 0; i <= m.numBuckets; ++i) m.data[i] = nullptr; m.size = 0; }
//@ stub shape_hash : TopoDS_Shape::HashCode\(int\) const
extern "C" int shape_hash(const TopoDS_Shape* s, int upper) { return which(*s) % upper + 1; }
//@ stub shape_same : TopoDS_Shape::IsSame\(TopoDS_Shape const&\) const
extern "C" bool shape_same(const TopoDS_Shape* a, const TopoDS_Shape& b) { return which(*a) == which(b); }
//@ stub shape_type : TopoDS_Shape::ShapeType\(\) const
extern "C" int shape_type(const TopoDS_Shape* s) { return kind(which(*s)); }
//@ stub explorer : TopExp_Explorer::TopExp_Explorer\(\)
extern "C" void explorer(TopExp_Explorer* e) { shape(&e->myShape, 0, 0); e->hasMore = false; e->myTop = 0; e->mySizeOfStack = 0; }
//@ stub explorer_end : TopExp_Explorer::~TopExp_Explorer\(\)
extern "C" void explorer_end(TopExp_Explorer*) {}
//@ stub explorer_init : TopExp_Explorer::Init\(.*
extern "C" void explorer_init(TopExp_Explorer* e, const TopoDS_Shape& s, int what, int)
{
    shape(&e->myShape, which(s), turned(s));
    e->toFind = TopAbs_ShapeEnum(what);
    Found f[40]; int n = 0;
    collect(which(s), turned(s), what, f, n);
    e->myTop = 0; e->mySizeOfStack = n; e->hasMore = n > 0;
}
//@ stub explorer_of : TopExp_Explorer::TopExp_Explorer\(TopoDS_Shape.*
extern "C" void explorer_of(TopExp_Explorer* e, const TopoDS_Shape& s, int what, int avoid) { explorer_init(e, s, what, avoid); }
//@ stub explorer_next : TopExp_Explorer::Next\(\)
extern "C" void explorer_next(TopExp_Explorer* e) { ++e->myTop; e->hasMore = e->myTop < e->mySizeOfStack; }
//@ stub explorer_current : TopExp_Explorer::Current\(\) const
extern "C" const TopoDS_Shape& explorer_current(const TopExp_Explorer* e)
{
    Found f[40]; int n = 0;
    collect(which(e->myShape), turned(e->myShape), e->toFind, f, n);
    TopoDS_Shape* s = static_cast<TopoDS_Shape*>(::operator new(sizeof(TopoDS_Shape)));
    shape(s, f[e->myTop].k, f[e->myTop].o);
    return *s;
}
//@ stub map_shapes : TopExp::MapShapes\(TopoDS_Shape const&, TopAbs_ShapeEnum, .*
extern "C" void map_shapes(const TopoDS_Shape& s, int what, TopTools_IndexedMapOfShape& m)
{
    Found f[40]; int n = 0;
    collect(which(s), turned(s), what, f, n);
    for (int i = 0; i < n; ++i) m.Add(make(f[i].k, f[i].o));
}
namespace ghost { int added[80], numAdded, made; }
//@ stub make_compound : TopoDS_Builder::MakeCompound\(.*
extern "C" void make_compound(const TopoDS_Builder*, TopoDS_Compound& c) { ++made; numAdded = 0; shape(&c, compound + 9, 0); }
//@ stub add_to_compound : TopoDS_Builder::Add\(.*
extern "C" void add_to_compound(const TopoDS_Builder*, TopoDS_Shape& c, const TopoDS_Shape& s)
{ vf_lemma("to-the-compound", which(c) == compound + 9); added[numAdded++] = which(s); }

// ---- what has to be written, in terms of numbered shapes (the same on both sides)
namespace ghost {
struct Member { int k, domain, number; };          // a face of the network, its sub-domain, its entity
struct Network { Member faces[40]; int numFaces; int solids[16], solidDomain[16], numSolids; };
struct Written { int order[600]; int n; };
#ifdef VF_NATIVE
std::vector<TopoDS_Shape>& known() { static std::vector<TopoDS_Shape> v; return v; }
int number_of(const TopoDS_Shape& s)
{
    for (unsigned int i = 0; i < known().size(); ++i) if (known()[i].IsSame(s)) return i;
    known().push_back(s); return known().size() - 1;
}
int sub(int k, int what, int* out)
{
    int n = 0;
    for (TopExp_Explorer e(known()[k], TopAbs_ShapeEnum(what)); e.More(); e.Next())
    { const int m = number_of(e.Current()); bool old = false; for (int i = 0; i < n; ++i) old = old || out[i] == m; if (!old) out[n++] = m; }
    return n;
}
int type(int k) { return known()[k].ShapeType(); }
void written(const BRepWriter& w, Written& r) { r.n = 0; for (TopoDS_Iterator it(w.compound_); it.More(); it.Next()) r.order[r.n++] = number_of(it.Value()); }
#else
int number_of(const TopoDS_Shape& s) { return which(s); }
int sub(int k, int what, int* out)
{
    Found f[40]; int m = 0, n = 0;
    collect(k, 0, what, f, m);
    for (int j = 0; j < m; ++j) { bool old = false; for (int i = 0; i < n; ++i) old = old || out[i] == f[j].k; if (!old) out[n++] = f[j].k; }
    return n;
}
int type(int k) { return kind(k); }
void written(const BRepWriter&, Written& r) { r.n = numAdded; for (int i = 0; i < numAdded; ++i) r.order[i] = added[i]; }
#endif
// the index of a shape among those of its kind: this is how it is referred to
int index(const Written& w, int k)
{
    int c = 0;
    for (int i = 0; i < w.n; ++i) if (type(w.order[i]) == type(k)) { ++c; if (w.order[i] == k) return c; }
    return 0;
}
// every shape of the network is part of the compound, once, and nothing else
bool complete(const Written& w, const Network& net)
{
    static char needed[4000], there[4000];
    for (int i = 0; i < (vf_symbolic() ? N : 4000); ++i) needed[i] = there[i] = 0;
    const int kinds[6] = {TopAbs_VERTEX, TopAbs_EDGE, TopAbs_WIRE, TopAbs_FACE, TopAbs_SHELL, TopAbs_SOLID};
    int n = 0;
    for (int i = 0; i < net.numFaces + net.numSolids; ++i)
        for (int t = i < net.numFaces ? 0 : 4; t < (i < net.numFaces ? 4 : 6); ++t)
        {
            int s[200];
            const int m = sub(i < net.numFaces ? net.faces[i].k : net.solids[i - net.numFaces], kinds[t], s);
            for (int j = 0; j < m; ++j) { n += !needed[s[j]]; needed[s[j]] = 1; }
        }
    for (int i = 0; i < net.numSolids; ++i)
        for (int t = 0; t < 4; ++t)
        {
            int s[200];
            const int m = sub(net.solids[i], kinds[t], s);
            for (int j = 0; j < m; ++j) { n += !needed[s[j]]; needed[s[j]] = 1; }
        }
    bool r = n == w.n;
    for (int i = 0; i < w.n; ++i) { r = r && needed[w.order[i]] && !there[w.order[i]]; there[w.order[i]] = 1; }
    return r;
}
// the groups a shape is in, and how often in all of them
int group_of(const Groups& g, int idx, int& count)
{
    int key = -1; count = 0;
    for (const auto& p : g) for (const auto i : p.second) if (int(i) == idx) { ++count; key = int(p.first); }
    return key;
}
int entries(const Groups& g) { int n = 0; for (const auto& p : g) { if (p.second.empty()) return -1; n += p.second.size(); } return n; }
// every piece is in the group of its entity, and every group is of one entity
bool entity_groups(const Groups& g, const Written& w, const Network& net, bool named)
{
    bool r = entries(g) == net.numFaces;
    int key[40];
    for (int i = 0; i < net.numFaces; ++i) { int c; key[i] = group_of(g, index(w, net.faces[i].k), c); r = r && c == 1 && (!named || key[i] == net.faces[i].number); }
    for (int i = 0; i < net.numFaces; ++i)
        for (int j = 0; j < i; ++j)
            r = r && (key[i] == key[j]) == (net.faces[i].domain == net.faces[j].domain && net.faces[i].number == net.faces[j].number);
    return r;
}
bool domain_groups(const Groups& g, const Written& w, const Network& net)
{
    bool r = entries(g) == net.numSolids;
    for (int i = 0; i < net.numSolids; ++i) { int c; r = r && group_of(g, index(w, net.solids[i]), c) == net.solidDomain[i] && c == 1; }
    return r;
}
// exactly the edges that are common to several pieces are in one group each; the edges of a group are common to two pieces
bool intersection_groups(const Groups& g, const Written& w, const Network& net)
{
    bool r = true;
    int common[200], pieces[200], key[200], n = 0, e[40][40], m[40];
    for (int i = 0; i < net.numFaces; ++i) m[i] = sub(net.faces[i].k, TopAbs_EDGE, e[i]);
    for (int i = 0; i < net.numFaces; ++i)
        for (int j = 0; j < m[i]; ++j)
        {
            int l = 0;
            while (l < n && common[l] != e[i][j]) ++l;
            if (l == n) { common[n] = e[i][j]; pieces[n++] = 0; }
            pieces[l] |= 1 << i;
        }
    int total = 0;
    for (int l = 0; l < n; ++l)
    {
        int c;
        key[l] = group_of(g, index(w, common[l]), c);
        const bool several = (pieces[l] & (pieces[l] - 1)) != 0;
        r = r && c == (several ? 1 : 0) && (!several || key[l] >= 1);
        total += c;
    }
    r = r && entries(g) == total;
    // two edges common to the same pieces only are one intersection, edges without two pieces in common are not
    for (int l = 0; l < n; ++l)
        for (int i = 0; i < l; ++i)
        {
            if (key[l] < 0 || key[i] < 0) continue;
            const int b = pieces[l] & pieces[i];
            const bool two = (pieces[l] & (pieces[l] - 1)) == pieces[l] - 1;
            if (pieces[l] == pieces[i]) r = r && key[l] == key[i];
            if ((b & (b - 1)) == 0) r = r && key[l] != key[i];
        }
    return r;
}
// ---- arbitrary networks
#ifdef VF_NATIVE
double share(const char* n) { const double v = vf_real(n); return v - std::floor(v); }
Q3 quad(double x, double y, double z, double a)
{ return Q3(P3(x, y, z), P3(x + std::cos(a), y + std::sin(a), z), P3(x, y, z + 1.0), P3(x + std::cos(a), y + std::sin(a), z + 1.0)); }
#endif
void describe(const EntityNetwork& n, Network& net)
{
    net.numFaces = net.numSolids = 0;
    for (const auto& s : n.entityFragments())
    { int v = -1; n.entityFragmentsIndexMap().Find(s, v); net.faces[net.numFaces++] = Member{number_of(s), 0, v}; }
}
void describe(const ContainedEntityNetwork& n, Network& net)
{
    net.numFaces = net.numSolids = 0;
    for (const auto& id : n.subDomainIds())
    {
        for (const auto& s : n.subDomainEntityFragments(id))
        { int v = -1; n.subDomainEntityFragmentsIndexMap(id).Find(s, v); net.faces[net.numFaces++] = Member{number_of(s), int(id.get()), v}; }
        for (const auto& s : n.subDomainFragments(id))
        {
            int f[16]; const int m = sub(number_of(s), TopAbs_SOLID, f);
            for (int i = 0; i < m; ++i) { net.solids[net.numSolids] = f[i]; net.solidDomain[net.numSolids++] = id.get(); }
        }
    }
}
// three faces and the edges they share
void faces_of(int variant)
{
    for (int k = 0; k < N; ++k) children[k] = 0;
    for (int i = 0; i < 8; ++i) { consists(edge + i, vertex + i); consists(edge + i, vertex + (i + 1) % 8, 1); }
    const int e[8][3][2] = {{{0,1},{2,3},{4,5}}, {{0,1},{0,3},{4,5}}, {{0,1},{0,3},{0,5}}, {{0,1},{0,3},{3,5}}, {{0,1},{1,0},{4,5}}, {{0,1},{1,2},{2,0}}, {{0,1},{4,3},{1,0}}, {{0,5},{0,1},{1,0}}};
    for (int i = 0; i < 3; ++i)
    {
        consists(wire + i, edge + e[variant][i][0], variant == 3 ? 0 : i == 1);
        consists(wire + i, edge + e[variant][i][1], 1);
        consists(face + i, wire + i);
    }
    if (variant == 1 || variant == 6) { consists(wire + 3, edge + 6); consists(wire + 3, edge + 7); consists(face + 1, wire + 3, 1); }
    if (variant == 6) consists(face + 0, wire + 3);
}
}
//@ harness written_net property=C23 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,shape_type,explorer,explorer_end,explorer_init,explorer_of,explorer_next,explorer_current,map_shapes,make_compound,add_to_compound merge=0 unwind=20000 maxsteps=90000000 runs=60 bound="3 faces, two of them with a hole, in 8 arrangements"
extern "C" void written_net()
{
    const int variant = vf_choose("arrangement", 0, 8), count = vf_choose("faces", 0, 4), pattern = vf_choose("numbers", 0, 3), turned = vf_choose("orientation", 0, 4);
    Network net;
    EntityNetwork* network;
#ifdef VF_NATIVE
    known().clear();
    const TopoDS_Shape box = BRepPrimAPI_MakeBox(1.0, 2.0, 3.0).Shape();
    const auto sides = OCCUtilities::getFaces(box);
    List l; Map m;
    if (variant < 4)
        for (int i = 0; i < count; ++i)
        {
            const TopoDS_Shape s = sides[(i*(variant + 1) + pattern) % 6].Oriented((turned >> (i % 2)) & 1 ? TopAbs_REVERSED : TopAbs_FORWARD);
            if (m.IsBound(s)) continue;
            l.Append(s); m.Bind(s, pattern == 0 ? i + 1 : pattern == 1 ? 2 : 1 + (i > 0));
        }
    else
    {
        EntityNetworkBuilder<double> b;
        for (int i = 0; i <= count; ++i) b.addEntity(quad(share("x"), share("y"), 0.5*share("z"), 6.0*share("a")));
        const auto& n = b.build();
        for (const auto& s : n.entityFragments()) { int v = 0; n.entityFragmentsIndexMap().Find(s, v); l.Append(s); m.Bind(s, v); }
    }
    network = new EntityNetwork(2, std::move(l), std::move(m));
#else
    faces_of(variant);
    numAdded = made = 0;
    List l; Map m;
    for (int i = 0; i < count; ++i)
    {
        const TopoDS_Shape s = make(face + i, turned == 1 ? 1 : turned == 2 ? i == 0 : turned == 3 ? i == 1 : 0);
        l.Append(s); m.Bind(s, pattern == 0 ? i + 1 : pattern == 1 ? 2 : 1 + (i > 0));
    }
    network = new EntityNetwork(2, std::move(l), std::move(m));
#endif
    describe(*network, net);
    const BRepWriter w(*network);
    static Written out;
    written(w, out);
    vf_assert("complete", complete(out, net));
    vf_assert("entities", entity_groups(w.entityToFragmentsMap(), out, net, true));
    vf_assert("intersections", intersection_groups(w.entityIntersectionsToFragmentsMap(), out, net));
    vf_assert("no-domains", w.domainToFragmentsMap().empty());
}

namespace ghost {
// two sub-domains: the first is cut in two by an entity, an entity ends within either of them
void domains_of(int variant)
{
    for (int k = 0; k < N; ++k) children[k] = 0;
    for (int i = 0; i < 8; ++i) { consists(edge + i, vertex + i); consists(edge + i, vertex + (i + 1) % 8, 1); }
    const int e[7][2] = {{0,5}, {0,1}, {1,6}, {2,3}, {variant == 1 ? 0 : 4,7}, {6,7}, {variant == 2 ? 3 : 5,4}};
    for (int i = 0; i < 7; ++i)
    {
        consists(wire + i, edge + e[i][0], i % 2); consists(wire + i, edge + e[i][1], 1 - i % 2);
        consists(face + i, wire + i);
    }
    if (variant == 2) consists(wire + 3, edge + 1);
    consists(shell + 3, face + 5, 1); consists(shell + 3, face + 6);
    consists(shell + 0, face + 0); consists(shell + 0, face + 1);
    consists(shell + 1, face + 1, 1); consists(shell + 1, face + 2);
    consists(shell + 2, face + 2, 1); consists(shell + 2, face + 5);
    if (variant == 0) consists(shell + 2, face + 3);
    for (int i = 0; i < 4; ++i) consists(solid + i, shell + i);
    consists(compound, solid); consists(compound, solid + 1);
}
}
//@ harness written_contained property=C23 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,shape_type,explorer,explorer_end,explorer_init,explorer_of,explorer_next,explorer_current,map_shapes,make_compound,add_to_compound merge=0 unwind=20000 maxsteps=90000000 runs=40 bound="3 sub-domains, the first in two pieces, of at most 2, 1 and 1 entities, in 3 arrangements"
extern "C" void written_contained()
{
    const int variant = vf_choose("arrangement", 0, 3), first = vf_choose("entities", 0, 3), second = vf_choose("others", 0, 3), pattern = vf_choose("numbers", 0, 3), ids = pattern == 1;
    const bool reversed = vf_choose("reversed", 0, 2);
    Network net;
#ifdef VF_NATIVE
    known().clear();
    ContainedEntityNetworkBuilder<double> b;
    b.addConfiningSubDomain(Bx(0, 0, 0, 1, 1, 1), Id(ids ? 7 : 0));
    b.addConfiningSubDomain(Bx(1, 0, 0, 2, 1, 1), Id(ids ? 3 : 1));
    b.addConfiningSubDomain(Bx(0, 1, 0, 2, 2, 1), Id(5));
    b.addSubDomainEntity(quad(0.1 + 0.8*share("x"), 1.1 + 0.8*share("y"), 0.5*share("z") - 0.3*variant, 6.0*share("a")), Id(5));
    for (int i = 0; i < first; ++i) b.addSubDomainEntity(quad(0.1 + 0.8*share("x"), 0.9*share("y"), 0.5*share("z") - 0.3*variant, 6.0*share("a")), Id(ids ? 7 : 0));
    for (int i = 0; i < second; ++i) b.addSubDomainEntity(quad(1.1 + 0.8*share("x"), 0.9*share("y"), 0.5*share("z") - 0.3*variant, 6.0*share("a")), Id(ids ? 3 : 1));
    const ContainedEntityNetwork& network = b.build();
#else
    domains_of(variant);
    numAdded = made = 0;
    std::unordered_map<std::size_t, List> fragments, entities;
    std::unordered_map<std::size_t, Map> numbers;
    const std::size_t d[3] = {ids ? 7u : 0u, ids ? 3u : 1u, 5u};
    for (int i = 0; i < 3; ++i) fragments[d[reversed ? i : 2 - i]];
    if (variant == 1) fragments[d[0]].Append(make(compound));
    else { fragments[d[0]].Append(make(solid)); fragments[d[0]].Append(make(solid + 1, reversed)); }
    fragments[d[1]].Append(make(solid + 2)); fragments[d[2]].Append(make(solid + 3));
    for (int i = 0; i < 3; ++i) { entities[d[i]]; numbers[d[i]]; }
    entities[d[2]].Append(make(face + 6)); numbers[d[2]].Bind(make(face + 6), pattern == 2 ? 2 : 1);
    if (first > 0) { entities[d[0]].Append(make(face + 1, reversed)); numbers[d[0]].Bind(make(face + 1), pattern == 2 ? 2 : 1); }
    if (first > 1) { entities[d[0]].Append(make(face + 4, reversed)); numbers[d[0]].Bind(make(face + 4), pattern == 0 ? 1 : pattern == 1 ? 2 : 1); }
    if (second > 0) { entities[d[1]].Append(make(face + 3, reversed)); numbers[d[1]].Bind(make(face + 3), second); }
    const ContainedEntityNetwork network(2, 3, std::move(fragments), std::move(entities), std::move(numbers));
#endif
    describe(network, net);
    const BRepWriter w(network);
    static Written out;
    written(w, out);
    vf_assert("complete", complete(out, net));
    vf_assert("entities", entity_groups(w.entityToFragmentsMap(), out, net, false));
    vf_assert("domains", domain_groups(w.domainToFragmentsMap(), out, net));
    vf_assert("intersections", intersection_groups(w.entityIntersectionsToFragmentsMap(), out, net));
}
//@ harness written_dimension property=C23 stubs=handle_begin,handle_end,location,location_equal,location_assign,location_clear,count_up,count_down,failure,allocator,standard_allocate,standard_free,list_clear,list_append,list_join,map_begin_resize,map_end_resize,map_destroy,shape_hash,shape_same,shape_type,explorer,explorer_end,explorer_init,explorer_of,explorer_next,explorer_current,map_shapes,make_compound,add_to_compound merge=0
extern "C" void written_dimension()
{
    const int e = vf_choose("entities", 0, 4), d = vf_choose("domains", 0, 4);
    const bool contained = vf_choose("contained", 0, 2);
    bool thrown = false;
    try
    {
        if (contained) { const ContainedEntityNetwork n(e, d, {}, {}, {}); const BRepWriter w(n); }
        else { const EntityNetwork n(e, List(), Map()); const BRepWriter w(n); }
    }
    catch (const std::runtime_error&) { thrown = true; }
    vf_assert("refused", thrown == (e != 2 || (contained && d != 3)));
}
