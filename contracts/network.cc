// C15 constraint matrices, C17 sampling strategies and multi-geometry samplers, C18 entity sets
//@ text
#include "text.hh"
#include <algorithm>
#include <iostream>
#include <memory>
#include <tuple>
#include <unordered_map>
#include <initializer_list>
#include <cassert>
#include "common.hh"
#include <frackit/common/id.hh>
#include <frackit/common/idpair.hh>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometryutilities/name.hh>
#include <frackit/geometryutilities/assign.hh>
#define private public
#define protected public
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/sampling/samplingstrategy.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/sampling/geometrysampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#undef private
#undef protected
using namespace vf;

namespace ghost {
constexpr int N = 2;                      // ids 0 .. N-1
struct Set { int id; };
struct Ent { int tag; };
bool ok(int k, int set, int ent) { return vf_uf3("ok", k, set, ent) > 0.0; }
struct Con
{
    int k;
    bool evaluate(const Set& s, const Ent& e) const { return ok(k, s.id, e.tag); }
};
struct Sets
{
    bool has[N];
    template<class F> bool applyOnSet(const Id& id, F&& f) const
    {
        const int i = id.get();
        if (i < N && has[i]) { f(Set{i}); return true; }
        return false;
    }
};
using Matrix = EntityNetworkConstraintsMatrix<Con>;
// constraints registered for the pair (i,j): -1 if none
struct Model
{
    int k[N][N];
    Model() { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) k[i][j] = -1; }
    bool any(int i) const { for (int j = 0; j < N; ++j) if (k[i][j] >= 0) return true; return false; }
    bool add(int c, int i, int j) { if (k[i][j] >= 0) return false; k[i][j] = c; return true; }
};
bool adds(Matrix& m, int c, int i, int j)
{
    try { m.addConstraints(Con{c}, IdPair(i, j)); return true; } catch (const std::runtime_error&) { return false; }
}
bool adds2(Matrix& m, int c, int i, int j, int k, int l)
{
    try { m.addConstraints(Con{c}, {IdPair(i, j), IdPair(k, l)}); return true; } catch (const std::runtime_error&) { return false; }
}
int evaluates(Matrix& m, const Sets& s, int id)       // 2: exception
{
    try { return m.evaluate(s, Ent{7}, Id(id)) ? 1 : 0; } catch (const std::runtime_error&) { return 2; }
}
bool answers(Matrix& m, const Model& M)
{
    Sets s;
    for (int i = 0; i < N; ++i) s.has[i] = vf_choose("has", 0, 2);
    bool r = true;
    for (int i = 0; i < N; ++i)
    {
        const int got = evaluates(m, s, i);
        if (!M.any(i)) { r = vf_and(r, got == 2); continue; }
        bool want = true;
        for (int j = 0; j < N; ++j) if (M.k[i][j] >= 0 && s.has[j]) want = vf_and(want, ok(M.k[i][j], j, 7));
        r = all(r, got != 2, vf_iff(got == 1, want));
    }
    return vf_and(r, evaluates(m, s, N) == 2);
}
}
using namespace ghost;

namespace ghost {
// any set of registered pairs, in two different orders
void arbitrary(Matrix& m, Model& M)
{
    const int order = vf_choose("order", 0, 2);
    for (int a = 0; a < N*N; ++a)
    {
        const int p = order ? N*N - 1 - a : a;
        if (vf_choose("registered", 0, 2) == 0) continue;
        M.add(a, p/N, p%N);
        m.addConstraints(Con{a}, IdPair(p/N, p%N));
    }
}
}
//@ harness matrix_evaluate property=C15 bound="2 ids"
extern "C" void matrix_evaluate()
{
    Matrix m; Model M;
    arbitrary(m, M);
    vf_assert("conjunction-over-registered-sets", answers(m, M));
    vf_assert("evaluation-changes-nothing", answers(m, M));
}
//@ harness matrix_add property=C15 bound="2 ids"
extern "C" void matrix_add()
{
    Matrix m; Model M;
    arbitrary(m, M);
    const int p = vf_choose("pair", 0, N*N);
    const bool fresh = M.add(10, p/N, p%N), done = adds(m, 10, p/N, p%N);
    vf_assert("registration-rejected-iff-already-defined", done == fresh);
    vf_assert("one-relation-added", answers(m, M));
}
//@ harness matrix_add_list property=C15 bound="2 ids, lists of 2 pairs"
extern "C" void matrix_add_list()
{
    Matrix m; Model M;
    arbitrary(m, M);
    const int p = vf_choose("pair", 0, N*N), q = vf_choose("pair", 0, N*N);
    const bool done = adds2(m, 10, p/N, p%N, q/N, q%N);
    const bool fresh = M.add(10, p/N, p%N) && M.add(10, q/N, q%N);
    vf_assert("registration-rejected-iff-already-defined", done == fresh);
    vf_assert("all-relations-added", answers(m, M));
}

// ---- C18 entity sets
namespace ghost {
struct GA : Geometry { double v; GA(double x = 0.0) : v(x) {} std::string name() const override { return "GA"; } };
struct GB : Geometry { double v; GB(double x = 0.0) : v(x) {} std::string name() const override { return "GB"; } };
struct GC : Geometry { std::string name() const override { return "GC"; } };
using ESet = MultiGeometryEntitySet<GA, GB>;
constexpr int NI = 2;
// abstract state: the type (0: none, 1: GA, 2: GB) and the entities of each id
struct ESModel
{
    int type[NI], num[NI]; double v[NI][4];
    ESModel() { for (int i = 0; i < NI; ++i) type[i] = num[i] = 0; }
    bool add(int t, double x, int i)
    {
        if (type[i] != 0 && type[i] != t) return false;
        type[i] = t; v[i][num[i]++] = x;
        return true;
    }
};
bool adds(ESet& s, int t, double x, int i)
{
    try { if (t == 1) s.addEntity(GA(x), Id(i)); else s.addEntity(GB(x), Id(i)); return true; }
    catch (const std::runtime_error&) { return false; }
}
bool addsptr(ESet& s, int t, double x, int i)
{
    std::shared_ptr<Geometry> g;
    if (t == 1) g = std::make_shared<GA>(x); else if (t == 2) g = std::make_shared<GB>(x); else g = std::make_shared<GC>();
    try { s.addEntity(g, Id(i)); return true; } catch (const std::runtime_error&) { return false; }
}
void arbitrary(ESet& s, ESModel& m)
{
    const int order = vf_choose("order", 0, 2);
    for (int a = 0; a < NI; ++a)
    {
        const int i = order ? NI - 1 - a : a, t = vf_choose("type", 0, 3);
        if (t == 0) continue;
        const int n = vf_choose("num", 1, 3);
        for (int k = 0; k < n; ++k) { const double x = real("x"); m.add(t, x, i); adds(s, t, x, i); }
    }
}
// what a call hands over: the entities of one set in order of insertion
struct Seen
{
    int calls = 0; bool right = true; bool seen[NI];
    Seen() { for (int i = 0; i < NI; ++i) seen[i] = false; }
    template<class G> void set(const std::vector<G>& es, const ESModel& m, int i)
    {
        ++calls;
        right = right && m.type[i] == (std::is_same_v<G, GA> ? 1 : 2) && int(es.size()) == m.num[i];
        if (!right) return;
        for (int k = 0; k < m.num[i]; ++k) right = vf_and(right, vf_eq(es[k].v, m.v[i][k]));
        seen[i] = true;
    }
};
// a builder identifies the set by its contents: the model's entities are distinct
struct Builder
{
    const ESModel& m; Seen seen; int sub;
    Builder(const ESModel& M) : m(M), sub(-1) {}
    template<class G> void find(const std::vector<G>& es)
    {
        for (int i = 0; i < NI; ++i)
            if (m.type[i] == (std::is_same_v<G, GA> ? 1 : 2) && !seen.seen[i] && int(es.size()) == m.num[i] && es[0].v == m.v[i][0])
            { seen.set(es, m, i); return; }
        seen.right = false;
    }
    template<class G> void addEntities(const std::vector<G>& es) { find(es); }
    template<class G> void addSubDomainEntities(const std::vector<G>& es, const Id& id) { sub = id.get(); find(es); }
};
bool represents(const ESet& s, const ESModel& m)
{
    bool r = true;
    std::size_t total = 0;
    for (int i = 0; i < NI; ++i)
    {
        Seen a;
        const bool applied = s.applyOnSet(Id(i), [&] (const auto& es) { a.set(es, m, i); });
        r = all(r, applied == (m.type[i] != 0), a.right, a.calls == (m.type[i] != 0 ? 1 : 0));
        r = vf_and(r, s.numEntities(Id(i)) == std::size_t(m.num[i]));
        total += m.num[i];
    }
    return vf_and(r, s.numEntities() == total);
}
}
//@ harness entity_set_add property=C18 bound="2 ids, at most 3 entities per set"
extern "C" void entity_set_add()
{
    ESet s; ESModel m;
    arbitrary(s, m);
    vf_assert("sets-as-added", represents(s, m));
    const int t = vf_choose("t", 1, 3), i = vf_choose("id", 0, NI);
    const double x = real("new");
    const bool fits = m.add(t, x, i), added = adds(s, t, x, i);
    vf_assert("rejected-iff-other-type", added == fits);
    vf_assert("only-this-set-changes", represents(s, m));
}
//@ harness entity_set_add_pointer property=C18 bound="2 ids, at most 3 entities per set"
extern "C" void entity_set_add_pointer()
{
    ESet s; ESModel m;
    arbitrary(s, m);
    const int t = vf_choose("t", 1, 4), i = vf_choose("id", 0, NI);
    const double x = real("new");
    const bool fits = t < 3 && m.add(t, x, i), added = addsptr(s, t, x, i);
    vf_assert("rejected-iff-other-type", added == fits);
    vf_assert("only-this-set-changes", represents(s, m));
}
//@ harness entity_set_export property=C18 bound="2 ids, at most 2 entities per set"
extern "C" void entity_set_export()
{
    ESet s; ESModel m;
    arbitrary(s, m);
    for (int i = 0; i < NI; ++i) for (int j = 0; j < i; ++j) vf_assume(vf_not(vf_eq(m.v[i][0], m.v[j][0])));
    const int sub = vf_choose("sub", 0, 2), what = vf_choose("what", 0, 5);
    Builder b(m);
    bool want[NI];
    for (int i = 0; i < NI; ++i) want[i] = m.type[i] != 0;
    if (what == 0) s.exportEntitySets(b);
    else if (what == 1) s.exportEntitySets(b, Id(sub));
    else if (what == 2) { s.exportEntitySets({Id(0)}, b, Id(sub)); want[1] = false; }
    else if (what == 3) { s.exportEntitySets({Id(1)}, b, Id(sub)); want[0] = false; }
    else s.exportEntitySets({Id(1), Id(0)}, b, Id(sub));
    int n = 0; bool each = true;
    for (int i = 0; i < NI; ++i) { n += want[i]; each = each && b.seen.seen[i] == want[i]; }
    vf_assert("each-requested-set-once", each && b.seen.calls == n);
    vf_assert("complete-and-in-order", b.seen.right);
    vf_assert("subdomain", (what == 0 || n == 0) ? b.sub == -1 : b.sub == sub);
    vf_assert("export-changes-nothing", represents(s, m));
}

// ---- C17 strategies and samplers
namespace ghost {
constexpr int MAX = 4;
// any state of the sequential strategy: n distinct ids, of which number k is next
struct Strategy
{
    SequentialSamplingStrategy s; int n, next, id[MAX + 1];
    Strategy(int lo)
    {
        n = vf_choose("n", lo, MAX + 1); next = n ? vf_choose("next", 0, n) : 0;
        const int first = vf_choose("first", 0, 2);
        for (int i = 0; i < n; ++i) { id[i] = first ? 2*i : 7 - i; s.idList_.push_back(Id(id[i])); }
        s.curIdx_ = next;
    }
    bool has(int x) const { for (int i = 0; i < n; ++i) if (id[i] == x) return true; return false; }
    bool represents() const
    {
        bool r = int(s.idList_.size()) == n && int(s.curIdx_) == next;
        for (int i = 0; r && i < n; ++i) r = int(s.idList_[i].get()) == id[i];
        return r;
    }
};
}
//@ harness strategy_initial property=C17
extern "C" void strategy_initial()
{
    SequentialSamplingStrategy s;
    bool thrown = false;
    try { s.getNextId(); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("no-next-id-without-ids", thrown);
    const int i = vf_choose("id", 0, 3);
    vf_assert("no-ids-initially", !s.hasId(Id(i)));
    s.addId(Id(i));
    vf_assert("first-id-is-next", s.getNextId() == Id(i));
    vf_assert("and-again", s.getNextId() == Id(i));
}
//@ harness strategy_next property=C17 bound="at most 4 ids"
extern "C" void strategy_next()
{
    Strategy S(1);
    const int want = S.id[S.next];
    const Id got = S.s.getNextId();
    S.next = (S.next + 1)%S.n;
    vf_assert("ids-in-turn", int(got.get()) == want);
    vf_assert("advances-by-one-cyclically", S.represents());
}
//@ harness strategy_add property=C17 bound="at most 4 ids"
extern "C" void strategy_add()
{
    Strategy S(0);
    const int x = vf_choose("id", 0, 8);
    const bool had = S.has(x);
    vf_assert("has-id-iff-added", S.s.hasId(Id(x)) == had);
    S.s.addId(Id(x));
    if (!had && S.n <= MAX) S.id[S.n++] = x;
    vf_assert("appended-once", S.represents());
    vf_assert("now-known", S.s.hasId(Id(x)));
}

namespace ghost {
struct SamplerA : GeometrySampler<GA> { double v; SamplerA(double x) : v(x) {} GA operator() () override { return GA(v); } };
struct SamplerB : GeometrySampler<GB> { double v; SamplerB(double x) : v(x) {} GB operator() () override { return GB(v); } };
using MSampler = MultiGeometrySampler<GA, GB>;
struct MSModel
{
    int n = 0, type[4], id[4]; double v[4];
    bool add(int t, double x, int i)
    {
        for (int k = 0; k < n; ++k) if (id[k] == i) return false;
        type[n] = t; v[n] = x; id[n++] = i;
        return true;
    }
};
bool adds(MSampler& s, int t, double x, int i)
{
    try { if (t == 1) s.addGeometrySampler(SamplerA(x), Id(i)); else s.addGeometrySampler(SamplerB(x), Id(i)); return true; }
    catch (const std::runtime_error&) { return false; }
}
bool is_sample(const std::shared_ptr<Geometry>& g, const MSModel& m, int k)
{
    const GA* a = dynamic_cast<const GA*>(g.get()); const GB* b = dynamic_cast<const GB*>(g.get());
    if (m.type[k] == 1) { if (!a) return false; return vf_eq(a->v, m.v[k]); }
    if (!b) return false;
    return vf_eq(b->v, m.v[k]);
}
// a strategy with ids of its own
struct Fixed : SamplingStrategy { Id next; Fixed(int i) : next(i) {} Id getNextId() override { return next; } };
}
//@ harness multi_sampler property=C17 bound="at most 3 samplers, 4 draws"
extern "C" void multi_sampler()
{
    MSampler s; MSModel m;
    const int n = vf_choose("n", 1, 4);
    for (int k = 0; k < n; ++k)
    {
        const int t = vf_choose("type", 1, 3), i = vf_choose("id", 0, 3);
        const double x = real("x");
        const bool fresh = m.add(t, x, i), added = adds(s, t, x, i);
        vf_assert("rejected-iff-id-taken", added == fresh);
    }
    for (int d = 0; d < 4; ++d)
    {
        Id id(99);
        const std::shared_ptr<Geometry> g = s(id);
        vf_assert("id-of-the-sampler", int(id.get()) == m.id[d%m.n]);
        vf_assert("sample-of-that-sampler", is_sample(g, m, d%m.n));
    }
}
//@ harness multi_sampler_strategy property=C17 bound="2 samplers"
extern "C" void multi_sampler_strategy()
{
    const int next = vf_choose("next", 0, 3);
    MSModel m;
    MSampler s{Fixed(next)};
    for (int k = 0; k < 2; ++k)
    {
        const int t = vf_choose("type", 1, 3);
        const double x = real("x");
        m.add(t, x, k); adds(s, t, x, k);
    }
    Id id(99);
    std::shared_ptr<Geometry> g;
    bool thrown = false;
    try { g = s(id); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("unknown-id-throws", thrown == (next == 2));
    if (!thrown) vf_assert("sample-of-the-strategys-choice", int(id.get()) == next && is_sample(g, m, next));
}
//@ harness multi_sampler_empty property=C17
extern "C" void multi_sampler_empty()
{
    MSampler s;
    Id id(0);
    bool thrown = false;
    try { s(id); } catch (const std::runtime_error&) { thrown = true; }
    vf_assert("nothing-to-sample-throws", thrown);
}
