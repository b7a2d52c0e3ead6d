// C16 sampling status.  The private members are accessed as ghost state: every contract
// starts from an arbitrary state that satisfies the class invariant (the two maps have
// the same keys) and shows that the operation keeps it, which covers all histories.
#include <iomanip>
#include <iostream>
#include <algorithm>
#include <numeric>
#include <utility>
#include <unordered_map>
#include <initializer_list>
#include "common.hh"
#include <frackit/common/id.hh>
#define private public
#include <frackit/sampling/status.hh>
#undef private
using namespace vf;

namespace {
constexpr int N = 4;
struct Model { bool known[N]; int count[N], target[N]; };

void arbitrary(SamplingStatus& s, Model& m)
{
    s.rejectedCount_ = vf_int("rejected", 0, 1000000);
    s.headerPrinted_ = vf_bool("header");
    const int ks = vf_choose("known", 0, 1 << N), order = vf_choose("order", 0, 2);
    for (int j = 0; j < N; ++j)
    {
        const int i = order ? N - 1 - j : j;
        m.known[i] = ks >> i & 1; m.count[i] = 0; m.target[i] = 0;
        if (!m.known[i]) continue;
        m.count[i] = vf_int("count", 0, 1000000000); m.target[i] = vf_int("target", 0, 1000000000);
        s.count_[i] = m.count[i]; s.targetCount_[i] = m.target[i];
    }
}
bool throws(SamplingStatus& s, int i)
{
    try { s.finished(Id(i)); return false; } catch (const std::runtime_error&) { return true; }
}
// the state (abstraction relation) and the invariant
bool represents(const SamplingStatus& s, const Model& m)
{
    bool r = true;
    std::size_t n = 0;
    for (int i = 0; i < N; ++i)
    {
        const auto c = s.count_.find(i); const auto t = s.targetCount_.find(i);
        const bool hc = c != s.count_.end(), ht = t != s.targetCount_.end();
        if (m.known[i]) ++n;
        if (hc != m.known[i] || ht != m.known[i]) return false;
        if (hc) r = vf_and(r, vf_and(c->second == std::size_t(m.count[i]), t->second == std::size_t(m.target[i])));
    }
    return vf_and(r, s.count_.size() == n && s.targetCount_.size() == n);
}
bool queries(SamplingStatus& s, const Model& m)
{
    bool r = true, done = true;
    std::size_t sum = 0;
    for (int i = 0; i < N; ++i)
    {
        r = vf_and(r, s.getCount(Id(i)) == std::size_t(m.count[i]));
        sum += m.count[i];
        if (!m.known[i]) { r = vf_and(r, throws(s, i)); continue; }
        const bool reached = m.count[i] >= m.target[i];
        done = vf_and(done, reached);
        r = vf_and(r, vf_iff(s.finished(Id(i)), reached));
    }
    return all(r, s.getCount() == sum, vf_iff(s.finished(), done));
}
}

//@ harness status_initial property=C16
extern "C" void status_initial()
{
    SamplingStatus s;
    Model m{};
    vf_assert("empty-initially", represents(s, m));
    vf_assert("queries", queries(s, m));
}
//@ harness status_queries property=C16 bound="at most 4 ids"
extern "C" void status_queries()
{
    SamplingStatus s; Model m;
    arbitrary(s, m);
    vf_assert("answers", queries(s, m));
    vf_assert("queries-change-nothing", represents(s, m));
}
//@ harness status_set_target property=C16 bound="at most 4 ids"
extern "C" void status_set_target()
{
    SamplingStatus s; Model m;
    arbitrary(s, m);
    const int i = vf_choose("id", 0, N), n = vf_int("n", 0, 1000000000);
    s.setTargetCount(Id(i), n);
    m.known[i] = true; m.target[i] = n;
    vf_assert("target-replaced-count-kept", represents(s, m));
}
//@ harness status_increase property=C16 bound="at most 4 ids"
extern "C" void status_increase()
{
    SamplingStatus s; Model m;
    arbitrary(s, m);
    const int i = vf_choose("id", 0, N);
    const std::size_t r = s.rejectedCount_;
    s.increaseCounter(Id(i));
    m.known[i] = true; m.count[i]++;
    vf_assert("only-this-counter-increased", represents(s, m));
    vf_assert("rejections-kept", s.rejectedCount_ == r);
    s.increaseRejectedCounter();
    vf_assert("only-rejections-increased", vf_and(s.rejectedCount_ == r + 1, represents(s, m)));
}
//@ harness status_reset property=C16 bound="at most 4 ids"
extern "C" void status_reset()
{
    SamplingStatus s; Model m;
    arbitrary(s, m);
    const int op = vf_choose("op", 0, 3);
    if (op == 0)
    {
        const int i = vf_choose("id", 0, N);
        s.resetCounter(Id(i));
        m.count[i] = 0;
        vf_assert("only-this-counter-reset", represents(s, m));
    }
    else if (op == 1)
    {
        s.resetCounters();
        for (int i = 0; i < N; ++i) m.count[i] = 0;
        vf_assert("counters-reset-targets-kept", represents(s, m));
    }
    else
    {
        s.reset();
        for (int i = 0; i < N; ++i) { m.known[i] = false; m.count[i] = m.target[i] = 0; }
        vf_assert("everything-reset", vf_and(represents(s, m), s.rejectedCount_ == 0));
    }
}
