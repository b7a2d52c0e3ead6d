// Native side of the specification primitives: runs a contract harness against
// the real code, on inputs read from a file or drawn at random.
// usage: prog HARNESS file INPUTS | prog HARNESS random SEED COUNT
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <random>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>

namespace {
enum Mode { FromFile, Random } mode;
std::map<std::string, double> inputs;
std::map<std::string, int> counter;
std::vector<std::pair<std::string, double>> drawn;
std::mt19937_64 gen;
int style = 0;
jmp_buf env;
enum { OK = 0, SKIP = 1, FAIL = 2 };
std::string failed;
std::set<std::string> reached;
const double TOL = 1e-6;

std::string key(const char* n)
{ int c = counter[n]++; return c ? std::string(n) + "#" + std::to_string(c) : n; }

double draw()
{
    auto u = [] (double a, double b) { return std::uniform_real_distribution<double>(a, b)(gen); };
    auto k = [] (int a, int b) { return std::uniform_int_distribution<int>(a, b)(gen); };
    switch (style)
    {
        case 0: return u(-4, 4);
        case 1: return k(-3, 3);
        case 2: return k(0, 3) ? u(-2, 2) : k(-2, 2);
        case 3: return 0.5*k(-6, 6);
        case 4: return u(-0.5, 0.5);
        case 5: return k(0, 1) ? u(-10, 10) : u(-1, 1);
        case 6: return k(0, 2) ? k(-1, 1) : u(-1.5, 1.5);
        default: return u(0, 1);
    }
}
[[noreturn]] void leave(int c) { longjmp(env, c); }
}

extern "C" {
double vf_real(const char* n)
{
    const auto k = key(n);
    double v;
    if (mode == FromFile) { auto it = inputs.find(k); v = it == inputs.end() ? 0.0 : it->second; }
    else v = draw();
    drawn.emplace_back(k, v);
    return v;
}
double vf_native_positive(const char* n)
{
    double v = vf_real(n);
    if (mode == Random) { v = std::fabs(v) + 1e-2; drawn.back().second = v; }
    if (!(v > 0.0)) leave(SKIP);
    return v;
}
double vf_native_nonneg(const char* n)
{
    double v = vf_real(n);
    if (mode == Random) { v = std::fabs(v); drawn.back().second = v; }
    if (!(v >= 0.0)) leave(SKIP);
    return v;
}
double vf_native_unit(const char* n)
{
    double v = vf_real(n);
    if (mode == Random)
    {
        const int k = static_cast<int>(gen() % 8);
        v = k == 0 ? 0.0 : k == 1 ? 1.0 : std::uniform_real_distribution<double>(0, 1)(gen);
        drawn.back().second = v;
    }
    if (!(v >= 0.0 && v <= 1.0)) leave(SKIP);
    return v;
}
int vf_int(const char* n, int lo, int hi)
{
    const auto k = key(n);
    int v;
    if (mode == FromFile) { auto it = inputs.find(k); v = it == inputs.end() ? lo : static_cast<int>(std::llround(it->second)); }
    else
    {
        const int r = std::uniform_int_distribution<int>(0, 3)(gen);
        auto cl = [&] (long long x) { return static_cast<int>(x < lo ? lo : x > hi ? hi : x); };
        if (r == 0) v = std::uniform_int_distribution<int>(lo, hi)(gen);
        else if (r == 1) v = cl(std::uniform_int_distribution<int>(-3, 6)(gen));
        else if (r == 2) v = cl(std::uniform_int_distribution<int>(0, 120)(gen));
        else v = std::uniform_int_distribution<int>(0, 1)(gen) ? lo : hi;
    }
    drawn.emplace_back(k, v);
    return v;
}
int vf_choose(const char* n, int lo, int hi)
{
    const auto k = key(n);
    int v;
    if (mode == FromFile) { auto it = inputs.find(k); v = it == inputs.end() ? lo : static_cast<int>(std::llround(it->second)); }
    else v = std::uniform_int_distribution<int>(lo, hi - 1)(gen);
    if (v < lo || v >= hi) leave(SKIP);
    drawn.emplace_back(k, v);
    return v;
}
bool vf_bool(const char* n)
{
    const auto k = key(n);
    bool v;
    if (mode == FromFile) { auto it = inputs.find(k); v = it != inputs.end() && it->second != 0.0; }
    else v = std::uniform_int_distribution<int>(0, 1)(gen);
    drawn.emplace_back(k, v);
    return v;
}
void vf_assume(bool b) { if (!b) leave(SKIP); }
void vf_assert(const char* id, bool b) { reached.insert(id); if (!b) { failed = id; leave(FAIL); } }
void vf_check(const char* id, bool b) { vf_assert(id, b); }
void vf_lemma(const char* id, bool b) { (void)id; (void)b; }
void vf_cover(const char*) {}
void vf_havoc_doubles(void*, unsigned long) {}
// an arbitrary function: one smooth function per name
double vf_uf3(const char* n, double x, double y, double z)
{
    unsigned long h = 1469598103934665603ul;
    for (; *n; ++n) h = (h ^ (unsigned char)*n)*1099511628211ul;
    auto c = [&h] () { h = h*6364136223846793005ul + 1442695040888963407ul; return double(h >> 40)/double(1 << 23) - 1.0; };
    const double a = c(), b = c(), d = c(), e = c();
    return a + b*x + d*y + e*z;
}
void vf_put_double(void*, unsigned long, int, double) {}
bool vf_and(bool a, bool b) { return a && b; }
bool vf_or(bool a, bool b) { return a || b; }
bool vf_not(bool a) { return !a; }
bool vf_imp(bool a, bool b) { return !a || b; }
bool vf_iff(bool a, bool b) { return a == b; }
bool vf_eq(double a, double b) { return a == b || std::fabs(a - b) <= TOL*(1.0 + std::fabs(a) + std::fabs(b)); }
bool vf_le(double a, double b) { return a <= b + TOL*(1.0 + std::fabs(a) + std::fabs(b)); }
bool vf_lt(double a, double b) { return a < b + TOL*(1.0 + std::fabs(a) + std::fabs(b)); }
double vf_ite(bool c, double a, double b) { return c ? a : b; }
double vf_name(double x) { return x; }
bool vf_symbolic() { return false; }
}

static int once(void (*f)(), bool throwsOk)
{
    counter.clear(); drawn.clear(); failed.clear();
    int r = setjmp(env);
    if (r) return r;
    try { f(); }
    catch (const std::exception& e)
    { if (throwsOk) return OK; failed = std::string("uncaught exception: ") + e.what(); return FAIL; }
    catch (...)
    { if (throwsOk) return OK; failed = "uncaught exception"; return FAIL; }
    return OK;
}

static void report(FILE* o)
{
    std::fprintf(o, "FAILED %s\n", failed.c_str());
    for (auto& d : drawn) std::fprintf(o, "INPUT %s %.17g\n", d.first.c_str(), d.second);
    std::fflush(o);
}

int main(int argc, char** argv)
{
    if (argc < 4) return 64;
    auto f = reinterpret_cast<void(*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!f) { std::fprintf(stderr, "no harness %s\n", argv[1]); return 64; }
    const bool throwsOk = std::getenv("VF_THROWS_OK") != nullptr;
    if (!std::strcmp(argv[2], "file"))
    {
        mode = FromFile;
        std::ifstream in(argv[3]);
        std::string n; double v;
        while (in >> n >> v) inputs[n] = v;
        int r = once(f, throwsOk);
        if (r == FAIL) { report(stdout); return 1; }
        std::printf(r == SKIP ? "SKIPPED\n" : "PASSED\n");
        return 0;
    }
    mode = Random;
    const unsigned long seed = std::strtoul(argv[3], nullptr, 10);
    const unsigned long count = std::strtoul(argv[4], nullptr, 10);
    const char* prog = argc > 5 ? argv[5] : nullptr;   // progress file: survives a crash
    unsigned long done = 0, skipped = 0;
    for (unsigned long i = 0; i < count; ++i)
    {
        gen.seed(seed*1000003UL + i);
        style = static_cast<int>(gen() % 8);
        if (prog) { FILE* p = std::fopen(prog, "w"); if (p) { std::fprintf(p, "%lu\n", i); std::fclose(p); } }
        int r = once(f, throwsOk);
        if (r == FAIL) { report(stdout); return 1; }
        if (r == SKIP) ++skipped; else ++done;
    }
    std::printf("RUNS %lu SKIPPED %lu\n", done, skipped);
    for (auto& s : reached) std::printf("REACHED %s\n", s.c_str());
    return 0;
}
