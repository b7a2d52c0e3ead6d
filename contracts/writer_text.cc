//@ text
// C23 writers: the text of the .geo file
#include <algorithm>
#include <iostream>
#include <cstddef>
#include <fstream>
#include <sstream>
#include <unordered_map>
#include "common.hh"
#include <TopoDS_Shape.hxx>
#include <BRepTools.hxx>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/dimension.hh>
#define private public
#define protected public
#include <frackit/io/gmshwriter.hh>
#undef private
#undef protected
#ifdef VF_NATIVE
#include <unistd.h>
#include <cstdlib>
#include <BRep_Builder.hxx>
#endif
using namespace vf;
using Groups = std::unordered_map<std::size_t, std::vector<std::size_t>>;

namespace ghost {
char text[4096]; int length, opened, closed; bool named, shape;
void put(char c) { text[length++] = c; text[length] = 0; }
void put(const char* s) { while (*s) put(*s++); }
void put(unsigned long n) { if (n >= 10) put(n/10); put(char('0' + n%10)); }
bool is(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
// how often a text occurs
int count(const char* s)
{
    int c = 0;
    for (int i = 0; i < length; ++i) { int j = 0; while (s[j] && text[i + j] == s[j]) ++j; if (!s[j]) ++c; }
    return c;
}
}
using namespace ghost;
//@ stub wt_open : std::basic_ofstream<.*>::basic_ofstream\(.*basic_string.*
extern "C" void wt_open(std::ofstream*, const std::string& n, int) { ++opened; named = is(n.c_str(), "name.geo"); }
//@ stub wt_open_c : std::basic_ofstream<.*>::basic_ofstream\(char const\*.*
extern "C" void wt_open_c(std::ofstream*, const char* n, int) { ++opened; named = is(n, "name.geo"); }
//@ stub wt_close : std::basic_ofstream<.*>::~basic_ofstream\(\)
extern "C" void wt_close(std::ofstream*) { ++closed; }
//@ stub wt_chars : std::basic_ostream<.*>& std::operator<<.*\(std::basic_ostream<.*>&, char const\*\)
extern "C" std::ostream& wt_chars(std::ostream& o, const char* s) { put(s); return o; }
//@ stub wt_char : std::basic_ostream<.*>& std::operator<<.*\(std::basic_ostream<.*>&, char\)
extern "C" std::ostream& wt_char(std::ostream& o, char c) { put(c); return o; }
//@ stub wt_string : std::basic_ostream<.*>& std::operator<<.*\(std::basic_ostream<.*>&, std::__cxx11::basic_string.*
extern "C" std::ostream& wt_string(std::ostream& o, const std::string& s) { put(s.c_str()); return o; }
//@ stub wt_number : .*basic_ostream<.*>::(_M_insert<unsigned long>|operator<<)\(unsigned long\)
extern "C" std::ostream& wt_number(std::ostream* o, unsigned long n) { put(n); return *o; }
//@ stub wt_double : .*basic_ostream<.*>::(_M_insert<double>|operator<<)\(double\)
extern "C" std::ostream& wt_double(std::ostream* o, double x) { put(x == 0.5 ? "0.5" : x == 0.25 ? "0.25" : "?"); return *o; }
// what the out-of-line parts of std::string do
namespace ghost { struct RawString { char* p; unsigned long n; union { char local[16]; unsigned long capacity; }; }; }
//@ stub wt_reserve : std::__cxx11::basic_string<.*>::reserve\(unsigned long\)
extern "C" void wt_reserve(RawString* s, unsigned long n)
{
    if (n <= (s->p == s->local ? 15 : s->capacity)) return;
    char* q = static_cast<char*>(::operator new(n + 1));
    for (unsigned long i = 0; i <= s->n; ++i) q[i] = s->p[i];
    s->p = q; s->capacity = n;
}
//@ stub wt_append : std::__cxx11::basic_string<.*>::_M_append\(char const\*, unsigned long\)
extern "C" RawString& wt_append(RawString* s, const char* t, unsigned long n)
{
    wt_reserve(s, s->n + n);
    for (unsigned long i = 0; i < n; ++i) s->p[s->n++] = t[i];
    s->p[s->n] = 0;
    return *s;
}
//@ stub wt_progress : Message_ProgressRange::.*
extern "C" void wt_progress(Message_ProgressRange*) {}
//@ stub wt_brep : BRepTools::Write\(TopoDS_Shape const&, char const\*.*
extern "C" bool wt_brep(const TopoDS_Shape&, const char* n) { shape = is(n, "name.brep"); return true; }

namespace ghost {
void expect(const char* kind, const Groups& g, const char* size, int& groups, bool& groupsOk, bool& sizesOk)
{
    char keep[256];
    for (const auto& p : g)
    {
        // Physical Kind(key) = {a, b};
        char list[64]; int n = 0;
        const int before = length;
        for (unsigned int i = 0; i < p.second.size(); ++i) { if (i) put(", "); put(p.second[i]); }
        for (int i = before; i < length; ++i) list[n++] = text[i];
        list[n] = 0; length = before;
        put("Physical "); put(kind); put("("); put(p.first); put(") = {"); put(list); put("};\n");
        int m = 0; for (int i = before; i < length; ++i) keep[m++] = text[i];
        keep[m] = 0; length = before; text[length] = 0;
        groupsOk = groupsOk && count(keep) == 1;
        ++groups;
        if (!*size) continue;
        put("Characteristic Length{ PointsOf{"); put(kind); put("{"); put(list); put("};} } = "); put(size); put(";\n");
        m = 0; for (int i = before; i < length; ++i) keep[m++] = text[i];
        keep[m] = 0; length = before; text[length] = 0;
        sizesOk = sizesOk && count(keep) >= 1;
    }
}
// a few groups of pieces
void groups(Groups& g, int n, unsigned long k)
{
    if (n > 0) { g[k].push_back(k + 2); if (n > 1) { g[k].push_back(11 + k); g[k].push_back(k + 1); g[k + 9].push_back(k + 3); } }
}
}
//@ harness geo property=C23 stubs=wt_open,wt_open_c,wt_close,wt_chars,wt_char,wt_string,wt_number,wt_double,wt_progress,wt_brep,wt_reserve,wt_append merge=0 maxsteps=60000000 runs=40 bound="at most 2 groups of at most 3 pieces of each kind"
extern "C" void geo()
{
    const int nd = vf_choose("domains", 0, 3), ne = vf_choose("entities", 0, 3), ni = vf_choose("intersections", 0, 3);
    const bool both = vf_choose("both-sizes", 0, 2);
    GmshWriter* w = static_cast<GmshWriter*>(::operator new(sizeof(GmshWriter)));
#ifdef VF_NATIVE
    new (static_cast<void*>(w)) GmshWriter(EntityNetwork(2, TopTools_ListOfShape(), TopTools_DataMapOfShapeInteger()));
#else
    new (static_cast<void*>(&w->entityToFragmentsMap_)) Groups();
    new (static_cast<void*>(&w->entityIntersectionsToFragmentsMap_)) Groups();
    new (static_cast<void*>(&w->domainToFragmentsMap_)) Groups();
    w->entityDimension_ = 2;
#endif
    groups(w->domainToFragmentsMap_, nd, 0); groups(w->entityToFragmentsMap_, ne, 1); groups(w->entityIntersectionsToFragmentsMap_, ni, 2);
    length = opened = closed = 0; named = shape = false; text[0] = 0;
    std::string name = "name";
#ifdef VF_NATIVE
    char dir[] = "/tmp/vfgeoXXXXXX";
    const std::string d = mkdtemp(dir) ? dir : "/nonexistent";
    char old[4096];
    const bool moved = getcwd(old, sizeof(old)) && chdir(d.c_str()) == 0;
#endif
    if (both) w->write(name, 0.5, 0.25); else w->write(name, 0.5);
#ifdef VF_NATIVE
    {
        std::ifstream in("name.geo"); named = in.good(); std::stringstream s; s << in.rdbuf(); put(s.str().c_str());
        std::ifstream b("name.brep"); shape = b.good(); opened = closed = 1;
    }
    unlink("name.geo"); unlink("name.brep");
    if (moved && chdir(old) != 0) {}
    rmdir(d.c_str());
#endif
    vf_assert("files", named && shape && opened == 1 && closed == 1 && count("Merge \"name.brep\";\n") == 1);
    vf_assert("sizes", count("sizeAtEntities = 0.5;\n") == 1 && count(both ? "sizeAtBoundary = 0.25;\n" : "sizeAtBoundary = 0.5;\n") == 1);
    int all = 0; bool g = true, s = true;
    expect("Volume", w->domainToFragmentsMap_, "sizeAtBoundary", all, g, s);
    expect("Surface", w->entityToFragmentsMap_, "sizeAtEntities", all, g, s);
    expect("Line", w->entityIntersectionsToFragmentsMap_, "", all, g, s);
    vf_assert("groups", g && count("\nPhysical ") == all);
    vf_assert("lengths", s);
}
