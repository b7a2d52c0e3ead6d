// Specification primitives.  The same contract file is used twice: compiled to
// LLVM IR, where every vf_* function is interpreted by the VC generator, and
// compiled natively (-DVF_NATIVE), where the inputs come from a file (a solver
// counterexample) or a random generator and the assertions are evaluated on the
// running code with a tolerance for rounding.
#ifndef VF_HH
#define VF_HH
extern "C" {
double vf_real(const char* name);                 // any real number
int vf_int(const char* name, int lo, int hi);     // any integer in [lo,hi]
int vf_choose(const char* name, int lo, int hi);  // any integer in [lo,hi), one path each
bool vf_bool(const char* name);
void vf_assume(bool);
void vf_assert(const char* id, bool);             // an obligation; assumed afterwards
void vf_check(const char* id, bool);              // an obligation; not assumed afterwards
void vf_lemma(const char* id, bool);              // proof hint, itself an obligation
void vf_cover(const char* id);                    // this point has to be reachable
void vf_havoc_doubles(void*, unsigned long);
void vf_put_double(void*, unsigned long, int, double);   // i-th floating point member
bool vf_and(bool, bool);
bool vf_or(bool, bool);
bool vf_not(bool);
bool vf_imp(bool, bool);
bool vf_iff(bool, bool);
bool vf_eq(double, double);                       // exact in the proof, tolerant natively
bool vf_le(double, double);
bool vf_lt(double, double);
double vf_ite(bool, double, double);
double vf_uf3(const char* f, double, double, double); // ghost function of three reals (contracts only)
double vf_name(double);                           // ghost name for a value
bool vf_symbolic();
double vf_native_positive(const char*);             // native side only
double vf_native_nonneg(const char*);
double vf_native_unit(const char*);
}
#endif
