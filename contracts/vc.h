// Contract vocabulary.  Compiled twice: into LLVM IR for the verifier (VC_SYM), where the vc_*
// functions are intrinsics of the VC generator, and natively, where the same contract is an
// executable check used for replaying counterexamples and for the bounded stand-in search.
#pragma once
#include <cstddef>
#include <cmath>
#include <cstdint>
extern "C" {
// arbitrary values; [lo,hi] is the quantified domain of the contract
long   vc_int(const char *name, long lo, long hi);
// as vc_int, natively drawn from [nlo,nhi] only (keeps native objects small)
long   vc_intn(const char *name, long lo, long hi, long nlo, long nhi);
double vc_real(const char *name, double lo, double hi);
bool   vc_bool(const char *name);
// complete case split lo..hi (each case is its own proof run; natively random)
long   vc_case(const char *name, long lo, long hi);
long   vc_casen(const char *name, long lo, long hi, long nlo, long nhi);
void   vc_assume(bool c);
void   vc_assert(bool c, const char *label);
void   vc_assert_close(double a, double b, double tol, const char *label);
void   vc_assert_ge(double a, double b, double tol, const char *label);   // a >= b
void   vc_cover(const char *label);
long   vc_name(long x);                     // identity; introduces a named value for the solver
double vc_namer(double x);
double vc_fn3(const char *name, long i, long j, long k);   // an arbitrary function of three integers
bool   vc_hint(bool c);                     // proved first, then available as a fact
void   vc_nonzero(double x);                  // proved first; then usable as a nonzero factor of products
void   vc_lemma(bool c);                    // instance of a lemma proved separately (see lemmas)
// n elements of kind 'f','d','i','b' (float,double,int32,bool) starting at p, stride bytes apart become arbitrary
void   vc_havoc(void *p, size_t n, size_t stride, int kind, const char *name);
void   vc_havoc_in(void *p, size_t n, size_t stride, int kind, double lo, double hi, const char *name);
// as vc_havoc, with strictly increasing values
void   vc_havoc_sorted(void *p, size_t n, size_t stride, int kind, const char *name);
// pointer field array: element b points to its own array of nelem elements of size elemsize when flag b is set, else null
void   vc_havoc_ptrs(void *firstptr, size_t n, size_t stride, void *firstflag, size_t nelem, size_t elemsize, int kind, const char *name);
void   vc_allow_throw(bool);
void   vc_expect_throw_free(void);
void   vc_witness(long j);                  // iteration index at which loop facts are instantiated
bool   vc_symbolic(void);
}
#define VC_HARNESS(name) extern "C" void vch_##name(); VC_REG(name) extern "C" void vch_##name()
#ifdef VC_SYM
#define VC_REG(name)
#else
struct VcReg { VcReg(const char *n, void (*f)()); };
#define VC_REG(name) static VcReg vcreg_##name(#name, &vch_##name);
#endif
