/* Replay harness: executes the real code of /repo on generated inputs and compares with the specification. */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <float.h>
#include "array.h"
#include "stringmanip.h"
#include "linalg.h"
#include "lib_funcs.h"
#include "quasimatrix.h"
#include "qmarray.h"
#include "lib_clinalg.h"
#include "superlearn.h"
#include "lib_optimization.h"
#include "linalg.h"
#include "lib_quadrature.h"
typedef void (*testfn)(void);
void h_register(const char * props, const char * name, testfn f, int weight);
void h_fail(const char * file, int line, const char * fmt, ...);
void h_note(const char * fmt, ...);     /* describes the input under test; shown when the test fails */
extern int h_verbose;
#define TEST(props, name) static void t_##name(void); \
  __attribute__((constructor)) static void reg_##name(void){ h_register(props, #name, t_##name, 1); } static void t_##name(void)
#define TESTW(props, name, w) static void t_##name(void); \
  __attribute__((constructor)) static void reg_##name(void){ h_register(props, #name, t_##name, w); } static void t_##name(void)
#define CHECK(c, ...) do { if (!(c)) h_fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define NEAR(a, b, what) do { double a_ = (a), b_ = (b); if (!(fabs(a_ - b_) <= 1e-8 * (1.0 + fabs(a_) + fabs(b_))) || isinf(a_) || isinf(b_)) h_fail(__FILE__, __LINE__, "%s: got %.17g expected %.17g", what, a_, b_); } while (0)
#define SAME(a, b, what) do { double a_ = (a), b_ = (b); if (memcmp(&a_, &b_, 8)) h_fail(__FILE__, __LINE__, "%s: got %.17g expected %.17g", what, a_, b_); } while (0)
#define EQZ(a, b, what) do { size_t a_ = (a), b_ = (b); if (a_ != b_) h_fail(__FILE__, __LINE__, "%s: got %zu expected %zu", what, a_, b_); } while (0)
/* random numbers */
uint64_t r64(void);
double ru(void);                 /* [0,1) */
double rs(void);                 /* [-1,1], in some cases often 0, 1, -1 or a repeated value */
double rg(void);                 /* [-1,1), no special values */
void generic_values(void);       /* no special values in the rest of this case */
size_t ri(size_t lo, size_t hi); /* inclusive */
size_t rz(size_t lo, size_t hi); /* a size; in some cases up to 8 hi */
double * rvec(size_t n);
/* univariate functions on [-1,1] */
extern enum function_class hcls;                 /* class in use */
void pick_class3(void); void setup3(void);        /* with KERNEL, too */
struct KernelApproxOpts * kopts_n(size_t n, const double * nodes);
void pick_class(void);                           /* LINELM or CONSTELM */
struct GenericFunction * rfunc(void);            /* random function, random nodes */
struct GenericFunction * rfunc_n(size_t n, const double * nodes);
double * rnodes(size_t n);                       /* sorted, from -1 to 1 */
void common_nodes(int on);                       /* use one node set for all functions of the test */
struct GenericFunction ** rfuncs(size_t n);
struct Qmarray * rqma(size_t r, size_t c);
double ev(const struct GenericFunction * f, double x);
double pt(void);                                 /* random evaluation point */
int samefun(const struct GenericFunction * a, const struct GenericFunction * b);
struct OneApproxOpts * ropts(void);              /* approximation options of the class in use */
struct MultiApproxOpts * rmopts(size_t dim);
struct FunctionTrain * rft(size_t dim, size_t maxrank);
struct FunctionTrain * rft_ranks(size_t dim, const size_t * ranks);
double ftval(struct FunctionTrain * ft, const double * x);  /* reference evaluation: plain chain of matrix products */
void rpoint(size_t d, double * x);
void setup(void);                                /* random class; node sets shared where exactness needs it */
double pev(const struct GenericFunction * a, const struct GenericFunction * b, double x); /* the product function of the library at x */
#undef I
#define FN(q,i,j) ((q)->funcs[(i) + (j) * (q)->nrows])
#endif
