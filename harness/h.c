#define _GNU_SOURCE
#include "h.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
struct T { const char * props, * name; testfn f; int w; };
static struct T tests[512]; static int ntests;
int h_verbose;
struct Sh { long iter; char note[4096]; char msg[4096]; long done; int fin; };
static struct Sh * sh;
void h_register(const char * p, const char * n, testfn f, int w){ tests[ntests++] = (struct T){p, n, f, w}; }
static uint64_t st;
uint64_t r64(void){ st += 0x9E3779B97F4A7C15ULL; uint64_t z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
double ru(void){ return (double)(r64() >> 11) / 9007199254740992.0; }
static int spec; static double prevrs;   /* a quarter of the cases draws many special values: 0, 1, -1, repeats */
static int big;                            /* one case in sixteen draws larger sizes */
size_t rz(size_t lo, size_t hi){ return big && (r64() & 1) ? ri(lo, 8 * hi) : ri(lo, hi); }
void generic_values(void){ spec = 0; }
double rg(void){ return 2.0 * ru() - 1.0; }
double rs(void){
  if (spec && r64() % 3 == 0){ switch (r64() % 6){ case 0: case 1: return prevrs = 0.0; case 2: return prevrs = 1.0; case 3: return prevrs = -1.0; default: return prevrs; } }
  return prevrs = rg();
}
size_t ri(size_t lo, size_t hi){ return lo + r64() % (hi - lo + 1); }
double * rvec(size_t n){ double * v = malloc((n ? n : 1) * sizeof(double)); for (size_t i = 0; i < n; i++) v[i] = rs(); return v; }
void h_note(const char * fmt, ...){ size_t l = strlen(sh->note); va_list a; va_start(a, fmt); if (l < sizeof(sh->note) - 2) vsnprintf(sh->note + l, sizeof(sh->note) - l, fmt, a); va_end(a); }
void h_fail(const char * file, int line, const char * fmt, ...){
  const char * b = strrchr(file, '/');
  int l = snprintf(sh->msg, sizeof(sh->msg), "%s:%d ", b ? b + 1 : file, line);
  va_list a; va_start(a, fmt); vsnprintf(sh->msg + l, sizeof(sh->msg) - l, fmt, a); va_end(a);
  fflush(stdout); _exit(3);
}
/* ---- functions */
enum function_class hcls = LINELM;
static int comm; static double * cnodes; static size_t cn;
void pick_class(void){ hcls = (r64() & 1) ? LINELM : CONSTELM; }
double * rnodes(size_t n){
  double * x = malloc(n * sizeof(double));
  double s = 0; for (size_t i = 0; i + 1 < n; i++){ x[i] = 0.1 + ru(); s += x[i]; }
  double c = -1; for (size_t i = 0; i < n; i++){ double w = i + 1 < n ? x[i] : 0; x[i] = c; c += 2 * w / s; }
  x[0] = -1; if (n > 1) x[n - 1] = 1;
  return x;
}
void common_nodes(int on){ comm = on; if (on){ cn = rz(2, 6); cnodes = rnodes(cn); } }
void pick_class3(void){ size_t k = ri(0, 4); hcls = k < 2 ? LINELM : k < 4 ? CONSTELM : KERNEL; }
void setup3(void){ pick_class3(); common_nodes(hcls != LINELM ? 1 : (int)ri(0, 1)); h_note("class=%s ", hcls == LINELM ? "linelm" : hcls == KERNEL ? "kernel" : "constelm"); }
struct KernelApproxOpts * kopts_n(size_t n, const double * nodes){ struct KernelApproxOpts * ko = kernel_approx_opts_gauss(n, (double *)nodes, 1.0, 0.5); kernel_approx_opts_set_lb(ko, -1); kernel_approx_opts_set_ub(ko, 1); return ko; }
struct GenericFunction * rfunc_n(size_t n, const double * nodes){
  struct GenericFunction * g = generic_function_alloc(1, hcls);
  double * c = rvec(n);
  if (hcls == KERNEL){ struct KernelApproxOpts * ko = kopts_n(n, nodes); g->f = kernel_expansion_create_with_params(ko, n, c); kernel_approx_opts_free(ko); }
  else if (hcls == LINELM) g->f = lin_elem_exp_init(n, (double *)nodes, c);
  else g->f = const_elem_exp_init(n, (double *)nodes, c);
  g->fargs = NULL;
  free(c);
  return g;
}
struct GenericFunction * rfunc(void){
  if (comm) return rfunc_n(cn, cnodes);
  size_t n = rz(2, 6); double * x = rnodes(n);
  struct GenericFunction * g = rfunc_n(n, x); free(x); return g;
}
struct GenericFunction ** rfuncs(size_t n){ struct GenericFunction ** a = malloc((n ? n : 1) * sizeof(*a)); for (size_t i = 0; i < n; i++) a[i] = rfunc(); return a; }
struct Qmarray * rqma(size_t r, size_t c){ struct Qmarray * q = qmarray_alloc(r, c); for (size_t i = 0; i < r * c; i++) q->funcs[i] = rfunc(); return q; }
/* reference evaluation, straight from the representation */
double ev(const struct GenericFunction * g, double x){
  if (g->fc == LINELM){
    struct LinElemExp * f = g->f; size_t n = f->num_nodes;
    if (x < f->nodes[0] || x > f->nodes[n - 1]) return 0.0;
    if (n == 1) return f->coeff[0];
    size_t i = 0; while (i + 2 < n && x >= f->nodes[i + 1]) i++;
    double d = f->nodes[i + 1] - f->nodes[i], t = (x - f->nodes[i]) / d;
    return (1 - t) * f->coeff[i] + t * f->coeff[i + 1];
  }
  return generic_function_1d_eval(g, x);
}
double pt(void){ if (spec && r64() % 8 == 0) return (r64() & 1) ? 1.0 : -1.0; return rg(); }
int samefun(const struct GenericFunction * a, const struct GenericFunction * b){
  for (int i = 0; i < 8; i++){ double x = pt(), u = generic_function_1d_eval(a, x), v = generic_function_1d_eval(b, x); if (!(fabs(u - v) <= 1e-9 * (1 + fabs(u) + fabs(v)))) return 0; }
  return 1;
}
struct OneApproxOpts * ropts(void){
  size_t n = rz(2, 6); double * x = rnodes(n); struct OneApproxOpts * o;
  if (comm){ free(x); n = cn; x = malloc(n * sizeof(double)); memcpy(x, cnodes, n * sizeof(double)); }
  if (hcls == KERNEL) o = one_approx_opts_alloc(KERNEL, kopts_n(n, x));
  else if (hcls == LINELM) o = one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, x));
  else o = one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, x));
  return o;
}
struct MultiApproxOpts * rmopts(size_t dim){
  struct MultiApproxOpts * m = multi_approx_opts_alloc(dim);
  for (size_t i = 0; i < dim; i++) multi_approx_opts_set_dim(m, i, ropts());
  return m;
}
struct FunctionTrain * rft_ranks(size_t dim, const size_t * ranks){
  struct FunctionTrain * ft = function_train_alloc(dim);
  for (size_t i = 0; i <= dim; i++) ft->ranks[i] = ranks[i];
  for (size_t i = 0; i < dim; i++) ft->cores[i] = rqma(ranks[i], ranks[i + 1]);
  return ft;
}
struct FunctionTrain * rft(size_t dim, size_t mr){
  if (big && (r64() & 1)) mr += ri(0, 8);
  size_t r[64]; r[0] = 1; r[dim] = 1; for (size_t i = 1; i < dim; i++) r[i] = ri(1, mr);
  return rft_ranks(dim, r);
}
double ftval(struct FunctionTrain * ft, const double * x){
  double v[256], w[256]; v[0] = 1; size_t n = 1;
  for (size_t k = 0; k < ft->dim; k++){
    struct Qmarray * q = ft->cores[k];
    for (size_t j = 0; j < q->ncols; j++){ w[j] = 0; for (size_t i = 0; i < n; i++) w[j] += v[i] * generic_function_1d_eval(q->funcs[i + j * q->nrows], x[k]); }
    n = q->ncols; memcpy(v, w, n * sizeof(double));
  }
  return v[0];
}
void setup(void){ pick_class(); common_nodes(hcls == CONSTELM ? 1 : (int)ri(0, 1)); h_note("class=%s ", hcls == LINELM ? "linelm" : "constelm"); }
double pev(const struct GenericFunction * a, const struct GenericFunction * b, double x){
  struct GenericFunction * p = generic_function_prod((struct GenericFunction *)a, (struct GenericFunction *)b);
  double v = generic_function_1d_eval(p, x); generic_function_free(p); return v;
}
void rpoint(size_t d, double * x){ for (size_t i = 0; i < d; i++) x[i] = pt(); }
static uint64_t hash(const char * s){ uint64_t h = 1469598103934665603ULL; while (*s){ h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }
static int hasprop(const char * l, const char * p){ size_t n = strlen(p); const char * q = l; while ((q = strstr(q, p))){ if ((q == l || q[-1] == ' ') && (q[n] == 0 || q[n] == ' ')) return 1; q++; } return 0; }
/* usage: h PROP|test:NAME seed iters [only-iter] */
int main(int argc, char ** argv){
  if (argc == 3 && !strcmp(argv[1], "--list")){ for (int i = 0; i < ntests; i++) if (hasprop(tests[i].props, argv[2])) printf("%s\n", tests[i].name); return 0; }
  if (argc < 4) return 2;
  const char * prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long iters = atol(argv[3]); long only = argc > 4 ? atol(argv[4]) : -1;
  sh = mmap(0, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int bad = 0; long total = 0; int nt = 0; double secs = getenv("H_SECS") ? atof(getenv("H_SECS")) : 0;
  for (int i = 0; i < ntests; i++){
    if (!strncmp(prop, "test:", 5) ? strcmp(prop + 5, tests[i].name) : !hasprop(tests[i].props, prop)) continue;
    memset(sh, 0, sizeof(*sh)); nt++;
    fflush(stdout);
    long nit = iters * tests[i].w;
    pid_t p = fork();
    if (!p){
      if (!h_verbose && !getenv("H_VERBOSE")){ if (!freopen("/dev/null", "w", stdout)) _exit(4); if (!getenv("H_STDERR") && !freopen("/dev/null", "w", stderr)) _exit(4); }
      struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
      for (long it = 0; it < nit; it++){
        if (only >= 0 && it != only) continue;
        if (secs > 0 && (it & 7) == 0){ clock_gettime(CLOCK_MONOTONIC, &t1); if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break; }
        alarm(30); sh->iter = it; sh->note[0] = 0;
        st = seed * 1000003ULL + hash(tests[i].name) + (uint64_t)it * 7919ULL * 104729ULL; comm = 0; hcls = LINELM; spec = r64() % 4 == 0; big = r64() % 16 == 0; prevrs = 0.5;
        tests[i].f();
        sh->done++;
      }
      sh->fin = 1; _exit(0);
    }
    int s; waitpid(p, &s, 0);
    total += sh->done;
    if (WIFEXITED(s) && WEXITSTATUS(s) == 0 && sh->fin){ printf("ok %s %ld\n", tests[i].name, sh->done); continue; }
    bad++;
    printf("FAIL test=%s seed=%llu iter=%ld: %s%s%s", tests[i].name, (unsigned long long)seed, sh->iter, sh->msg, sh->note[0] ? " | input: " : "", sh->note);
    if (WIFSIGNALED(s)) printf(" [killed by signal %d%s]", WTERMSIG(s), WTERMSIG(s) == SIGALRM ? ", no answer in 30 s" : "");
    else if (WEXITSTATUS(s) != 3) printf(" [exit status %d: memory error or error exit in the code]", WEXITSTATUS(s));
    printf("\n");
  }
  printf("total %d tests, %ld cases, %d failed\n", nt, total, bad);
  return bad ? 1 : 0;
}
