/* function trains: copies (C02), algebra (C06), evaluation and calculus (C07) */
#include "h.h"
#define MAXD 5
static size_t rdim(void){ return ri(1, MAXD); }
static void noteft(const char * n, const struct FunctionTrain * f){ h_note(" %s:ranks", n); for (size_t i = 0; i <= f->dim; i++) h_note("%c%zu", i ? ',' : '=', f->ranks[i]); }
static void wf(const struct FunctionTrain * f, const char * what){
  CHECK(f != NULL, "%s: NULL", what);
  EQZ(f->ranks[0], 1, what); EQZ(f->ranks[f->dim], 1, what);
  for (size_t k = 0; k < f->dim; k++){ EQZ(f->cores[k]->nrows, f->ranks[k], "core rows equal the left rank"); EQZ(f->cores[k]->ncols, f->ranks[k + 1], "core columns equal the right rank"); }
}
static struct FunctionTrain * rftn(size_t d, size_t mr, const char * n){ struct FunctionTrain * f = rft(d, mr); noteft(n, f); return f; }
static int disjoint(const struct FunctionTrain * a, const struct FunctionTrain * b){
  if (a == b || a->ranks == b->ranks || a->cores == b->cores) return 0;
  for (size_t k = 0; k < a->dim; k++) for (size_t l = 0; l < b->dim; l++){
    struct Qmarray * p = a->cores[k], * q = b->cores[l]; if (p == q || p->funcs == q->funcs) return 0;
    for (size_t i = 0; i < p->nrows * p->ncols; i++) for (size_t j = 0; j < q->nrows * q->ncols; j++) if (p->funcs[i] == q->funcs[j] || p->funcs[i]->f == q->funcs[j]->f) return 0;
  }
  return 1;
}
static void spoil(struct FunctionTrain * f){ for (size_t k = 0; k < f->dim; k++){ for (size_t i = 0; i < f->cores[k]->nrows * f->cores[k]->ncols; i++) generic_function_scale(3.25, f->cores[k]->funcs[i]); } }
#define NP 4
struct Snap { size_t d; double x[NP][8]; double v[NP]; size_t r[9]; };
static struct Snap snap(struct FunctionTrain * f){ struct Snap s; s.d = f->dim; for (size_t i = 0; i <= f->dim; i++) s.r[i] = f->ranks[i]; for (int i = 0; i < NP; i++){ rpoint(f->dim, s.x[i]); s.v[i] = ftval(f, s.x[i]); } return s; }
static void unchanged(struct Snap * s, struct FunctionTrain * f, const char * what){ EQZ(f->dim, s->d, what); for (size_t i = 0; i <= s->d; i++) EQZ(f->ranks[i], s->r[i], what); wf(f, what); for (int i = 0; i < NP; i++) SAME(ftval(f, s->x[i]), s->v[i], what); }
/* ---------------------------------------------------------------- C02 */
TEST("C02", ft_copy){
  setup3(); struct FunctionTrain * a = rftn(rdim(), 3, "a"); if (ri(0, 1)){ double y[16], w[4]; rpoint(2 * a->dim, y); function_train_eval(a, y); if (ri(0, 1)) function_train_evals(a, 2, y, w); h_note("evaluated before "); } struct FunctionTrain * b = function_train_copy(a); struct Snap s = snap(a);
  EQZ(b->dim, a->dim, "dimension of the copy"); unchanged(&s, b, "copied value"); CHECK(disjoint(a, b), "copy shares storage with the original");
  spoil(a); unchanged(&s, b, "copy after changing the original"); function_train_free(a); unchanged(&s, b, "copy after freeing the original");
  double x[8]; rpoint(b->dim, x); NEAR(function_train_eval(b, x), ftval(b, x), "evaluation of the copy");
  a = function_train_copy(b); spoil(b); unchanged(&s, a, "original after changing the copy"); function_train_free(b); function_train_free(a);
}
TEST("C02", ft1d_copy){
  setup(); size_t n = ri(1, 4), d = rdim(); h_note("n=%zu dim=%zu", n, d); struct FT1DArray * A = ft1d_array_alloc(n); struct Snap s[4];
  for (size_t i = 0; i < n; i++){ A->ft[i] = rftn(d, 3, "f"); s[i] = snap(A->ft[i]); }
  struct FT1DArray * B = ft1d_array_copy(A); EQZ(B->size, n, "size of the copied array"); CHECK(A->ft != B->ft, "copied array shares its slots");
  for (size_t i = 0; i < n; i++){ unchanged(&s[i], B->ft[i], "copied function train"); for (size_t j = 0; j < n; j++) CHECK(disjoint(A->ft[j], B->ft[i]), "array copy shares storage"); }
  for (size_t i = 0; i < n; i++) spoil(A->ft[i]);
  ft1d_array_free(A); for (size_t i = 0; i < n; i++) unchanged(&s[i], B->ft[i], "after freeing the original array"); ft1d_array_free(B);
}
TEST("C02", gf_copy){
  setup3(); struct GenericFunction * f = rfunc(), * g = generic_function_copy(f); double x[6], v[6];
  for (int i = 0; i < 6; i++){ x[i] = pt(); v[i] = generic_function_1d_eval(f, x[i]); SAME(generic_function_1d_eval(g, x[i]), v[i], "copied function"); }
  CHECK(g != f && g->f != f->f, "copy shares storage"); EQZ(g->dim, f->dim, "dim"); CHECK(g->fc == f->fc, "class");
  size_t n = generic_function_get_num_params(f); EQZ(generic_function_get_num_params(g), n, "parameters of the copy");
  generic_function_scale(-2.5, f); double * p = rvec(n); generic_function_update_params(f, n, p);
  for (int i = 0; i < 6; i++) SAME(generic_function_1d_eval(g, x[i]), v[i], "copy after changing the original");
  generic_function_free(f); for (int i = 0; i < 6; i++) SAME(generic_function_1d_eval(g, x[i]), v[i], "copy after freeing the original");
  f = generic_function_copy(g); generic_function_scale(7, g); for (int i = 0; i < 6; i++) SAME(generic_function_1d_eval(f, x[i]), v[i], "original after changing the copy");
  /* copying into an existing function */
  struct GenericFunction * h = rfunc(); generic_function_free(g); generic_function_free(f); generic_function_free(h); free(p);
}
TEST("C02", quasi_copy){
  setup(); size_t n = ri(1, 5); h_note("n=%zu", n); double x = pt(), v[8]; struct Quasimatrix * q = quasimatrix_alloc(n);
  for (size_t i = 0; i < n; i++){ struct GenericFunction * f = rfunc(); quasimatrix_set_func(q, f, i); v[i] = generic_function_1d_eval(f, x); CHECK(quasimatrix_get_func(q, i) != f, "set_func keeps the argument"); generic_function_free(f); }
  struct Quasimatrix * p = quasimatrix_copy(q); EQZ(quasimatrix_get_size(p), n, "size"); for (size_t i = 0; i < n; i++){ SAME(generic_function_1d_eval(quasimatrix_get_func(p, i), x), v[i], "copied entry"); generic_function_scale(2, quasimatrix_get_func(q, i)); }
  quasimatrix_free(q); for (size_t i = 0; i < n; i++) SAME(generic_function_1d_eval(quasimatrix_get_func(p, i), x), v[i], "after freeing the original"); quasimatrix_free(p);
}
/* ---------------------------------------------------------------- C06 algebra */
TEST("C06", ft_sum){
  setup(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"), * b = rftn(d, 3, "b"); struct Snap sa = snap(a), sb = snap(b);
  struct FunctionTrain * c = function_train_sum(a, b); EQZ(c->dim, d, "dimension of the sum"); wf(c, "sum");
  for (size_t k = 1; k < d; k++) EQZ(c->ranks[k], a->ranks[k] + b->ranks[k], "rank of the sum");
  double x[8]; for (int i = 0; i < 4; i++){ rpoint(d, x); NEAR(ftval(c, x), ftval(a, x) + ftval(b, x), "value of the sum"); }
  unchanged(&sa, a, "first summand"); unchanged(&sb, b, "second summand"); CHECK(disjoint(a, c) && disjoint(b, c), "sum shares storage with an operand");
  function_train_free(a); function_train_free(b); rpoint(d, x); ftval(c, x); function_train_free(c);
}
TEST("C06", ft_scale){
  setup3(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"); double t = rs() * 3; if (ri(0, 9) == 0) t = 0; h_note(" scale=%g", t); struct Snap s = snap(a);
  function_train_scale(a, t); wf(a, "scaled"); for (size_t k = 0; k <= d; k++) EQZ(a->ranks[k], s.r[k], "ranks"); for (int i = 0; i < NP; i++) NEAR(ftval(a, s.x[i]), t * s.v[i], "scaled value"); function_train_free(a);
}
/* product: entrywise products of the library's univariate product, chained */
static double prodref(struct FunctionTrain * a, struct FunctionTrain * b, const double * x){
  static double v[4096], w[4096]; size_t n = 1; v[0] = 1;
  for (size_t k = 0; k < a->dim; k++){
    struct Qmarray * p = a->cores[k], * q = b->cores[k]; size_t m = p->ncols * q->ncols;
    for (size_t J = 0; J < m; J++){ w[J] = 0; for (size_t I = 0; I < n; I++) w[J] += v[I] * pev(FN(p, I / q->nrows, J / q->ncols), FN(q, I % q->nrows, J % q->ncols), x[k]); }
    memcpy(v, w, m * sizeof(double)); n = m;
  }
  return v[0];
}
TEST("C06", ft_product){
  setup(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"), * b = rftn(d, 3, "b"); struct Snap sa = snap(a), sb = snap(b);
  struct FunctionTrain * c = function_train_product(a, b); EQZ(c->dim, d, "dimension"); wf(c, "product"); for (size_t k = 0; k <= d; k++) EQZ(c->ranks[k], a->ranks[k] * b->ranks[k], "rank of the product");
  double x[8]; for (int i = 0; i < 2; i++){ rpoint(d, x); NEAR(ftval(c, x), prodref(a, b, x), "value of the product"); }
  if (hcls == CONSTELM){ rpoint(d, x); NEAR(ftval(c, x), ftval(a, x) * ftval(b, x), "product of values"); }
  unchanged(&sa, a, "first factor"); unchanged(&sb, b, "second factor"); CHECK(disjoint(a, c) && disjoint(b, c), "product shares storage");
  function_train_free(a); function_train_free(b); function_train_free(c);
}
TEST("C06", ft_builders){
  pick_class(); size_t d = rdim(); h_note("class=%s dim=%zu", hcls == LINELM ? "linelm" : "constelm", d); struct MultiApproxOpts * o = rmopts(d); double x[8]; rpoint(d, x); for (size_t k = 0; k < d; k++) x[k] *= 0.98;
  double v = rs() * 4; if (ri(0, 7) == 0) v = 0; struct FunctionTrain * f = function_train_constant(v, o); wf(f, "constant"); for (size_t k = 0; k <= d; k++) EQZ(f->ranks[k], 1, "rank of a constant"); NEAR(ftval(f, x), v, "constant"); function_train_free(f);
  size_t r[9]; r[0] = r[d] = 1; for (size_t k = 1; k < d; k++) r[k] = ri(1, 4); f = function_train_zeros(o, r); wf(f, "zeros"); for (size_t k = 0; k <= d; k++) EQZ(f->ranks[k], r[k], "ranks of the zero train"); NEAR(ftval(f, x), 0, "zeros"); function_train_free(f);
  if (hcls == LINELM){
    size_t lc = ri(1, 3), la = ri(1, 3); double * c = rvec(d * lc), * a = rvec(d * la); h_note(" ldc=%zu lda=%zu", lc, la);
    f = function_train_linear(c, lc, a, la, o); wf(f, "linear"); for (size_t k = 1; k < d; k++) EQZ(f->ranks[k], 2, "rank of a linear function");
    double s = 0; for (size_t k = 0; k < d; k++) s += c[k * lc] * x[k] + a[k * la]; NEAR(ftval(f, x), s, "linear function"); function_train_free(f);
    if (d > 1){ f = function_train_rankone_prod(c, o); wf(f, "rankone_prod"); s = 1; for (size_t k = 0; k < d; k++) s *= c[k] * x[k]; NEAR(ftval(f, x), s, "product of linear functions"); function_train_free(f); }
    free(c); free(a);
  }
}
static double ff(const double * x, void * a){ double * c = a; return c[0] + c[1] * x[0]; }
static int fv(size_t n, const double * x, double * out, void * a){ for (size_t i = 0; i < n; i++) out[i] = ff(x + i, a); return 0; }
TEST("C06", ft_initsum){
  hcls = LINELM; size_t d = rdim(); h_note("dim=%zu", d); struct MultiApproxOpts * o = rmopts(d); double c[8][2]; struct Fwrap * fw = fwrap_create(1, "array-vec"); fwrap_set_num_funcs(fw, d);
  for (size_t k = 0; k < d; k++){ c[k][0] = rs(); c[k][1] = rs(); fwrap_set_func_array(fw, k, fv, c[k]); }
  double x[8]; rpoint(d, x);
  struct FunctionTrain * f = function_train_initsum(o, fw); wf(f, "initsum"); double s = 0; for (size_t k = 0; k < d; k++) s += ff(x + k, c[k]); NEAR(ftval(f, x), s, "sum of univariate functions"); function_train_free(f);
  f = function_train_rankone(o, fw); wf(f, "rankone"); s = 1; for (size_t k = 0; k < d; k++) s *= ff(x + k, c[k]); NEAR(ftval(f, x), s, "product of univariate functions"); function_train_free(f); fwrap_destroy(fw);
}
TEST("C06", ft_nodal){
  setup(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"); size_t N[8]; double * xs[8]; for (size_t k = 0; k < d; k++){ N[k] = ri(2, 6); xs[k] = rnodes(N[k]); }
  struct Snap s = snap(a); struct FunctionTrain * b = function_train_create_nodal(a, N, xs); wf(b, "nodal"); double x[8]; for (int t = 0; t < 3; t++){ for (size_t k = 0; k < d; k++) x[k] = xs[k][ri(0, N[k] - 1)]; NEAR(ftval(b, x), ftval(a, x), "nodal form agrees at the nodes"); }
  for (size_t k = 0; k <= d; k++) EQZ(b->ranks[k], a->ranks[k], "ranks"); unchanged(&s, a, "operand"); function_train_free(a); function_train_free(b);
}
static struct FT1DArray * rarr(size_t n, size_t d, size_t mr){ struct FT1DArray * A = ft1d_array_alloc(n); for (size_t i = 0; i < n; i++) A->ft[i] = rft(d, mr); return A; }
TEST("C06", ft_axpy){
  setup(); size_t d = rdim(); h_note("dim=%zu", d); double x[8]; rpoint(d, x); double al = rs() * 2;
  struct FunctionTrain * a = rft(d, 3), * y = rft(d, 3); struct Snap s = snap(a); double v = al * ftval(a, x) + ftval(y, x); c3axpy(al, a, &y, 0, NULL); wf(y, "axpy"); NEAR(ftval(y, x), v, "c3axpy"); unchanged(&s, a, "x of c3axpy"); function_train_free(a); function_train_free(y);
  size_t n = ri(1, 3), ix = ri(1, 3), iy = ri(1, 3); h_note(" n=%zu incx=%zu incy=%zu", n, ix, iy);
  struct FT1DArray * X = rarr(n * ix, d, 2), * Y = rarr(n * iy, d, 2), * Y0 = ft1d_array_copy(Y); c3vaxpy(n, al, X, ix, &Y, iy, 0, NULL);
  for (size_t j = 0; j < n * iy; j++) NEAR(ftval(Y->ft[j], x), ftval(Y0->ft[j], x) + (j % iy == 0 ? al * ftval(X->ft[(j / iy) * ix], x) : 0), "c3vaxpy");
  double be = rs() * 2, * w = rvec(n * iy); struct FunctionTrain * z = rft(d, 2); v = be * ftval(z, x); for (size_t i = 0; i < n; i++) v += al * w[i * iy] * ftval(X->ft[i * ix], x);
  c3vaxpy_arr(n, al, X, ix, w, iy, be, &z, 0, NULL); wf(z, "c3vaxpy_arr"); NEAR(ftval(z, x), v, "c3vaxpy_arr"); function_train_free(z); free(w);
  ft1d_array_free(X); ft1d_array_free(Y); ft1d_array_free(Y0);
}
TEST("C06", ft_prodsum){
  setup(); common_nodes(1); size_t d = ri(1, 4), n = ri(1, 3), ix = ri(1, 2), iy = ri(1, 2); h_note("dim=%zu n=%zu incx=%zu incy=%zu", d, n, ix, iy); double x[8], al = rs() * 2, be = rs() * 2; rpoint(d, x);
  struct FT1DArray * X = rarr(n * ix, d, 2), * Y = rarr(n * iy, d, 2); struct FunctionTrain * z = rft(d, 2); double v = be * ftval(z, x); for (size_t i = 0; i < n; i++) v += al * prodref(X->ft[i * ix], Y->ft[i * iy], x);
  c3vprodsum(n, al, X, ix, Y, iy, be, &z, 0, NULL); wf(z, "c3vprodsum"); NEAR(ftval(z, x), v, "c3vprodsum"); function_train_free(z); ft1d_array_free(X); ft1d_array_free(Y);
}
TEST("C06", ft_gemv){
  setup(); common_nodes(1); size_t d = ri(1, 3), m = ri(1, 3), n = ri(1, 3), lda = m + ri(0, 1), ix = ri(1, 2), iy = ri(1, 2); h_note("dim=%zu m=%zu n=%zu lda=%zu incx=%zu incy=%zu", d, m, n, lda, ix, iy); double x[8], al = rs() * 2, be = rs() * 2; rpoint(d, x);
  struct FT1DArray * A = rarr(lda * n, d, 2), * X = rarr(n * ix, d, 2), * Y = rarr(m * iy, d, 2), * Y0 = ft1d_array_copy(Y);
  c3vgemv(m, n, al, A, lda, X, ix, be, &Y, iy, 0, NULL);
  for (size_t j = 0; j < m * iy; j++){ double v = ftval(Y0->ft[j], x); if (j % iy == 0){ v *= be; for (size_t k = 0; k < n; k++) v += al * prodref(A->ft[j / iy + k * lda], X->ft[k * ix], x); } NEAR(ftval(Y->ft[j], x), v, "c3vgemv"); }
  ft1d_array_free(Y); Y = ft1d_array_copy(Y0); double * M = rvec(lda * n);
  c3vgemv_arr(0, m, n, al, M, lda, X, ix, be, &Y, iy, 0, NULL);
  for (size_t j = 0; j < m * iy; j++){ double v = ftval(Y0->ft[j], x); if (j % iy == 0){ v *= be; for (size_t k = 0; k < n; k++) v += al * M[j / iy + k * lda] * ftval(X->ft[k * ix], x); } NEAR(ftval(Y->ft[j], x), v, "c3vgemv_arr"); }
  free(M); size_t ld2 = n + ri(0, 1); M = rvec(ld2 * m); ft1d_array_free(Y); Y = ft1d_array_copy(Y0);
  c3vgemv_arr(1, m, n, al, M, ld2, X, ix, be, &Y, iy, 0, NULL);
  for (size_t j = 0; j < m * iy; j++){ double v = ftval(Y0->ft[j], x); if (j % iy == 0){ v *= be; for (size_t k = 0; k < n; k++) v += al * M[k + (j / iy) * ld2] * ftval(X->ft[k * ix], x); } NEAR(ftval(Y->ft[j], x), v, "c3vgemv_arr transposed"); }
  free(M); ft1d_array_free(A); ft1d_array_free(X); ft1d_array_free(Y); ft1d_array_free(Y0);
}
TEST("C06", ft_arr_scale){
  setup(); size_t n = ri(1, 4), inc = ri(1, 3), d = rdim(); h_note("n=%zu inc=%zu dim=%zu", n, inc, d); double x[8], t = rs() * 2; rpoint(d, x); struct FT1DArray * A = rarr(n * inc, d, 2), * B = ft1d_array_copy(A); ft1d_array_scale(A, n, inc, t);
  for (size_t j = 0; j < n * inc; j++) NEAR(ftval(A->ft[j], x), ftval(B->ft[j], x) * (j % inc == 0 ? t : 1), "ft1d_array_scale"); ft1d_array_free(A); ft1d_array_free(B);
}
TEST("C06", ft_ranks){
  setup(); struct FunctionTrain * a = rftn(rdim(), 6, "a"); size_t m = 0; for (size_t k = 0; k <= a->dim; k++){ if (a->ranks[k] > m) m = a->ranks[k]; EQZ(function_train_get_rank(a, k), a->ranks[k], "rank"); } EQZ(function_train_get_maxrank(a), m, "maximum rank"); EQZ(function_train_get_dim(a), a->dim, "dim");
  double s = 0; if (a->dim == 1) s = 1; else if (a->dim == 2) s = (double)a->ranks[1]; else { for (size_t k = 1; k < a->dim; k++) s += (double)a->ranks[k]; s /= (double)(a->dim - 1); } NEAR(function_train_get_avgrank(a), s, "average rank"); function_train_free(a);
}
TEST("C06", ft_round){
  hcls = (r64() & 1) ? LINELM : CONSTELM; common_nodes(1); h_note("class=%s", hcls == LINELM ? "linelm" : "constelm"); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"), * b = rftn(d, 2, "b"), * c = function_train_sum(a, b), * c2 = function_train_sum(c, a);
  struct MultiApproxOpts * o = rmopts(d); struct Snap s = snap(c2); struct FunctionTrain * r = function_train_round(c2, 1e-13, o); wf(r, "rounded"); unchanged(&s, c2, "rounding changes its operand"); double x[8];
  for (int i = 0; i < 3; i++){ rpoint(d, x); double u = ftval(r, x), v = ftval(c2, x); if (!(fabs(u - v) <= 1e-5 * (1 + fabs(v)))) h_fail(__FILE__, __LINE__, "rounded value %.17g expected %.17g", u, v); }
  for (size_t k = 0; k <= d; k++) CHECK(r->ranks[k] <= c2->ranks[k], "rounding increases rank %zu from %zu to %zu", k, c2->ranks[k], r->ranks[k]);
  function_train_free(r); size_t mr = ri(1, 3); r = function_train_round_maxrank_all(c2, 1e-13, o, mr); wf(r, "rounded with maximum rank"); for (size_t k = 0; k <= d; k++) CHECK(r->ranks[k] <= mr, "rank %zu above the requested maximum %zu", r->ranks[k], mr);
  function_train_free(r); function_train_free(a); function_train_free(b); function_train_free(c); function_train_free(c2);
}
/* ---------------------------------------------------------------- C07 evaluation and calculus */
TEST("C07", ft_eval){
  setup3(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 4, "a"); struct Snap s = snap(a); size_t N = ri(1, 4); double * x = malloc(N * d * sizeof(double)), y[8]; rpoint(N * d, x);
  for (size_t i = 0; i < N; i++) NEAR(function_train_eval(a, x + i * d), ftval(a, x + i * d), "function_train_eval");
  function_train_evals(a, N, x, y); for (size_t i = 0; i < N; i++) NEAR(y[i], ftval(a, x + i * d), "function_train_evals");
  /* the same points again after a change of the train, and of the point in place */
  { struct FunctionTrain * b = function_train_copy(a); double x1[8]; memcpy(x1, x, d * 8); size_t k = ri(0, d - 1), q = ri(0, b->cores[k]->nrows * b->cores[k]->ncols - 1); function_train_eval(b, x1); generic_function_scale(1.5 + ru(), b->cores[k]->funcs[q]); NEAR(function_train_eval(b, x1), ftval(b, x1), "value after a change of a core"); function_train_scale(b, 2.5); NEAR(function_train_eval(b, x1), ftval(b, x1), "value after scaling");
    x1[k] = pt(); NEAR(function_train_eval(b, x1), ftval(b, x1), "value at a point changed in place"); function_train_evals(b, 1, x1, y); NEAR(y[0], ftval(b, x1), "value at a point changed in place"); function_train_free(b); b = rft(d, 5); NEAR(function_train_eval(b, x1), ftval(b, x1), "value of another train at the same point"); NEAR(function_train_eval(a, x1), ftval(a, x1), "value of another train at the same point"); function_train_free(b); }
  size_t c = ri(0, d - 1), m; double out[64]; function_train_eval_up_to_core(a, c, x, out, &m); EQZ(m, a->ranks[c + 1], "size of a partial product");
  double v[64], w[64]; v[0] = 1; for (size_t k = 0; k <= c; k++){ struct Qmarray * q = a->cores[k]; for (size_t j = 0; j < q->ncols; j++){ w[j] = 0; for (size_t i = 0; i < q->nrows; i++) w[j] += v[i] * generic_function_1d_eval(FN(q, i, j), x[k]); } memcpy(v, w, sizeof(v)); }
  for (size_t j = 0; j < m; j++) NEAR(out[j], v[j], "partial product of the cores"); unchanged(&s, a, "evaluation changes the function train"); free(x); function_train_free(a);
}
static double ftvali(struct FunctionTrain * f, const size_t * ix, const double * nodes){ double x[8]; for (size_t k = 0; k < f->dim; k++) x[k] = nodes[ix[k]]; return ftval(f, x); }
TEST("C07", ft_eval_ind){
  setup(); common_nodes(1); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 4, "a"); const double * nodes = hcls == LINELM ? ((struct LinElemExp *)a->cores[0]->funcs[0]->f)->nodes : ((struct ConstElemExp *)a->cores[0]->funcs[0]->f)->nodes; size_t n = hcls == LINELM ? ((struct LinElemExp *)a->cores[0]->funcs[0]->f)->num_nodes : ((struct ConstElemExp *)a->cores[0]->funcs[0]->f)->num_nodes;
  size_t ix[8], pe[16], v = ri(0, d - 1), N = ri(1, n < 8 ? n : 8), ind[8]; for (size_t k = 0; k < d; k++){ ix[k] = ri(0, n - 1); pe[2 * k] = ri(0, n - 1); pe[2 * k + 1] = ri(0, n - 1); }
  h_note(" vary=%zu", v); NEAR(function_train_eval_ind(a, ix), ftvali(a, ix, nodes), "evaluation at node indices"); double out[16]; for (size_t i = 0; i < N; i++) ind[i] = ri(0, n - 1);
  function_train_eval_fiber_ind(a, ix, N, ind, v, out); for (size_t i = 0; i < N; i++){ size_t iy[8]; memcpy(iy, ix, sizeof(iy)); iy[v] = ind[i]; NEAR(out[i], ftvali(a, iy, nodes), "fiber evaluation"); }
  NEAR(function_train_eval_co_perturb_ind(a, ix, pe, out), ftvali(a, ix, nodes), "value of co_perturb_ind"); for (size_t k = 0; k < d; k++) for (size_t t = 0; t < 2; t++){ size_t iy[8]; memcpy(iy, ix, sizeof(iy)); iy[k] = pe[2 * k + t]; NEAR(out[2 * k + t], ftvali(a, iy, nodes), "perturbed value at node indices"); }
  function_train_free(a);
}
TEST("C07", ft_perturb){
  setup3(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 4, "a"); for (int rep = 0; rep < 2; rep++){ double x[8], pe[16], out[16]; rpoint(d, x); rpoint(2 * d, pe);
  NEAR(function_train_eval_co_perturb(a, x, pe, out), ftval(a, x), "value of co_perturb"); for (size_t k = 0; k < d; k++) for (size_t t = 0; t < 2; t++){ double y[8]; memcpy(y, x, sizeof(y)); y[k] = pe[2 * k + t]; NEAR(out[2 * k + t], ftval(a, y), "perturbed value"); } }
  function_train_free(a);
}
static double chain(struct FunctionTrain * a, struct FunctionTrain * b, double (*u)(struct GenericFunction *, struct GenericFunction *)){
  static double v[4096], w[4096]; size_t n = 1; v[0] = 1;
  for (size_t k = 0; k < a->dim; k++){
    struct Qmarray * p = a->cores[k], * q = b ? b->cores[k] : NULL; size_t qr = q ? q->nrows : 1, qc = q ? q->ncols : 1, m = p->ncols * qc;
    for (size_t J = 0; J < m; J++){ w[J] = 0; for (size_t I = 0; I < n; I++) w[J] += v[I] * u(FN(p, I / qr, J / qc), q ? FN(q, I % qr, J % qc) : NULL); }
    memcpy(v, w, m * sizeof(double)); n = m;
  }
  return v[0];
}
static double un_int(struct GenericFunction * f, struct GenericFunction * g){ return generic_function_integrate(f); }
static double u_inn(struct GenericFunction * f, struct GenericFunction * g){ return generic_function_inner(f, g); }
TEST("C07", ft_integrate){
  setup3(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 4, "a"); struct Snap s = snap(a); NEAR(function_train_integrate(a), chain(a, NULL, un_int), "integral"); unchanged(&s, a, "integration changes the function train");
  if (hcls == KERNEL) NEAR(function_train_integrate_weighted(a), chain(a, NULL, un_int), "weighted integral"); function_train_free(a);
}
TEST("C07", ft_subset){
  hcls = KERNEL; common_nodes(1); size_t d = ri(2, MAXD); struct FunctionTrain * a = rftn(d, 3, "a"); size_t c[8], n = 0, keep[8], m = 0, one = ri(0, d - 1), mask = r64();
  for (size_t k = 0; k < d; k++){ if (k == one || (mask >> k & 1)) keep[m++] = k; else c[n++] = k; } if (n == 0){ function_train_free(a); return; }
  h_note(" contract:"); for (size_t k = 0; k < n; k++) h_note(" %zu", c[k]);
  struct FunctionTrain * b = function_train_integrate_weighted_subset(a, n, c); EQZ(b->dim, m, "remaining dimension"); wf(b, "partially integrated"); double x[8]; rpoint(m, x);
  static double v[64], w[64]; v[0] = 1; size_t j0 = 0; for (size_t k = 0; k < d; k++){ struct Qmarray * q = a->cores[k]; int kp = j0 < m && keep[j0] == k; for (size_t j = 0; j < q->ncols; j++){ w[j] = 0; for (size_t i = 0; i < q->nrows; i++) w[j] += v[i] * (kp ? generic_function_1d_eval(FN(q, i, j), x[j0]) : generic_function_integrate(FN(q, i, j))); } if (kp) j0++; memcpy(v, w, sizeof(v)); }
  NEAR(ftval(b, x), v[0], "partial integral"); function_train_free(a); function_train_free(b);
}
TEST("C07", ft_inner){
  setup(); common_nodes(1); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"), * b = rftn(d, 3, "b"); struct Snap sa = snap(a), sb = snap(b); double v = chain(a, b, u_inn);
  NEAR(function_train_inner(a, b), v, "inner product"); NEAR(c3dot(a, b), v, "c3dot"); unchanged(&sa, a, "inner changes its operand"); unchanged(&sb, b, "inner changes its operand");
  double n2 = chain(a, a, u_inn); NEAR(function_train_norm2(a), sqrt(fabs(n2)), "norm"); function_train_free(a); function_train_free(b);
  common_nodes(1); a = rft(d, 3); b = rft(d, 3); v = chain(a, b, u_inn); NEAR(function_train_inner2(a, b), v, "inner2"); NEAR(function_train_inner_rl(a, b), v, "inner_rl");
  double aa = chain(a, a, u_inn), bb = chain(b, b, u_inn), e = sqrt(fabs(aa - 2 * v + bb)); double g = function_train_norm2diff(a, b); CHECK(fabs(g - e) <= 1e-6 * (1 + e), "norm2diff %.17g expected %.17g", g, e);
  double rr = function_train_relnorm2diff(a, b), er = e / sqrt(fabs(bb)); if (bb > 0) CHECK(fabs(rr - er) <= 1e-5 * (1 + er), "relnorm2diff %.17g expected %.17g", rr, er);
  function_train_free(a); function_train_free(b);
}
static struct FunctionTrain * der(struct FunctionTrain * f, size_t k, int o){ struct FunctionTrain * g = function_train_copy(f); struct Qmarray * q = g->cores[k]; for (size_t i = 0; i < q->nrows * q->ncols; i++){ struct GenericFunction * h = o == 1 ? generic_function_deriv(q->funcs[i]) : o == 2 ? generic_function_dderiv(q->funcs[i]) : generic_function_dderiv_periodic(q->funcs[i]); generic_function_free(q->funcs[i]); q->funcs[i] = h; } return g; }
TEST("C07", ft_gradient){
  hcls = LINELM; common_nodes((int)ri(0, 1)); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"); struct Snap s = snap(a); double x[8]; rpoint(d, x); struct FT1DArray * g = function_train_gradient(a); EQZ(g->size, d, "number of partial derivatives");
  double e1[8]; double * e2 = ft1d_array_eval(g, x); ft1d_array_eval2(g, x, e1);
  for (size_t k = 0; k < d; k++){ struct FunctionTrain * r = der(a, k, 1); wf(g->ft[k], "partial derivative"); double v = ftval(r, x); NEAR(ftval(g->ft[k], x), v, "partial derivative"); NEAR(e1[k], v, "ft1d_array_eval2"); NEAR(e2[k], v, "ft1d_array_eval"); function_train_free(r); CHECK(disjoint(g->ft[k], a), "gradient shares storage"); }
  free(e2); ft1d_array_free(g); unchanged(&s, a, "gradient changes its operand"); function_train_free(a);
}
TEST("C07", ft_gradient_eval){
  setup3(); if (hcls == CONSTELM) hcls = LINELM; size_t d = rdim(); struct FunctionTrain * a = rftn(d, 4, "a"); double x[8], out[8]; rpoint(d, x); function_train_gradient_eval(a, x, out);
  for (size_t k = 0; k < d; k++){ double v[64], w[64]; v[0] = 1; for (size_t l = 0; l < d; l++){ struct Qmarray * q = a->cores[l]; for (size_t j = 0; j < q->ncols; j++){ w[j] = 0; for (size_t i = 0; i < q->nrows; i++) w[j] += v[i] * (l == k ? generic_function_deriv_eval(FN(q, i, j), x[l]) : generic_function_1d_eval(FN(q, i, j), x[l])); } memcpy(v, w, sizeof(v)); } NEAR(out[k], v[0], "gradient at a point"); }
  function_train_free(a);
}
TEST("C07", ft_hessian){
  hcls = LINELM; common_nodes(1); size_t d = ri(1, 4); struct FunctionTrain * a = rftn(d, 3, "a"); double x[8]; rpoint(d, x); struct FT1DArray * h = function_train_hessian(a); EQZ(h->size, d * d, "size of the Hessian");
  for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++){ struct FunctionTrain * g = der(a, j, 1), * r = der(g, i, 1); NEAR(ftval(h->ft[i * d + j], x), ftval(r, x), "second derivative"); function_train_free(g); function_train_free(r); }
  ft1d_array_free(h); size_t n = ri(1, 3); struct FT1DArray * A = rarr(n, d, 2), * J = ft1d_array_jacobian(A); EQZ(J->size, n * d, "size of the Jacobian"); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < n; j++){ struct FunctionTrain * r = der(A->ft[j], i, 1); NEAR(ftval(J->ft[i * n + j], x), ftval(r, x), "Jacobian entry"); function_train_free(r); } ft1d_array_free(A); ft1d_array_free(J); function_train_free(a);
}
/* rounding against the singular values of the unfoldings of the nodal tensor */
extern void dgesvd_(char *, char *, int *, int *, double *, int *, double *, double *, int *, double *, int *, double *, int *, int *);
static void svals(int m, int n, double * A, double * s){ int lw = 4096, info, one = 1; static double w[4096]; double d; dgesvd_("N", "N", &m, &n, A, &m, s, &d, &one, &d, &one, w, &lw, &info); }
static size_t dense(struct FunctionTrain * f, const size_t * ns, double ** xa, double * T){
  size_t d = f->dim, N = 1; for (size_t k = 0; k < d; k++) N *= ns[k];
  for (size_t i = 0; i < N; i++){ double x[8], w = 1; size_t q = i; for (size_t k = 0; k < d; k++){ size_t n = ns[k], j = q % n; double * xs = xa[k]; q /= n; x[k] = xs[j]; w *= sqrt(((j + 1 < n ? xs[j + 1] : xs[j]) - (j ? xs[j - 1] : xs[j])) / 2); } T[i] = w * ftval(f, x); }
  return N;
}
static void mkround(struct FunctionTrain ** c2, size_t * n, double ** xs){   /* a train with redundant ranks, one node set per dimension */
  size_t d = ri(2, 4), r[9], q[9]; r[0] = r[d] = q[0] = q[d] = 1; for (size_t k = 0; k < d; k++){ n[k] = ri(2, d == 4 ? 3 : 5); xs[k] = rnodes(n[k]); h_note(" n%zu=%zu", k, n[k]); } for (size_t k = 1; k < d; k++){ r[k] = ri(1, 3); q[k] = ri(1, 2); }
  struct FunctionTrain * p[2]; for (int t = 0; t < 2; t++){ size_t * R = t ? q : r; p[t] = function_train_alloc(d); for (size_t k = 0; k <= d; k++) p[t]->ranks[k] = R[k]; for (size_t k = 0; k < d; k++){ p[t]->cores[k] = qmarray_alloc(R[k], R[k + 1]); for (size_t i = 0; i < R[k] * R[k + 1]; i++) p[t]->cores[k]->funcs[i] = rfunc_n(n[k], xs[k]); } }
  if (ri(0, 1)) function_train_scale(p[1], pow(10, -4 * ru()));
  *c2 = function_train_sum(p[0], p[1]); if (ri(0, 1)){ struct FunctionTrain * z = function_train_sum(*c2, p[0]); function_train_free(*c2); *c2 = z; } function_train_free(p[0]); function_train_free(p[1]);
  noteft("c", *c2);
}
static struct MultiApproxOpts * nodeopts(size_t d, const size_t * ns, double ** xa){ struct MultiApproxOpts * m = multi_approx_opts_alloc(d); for (size_t i = 0; i < d; i++){ size_t n = ns[i]; double * x = malloc(n * 8); memcpy(x, xa[i], n * 8); multi_approx_opts_set_dim(m, i, hcls == LINELM ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, x)) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, x))); } return m; }
TEST("C06", ft_round_tol){
  hcls = (r64() & 1) ? LINELM : CONSTELM; struct FunctionTrain * c; double * xs[8]; size_t n[8]; mkround(&c, n, xs); size_t d = c->dim; struct MultiApproxOpts * o = nodeopts(d, n, xs);
  static double T[1024], A[1024], s[64]; size_t N = dense(c, n, xs, T); double nrm = 0; for (size_t i = 0; i < N; i++) nrm += T[i] * T[i]; nrm = sqrt(nrm);
  if (nrm < 1e-3) return;
  NEAR(function_train_norm2(c), nrm, "norm of the train");
  static const double es[] = {1e-12, 1e-8, 1e-4, 1e-2, 0.1, 0.3, 0.6}; double eps = es[ri(0, 6)]; size_t mr = ri(1, 4); int lim = (int) ri(0, 1); h_note(" eps=%g maxrank=%zu", eps, lim ? mr : 0);
  struct FunctionTrain * r = lim ? function_train_round_maxrank_all(c, eps, o, mr) : function_train_round(c, eps, o); wf(r, "rounded");
  double del = nrm * eps / sqrt((double)(d - 1)), bound = 0; size_t rows = 1;
  for (size_t k = 1; k < d; k++){
    rows *= n[k - 1]; size_t cols = N / rows, m = rows < cols ? rows : cols; memcpy(A, T, N * 8); svals((int) rows, (int) cols, A, s);
    double t = 0; size_t need = m; while (need > 1 && t + s[need - 1] * s[need - 1] < del * 0.99 - 1e-13 * nrm * nrm){ t += s[need - 1] * s[need - 1]; need--; }
    if (!(del < 1e-11 * nrm * nrm)) CHECK(r->ranks[k] <= need, "rank %zu is %zu, %zu would do", k, r->ranks[k], need);
    if (lim) CHECK(r->ranks[k] <= mr, "rank %zu is %zu above the maximum %zu", k, r->ranks[k], mr);
    t = 0; for (size_t i = r->ranks[k]; i < m; i++) t += s[i] * s[i]; double b = t; if (!lim || r->ranks[k] < mr) b = del; else if (b < del) b = del; bound += b;
  }
  double err = 0; double * T2 = malloc(N * 8); dense(r, n, xs, T2); for (size_t i = 0; i < N; i++) err += (T[i] - T2[i]) * (T[i] - T2[i]);
  CHECK(err <= bound * 1.0001 + 1e-12 * nrm * nrm, "rounding error %.6g exceeds %.6g", sqrt(err), sqrt(bound));
  free(T2); function_train_free(r); function_train_free(c);
}
TEST("KF", kf_round_rel){   /* known finding: the documented relative threshold bounds the squares, not the norm, of what is discarded */
  hcls = LINELM; double xs[2] = {-1, 1}; struct FunctionTrain * c = function_train_alloc(2); c->ranks[0] = 1; c->ranks[1] = 2; c->ranks[2] = 1; double e[2][2] = {{1, 0}, {0, 0.05}}, u[2][2] = {{1, 0}, {0, 1}};
  for (int k = 0; k < 2; k++){ c->cores[k] = k ? qmarray_alloc(2, 1) : qmarray_alloc(1, 2); for (int i = 0; i < 2; i++){ c->cores[k]->funcs[i] = generic_function_alloc(1, LINELM); c->cores[k]->funcs[i]->f = lin_elem_exp_init(2, xs, k ? u[i] : e[i]); } }
  struct FunctionTrain * r = function_train_round(c, 0.01, nodeopts(2, (size_t[]){2, 2}, (double *[]){xs, xs})); double err = function_train_norm2diff(r, c), n = function_train_norm2(c); CHECK(err <= 0.01 * n * 1.001, "relative rounding error %g with threshold 0.01", err / n);
}
TEST("C06", ft_round_ops){   /* the rounding forms of the combinations */
  hcls = (r64() & 1) ? LINELM : CONSTELM; common_nodes(1); size_t d = ri(1, 3), n = ri(1, 3), ix = ri(1, 2), iy = ri(1, 2); h_note("class=%d dim=%zu n=%zu incx=%zu incy=%zu", hcls, d, n, ix, iy); double x[8], al = rs() * 2, be = rs() * 2, eps = 1e-13; rpoint(d, x); struct MultiApproxOpts * o = rmopts(d);
  #define NEAR5(a, b, w) do { double a_ = (a), b_ = (b); CHECK(fabs(a_ - b_) <= 1e-5 * (1 + fabs(b_)), "%s: got %.17g expected %.17g", w, a_, b_); } while (0)
  struct FT1DArray * X = rarr(n * ix, d, 2), * Y = rarr(n * iy, d, 2), * Y0 = ft1d_array_copy(Y); struct FunctionTrain * z = rft(d, 2), * z0 = function_train_copy(z); double * w = rvec(n * iy), v;
  c3axpy(al, X->ft[0], &z, eps, o); wf(z, "c3axpy"); NEAR5(ftval(z, x), al * ftval(X->ft[0], x) + ftval(z0, x), "rounded c3axpy");
  for (size_t k = 1; k < d; k++) CHECK(z->ranks[k] <= X->ft[0]->ranks[k] + z0->ranks[k], "rank");
  function_train_free(z); z = function_train_copy(z0); c3axpy(al, z0, &z, eps, o); for (size_t k = 1; k < d; k++) CHECK(z->ranks[k] <= z0->ranks[k], "sum with itself is not rounded"); NEAR5(ftval(z, x), (al + 1) * ftval(z0, x), "sum with itself");
  function_train_free(z); z = function_train_copy(z0); v = be * ftval(z, x); for (size_t i = 0; i < n; i++) v += al * prodref(X->ft[i * ix], Y->ft[i * iy], x);
  c3vprodsum(n, al, X, ix, Y, iy, be, &z, eps, o); wf(z, "c3vprodsum"); NEAR5(ftval(z, x), v, "rounded c3vprodsum");
  function_train_free(z); z = function_train_copy(z0); v = be * ftval(z, x); for (size_t i = 0; i < n; i++) v += al * w[i * iy] * ftval(X->ft[i * ix], x);
  c3vaxpy_arr(n, al, X, ix, w, iy, be, &z, eps, o); wf(z, "c3vaxpy_arr"); NEAR5(ftval(z, x), v, "rounded c3vaxpy_arr");
  c3vaxpy(n, al, X, ix, &Y, iy, eps, o); for (size_t j = 0; j < n * iy; j++) NEAR5(ftval(Y->ft[j], x), ftval(Y0->ft[j], x) + (j % iy == 0 ? al * ftval(X->ft[(j / iy) * ix], x) : 0), "rounded c3vaxpy");
  ft1d_array_free(X); ft1d_array_free(Y); ft1d_array_free(Y0); function_train_free(z); function_train_free(z0); free(w);
}
static struct GenericFunction * opsc(const struct GenericFunction * f, void * o){ struct GenericFunction * g = generic_function_copy(f); generic_function_scale(*(double *) o, g); return g; }
struct FunctionTrain * function_train_operate(const struct FunctionTrain *, struct Operator **);
TEST("C06", ft_operate){
  setup(); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"); struct Snap s = snap(a); double c[8], x[8], v = 1; rpoint(d, x); struct Operator os[8], * op[8];
  for (size_t k = 0; k < d; k++){ c[k] = rs() * 3; if (ri(0, 2) == 0){ op[k] = NULL; continue; } os[k].f = opsc; os[k].opts = c + k; op[k] = os + k; v *= c[k]; }
  struct FunctionTrain * b = function_train_operate(a, op); wf(b, "operated"); EQZ(b->dim, d, "dimension"); NEAR(ftval(b, x), v * ftval(a, x), "operated value"); unchanged(&s, a, "operand"); CHECK(disjoint(a, b), "shares storage"); function_train_free(a); function_train_free(b);
}
TEST("C07", ft_hessian_diag){
  hcls = LINELM; common_nodes(1); size_t d = rdim(); struct FunctionTrain * a = rftn(d, 3, "a"); double x[8]; rpoint(d, x);
  for (size_t k = 0; k < d; k++){ size_t n = ri(3, 7); double u[8]; for (size_t i = 0; i < n; i++) u[i] = -1 + 2.0 * (double) i / (double)(n - 1); for (size_t i = 0; i < a->cores[k]->nrows * a->cores[k]->ncols; i++){ generic_function_free(a->cores[k]->funcs[i]); a->cores[k]->funcs[i] = rfunc_n(n, u); } }
  struct Snap s = snap(a);
  for (int per = 0; per < 2; per++){ struct FT1DArray * h = per ? function_train_hessian_diag_periodic(a) : function_train_hessian_diag(a); EQZ(h->size, d, "size of the diagonal");
    for (size_t k = 0; k < d; k++){ struct FunctionTrain * r = der(a, k, per ? 3 : 2); wf(h->ft[k], "second derivative"); NEAR(ftval(h->ft[k], x), ftval(r, x), "diagonal of the Hessian"); function_train_free(r); CHECK(disjoint(h->ft[k], a), "shares storage"); }
    ft1d_array_free(h); }
  unchanged(&s, a, "Hessian changes its operand"); function_train_free(a);
}
