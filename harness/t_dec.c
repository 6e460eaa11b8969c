/* decompositions of function arrays and cross approximation (C13) */
#include "h.h"
#include "approximate.h"
#include "fwrap.h"
static struct OneApproxOpts * ao(size_t n, double * x){ return hcls == LINELM ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, x)) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, x)); }
/* a matrix of functions on the nodes x; some columns repeated or zero */
static struct Qmarray * mat(size_t r, size_t c, size_t n, double * x, int deg){
  struct Qmarray * q = qmarray_alloc(r, c); for (size_t i = 0; i < r * c; i++) q->funcs[i] = rfunc_n(n, x);
  if (deg) for (size_t j = 0; j < c; j++) if (ri(0, 2) == 0) for (size_t i = 0; i < r; i++){ struct GenericFunction * g; if (j && ri(0, 1)) g = generic_function_copy(FN(q, i, j - 1)); else { g = generic_function_copy(FN(q, i, j)); generic_function_scale(0.0, g); } generic_function_free(FN(q, i, j)); FN(q, i, j) = g; }
  return q;
}
static double ipc(struct Qmarray * q, size_t a, struct Qmarray * p, size_t b){ double s = 0; for (size_t i = 0; i < q->nrows; i++) s += generic_function_inner(FN(q, i, a), FN(p, i, b)); return s; }
static double ipr(struct Qmarray * q, size_t a, size_t b){ double s = 0; for (size_t j = 0; j < q->ncols; j++) s += generic_function_inner(FN(q, a, j), FN(q, b, j)); return s; }
static int n_of; static double nodes_of[64];
static void pickn(size_t * n, double ** x, size_t lo, size_t hi){ generic_values(); pick_class(); *n = ri(lo, hi); *x = rnodes(*n); n_of = (int)*n; memcpy(nodes_of, *x, *n * 8); }
static void pick(size_t * n, double ** x){ pickn(n, x, 3, 12); }
#define TOL(a, b, what) do { double a_ = (a), b_ = (b); CHECK(fabs(a_ - b_) <= 1e-6 * (1 + fabs(b_)), "%s: got %.17g expected %.17g", what, a_, b_); } while (0)
TEST("C13", d_qr){
  size_t n; double * x; pick(&n, &x); size_t r = ri(1, 3), c = ri(1, 4); int lq = (int)ri(0, 1), deg = ri(0, 3) == 0; while ((lq ? r : c) > n * (lq ? c : r)) c = ri(1, 4); struct OneApproxOpts * o = ao(n, x); struct Qmarray * A = mat(r, c, n, x, deg), * B = qmarray_copy(A), * Q = NULL; size_t k = lq ? r : c; double * R = NULL; int how = (int)ri(0, 1);
  h_note("class=%d %s %zux%zu nodes=%zu degenerate=%d interface=%d", (int)hcls, lq ? "LQ" : "QR", r, c, n, deg, how);
  if (how){ R = calloc(k * k, 8); Q = qmarray_householder_simple(lq ? "LQ" : "QR", B, R, o); } else CHECK((lq ? qmarray_lq(B, &Q, &R, o) : qmarray_qr(B, &Q, &R, o)) == 0, "return code");
  EQZ(Q->nrows, r, "rows"); EQZ(Q->ncols, c, "columns");
  for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++){ double v = lq ? ipr(Q, i, j) : ipc(Q, i, Q, j); CHECK(fabs(v - (i == j)) < 1e-6, "orthonormality: <%zu,%zu> = %.17g", i, j, v); if (lq ? j > i : i > j) SAME(R[i + j * k] + 0.0, 0.0, "triangular factor"); }
  for (int t = 0; t < 4; t++){ double y = t == 0 ? x[ri(0, n - 1)] : pt(); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ double v = 0; if (lq) for (size_t q = 0; q < r; q++) v += R[i + q * k] * ev(FN(Q, q, j), y); else for (size_t q = 0; q < c; q++) v += ev(FN(Q, i, q), y) * R[q + j * k]; TOL(v, ev(FN(A, i, j), y), "product of the factors"); } }
  qmarray_free(A); qmarray_free(B); qmarray_free(Q); free(R); free(x); one_approx_opts_free_deep(&o);
}
TEST("C13", d_svd){
  size_t n; double * x; pick(&n, &x); size_t r = ri(1, 3), c = ri(1, 4); while (c > n * r) c = ri(1, 4); int deg = ri(0, 3) == 0; struct OneApproxOpts * o = ao(n, x); struct Qmarray * A = mat(r, c, n, x, deg), * B = qmarray_copy(A), * U = NULL; double * lam, * vt, ref[4]; h_note("class=%d %zux%zu nodes=%zu degenerate=%d", (int)hcls, r, c, n, deg);
  lam = malloc(c * 8); vt = malloc(c * c * 8); CHECK(qmarray_svd(B, &U, lam, vt, o) == 0, "return code"); size_t k = c; qmarray_free(B);
  for (int pass = 0; pass < 2; pass++){
    if (pass){ double delta = ri(0, 1) ? 1e-8 : ru() * ref[0] * ref[0], tail = 0; size_t er = c; int sharp = 1; for (size_t i = c; i-- > 1;){ tail += ref[i] * ref[i]; if (tail >= delta) break; er = i; } tail = 0; for (size_t i = c; i-- > 0;){ tail += ref[i] * ref[i]; if (fabs(tail - delta) < 1e-7) sharp = 0; }
      U = NULL; lam = vt = NULL; B = qmarray_copy(A); k = qmarray_truncated_svd(B, &U, &lam, &vt, delta, o); qmarray_free(B); h_note(" delta=%g rank=%zu", delta, k); if (sharp) EQZ(k, er, "rank kept"); for (size_t i = 0; i < k; i++) TOL(lam[i], ref[i], "singular value kept"); }
    else for (size_t i = 0; i < c; i++){ ref[i] = lam[i]; CHECK(lam[i] >= 0 && (!i || lam[i] <= lam[i - 1]), "singular values not ordered"); }
    EQZ(U->nrows, r, "rows"); EQZ(U->ncols, k, "columns");
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++){ double v = ipc(U, i, U, j), w = 0; for (size_t q = 0; q < c; q++) w += vt[i + q * k] * vt[j + q * k]; CHECK(fabs(v - (i == j)) < 1e-6, "left vectors: <%zu,%zu> = %.17g", i, j, v); CHECK(fabs(w - (i == j)) < 1e-6, "right vectors"); }
    double err = 0, ex = 0; for (size_t q = k; q < c; q++) ex += ref[q] * ref[q]; struct Qmarray * D = qmarray_copy(A); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t q = 0; q < k; q++) generic_function_axpy(-lam[q] * vt[q + j * k], FN(U, i, q), FN(D, i, j)); for (size_t j = 0; j < c; j++) err += ipc(D, j, D, j); CHECK(fabs(err - ex) <= 1e-6 * (1 + ex), "squared error of the truncation: %.17g expected %.17g", err, ex); qmarray_free(D); qmarray_free(U); free(lam); free(vt); }
  qmarray_free(A); free(x); one_approx_opts_free_deep(&o);
}
TEST("C13", d_lu){
  size_t n; double * x; pick(&n, &x); size_t r = ri(1, 3), c = ri(1, 4); while (c > n * r) c = ri(1, 4); int deg = c < n && ri(0, 3) == 0; struct OneApproxOpts * o = ao(n, x); struct Qmarray * A = mat(r, c, n, x, deg), * B = qmarray_copy(A), * L = qmarray_alloc(r, c); double * U = calloc(c * c, 8), px[4]; size_t pi[4]; h_note("class=%d %zux%zu nodes=%zu degenerate=%d", (int)hcls, r, c, n, deg);
  int info = qmarray_lu1d(B, L, U, pi, px, o, NULL), zero = 0; for (size_t j = 0; j < c; j++) if (fabs(U[j + j * c]) < 1e-8) zero++; if (!deg) EQZ((size_t)(-info), (size_t)zero, "rank reported");
  for (size_t j = 0; j < c; j++){ CHECK(pi[j] < r, "pivot row"); CHECK(px[j] >= x[0] && px[j] <= x[n - 1], "pivot location"); TOL(generic_function_1d_eval(FN(L, pi[j], j), px[j]), 1.0, "pivot of L"); for (size_t i = 0; i < j; i++){ CHECK(fabs(generic_function_1d_eval(FN(L, pi[i], j), px[i])) < 1e-6, "L does not vanish at an earlier pivot"); CHECK(fabs(U[j + i * c]) < 1e-6, "U not upper triangular"); }
    for (size_t i = 0; i < r; i++) for (size_t q = 0; q < n; q++) CHECK(fabs(generic_function_1d_eval(FN(L, i, j), x[q])) <= 1 + 1e-6, "pivot is not the largest entry"); }
  for (int t = 0; t < 4; t++){ double y = t == 0 ? x[ri(0, n - 1)] : pt(); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ double v = 0; for (size_t q = 0; q < c; q++) v += ev(FN(L, i, q), y) * U[q + j * c]; TOL(v, ev(FN(A, i, j), y), "product of the factors"); } }
  qmarray_free(A); qmarray_free(B); qmarray_free(L); free(U); free(x); one_approx_opts_free_deep(&o);
}
TEST("C13", d_maxvol){
  size_t n; double * x; pick(&n, &x); size_t r = ri(1, 3), c = ri(1, 4); while (c > n * r) c = ri(1, 4); struct OneApproxOpts * o = ao(n, x); struct Qmarray * A = mat(r, c, n, x, 0), * A0 = qmarray_copy(A); double * S = calloc(c * c, 8), px[4]; size_t pi[4]; h_note("class=%d %zux%zu nodes=%zu", (int)hcls, r, c, n);
  qmarray_maxvol1d(A, S, pi, px, o, NULL); for (size_t i = 0; i < r * c; i++) CHECK(samefun(A->funcs[i], A0->funcs[i]), "operand changed");
  for (size_t j = 0; j < c; j++){ CHECK(pi[j] < r, "pivot row"); CHECK(px[j] >= x[0] && px[j] <= x[n - 1], "pivot location"); for (size_t i = 0; i < j; i++) CHECK(pi[i] != pi[j] || px[i] != px[j], "pivot %zu chosen twice", j); }
  double mx = 0; for (size_t q = 0; q < n; q++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ double v = 0; for (size_t k = 0; k < c; k++) v += ev(FN(A, i, k), x[q]) * S[k + j * c]; if (fabs(v) > mx) mx = fabs(v); }
  for (size_t i = 0; i < c; i++) for (size_t j = 0; j < c; j++){ double v = 0; for (size_t k = 0; k < c; k++) v += ev(FN(A, pi[i], k), px[i]) * S[k + j * c]; CHECK(fabs(v - (i == j)) < 1e-5, "inverse of the chosen rows: %.17g", v); }
  CHECK(mx <= 2.04, "chosen rows not dominant: %.17g", mx);
  qmarray_free(A); qmarray_free(A0); free(S); free(x); one_approx_opts_free_deep(&o);
}
TEST("C13", d_absmax){
  size_t n; double * x; pick(&n, &x); size_t r = ri(1, 4), c = ri(1, 4), R = 99, C = 99; struct Qmarray * A = mat(r, c, n, x, ri(0, 2) == 0); double xm = 7, v = -1, mx = 0, * cand = x; size_t nc = n; struct c3Vector * cv = NULL; if (ri(0, 1)){ nc = ri(1, 9); cand = malloc(nc * 8); for (size_t i = 0; i < nc; i++) cand[i] = ri(0, 2) ? pt() : x[ri(0, n - 1)]; cv = c3vector_alloc(nc, cand); } qmarray_absmax1d(A, &xm, &R, &C, &v, cv); h_note("class=%d %zux%zu nodes=%zu candidates=%zu%s", (int)hcls, r, c, n, nc, cv ? " given" : "");
  for (size_t i = 0; i < r * c; i++) for (size_t q = 0; q < nc; q++){ double w = fabs(generic_function_1d_eval(A->funcs[i], cand[q])); if (w > mx) mx = w; } int at = 0; for (size_t q = 0; q < nc; q++) if (xm == cand[q]) at = 1; CHECK(at, "location is not a candidate"); CHECK(R < r && C < c, "position"); CHECK(xm >= x[0] && xm <= x[n - 1], "location"); NEAR(fabs(v), mx, "largest absolute value"); NEAR(fabs(generic_function_1d_eval(FN(A, R, C), xm)), mx, "value at the position found"); qmarray_free(A); if (cv){ c3vector_free(cv); free(cand); } free(x);
}
/* cross approximation of a function that is exactly of low rank on the grid */
static struct FunctionTrain * target; static size_t nev;
static int tf(size_t N, const double * x, double * out, void * arg){ (void)arg; nev += N; for (size_t i = 0; i < N; i++) out[i] = ftval(target, x + i * target->dim); return 0; }
TESTW("C13", d_cross, 1){
  size_t n; double * x; pickn(&n, &x, 10, 16); size_t d = ri(2, 4), tr = ri(1, 5), init = tr + ri(0, 1), kick = 1 + ri(0, 2); int adapt = (int)ri(0, 1); if (adapt && ri(0, 2)){ d = 2; init = ri(1, tr); } size_t rk[8]; rk[0] = rk[d] = 1; for (size_t i = 1; i < d; i++) rk[i] = ri(1, tr < n ? tr : n);
  target = function_train_alloc(d); for (size_t i = 0; i <= d; i++) target->ranks[i] = rk[i]; for (size_t i = 0; i < d; i++){ target->cores[i] = qmarray_alloc(rk[i], rk[i + 1]); for (size_t j = 0; j < rk[i] * rk[i + 1]; j++) target->cores[i]->funcs[j] = rfunc_n(n, x); }
  size_t mxr = init; for (size_t i = 1; i < d; i++) if (rk[i] > mxr) mxr = rk[i]; mxr += ri(0, 2);
  h_note("class=%d d=%zu nodes=%zu init=%zu adapt=%d kick=%zu max=%zu ranks", (int)hcls, d, n, init, adapt, kick, mxr); for (size_t i = 1; i < d; i++) h_note(" %zu", rk[i]);
  struct Fwrap * fw = fwrap_create(d, "general-vec"); fwrap_set_fvec(fw, tf, NULL); struct C3Approx * c = c3approx_create(CROSS, d); double ** st = malloc(d * sizeof(double *)); struct OneApproxOpts * o = ao(n, x);
  for (size_t i = 0; i < d; i++){ c3approx_set_approx_opts_dim(c, i, o); st[i] = malloc(init * 8); size_t of = ri(0, n - init); for (size_t j = 0; j < init; j++) st[i][j] = x[of + j]; }
  c3approx_init_cross(c, init, 0, st); c3approx_set_round_tol(c, 1e-10); c3approx_set_cross_tol(c, 1e-8); c3approx_set_cross_maxiter(c, 10); c3approx_set_adapt_kickrank(c, kick); c3approx_set_adapt_maxrank_all(c, mxr); struct FunctionTrain * f = c3approx_do_cross(c, fw, adapt);
  EQZ(f->dim, d, "dimension"); double nt = function_train_norm2(target), y[8]; for (int t = 0; t < 6; t++){ for (size_t i = 0; i < d; i++) y[i] = ri(0, 2) ? pt() : x[ri(0, n - 1)]; double a = function_train_eval(f, y), b = ftval(target, y); CHECK(fabs(a - b) <= 1e-5 * (1e-3 + nt), "cross approximation of an exactly representable function: got %.17g expected %.17g", a, b); }
  function_train_free(f); function_train_free(target); c3approx_destroy(c); fwrap_destroy(fw); for (size_t i = 0; i < d; i++) free(st[i]); free(st); one_approx_opts_free_deep(&o); free(x);
}
