/* arrays, dense linear algebra (C09), strings (C12), index sets of cross approximation (C10) */
#include "h.h"
#include "indmanage.h"
#include <limits.h>
static double * rmat(size_t n){ double * a = malloc((n + !n) * 8); for (size_t i = 0; i < n; i++) a[i] = rs(); return a; }
static double * dup(const double * a, size_t n){ double * b = malloc((n + !n) * 8); memcpy(b, a, n * 8); return b; }
static void unchanged(const double * a, const double * b, size_t n, const char * w){ for (size_t i = 0; i < n; i++) SAME(a[i], b[i], w); }
TEST("C09", l_make){
  size_t n = ri(1, 12); double a = rs() * 5, b = a + ru() * 7 + 1e-3, * x; h_note("n=%zu a=%g b=%g", n, a, b);
  x = dones(n); for (size_t i = 0; i < n; i++) SAME(x[i], 1.0, "dones"); free(x);
  x = dzeros(n); for (size_t i = 0; i < n; i++) SAME(x[i], 0.0, "dzeros"); free(x);
  x = calloc_double(n); for (size_t i = 0; i < n; i++) SAME(x[i], 0.0, "calloc_double"); free(x);
  x = darray_val(n, a); for (size_t i = 0; i < n; i++) SAME(x[i], a, "darray_val"); free(x);
  int * z = izeros(n); for (size_t i = 0; i < n; i++) CHECK(z[i] == 0, "izeros"); free(z);
  size_t * s = calloc_size_t(n); for (size_t i = 0; i < n; i++) EQZ(s[i], 0, "calloc_size_t"); free(s);
  z = calloc_int(n); for (size_t i = 0; i < n; i++) CHECK(z[i] == 0, "calloc_int"); free(z);
  x = drandu(n); for (size_t i = 0; i < n; i++) CHECK(x[i] >= -1 && x[i] <= 1, "drandu outside [-1,1]"); free(x);
  { double u = randu(); CHECK(u >= 0 && u <= 1, "randu outside [0,1]"); CHECK(isfinite(randn()), "randn"); }
  x = linspace(a, b, n); SAME(x[n - 1], b, "linspace end"); if (n > 1) SAME(x[0], a, "linspace start"); for (size_t i = 0; i + 1 < n; i++) NEAR(x[i], a + (b - a) * i / (n - 1), "linspace");
  free(x);
  double * row[3] = { NULL, NULL, NULL }; dd_row_linspace(row, 1, a, b, n); CHECK(row[0] == NULL && row[2] == NULL, "dd_row_linspace: other rows"); SAME(row[1][n - 1], b, "dd_row_linspace"); free(row[1]);
  if (n > 1){ int lo = (int) ri(0, 6) - 3, hi = lo + (int) ri(1, 5); x = logspace(lo, hi, n); for (size_t i = 0; i < n; i++) NEAR(x[i] / pow(10, lo + (double) (hi - lo) * i / (n - 1)), 1, "logspace"); free(x); }
  double st = 0.1 + ru(); size_t N; x = arange(a, b, st, &N); EQZ(N, (size_t) floor((b - a) / st) + 1, "arange length"); for (size_t i = 0; i < N; i++){ NEAR(x[i], a + st * i, "arange"); CHECK(x[i] <= b + 1e-12, "arange beyond the end"); } free(x);
}
TEST("C09", l_prod){
  size_t n = ri(0, 8); double * a = rmat(n), p = 1; for (size_t i = 0; i < n; i++) p *= a[i]; NEAR(dprod(n, a), p, "dprod"); free(a);
  int * v = malloc((n + 1) * sizeof(int)), q = 1; size_t * s = malloc((n + 1) * 8), qs = 1; for (size_t i = 0; i < n; i++){ v[i] = (int) ri(0, 8) - 4; if (!v[i]) v[i] = 1; q *= v[i]; s[i] = ri(1, 9); qs *= s[i]; }
  CHECK(iprod(n, v) == q, "iprod"); EQZ(iprod_sz(n, s), qs, "iprod_sz"); free(v); free(s);
  n++; a = rmat(n); double * a0 = dup(a, n); double * d = diag(n, a); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) SAME(d[i * n + j], i == j ? a[i] : 0.0, "diag"); free(d); 
  double m = 0, s2 = 0, sd = 0, * b = rmat(n); for (size_t i = 0; i < n; i++){ m += a[i]; s2 += a[i] * a[i]; sd += (a[i] - b[i]) * (a[i] - b[i]); }
  NEAR(mean(a, n), m / n, "mean"); NEAR(norm2(a, (int) n), sqrt(s2), "norm2"); NEAR(norm2diff(a, b, (int) n), sqrt(sd), "norm2diff"); s = malloc(n * 8); double ms = 0; for (size_t i = 0; i < n; i++) ms += s[i] = ri(0, 50); NEAR(mean_size_t(s, n), ms / n, "mean_size_t"); free(s);
  size_t rows = ri(1, 4), c1 = ri(1, 4), c2 = ri(1, 4); double * u = rmat(rows * c1), * w = rmat(rows * c2), * c = dconcat_cols(rows, c1, c2, u, w); for (size_t i = 0; i < rows * (c1 + c2); i++) SAME(c[i], i < rows * c1 ? u[i] : w[i - rows * c1], "dconcat_cols"); free(c); free(u); free(w);
  unchanged(a, a0, n, "operand changed"); free(a); free(a0); free(b);
}
TEST("C09", l_dd){
  size_t n = ri(1, 4), d = ri(1, 4); double ** a = malloc_dd(n), ** b = malloc_dd(n); for (size_t i = 0; i < n; i++){ a[i] = rmat(d); b[i] = rmat(d); }
  copy_dd(n, d, b, a); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) SAME(b[i][j], a[i][j], "copy_dd"); a[0][0] += 1; CHECK(b[0][0] != a[0][0], "copy_dd shares memory"); free_dd(n, a); double s = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) s += b[i][j]; CHECK(isfinite(s), "copy_dd"); free_dd(n, b); free_dd(3, NULL);
}
TEST("C09 C02", l_vector){
  size_t n = ri(1, 6), k = ri(1, 4); double * x = rmat(n); struct c3Vector * v = c3vector_alloc(n, x), * w = c3vector_copy(v); EQZ(v->size, n, "size"); EQZ(w->size, n, "copied size"); CHECK(v->elem != x && w->elem != v->elem, "shared storage"); CHECK(c3vector_copy(NULL) == NULL, "copy of nothing");
  for (size_t i = 0; i < n; i++){ SAME(v->elem[i], x[i], "vector"); SAME(w->elem[i], x[i], "copied vector"); }
  struct c3Vector ** a = c3vector_array_alloc(k), ** b; for (size_t i = 0; i < k; i++){ CHECK(a[i] == NULL, "array not empty"); if (ri(0, 3)){ size_t m = ri(1, 5); double * y = rmat(m); a[i] = c3vector_alloc(m, y); free(y); } }
  b = c3vector_array_copy(k, a); for (size_t i = 0; i < k; i++){ if (!a[i]){ CHECK(b[i] == NULL, "empty slot"); continue; } CHECK(b[i] != a[i] && b[i]->elem != a[i]->elem, "array copy shares storage"); EQZ(b[i]->size, a[i]->size, "size"); unchanged(a[i]->elem, b[i]->elem, a[i]->size, "copied element"); a[i]->elem[0] += 1; CHECK(b[i]->elem[0] != a[i]->elem[0], "shared"); }
  c3vector_array_free(k, a); c3vector_free(v); for (size_t i = 0; i < n; i++) SAME(w->elem[i], x[i], "copy after freeing the original"); c3vector_free(w); c3vector_array_free(k, b); c3vector_free(NULL); free(x);
}
static struct mat * mk(size_t r, size_t c){ struct mat * m = malloc(sizeof *m); m->nrows = r; m->ncols = c; m->vals = rmat(r * c); return m; }
#define MV(m, i, j) (m)->vals[(i) * (m)->ncols + (j)]
TEST("C09", l_mat){
  size_t n = ri(1, 5), r = ri(1, 4), c = ri(1, 4), c2 = ri(1, 4), r2 = ri(1, 4); double * x = rmat(n); h_note("n=%zu r=%zu c=%zu r2=%zu c2=%zu", n, r, c, r2, c2);
  for (int row = 0; row < 2; row++){ struct mat * m = v2m(n, x, row); EQZ(m->nrows, row ? 1 : n, "v2m rows"); EQZ(m->ncols, row ? n : 1, "v2m cols"); CHECK(m->vals != x, "v2m shares"); unchanged(m->vals, x, n, "v2m"); freemat(m); }
  struct mat * d = diagv2m(n, x); EQZ(d->nrows, n, "diagv2m"); EQZ(d->ncols, n, "diagv2m"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) SAME(MV(d, i, j), i == j ? x[i] : 0.0, "diagv2m"); freemat(d); free(x);
  struct mat * a = mk(r, c), * b = mk(r, c2), * e = mk(r2, c2), * m; double * a0 = dup(a->vals, r * c), * b0 = dup(b->vals, r * c2);
  m = horizcat(a, b); EQZ(m->nrows, r, "horizcat rows"); EQZ(m->ncols, c + c2, "horizcat cols"); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c + c2; j++) SAME(MV(m, i, j), j < c ? MV(a, i, j) : MV(b, i, j - c), "horizcat"); freemat(m);
  m = kron(a, e); EQZ(m->nrows, r * r2, "kron rows"); EQZ(m->ncols, c * c2, "kron cols"); for (size_t i = 0; i < r * r2; i++) for (size_t j = 0; j < c * c2; j++) NEAR(MV(m, i, j), MV(a, i / r2, j / c2) * MV(e, i % r2, j % c2), "kron"); freemat(m);
  const struct mat * ms[3] = { a, e, b }; size_t k = ri(1, 3), R = 0, C = 0; for (size_t i = 0; i < k; i++){ R += ms[i]->nrows; C += ms[i]->ncols; }
  m = block_diag(ms, k); EQZ(m->nrows, R, "block_diag rows"); EQZ(m->ncols, C, "block_diag cols"); double * z = calloc(R * C, 8); size_t ro = 0, co = 0; for (size_t q = 0; q < k; q++){ for (size_t i = 0; i < ms[q]->nrows; i++) for (size_t j = 0; j < ms[q]->ncols; j++) z[(ro + i) * C + co + j] = MV(ms[q], i, j); ro += ms[q]->nrows; co += ms[q]->ncols; } unchanged(m->vals, z, R * C, "block_diag"); free(z); freemat(m);
  struct mat o; mat_ones(&o, r, c); EQZ(o.nrows, r, "mat_ones"); EQZ(o.ncols, c, "mat_ones"); for (size_t i = 0; i < r * c; i++) SAME(o.vals[i], 1.0, "mat_ones"); free(o.vals);
  unchanged(a->vals, a0, r * c, "operand changed"); unchanged(b->vals, b0, r * c2, "operand changed"); free(a0); free(b0); freemat(a); freemat(b); freemat(e);
}
TEST("C09", l_kron){
  int n = (int) ri(1, 4), m = (int) ri(1, 4), k = (int) ri(1, 4), l = (int) ri(1, 4), lda = n + (int) ri(0, 2), ldb = k + (int) ri(0, 2), ldc = n * k + (int) ri(0, 2); h_note("n=%d m=%d k=%d l=%d lda=%d ldb=%d ldc=%d", n, m, k, l, lda, ldb, ldc);
  double * a = rmat(lda * m), * b = rmat(ldb * l), * o = rmat(ldc * m * l), * o0 = dup(o, ldc * m * l); kron_col(n, m, a, lda, k, l, b, ldb, o, ldc);
  for (int j = 0; j < m * l; j++) for (int i = 0; i < ldc; i++) if (i < n * k) NEAR(o[j * ldc + i], a[(j / l) * lda + i / k] * b[(j % l) * ldb + i % k], "kron_col"); else SAME(o[j * ldc + i], o0[j * ldc + i], "padding changed");
  double * v = rmat(n * k), sc = ri(0, 2) ? rs() : 0.0, * w = rmat(m * l), * w0 = dup(w, m * l); if (sc == 0.0) for (int i = 0; i < m * l; i++) w0[i] = 0;
  /* out = scale * out + v (a kron b), all column major */
  vec_kron(n, m, a, lda, k, l, b, ldb, v, sc, w); for (int j = 0; j < m * l; j++){ double s = sc * w0[j]; for (int i = 0; i < n * k; i++) s += v[i] * o[j * ldc + i]; NEAR(w[j], s, "vec_kron"); }
  free(a); free(b); free(o); free(o0); free(v); free(w); free(w0);
}
TEST("C09", l_rows){
  size_t n = ri(1, 8), r = ri(1, n), N = ri(1, 12); double * A = rmat(n * r), * top = malloc(r * r * 8); size_t * rows = malloc(r * 8); for (size_t i = 0; i < r; i++) rows[i] = ri(0, n - 1);
  void getrows(const double *, double *, size_t *, size_t, size_t); double maxabselem(const double *, size_t *, size_t);
  getrows(A, top, rows, n, r); for (size_t j = 0; j < r; j++) for (size_t i = 0; i < r; i++) SAME(top[j * r + i], A[j * n + rows[i]], "getrows");
  { void rows_to_top_col(double *, double *, int *, size_t, size_t); double * B = malloc(n * r * 8), * C = malloc(n * r * 8), * t2 = rvec(r * r); memcpy(B, A, n * r * 8); memcpy(C, A, n * r * 8); int pv[64];
    for (size_t i = 0; i < r; i++) pv[i] = (int)ri(i, n - 1);
    rows_to_top_col(B, t2, pv, n, r);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++){ double z = C[j * n + i]; C[j * n + i] = C[j * n + pv[i]]; C[j * n + pv[i]] = z; SAME(t2[j * r + i], C[j * n + i], "rows_to_top_col top"); }
    for (size_t i = 0; i < n * r; i++) SAME(B[i], C[i], "rows_to_top_col interchanges");
    free(B); free(C); free(t2); }
  double * v = rmat(N); if (ri(0, 1)) v[ri(0, N - 1)] = -v[0]; size_t e = 99, be = 0; double m = maxabselem(v, &e, N); for (size_t i = 1; i < N; i++) if (fabs(v[i]) > fabs(v[be])) be = i; EQZ(e, be, "maxabselem position"); SAME(m, fabs(v[be]), "maxabselem value");
  free(A); free(top); free(rows); free(v);
  size_t K = ri(1, 4), r1 = ri(1, 4), r2 = ri(1, 4), ia = r1 + ri(0, 2), ib = r1 * r2 + ri(0, 2), ic = r2 + ri(0, 2); double * a = rmat(K * ia), * b = rmat(K * ib), * c = rmat(K * ic), * c0 = dup(c, K * ic);
  c3linalg_multiple_vec_mat(K, r1, r2, a, ia, b, ib, c, ic); for (size_t q = 0; q < K; q++) for (size_t j = 0; j < ic; j++) if (j < r2){ double s = 0; for (size_t i = 0; i < r1; i++) s += a[q * ia + i] * b[q * ib + i + j * r1]; NEAR(c[q * ic + j], s, "multiple_vec_mat"); } else SAME(c[q * ic + j], c0[q * ic + j], "padding");
  free(a); free(c); free(c0); ia = r2 + ri(0, 2); ic = r1 + ri(0, 2); a = rmat(K * ia); c = rmat(K * ic); c0 = dup(c, K * ic);
  c3linalg_multiple_mat_vec(K, r1, r2, a, ia, b, ib, c, ic); for (size_t q = 0; q < K; q++) for (size_t j = 0; j < ic; j++) if (j < r1){ double s = 0; for (size_t i = 0; i < r2; i++) s += a[q * ia + i] * b[q * ib + j + i * r1]; NEAR(c[q * ic + j], s, "multiple_mat_vec"); } else SAME(c[q * ic + j], c0[q * ic + j], "padding");
  free(a); free(b); free(c); free(c0);
}
/* ---- factorisations (column major) */
#define CM(a, ld, i, j) (a)[(i) + (j) * (ld)]
static void orth_cols(const double * q, size_t m, size_t n, size_t ld, const char * w){ for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++){ double s = 0; for (size_t k = 0; k < m; k++) s += CM(q, ld, k, i) * CM(q, ld, k, j); NEAR(s, i == j, w); } }
static void orth_rows(const double * q, size_t m, size_t n, size_t ld, const char * w){ for (size_t i = 0; i < m; i++) for (size_t j = 0; j <= i; j++){ double s = 0; for (size_t k = 0; k < n; k++) s += CM(q, ld, i, k) * CM(q, ld, j, k); NEAR(s, i == j, w); } }
TEST("C09", l_qr){
  size_t n = ri(1, 5), m = n + ri(0, 4), lda = m + ri(0, 2); h_note("m=%zu n=%zu lda=%zu", m, n, lda); double * a = rmat(lda * n), * a0 = dup(a, lda * n);
  CHECK(qr(m, n, a, lda) == 0, "qr failed"); orth_cols(a, m, n, lda, "qr: columns not orthonormal"); for (size_t j = 0; j < n; j++) for (size_t i = m; i < lda; i++) SAME(CM(a, lda, i, j), CM(a0, lda, i, j), "qr: padding");
  /* column j of the input is in the span of the first j+1 columns of the output */
  for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++){ double s = 0; for (size_t q = 0; q <= j; q++){ double d = 0; for (size_t k = 0; k < m; k++) d += CM(a, lda, k, q) * CM(a0, lda, k, j); s += d * CM(a, lda, i, q); } NEAR(s, CM(a0, lda, i, j), "qr: span of the columns"); }
  free(a); free(a0);
}
TEST("C09", l_rq){
  size_t m = ri(1, 5), n = m + ri(0, 4), bm = ri(1, 4), ldb = bm + ri(0, 2); h_note("m=%zu n=%zu bm=%zu", m, n, bm); double * a = rmat(m * n), * a0 = dup(a, m * n), * b = rmat(ldb * m), * b0 = dup(b, ldb * m);
  rq_with_rmult(m, n, a, m, bm, m, b, ldb); orth_rows(a, m, n, m, "rq: rows not orthonormal");
  /* b0 * a0 = (b0 R) Q = b Q */
  for (size_t i = 0; i < bm; i++) for (size_t j = 0; j < n; j++){ double s = 0, t = 0; for (size_t k = 0; k < m; k++){ s += CM(b0, ldb, i, k) * CM(a0, m, k, j); t += CM(b, ldb, i, k) * CM(a, m, k, j); } NEAR(t, s, "rq: product"); }
  free(a); free(a0); free(b); free(b0);
}
TEST("C09", l_svd){
  size_t m = ri(1, 5), n = ri(1, 5), k = m < n ? m : n, rk = ri(1, k); h_note("m=%zu n=%zu rank=%zu", m, n, rk); double * l = rmat(m * rk), * r = rmat(rk * n), * a = calloc(m * n, 8); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t q = 0; q < rk; q++) CM(a, m, i, j) += CM(l, m, i, q) * CM(r, rk, q, j);
  double * a0 = dup(a, m * n), * u = malloc(m * m * 8), * s = malloc(k * 8), * vt = malloc(n * n * 8); svd(m, n, m, a, u, s, vt); orth_cols(u, m, m, m, "svd: u"); orth_rows(vt, n, n, n, "svd: vt");
  for (size_t i = 0; i < k; i++) CHECK(s[i] >= 0 && (i == 0 || s[i] <= s[i - 1]), "svd: singular values not ordered");
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++){ double t = 0; for (size_t q = 0; q < k; q++) t += CM(u, m, i, q) * s[q] * CM(vt, n, q, j); NEAR(t, CM(a0, m, i, j), "svd: product"); }
  /* truncation: the smallest rank (at least one) whose squared tail stays below delta */
  memcpy(a, a0, m * n * 8); double * u2, * s2, * v2, delta = ri(0, 1) ? ru() * s[0] * s[0] : 1e-10, tail = 0; size_t er = k; for (size_t i = k; i-- > 1;){ tail += s[i] * s[i]; if (tail >= delta) break; er = i; }
  int sharp = 1; { double t = 0; for (size_t i = k; i-- > 0;){ t += s[i] * s[i]; if (fabs(t - delta) < 1e-9) sharp = 0; } }
  size_t gr = truncated_svd(m, n, m, a, &u2, &s2, &v2, delta); if (sharp){ EQZ(gr, er, "truncated rank"); for (size_t q = 0; q < gr; q++) NEAR(s2[q], s[q], "truncated singular value"); orth_cols(u2, m, gr, m, "truncated u"); orth_rows(v2, gr, n, gr, "truncated vt");
    double err = 0; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++){ double t = 0; for (size_t q = 0; q < gr; q++) t += CM(u2, m, i, q) * s2[q] * CM(v2, gr, q, j); err += (t - CM(a0, m, i, j)) * (t - CM(a0, m, i, j)); } double ex = 0; for (size_t q = gr; q < k; q++) ex += s[q] * s[q]; NEAR(err, ex, "truncation error"); }
  /* pseudo-inverse: the Moore-Penrose conditions */
  if (s[rk - 1] > 1e-2){ memcpy(a, a0, m * n * 8); double * p = malloc(n * m * 8), * ap = calloc(m * m, 8), * pa = calloc(n * n, 8); size_t pr = pinv(m, n, m, a, p, 1e-8); EQZ(pr, rk, "pinv rank");
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) for (size_t q = 0; q < n; q++) CM(ap, m, i, j) += CM(a0, m, i, q) * CM(p, n, q, j); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t q = 0; q < m; q++) CM(pa, n, i, j) += CM(p, n, i, q) * CM(a0, m, q, j);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) CHECK(fabs(CM(ap, m, i, j) - CM(ap, m, j, i)) < 1e-6, "pinv: A P not symmetric"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CHECK(fabs(CM(pa, n, i, j) - CM(pa, n, j, i)) < 1e-6, "pinv: P A not symmetric");
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++){ double t = 0; for (size_t q = 0; q < m; q++) t += CM(ap, m, i, q) * CM(a0, m, q, j); CHECK(fabs(t - CM(a0, m, i, j)) < 1e-6, "pinv: A P A"); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++){ double t = 0; for (size_t q = 0; q < n; q++) t += CM(pa, n, i, q) * CM(p, n, q, j); CHECK(fabs(t - CM(p, n, i, j)) < 1e-6 * (1 + fabs(t)), "pinv: P A P"); } free(p); free(ap); free(pa); }
  /* least squares: the residual is orthogonal to the columns, and the solution is the one of smallest norm (in the row space) */
  memcpy(a, a0, m * n * 8); double * y = rmat(m), * y0 = dup(y, m), * x = malloc(n * 8); linear_ls(m, n, a, y, x); unchanged(y, y0, m, "linear_ls changed the data");
  if (rk == k && s[rk - 1] > 1e-2){ for (size_t j = 0; j < n; j++){ double t = 0; for (size_t i = 0; i < m; i++){ double rr = -y[i]; for (size_t q = 0; q < n; q++) rr += CM(a0, m, i, q) * x[q]; t += CM(a0, m, i, j) * rr; } CHECK(fabs(t) < 1e-6, "linear_ls: residual %g not orthogonal", t); }
    for (size_t q = rk; q < n; q++){ double t = 0; for (size_t j = 0; j < n; j++) t += CM(vt, n, q, j) * x[j]; CHECK(fabs(t) < 1e-6, "linear_ls: not the solution of smallest norm"); } }
  free(l); free(r); free(a); free(a0); free(u); free(s); free(vt); free(u2); free(s2); free(v2); free(y); free(y0); free(x);
}
/* pseudo-inverse from its definition: A = U diag(s) V^T with given singular values over many orders of magnitude, and any cutoff */
TEST("C09", l_pinv){
  generic_values(); size_t m = ri(1, 5), n = ri(1, 5), k = m < n ? m : n; double * g = rmat(m * m), * h = rmat(n * n), * u = malloc(m * m * 8), * v = malloc(n * n * 8), sv[5], s0[5], * a = calloc(m * n, 8), * p = malloc(m * n * 8), * w1, * w2, cut = pow(10, -6 + 9 * ru()); svd(m, m, m, g, u, s0, w1 = malloc(m * m * 8)); svd(n, n, n, h, v, s0, w2 = malloc(n * n * 8));
  size_t r = 0; for (size_t i = 0; i < k; i++){ do sv[i] = pow(10, -6 + 9 * ru()); while (sv[i] > cut / 4 && sv[i] < cut * 4); } for (size_t i = 0; i < k; i++) if (sv[i] >= cut) r++;
  double mx = 0; for (size_t i = 0; i < k; i++) if (sv[i] > mx) mx = sv[i]; for (size_t i = 0; i < k; i++) if (mx > 1e8 * sv[i] || mx * 1e-10 > cut) goto out; /* keep the rounding of the decomposition below the cutoff */
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t q = 0; q < k; q++) CM(a, m, i, j) += CM(u, m, i, q) * sv[q] * CM(v, n, j, q); h_note("m=%zu n=%zu cutoff=%g sv", m, n, cut); for (size_t i = 0; i < k; i++) h_note(" %g", sv[i]);
  EQZ(pinv(m, n, m, a, p, cut), r, "pinv rank"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++){ double t = 0, sc = 0; for (size_t q = 0; q < k; q++) if (sv[q] >= cut){ t += CM(v, n, i, q) / sv[q] * CM(u, m, j, q); if (1 / sv[q] > sc) sc = 1 / sv[q]; } CHECK(fabs(CM(p, n, i, j) - t) <= 1e-5 * sc, "pinv entry: got %.17g expected %.17g", CM(p, n, i, j), t); }
out: free(w1); free(w2); free(g); free(h); free(u); free(v); free(a); free(p);
}
static double detabs(double * a, size_t n){ double d = 1; for (size_t k = 0; k < n; k++){ size_t p = k; for (size_t i = k; i < n; i++) if (fabs(CM(a, n, i, k)) > fabs(CM(a, n, p, k))) p = i; if (CM(a, n, p, k) == 0) return 0; for (size_t j = 0; j < n; j++){ double t = CM(a, n, k, j); CM(a, n, k, j) = CM(a, n, p, j); CM(a, n, p, j) = t; } d *= fabs(CM(a, n, k, k)); for (size_t i = k + 1; i < n; i++){ double f = CM(a, n, i, k) / CM(a, n, k, k); for (size_t j = k; j < n; j++) CM(a, n, i, j) -= f * CM(a, n, k, j); } } return d; }
TEST("C10", x_maxvol){
  generic_values();   /* maxvol needs full column rank */
  size_t r = ri(1, 4), n = r + ri(0, 8); double * A = rmat(n * r), * A0, * inv = malloc(r * r * 8); if (ri(0, 2) == 0 && n > r){ size_t z = ri(0, r - 1); for (size_t j = 0; j < r; j++) A[j * n + z] = 0; } A0 = dup(A, n * r); size_t * rows = malloc(r * 8); h_note("n=%zu r=%zu", n, r);
  CHECK(maxvol_rhs(A, n, r, rows, inv) == 0, "maxvol failed"); unchanged(A, A0, n * r, "maxvol changed its operand"); for (size_t i = 0; i < r; i++){ CHECK(rows[i] < n, "row %zu out of range", rows[i]); for (size_t j = 0; j < i; j++) CHECK(rows[i] != rows[j], "row %zu chosen twice", rows[i]); }
  double * sub = malloc(r * r * 8); for (size_t j = 0; j < r; j++) for (size_t i = 0; i < r; i++) CM(sub, r, i, j) = CM(A, n, rows[i], j); double * s2 = dup(sub, r * r), dt = detabs(s2, r);
  if (dt > 1e-6){ for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++){ double t = 0; for (size_t q = 0; q < r; q++) t += CM(sub, r, i, q) * CM(inv, r, q, j); CHECK(fabs(t - (i == j)) < 1e-6, "inverse of the chosen rows"); }
    double mx = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < r; j++){ double t = 0; for (size_t q = 0; q < r; q++) t += CM(A, n, i, q) * CM(inv, r, q, j); if (fabs(t) > mx) mx = fabs(t); } if (n <= r + 3) CHECK(mx < 1.01 + 1e-6, "submatrix not dominant: %g", mx); }
  else { /* a random matrix has an invertible submatrix */ double best = 0; for (int q = 0; q < 30; q++){ for (size_t i = 0; i < r; i++){ size_t w = ri(0, n - 1); for (size_t j = 0; j < r; j++) CM(sub, r, i, j) = CM(A, n, w, j); } double v = detabs(sub, r); if (v > best) best = v; } CHECK(best < 1e-3, "chosen rows are singular although others are not"); }
  free(A); free(A0); free(inv); free(rows); free(sub); free(s2);
}
static double * SK; static size_t SKm; static double skf(int i, int j, int w, void * a){ (void) w; (void) a; return SK[(size_t) i * SKm + (size_t) j]; }
TEST("C10", x_skeleton){
  size_t n = ri(4, 9), m = ri(4, 9), r = ri(1, 3); double * l = rmat(n * r), * q = rmat(r * m), * A = calloc(n * m, 8); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < r; k++) A[i * m + j] += l[i * r + k] * q[k * m + j];
  double * A0 = dup(A, n * m); size_t * rows = malloc(r * 8), * cols = malloc(r * 8); h_note("n=%zu m=%zu r=%zu", n, m, r); SK = A; SKm = m;
  for (int w = 0; w < 2; w++){ for (size_t i = 0; i < r; i++){ cols[i] = i; rows[i] = i; } int c = w ? skeleton_func(skf, NULL, n, m, r, rows, cols, 1e-5) : skeleton(A, n, m, r, rows, cols, 1e-5); CHECK(c == 1 || c == 2, "skeleton did not converge: %d", c); unchanged(A, A0, n * m, "skeleton changed its operand");
    for (size_t i = 0; i < r; i++){ CHECK(rows[i] < n && cols[i] < m, "index out of range"); for (size_t j = 0; j < i; j++) CHECK(rows[i] != rows[j] && cols[i] != cols[j], "index chosen twice"); }
    double * x = malloc(r * r * 8), * x0, * inv = malloc(r * r * 8); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) CM(x, r, i, j) = A[rows[i] * m + cols[j]]; x0 = dup(x, r * r); if (c == 1 && detabs(x0, r) > 1e-4){ pinv(r, r, r, x, inv, 1e-14);
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++){ double t = 0; for (size_t a = 0; a < r; a++) for (size_t b = 0; b < r; b++) t += A[i * m + cols[a]] * CM(inv, r, a, b) * A[rows[b] * m + j]; CHECK(fabs(t - A[i * m + j]) < 1e-5, "skeleton of an exact low-rank matrix"); } } free(x); free(x0); free(inv); }
  free(l); free(q); free(A); free(A0); free(rows); free(cols);
}
static int skf2(double * x, double y, size_t which, size_t nv, double * out, void * a){ /* which 0: a column at y, values for all x; 1: a row at x value y */ (void) a; for (size_t i = 0; i < nv; i++){ double u = which == 0 ? x[i] : y, v = which == 0 ? y : x[i]; out[i] = (1 + u) * (2 + v) + (SKm > 1 ? u * u * v : 0) + (SKm > 2 ? (u * u * u - u) * v * v : 0); } return 0; }
TEST("C10", x_skeleton2){
  size_t n = ri(4, 8), m = ri(4, 8), r = SKm = ri(1, 3); double * x = linspace(-1 + ru() * .2, 1, n), * y = linspace(-1, 1 + ru(), m), * out = malloc(n * m * 8); struct sk_decomp * k; init_skf(&k, r, n, m); for (size_t i = 0; i < r; i++) k->cols_kept[i] = i; h_note("n=%zu m=%zu r=%zu", n, m, r);
  int c = skeleton_func2(skf2, NULL, &k, x, y, 1e-8); CHECK(c == 1 || c == 2, "did not converge"); sk_decomp_to_full(k, out); if (c == 1) for (size_t i = 0; i < n; i++){ double * row = malloc(m * 8); skf2(y, x[i], 1, m, row, NULL); for (size_t j = 0; j < m; j++) CHECK(fabs(out[i * m + j] - row[j]) < 1e-6, "skeleton of an exact low-rank function: %g for %g", out[i * m + j], row[j]); free(row); }
  free_skf(&k); CHECK(k == NULL, "decomposition not cleared"); free(x); free(y); free(out);
}
TEST("C10", x_fibers){
  struct fiber_list * h = NULL; size_t k = ri(0, 6), n = ri(1, 4), id[6]; double v[6][4]; for (size_t i = 0; i < k; i++){ id[i] = i * 7 + ri(0, 6); for (size_t j = 0; j < n; j++) v[i][j] = rs(); double * t = dup(v[i], n); AddFiber(&h, id[i], t, n); free(t); }
  for (size_t i = 0; i < k; i++){ int e = IndexExists(h, id[i]); CHECK(e == (int) (k - 1 - i), "position of a stored fiber"); double * g = getIndex(h, (size_t) e); for (size_t j = 0; j < n; j++) SAME(g[j], v[i][j], "stored fiber"); } CHECK(IndexExists(h, 1000) == -1, "fiber that was never stored"); DeleteFiberList(&h); CHECK(h == NULL, "list not emptied");
}
/* ---- index sets: a sequence of operations against a plain list of vectors */
struct ix { size_t d, n; double v[64][8]; };
static void ixsame(struct CrossIndex * c, struct ix * m, const char * w){ EQZ(c->d, m->d, w); EQZ(c->n, m->n, w); for (size_t i = 0; i < m->n; i++){ size_t n = 99; double * x = cross_index_get_node_value(c, i, &n); EQZ(n, m->d, "node dimension"); for (size_t j = 0; j < m->d; j++) SAME(x[j], m->v[i][j], w); } }
static struct CrossIndex * rix(struct ix * m, size_t d, size_t n){ struct CrossIndex * c = cross_index_alloc(d); m->d = d; m->n = n; for (size_t i = 0; i < n; i++){ double * x = malloc(d * 8); size_t keep = i && ri(0, 2) == 0 ? ri(0, d) : 0, side = ri(0, 1); /* shares entries with an earlier index */ for (size_t j = 0; j < d; j++) x[j] = m->v[i][j] = (side ? j < keep : j >= d - keep) ? m->v[keep ? ri(0, 1) ? i - 1 : 0 : 0][j] : rs(); cross_index_add_index(c, d, x, 8); free(x); } return c; }
TEST("C10", x_index){
  struct ix m, m2, e; size_t d = ri(0, 2) ? ri(1, 3) : ri(4, 6), n = ri(1, 5), k = ri(1, 5); h_note("d=%zu n=%zu k=%zu", d, n, k); struct CrossIndex * c = rix(&m, d, n), * c2; ixsame(c, &m, "added index");
  c2 = cross_index_copy(c); ixsame(c2, &m, "copied index set"); for (size_t i = 0; i < n; i++){ size_t q; CHECK(cross_index_get_node_value(c, i, &q) != cross_index_get_node_value(c2, i, &q), "copy shares a node"); } CHECK(cross_index_copy(NULL) == NULL, "copy of nothing"); cross_index_free(c2);
  int left = (int) ri(0, 1); double * opt = rmat(k); 
  for (int meth = 0; meth < 3; meth++){ size_t sz = meth == 2 ? ri(1, k) : ri(1, n * k); memset(&e, 0, sizeof e); e.d = d + 1; e.n = sz;
    for (size_t q = 0; q < sz; q++){ size_t o, w; if (meth == 1){ o = q / k; w = q % k; } else if (meth == 0){ o = q % n; w = q / n; } else { w = q; o = n < sz ? (q < n ? q : 0) : q; } for (size_t j = 0; j < d; j++) e.v[q][j + (left != 0)] = m.v[o][j]; e.v[q][left ? 0 : d] = opt[w]; }
    c2 = cross_index_create_nested(meth, left, sz, k, opt, c); ixsame(c2, &e, meth == 0 ? "nested set, method 0" : meth == 1 ? "nested set, method 1" : "nested set, method 2"); cross_index_free(c2); }
  { size_t sz = ri(1, 6), ind[6]; double * nx = rmat(sz); e.d = d + 1; e.n = sz; for (size_t q = 0; q < sz; q++){ ind[q] = ri(0, n - 1); for (size_t j = 0; j < d; j++) e.v[q][j + (left != 0)] = m.v[ind[q]][j]; e.v[q][left ? 0 : d] = nx[q]; } c2 = cross_index_create_nested_ind(left, sz, ind, nx, c); ixsame(c2, &e, "nested set from chosen indices"); cross_index_free(c2); free(nx); }
  ixsame(c, &m, "index set changed");
  { size_t d2 = ri(1, 3), n2 = ri(1, 5); struct CrossIndex * r = rix(&m2, d2, n2); double ** w = cross_index_merge_wspace(c, r); for (size_t i = 0; i < n2; i++) for (size_t j = 0; j < n; j++){ double * x = w[i * n + j]; for (size_t q = 0; q < d; q++) SAME(x[q], m.v[j][q], "merged: left part"); SAME(x[d], 0.0, "merged: free slot"); for (size_t q = 0; q < d2; q++) SAME(x[d + 1 + q], m2.v[i][q], "merged: right part"); } free_dd(n * n2, w);
    w = cross_index_merge_wspace(NULL, r); for (size_t i = 0; i < n2; i++){ SAME(w[i][0], 0.0, "free slot first"); for (size_t q = 0; q < d2; q++) SAME(w[i][q + 1], m2.v[i][q], "right part"); } free_dd(n2, w);
    w = cross_index_merge_wspace(c, NULL); for (size_t i = 0; i < n; i++){ SAME(w[i][d], 0.0, "free slot last"); for (size_t q = 0; q < d; q++) SAME(w[i][q], m.v[i][q], "left part"); } free_dd(n, w); cross_index_free(r);
    r = rix(&m2, d2, n); w = cross_index_merge(c, r); for (size_t i = 0; i < n; i++){ for (size_t q = 0; q < d; q++) SAME(w[i][q], m.v[i][q], "pairwise merge: left part"); for (size_t q = 0; q < d2; q++) SAME(w[i][d + q], m2.v[i][q], "pairwise merge: right part"); } free_dd(n, w); cross_index_free(r); }
  { size_t t = ri(0, 4); cross_index_copylast(c, t); for (size_t q = 0; q < t; q++) memcpy(m.v[m.n + q], m.v[m.n - 1], sizeof m.v[0]); m.n += t; ixsame(c, &m, "copies of the last index"); cross_index_copylast(NULL, 3); }
  cross_index_free(c); cross_index_free(NULL); free(opt);
}
TEST("C10", x_arrinit){
  size_t dim = ri(2, 5), sz[5], mx; struct CrossIndex * ci[5]; double * vals[5]; struct ix e[5]; int rev = (int) ri(0, 1); memset(e, 0, sizeof e);
  for (size_t i = 0; i < dim; i++){ sz[i] = ri(1, 5); vals[i] = rmat(8); } h_note("dim=%zu reverse=%d", dim, rev); (void) mx;
  int ok = 1; if (!rev){ for (size_t i = 2; i < dim; i++) if (sz[i - 1] > sz[i - 1]) ok = 0; } if (!ok) return;
  for (size_t i = 0; i < dim; i++) ci[i] = (void *) 8; cross_index_array_initialize(dim, ci, 0, rev, sz, (void **) vals, 8);
  if (rev){ CHECK(ci[dim - 1] == NULL, "last set not empty"); for (size_t i = dim - 1; i-- > 0;){ e[i].d = dim - 1 - i; e[i].n = sz[i + 1]; for (size_t q = 0; q < sz[i + 1]; q++){ e[i].v[q][0] = vals[i + 1][q]; if (i + 1 < dim - 1){ size_t o = e[i + 1].n < sz[i + 1] ? (q < e[i + 1].n ? q : 0) : q; memcpy(&e[i].v[q][1], e[i + 1].v[o], e[i + 1].d * 8); } } ixsame(ci[i], &e[i], "right index set"); } }
  else { CHECK(ci[0] == NULL, "first set not empty"); for (size_t i = 1; i < dim; i++){ e[i].d = i; e[i].n = sz[i - 1]; for (size_t q = 0; q < sz[i - 1]; q++){ if (i > 1){ size_t o = e[i - 1].n < sz[i - 1] ? (q < e[i - 1].n ? q : 0) : q; memcpy(e[i].v[q], e[i - 1].v[o], (i - 1) * 8); } e[i].v[q][i - 1] = vals[i - 1][q]; } ixsame(ci[i], &e[i], "left index set"); } }
  for (size_t i = 0; i < dim; i++){ cross_index_free(ci[i]); } cross_index_array_initialize(dim, ci, 1, rev, sz, (void **) vals, 8); for (size_t i = 0; i < dim; i++){ CHECK(ci[i] == NULL, "empty index sets"); free(vals[i]); }
}
/* ---- strings */
char * mystrdup(char *);
static char * rstr(size_t n, const char * al){ char * s = malloc(n + 1); size_t k = strlen(al); for (size_t i = 0; i < n; i++) s[i] = al[ri(0, k - 1)]; s[n] = 0; return s; }
static char * sdup(const char * s){ char * t = malloc(strlen(s) + 1); strcpy(t, s); return t; }
static void streq(const char * a, const char * b, const char * w){ CHECK(a && !strcmp(a, b), "%s: got \"%s\" expected \"%s\"", w, a ? a : "(null)", b); }
TEST("C12", t_strip){
  char * s = rstr(ri(0, 7), " ab"), * t = sdup(s); h_note("\"%s\"", s); size_t i = 0, n = strlen(t); while (t[i] == ' ') i++; while (n > i && t[n - 1] == ' ') n--; t[n] = 0; strip_blank_ends(s); streq(s, t + i, "strip_blank_ends"); free(s); free(t);
  s = rstr(ri(0, 7), "(a)b"); t = sdup(s); h_note(" \"%s\"", s); i = 0; n = strlen(t); while (t[i] == '(') i++; while (n > i && t[n - 1] == ')') n--; t[n] = 0; strip_ends(s, '(', ')'); streq(s, t + i, "strip_ends"); free(s); free(t);
}
TEST("C12", t_bite){
  char * s = rstr(ri(0, 8), ",ab"), * o = sdup(s); h_note("\"%s\"", s); char * p = strchr(o, ','), * b = bite_string(s, ','); CHECK(bite_string(NULL, ',') == NULL, "nothing to bite");
  if (!p){ CHECK(b == NULL, "bite without separator"); streq(s, o, "string without separator"); } else { streq(s, p + 1, "rest"); *p = 0; streq(b, o, "bite"); } free(b); free(s); free(o);
  s = rstr(ri(1, 9), "-ab"); o = sdup(s); char * tok = ri(0, 1) ? "--" : ri(0, 1) ? "ab" : "aab"; h_note(" \"%s\" by \"%s\"", s, tok); p = strstr(o, tok); char * tk = sdup(tok); b = bite_string2(s, tk); free(tk);
  if (!p){ CHECK(b == NULL, "bite2 without separator"); streq(s, o, "string without separator (2)"); } else { streq(s, p + strlen(tok), "rest (2)"); *p = 0; streq(b, o, "bite2"); } free(b); free(s); free(o);
}
TEST("C12", t_parse){
  char * s = rstr(ri(0, 9), ",ab"), * o = sdup(s); h_note("\"%s\"", s); size_t N = 99, k = 1; for (char * q = s; *q; q++) k += *q == ','; char ** v = parse_string(s, ',', &N); EQZ(N, k, "number of pieces"); streq(s, o, "parsed string changed"); char * q = o; for (size_t i = 0; i < k; i++){ char * e = strchr(q, ','); if (e) *e = 0; streq(v[i], q, "piece"); q += strlen(q) + 1; free(v[i]); } free(v); free(s); free(o);
  char * a = ri(0, 4) ? rstr(ri(0, 5), "xy") : NULL, * b = ri(0, 4) ? rstr(ri(0, 5), "zw") : NULL, ex[16] = ""; if (a) strcat(ex, a); if (b) strcat(ex, b); char * c = concat_string(a, b); streq(c, ex, "concat_string"); free(c); concat_string_ow(&a, b); streq(a, ex, "concat_string_ow"); char * d = mystrdup(a); CHECK(d != a, "mystrdup shares"); streq(d, a, "mystrdup"); free(d); free(a); free(b);
}
TEST("C12", t_itoa){
  char * itoa(int, char *, int); int base = (int) ri(2, 36), v; switch (ri(0, 5)){ case 0: v = INT_MIN + (int) ri(0, 2); break; case 1: v = INT_MAX - (int) ri(0, 2); break; case 2: { long q = 1; size_t e = ri(0, 31); while (e-- && q * base < INT_MAX) q *= base; v = (int) q - (int) ri(0, 1); if (ri(0, 1)) v = -v; break; } case 3: v = (int) (uint32_t) r64(); break; default: v = (int) (r64() % 2000001) - 1000000; } char * b = malloc(40); CHECK(itoa(v, b, base) == b, "itoa result"); h_note("%d base %d: %s", v, base, b); CHECK(strtol(b, NULL, base) == v, "itoa does not read back"); itoa(v, b, (int) ri(0, 1)); streq(b, "", "unusable base"); itoa(v, b, 37); streq(b, "", "unusable base"); free(b);
}
TEST("C12", t_readtxt){
  size_t r = ri(1, 4), c = ri(1, 4), nr = 99, nc = 99; double v[16]; char buf[1024] = ""; const char * sep[] = { " ", ",", ", ", "\t", "  " }; const char * sp = sep[ri(0, 4)];
  for (size_t i = 0; i < r; i++){ for (size_t j = 0; j < c; j++){ v[i * c + j] = rs() * 100; sprintf(buf + strlen(buf), "%.17g%s", v[i * c + j], j + 1 < c ? sp : ri(0, 1) ? "" : " "); } if (i + 1 < r || ri(0, 1)) strcat(buf, "\n"); } h_note("r=%zu c=%zu separator \"%s\"", r, c, sp);
  char * s = sdup(buf); double * d = readtxt_double_array(s, &nr, &nc); EQZ(nr, r, "rows"); EQZ(nc, c, "columns"); for (size_t i = 0; i < r * c; i++) SAME(d[i], v[i], "number read"); free(d); free(s);
  FILE * f = tmpfile(); if (f){ fputs(buf, f); nr = nc = 99; d = readfile_double_array(f, &nr, &nc); EQZ(nr, r, "rows (file)"); EQZ(nc, c, "columns (file)"); for (size_t i = 0; i < r * c; i++) SAME(d[i], v[i], "number read (file)"); free(d); fclose(f); }
}
