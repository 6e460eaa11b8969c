/* arrays of functions: structure (C04), algebra (C05), copies (C02) */
#include "h.h"
#define E1 generic_function_1d_eval
static void dims(struct Qmarray * q, size_t r, size_t c, const char * w){ CHECK(q != NULL, "%s: no result", w); EQZ(q->nrows, r, w); EQZ(q->ncols, c, w); }
static int distinct(struct Qmarray * a, struct Qmarray * b){
  if (a->funcs == b->funcs) return 0;
  for (size_t i = 0; i < a->nrows * a->ncols; i++) for (size_t j = 0; j < b->nrows * b->ncols; j++) if (a->funcs[i] == b->funcs[j] || a->funcs[i]->f == b->funcs[j]->f) return 0;
  return 1;
}
TEST("C04", q_alloc){ size_t r = ri(1, 5), c = ri(1, 5); h_note("r=%zu c=%zu", r, c); struct Qmarray * q = qmarray_alloc(r, c); dims(q, r, c, "shape"); for (size_t i = 0; i < r * c; i++) CHECK(q->funcs[i] == NULL, "slot %zu not empty", i); qmarray_free(q); }
TEST("C02 C04", q_copy){
  setup(); size_t r = ri(1, 5), c = ri(1, 5); struct Qmarray * a = rqma(r, c); h_note("r=%zu c=%zu", r, c);
  struct Qmarray * b = qmarray_copy(a); dims(b, r, c, "shape"); CHECK(distinct(a, b), "copy shares memory with the original");
  double x = pt(), * v = malloc(r * c * 8); for (size_t i = 0; i < r * c; i++){ v[i] = E1(a->funcs[i], x); SAME(E1(b->funcs[i], x), v[i], "copied element"); }
  for (size_t i = 0; i < r * c; i++) generic_function_scale(3.0, b->funcs[i]);
  for (size_t i = 0; i < r * c; i++) SAME(E1(a->funcs[i], x), v[i], "original after changing the copy");
  qmarray_free(a); for (size_t i = 0; i < r * c; i++) NEAR(E1(b->funcs[i], x), 3 * v[i], "copy after freeing the original");
  qmarray_free(b);
}
static struct GenericFunction * dbl(const struct GenericFunction * f, void * o){ struct GenericFunction * g = generic_function_copy(f); CHECK(o != NULL, "operator options lost"); generic_function_scale(2.0, g); return g; }
TEST("C04", q_struct){
  setup(); size_t r = ri(1, 4), c = ri(1, 4), k = ri(1, c); h_note("r=%zu c=%zu k=%zu", r, c, k);
  struct Qmarray * a = rqma(r, c), * b; double x = pt();
  b = qmarray_transpose(a); dims(b, c, r, "transpose shape"); CHECK(distinct(a, b), "transpose shares memory");
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) SAME(E1(FN(b, j, i), x), E1(FN(a, i, j), x), "transpose element"); qmarray_free(b);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ SAME(E1(qmarray_get_func(a, i, j), x), E1(FN(a, i, j), x), "get_func"); CHECK(qmarray_get_func_base(a, i, j) == FN(a, i, j)->f, "get_func_base"); }
  EQZ(qmarray_get_nrows(a), r, "nrows"); EQZ(qmarray_get_ncols(a), c, "ncols");
  double * o = malloc(r * c * 8); qmarray_eval(a, x, o); for (size_t i = 0; i < r * c; i++) SAME(o[i], E1(a->funcs[i], x), "eval");
  if (hcls == LINELM){ qmarray_deriv_eval(a, x, o); for (size_t i = 0; i < r * c; i++) SAME(o[i], generic_function_deriv_eval(a->funcs[i], x), "deriv_eval");
    b = qmarray_deriv(a); dims(b, r, c, "deriv shape"); for (size_t i = 0; i < r * c; i++){ struct GenericFunction * d = generic_function_deriv(a->funcs[i]); SAME(E1(b->funcs[i], x), E1(d, x), "deriv element"); generic_function_free(d); } qmarray_free(b);
    b = qmarray_dderiv(a); dims(b, r, c, "dderiv shape"); for (size_t i = 0; i < r * c; i++){ struct GenericFunction * d = generic_function_dderiv(a->funcs[i]); SAME(E1(b->funcs[i], x), E1(d, x), "dderiv element"); generic_function_free(d); } qmarray_free(b); }
  b = qmarray_first_cols(a, k); dims(b, r, k, "leading columns shape"); CHECK(distinct(a, b), "leading columns share memory"); for (size_t i = 0; i < r * k; i++) SAME(E1(b->funcs[i], x), E1(a->funcs[i], x), "leading columns element"); qmarray_free(b);
  b = qmarray_operate_elements(a, NULL); dims(b, r, c, "operate shape"); CHECK(distinct(a, b), "operate shares memory"); for (size_t i = 0; i < r * c; i++) SAME(E1(b->funcs[i], x), E1(a->funcs[i], x), "operate element"); qmarray_free(b);
  struct Operator op = {dbl, &x}; b = qmarray_operate_elements(a, &op); dims(b, r, c, "operate shape"); for (size_t i = 0; i < r * c; i++) NEAR(E1(b->funcs[i], x), 2 * E1(a->funcs[i], x), "operate element"); qmarray_free(b);
  qmarray_free(a); free(o);
}
TEST("C04", q_stack){
  setup(); size_t r = ri(1, 4), c = ri(1, 4), s = ri(1, 4); h_note("r=%zu c=%zu s=%zu", r, c, s); double x = pt();
  struct Qmarray * a = rqma(r, c), * b = rqma(r, s), * d = rqma(s, c), * q;
  q = qmarray_stackh(a, b); dims(q, r, c + s, "stackh shape"); CHECK(distinct(a, q) && distinct(b, q), "stackh shares memory");
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c + s; j++) SAME(E1(FN(q, i, j), x), j < c ? E1(FN(a, i, j), x) : E1(FN(b, i, j - c), x), "stackh element"); qmarray_free(q);
  q = qmarray_stackv(a, d); dims(q, r + s, c, "stackv shape"); CHECK(distinct(a, q) && distinct(d, q), "stackv shares memory");
  for (size_t i = 0; i < r + s; i++) for (size_t j = 0; j < c; j++) SAME(E1(FN(q, i, j), x), i < r ? E1(FN(a, i, j), x) : E1(FN(d, i - r, j), x), "stackv element"); qmarray_free(q);
  size_t r2 = ri(1, 4), c2 = ri(1, 4); struct Qmarray * e = rqma(r2, c2); h_note(" r2=%zu c2=%zu", r2, c2);
  q = qmarray_blockdiag(a, e); dims(q, r + r2, c + c2, "blockdiag shape"); CHECK(distinct(a, q) && distinct(e, q), "blockdiag shares memory");
  for (size_t i = 0; i < r + r2; i++) for (size_t j = 0; j < c + c2; j++) SAME(E1(FN(q, i, j), x) + 0.0, i < r && j < c ? E1(FN(a, i, j), x) + 0.0 : i >= r && j >= c ? E1(FN(e, i - r, j - c), x) + 0.0 : 0.0, "blockdiag element"); qmarray_free(q);
  qmarray_free(a); qmarray_free(b); qmarray_free(d); qmarray_free(e);
}
TEST("C04", q_rowcol){
  setup(); size_t r = ri(1, 4), c = ri(1, 4), i0 = ri(0, r - 1), j0 = ri(0, c - 1); h_note("r=%zu c=%zu i=%zu j=%zu", r, c, i0, j0); double x = pt();
  struct Qmarray * a = rqma(r, c), * b = qmarray_copy(a);
  struct Quasimatrix * q = qmarray_extract_row(a, i0); EQZ(quasimatrix_get_size(q), c, "row size"); for (size_t j = 0; j < c; j++) SAME(E1(quasimatrix_get_func(q, j), x), E1(FN(a, i0, j), x), "row element"); quasimatrix_free(q);
  q = qmarray_extract_column(a, j0); EQZ(quasimatrix_get_size(q), r, "column size"); for (size_t i = 0; i < r; i++) SAME(E1(quasimatrix_get_func(q, i), x), E1(FN(a, i, j0), x), "column element"); quasimatrix_free(q);
  q = quasimatrix_alloc(c); for (size_t j = 0; j < c; j++){ struct GenericFunction * f = rfunc(); quasimatrix_set_func(q, f, j); generic_function_free(f); }
  qmarray_set_row(a, i0, q); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) SAME(E1(FN(a, i, j), x), i == i0 ? E1(quasimatrix_get_func(q, j), x) : E1(FN(b, i, j), x), "after set_row"); quasimatrix_free(q);
  qmarray_free(b); b = qmarray_copy(a);
  q = quasimatrix_alloc(r); for (size_t j = 0; j < r; j++){ struct GenericFunction * f = rfunc(); quasimatrix_set_func(q, f, j); generic_function_free(f); }
  qmarray_set_column(a, j0, q); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) SAME(E1(FN(a, i, j), x), j == j0 ? E1(quasimatrix_get_func(q, i), x) : E1(FN(b, i, j), x), "after set_column"); quasimatrix_free(q);
  qmarray_free(b); b = qmarray_copy(a);
  struct GenericFunction ** g = rfuncs(r); qmarray_set_column_gf(a, j0, g); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) SAME(E1(FN(a, i, j), x), j == j0 ? E1(g[i], x) : E1(FN(b, i, j), x), "after set_column_gf");
  qmarray_free(a); qmarray_free(b); generic_function_array_free(g, r);
}
TEST("C04", q_zeros){
  setup(); size_t r = ri(1, 4), c = ri(1, 4); h_note("r=%zu c=%zu", r, c); struct OneApproxOpts * o = ropts();
  struct Qmarray * q = qmarray_zeros(r, c, o); dims(q, r, c, "zeros shape"); double x = pt(); for (size_t i = 0; i < r * c; i++) CHECK(E1(q->funcs[i], x) == 0.0, "zeros element %zu", i);
}
/* ---------------------------------------------------------------- algebra */
TEST("C05", q_linear){
  setup(); size_t r = ri(1, 4), k = ri(1, 4), c = ri(1, 4); h_note("r=%zu k=%zu c=%zu", r, k, c); double x = pt(), s;
  struct Qmarray * a = rqma(r, k), * q, * z = qmarray_copy(a); double * R = rvec(k * c), * L = rvec(c * r), * M = rvec(r * c);
  q = qmam(a, R, c); dims(q, r, c, "qmam shape"); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ s = 0; for (size_t l = 0; l < k; l++) s += E1(FN(a, i, l), x) * R[l + j * k]; NEAR(E1(FN(q, i, j), x), s, "array times matrix"); } qmarray_free(q);
  q = qmatm(a, M, c); dims(q, k, c, "qmatm shape"); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < c; j++){ s = 0; for (size_t l = 0; l < r; l++) s += E1(FN(a, l, i), x) * M[l + j * r]; NEAR(E1(FN(q, i, j), x), s, "transposed array times matrix"); } qmarray_free(q);
  q = mqma(L, a, c); dims(q, c, k, "mqma shape"); for (size_t i = 0; i < c; i++) for (size_t j = 0; j < k; j++){ s = 0; for (size_t l = 0; l < r; l++) s += L[i + l * c] * E1(FN(a, l, j), x); NEAR(E1(FN(q, i, j), x), s, "matrix times array"); } qmarray_free(q);
  for (size_t i = 0; i < r * k; i++) SAME(E1(a->funcs[i], x), E1(z->funcs[i], x), "operand changed");
  struct Qmarray * b = rqma(r, k), * b0 = qmarray_copy(b); double al = rs(); qmarray_axpy(al, a, b); for (size_t i = 0; i < r * k; i++) NEAR(E1(b->funcs[i], x), al * E1(a->funcs[i], x) + E1(b0->funcs[i], x), "axpy");
  s = 0; for (size_t i = 0; i < r * k; i++) s += generic_function_inner(a->funcs[i], a->funcs[i]); NEAR(qmarray_norm2(a), sqrt(s), "norm");
  for (size_t i = 0; i < r * k; i++) SAME(E1(a->funcs[i], x), E1(z->funcs[i], x), "operand changed");
  if (hcls == LINELM){ s = 0; for (size_t i = 0; i < r * k; i++){ struct GenericFunction * d = generic_function_daxpby(1, a->funcs[i], -1, b->funcs[i]); s += generic_function_inner(d, d); generic_function_free(d); } NEAR(qmarray_norm2diff(a, b), sqrt(s), "norm of the difference"); }
  qmarray_free(a); qmarray_free(b); qmarray_free(b0); qmarray_free(z); free(R); free(L); free(M);
}
TEST("C05", q_prod){
  setup(); size_t r = ri(1, 4), k = ri(1, 4), c = ri(1, 4); h_note("r=%zu k=%zu c=%zu", r, k, c); double x = pt(), s, * v;
  struct Qmarray * a = rqma(r, k), * at = rqma(k, r), * b = rqma(k, c), * bt = rqma(c, k), * q;
  for (int m = 0; m < 4; m++){
    struct Qmarray * A = m & 1 ? at : a, * B = m & 2 ? bt : b; static const char * nm[] = {"a*b", "a^T*b", "a*b^T", "a^T*b^T"}; h_note(" %s", nm[m]);
    q = m == 0 ? qmaqma(A, B) : m == 1 ? qmatqma(A, B) : m == 2 ? qmaqmat(A, B) : qmatqmat(A, B); dims(q, r, c, "product shape");
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ s = 0; for (size_t l = 0; l < k; l++) s += pev(m & 1 ? FN(A, l, i) : FN(A, i, l), m & 2 ? FN(B, j, l) : FN(B, l, j), x); NEAR(E1(FN(q, i, j), x), s, "product element"); }
    qmarray_free(q);
    v = m == 0 ? qmaqma_integrate(A, B) : m == 1 ? qmatqma_integrate(A, B) : m == 2 ? qmaqmat_integrate(A, B) : qmatqmat_integrate(A, B);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ s = 0; for (size_t l = 0; l < k; l++) s += generic_function_inner(m & 1 ? FN(A, l, i) : FN(A, i, l), m & 2 ? FN(B, j, l) : FN(B, l, j)); NEAR(v[m == 3 ? j + i * c : i + j * r], s, "integrated product element"); }
    free(v);
  }
  v = qmarray_integrate(a); for (size_t i = 0; i < r * k; i++) NEAR(v[i], generic_function_integrate(a->funcs[i]), "integral of an element"); free(v);
  qmarray_free(a); qmarray_free(at); qmarray_free(b); qmarray_free(bt);
}
TEST("C05", q_kron){
  setup(); common_nodes(1); size_t ra = ri(1, 3), ca = ri(1, 3), rb = ri(1, 3), cb = ri(1, 3); h_note("a %zux%zu b %zux%zu", ra, ca, rb, cb); double x = pt(), s, * v;
  struct Qmarray * a = rqma(ra, ca), * b = rqma(rb, cb), * q; size_t R = ra * rb, C = ca * cb;
  #define KE(i, j) pev(FN(a, (i) / rb, (j) / cb), FN(b, (i) % rb, (j) % cb), x)
  #define KI(i, j) generic_function_inner(FN(a, (i) / rb, (j) / cb), FN(b, (i) % rb, (j) % cb))
  q = qmarray_kron(a, b); dims(q, R, C, "kron shape"); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) NEAR(E1(FN(q, i, j), x), KE(i, j), "kron element"); qmarray_free(q);
  v = qmarray_kron_integrate(a, b); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) NEAR(v[i + j * R], KI(i, j), "integrated kron element"); free(v);
  double * l = rvec(R);   /* l is ordered with the index of the first array fastest */
  v = qmarray_vec_kron_integrate(l, a, b); for (size_t j = 0; j < C; j++){ s = 0; for (size_t i = 0; i < R; i++) s += l[i / rb + (i % rb) * ra] * KI(i, j); NEAR(v[j / cb + (j % cb) * ca], s, "integrated vec_kron element"); } free(v); free(l);
  size_t m = ri(1, 3); h_note(" m=%zu", m); l = rvec(m * R); q = qmarray_mat_kron(m, l, a, b); dims(q, m, C, "mat_kron shape"); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < C; j++){ s = 0; for (size_t k = 0; k < R; k++) s += l[i + k * m] * KE(k, j); NEAR(E1(FN(q, i, j), x), s, "mat_kron element"); } qmarray_free(q); free(l);
  l = rvec(C * m); q = qmarray_kron_mat(m, l, a, b); dims(q, R, m, "kron_mat shape"); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < m; j++){ s = 0; for (size_t k = 0; k < C; k++) s += KE(i, k) * l[k + j * C]; NEAR(E1(FN(q, i, j), x), s, "kron_mat element"); } qmarray_free(q); free(l);
  l = rvec(R); q = qmarray_vec_kron(l, a, b); EQZ(q->nrows * q->ncols, C, "vec_kron size"); for (size_t j = 0; j < C; j++){ s = 0; for (size_t i = 0; i < R; i++) s += l[i / rb + (i % rb) * ra] * KE(i, j); NEAR(E1(FN(q, j % cb, j / cb), x), s, "vec_kron element"); } free(l); qmarray_free(q);
  qmarray_free(a); qmarray_free(b);
}
TEST("C05", q_block_kron){
  setup(); common_nodes(1); size_t nb = ri(1, 3), m = ri(1, 3), rr = ri(1, 3), rc = ri(1, 3), R = 0, C = 0, r0[4], c0[4]; char ty = "DRC"[ri(0, 2)]; int left = (int) ri(0, 1); double x = pt(), s; h_note("type=%c left=%d blocks=%zu m=%zu right %zux%zu", ty, left, nb, m, rr, rc);
  struct Qmarray * bl[4], * rt = rqma(rr, rc); size_t fr = ri(1, 3), fc = ri(1, 3);
  for (size_t b = 0; b < nb; b++){ size_t r = ty == 'R' ? fr : ri(1, 3), c = ty == 'C' ? fc : ri(1, 3); h_note(" %zux%zu", r, c); bl[b] = rqma(r, c); r0[b] = ty == 'R' ? 0 : R; c0[b] = ty == 'C' ? 0 : C; if (ty == 'R') R = r; else R += r; if (ty == 'C') C = c; else C += c; }
  double * K = calloc(R * rr * C * rc, 8);   /* value of kron(block matrix, right) */
  for (size_t b = 0; b < nb; b++) for (size_t i = 0; i < bl[b]->nrows; i++) for (size_t j = 0; j < bl[b]->ncols; j++) for (size_t k = 0; k < rr; k++) for (size_t l = 0; l < rc; l++) K[(r0[b] + i) * rr + k + ((c0[b] + j) * rc + l) * R * rr] = pev(FN(bl[b], i, j), FN(rt, k, l), x);
  double * mat = rvec(left ? m * R * rr : C * rc * m); struct Qmarray * o = left ? qmarray_alloc(m, C * rc) : qmarray_alloc(R * rr, m);
  qmarray_block_kron_mat(ty, left, nb, bl, rt, m, mat, o);
  if (left) for (size_t i = 0; i < m; i++) for (size_t j = 0; j < C * rc; j++){ s = 0; for (size_t k = 0; k < R * rr; k++) s += mat[i + k * m] * K[k + j * R * rr]; NEAR(E1(FN(o, i, j), x), s, "matrix times block kron"); }
  else for (size_t i = 0; i < R * rr; i++) for (size_t j = 0; j < m; j++){ s = 0; for (size_t k = 0; k < C * rc; k++) s += K[i + k * R * rr] * mat[k + j * C * rc]; NEAR(E1(FN(o, i, j), x), s, "block kron times matrix"); }
  for (size_t b = 0; b < nb; b++) qmarray_free(bl[b]); qmarray_free(rt); qmarray_free(o); free(mat); free(K);
}
TEST("C05", g_comb){
  setup(); size_t n = ri(1, 6), lda = ri(1, 3), ldb = ri(1, 3); if (ri(0, 99) == 0){ n = ri(7, 300); common_nodes(1); } h_note("n=%zu lda=%zu ldb=%zu", n, lda, ldb); double x = pt(), s = 0, t = 0, u = 0, a = rs(), b = rs();
  struct GenericFunction ** f = rfuncs(n * lda), ** g = rfuncs(n * ldb), * h; double * c = rvec(n * ldb);
  for (size_t i = 0; i < n; i++){ s += c[i * ldb] * E1(f[i * lda], x); t += pev(f[i * lda], g[i * ldb], x); u += generic_function_inner(f[i * lda], g[i * ldb]); }
  h = generic_function_lin_comb2(n, lda, f, ldb, c); NEAR(E1(h, x), s, "linear combination with strides"); generic_function_free(h);
  h = generic_function_sum_prod(n, lda, f, ldb, g); NEAR(E1(h, x), t, "sum of products"); generic_function_free(h);
  NEAR(generic_function_inner_sum(n, lda, f, ldb, g), u, "sum of inner products");
  s = 0; for (size_t i = 0; i < n; i++) s += c[i] * E1(f[i], x); h = generic_function_lin_comb(n, f, c); NEAR(E1(h, x), s, "linear combination"); generic_function_free(h);
  h = generic_function_daxpby(a, f[0], b, g[0]); NEAR(E1(h, x), a * E1(f[0], x) + b * E1(g[0], x), "a f + b g"); generic_function_free(h);
  h = generic_function_daxpby(a, f[0], b, NULL); NEAR(E1(h, x), a * E1(f[0], x), "a f"); generic_function_free(h);
  h = generic_function_daxpby(a, NULL, b, g[0]); NEAR(E1(h, x), b * E1(g[0], x), "b g"); generic_function_free(h);
  generic_function_array_free(f, n * lda); generic_function_array_free(g, n * ldb); free(c);
}
