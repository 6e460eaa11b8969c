/* dense tensors, discrete tensor trains and canonical decompositions (C15) */
#include "h.h"
#include "tensor.h"
#include "tensortrain.h"
#include "tt_multilinalg.h"
#include "candecomp.h"
#include "convert_decomp.h"
#include "tt_integrate.h"
static double tv(void){ int k = ri(0, 5); return k == 0 ? 0.0 : k == 1 ? (double)ri(0, 6) - 3.0 : rg(); }
static struct tensor * rt(size_t a, size_t b, size_t c){ size_t n[3] = {a, b, c}; struct tensor * t; init_tensor(&t, 3, n); for (size_t i = 0; i < a * b * c; i++) t->vals[i] = tv(); return t; }
static double te(const struct tensor * t, size_t i, size_t j, size_t k){ return t->vals[i + j * t->nvals[0] + k * t->nvals[0] * t->nvals[1]]; }
static void shape(const struct tensor * t, size_t a, size_t b, size_t c){ EQZ(t->dim, 3, "dimension of a core"); EQZ(t->nvals[0], a, "left size"); EQZ(t->nvals[1], b, "middle size"); EQZ(t->nvals[2], c, "right size"); }
static struct tt * rtt(size_t d, const size_t * n, size_t rmax, int full){ struct tt * t; init_tt_alloc(&t, d, n); t->ranks[0] = t->ranks[d] = 1; for (size_t i = 1; i < d; i++) t->ranks[i] = ri(1, rmax);
  if (full){ for (size_t i = 1; i < d; i++) if (t->ranks[i] > t->ranks[i - 1] * n[i - 1]) t->ranks[i] = t->ranks[i - 1] * n[i - 1]; for (size_t i = d - 1; i > 0; i--) if (t->ranks[i] > t->ranks[i + 1] * n[i]) t->ranks[i] = t->ranks[i + 1] * n[i]; }
  for (size_t i = 0; i < d; i++) t->cores[i] = rt(t->ranks[i], n[i], t->ranks[i + 1]); return t; }
/* element by definition: product of the slices, from the cores' own sizes */
static double el(const struct tt * t, const size_t * e){ double v[512], w[512]; v[0] = 1; size_t r = 1; for (size_t k = 0; k < t->dim; k++){ struct tensor * c = t->cores[k]; CHECK(c->nvals[0] == r && c->nvals[0] == t->ranks[k] && c->nvals[2] == t->ranks[k + 1] && c->nvals[1] == t->nvals[k], "core %zu is %zu x %zu x %zu, the train says %zu x %zu x %zu", k, c->nvals[0], c->nvals[1], c->nvals[2], t->ranks[k], t->nvals[k], t->ranks[k + 1]); for (size_t j = 0; j < c->nvals[2]; j++){ w[j] = 0; for (size_t i = 0; i < r; i++) w[j] += v[i] * te(c, i, e[k], j); } r = c->nvals[2]; memcpy(v, w, r * 8); } CHECK(r == 1, "last rank %zu", r); return v[0]; }
static int next(size_t d, const size_t * n, size_t * e){ for (size_t i = 0; i < d; i++){ if (++e[i] < n[i]) return 1; e[i] = 0; } return 0; }
static void dims(size_t * d, size_t * n, size_t dlo){ *d = ri(dlo, 5); h_note("d=%zu sizes", *d); for (size_t i = 0; i < *d; i++){ n[i] = ri(1, 4); h_note(" %zu", n[i]); } h_note(" "); }
static void note(const char * s, const struct tt * a){ h_note("%s ranks", s); for (size_t i = 1; i < a->dim; i++) h_note(" %zu", a->ranks[i]); h_note(" "); }
static void samett(const struct tt * a, const struct tt * b, const char * what){ EQZ(a->dim, b->dim, what); for (size_t i = 0; i <= a->dim; i++) EQZ(a->ranks[i], b->ranks[i], what); for (size_t k = 0; k < a->dim; k++){ EQZ(a->nvals[k], b->nvals[k], what); shape(a->cores[k], b->cores[k]->nvals[0], b->cores[k]->nvals[1], b->cores[k]->nvals[2]); for (size_t i = 0; i < a->ranks[k] * a->nvals[k] * a->ranks[k + 1]; i++) SAME(a->cores[k]->vals[i], b->cores[k]->vals[i], what); } }
TEST("C15", tt_dense){
  size_t a = ri(1, 5), b = ri(1, 5), c = ri(1, 5), a2 = ri(1, 4), c2 = ri(1, 4); h_note("%zu x %zu x %zu and %zu, %zu ", a, b, c, a2, c2); struct tensor * t = rt(a, b, c), * u;
  for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c; k++){ size_t e[3] = {i, j, k}; SAME(tensor_elem(t, e), te(t, i, j, k), "element"); }
  { size_t d, n[6]; dims(&d, n, 1); struct tensor * m; init_tensor(&m, d, n); EQZ(m->dim, d, "dimension"); size_t N = 1; for (size_t i = 0; i < d; i++){ EQZ(m->nvals[i], n[i], "size"); N *= n[i]; } for (size_t i = 0; i < N; i++){ NEAR(m->vals[i], 0.0, "initial value"); m->vals[i] = (double)i; } size_t e[6] = {0}; size_t q = 0; do { SAME(tensor_elem(m, e), (double)q, "element in order"); q++; } while (next(d, n, e)); free_tensor(&m); }
  u = tensor_copy_3d(t, 0); shape(u, a, b, c); for (size_t i = 0; i < a * b * c; i++) SAME(u->vals[i], t->vals[i], "copy"); CHECK(u->vals != t->vals && u->nvals != t->nvals, "copy shares storage"); free_tensor(&u);
  u = tensor_copy_3d(t, 1); shape(u, c, b, a); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c; k++) SAME(te(u, k, j, i), te(t, i, j, k), "transposed copy"); free_tensor(&u);
  { struct tensor * s = rt(a, b, c2); u = tensor_stack2h_3d(t, s); shape(u, a, b, c + c2); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c + c2; k++) SAME(te(u, i, j, k), k < c ? te(t, i, j, k) : te(s, i, j, k - c), "side by side"); free_tensor(&u); free_tensor(&s); }
  { struct tensor * s = rt(a2, b, c); u = tensor_stack2v_3d(t, s); shape(u, a + a2, b, c); for (size_t i = 0; i < a + a2; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c; k++) SAME(te(u, i, j, k), i < a ? te(t, i, j, k) : te(s, i - a, j, k), "on top of each other"); free_tensor(&u); free_tensor(&s); }
  { struct tensor * s = rt(a2, b, c2); u = tensor_blockdiag_3d(t, s); shape(u, a + a2, b, c + c2); for (size_t i = 0; i < a + a2; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c + c2; k++) NEAR(te(u, i, j, k), i < a && k < c ? te(t, i, j, k) : i >= a && k >= c ? te(s, i - a, j, k - c) : 0.0, "block diagonal"); free_tensor(&u);
    u = tensor_kron_3d(t, s); shape(u, a * a2, b, c * c2); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) for (size_t k = 0; k < c; k++) for (size_t x = 0; x < a2; x++) for (size_t y = 0; y < c2; y++) NEAR(te(u, i * a2 + x, j, k * c2 + y), te(t, i, j, k) * te(s, x, j, y), "Kronecker product"); free_tensor(&u); free_tensor(&s); }
  u = tensor_ones_3d(a, b, c); shape(u, a, b, c); for (size_t i = 0; i < a * b * c; i++) SAME(u->vals[i], 1.0, "ones"); free_tensor(&u);
  double * x = malloc(b * 8); for (size_t i = 0; i < b; i++) x[i] = tv(); u = tensor_x_3d(b, x); shape(u, 1, b, 1); for (size_t i = 0; i < b; i++) SAME(u->vals[i], x[i], "vector"); free_tensor(&u);
  double * s = tensor_sum2(t, x); for (size_t i = 0; i < a; i++) for (size_t k = 0; k < c; k++){ double v = 0; for (size_t j = 0; j < b; j++) v += x[j] * te(t, i, j, k); NEAR(s[i + k * a], v, "weighted sum of slices"); } free(s); free(x); free_tensor(&t);
}
TEST("C15", tt_algebra){
  size_t d, n[6], e[6] = {0}; dims(&d, n, 2); struct tt * a = rtt(d, n, 4, 0), * b = rtt(d, n, 4, 0); note("first", a); note("second", b); struct tt * a0 = copy_tt(a), * b0 = copy_tt(b); samett(a0, a, "copy"); for (size_t k = 0; k < d; k++) CHECK(a0->cores[k] != a->cores[k] && a0->cores[k]->vals != a->cores[k]->vals, "copy shares a core");
  struct tt * s = ttadd(a, b), * m = ttmult(a, b); double dot = tt_dot(a, b), nn = tt_norm(a), rd = 0, rn = 0, mag = 0, * w[6]; for (size_t i = 0; i < d; i++){ w[i] = malloc(n[i] * 8); for (size_t j = 0; j < n[i]; j++) w[i][j] = tv(); } double in = tt_integrate(a, w), ri_ = 0, sc = tv();
  do { double x = el(a, e), y = el(b, e), q = 1; NEAR(ttelem(a, e), x, "element of a train"); NEAR(el(s, e), x + y, "sum"); NEAR(el(m, e), x * y, "product"); for (size_t i = 0; i < d; i++) q *= w[i][e[i]]; ri_ += q * x; rd += x * y; rn += x * x; mag += fabs(x * y) + fabs(q * x); } while (next(d, n, e));
  CHECK(fabs(dot - rd) <= 1e-9 * (1 + mag), "inner product: got %.17g expected %.17g", dot, rd); CHECK(fabs(nn - sqrt(rn)) <= 1e-6 * (1 + sqrt(rn)), "norm: got %.17g expected %.17g", nn, sqrt(rn)); CHECK(fabs(in - ri_) <= 1e-9 * (1 + mag), "weighted sum: got %.17g expected %.17g", in, ri_);
  for (size_t i = 0; i <= d; i++){ EQZ(s->ranks[i], i == 0 || i == d ? 1 : a->ranks[i] + b->ranks[i], "rank of the sum"); EQZ(m->ranks[i], a->ranks[i] * b->ranks[i], "rank of the product"); } samett(a, a0, "first operand changed"); samett(b, b0, "second operand changed");
  ttscal(a, sc); memset(e, 0, sizeof e); do NEAR(el(a, e), sc * el(a0, e), "scaled train"); while (next(d, n, e));
  struct tt * o = tt_ones(d, n); do SAME(el(o, e), 1.0, "train of ones"); while (next(d, n, e)); freett(o); size_t dx = ri(0, d - 1); o = tt_x(w[dx], dx, d, n); do SAME(el(o, e), w[dx][e[dx]], "train of one coordinate"); while (next(d, n, e)); struct tt * p = ttmult(o, b); do NEAR(el(p, e), w[dx][e[dx]] * el(b, e), "coordinate times train"); while (next(d, n, e)); freett(p); freett(o);
  for (size_t i = 0; i < d; i++) free(w[i]); freett(a); freett(b); freett(a0); freett(b0); freett(s); freett(m);
}
TEST("C15", tt_compress){
  size_t d, n[6], e[6] = {0}; dims(&d, n, 2); int how = ri(0, 2); struct tt * a = rtt(d, n, 4, 1); if (how == 1){ struct tt * b = rtt(d, n, 3, 1), * s = ttadd(a, b); int ok = 1; for (size_t i = d - 1; i > 0; i--) if (s->ranks[i] > s->ranks[i + 1] * n[i]) ok = 0; if (ok){ freett(a); a = s; } else freett(s); freett(b); } note("train", a); size_t N = 1; for (size_t i = 0; i < d; i++) N *= n[i];
  struct tensor * f; init_tensor(&f, d, n); size_t q = 0; double nrm = 0; do { f->vals[q] = el(a, e); nrm += f->vals[q] * f->vals[q]; q++; } while (next(d, n, e)); nrm = sqrt(nrm); double tol = 1e-7 * (1 + nrm); struct tensor * f0; init_tensor(&f0, d, n); memcpy(f0->vals, f->vals, N * 8);
  struct tt * c = full_to_tt(f, 1e-20); for (size_t i = 0; i < N; i++) SAME(f->vals[i], f0->vals[i], "tensor changed"); q = 0; do { double v = el(c, e); CHECK(fabs(v - f->vals[q]) <= tol, "compressed tensor: got %.17g expected %.17g", v, f->vals[q]); q++; } while (next(d, n, e));
  { struct tt * z = copy_tt(a); right_left_orth(&z); q = 0; do { double v = el(z, e); CHECK(fabs(v - f->vals[q]) <= tol, "orthogonalized train: got %.17g expected %.17g", v, f->vals[q]); q++; } while (next(d, n, e));
    for (size_t k = 1; k < d; k++) for (size_t i = 0; i < z->ranks[k]; i++) for (size_t j = 0; j < z->ranks[k]; j++){ double s = 0; for (size_t x = 0; x < n[k]; x++) for (size_t y = 0; y < z->ranks[k + 1]; y++) s += te(z->cores[k], i, x, y) * te(z->cores[k], j, x, y); NEAR(s, i == j ? 1.0 : 0.0, "rows of an orthogonalized core"); } freett(z); }
  struct tt * z = copy_tt(a), * r = tt_round(z, 1e-20); q = 0; do { double v = el(r, e); CHECK(fabs(v - f->vals[q]) <= tol, "rounded train: got %.17g expected %.17g", v, f->vals[q]); q++; } while (next(d, n, e)); for (size_t k = 0; k < d; k++){ CHECK(r->ranks[k] <= a->ranks[k], "rounding raised a rank"); shape(r->cores[k], r->ranks[k], n[k], r->ranks[k + 1]); }
  freett(a); freett(c); freett(z); freett(r); free_tensor(&f); free_tensor(&f0);
}
TEST("C15", tt_canonical){
  size_t d, n[6], e[6] = {0}; dims(&d, n, 2); struct candecomp cd; cd.dim = d; cd.rank = ri(1, 4); cd.cores = malloc(d * sizeof(struct mat *)); for (size_t i = 0; i < d; i++){ cd.cores[i] = malloc(sizeof(struct mat)); cd.cores[i]->nrows = n[i]; cd.cores[i]->ncols = cd.rank; cd.cores[i]->vals = malloc(n[i] * cd.rank * 8); for (size_t j = 0; j < n[i] * cd.rank; j++) cd.cores[i]->vals[j] = tv(); } h_note("rank=%zu ", cd.rank);
  struct tt * t = cd2tt(&cd); do { double s = 0; for (size_t r = 0; r < cd.rank; r++){ double p = 1; for (size_t i = 0; i < d; i++) p *= cd.cores[i]->vals[e[i] * cd.rank + r]; s += p; } NEAR(cdelem(&cd, e), s, "element of a canonical decomposition"); NEAR(el(t, e), s, "canonical decomposition as a train"); NEAR(ttelem(t, e), s, "element of that train"); } while (next(d, n, e));
  freett(t); for (size_t i = 0; i < d; i++){ free(cd.cores[i]->vals); free(cd.cores[i]); } free(cd.cores);
}
