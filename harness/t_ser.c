/* serialization (C01): exact size, exact round trip, nothing outside the announced bytes is touched */
#include "h.h"
#include <unistd.h>
#include "probability.h"
typedef unsigned char uc;
static char * scratchfile(void){ static char p[4200]; ssize_t n = readlink("/proc/self/exe", p, 4000); if (n < 0) n = 0; p[n] = 0; snprintf(p + n, 100, ".%d.tmp", (int)getpid()); return p; }
static void samebits(const double * a, const double * b, size_t n, const char * w){ for (size_t i = 0; i < n; i++) SAME(a[i], b[i], w); }
static void same_gf(const struct GenericFunction * a, const struct GenericFunction * b){
  CHECK(a->fc == b->fc, "class: got %d expected %d", (int)a->fc, (int)b->fc); EQZ(a->dim, b->dim, "dimension of a function");
  if (a->fc == LINELM){ struct LinElemExp * u = a->f, * v = b->f; EQZ(u->num_nodes, v->num_nodes, "nodes"); samebits(u->nodes, v->nodes, v->num_nodes, "node"); samebits(u->coeff, v->coeff, v->num_nodes, "coefficient"); }
  if (a->fc == CONSTELM){ struct ConstElemExp * u = a->f, * v = b->f; EQZ(u->num_nodes, v->num_nodes, "nodes"); samebits(u->nodes, v->nodes, v->num_nodes, "node"); samebits(u->coeff, v->coeff, v->num_nodes, "coefficient"); }
  size_t np = generic_function_get_num_params(b); EQZ(generic_function_get_num_params(a), np, "number of parameters"); double * p = malloc(np * 8 + 8), * q = malloc(np * 8 + 8); generic_function_get_params(a, p); generic_function_get_params(b, q); samebits(p, q, np, "parameter"); free(p); free(q);
  SAME(generic_function_get_lb(a), generic_function_get_lb(b), "lower bound"); SAME(generic_function_get_ub(a), generic_function_get_ub(b), "upper bound");
  for (int i = 0; i < 3; i++){ double x = pt(); SAME(generic_function_1d_eval(a, x), generic_function_1d_eval(b, x), "value"); }
}
static void same_q(const struct Qmarray * a, const struct Qmarray * b){ EQZ(a->nrows, b->nrows, "rows"); EQZ(a->ncols, b->ncols, "columns"); for (size_t i = 0; i < b->nrows * b->ncols; i++) same_gf(a->funcs[i], b->funcs[i]); }
static void same_ft(struct FunctionTrain * a, struct FunctionTrain * b){ EQZ(a->dim, b->dim, "dimension"); for (size_t i = 0; i <= b->dim; i++) EQZ(a->ranks[i], b->ranks[i], "rank"); for (size_t i = 0; i < b->dim; i++) same_q(a->cores[i], b->cores[i]);
  double x[64]; for (int k = 0; k < 2; k++){ rpoint(b->dim, x); SAME(function_train_eval(a, x), function_train_eval(b, x), "value of the function train"); } }
static void same_arr(struct FT1DArray * a, struct FT1DArray * b){ EQZ(a->size, b->size, "size"); for (size_t i = 0; i < b->size; i++) same_ft(a->ft[i], b->ft[i]); }
static void same_lt(struct LinearTransform * a, struct LinearTransform * b){ EQZ(a->dimin, b->dimin, "input dimension"); EQZ(a->dimout, b->dimout, "output dimension"); samebits(a->A, b->A, a->dimin * a->dimout, "matrix"); samebits(a->b, b->b, a->dimout, "shift"); SAME(a->det, b->det, "determinant"); CHECK(a->mt == b->mt, "matrix type"); CHECK((a->Ainv == NULL) == (b->Ainv == NULL), "inverse present");
  if (b->Ainv){ samebits(a->Ainv, b->Ainv, a->dimin * a->dimout, "inverse"); samebits(a->binv, b->binv, a->dimin, "inverse shift"); SAME(a->detinv, b->detinv, "inverse determinant"); CHECK(a->mti == b->mti, "inverse matrix type"); } }
/* the announced size is exact (the buffer is exactly that large: any byte beyond is a memory error), also in the middle of a larger stream at any offset */
#define ROUND(T, obj, SER, DES, SAMEF, FREE) do { \
  size_t n_ = 12345; CHECK(SER(NULL, obj, &n_) == NULL, "asking for the size does not move the stream"); \
  uc * b_ = malloc(n_), * e_ = SER(b_, obj, NULL); CHECK(e_ == b_ + n_, "bytes written: %ld, announced %zu", (long)(e_ - b_), n_); \
  T * o_ = NULL; uc * d_ = DES(b_, &o_); CHECK(d_ == b_ + n_, "bytes read: %ld, written %zu", (long)(d_ - b_), n_); SAMEF(o_, obj); \
  size_t m_ = 0; SER(NULL, o_, &m_); EQZ(m_, n_, "size of the reread object"); uc * c_ = malloc(n_); SER(c_, o_, NULL); CHECK(!memcmp(b_, c_, n_), "bytes of the reread object"); FREE(o_); o_ = NULL; \
  size_t of_ = ri(0, 17), j_; uc * w_ = malloc(of_ + n_ + 9); for (j_ = 0; j_ < of_ + n_ + 9; j_++) w_[j_] = (uc)(j_ * 37 + 11); CHECK(SER(w_ + of_, obj, NULL) == w_ + of_ + n_, "position in a larger stream"); \
  for (j_ = 0; j_ < of_ + n_ + 9; j_++) if (j_ < of_ || j_ >= of_ + n_) CHECK(w_[j_] == (uc)(j_ * 37 + 11), "byte outside the object changed"); CHECK(!memcmp(w_ + of_, b_, n_), "bytes do not depend on the position"); \
  CHECK(DES(w_ + of_, &o_) == w_ + of_ + n_, "position after reading in a larger stream"); CHECK(!memcmp(w_ + of_, b_, n_), "reading does not change the stream"); SAMEF(o_, obj); memset(w_, 0xEE, of_ + n_ + 9); SAMEF(o_, obj); FREE(o_); free(w_); free(b_); free(c_); } while (0)
static double wild(void){ switch (ri(0, 9)){ case 0: return 0.0; case 1: return -0.0; case 2: return 5e-324 * (double)ri(1, 99); case 3: return 1.7e308 * rs(); case 4: return rs() * 1e-200; default: return rs() * 1e3; } }
static size_t bigsize(void){ size_t k = ri(0, 399); return k == 0 ? ri(65530, 66000) : k < 8 ? ri(250, 300) : k < 16 ? ((size_t)1 << ri(4, 13)) + ri(0, 2) - 1 : ri(0, 9); }
TEST("C01", s_prim){
  uc buf[8]; int v = (int)(uint32_t)r64(), w = 0; CHECK(serialize_int(buf, v) == buf + 4, "int size"); CHECK(deserialize_int(buf, &w) == buf + 4, "int size"); CHECK(v == w, "int: got %d expected %d", w, v);
  size_t s = r64() >> ri(0, 63), t = 0; CHECK(serialize_size_t(buf, s) == buf + 8, "size_t size"); CHECK(deserialize_size_t(buf, &t) == buf + 8, "size_t size"); EQZ(t, s, "size_t");
  double x = wild(), y = 1; CHECK(serialize_double(buf, x) == buf + 8, "double size"); CHECK(deserialize_double(buf, &y) == buf + 8, "double size"); SAME(y, x, "double");
  uc one[1]; char ch = (char)r64(); CHECK(serialize_char(one, ch) == one + 1, "char size"); CHECK((char)one[0] == ch, "char");
  size_t n = bigsize(); double * a = malloc(n * 8), * b = NULL; for (size_t i = 0; i < n; i++) a[i] = wild(); uc * st = malloc(8 + 8 * n); CHECK(serialize_doublep(st, a, n) == st + 8 + 8 * n, "array size"); size_t m = 77; CHECK(deserialize_doublep(st, &b, &m) == st + 8 + 8 * n, "array size"); EQZ(m, n, "length"); samebits(b, a, n, "array"); free(a); free(b); free(st);
}
TEST("C01", s_gf){
  setup3(); size_t n = hcls == KERNEL ? ri(1, 9) + (ri(0, 49) ? 0 : 300) : bigsize() + 2; h_note("n=%zu ", n); double * nd = rnodes(n); struct GenericFunction * f;
  if (hcls == KERNEL){ struct KernelApproxOpts * ko = kernel_approx_opts_gauss(n, nd, 1.0 + ru(), 0.1 + ru()); kernel_approx_opts_set_lb(ko, -1 - ru()); kernel_approx_opts_set_ub(ko, 1 + ru()); int ad = (int)ri(0, 1); if (ad) kernel_approx_opts_set_center_adapt(ko, 1); double * c = rvec(2 * n); f = generic_function_create_with_params(KERNEL, ko, ad ? 2 * n : n, c); free(c); kernel_approx_opts_free(ko); }
  else { f = rfunc_n(n, nd); if (ri(0, 1)){ double * c = malloc(n * 8); for (size_t i = 0; i < n; i++) c[i] = rs() * 1e-300; generic_function_update_params(f, n, c); free(c); } }
  ROUND(struct GenericFunction, f, serialize_generic_function, deserialize_generic_function, same_gf, generic_function_free);
  if (hcls == LINELM) ROUND(struct LinElemExp, ((struct LinElemExp *)f->f), serialize_lin_elem_exp, deserialize_lin_elem_exp, (void), lin_elem_exp_free);
  if (hcls == CONSTELM) ROUND(struct ConstElemExp, ((struct ConstElemExp *)f->f), serialize_const_elem_exp, deserialize_const_elem_exp, (void), const_elem_exp_free);
  if (hcls == KERNEL) ROUND(struct KernelExpansion, ((struct KernelExpansion *)f->f), serialize_kernel_expansion, deserialize_kernel_expansion, (void), kernel_expansion_free);
  generic_function_free(f); free(nd);
}
TEST("C01", s_qm){
  setup3(); size_t r = ri(1, 5), c = ri(1, 5); if (ri(0, 99) == 0){ r = ri(250, 270); c = 1; } if (ri(0, 99) == 0){ c = ri(250, 270); r = 1; } h_note("%zux%zu ", r, c); struct Qmarray * q = rqma(r, c);
  ROUND(struct Qmarray, q, qmarray_serialize, qmarray_deserialize, same_q, qmarray_free); qmarray_free(q);
}
static void same_quasi(struct Quasimatrix * a, struct Quasimatrix * b){ EQZ(quasimatrix_get_size(a), quasimatrix_get_size(b), "size"); for (size_t i = 0; i < quasimatrix_get_size(b); i++) same_gf(quasimatrix_get_func(a, i), quasimatrix_get_func(b, i)); }
TEST("C01", s_quasi){
  setup3(); size_t n = ri(0, 9); if (ri(0, 99) == 0) n = ri(250, 270); h_note("n=%zu ", n); struct Quasimatrix * q = quasimatrix_alloc(n); for (size_t i = 0; i < n; i++){ struct GenericFunction * f = rfunc(); quasimatrix_set_func(q, f, i); generic_function_free(f); }
  ROUND(struct Quasimatrix, q, quasimatrix_serialize, quasimatrix_deserialize, same_quasi, quasimatrix_free); quasimatrix_free(q);
}
static struct FunctionTrain * anyft(void){ size_t d = ri(1, 6); if (ri(0, 199) == 0) d = ri(30, 50); struct FunctionTrain * f = rft(d, d > 6 ? 2 : 4); h_note("dim=%zu ", d); return f; }
TEST("C01", s_ft){ setup3(); struct FunctionTrain * f = anyft(); ROUND(struct FunctionTrain, f, function_train_serialize, function_train_deserialize, same_ft, function_train_free); function_train_free(f); }
static struct FT1DArray * anyarr(void){ size_t n = ri(0, 4); struct FT1DArray * a = ft1d_array_alloc(n); for (size_t i = 0; i < n; i++) a->ft[i] = rft(ri(1, 4), 3); h_note("size=%zu ", n); return a; }
TEST("C01", s_arr){ setup3(); struct FT1DArray * a = anyarr(); ROUND(struct FT1DArray, a, ft1d_array_serialize, ft1d_array_deserialize, same_arr, ft1d_array_free); ft1d_array_free(a); }
static struct LinearTransform * anylt(void){ size_t m = ri(1, 5), n = ri(1, 5); double * A = rvec(m * n), * b = rvec(n); struct LinearTransform * l = linear_transform_alloc(m, n, A, b, rs()); l->mt = (enum lt_matrix_type)ri(0, 2); l->mti = LT; if (ri(0, 1)){ l->Ainv = rvec(m * n); l->binv = rvec(m); l->detinv = rs(); l->mti = (enum lt_matrix_type)ri(0, 2); } free(A); free(b); h_note("transform %zu->%zu inverse=%d ", m, n, l->Ainv != NULL); return l; }
static void same_pdf(struct ProbabilityDensity * a, struct ProbabilityDensity * b){ CHECK(a->transform == b->transform, "transform flag"); CHECK(a->type == b->type, "type"); same_ft(a->pdf, b->pdf); same_lt(a->lt, b->lt); CHECK(a->extra == NULL, "extra"); }
static struct ProbabilityDensity * anypdf(void){ struct ProbabilityDensity * p = probability_density_alloc(); p->pdf = rft(ri(1, 4), 3); p->lt = anylt(); p->transform = (int)ri(0, 1); p->type = (enum pdf_type)ri(0, 1); return p; }
TEST("C01", s_lt){ struct LinearTransform * l = anylt(); ROUND(struct LinearTransform, l, linear_transform_serialize, linear_transform_deserialize, same_lt, linear_transform_free); linear_transform_free(l); }
TEST("C02", s_ltcopy){ struct LinearTransform * l = anylt(), * c = linear_transform_copy(l); same_lt(c, l); CHECK(c->A != l->A && c->b != l->b && (!l->Ainv || (c->Ainv != l->Ainv && c->binv != l->binv)), "own storage"); l->A[0] += 1; l->b[0] += 1; if (l->Ainv) l->binv[0] += 1; CHECK(c->A[0] != l->A[0] && c->b[0] != l->b[0], "copy follows the original"); linear_transform_free(l); linear_transform_free(c); }
TEST("C01", s_pdf){ setup3(); struct ProbabilityDensity * p = anypdf(); ROUND(struct ProbabilityDensity, p, probability_density_serialize, probability_density_deserialize, same_pdf, probability_density_free); probability_density_free(p); }
TEST("C01", s_file){
  setup3(); char * fn = scratchfile(); size_t n; FILE * fp; long len;
  switch (ri(0, 2)){
  case 0: { struct FunctionTrain * f = anyft(); CHECK(function_train_save(f, fn) == 1, "saving"); struct FunctionTrain * g = function_train_load(fn); CHECK(g != NULL, "loading"); same_ft(g, f); function_train_serialize(NULL, f, &n); function_train_free(f); function_train_free(g); break; }
  case 1: { struct FT1DArray * f = anyarr(); CHECK(ft1d_array_save(f, fn) == 1, "saving"); struct FT1DArray * g = ft1d_array_load(fn); CHECK(g != NULL, "loading"); same_arr(g, f); ft1d_array_serialize(NULL, f, &n); ft1d_array_free(f); ft1d_array_free(g); break; }
  default: { struct ProbabilityDensity * f = anypdf(); CHECK(probability_density_save(f, fn) == 1, "saving"); struct ProbabilityDensity * g = probability_density_load(fn); CHECK(g != NULL, "loading"); same_pdf(g, f); probability_density_serialize(NULL, f, &n); probability_density_free(f); probability_density_free(g); } }
  fp = fopen(fn, "r"); fseek(fp, 0, SEEK_END); len = ftell(fp); fclose(fp); EQZ((size_t)len, n + 8, "file length"); unlink(fn);
  if (ri(0, 9) == 0){ CHECK(function_train_load(fn) == NULL, "loading a missing file"); CHECK(ft1d_array_load(fn) == NULL, "loading a missing file"); CHECK(probability_density_load(fn) == NULL, "loading a missing file"); CHECK(darray_load(fn, 0) == NULL, "loading a missing file"); }
}
TEST("C01", s_darray){
  char * fn = scratchfile(); size_t r = ri(1, 6), c = ri(1, 6); if (ri(0, 49) == 0) r = ri(250, 300); double * a = malloc(r * c * 8); for (size_t i = 0; i < r * c; i++) a[i] = wild();
  CHECK(darray_save(r, c, a, fn, 0) == 1, "saving"); double * b = darray_load(fn, 0); CHECK(b != NULL, "loading"); samebits(b, a, r * c, "array"); free(b);
  CHECK(darray_save(r, c, a, fn, 1) == 1, "saving as text"); FILE * f = fopen(fn, "r"); char w[64]; for (size_t j = 0; j < c; j++){ CHECK(fscanf(f, "%60s", w) == 1, "header"); char e[64]; snprintf(e, 64, "x%zu", j); CHECK(!strcmp(w, e), "header %s", w); }
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++){ CHECK(fscanf(f, "%60s", w) == 1, "entry"); double v = strtod(w, NULL); CHECK(fabs(v - a[i + j * r]) <= 1e-15 * fabs(v) + 1e-300, "entry (%zu,%zu): got %.17g expected %.17g", i, j, v, a[i + j * r]); } CHECK(fscanf(f, "%60s", w) == EOF, "end of file"); fclose(f); unlink(fn); free(a);
}
TEST("C01", s_text){
  setup(); size_t prec = ri(0, 1) ? ri(17, 30) : ri(6, 12); h_note("precision=%zu ", prec); double tol = prec >= 17 ? 0 : 2 * pow(10, -(double)prec + 1); char * fn = scratchfile();
  struct FunctionTrain * f; double big = ri(0, 2) ? 1 : 1e-8; f = anyft(); for (size_t i = 0; i < f->dim; i++) for (size_t j = 0; j < f->cores[i]->nrows * f->cores[i]->ncols; j++) generic_function_scale(big, f->cores[i]->funcs[j]);
  size_t kind = ri(0, 2); FILE * fp = fopen(fn, "w+"); struct FunctionTrain * g = NULL; struct Qmarray * q = NULL; struct GenericFunction * u = NULL; size_t two = ri(0, 1);
  for (size_t k = 0; k <= two; k++){ if (kind == 0) function_train_savetxt(f, fp, prec); else if (kind == 1) qmarray_savetxt(f->cores[0], fp, prec); else generic_function_savetxt(f->cores[0]->funcs[0], fp, prec); } rewind(fp);
  for (size_t k = 0; k <= two; k++){
    if (kind == 0) g = function_train_loadtxt(fp); else if (kind == 1) q = qmarray_loadtxt(fp); else u = generic_function_loadtxt(fp);
    if (tol == 0){ if (g) same_ft(g, f); if (q) same_q(q, f->cores[0]); if (u) same_gf(u, f->cores[0]->funcs[0]); }
    else { if (g){ EQZ(g->dim, f->dim, "dimension"); for (size_t i = 0; i <= f->dim; i++) EQZ(g->ranks[i], f->ranks[i], "rank"); } for (size_t i = 0; i < (g ? f->dim : 1); i++){ struct Qmarray * a = g ? g->cores[i] : q, * b = f->cores[i]; if (a){ EQZ(a->nrows, b->nrows, "rows"); EQZ(a->ncols, b->ncols, "columns"); }
      for (size_t j = 0; j < (a ? b->nrows * b->ncols : 1); j++){ struct GenericFunction * y = a ? a->funcs[j] : u; CHECK(y->fc == hcls, "class"); size_t n = generic_function_get_num_params(b->funcs[j]); EQZ(generic_function_get_num_params(y), n, "parameters"); double * p = malloc(n * 8), * r = malloc(n * 8); generic_function_get_params(y, p); generic_function_get_params(b->funcs[j], r); for (size_t t = 0; t < n; t++) CHECK(fabs(p[t] - r[t]) <= tol * fabs(r[t]), "parameter: got %.17g expected %.17g", p[t], r[t]);
        double * n1 = hcls == LINELM ? ((struct LinElemExp *)y->f)->nodes : ((struct ConstElemExp *)y->f)->nodes, * n2 = hcls == LINELM ? ((struct LinElemExp *)b->funcs[j]->f)->nodes : ((struct ConstElemExp *)b->funcs[j]->f)->nodes; for (size_t t = 0; t < n; t++) CHECK(fabs(n1[t] - n2[t]) <= tol * fabs(n2[t]), "node: got %.17g expected %.17g", n1[t], n2[t]); free(p); free(r); } } }
    if (g) function_train_free(g); if (q) qmarray_free(q); if (u) generic_function_free(u); g = NULL; q = NULL; u = NULL; }
  char w[8]; CHECK(fscanf(fp, "%7s", w) == EOF, "text behind the object"); fclose(fp); unlink(fn); function_train_free(f);
}
TEST("C01", s_num){
  double x = ri(0, 9) ? rs() * pow(10, (double)ri(0, 200) - 100) : 0.0; char * s = serialize_double_to_text(x); h_note("x=%.17g ", x); double y = deserialize_double_from_text(s); free(s); CHECK(fabs(x - y) <= 1e-14 * fabs(x), "text: got %.17g", y); CHECK(x != 0 || y == 0, "zero");
  char * p = serialize_double_packed(x); y = deserialize_double_packed(p); free(p); CHECK(fabs(x - y) <= 1e-15 * fabs(x), "packed: got %.17g", y);
  size_t n = ri(1, 9), m = 0; double * a = rvec(n); s = serialize_darray_to_text(n, a); double * b = deserialize_darray_from_text(s, &m); EQZ(m, n, "length"); for (size_t i = 0; i < n; i++) CHECK(fabs(a[i] - b[i]) <= 1e-14 * fabs(a[i]), "array text: got %.17g expected %.17g", b[i], a[i]); free(s); free(b);
  char * q = serialize_double_arr_packed(n, a); for (size_t i = 0; i < n; i++){ y = deserialize_double_packed(q + 12 * i); CHECK(fabs(a[i] - y) <= 1e-15 * fabs(a[i]), "packed array: got %.17g expected %.17g", y, a[i]); } free(q); free(a);
}
