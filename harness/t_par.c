/* parameter vectors (C03): layout, get/update, gradients with respect to parameters */
#include "h.h"
static void gfeval_same(struct GenericFunction * a, struct GenericFunction * b, const char * w){ for (int i = 0; i < 4; i++){ double x = pt(); NEAR(generic_function_1d_eval(a, x), generic_function_1d_eval(b, x), w); } }
static double sq(const struct GenericFunction * f){ return generic_function_inner((struct GenericFunction *)f, (struct GenericFunction *)f); }
/* points where the piecewise-constant class is not at a tie */
static double spt(void){ return pt(); }
TEST("C03", p_gf){
  setup3(); size_t n = ri(1, 99) == 1 ? ri(250, 400) : ri(2, 12); double * nd = rnodes(n); int adapt = hcls == KERNEL && (r64() & 1); h_note("n=%zu adapt=%d ", n, adapt);
  void * ao; struct OneApproxOpts * o;
  if (hcls == KERNEL){ struct KernelApproxOpts * k = kopts_n(n, nd); if (adapt) kernel_approx_opts_set_center_adapt(k, 1); ao = k; } else if (hcls == LINELM) ao = lin_elem_exp_aopts_alloc(n, nd); else ao = const_elem_exp_aopts_alloc(n, nd);
  o = one_approx_opts_alloc(hcls, ao);
  size_t np = adapt ? 2 * n : n; EQZ(one_approx_opts_get_nparams(o), np, "parameters of the options");
  double * p = rvec(np); struct GenericFunction * f = generic_function_create_with_params(hcls, ao, np, p);
  EQZ(generic_function_get_num_params(f), np, "number of parameters");
  double * q = rvec(np + 2); double g0 = q[np], g1 = q[np + 1]; EQZ(generic_function_get_params(f, q), np, "parameters returned"); for (size_t i = 0; i < np; i++) SAME(q[i], p[i], "parameter"); SAME(q[np], g0, "cell behind the parameters"); SAME(q[np + 1], g1, "cell behind the parameters");
  if (!adapt){ size_t k = 77; double * r = generic_function_get_params_ref(f, &k); EQZ(k, np, "number of parameters"); for (size_t i = 0; i < np; i++) SAME(r[i], p[i], "parameter by reference"); }
  double * p2 = rvec(np), * c2 = malloc(np * 8); memcpy(c2, p2, np * 8); struct GenericFunction * g = generic_function_copy(f);
  CHECK(generic_function_update_params(f, np, p2) == 0, "update"); for (size_t i = 0; i < np; i++) SAME(p2[i], c2[i], "given parameters unchanged");
  EQZ(generic_function_get_params(f, q), np, "parameters returned"); for (size_t i = 0; i < np; i++) SAME(q[i], p2[i], "parameter after update");
  struct GenericFunction * h = generic_function_create_with_params(hcls, ao, np, p2); gfeval_same(f, h, "function of the updated parameters");
  EQZ(generic_function_get_params(g, q), np, "parameters returned"); for (size_t i = 0; i < np; i++) SAME(q[i], p[i], "copy unaffected by update");
  { size_t w = ri(0, np - 1); double v = p2[w], nv = rs(); p2[w] = nv; generic_function_update_params(f, np, p2); generic_function_get_params(f, q); for (size_t i = 0; i < np; i++) SAME(q[i], p2[i], "parameter after an update that changes one of them"); p2[w] = v; generic_function_update_params(f, np, p2); generic_function_get_params(f, q); for (size_t i = 0; i < np; i++) SAME(q[i], p2[i], "parameter after an update that changes one of them"); }
  /* gradients */
  size_t N = ri(1, 4); double * x = rvec(N); if (ri(0, 3) == 0) x[0] = nd[ri(0, n - 1)]; double * gr = rvec(N * np + 1), last = gr[N * np];
  CHECK(generic_function_param_grad_eval(f, N, x, gr) == 0, "gradient"); SAME(gr[N * np], last, "cell behind the gradient");
  double * g2 = rvec(np + 1), l2 = g2[np], * pp = malloc(np * 8);
  for (size_t k = 0; k < N; k++){
    double v = generic_function_param_grad_eval2(f, x[k], g2); NEAR(v, generic_function_1d_eval(h, x[k]), "value with gradient"); SAME(g2[np], l2, "cell behind the gradient");
    for (size_t i = 0; i < np; i++){
      NEAR(g2[i], gr[k * np + i], "gradient at one point and at many points");
      if (n > 40 && ri(0, 9)) continue;
      double e = i < n ? 0.5 : 1e-5, fp, fm; memcpy(pp, p2, np * 8); pp[i] += e; generic_function_update_params(g, np, pp); fp = generic_function_1d_eval(g, x[k]); pp[i] -= 2 * e; generic_function_update_params(g, np, pp); fm = generic_function_1d_eval(g, x[k]);
      double d = (fp - fm) / (2 * e); CHECK(fabs(d - g2[i]) <= 1e-6 * (1 + fabs(d)), "derivative with respect to parameter %zu at x=%.17g: got %.17g expected %.17g", i, x[k], g2[i], d);
    }
  }
  gfeval_same(f, h, "function unchanged by gradients");
  if ((hcls == LINELM || hcls == KERNEL) && !adapt){
    double sc = rs() + 1.5; double * s0 = rvec(np + 1), * s1 = malloc((np + 1) * 8); memcpy(s1, s0, (np + 1) * 8);
    CHECK(generic_function_squared_norm_param_grad(f, sc, s1) == 0, "gradient of the squared norm"); SAME(s1[np], s0[np], "cell behind the gradient");
    for (size_t i = 0; i < np; i++){
      if (n > 40 && ri(0, 9)) continue;
      memcpy(pp, p2, np * 8); pp[i] += 0.5; generic_function_update_params(g, np, pp); double a = sq(g); pp[i] -= 1; generic_function_update_params(g, np, pp); double b = sq(g);
      NEAR(s1[i] - s0[i], sc * (a - b), "gradient of the squared norm, added with its scale"); }
    free(s0); free(s1); }
  generic_function_free(f); generic_function_free(g); generic_function_free(h); one_approx_opts_free_deep(&o); free(nd); free(p); free(q); free(p2); free(c2); free(x); free(gr); free(g2); free(pp);
}
/* reference layout: functions in column-major order, each with its own parameters in order */
static size_t lay(struct Qmarray * q, double * p){ size_t k = 0; for (size_t i = 0; i < q->nrows * q->ncols; i++){ k += generic_function_get_params(q->funcs[i], p + k); } return k; }
static size_t npar(struct Qmarray * q){ size_t k = 0; for (size_t i = 0; i < q->nrows * q->ncols; i++) k += generic_function_get_num_params(q->funcs[i]); return k; }
TEST("C03", p_qm){
  setup3(); size_t r = ri(1, 4), c = ri(1, 4); struct Qmarray * q = rqma(r, c), * q0 = qmarray_copy(q); h_note("%zux%zu ", r, c); size_t np = npar(q), mx = 0, got = 0;
  for (size_t i = 0; i < r * c; i++){ size_t k = generic_function_get_num_params(q->funcs[i]); if (k > mx) mx = k; EQZ(qmarray_func_get_nparams(q, i % r, i / r), k, "parameters of an entry"); }
  EQZ(qmarray_get_nparams(q, &got), np, "number of parameters"); EQZ(got, mx, "largest number of parameters"); EQZ(qmarray_get_nparams(q, NULL), np, "number of parameters");
  double * ref = malloc(np * 8), * p = rvec(np + 1), l = p[np]; lay(q, ref); EQZ(qmarray_get_params(q, p), np, "parameters returned"); EQZ(qmarray_get_params(q, NULL), np, "parameters counted"); for (size_t i = 0; i < np; i++) SAME(p[i], ref[i], "parameter"); SAME(p[np], l, "cell behind the parameters");
  double * p2 = rvec(np); qmarray_update_params(q, np, p2); size_t k = 0;
  for (size_t i = 0; i < r * c; i++){ size_t m = generic_function_get_num_params(q0->funcs[i]); generic_function_update_params(q0->funcs[i], m, p2 + k); k += m; gfeval_same(q->funcs[i], q0->funcs[i], "entry after update"); }
  size_t ri_ = ri(0, r - 1), ci = ri(0, c - 1), m = qmarray_func_get_nparams(q, ri_, ci); double * u = rvec(m); qmarray_uni_update_params(q, ri_, ci, m, u); generic_function_update_params(q0->funcs[ri_ + ci * r], m, u);
  for (size_t i = 0; i < r * c; i++) gfeval_same(q->funcs[i], q0->funcs[i], "entry after the update of one entry");
  /* gradients of all entries */
  size_t N = ri(1, 3), incx = ri(1, 3), S = r * c, incout = S + ri(0, 2), incg = S * np + ri(0, 2); double * x = rvec(N * incx + S * incx), * out = rvec(N * incout + 1), * o0 = malloc((N * incout + 1) * 8), * gr = rvec(N * incg + 1), * gr0 = malloc((N * incg + 1) * 8), * ws = malloc(mx * 8), * gv = malloc(mx * 8); memcpy(o0, out, (N * incout + 1) * 8); memcpy(gr0, gr, (N * incg + 1) * 8);
  qmarray_param_grad_eval(q, N, x, incx, out, incout, gr, incg, ws);
  for (size_t j = 0; j < N; j++){
    for (size_t i = 0; i < incout; i++) if (i < S){ NEAR(out[j * incout + i], generic_function_1d_eval(q0->funcs[i], x[j * incx]), "entry value"); } else SAME(out[j * incout + i], o0[j * incout + i], "cell between points");
    size_t on = 0; for (size_t i = 0; i < S; i++){ size_t mm = generic_function_get_num_params(q0->funcs[i]); generic_function_param_grad_eval(q0->funcs[i], 1, x + j * incx, gv);
      for (size_t t = 0; t < mm; t++, on++) for (size_t z = 0; z < S; z++) NEAR(gr[on * S + z + j * incg], z == i ? gv[t] : 0.0, "gradient entry"); }
    for (size_t i = S * np; i < incg; i++) SAME(gr[j * incg + i], gr0[j * incg + i], "cell between points"); }
  /* sparse gradient, and its product with a vector from the left */
  double * left = rvec(N * r), * mo = rvec(N * np * c + 1), * sg = rvec(N * np + 1), * o2 = rvec(N * incout + 1);
  qmarray_param_grad_eval_sparse_mult(q, N, x, incx, o2, incout, sg, np, left, mo, np);
  for (size_t j = 0; j < N; j++){ size_t on = 0; for (size_t i = 0; i < S; i++){ size_t mm = generic_function_get_num_params(q0->funcs[i]); NEAR(o2[j * incout + i], out[j * incout + i], "entry value"); generic_function_param_grad_eval(q0->funcs[i], 1, x + j * incx, gv);
      for (size_t t = 0; t < mm; t++, on++){ NEAR(sg[j * np + on], gv[t], "sparse gradient"); for (size_t z = 0; z < c; z++) NEAR(mo[j * np * c + on * c + z], z == i / r ? gv[t] * left[j * r + i % r] : 0.0, "left vector times the gradient of the array"); } } }
  double * lo = rvec(N * incout + 1); qmarray_linparam_eval(q, N, lo, incout, sg, np); for (size_t j = 0; j < N; j++) for (size_t i = 0; i < S; i++) NEAR(lo[j * incout + i], out[j * incout + i], "value from parameters and gradients");
  /* squared norm */
  double sc = rs() + 1.5, ref2 = 0; for (size_t i = 0; i < S; i++) ref2 += sc * sq(q0->funcs[i]);
  NEAR(qmarray_param_grad_sqnorm(q, sc, NULL), ref2, "sum of squared norms");
  if (hcls != CONSTELM){ double * a = rvec(np + 1), * b = malloc((np + 1) * 8); memcpy(b, a, (np + 1) * 8); NEAR(qmarray_param_grad_sqnorm(q, sc, a), ref2, "sum of squared norms"); k = 0; for (size_t i = 0; i < S; i++){ generic_function_squared_norm_param_grad(q0->funcs[i], sc, b + k); k += generic_function_get_num_params(q0->funcs[i]); } for (size_t i = 0; i <= np; i++) NEAR(a[i], b[i], "gradient of the squared norms"); free(a); free(b); }
  for (size_t i = 0; i < S; i++) gfeval_same(q->funcs[i], q0->funcs[i], "array unchanged");
  qmarray_free(q); qmarray_free(q0); free(ref); free(p); free(p2); free(u); free(x); free(out); free(o0); free(gr); free(gr0); free(ws); free(gv); free(left); free(mo); free(sg); free(o2); free(lo);
}
TEST("C03", p_ft){
  setup3(); size_t d = ri(1, 5); struct FunctionTrain * f = rft(d, 3), * g = function_train_copy(f); h_note("dim=%zu ", d); size_t np = 0; for (size_t i = 0; i < d; i++){ size_t k = npar(f->cores[i]), mx = 0; np += k; EQZ(function_train_core_get_nparams(f, i, &mx), k, "parameters of a core"); EQZ(function_train_core_get_nparams(f, i, NULL), k, "parameters of a core"); }
  EQZ(function_train_get_nparams(f), np, "number of parameters"); double * ref = malloc(np * 8), * p = rvec(np + 1), l = p[np]; size_t k = 0; for (size_t i = 0; i < d; i++) k += lay(f->cores[i], ref + k);
  EQZ(function_train_get_params(f, p), np, "parameters returned"); SAME(p[np], l, "cell behind the parameters"); for (size_t i = 0; i < np; i++) SAME(p[i], ref[i], "parameter");
  double * p2 = rvec(np); EQZ(function_train_update_params(f, p2), np, "parameters consumed"); k = 0; for (size_t i = 0; i < d; i++){ size_t m = npar(g->cores[i]); function_train_core_update_params(g, i, m, p2 + k); k += m; }
  double x[8]; for (int t = 0; t < 3; t++){ rpoint(d, x); NEAR(function_train_eval(f, x), ftval(g, x), "value after updating all cores"); }
  EQZ(function_train_get_params(f, p), np, "parameters returned"); for (size_t i = 0; i < np; i++) SAME(p[i], p2[i], "parameter after update");
  size_t co = ri(0, d - 1), r = ri(0, f->cores[co]->nrows - 1), c = ri(0, f->cores[co]->ncols - 1), m = function_train_func_get_nparams(f, co, r, c); EQZ(m, generic_function_get_num_params(f->cores[co]->funcs[r + c * f->cores[co]->nrows]), "parameters of one function");
  double * u = rvec(m); function_train_uni_update_params(f, co, r, c, m, u); k = 0; for (size_t i = 0; i < co; i++) k += npar(f->cores[i]); for (size_t i = 0; i < r + c * f->cores[co]->nrows; i++) k += generic_function_get_num_params(f->cores[co]->funcs[i]);
  memcpy(p2 + k, u, m * 8); function_train_get_params(f, p); for (size_t i = 0; i < np; i++) SAME(p[i], p2[i], "parameter after the update of one function");
  size_t mc = npar(f->cores[co]); double * pc = rvec(mc + 1), lc = pc[mc]; EQZ(function_train_core_get_params(f, co, pc), mc, "parameters of a core"); SAME(pc[mc], lc, "cell behind"); k = 0; for (size_t i = 0; i < co; i++) k += npar(f->cores[i]); for (size_t i = 0; i < mc; i++) SAME(pc[i], p2[k + i], "parameter of a core");
  double * w = rvec(d), s = 0; for (size_t i = 0; i < d; i++) for (size_t j = 0; j < f->cores[i]->nrows * f->cores[i]->ncols; j++) s += w[i] * sq(f->cores[i]->funcs[j]);
  NEAR(function_train_param_grad_sqnorm(f, w, NULL), s, "weighted sum of squared norms");
  if (hcls != CONSTELM){ double * a = rvec(np), * b = malloc(np * 8); memcpy(b, a, np * 8); NEAR(function_train_param_grad_sqnorm(f, w, a), s, "weighted sum of squared norms"); k = 0; for (size_t i = 0; i < d; i++) for (size_t j = 0; j < f->cores[i]->nrows * f->cores[i]->ncols; j++){ generic_function_squared_norm_param_grad(f->cores[i]->funcs[j], w[i], b + k); k += generic_function_get_num_params(f->cores[i]->funcs[j]); } for (size_t i = 0; i < np; i++) NEAR(a[i], b[i], "gradient of the weighted squared norms"); free(a); free(b); }
  function_train_free(f); function_train_free(g); free(ref); free(p); free(p2); free(u); free(pc); free(w);
}
/* ---- parameterised function trains */
struct FP { size_t d, ranks[9], np; struct MultiApproxOpts * o; struct FTparam * f; double * p; };
static struct FP mkfp(size_t d, size_t mr){
  struct FP t; t.d = d; common_nodes(0); t.o = multi_approx_opts_alloc(d);
  for (size_t i = 0; i < d; i++) multi_approx_opts_set_dim(t.o, i, ropts());
  t.ranks[0] = t.ranks[d] = 1; for (size_t i = 1; i < d; i++) t.ranks[i] = ri(1, mr);
  t.np = 0; for (size_t i = 0; i < d; i++) t.np += t.ranks[i] * t.ranks[i + 1] * multi_approx_opts_get_dim_nparams(t.o, i);
  t.p = rvec(t.np); t.f = ft_param_alloc(d, t.o, t.p, t.ranks); h_note("dim=%zu ranks", d); for (size_t i = 0; i <= d; i++) h_note(" %zu", t.ranks[i]); h_note(" nparams=%zu ", t.np); return t;
}
static void fpfree(struct FP t){ ft_param_free(t.f); multi_approx_opts_free_deep(&t.o); free(t.p); }
/* value of the train with parameters p, from the definition */
static double fpval(struct FP t, const double * p, const double * x){
  double v[64] = {1}, w[64]; size_t k = 0;
  for (size_t i = 0; i < t.d; i++){ struct OneApproxOpts * o = multi_approx_opts_get_aopts(t.o, i); size_t m = one_approx_opts_get_nparams(o);
    for (size_t c = 0; c < t.ranks[i + 1]; c++){ w[c] = 0; for (size_t r = 0; r < t.ranks[i]; r++){ struct GenericFunction * g = generic_function_create_with_params(o->fc, o->aopts, m, p + k); w[c] += v[r] * generic_function_1d_eval(g, x[i]); generic_function_free(g); k += m; } }
    memcpy(v, w, sizeof(v)); }
  return v[0];
}
static void agree(struct FP t, const double * p, const char * w){ double x[8]; for (size_t i = 0; i < t.np; i++) SAME(ft_param_get_param(t.f, i), p[i], w); for (int k = 0; k < 2; k++){ rpoint(t.d, x); NEAR(function_train_eval(ft_param_get_ft(t.f), x), fpval(t, p, x), w); } }
TEST("C03", p_ftparam){
  setup3(); struct FP t = mkfp(ri(1, 4), 3); size_t d = t.d, np = t.np;
  EQZ(ft_param_get_nparams(t.f), np, "number of parameters"); EQZ(ft_param_get_dim(t.f), d, "dimension"); agree(t, t.p, "parameters and function at construction");
  for (size_t i = 0; i < d; i++) EQZ(ft_param_get_nparams_per_core(t.f)[i], t.ranks[i] * t.ranks[i + 1] * multi_approx_opts_get_dim_nparams(t.o, i), "parameters per core");
  double * p = rvec(np); ft_param_update_params(t.f, p); agree(t, p, "after an update of all parameters");
  size_t ask = ri(0, np + 3); double * q = rvec(np + 4), * q0 = malloc((np + 4) * 8); memcpy(q0, q, (np + 4) * 8); size_t got = ft_param_get_params(t.f, ask, q), ex = ask < np ? ask : np; EQZ(got, ex, "parameters returned"); for (size_t i = 0; i < np + 4; i++) SAME(q[i], i < ex ? p[i] : q0[i], "parameter");
  struct FTparam * cp = ft_param_copy(t.f); size_t co = ri(0, d - 1), off = 0; for (size_t i = 0; i < co; i++) off += ft_param_get_nparams_per_core(t.f)[i]; size_t nc = ft_param_get_nparams_per_core(t.f)[co]; double * pc = rvec(nc);
  ft_param_update_core_params(t.f, co, pc); for (size_t i = 0; i < np; i++) SAME(ft_param_get_param(cp, i), p[i], "copy unaffected"); memcpy(p + off, pc, nc * 8); agree(t, p, "after an update of one core"); 
  double * rf = ft_param_get_params_ref(t.f); size_t ix = ri(0, np - 1); rf[ix] = p[ix] = rs(); ft_param_self_update_params(t.f); agree(t, p, "after an update in place");
  /* updates outside and inside a rank block */
  size_t rsx[9]; for (size_t i = 0; i < d; i++) rsx[i] = ri(0, t.ranks[i + 1]); if (r64() & 1) rsx[d - 1] = 1; size_t nr = 0, k = 0; int * out = malloc(np * sizeof(int));
  for (size_t i = 0; i < d; i++) for (size_t c = 0; c < t.ranks[i + 1]; c++) for (size_t r = 0; r < t.ranks[i]; r++) for (size_t m = 0; m < multi_approx_opts_get_dim_nparams(t.o, i); m++){ out[k] = (i > 0 && r >= rsx[i - 1]) || c >= rsx[i]; nr += (size_t)out[k]; k++; }
  EQZ(ft_param_get_nparams_restrict(t.f, rsx), nr, "parameters outside the block");
  double * pr = rvec(nr + 1), * pi = rvec(np - nr + 1); size_t a = 0; for (size_t i = 0; i < np; i++) if (out[i]) p[i] = pr[a++]; ft_param_update_restricted_ranks(t.f, pr, rsx); agree(t, p, "after an update outside the block");
  a = 0; for (size_t i = 0; i < np; i++) if (!out[i]) p[i] = pi[a++]; ft_param_update_inside_restricted_ranks(t.f, pi, rsx); agree(t, p, "after an update inside the block");
  /* from a function train */
  struct FTparam * w = ft_param_alloc_with_ft(function_train_copy(ft_param_get_ft(t.f)), t.o); EQZ(ft_param_get_nparams(w), np, "parameters of the given train"); for (size_t i = 0; i < np; i++) SAME(ft_param_get_param(w, i), p[i], "parameter of the given train"); for (size_t i = 0; i < d; i++) EQZ(ft_param_get_nparams_per_core(w)[i], ft_param_get_nparams_per_core(t.f)[i], "parameters per core");
  { size_t z0[9] = {0}; double * pw = rvec(np); EQZ(ft_param_get_nparams_restrict(w, z0), np, "parameters outside an empty block"); ft_param_update_restricted_ranks(w, pw, z0); double xx[8]; for (size_t i = 0; i < np; i++) SAME(ft_param_get_param(w, i), pw[i], "parameter of the given train after an update"); rpoint(d, xx); NEAR(function_train_eval(ft_param_get_ft(w), xx), fpval(t, pw, xx), "given train after an update"); free(pw); }
  struct FTparam * z = ft_param_alloc(d, t.o, NULL, t.ranks); for (size_t i = 0; i < np; i++) SAME(ft_param_get_param(z, i), 0.0, "default parameter");
  CHECK(ft_param_extract_structure(t.f) == LINEAR_ST, "linear structure");
  ft_param_free(cp); ft_param_free(w); ft_param_free(z); fpfree(t); free(p); free(q); free(q0); free(pc); free(out); free(pr); free(pi);
}
TEST("C03", p_ftconst){
  setup3(); if (hcls == KERNEL) hcls = LINELM; struct FP t = mkfp(ri(1, 4), 3); double v = 3 * rs(); h_note("v=%.17g ", v); ft_param_create_constant(t.f, v, 0.0); double x[8], * p = malloc(t.np * 8); ft_param_get_params(t.f, t.np, p);
  for (int k = 0; k < 3; k++){ rpoint(t.d, x); NEAR(function_train_eval(ft_param_get_ft(t.f), x), v, "constant"); } agree(t, p, "parameters and function");
  double e = 0.01; ft_param_create_constant(t.f, v, e); double * p1 = malloc(t.np * 8); ft_param_get_params(t.f, t.np, p1); for (size_t i = 0; i < t.np; i++) CHECK(fabs(p1[i] - p[i]) <= e * (1 + 1e-12), "perturbation of parameter %zu is %g", i, p1[i] - p[i]); agree(t, p1, "parameters and function");
  if (hcls == LINELM){ size_t N = t.d + 3 + ri(0, 4); double * X = rvec(N * t.d), * y = malloc(N * 8), co[9]; for (size_t i = 0; i <= t.d; i++) co[i] = rs(); for (size_t j = 0; j < N; j++){ y[j] = co[t.d]; for (size_t i = 0; i < t.d; i++) y[j] += co[i] * X[j * t.d + i]; }
    unsigned int sd = 3; ft_param_create_from_lin_ls(t.f, N, X, y, 0.0, &sd); int full = 1; for (size_t i = 1; i < t.d; i++) if (t.ranks[i] < 2) full = 0; ft_param_get_params(t.f, t.np, p); agree(t, p, "parameters and function");
    if (full && t.d > 1) for (int k = 0; k < 3; k++){ rpoint(t.d, x); double r = co[t.d]; for (size_t i = 0; i < t.d; i++) r += co[i] * x[i]; CHECK(fabs(function_train_eval(ft_param_get_ft(t.f), x) - r) < 1e-6, "linear data are reproduced"); } free(X); free(y); }
  fpfree(t); free(p); free(p1);
}
static size_t maxr(struct FP t){ size_t m = 1; for (size_t i = 0; i <= t.d; i++) if (t.ranks[i] > m) m = t.ranks[i]; return m; }
static size_t nuni(struct FP t){ size_t m = 0; for (size_t i = 0; i < t.d; i++) m += t.ranks[i] * t.ranks[i + 1]; return m; }
TEST("C03", p_grad){
  setup3(); struct FP t = mkfp(ri(1, 5), 3); size_t d = t.d, np = t.np, R = 0; for (size_t i = 0; i <= d; i++) R += t.ranks[i]; double x[8]; size_t nu = nuni(t);
  double * gr = rvec(np + 1), l = gr[np], * ge = rvec(np), * mem = malloc((R + 1) * 8), * evs = malloc(nu * 8), * pp = malloc(np * 8), * gl = rvec(np);
  rpoint(d, x); double v = fpval(t, t.p, x);
  NEAR(ft_param_gradeval(t.f, x, gr, ge, mem, evs), v, "value with gradient"); SAME(gr[np], l, "cell behind the gradient");
  for (size_t i = 0; i < np; i++){ memcpy(pp, t.p, np * 8); pp[i] += 0.5; double a = fpval(t, pp, x); pp[i] -= 1; double b = fpval(t, pp, x); NEAR(gr[i], a - b, "gradient with respect to the parameters"); }
  size_t k = 0; double * g1 = malloc(np * 8); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < t.ranks[i] * t.ranks[i + 1]; j++){ generic_function_param_grad_eval(ft_param_get_ft(t.f)->cores[i]->funcs[j], 1, x + i, g1 + k); k += generic_function_get_num_params(ft_param_get_ft(t.f)->cores[i]->funcs[j]); }
  for (size_t i = 0; i < np; i++) NEAR(ge[i], g1[i], "gradient of the univariate functions");
  NEAR(ft_param_eval_lin(t.f, g1, mem), v, "value from gradients"); NEAR(ft_param_gradeval_lin(t.f, g1, gl, mem, evs), v, "value from gradients, with gradient"); for (size_t i = 0; i < np; i++) NEAR(gl[i], gr[i], "gradient from gradients");
  size_t N = ri(1, 3); double * X = malloc(N * d * 8), * G = rvec(N * np + 1); for (size_t j = 0; j < N; j++) rpoint(d, X + j * d); ft_param_gradevals(t.f, N, X, G, ge, mem, evs);
  for (size_t j = 0; j < N; j++){ ft_param_gradeval(t.f, X + j * d, gl, ge, mem, evs); for (size_t i = 0; i < np; i++) NEAR(G[j * np + i], gl[i], "gradients at many points"); }
  agree(t, t.p, "parameters and function unchanged by gradients"); fpfree(t); free(gr); free(ge); free(mem); free(evs); free(pp); free(gl); free(g1); free(X); free(G);
}
TEST("C03", p_core){
  setup3(); struct FP t = mkfp(ri(2, 5), 3); size_t d = t.d, np = t.np, m = maxr(t), nu = nuni(t); double x[8]; rpoint(d, x); double v = fpval(t, t.p, x); struct FunctionTrain * ft = ft_param_get_ft(t.f);
  double * g1 = malloc(np * 8), * gr = malloc(np * 8), * gc = rvec(np), * gcl = rvec(np), * ws = malloc(np * 8), * ev_ = malloc(m * m * 8), * mem = malloc((d * m + 2) * 8), * evs = malloc(nu * 8); size_t k = 0;
  for (size_t i = 0; i < d; i++) for (size_t j = 0; j < t.ranks[i] * t.ranks[i + 1]; j++){ generic_function_param_grad_eval(ft->cores[i]->funcs[j], 1, x + i, g1 + k); k += generic_function_get_num_params(ft->cores[i]->funcs[j]); }
  ft_param_gradeval(t.f, x, gr, ws, mem, evs);
  double * lr[9], * rl[9], * lrl[9], * rll[9]; for (size_t i = 0; i <= d; i++){ lr[i] = rvec(m); rl[i] = rvec(m); lrl[i] = rvec(m); rll[i] = rvec(m); }
  for (size_t i = 0; i + 1 < d; i++){ process_sweep_left_right(t.f, i, x[i], ev_, lr[i], lr[i + 1]); process_sweep_left_right_lin(t.f, i, g1, lrl[i], lrl[i + 1]); for (size_t j = 0; j < t.ranks[i + 1]; j++) NEAR(lrl[i + 1][j], lr[i + 1][j], "partial products from the left"); }
  for (size_t i = d - 1; i > 0; i--){ process_sweep_right_left(t.f, i, x[i], ev_, rl[i + 1], rl[i]); process_sweep_right_left_lin(t.f, i, g1, rll[i + 1], rll[i]); for (size_t j = 0; j < t.ranks[i]; j++) NEAR(rll[i][j], rl[i][j], "partial products from the right"); }
  size_t off = 0; for (size_t c = 0; c < d; c++){ size_t nc = ft_param_get_nparams_per_core(t.f)[c];
    NEAR(ft_param_core_gradeval(t.f, c, x[c], gc, lr[c], rl[c + 1], ws), v, "value from one core"); NEAR(ft_param_core_eval_lin(t.f, c, lr[c], rl[c + 1], g1), v, "value from one core, linear"); NEAR(ft_param_core_gradeval_lin(t.f, c, gcl, lr[c], rl[c + 1], g1), v, "value from one core, linear");
    for (size_t i = 0; i < nc; i++){ NEAR(gc[i], gr[off + i], "gradient of one core"); NEAR(gcl[i], gr[off + i], "gradient of one core, linear"); } off += nc; }
  agree(t, t.p, "parameters and function unchanged"); for (size_t i = 0; i <= d; i++){ free(lr[i]); free(rl[i]); free(lrl[i]); free(rll[i]); } fpfree(t); free(g1); free(gr); free(gc); free(gcl); free(ws); free(ev_); free(mem); free(evs);
}
TEST("C03", p_hess){
  setup3(); struct FP t = mkfp(ri(1, 4), 2); size_t d = t.d, np = t.np; if (np > 60){ fpfree(t); return; } double x[8]; rpoint(d, x); double * vec = rvec(np), * hv = rvec(np), * gp = malloc(np * 8), * gm = malloc(np * 8), * ge = malloc(np * 8), * pp = malloc(np * 8); double mem[64], evs[64];
  ft_param_hessvec(t.f, x, vec, hv); struct FTparam * q = ft_param_copy(t.f);
  for (size_t i = 0; i < np; i++) pp[i] = t.p[i] + 1e-4 * vec[i]; ft_param_update_params(q, pp); ft_param_gradeval(q, x, gp, ge, mem, evs);
  for (size_t i = 0; i < np; i++) pp[i] = t.p[i] - 1e-4 * vec[i]; ft_param_update_params(q, pp); ft_param_gradeval(q, x, gm, ge, mem, evs);
  for (size_t i = 0; i < np; i++){ double e = (gp[i] - gm[i]) / 2e-4; CHECK(fabs(hv[i] - e) < 1e-5 * (1 + fabs(e)), "Hessian-vector product, entry %zu: got %.17g expected %.17g", i, hv[i], e); }
  agree(t, t.p, "parameters and function unchanged"); ft_param_free(q); fpfree(t); free(vec); free(hv); free(gp); free(gm); free(ge); free(pp);
}
