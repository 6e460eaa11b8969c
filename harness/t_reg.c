/* regression (C14): the objective handed to the optimizer, its gradient, the result, cross validation */
#include "h.h"
#include "regress.h"
struct RG { size_t d, ranks[9], np, N; struct MultiApproxOpts * o; double * p, * x, * y, * w; double lam; int obj, adapt; struct FTRegress * r; struct FunctionTrain * ref; };
static struct RG mk(size_t dlo, enum REGTYPE ty){
  struct RG t; memset(&t, 0, sizeof t); generic_values(); setup3(); common_nodes(0); t.d = ri(dlo, 4); t.o = multi_approx_opts_alloc(t.d); t.adapt = hcls == KERNEL && ty == AIO && ri(0, 1);
  for (size_t i = 0; i < t.d; i++){ size_t n = ri(2, 5); double * nd = rnodes(n); struct OneApproxOpts * q; if (hcls == KERNEL){ struct KernelApproxOpts * k = kopts_n(n, nd); if (t.adapt) kernel_approx_opts_set_center_adapt(k, 1); q = one_approx_opts_alloc(KERNEL, k); } else if (hcls == LINELM) q = one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, nd)); else q = one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, nd)); multi_approx_opts_set_dim(t.o, i, q); }
  t.ranks[0] = t.ranks[t.d] = 1; for (size_t i = 1; i < t.d; i++) t.ranks[i] = ri(1, 3); t.np = 0; for (size_t i = 0; i < t.d; i++) t.np += t.ranks[i] * t.ranks[i + 1] * multi_approx_opts_get_dim_nparams(t.o, i);
  t.p = malloc(t.np * 8); for (size_t i = 0; i < t.np; i++) t.p[i] = rg(); t.N = ri(1, 12); t.x = malloc(t.N * t.d * 8); t.y = malloc(t.N * 8); t.w = ri(0, 1) ? malloc(t.N * 8) : NULL; for (size_t i = 0; i < t.N; i++){ t.y[i] = 2 * rg(); if (t.w) t.w[i] = ru() + 0.1; for (size_t k = 0; k < t.d; k++) t.x[i * t.d + k] = rg(); }
  t.obj = ri(0, 1) && hcls != CONSTELM && !t.adapt; t.lam = ru();
  t.r = ft_regress_alloc(t.d, t.o, t.ranks); ft_regress_set_alg_and_obj(t.r, ty, t.obj ? FTLS_SPARSEL2 : FTLS); if (t.obj) ft_regress_set_regularization_weight(t.r, t.lam); ft_regress_update_params(t.r, t.p); if (t.w) ft_regress_set_sample_weights(t.r, t.w);
  t.ref = function_train_copy(ft_param_get_ft(ft_regress_get_ft_param(t.r)));
  h_note("class=%d moving=%d %s d=%zu N=%zu weights=%d penalty=%d ranks", (int)hcls, t.adapt, ty == AIO ? "all at once" : "alternating", t.d, t.N, t.w != NULL, t.obj); for (size_t i = 1; i < t.d; i++) h_note(" %zu", t.ranks[i]); h_note(" nparams=%zu ", t.np); return t;
}
static void done(struct RG t){ ft_regress_free(t.r); multi_approx_opts_free_deep(&t.o); function_train_free(t.ref); free(t.p); free(t.x); free(t.y); free(t.w); }
static double fit(struct RG t, struct FunctionTrain * f){ double s = 0; for (size_t i = 0; i < t.N; i++){ double e = t.y[i] - ftval(f, t.x + i * t.d); s += e * e * (t.w ? t.w[i] : 1.0); } return s / (double)t.N; }
static double pen(struct RG t, struct FunctionTrain * f, size_t lo, size_t hi){ double s = 0; if (t.obj) for (size_t k = lo; k < hi; k++) for (size_t i = 0; i < f->cores[k]->nrows * f->cores[k]->ncols; i++) s += generic_function_inner(f->cores[k]->funcs[i], f->cores[k]->funcs[i]); return 0.5 * t.lam * s; }
static double objp(struct RG t, const double * p){ function_train_update_params(t.ref, p); return fit(t, t.ref) + pen(t, t.ref, 0, t.d); }
#define CLOSE(a, b, tol, what) do { double a_ = (a), b_ = (b); CHECK(fabs(a_ - b_) <= (tol) * (1 + fabs(b_)), "%s: got %.17g expected %.17g", what, a_, b_); } while (0)
TEST("C14", g_aio){
  struct RG t = mk(1, AIO); struct c3Opt * o = c3opt_create(BFGS); size_t mi = ri(2, 30); c3opt_set_maxiter(o, mi); c3opt_set_verbose(o, 0); c3opt_set_storage_options(o, 1, 1, 1); double * x0 = malloc(t.N * t.d * 8), * y0 = malloc(t.N * 8); memcpy(x0, t.x, t.N * t.d * 8); memcpy(y0, t.y, t.N * 8);
  struct FunctionTrain * f = ft_regress_run(t.r, o, t.N, t.x, t.y); CHECK(!memcmp(x0, t.x, t.N * t.d * 8) && !memcmp(y0, t.y, t.N * 8), "data changed");
  FILE * fp = tmpfile(); c3opt_print_stored_values(o, fp, 26, 17); rewind(fp); int c; while ((c = fgetc(fp)) != '\n' && c != EOF); size_t it, k = 0; double fv, last = 0, * g = malloc(t.np * 8), * p = malloc(t.np * 8), * q = malloc(t.np * 8);
  while (fscanf(fp, "%zu %lf", &it, &fv) == 2){ for (size_t i = 0; i < t.np; i++) if (fscanf(fp, "%lf", g + i) != 1) CHECK(0, "history incomplete"); for (size_t i = 0; i < t.np; i++) if (fscanf(fp, "%lf", p + i) != 1) CHECK(0, "history incomplete"); CLOSE(fv, objp(t, p), 1e-8, "objective at an iterate");
    if (!k){ for (size_t i = 0; i < t.np; i++) CLOSE(p[i], t.p[i], 1e-12, "starting point"); } 
    if (k < 3) for (size_t i = 0; i < t.np; i++) if (t.np < 30 || !ri(0, 5)){ double h = 1e-5; memcpy(q, p, t.np * 8); q[i] += h; double a = objp(t, q); q[i] -= 2 * h; double b = objp(t, q); CHECK(fabs(g[i] - (a - b) / (2 * h)) <= 2e-5 * (1 + fabs(g[i]) + fabs(fv)), "derivative %zu of the objective at iterate %zu: got %.17g expected %.17g", i, k, g[i], (a - b) / (2 * h)); }
    last = fv; k++; } (void)last; fclose(fp); CHECK(k > 0, "no history");
  double o0 = objp(t, t.p), * pf = malloc(t.np * 8); function_train_get_params(f, pf); double o1 = objp(t, pf); CHECK(o1 <= o0 * (1 + 1e-9), "objective after the fit: %.17g, before: %.17g", o1, o0);
  size_t m = 0; double * pr = ft_regress_get_params(t.r, &m); EQZ(m, t.np, "number of parameters"); for (size_t i = 0; i < m; i++) SAME(pr[i], pf[i], "fitted parameter"); free(pr); free(pf); free(g); free(p); free(q); free(x0); free(y0); function_train_free(f); c3opt_free(o); done(t);
}
TEST("C14", g_als){
  struct RG t = mk(2, ALS); struct c3Opt * o = c3opt_create(BFGS); size_t mi = ri(2, 15), sw = ri(1, 3); c3opt_set_maxiter(o, mi); c3opt_set_verbose(o, 0); c3opt_set_storage_options(o, 1, 1, 1); ft_regress_set_max_als_sweep(t.r, sw); ft_regress_set_als_conv_tol(t.r, 1e-14); h_note("sweeps=%zu iterations=%zu ", sw, mi);
  struct FunctionTrain * f = ft_regress_run(t.r, o, t.N, t.x, t.y); size_t ne = ft_regress_get_nepochs(t.r); CHECK(ne > 0, "no history"); double f0 = fit(t, t.ref), f1 = fit(t, f), v0 = f0 + pen(t, t.ref, 0, 1); CLOSE(ft_regress_get_stored_fvals(t.r, 0), v0, 1e-8, "objective at the start");
  if (!t.obj){ for (size_t i = 1; i < ne; i++) CHECK(ft_regress_get_stored_fvals(t.r, i) <= ft_regress_get_stored_fvals(t.r, i - 1) * (1 + 1e-8) + 1e-12, "objective went up at step %zu: %.17g after %.17g", i, ft_regress_get_stored_fvals(t.r, i), ft_regress_get_stored_fvals(t.r, i - 1)); CHECK(f1 <= f0 * (1 + 1e-9), "objective after the fit: %.17g, before: %.17g", f1, f0); }
  double tot0 = f0 + pen(t, t.ref, 0, t.d), tot1 = f1 + pen(t, f, 0, t.d); CHECK(tot1 <= tot0 * (1 + 1e-9), "objective after the fit: %.17g, before: %.17g", tot1, tot0);
  /* the core optimized last */
  size_t lc = t.d == 2 ? 1 : 1, nc = t.ranks[lc] * t.ranks[lc + 1] * multi_approx_opts_get_dim_nparams(t.o, lc); FILE * fp = tmpfile(); c3opt_print_stored_values(o, fp, 26, 17); rewind(fp); int c; while ((c = fgetc(fp)) != '\n' && c != EOF); size_t it, k = 0; double fv, * g = malloc(nc * 8), * p = malloc(nc * 8); struct FunctionTrain * h = function_train_copy(f);
  #define OC(pp) (function_train_core_update_params(h, lc, nc, pp), fit(t, h) + pen(t, h, lc, lc + 1))
  while (fscanf(fp, "%zu %lf", &it, &fv) == 2){ for (size_t i = 0; i < nc; i++) if (fscanf(fp, "%lf", g + i) != 1) CHECK(0, "history incomplete"); for (size_t i = 0; i < nc; i++) if (fscanf(fp, "%lf", p + i) != 1) CHECK(0, "history incomplete"); CLOSE(fv, OC(p), 1e-8, "objective at an iterate");
    if (k < 2) for (size_t i = 0; i < nc; i++){ double s = p[i], e = 1e-5; p[i] = s + e; double a = OC(p); p[i] = s - e; double b = OC(p); p[i] = s; CHECK(fabs(g[i] - (a - b) / (2 * e)) <= 2e-5 * (1 + fabs(g[i]) + fabs(fv)), "derivative %zu of the objective of core %zu: got %.17g expected %.17g", i, lc, g[i], (a - b) / (2 * e)); } k++; }
  fclose(fp); free(g); free(p); size_t m = 0; double * pr = ft_regress_get_params(t.r, &m), * pf = malloc(t.np * 8); function_train_get_params(f, pf); EQZ(m, t.np, "number of parameters"); for (size_t i = 0; i < m; i++) SAME(pr[i], pf[i], "fitted parameter"); free(pr); free(pf);
  function_train_free(h); function_train_free(f); c3opt_free(o); done(t);
}
TEST("C14", g_cv){
  struct RG t = mk(2, ri(0, 1) ? AIO : ALS); if (t.w){ ft_regress_set_sample_weights(t.r, NULL); free(t.w); t.w = NULL; } if (t.N < 4){ done(t); return; } size_t kf = ri(2, t.N > 5 ? 5 : t.N); struct c3Opt * o = c3opt_create(BFGS); c3opt_set_maxiter(o, ri(2, 8)); c3opt_set_verbose(o, 0); ft_regress_set_max_als_sweep(t.r, 1); h_note("folds=%zu ", kf);
  struct CrossValidate * cv = cross_validate_init(t.N, t.d, t.x, t.y, kf, 0); double e = cross_validate_run(cv, t.r, o); size_t m = 0; double * pr = ft_regress_get_params(t.r, &m); EQZ(m, t.np, "number of parameters"); for (size_t i = 0; i < m; i++) SAME(pr[i], t.p[i], "parameter after cross validation"); free(pr);
  double err = 0, nrm = 0, * xt = malloc(t.N * t.d * 8), * yt = malloc(t.N * 8); size_t st = 0, b = t.N / kf;
  for (size_t f = 0; f < kf; f++){ size_t en = f == kf - 1 ? t.N : st + b, k = 0; for (size_t i = 0; i < t.N; i++) if (i < st || i >= en){ memcpy(xt + k * t.d, t.x + i * t.d, t.d * 8); yt[k++] = t.y[i]; } ft_regress_update_params(t.r, t.p); struct FunctionTrain * g = ft_regress_run(t.r, o, k, xt, yt); for (size_t i = st; i < en; i++){ double u = t.y[i] - ftval(g, t.x + i * t.d); err += u * u; nrm += t.y[i] * t.y[i]; } function_train_free(g); st = en; }
  CLOSE(e, err / nrm, 1e-6, "relative squared error over the folds"); cross_validate_free(cv); free(xt); free(yt); c3opt_free(o); done(t);
}
