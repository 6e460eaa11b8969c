/* optimization (C11) */
#include "h.h"
#include "optimization.h"
struct c3LS;
double c3opt_ls_box(struct c3Opt *, double *, double, double *, double *, double *, double *, int *);
double c3opt_ls_strong_wolfe(struct c3Opt *, double *, double, double *, double *, double *, double *, int *);
double c3opt_ls_wolfe_bisect(struct c3Opt *, double *, double, double *, double *, double *, double *, int *);
void c3opt_ls_x_move(size_t, double, const double *, const double *, double *, double *, double *);
double c3opt_get_absxtol(struct c3Opt *); double c3opt_get_relftol(struct c3Opt *); double c3opt_get_gtol(struct c3Opt *); size_t c3opt_get_d(struct c3Opt *); int c3opt_get_verbose(struct c3Opt *);
void lbfgs_hg(size_t, size_t, size_t, double, int, double *, const double *, double *, struct c3opt_lbfgs_list *);
/* objective: convex quadratic, optionally with a bounded nonconvex part */
static size_t D; static double Q[36], B[6], W, LB[6], UB[6]; static int boxed; static size_t ncall, ngcall, wrongcoord; static double wrongby; static double lastx[6], lastf;
static double fun(size_t d, const double * x, double * g, void * a){
  if (a != Q) h_fail(__FILE__, __LINE__, "objective called with another argument");
  EQZ(d, D, "dimension passed to the objective");
  double v = 0; ncall++; if (g) ngcall++;
  for (size_t i = 0; i < d; i++){ if (boxed == 2 && !(x[i] >= LB[i] && x[i] <= UB[i])) h_fail(__FILE__, __LINE__, "evaluated outside the box: x[%zu]=%.17g not in [%.17g,%.17g]", i, x[i], LB[i], UB[i]);
    double s = 0; for (size_t j = 0; j < d; j++) s += Q[i * 6 + j] * x[j]; v += x[i] * (0.5 * s - B[i]) + W * cos(2 * x[i]); if (g) g[i] = s - B[i] - 2 * W * sin(2 * x[i]); }
  if (g && wrongcoord < d) g[wrongcoord] += wrongby;
  memcpy(lastx, x, d * 8); lastf = v;
  return v;
}
static double fv(const double * x){ size_t a = ncall, b = ngcall; int bb = boxed; boxed = 0; double v = fun(D, x, NULL, Q); ncall = a; ngcall = b; boxed = bb; return v; }
static void gv(const double * x, double * g){ size_t a = ncall, b = ngcall; int bb = boxed; boxed = 0; fun(D, x, g, Q); ncall = a; ngcall = b; boxed = bb; }
static void problem(int nonconvex, int box, double * x){
  D = ri(1, 5); W = nonconvex ? rs() : 0; wrongcoord = 99; ncall = ngcall = 0; double M[36]; for (size_t i = 0; i < 36; i++) M[i] = rs();
  for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++){ double s = i == j ? 0.3 : 0; for (size_t k = 0; k < D; k++) s += M[i * 6 + k] * M[j * 6 + k]; Q[i * 6 + j] = s; }
  for (size_t i = 0; i < D; i++){ B[i] = 3 * rs(); LB[i] = rs() * 2 - 0.5; UB[i] = LB[i] + 0.1 + 2 * ru(); x[i] = box ? LB[i] + ru() * (UB[i] - LB[i]) : 4 * rs(); if (box && ri(0, 5) == 0) x[i] = ri(0, 1) ? LB[i] : UB[i]; }
  boxed = box ? 2 : 0;
}
static struct c3Opt * mk(enum c3opt_alg alg){ struct c3Opt * o; if (ri(0, 1)) o = c3opt_alloc(alg, D); else { o = c3opt_create(alg); c3opt_set_nvars(o, D); } c3opt_add_objective(o, fun, Q); if (boxed){ c3opt_add_lb(o, LB); c3opt_add_ub(o, UB); } return o; }
static void inbox(const double * x, const char * w){ if (boxed) for (size_t i = 0; i < D; i++) CHECK(x[i] >= LB[i] && x[i] <= UB[i], "%s: coordinate %zu outside the box", w, i); }
static enum c3opt_ls_alg lsalg(void){ enum c3opt_ls_alg a[] = { BACKTRACK, STRONGWOLFE, WEAKWOLFE }; return a[ri(0, 2)]; }
static void minimum(double * xs){ /* unconstrained minimizer of the convex quadratic (Gauss) */
  double A[6][7]; for (size_t i = 0; i < D; i++){ for (size_t j = 0; j < D; j++) A[i][j] = Q[i * 6 + j]; A[i][D] = B[i]; }
  for (size_t i = 0; i < D; i++){ size_t p = i; for (size_t k = i; k < D; k++) if (fabs(A[k][i]) > fabs(A[p][i])) p = k; for (size_t j = 0; j <= D; j++){ double t = A[i][j]; A[i][j] = A[p][j]; A[p][j] = t; } for (size_t k = 0; k < D; k++) if (k != i){ double f = A[k][i] / A[i][i]; for (size_t j = i; j <= D; j++) A[k][j] -= f * A[i][j]; } }
  for (size_t i = 0; i < D; i++) xs[i] = A[i][D] / A[i][i];
}
TEST("C11", o_min){
  double x[6], x0[6], f, f2; enum c3opt_alg algs[] = { BFGS, LBFGS, BATCHGRAD }; enum c3opt_alg alg = algs[ri(0, 2)]; int box = alg == LBFGS ? 0 : (int) ri(0, 1), nc = alg == LBFGS ? 0 : (int) ri(0, 1);
  problem(nc, box, x); memcpy(x0, x, sizeof x); struct c3Opt * o = mk(alg); enum c3opt_ls_alg ls = alg == LBFGS ? WEAKWOLFE : lsalg(); if (nc && alg == BFGS && ls == BACKTRACK) ls = ri(0, 1) ? STRONGWOLFE : WEAKWOLFE; /* quasi-Newton directions with backtracking need not descend on nonconvex objectives */ c3opt_ls_set_alg(o, ls); if (ls == BACKTRACK){ c3opt_ls_set_alpha(o, 0.05 + 0.4 * ru()); c3opt_ls_set_beta(o, 0.2 + 0.7 * ru()); } else if (ls == STRONGWOLFE){ c3opt_ls_set_alpha(o, 1e-4); c3opt_ls_set_beta(o, 0.9); }
  int sharp = ri(0, 1); if (sharp){ c3opt_set_relftol(o, 1e-15); c3opt_set_absxtol(o, 1e-13); c3opt_set_gtol(o, 1e-9); }
  size_t mi = ri(0, 3) ? 200 : ri(1, 5); c3opt_set_maxiter(o, mi); if (alg == LBFGS){ c3opt_set_nvectors_store(o, ri(1, 8)); c3opt_set_lbfgs_scale(o, (int) ri(0, 1)); }
  int sf = ri(0, 1), sg = ri(0, 1), sx = ri(0, 1); c3opt_set_storage_options(o, sf, sg, sx);
  h_note("alg=%d ls=%d d=%zu box=%d nonconvex=%d maxiter=%zu sharp=%d", alg, ls, D, box, nc, mi, sharp);
  double f0 = fv(x); int res = c3opt_minimize(o, x, &f); size_t nc_ = ncall, ng_ = ngcall;
  inbox(x, "result"); SAME(f, fv(x), "reported minimum is not the objective at the reported point"); CHECK(f <= f0 + 1e-6 * (1 + fabs(f0)), "minimum %.17g above the start %.17g", f, f0);
  EQZ(c3opt_get_nevals(o), nc_, "number of evaluations"); EQZ(c3opt_get_ngvals(o), ng_, "number of gradients"); size_t ni = c3opt_get_niters(o); CHECK(ni >= 1 && ni <= mi + 2, "iterations %zu of %zu", ni, mi);
  CHECK(res == C3OPT_SUCCESS || res == C3OPT_GTOL_REACHED || res == C3OPT_FTOL_REACHED || res == C3OPT_XTOL_REACHED || res == C3OPT_MAXITER_REACHED, "return code %d", res);
  if (res == C3OPT_MAXITER_REACHED) CHECK(ni >= mi, "stopped after %zu of %zu iterations", ni, mi);
  if (!box && !nc && sharp && mi == 200 && alg != BATCHGRAD && ls == WEAKWOLFE){ double xs[6]; minimum(xs); CHECK(f - fv(xs) <= 1e-6 * (1 + fabs(f0)), "not a minimizer: %.17g, minimum %.17g", f, fv(xs)); }
  if (!box && nc == 0 && res == C3OPT_GTOL_REACHED && alg == BATCHGRAD){ double g[6], s = 0; gv(x, g); for (size_t i = 0; i < D; i++) s += g[i] * g[i]; CHECK(sqrt(s) <= c3opt_get_gtol(o) * 1.0001, "gradient norm %g above the tolerance", sqrt(s)); }
  if (sf){ SAME(c3opt_get_stored_function(o, 0), f0, "first stored value"); SAME(c3opt_get_stored_function(o, ni - 1), f, "last stored value"); for (size_t i = 1; i < ni; i++) CHECK(c3opt_get_stored_function(o, i) <= c3opt_get_stored_function(o, i - 1) + 1e-6 * (1 + fabs(f0)), "stored values increase"); }
  FILE * fp = tmpfile(); c3opt_print_stored_values(o, fp, 25, 17); rewind(fp); char line[4096]; CHECK(fgets(line, sizeof line, fp) != NULL, "header"); 
  for (size_t i = 0; i < ni; i++){ size_t it; double v = 0, g[6], xx[6], gg[6]; CHECK(fscanf(fp, "%zu", &it) == 1 && it == i, "iteration number"); if (sf) CHECK(fscanf(fp, "%lf", &v) == 1, "value"); for (size_t j = 0; sg && j < D; j++) CHECK(fscanf(fp, "%lf", &g[j]) == 1, "gradient"); for (size_t j = 0; sx && j < D; j++) CHECK(fscanf(fp, "%lf", &xx[j]) == 1, "point");
    if (sx && i == 0) for (size_t j = 0; j < D; j++) NEAR(xx[j], x0[j], "first stored point"); if (sx && i + 1 == ni) for (size_t j = 0; j < D; j++) NEAR(xx[j], x[j], "last stored point"); if (sx){ inbox(xx, "stored point"); if (sf) NEAR(fv(xx), v, "stored value at the stored point"); if (sg){ gv(xx, gg); for (size_t j = 0; j < D; j++) NEAR(g[j], gg[j], "stored gradient at the stored point"); } } }
  fclose(fp);
  /* again, with the same object, and with a copy after the original is gone */
  double y[6]; memcpy(y, x0, sizeof y); c3opt_minimize(o, y, &f2); SAME(f2, f, "second run"); for (size_t j = 0; j < D; j++) SAME(y[j], x[j], "second run");
  struct c3Opt * o2 = c3opt_copy(o); c3opt_free(o); memcpy(y, x0, sizeof y); CHECK(c3opt_minimize(o2, y, &f2) == res, "return code of the copy"); SAME(f2, f, "run of the copy"); for (size_t j = 0; j < D; j++) SAME(y[j], x[j], "run of the copy"); EQZ(c3opt_get_niters(o2), ni, "iterations of the copy"); c3opt_free(o2);
}
TEST("C11", o_ls){
  double x[6], g[6], g0[6], dir[6], nx[6], nf, x0[6]; int box = ri(0, 1), info = 77; problem(ri(0, 1), box, x); memcpy(x0, x, sizeof x); struct c3Opt * o = mk(BFGS); enum c3opt_ls_alg ls = lsalg(); c3opt_ls_set_alg(o, ls); double al = ls == BACKTRACK ? 0.05 + 0.4 * ru() : 1e-4 + 0.3 * ru(), be = ls == BACKTRACK ? 0.2 + 0.7 * ru() : al + (1 - al) * (0.1 + 0.85 * ru()); c3opt_ls_set_alpha(o, al); c3opt_ls_set_beta(o, be);
  double f0 = fv(x); gv(x, g); double dg = 0; for (size_t i = 0; i < D; i++){ dir[i] = -g[i] * (0.2 + 2 * ru()); if (ri(0, 7) == 0) dir[i] = 0; } int up = ri(0, 9) == 0; if (up) for (size_t i = 0; i < D; i++) dir[i] = -dir[i]; for (size_t i = 0; i < D; i++) dg += g[i] * dir[i];
  memcpy(g0, g, sizeof g); h_note("ls=%d d=%zu box=%d alpha=%g beta=%g dg=%g", ls, D, box, al, be, dg); if (fabs(dg) < 1e-8){ c3opt_free(o); return; }
  if (up && ls == BACKTRACK){ c3opt_free(o); return; }
  double r = (ls == BACKTRACK ? c3opt_ls_box : ls == STRONGWOLFE ? c3opt_ls_strong_wolfe : c3opt_ls_wolfe_bisect)(o, x, f0, g, dir, nx, &nf, &info);
  for (size_t i = 0; i < D; i++) SAME(x[i], x0[i], "starting point changed");
  EQZ(c3opt_get_nevals(o), ncall, "number of evaluations");
  if (up){ CHECK(info == -4, "ascent direction accepted (info %d)", info); SAME(nf, f0, "value without a step"); for (size_t i = 0; i < D; i++) SAME(nx[i], x[i], "moved along an ascent direction"); c3opt_free(o); return; }
  CHECK(info == 0 || info == 1, "info %d", info); inbox(nx, "accepted point"); SAME(nf, fv(nx), "reported value is not the value at the accepted point");
  double t = r / al, mv = 0; for (size_t i = 0; i < D; i++) mv += (nx[i] - x[i]) * (nx[i] - x[i]); mv = sqrt(mv);
  if (info == 0 && mv >= c3opt_get_absxtol(o)){
    double want[6]; c3opt_ls_x_move(D, t, dir, x, want, box ? LB : NULL, box ? UB : NULL); int zoomed = 0; for (size_t i = 0; i < D; i++){ double e = x[i] + t * dir[i]; if (box) e = e < LB[i] ? LB[i] : e > UB[i] ? UB[i] : e; NEAR(want[i], e, "step"); if (fabs(nx[i] - e) > 1e-8) zoomed = 1; }
    if (ls != STRONGWOLFE) CHECK(!zoomed, "accepted point is not the clipped step of the returned length");
    if (!zoomed) CHECK(nf <= f0 + al * t * dg + 1e-9 * (1 + fabs(f0)), "insufficient decrease: %.17g > %.17g", nf, f0 + al * t * dg);
    double h[6]; gv(nx, h); double dg2 = 0; for (size_t i = 0; i < D; i++) dg2 += h[i] * dir[i];
    if (ls != BACKTRACK) for (size_t i = 0; i < D; i++) NEAR(g[i], h[i], "gradient at the accepted point"); else for (size_t i = 0; i < D; i++) SAME(g[i], g0[i], "gradient changed");
    if (ls == WEAKWOLFE) CHECK(dg2 >= be * dg - 1e-9 * (1 + fabs(dg)), "curvature condition: %g < %g", dg2, be * dg);
    if (ls == STRONGWOLFE && !zoomed && !box && t < 0.999 /* the search is capped at a unit step */) CHECK(fabs(dg2) <= -be * dg + 1e-9 * (1 + fabs(dg)), "strong curvature condition: |%g| > %g", dg2, -be * dg); }
  CHECK(nf <= f0 + 1e-9 * (1 + fabs(f0)) || info == 1, "line search went up");
  c3opt_free(o);
}
TEST("C11", o_xmove){
  double x[6], dir[6], nx[7]; problem(0, 1, x); for (size_t i = 0; i < D; i++) dir[i] = 4 * rs(); double t = ru() * 2, x0[6]; memcpy(x0, x, sizeof x); nx[D] = 4.25; int b = ri(0, 1); c3opt_ls_x_move(D, t, dir, x, nx, b ? LB : NULL, b ? UB : NULL);
  for (size_t i = 0; i < D; i++){ double e = x[i] + t * dir[i]; if (b){ if (e < LB[i]) e = LB[i]; if (e > UB[i]) e = UB[i]; CHECK(nx[i] >= LB[i] && nx[i] <= UB[i], "outside the box"); } NEAR(nx[i], e, "step"); SAME(x[i], x0[i], "start changed"); } SAME(nx[D], 4.25, "wrote past the point");
}
TEST("C11 C02", o_brute){
  double x[6]; problem(1, 0, x); size_t n = ri(1, 12); double * loc = malloc(n * D * 8); for (size_t i = 0; i < n * D; i++) loc[i] = 3 * rs(); if (n > 2 && ri(0, 1)) memcpy(loc + D, loc + 2 * D, D * 8);
  struct c3Opt * o = c3opt_alloc(BRUTEFORCE, D); c3opt_add_objective(o, fun, Q); CHECK(c3opt_is_bruteforce(o), "is_bruteforce"); CHECK(!c3opt_is_sgd(o), "is_sgd"); c3opt_set_brute_force_vals(o, n, loc); double * keep = malloc(n * D * 8); memcpy(keep, loc, n * D * 8); for (size_t i = 0; i < n * D; i++) loc[i] = 1e9;
  double f; h_note("n=%zu d=%zu", n, D); if (ri(0, 1)){ struct c3Opt * c = c3opt_copy(o); c3opt_free(o); o = c; } ncall = 0; CHECK(c3opt_minimize(o, x, &f) == 0, "return code"); EQZ(ncall, n, "locations evaluated"); size_t b = 0; for (size_t i = 1; i < n; i++) if (fv(keep + i * D) < fv(keep + b * D)) b = i;
  SAME(f, fv(keep + b * D), "best value"); SAME(fv(x), f, "value at the returned location"); for (size_t i = 0; i < D; i++) SAME(x[i], keep[b * D + i], "best location"); c3opt_free(o); free(loc); free(keep);
}
TEST("C11", o_deriv){
  double x[6], x0[6], diffs[6]; problem(1, 0, x); memcpy(x0, x, sizeof x); struct c3Opt * o = mk(BFGS); double e = c3opt_check_deriv(o, x, 1e-5); CHECK(e < 1e-6, "exact gradient reported wrong by %g", e); e = c3opt_check_deriv_each(o, x, 1e-5, diffs); CHECK(e < 1e-6, "exact gradient reported wrong by %g", e); for (size_t i = 0; i < D; i++) CHECK(fabs(diffs[i]) < 1e-6, "difference %g", diffs[i]);
  wrongcoord = ri(0, D - 1); wrongby = (ri(0, 1) ? 1 : -1) * (0.5 + ru()); c3opt_check_deriv_each(o, x, 1e-5, diffs); for (size_t i = 0; i < D; i++) CHECK(fabs(diffs[i] + (i == wrongcoord ? wrongby : 0)) < 1e-6, "difference in coordinate %zu: %g", i, diffs[i]);
  double gg[6], n = 0; size_t w = wrongcoord; wrongcoord = 99; gv(x, gg); for (size_t i = 0; i < D; i++) n += gg[i] * gg[i]; wrongcoord = w; e = c3opt_check_deriv(o, x, 1e-5); CHECK(fabs(e - (n > 1 ? fabs(wrongby) / sqrt(n) : fabs(wrongby))) < 1e-5, "error measure %g", e);
  for (size_t i = 0; i < D; i++) SAME(x[i], x0[i], "point changed"); c3opt_free(o);
}
TEST("C11 C02", o_copyrun){
  double x[6], x1[6], x2[6], f, f1, f2; int box = (int) ri(0, 1); problem(0, box, x); memcpy(x1, x, sizeof x); memcpy(x2, x, sizeof x); enum c3opt_alg alg = ri(0, 1) ? BFGS : BATCHGRAD; struct c3Opt * o = mk(alg); c3opt_ls_set_alg(o, BACKTRACK); c3opt_set_maxiter(o, ri(2, 12)); c3opt_set_storage_options(o, 1, (int) ri(0, 1), (int) ri(0, 1)); int run = (int) ri(0, 2); h_note("alg=%d d=%zu run-before=%d ", alg, D, run);
  if (run) c3opt_minimize(o, x, &f); size_t n = c3opt_get_niters(o), ne = c3opt_get_nevals(o); double st[64]; for (size_t i = 0; i < n && i < 64; i++) st[i] = c3opt_get_stored_function(o, i);
  struct c3Opt * c = c3opt_copy(o); EQZ(c3opt_get_niters(c), n, "iterations of the copy"); EQZ(c3opt_get_nevals(c), ne, "evaluations of the copy"); for (size_t i = 0; i < n && i < 64; i++) SAME(c3opt_get_stored_function(c, i), st[i], "history of the copy");
  if (run && n){ for (size_t i = 0; i < D; i++) x1[i] = box ? LB[i] : 3 * rs(); if (run == 2) c3opt_minimize(o, x1, &f1); else { c3opt_free(o); o = NULL; } for (size_t i = 0; i < n && i < 64; i++) SAME(c3opt_get_stored_function(c, i), st[i], "history of the copy after the original was used or freed"); }
  memcpy(x1, x2, sizeof x); c3opt_minimize(c, x1, &f1); if (o){ c3opt_minimize(o, x2, &f2); SAME(f1, f2, "a copy minimizes like the original"); for (size_t i = 0; i < D; i++) SAME(x1[i], x2[i], "a copy minimizes like the original"); }
  c3opt_free(o); c3opt_free(c);
}
TEST("C11 C02", o_copy){
  double x[6]; problem(0, 1, x); enum c3opt_alg algs[] = { BFGS, LBFGS, BATCHGRAD, SGD }; enum c3opt_alg alg = algs[ri(0, 3)]; struct c3Opt * o = c3opt_alloc(alg, D); c3opt_add_lb(o, LB); c3opt_add_ub(o, UB); h_note("alg=%d d=%zu", alg, D);
  double a = 0.01 + 0.4 * ru(), b = ru(), g = ru(), r = ru(), xt = ru(); size_t m = ri(1, 50), mi = ri(1, 9), ns = ri(2, 9); int v = (int) ri(0, 3), sc = (int) ri(0, 1), sf = (int) ri(0, 1);
  if (alg != SGD){ c3opt_ls_set_alpha(o, a); c3opt_ls_set_beta(o, b); c3opt_ls_set_maxiter(o, m); c3opt_ls_set_alg(o, STRONGWOLFE); } else { c3opt_set_sgd_nsamples(o, ns); c3opt_set_sgd_learn_rate(o, r); }
  c3opt_set_gtol(o, g); c3opt_set_relftol(o, r); c3opt_set_absxtol(o, xt); c3opt_set_maxiter(o, mi); c3opt_set_nvectors_store(o, m); c3opt_set_lbfgs_scale(o, sc); c3opt_set_verbose(o, v); c3opt_set_storage_options(o, sf, 1, 1);
  struct c3Opt * c = c3opt_copy(o); CHECK(c3opt_get_lb(c) != c3opt_get_lb(o) && c3opt_get_ub(c) != c3opt_get_ub(o), "shared bounds"); if (ri(0, 1)){ for (size_t i = 0; i < D; i++) c3opt_get_lb(o)[i] = 7; } c3opt_free(o);
  for (size_t i = 0; i < D; i++){ SAME(c3opt_get_lb(c)[i], LB[i], "lower bound"); SAME(c3opt_get_ub(c)[i], UB[i], "upper bound"); }
  EQZ(c3opt_get_d(c), D, "dimension"); if (alg != SGD){ SAME(c3opt_ls_get_alpha(c), a, "alpha"); SAME(c3opt_ls_get_beta(c), b, "beta"); EQZ(c3opt_ls_get_maxiter(c), m, "line search iterations"); CHECK(c3opt_ls_get_alg(c) == STRONGWOLFE, "line search"); CHECK(c3opt_ls_get_initial(c) == 0, "initial"); } else EQZ(c3opt_get_sgd_nsamples(c), ns, "samples");
  SAME(c3opt_get_gtol(c), g, "gtol"); SAME(c3opt_get_relftol(c), r, "relftol"); SAME(c3opt_get_absxtol(c), xt, "absxtol"); EQZ(c3opt_get_maxiter(c), mi, "maxiter"); EQZ(c3opt_get_nvectors_store(c), m, "vectors"); CHECK(c3opt_get_lbfgs_scale(c) == sc && c3opt_get_verbose(c) == v && c3opt_get_store_func(c) == sf, "options"); CHECK(c3opt_is_sgd(c) == (alg == SGD), "algorithm"); c3opt_free(c); CHECK(c3opt_copy(NULL) == NULL, "copy of nothing"); c3opt_free(NULL);
}
TEST("C11", o_list){
  size_t m = ri(1, 6), d = ri(1, 4), n = ri(1, 14); struct c3opt_lbfgs_list * l = c3opt_lbfgs_list_alloc(m, d); double * X = malloc((n + 1) * d * 8), * G = malloc((n + 1) * d * 8); h_note("m=%zu d=%zu n=%zu", m, d, n);
  double A[16]; for (size_t i = 0; i < 16; i++) A[i] = rs();
  for (size_t i = 0; i <= n; i++){ for (size_t j = 0; j < d; j++) X[i * d + j] = rs(); for (size_t j = 0; j < d; j++){ double s = 0.5 * X[i * d + j]; for (size_t k = 0; k < d; k++) for (size_t q = 0; q < d; q++) s += A[k * 4 + j] * A[k * 4 + q] * X[i * d + q]; G[i * d + j] = s; } }
  for (size_t i = 0; i < n; i++){
    c3opt_lbfgs_list_insert(l, i, X + (i + 1) * d, X + i * d, G + (i + 1) * d, G + i * d); size_t cnt = i + 1 < m ? i + 1 : m;
    for (int rep = 0; rep < 2; rep++) for (int back = 0; back < 2; back++){ c3opt_lbfgs_reset_step(l); for (size_t k = 0; k < cnt; k++){ size_t it = 999; double * s, * y, rho; (back ? c3opt_lbfgs_list_step_back : c3opt_lbfgs_list_step)(l, &it, &s, &y, &rho); size_t w = back ? i + 1 - cnt + k : i - k; EQZ(it, w, "iteration of the stored pair"); double e = 0; for (size_t j = 0; j < d; j++){ double sj = X[(w + 1) * d + j] - X[w * d + j], yj = G[(w + 1) * d + j] - G[w * d + j]; NEAR(s[j], sj, "stored step"); NEAR(y[j], yj, "stored gradient difference"); e += sj * yj; } NEAR(rho, e, "stored inner product"); } }
    /* two-loop recursion = dense BFGS from the stored pairs */
    double H[16], g[4], q[4], al[16]; int sc = (int) ri(0, 1); double ys = 0, yy = 0; for (size_t j = 0; j < d; j++){ double sj = X[(i + 1) * d + j] - X[i * d + j], yj = G[(i + 1) * d + j] - G[i * d + j]; ys += sj * yj; yy += yj * yj; g[j] = rs(); }
    double h0 = 0.5 + ru(), hs = h0 * (sc && yy > 1e-15 ? ys / yy : 1); for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) H[a * 4 + b] = a == b ? hs : 0; int bad = 0;
    for (size_t w = i + 1 - cnt; w <= i; w++){ double s[4], y[4], r = 0; for (size_t j = 0; j < d; j++){ s[j] = X[(w + 1) * d + j] - X[w * d + j]; y[j] = G[(w + 1) * d + j] - G[w * d + j]; r += s[j] * y[j]; } if (r < 1e-2) bad = 1; double Hy[4], yHy = 0; for (size_t a = 0; a < d; a++){ Hy[a] = 0; for (size_t b = 0; b < d; b++) Hy[a] += H[a * 4 + b] * y[b]; } for (size_t a = 0; a < d; a++) yHy += y[a] * Hy[a]; for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) H[a * 4 + b] += (1 + yHy / r) * s[a] * s[b] / r - (Hy[a] * s[b] + s[a] * Hy[b]) / r; }
    if (!bad){ lbfgs_hg(i + 1, m, d, h0, sc, al, g, q, l); for (size_t a = 0; a < d; a++){ double e = 0; for (size_t b = 0; b < d; b++) e += H[a * 4 + b] * g[b]; if (fabs(q[a] - e) > 1e-6 * (1 + fabs(e))) h_fail(__FILE__, __LINE__, "two-loop recursion: got %.17g expected %.17g", q[a], e); } } }
  c3opt_lbfgs_list_free(l); free(X); free(G); c3opt_lbfgs_list_free(NULL); c3opt_lbfgs_list_free(c3opt_lbfgs_list_alloc(2, 3));
}
/* older interfaces */
static double ff(double * x, void * a){ return fun(D, x, NULL, a); }
static int gg(double * x, double * g, void * a){ size_t c = ncall; fun(D, x, g, a); ncall = c; return 0; }
static int hh(double * x, double * h, void * a){ (void) x; (void) a; for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) h[i + j * D] = Q[i * 6 + j]; return 0; }
static double * ng(double * x, void * a){ double * g = malloc(D * 8); fun(D, x, g, a); return g; }
static double * nh(double * x, void * a){ double * h = malloc(D * D * 8); hh(x, h, a); return h; }
TEST("C11", o_legacy){
  double x[6], x0[6], g[6], H[36], sp[24], f, xs[6]; int w = (int) ri(0, 4), box = w == 1 || w == 2 || w == 4; problem(0, box, x); memcpy(x0, x, sizeof x); double f0 = fv(x); minimum(xs); double al = 0.05 + 0.3 * ru(), be = 0.3 + 0.5 * ru(); h_note("routine=%d d=%zu", w, D);
  if (w == 0){ double * s = malloc(D * 8); memcpy(s, x, D * 8); newton(&s, D, 1.0, 1e-10, ng, nh, Q); for (size_t i = 0; i < D; i++) CHECK(fabs(s[i] - xs[i]) < 1e-6 * (1 + fabs(xs[i])), "newton: got %.17g expected %.17g", s[i], xs[i]); free(s); return; }
  int r; size_t mi = ri(2, 40);
  if (w == 1) r = box_damp_newton(D, LB, UB, x, &f, g, H, sp, ff, Q, gg, Q, hh, Q, 1e-12, mi, 60, al, be, 0);
  else if (w == 2) r = box_pg_descent(D, LB, UB, x, &f, g, sp, ff, Q, gg, Q, 1e-9, mi, 60, al, be, 0);
  else if (w == 3){ r = gradient_descent(D, x, &f, g, sp, ff, Q, gg, Q, 1e-7, 5000, 60, al, be, 0); if (r == 0) for (size_t i = 0; i < D; i++) CHECK(fabs(x[i] - xs[i]) < 1e-5, "gradient descent did not reach the minimizer"); }
  else { memset(H, 0, sizeof H); for (size_t i = 0; i < D; i++) H[i * D + i] = 1; r = box_damp_bfgs(D, LB, UB, x, &f, g, H, sp, ff, Q, gg, 1e-12, mi, 60, al, be, 0); }
  inbox(x, "result"); SAME(f, fv(x), "reported value is not the value at the reported point"); if (r == 0 && (w == 2 || w == 3)) CHECK(f <= f0 + 1e-10 * (1 + fabs(f0)), "went up from %.17g to %.17g", f0, f);
}
TEST("C11", o_backtrack){
  double x[6], x0[6], g[6], p[6], nx[6], f; int box = (int) ri(0, 1), info = 55; problem(ri(0, 1), box, x); memcpy(x0, x, sizeof x); double f0 = fv(x), al = 0.01 + 0.45 * ru(), be = 0.2 + 0.7 * ru(), dg = 0; gv(x, g); for (size_t i = 0; i < D; i++){ p[i] = -g[i] * (0.1 + 3 * ru()); dg += p[i] * g[i]; } size_t mi = ri(2, 80); h_note("d=%zu box=%d maxiter=%zu", D, box, mi);
  double r = box ? backtrack_line_search_bc(D, LB, UB, x, f0, p, nx, &f, g, al, be, ff, Q, mi, &info) : backtrack_line_search(D, x, f0, p, nx, &f, g, al, be, ff, Q, mi, &info); double t = box ? r / al : r;
  CHECK(info == 0 || info == 1, "info %d", info); CHECK(ncall + 1 <= (mi > 2 ? mi : 2), "%zu evaluations for %zu iterations", ncall, mi); inbox(nx, "accepted point"); SAME(f, fv(nx), "reported value"); for (size_t i = 0; i < D; i++){ double e = x[i] + t * p[i]; if (box) e = e < LB[i] ? LB[i] : e > UB[i] ? UB[i] : e; NEAR(nx[i], e, "step of the returned length"); SAME(x[i], x0[i], "start changed"); } if (info == 0) CHECK(f <= f0 + al * t * dg + 1e-10 * (1 + fabs(f0)), "insufficient decrease");
  if (info == 1) EQZ(ncall + 1, mi > 2 ? mi : 2, "gave up early");
  if (box){ x[0] = UB[0] + 1; backtrack_line_search_bc(D, LB, UB, x, f0, p, nx, &f, g, al, be, ff, Q, mi, &info); CHECK(info == -3, "infeasible start accepted"); } 
}
static size_t NS, seen[64], sn; static double SA[64 * 6], SB[64];
static double fs(size_t d, size_t ind, const double * x, double * g, void * a){ if (a != SA) h_fail(__FILE__, __LINE__, "argument"); EQZ(d, D, "dimension"); CHECK(ind < NS, "sample %zu of %zu", ind, NS); if (g){ ngcall++; seen[ind]++; sn++; } ncall++; double r = -SB[ind]; for (size_t i = 0; i < d; i++) r += SA[ind * 6 + i] * x[i]; if (g) for (size_t i = 0; i < d; i++) g[i] = 2 * r * SA[ind * 6 + i]; memcpy(lastx, x, d * 8); return r * r; }
TEST("C11", o_sgd){
  double x[6], xs[6], f = -1; problem(0, 0, x); NS = ri(2, 40); for (size_t i = 0; i < D; i++) xs[i] = rs(); for (size_t i = 0; i < NS; i++){ SB[i] = 0; for (size_t j = 0; j < D; j++){ SA[i * 6 + j] = rs(); SB[i] += SA[i * 6 + j] * xs[j]; } } memset(seen, 0, sizeof seen); sn = 0; ncall = ngcall = 0; h_note("samples=%zu d=%zu", NS, D);
  struct c3Opt * o = c3opt_alloc(SGD, D); c3opt_add_objective_stoch(o, fs, SA); c3opt_set_sgd_nsamples(o, NS); c3opt_set_sgd_learn_rate(o, 0.05); size_t mi = ri(1, 25); c3opt_set_maxiter(o, mi); if (ri(0, 1)){ struct c3Opt * c = c3opt_copy(o); c3opt_free(o); o = c; }
  double e0 = 0, e1 = 0; for (size_t i = 0; i < NS; i++){ e0 += fs(D, i, x, NULL, SA); } ncall = 0; int r = c3opt_minimize(o, x, &f); EQZ(c3opt_get_nevals(o), ncall, "evaluations"); EQZ(c3opt_get_ngvals(o), ngcall, "gradients"); size_t nt = (size_t) lrint(NS / 1.1); EQZ(sn, nt * c3opt_get_niters(o), "gradients per epoch"); for (size_t i = 0; i < D; i++) SAME(lastx[i], x[i], "last evaluated point is the result");
  CHECK(c3opt_get_niters(o) <= mi, "epochs"); if (r == C3OPT_MAXITER_REACHED) EQZ(c3opt_get_niters(o), mi, "epochs at the limit"); CHECK(f >= 0 && isfinite(f), "training error"); for (size_t i = 0; i < NS; i++) e1 += fs(D, i, x, NULL, SA); CHECK(f * nt <= e1 * (1 + 1e-9) + 1e-12, "reported error is not the mean training error"); if (mi <= 10 && NS > 10) CHECK(e1 <= e0 + 1e-9, "error went up from %g to %g", e0, e1); c3opt_free(o);
}
