/* piecewise linear and piecewise constant functions (C08), their parameters (C03) and copies (C02) */
#include "h.h"
static size_t nn(void){ size_t k = ri(0, 99); return k == 0 ? ri(250, 600) : k < 30 ? ri(2, 4) : ri(2, 14); }
static double lo, hi;
static double * nodes_(size_t n){ lo = -1 + 0.5 * rs(); hi = lo + 0.2 + 3 * ru(); double * x = rnodes(n); for (size_t i = 0; i < n; i++) x[i] = lo + (hi - lo) * (x[i] + 1) / 2; x[0] = lo; x[n - 1] = hi; return x; }
static double refL(size_t n, const double * x, const double * c, double t){
  if (t < x[0] || t > x[n - 1]) return 0;
  size_t i = 0; while (i + 2 < n && t >= x[i + 1]) i++;
  double w = (t - x[i]) / (x[i + 1] - x[i]); return (1 - w) * c[i] + w * c[i + 1];
}
static int tie(size_t n, const double * x, double t){ for (size_t i = 0; i + 1 < n; i++) if (fabs(t - (x[i] + x[i + 1]) / 2) < 1e-9) return 1; return 0; }
static double refC(size_t n, const double * x, const double * c, double t){
  if (t < x[0] || t > x[n - 1]) return 0;
  size_t b = 0; for (size_t i = 1; i < n; i++) if (fabs(t - x[i]) < fabs(t - x[b])) b = i; return c[b];
}
static double wq(size_t n, const double * x, size_t i){ return ((i + 1 < n ? x[i + 1] : x[i]) - (i ? x[i - 1] : x[i])) / 2; }
static double somept(size_t n, const double * x){
  switch (ri(0, 5)){ case 0: return x[ri(0, n - 1)]; case 1: return x[0] - ru(); case 2: return x[n - 1] + ru(); case 3: return r64() & 1 ? x[0] : x[n - 1]; default: return x[0] + (x[n - 1] - x[0]) * ru(); }
}
#define BOTH(CODE_L, CODE_C) do { if (hcls == LINELM){ CODE_L; } else { CODE_C; } } while (0)
struct EF { size_t n; double * x, * c; struct GenericFunction * g; };
static struct EF mk(size_t n, double * x){ struct EF e; e.n = n; e.x = x; e.c = rvec(n); e.g = generic_function_alloc(1, hcls); e.g->fargs = NULL; BOTH(e.g->f = lin_elem_exp_init(n, x, e.c), e.g->f = const_elem_exp_init(n, x, e.c)); return e; }
static double ref(struct EF e, double t){ return hcls == LINELM ? refL(e.n, e.x, e.c, t) : refC(e.n, e.x, e.c, t); }
static void unchanged(struct EF e, const char * w){
  BOTH(struct LinElemExp * f = e.g->f; EQZ(f->num_nodes, e.n, w); for (size_t i = 0; i < e.n; i++){ SAME(f->nodes[i], e.x[i], w); SAME(f->coeff[i], e.c[i], w); },
       struct ConstElemExp * f = e.g->f; EQZ(f->num_nodes, e.n, w); for (size_t i = 0; i < e.n; i++){ SAME(f->nodes[i], e.x[i], w); SAME(f->coeff[i], e.c[i], w); });
}
static void start(void){ pick_class(); h_note("class=%s ", hcls == LINELM ? "linelm" : "constelm"); }
static void done(struct EF e){ generic_function_free(e.g); free(e.c); }
TEST("C08", e_eval){
  start(); size_t n = nn(); double * x = nodes_(n); struct EF e = mk(n, x); h_note("n=%zu", n);
  for (int k = 0; k < 6; k++){
    double t = somept(n, x); if (hcls == CONSTELM && tie(n, x, t)) continue;
    double r = ref(e, t); h_note(" t=%.17g", t);
    NEAR(generic_function_1d_eval(e.g, t), r, "value");
    BOTH(NEAR(lin_elem_exp_eval(e.g->f, t), r, "value"), NEAR(const_elem_exp_eval(e.g->f, t), r, "value"));
  }
  for (size_t i = 0; i < n; i++){ SAME(generic_function_1d_eval(e.g, x[i]), e.c[i], "value at a node"); SAME(generic_function_1d_eval_ind(e.g, i), e.c[i], "value by node index"); }
  size_t N = ri(0, 6), ix = ri(1, 3), iy = ri(1, 3); double * p = rvec(N * ix + 1), * y = rvec(N * iy + 1), * y0 = malloc((N * iy + 1) * 8); memcpy(y0, y, (N * iy + 1) * 8);
  for (size_t i = 0; i < N; i++) do p[i * ix] = somept(n, x); while (hcls == CONSTELM && tie(n, x, p[i * ix]));
  generic_function_1d_evalN(e.g, N, p, ix, y, iy);
  for (size_t i = 0; i < N * iy + 1; i++) if (i % iy == 0 && i / iy < N){ NEAR(y[i], ref(e, p[(i / iy) * ix]), "strided evaluation"); } else SAME(y[i], y0[i], "cell between the strides");
  SAME(generic_function_get_lb(e.g), x[0], "lower bound"); SAME(generic_function_get_ub(e.g), x[n - 1], "upper bound");
  unchanged(e, "operand"); done(e); free(x); free(p); free(y); free(y0);
}
TEST("C08", e_integrals){
  start(); size_t n = nn(); double * x = nodes_(n); struct EF e = mk(n, x), g = mk(n, x); h_note("n=%zu", n); double s = 0, q = 0, qq = 0;
  for (size_t i = 0; i < n; i++){ s += wq(n, x, i) * e.c[i]; q += wq(n, x, i) * e.c[i] * g.c[i]; qq += wq(n, x, i) * e.c[i] * e.c[i]; }
  NEAR(generic_function_integrate(e.g), s, "integral"); NEAR(generic_function_inner(e.g, g.g), q, "inner product"); NEAR(generic_function_inner(g.g, e.g), q, "inner product");
  NEAR(generic_function_norm(e.g), sqrt(qq), "norm");
  double d = 0; for (size_t i = 0; i < n; i++) d += wq(n, x, i) * (e.c[i] - g.c[i]) * (e.c[i] - g.c[i]); NEAR(generic_function_norm2diff(e.g, g.g), sqrt(d), "norm of the difference");
  /* different nodes on the same interval: nodal quadrature over the union of the nodes */
  size_t m = nn(); double * z = nodes_(m); for (size_t i = 0; i < m; i++) z[i] = x[0] + (x[n - 1] - x[0]) * (z[i] - lo) / (hi - lo); z[0] = x[0]; z[m - 1] = x[n - 1];
  if (m > 3 && n > 3 && (r64() & 1)) for (size_t i = 1; i + 1 < m; i++) if (r64() & 1){ for (size_t j = 1; j + 1 < n; j++) if (x[j] > z[i - 1] && x[j] < z[i + 1]) z[i] = x[j]; }
  struct EF h = mk(m, z); double * u = malloc((n + m) * 8); size_t k = 0, i = 0, j = 0;
  while (i < n || j < m){ double a = i < n ? x[i] : 1e300, b = j < m ? z[j] : 1e300; if (a == b){ u[k++] = a; i++; j++; } else if (a < b){ u[k++] = a; i++; } else { u[k++] = b; j++; } }
  int t = 0; for (i = 0; i < k; i++) if (hcls == CONSTELM && (tie(n, x, u[i]) || tie(m, z, u[i]))) t = 1;
  for (i = 0; i + 1 < k; i++) if (u[i + 1] - u[i] < 1e-9) t = 1;
  if (!t && k > 2){ q = 0; for (i = 0; i < k; i++) q += wq(k, u, i) * ref(e, u[i]) * ref(h, u[i]); NEAR(generic_function_inner(e.g, h.g), q, "inner product, different nodes"); }
  unchanged(e, "operand"); unchanged(g, "operand"); unchanged(h, "operand"); done(e); done(g); done(h); free(x); free(z); free(u);
}
TEST("C08", e_linear_ops){
  start(); size_t n = nn(); double * x = nodes_(n); struct EF e = mk(n, x), g = mk(n, x); h_note("n=%zu", n); double a = rs() * 3, t;
  int same = hcls == CONSTELM || (r64() & 1); double * z = NULL; if (!same){ size_t m = nn(); z = nodes_(m); for (size_t i = 0; i < m; i++) z[i] = x[0] + (x[n - 1] - x[0]) * (z[i] - lo) / (hi - lo); z[0] = x[0]; z[m - 1] = x[n - 1]; done(g); g = mk(m, z); h_note(" m=%zu", m); }
  EQZ((size_t)generic_function_axpy(a, e.g, g.g), 0, "axpy result"); unchanged(e, "axpy operand");
  for (int k = 0; k < 8; k++){ t = somept(n, x); if (t < x[0] || t > x[n - 1] || (hcls == CONSTELM && tie(n, x, t))) continue; NEAR(generic_function_1d_eval(g.g, t), a * ref(e, t) + ref(g, t), "axpy value"); }
  if (hcls == CONSTELM){   /* different nodes: values at the union of the nodes */
    size_t m = nn(); double * y = nodes_(m); for (size_t i = 0; i < m; i++) y[i] = x[0] + (x[n - 1] - x[0]) * (y[i] - lo) / (hi - lo); y[0] = x[0]; y[m - 1] = x[n - 1]; struct EF q = mk(m, y); h_note(" m=%zu", m); int bad = 0;
    for (size_t i = 0; i < n; i++){ bad |= tie(m, y, x[i]); for (size_t j = 1; j + 1 < m; j++) bad |= fabs(x[i] - y[j]) < 1e-9; } for (size_t j = 0; j < m; j++) bad |= tie(n, x, y[j]);
    if (!bad){ EQZ((size_t)generic_function_axpy(a, e.g, q.g), 0, "axpy result"); unchanged(e, "axpy operand"); for (size_t i = 0; i < n; i++) NEAR(generic_function_1d_eval(q.g, x[i]), a * e.c[i] + ref(q, x[i]), "axpy value, different nodes"); for (size_t i = 0; i < m; i++) NEAR(generic_function_1d_eval(q.g, y[i]), a * ref(e, y[i]) + q.c[i], "axpy value, different nodes"); EQZ(((struct ConstElemExp *) q.g->f)->num_nodes, m > 2 && n > 2 ? n + m - 2 : n > m ? n : m, "nodes of the sum"); }
    done(q); free(y); }
  done(g); g = mk(n, x);
  struct GenericFunction * p = generic_function_prod(e.g, g.g); for (size_t i = 0; i < n; i++) NEAR(generic_function_1d_eval(p, x[i]), e.c[i] * g.c[i], "product at a node"); generic_function_free(p); unchanged(e, "product operand"); unchanged(g, "product operand");
  generic_function_scale(a, g.g); for (int k = 0; k < 4; k++){ t = somept(n, x); if (hcls == CONSTELM && tie(n, x, t)) continue; NEAR(generic_function_1d_eval(g.g, t), a * ref(g, t), "scaled value"); }
  generic_function_flip_sign(g.g); for (int k = 0; k < 4; k++){ t = somept(n, x); if (hcls == CONSTELM && tie(n, x, t)) continue; NEAR(generic_function_1d_eval(g.g, t), -a * ref(g, t), "value after sign flip"); }
  struct GenericFunction * c = generic_function_copy(e.g); generic_function_scale(2.0, c); unchanged(e, "original of the scaled copy"); for (size_t i = 0; i < n; i++) NEAR(generic_function_1d_eval(c, x[i]), 2 * e.c[i], "scaled copy"); generic_function_free(c);
  struct GenericFunction * w = generic_function_daxpby(a, e.g, 0.5, g.g); for (int k = 0; k < 4; k++){ t = somept(n, x); if (hcls == CONSTELM && tie(n, x, t)) continue; NEAR(generic_function_1d_eval(w, t), a * ref(e, t) - 0.5 * a * ref(g, t), "linear combination"); } generic_function_free(w);
  done(e); done(g); free(x); free(z);
}
TEST("C08", e_extrema){
  start(); size_t n = nn(); double * x = nodes_(n); struct EF e = mk(n, x); h_note("n=%zu", n); double mx = -1e9, mn = 1e9, am = -1, t;
  for (size_t i = 0; i < n; i++){ if (e.c[i] > mx) mx = e.c[i]; if (e.c[i] < mn) mn = e.c[i]; if (fabs(e.c[i]) > am) am = fabs(e.c[i]); }
  BOTH(SAME(lin_elem_exp_max(e.g->f, &t), mx, "maximum"), SAME(const_elem_exp_max(e.g->f, &t), mx, "maximum")); SAME(generic_function_1d_eval(e.g, t), mx, "value at the maximizer");
  BOTH(SAME(lin_elem_exp_min(e.g->f, &t), mn, "minimum"), SAME(const_elem_exp_min(e.g->f, &t), mn, "minimum")); SAME(generic_function_1d_eval(e.g, t), mn, "value at the minimizer");
  SAME(generic_function_absmax(e.g, &t, NULL), am, "largest absolute value"); SAME(fabs(generic_function_1d_eval(e.g, t)), am, "value at the location");
  size_t at = 99999; BOTH(SAME(lin_elem_exp_absmax(e.g->f, &at, 1, NULL), am, "largest absolute value"), SAME(const_elem_exp_absmax(e.g->f, &at, 1, NULL), am, "largest absolute value")); CHECK(at < n && fabs(e.c[at]) == am, "node number %zu of the largest absolute value", at);
  size_t N = ri(1, 7); double * p = malloc(N * 8); for (size_t i = 0; i < N; i++) do p[i] = somept(n, x); while (hcls == CONSTELM && tie(n, x, p[i])); struct c3Vector * v = c3vector_alloc(N, p); am = -1; size_t b = 0;
  for (size_t i = 0; i < N; i++) if (fabs(ref(e, p[i])) > am){ am = fabs(ref(e, p[i])); b = i; } (void)b;
  NEAR(generic_function_absmax(e.g, &t, v), am, "largest absolute value over given points"); int f = 0; for (size_t i = 0; i < N; i++) if (t == p[i]) f = 1; CHECK(f, "location %g is not one of the given points", t); NEAR(fabs(ref(e, t)), am, "value at the returned location");
  unchanged(e, "operand"); c3vector_free(v); free(p); done(e); free(x);
}
TEST("C08", e_deriv){
  start(); size_t n = nn(); double * x = nodes_(n); struct EF e = mk(n, x); h_note("n=%zu", n); double * c = e.c;
  if (hcls == LINELM){
    struct GenericFunction * d = generic_function_deriv(e.g); 
    for (size_t i = 0; i < n; i++){
      double r; if (i == 0) r = (c[1] - c[0]) / (x[1] - x[0]); else if (i == n - 1) r = (c[i] - c[i - 1]) / (x[i] - x[i - 1]);
      else if (n <= 5 || i == 1 || i == n - 2) r = (c[i + 1] - c[i - 1]) / (x[i + 1] - x[i - 1]);
      else { double q = (pow(x[i + 2] - x[i], 3) + pow(x[i] - x[i - 2], 3)) / (pow(x[i + 1] - x[i], 3) + pow(x[i] - x[i - 1], 3)); double den = q * (x[i + 1] - x[i - 1]) - (x[i + 2] - x[i - 2]); if (fabs(den) < 1e-6 * (x[i+2]-x[i-2])) continue; r = (q * (c[i + 1] - c[i - 1]) - c[i + 2] + c[i - 2]) / den; if (fabs(r) > 1e5) continue; }
      double gotv = generic_function_1d_eval(d, x[i]); CHECK(fabs(gotv - r) <= 1e-6 * (1 + fabs(r)), "derivative at node %zu: got %.15g expected %.15g", i, gotv, r);
    }
    generic_function_free(d);
    double t; for (int k = 0; k < 6; k++){ t = somept(n, x); double r = 0; size_t at = n; for (size_t i = 0; i < n; i++) if (t == x[i]) at = i;
      if (t >= x[0] && t <= x[n - 1]){
        if (at < n) r = at == 0 ? (c[1] - c[0]) / (x[1] - x[0]) : at == n - 1 ? (c[at] - c[at - 1]) / (x[at] - x[at - 1]) : (c[at + 1] - c[at - 1]) / (x[at + 1] - x[at - 1]);
        else { size_t i = 0; while (i + 2 < n && t >= x[i + 1]) i++; r = (c[i + 1] - c[i]) / (x[i + 1] - x[i]); } }
      NEAR(generic_function_deriv_eval(e.g, t), r, "derivative at a point"); }
    /* derivative and second derivative of a linear function */
    double a = rs(), b = rs(); struct LinElemExpAopts * o = lin_elem_exp_aopts_alloc(n, x); struct GenericFunction * l = generic_function_linear(a, b, LINELM, o); d = generic_function_deriv(l); struct GenericFunction * dd = generic_function_dderiv(l);
    for (size_t i = 0; i < n; i++){ double q = 1; if (n > 5 && i >= 2 && i + 3 <= n){ double rr = (pow(x[i + 2] - x[i], 3) + pow(x[i] - x[i - 2], 3)) / (pow(x[i + 1] - x[i], 3) + pow(x[i] - x[i - 1], 3)); q = (rr * (x[i + 1] - x[i - 1]) - (x[i + 2] - x[i - 2])) / (x[i + 2] - x[i - 2]); } if (fabs(q) < 1e-4) break; double v = generic_function_1d_eval(d, x[i]); CHECK(fabs(v - a) < 1e-6 * (n > 100 ? 100 : 1), "derivative of a linear function: %.15g not %.15g", v, a); }
    generic_function_free(l); generic_function_free(d); generic_function_free(dd); lin_elem_exp_aopts_free(o);
  } else {
    struct GenericFunction * d = generic_function_deriv(e.g);
    for (size_t i = 0; i < n; i++){ double r = i + 1 < n ? (c[i + 1] - c[i]) / (x[i + 1] - x[i]) : (c[i] - c[i - 1]) / (x[i] - x[i - 1]); NEAR(generic_function_1d_eval(d, x[i]), r, "difference quotient"); }
    NEAR(generic_function_deriv_eval(e.g, somept(n, x)), 0.0, "derivative of a step function"); generic_function_free(d);
  }
  unchanged(e, "operand"); done(e); free(x);
}
TEST("C08", e_periodic){
  size_t n = ri(3, 12); hcls = LINELM; double h = 0.125, l = (double)ri(0, 8) / 8 - 0.5; double * x = malloc(n * 8), * c = malloc(n * 8); int k = (int)ri(0, (n - 1) / 2); double ph = ru(); h_note("n=%zu freq=%d", n, k);
  double om = 2 * M_PI * k / (n * h); for (size_t i = 0; i < n; i++){ x[i] = l + h * (double)i; c[i] = sin(om * (x[i] - l) + ph); }
  struct GenericFunction * g = generic_function_alloc(1, LINELM); g->fargs = NULL; g->f = lin_elem_exp_init(n, x, c); struct GenericFunction * gg = generic_function_copy(g);
  for (int r = 0; r < 2; r++){ struct GenericFunction * d = generic_function_dderiv_periodic(r ? gg : g); for (size_t i = 0; i < n; i++){ double v = generic_function_1d_eval(d, x[i]), w = -om * om * c[i]; CHECK(fabs(v - w) < 1e-7 * (1 + om * om), "periodic second derivative at node %zu: %.15g expected %.15g", i, v, w); } generic_function_free(d);
    if (!r){ generic_function_free(gg); gg = generic_function_copy(g); generic_function_free(g); g = NULL; } }
  generic_function_free(gg); free(x); free(c);
}
TEST("C08", e_construct){
  start(); size_t n = nn(); double * x = nodes_(n); double a = rs(), b = rs(), t; h_note("n=%zu", n);
  void * o; BOTH(o = lin_elem_exp_aopts_alloc(n, x), o = const_elem_exp_aopts_alloc(n, x));
  BOTH(SAME(lin_elem_exp_aopts_get_lb(o), x[0], "options: lower bound"); SAME(lin_elem_exp_aopts_get_ub(o), x[n - 1], "options: upper bound"); EQZ(lin_elem_exp_aopts_get_num_nodes(o), n, "options: nodes"),
       SAME(const_elem_exp_aopts_get_lb(o), x[0], "options: lower bound"); SAME(const_elem_exp_aopts_get_ub(o), x[n - 1], "options: upper bound"); EQZ(const_elem_exp_aopts_get_num_nodes(o), n, "options: nodes"));
  struct GenericFunction * g = generic_function_constant(a, hcls, o); for (int k = 0; k < 4; k++){ t = x[0] + (x[n - 1] - x[0]) * ru(); NEAR(generic_function_1d_eval(g, t), a, "constant"); } EQZ(g->dim, 1, "dimension"); EQZ(generic_function_get_num_params(g), n, "constant: parameters"); generic_function_free(g);
  for (int fp = 0; fp < 2; fp++){ g = generic_function_zero(hcls, o, fp); for (int k = 0; k < 4; k++){ t = x[0] + (x[n - 1] - x[0]) * ru(); SAME(generic_function_1d_eval(g, t) + 0.0, 0.0, "zero"); } EQZ(generic_function_get_num_params(g), n, "zero: parameters"); generic_function_free(g); }
  if (hcls == LINELM){ g = generic_function_linear(a, b, hcls, o); for (int k = 0; k < 4; k++){ t = x[0] + (x[n - 1] - x[0]) * ru(); NEAR(generic_function_1d_eval(g, t), a * t + b, "linear"); } generic_function_free(g); }
  /* orthonormal basis */
  size_t m = ri(1, n > 12 ? 12 : n); struct GenericFunction ** f = malloc(m * sizeof(*f)); for (size_t i = 0; i < m; i++){ f[i] = generic_function_alloc(1, hcls); f[i]->f = NULL; f[i]->fargs = NULL; } generic_function_array_orth(m, f, hcls, o);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++){ double v = generic_function_inner(f[i], f[j]); CHECK(fabs(v - (i == j)) < 1e-8, "orthonormal basis: <%zu,%zu> = %.15g", i, j, v); }
  for (size_t i = 0; i < m; i++) generic_function_free(f[i]); free(f);
  /* zeros at given nodes */
  size_t nz = ri(0, n > 6 ? 5 : n - 1); size_t id[8]; double zl[8]; for (size_t i = 0; i < nz; i++){ int ok; do { id[i] = ri(0, n - 1); ok = 1; for (size_t j = 0; j < i; j++) if (id[j] == id[i]) ok = 0; } while (!ok); zl[i] = x[id[i]]; }
  BOTH(struct LinElemExp * l = lin_elem_exp_onezero(nz, zl, o); for (size_t i = 0; i < n; i++){ int z = 0; for (size_t j = 0; j < nz; j++) if (id[j] == i) z = 1; SAME(lin_elem_exp_eval(l, x[i]), z ? 0.0 : 1.0, "zero-one function"); } lin_elem_exp_free(l),
       struct ConstElemExp * l = const_elem_exp_onezero(nz, zl, o); for (size_t i = 0; i < n; i++){ int z = 0; for (size_t j = 0; j < nz; j++) if (id[j] == i) z = 1; SAME(const_elem_exp_eval(l, x[i]), z ? 0.0 : 1.0, "zero-one function"); } const_elem_exp_free(l));
  BOTH(lin_elem_exp_aopts_free(o), const_elem_exp_aopts_free(o));
  /* adaptive options */
  lo = x[0]; hi = x[n - 1]; BOTH(o = lin_elem_exp_aopts_alloc_adapt(0, NULL, lo, hi, 1e-1, 1e-2), o = const_elem_exp_aopts_alloc_adapt(0, NULL, lo, hi, 1e-1, 1e-2));
  BOTH(SAME(lin_elem_exp_aopts_get_lb(o), lo, "adaptive: lower bound"); SAME(lin_elem_exp_aopts_get_ub(o), hi, "adaptive: upper bound"), SAME(const_elem_exp_aopts_get_lb(o), lo, "adaptive: lower bound"); SAME(const_elem_exp_aopts_get_ub(o), hi, "adaptive: upper bound"));
  g = generic_function_constant(a, hcls, o); for (int k = 0; k < 4; k++){ t = lo + (hi - lo) * ru(); NEAR(generic_function_1d_eval(g, t), a, "constant, adaptive"); } SAME(generic_function_get_lb(g), lo, "lower bound"); SAME(generic_function_get_ub(g), hi, "upper bound"); generic_function_free(g);
  for (int fp = 0; fp < 2; fp++){ g = generic_function_zero(hcls, o, 0); for (int k = 0; k < 4; k++){ t = lo + (hi - lo) * ru(); SAME(generic_function_1d_eval(g, t) + 0.0, 0.0, "zero, adaptive"); } SAME(generic_function_get_lb(g), lo, "lower bound"); SAME(generic_function_get_ub(g), hi, "upper bound"); generic_function_free(g); }
  if (hcls == LINELM){ g = generic_function_linear(a, b, hcls, o); for (int k = 0; k < 4; k++){ t = lo + (hi - lo) * ru(); NEAR(generic_function_1d_eval(g, t), a * t + b, "linear, adaptive"); } EQZ(g->dim, 1, "dimension"); EQZ(generic_function_get_num_params(g), 2, "linear, adaptive: nodes"); generic_function_free(g); }
  m = ri(2, 9); f = malloc(m * sizeof(*f)); for (size_t i = 0; i < m; i++){ f[i] = generic_function_alloc(1, hcls); f[i]->f = NULL; f[i]->fargs = NULL; } generic_function_array_orth(m, f, hcls, o);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++){ double v = generic_function_inner(f[i], f[j]); CHECK(fabs(v - (i == j)) < 1e-8, "orthonormal basis, adaptive: <%zu,%zu> = %.15g", i, j, v); }
  for (size_t i = 0; i < m; i++) generic_function_free(f[i]); free(f);
  nz = ri(0, 5); for (size_t i = 0; i < nz; i++) zl[i] = lo + (hi - lo) * (0.05 + 0.15 * (double)i + 0.1 * ru()); if (nz && (r64() & 1)) zl[0] = lo; if (nz > 1 && (r64() & 1)) zl[nz - 1] = hi;
  for (size_t i = nz; i > 1; i--){ size_t j = ri(0, i - 1); double q = zl[j]; zl[j] = zl[i - 1]; zl[i - 1] = q; }
  h_note(" adaptive zeros:"); for (size_t i = 0; i < nz; i++) h_note(" %g", zl[i]); h_note(" in [%g,%g]", lo, hi);
  double sup = 0; BOTH(struct LinElemExp * l = lin_elem_exp_onezero(nz, zl, o); for (size_t i = 0; i < l->num_nodes; i++){ CHECK(i == 0 || l->nodes[i] > l->nodes[i - 1], "zero-one function: nodes not increasing"); sup = fmax(sup, fabs(l->coeff[i])); } SAME(l->nodes[0], lo, "zero-one: first node"); SAME(l->nodes[l->num_nodes - 1], hi, "zero-one: last node"); for (size_t j = 0; j < nz; j++) SAME(lin_elem_exp_eval(l, zl[j]), 0.0, "zero-one, adaptive"); lin_elem_exp_free(l),
       struct ConstElemExp * l = const_elem_exp_onezero(nz, zl, o); for (size_t i = 0; i < l->num_nodes; i++){ CHECK(i == 0 || l->nodes[i] > l->nodes[i - 1], "zero-one function: nodes not increasing"); sup = fmax(sup, fabs(l->coeff[i])); } SAME(l->nodes[0], lo, "zero-one: first node"); SAME(l->nodes[l->num_nodes - 1], hi, "zero-one: last node"); for (size_t j = 0; j < nz; j++) SAME(const_elem_exp_eval(l, zl[j]), 0.0, "zero-one, adaptive"); const_elem_exp_free(l));
  SAME(sup, 1.0, "zero-one function: largest value");
  BOTH(lin_elem_exp_aopts_free(o), const_elem_exp_aopts_free(o)); free(x);
}
static double fa_, fb_, fc_; static int ff(size_t n, const double * x, double * y, void * a){ (void)a; for (size_t i = 0; i < n; i++) y[i] = fa_ * sin(3 * x[i]) + fb_ * x[i] * x[i] + fc_ + 2.0; return 0; }
TEST("C08", e_approx){
  start(); size_t n = nn(); double * x = nodes_(n); h_note("n=%zu", n); fa_ = rs(); fb_ = rs(); fc_ = rs(); struct Fwrap * fw = fwrap_create(1, "general-vec"); fwrap_set_fvec(fw, ff, NULL); double y;
  void * o; BOTH(o = lin_elem_exp_aopts_alloc(n, x), o = const_elem_exp_aopts_alloc(n, x));
  struct GenericFunction * g = generic_function_approximate1d(hcls, o, fw); for (size_t i = 0; i < n; i++){ ff(1, x + i, &y, NULL); SAME(generic_function_1d_eval(g, x[i]), y, "interpolation at a node"); } EQZ(generic_function_get_num_params(g), n, "parameters"); generic_function_free(g);
  BOTH(lin_elem_exp_aopts_free(o), const_elem_exp_aopts_free(o));
  if (hcls == LINELM && n < 20){
    int wn = (int)(r64() & 1); double delta = 1e-2 * ru(), hmin = 1e-2 + 0.2 * ru(); o = lin_elem_exp_aopts_alloc_adapt(wn ? n : 0, wn ? x : NULL, x[0], x[n - 1], delta, hmin); h_note(" adaptive given-nodes=%d delta=%g hmin=%g", wn, delta, hmin);
    struct LinElemExp * l = lin_elem_exp_approx(o, fw); SAME(l->nodes[0], x[0], "first node"); SAME(l->nodes[l->num_nodes - 1], x[n - 1], "last node");
    for (size_t i = 0; i < l->num_nodes; i++){ CHECK(i == 0 || l->nodes[i] > l->nodes[i - 1], "nodes increase"); ff(1, l->nodes + i, &y, NULL); SAME(l->coeff[i], y, "value at an adaptive node"); }
    if (wn) for (size_t i = 0; i < n; i++){ int f = 0; for (size_t j = 0; j < l->num_nodes; j++) if (l->nodes[j] == x[i]) f = 1; CHECK(f, "given node %zu missing", i); }
    lin_elem_exp_free(l); lin_elem_exp_aopts_free(o);
  }
  fwrap_destroy(fw); free(x);
}
TEST("C08", e_arrays){
  start(); size_t n = nn() % 20 + 2; double * x = nodes_(n); size_t N = ri(1, 6), ld = ri(1, 3); struct EF e[6]; struct GenericFunction * a[20] = {0}; double t, s; h_note("n=%zu N=%zu ld=%zu", n, N, ld);
  for (size_t i = 0; i < N; i++){ e[i] = mk(n, x); a[i * ld] = e[i].g; }
  do t = x[0] + (x[n - 1] - x[0]) * ru(); while (tie(n, x, t));
  double am = -1; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < n; j++) am = fmax(am, fabs(e[i].c[j])); size_t row; double xx; SAME(generic_function_array_absmax(N, ld, a, &row, &xx, NULL), am, "largest absolute value of an array"); CHECK(row < N, "row"); SAME(fabs(generic_function_1d_eval(a[row * ld], xx)), am, "value at the location");
  s = 0; for (size_t i = 0; i < N; i++) s += generic_function_inner(e[i].g, e[i].g); NEAR(generic_function_array_norm(N, ld, a), sqrt(s), "norm of an array");
  double * v = generic_function_integral_array(N, ld, a); for (size_t i = 0; i < N; i++) NEAR(v[i], generic_function_integrate(e[i].g), "integrals of an array"); free(v);
  generic_function_array_flip_sign(N, ld, a); for (size_t i = 0; i < N; i++) NEAR(generic_function_1d_eval(e[i].g, t), -ref(e[i], t), "sign flip of an array"); generic_function_array_flip_sign(N, ld, a);
  struct GenericFunction * c[6]; for (size_t i = 0; i < N; i++) c[i] = e[i].g;
  v = generic_function_1darray_eval(N, c, t); for (size_t i = 0; i < N; i++) NEAR(v[i], ref(e[i], t), "array evaluation"); free(v);
  double o[8]; generic_function_1darray_eval2(N, c, t, o); for (size_t i = 0; i < N; i++) NEAR(o[i], ref(e[i], t), "array evaluation 2"); size_t id = ri(0, n - 1); generic_function_1darray_eval2_ind(N, c, id, o); for (size_t i = 0; i < N; i++) SAME(o[i], e[i].c[id], "array evaluation at a node");
  size_t M = ri(1, 4), ix = ri(1, 3), iy = N + ri(0, 2); double p[16], y[64]; for (size_t i = 0; i < M; i++) do p[i * ix] = x[0] + (x[n - 1] - x[0]) * ru(); while (tie(n, x, p[i * ix])); generic_function_1darray_eval2N(N, c, M, p, ix, y, iy); for (size_t j = 0; j < M; j++) for (size_t i = 0; i < N; i++) NEAR(y[j * iy + i], ref(e[i], p[j * ix]), "array evaluation at many points");
  struct EF h[6]; struct GenericFunction * b[20] = {0}, * z[20] = {0}; size_t ldb = ri(1, 3), ldz = ri(1, 3); double al = rs(), be = rs(); for (size_t i = 0; i < N; i++){ h[i] = mk(n, x); b[i * ldb] = h[i].g; }
  struct GenericFunction ** w = generic_function_array_daxpby(N, al, ld, a, be, ldb, b); for (size_t i = 0; i < N; i++) NEAR(generic_function_1d_eval(w[i], t), al * ref(e[i], t) + be * ref(h[i], t), "array linear combination"); generic_function_array_free(w, N);
  generic_function_array_daxpby2(N, al, ld, a, be, ldb, b, ldz, z); for (size_t i = 0; i < N; i++){ NEAR(generic_function_1d_eval(z[i * ldz], t), al * ref(e[i], t) + be * ref(h[i], t), "array linear combination 2"); generic_function_free(z[i * ldz]); }
  s = 0; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < n; j++) s += wq(n, x, j) * (e[i].c[j] - h[i].c[j]) * (e[i].c[j] - h[i].c[j]); NEAR(generic_function_array_norm2diff(N, a, ld, b, ldb), sqrt(s), "norm of an array difference");
  struct GenericFunction * d[6]; for (size_t i = 0; i < N; i++) d[i] = h[i].g; EQZ((size_t)generic_function_array_axpy(N, al, c, d), 0, "array axpy result"); for (size_t i = 0; i < N; i++) NEAR(generic_function_1d_eval(d[i], t), al * ref(e[i], t) + ref(h[i], t), "array axpy");
  generic_function_array_scale(be, d, N); for (size_t i = 0; i < N; i++) NEAR(generic_function_1d_eval(d[i], t), be * (al * ref(e[i], t) + ref(h[i], t)), "array scale");
  for (size_t i = 0; i < N; i++){ unchanged(e[i], "operand"); done(e[i]); done(h[i]); } free(x);
}
