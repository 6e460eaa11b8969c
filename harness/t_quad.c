/* quadrature rules and discrete Fourier transforms (C16) */
#include "h.h"
#include <complex.h>
#include "quadrature.h"
#define complex_t double _Complex
int fft_slow(size_t, const complex_t *, size_t, complex_t *, size_t); int ifft_slow(size_t, const complex_t *, size_t, complex_t *, size_t); int fft(size_t, const complex_t *, size_t, complex_t *, size_t); int ifft(size_t, complex_t *, size_t, complex_t *, size_t);
#define TOL(a, b, t, what) do { double a_ = (a), b_ = (b); CHECK(fabs(a_ - b_) <= (t), "%s: got %.17g expected %.17g", what, a_, b_); } while (0)
/* random polynomial of degree at most deg in a basis of Chebyshev polynomials: bounded on [-1,1] */
static double cheb(size_t n, const double * c, double x){ double a = 0, b = 0; for (size_t k = n; k-- > 1;){ double t = c[k] + 2 * x * a - b; b = a; a = t; } return c[0] + x * a - b; }
static double chebint(size_t n, const double * c){ double s = 0; for (size_t k = 0; k < n; k += 2) s += c[k] * 2.0 / (1.0 - (double)k * (double)k); return s; }
static size_t rc(double * c, size_t max){ size_t n = ri(1, max); for (size_t i = 0; i < n; i++) c[i] = 2 * ru() - 1; return n; }
TEST("C16", q_uniform){
  size_t N = ri(2, 60); double h = ru() * pow(10, (double)ri(0, 5) - 3.0) + 1e-6, * w = trap_w(N, h), a = 4 * ru() - 2, s; h_note("N=%zu h=%g ", N, h); for (size_t i = 0; i < N; i++) TOL(w[i], (i == 0 || i == N - 1) ? h / 2 : h, 1e-14 * h, "trapezoidal weight");
  s = 0; for (size_t i = 0; i < N; i++) s += w[i] * (1 + 2 * (a + h * (double)i)); double b = a + h * (double)(N - 1); TOL(s, b - a + b * b - a * a, 1e-10 * (1 + (b - a) * (1 + fabs(a) + fabs(b))), "trapezoidal rule on a linear function"); free(w);
  if (N >= 3){ w = simpson_w(N, h); double L = h * (double)(N - 1); size_t deg = N % 2 ? 3 : 1; double c[4] = {0}; for (size_t k = 0; k <= deg; k++) c[k] = 2 * ru() - 1; s = 0; for (size_t i = 0; i < N; i++){ double t = (double)i / (double)(N - 1); s += w[i] * (c[0] + t * (c[1] + t * (c[2] + t * c[3]))); } TOL(s / L, c[0] + c[1] / 2 + c[2] / 3 + c[3] / 4, 1e-11, "Simpson's rule on a polynomial");
    for (size_t i = 0; i + 1 < N; i++) CHECK(w[i] > 0, "weight %zu of Simpson's rule is %g", i, w[i]); if (N % 2 == 0){ TOL(w[N - 1], h / 2, 1e-14 * h, "last weight, even number of points"); double q = 0; for (size_t i = 0; i + 1 < N; i++){ double t = (double)i / (double)(N - 2); q += (i == N - 2 ? w[i] - h / 2 : w[i]) * t * t * t; } TOL(q / (h * (double)(N - 2)), 0.25, 1e-11, "Simpson's rule on the leading points"); } free(w); }
}
TEST("C16", q_nodes){
  double c[512]; size_t N = ri(1, 40), n; double * p = malloc(N * 8), * w = malloc(N * 8), s; h_note("N=%zu ", N);
  clenshaw_curtis(N, p, w); n = rc(c, N); s = 0; for (size_t i = 0; i < N; i++){ CHECK(fabs(p[i]) <= 1 && (!i || p[i] > p[i - 1]), "node %zu: %.17g", i, p[i]); s += w[i] * cheb(n, c, p[i]); } TOL(s, chebint(n, c), 1e-11 * (1 + (double)n), "Clenshaw-Curtis on a polynomial of degree below N");
  double a = 4 * ru() - 2, b = a + ru() + 0.01, * p0 = malloc(N * 8), * w0 = malloc(N * 8); memcpy(p0, p, N * 8); memcpy(w0, w, N * 8); rescale_cc(N, p, w, a, b); for (size_t i = 0; i < N; i++){ TOL(p[i], a + (b - a) * (p0[i] + 1) / 2, 1e-13, "rescaled node"); TOL(w[i], w0[i] * (b - a) / 2, 1e-13, "rescaled weight"); } free(p0); free(w0);
  cheb_gauss(N, p, w); n = rc(c, 2 * N); s = 0; for (size_t i = 0; i < N; i++) s += w[i] * cheb(n, c, p[i]); TOL(s, c[0] * M_PI, 1e-11 * (1 + (double)n), "Chebyshev-Gauss on a polynomial of degree below 2N");
  gauss_hermite(N, p, w); size_t k = ri(0, 2 * N - 1 < 30 ? 2 * N - 1 : 30); double m = 1; for (size_t j = 1; j < k; j += 2) m *= (double)j; if (k % 2) m = 0; s = 0; double ab = 0; for (size_t i = 0; i < N; i++){ s += w[i] * pow(p[i], (double)k); ab += w[i] * fabs(pow(p[i], (double)k)); } TOL(s, m, 1e-8 * (1 + ab), "Gauss-Hermite moment"); free(p); free(w);
}
TEST("C16", q_legendre){
  static size_t it = 0; double c[640]; size_t N = ri(0, 9) ? ri(1, 199) : ri(200, 215); it++; h_note("N=%zu ", N); double * p = malloc(N * 8), * w = malloc(N * 8), s = 0, t = 0; gauss_legendre(N, p, w); size_t n = ri(0, 1) ? 2 * N : ri(1, 2 * N); for (size_t i = 0; i < n; i++) c[i] = 2 * ru() - 1;
  for (size_t i = 0; i < N; i++){ CHECK(fabs(p[i]) < 1 && w[i] > 0, "node %zu: %.17g weight %.17g", i, p[i], w[i]); s += w[i] * cheb(n, c, p[i]); t += w[i]; } TOL(t, 1.0, 1e-11, "sum of the weights"); TOL(s, chebint(n, c) / 2, 1e-9 * (1 + sqrt((double)n)), "Gauss-Legendre on a polynomial of degree below 2N");
  double * p2 = NULL, * w2 = NULL; int r = getLegPtsWts2(N, &p2, &w2); CHECK((r == 0) == (N <= 199), "table of %zu nodes: result %d", N, r); if (!r){ s = t = 0; for (size_t i = 0; i < N; i++){ CHECK(fabs(p2[i]) < 1 && w2[i] > 0, "table: node %zu: %.17g weight %.17g", i, p2[i], w2[i]); s += w2[i] * cheb(n, c, p2[i]); t += w2[i]; } TOL(t, 1.0, 1e-11, "sum of the weights of the table"); TOL(s, chebint(n, c) / 2, 1e-9 * (1 + sqrt((double)n)), "table of Gauss-Legendre on a polynomial of degree below 2N"); } free(p); free(w);
}
TEST("C16", q_fft){
  size_t N = (size_t)1 << ri(0, 7); complex_t * x = malloc(N * 16), * y = malloc(N * 16), * z = malloc(N * 16), * x0 = malloc(N * 16); for (size_t i = 0; i < N; i++) x[i] = x0[i] = (2 * ru() - 1) + (ri(0, 2) ? (2 * ru() - 1) : 0) * (complex_t)_Complex_I; h_note("N=%zu ", N); double tol = 1e-12 * (double)(N + 1);
  int r = fft(N, x, 1, y, 1); CHECK(r == 0, "fft reports %d", r); for (size_t k = 0; k < N; k++){ complex_t s = 0; for (size_t j = 0; j < N; j++) s += x0[j] * cexp(-2 * M_PI * _Complex_I * (double)((j * k) % N) / (double)N); CHECK(cabs(s - y[k]) <= tol, "transform, entry %zu: got %.17g%+.17gi expected %.17g%+.17gi", k, creal(y[k]), cimag(y[k]), creal(s), cimag(s)); } CHECK(!memcmp(x, x0, N * 16), "input of fft changed");
  complex_t * y0 = malloc(N * 16); memcpy(y0, y, N * 16); r = ifft(N, y, 1, z, 1); CHECK(r == 0, "ifft reports %d", r); for (size_t k = 0; k < N; k++){ CHECK(cabs(z[k] - x0[k]) <= tol, "inverse of the transform, entry %zu", k); CHECK(cabs(y[k] - y0[k]) <= 0, "input of ifft changed"); }
  size_t M = ri(1, 20), sx = ri(1, 3), sX = ri(1, 3); complex_t * u = malloc(M * sx * 16), * v = malloc(M * sX * 16), * q = malloc(M * sX * 16), * e = malloc(M * sx * 16); for (size_t i = 0; i < M * sx; i++) u[i] = e[i] = ru() + ru() * (complex_t)_Complex_I; for (size_t i = 0; i < M * sX; i++) v[i] = q[i] = 7.0; h_note("slow N=%zu strides %zu %zu ", M, sx, sX);
  for (int inv = 0; inv < 2; inv++){ (inv ? ifft_slow : fft_slow)(M, u, sx, v, sX); for (size_t k = 0; k < M * sX; k++) if (k % sX) CHECK(v[k] == 7.0, "cell between the outputs changed"); else { complex_t s = 0; for (size_t j = 0; j < M; j++) s += u[j * sx] * cexp((inv ? 2 : -2) * M_PI * _Complex_I * (double)((j * (k / sX)) % M) / (double)M); if (inv) s /= (double)M; CHECK(cabs(s - v[k]) <= 1e-11 * (double)(M + 1), "direct transform, entry %zu", k / sX); } } CHECK(!memcmp(u, e, M * sx * 16), "input changed");
  free(x); free(y); free(z); free(x0); free(y0); free(u); free(v); free(q); free(e);
}
