/* P28: minimisation and interpolation helpers. */
#include "vh.h"
#include "brentmin.h"
double cubic_spline_interpolate_within_table(const double *table, const int n_entries, double x, int *err_code);
double lagrange_interpolate_within_table(const double *table, const int n_entries, double x, const int n_pts, double *deriv);
using namespace vh;
typedef long double LD;
static const char *fname[] = {"x^2", "|x|", "x^4", "gauss", "cubic bump", "sqrt|x|", "cosine+parabola", "lopsided V", "flat bottom", "x^6+slope", "noisy parabola", "log-cosh", "morse", "x^2 far from origin", "tiny values", "plateau steps"};
static void brent_case() {
   int type = (int)rng.below(16); double p = rng.uni(-5, 5), q = rng.uni(0, 3), r = rng.uni(), s = rng.logu(1e-6, 1e6);
   if (type == 13) p = rng.uni(-1e6, 1e6);
   auto f = [&](double x) -> double { double d = x - p; switch (type) {
      case 0: case 13: return d * d; case 1: return fabs(d); case 2: return d * d * d * d; case 3: return -exp(-d * d); case 4: return d * d + q * d * d * d * .1 * (fabs(d) < 2);
      case 5: return sqrt(fabs(d)); case 6: return cos(x * q * 3) + r * x * x; case 7: return d < 0 ? -d * 10 : d * .01; case 8: return fabs(d) < r ? 0. : fabs(d) - r;
      case 9: return pow(d, 6) + 1e-3 * d; case 10: return d * d + 1e-9 * sin(1e5 * d); case 11: return log(cosh(d)) + .1 * d; case 12: { double e = 1 - exp(-d); return e * e; }
      case 14: return 1e-12 * d * d * s; default: return floor(fabs(d) * 4) * s; } };
   double x1 = p - rng.uni(.01, 3), x3 = p + rng.uni(.01, 3), x2 = x1 + (x3 - x1) * rng.uni(.001, .999);
   double y1 = f(x1), y2 = f(x2), y3 = f(x3);
   if (!(y2 < y1 && y2 < y3)) return;
   int tm = (int)rng.below(4); double tol = tm == 0 ? 0 : tm == 1 ? 1e-8 * (1 + fabs(p)) : tm == 2 ? 1e-3 : 1e-5 * (1 + fabs(p)), ytol = rng.chance(.2) ? 1e-10 : 0;
   double xs[3] = {x1, x2, x3}, ys[3] = {y1, y2, y3}; int a = (int)rng.below(3), b2 = (a + 1 + (int)rng.below(2)) % 3, c = 3 - a - b2;
   cur("minimise %s p=%.17g q=%.17g r=%.17g s=%.17g from %.17g %.17g %.17g tol %g ytol %g", fname[type], p, q, r, s, xs[a], xs[b2], xs[c], tol, ytol);
   brent_min_t b; memset(&b, 0xAA, sizeof b);
   brent_min_init(&b, xs[a], ys[a], xs[b2], ys[b2], xs[c], ys[c]);
   if (b.x[0] != x2 || b.y[0] != y2 || b.xmin != x1 || b.xmax != x3) { bad("init", "starting bracket %g %g best %g", b.xmin, b.xmax, b.x[0]); return; }
   b.tolerance = tol; b.ytolerance = ytol;
   int it = 0, done = 0; double lo = x1, hi = x3, best = y2; double bx = x2;
   double stop = 1e-7 * (1 + fabs(p));
   while (!done) {
      double x = brent_min_next(&b);
      if (!b.step_type) { if (x != b.x[0]) bad("done-point", "finished at %g, best %g", x, b.x[0]); break; }
      if (!(x > lo && x < hi)) { bad("outside-bracket", "step %d asks for %.17g outside (%.17g, %.17g)", it, x, lo, hi); return; }
      if (x == bx) { bad("repeat", "step %d asks for the best point again", it); return; }
      double y = f(x); done = brent_min_add(&b, y); it++; progress++;
      if (y <= best) { best = y; bx = x; }
      if (b.y[0] != best || b.x[0] != bx) { bad("best", "best point %.17g (%g), seen %.17g (%g)", b.x[0], b.y[0], bx, best); return; }
      if (b.xmin < lo || b.xmax > hi) { bad("bracket-grew", "(%.17g %.17g) after (%.17g %.17g)", b.xmin, b.xmax, lo, hi); return; }
      if (b.xmin == lo && b.xmax == hi) { bad("bracket-stuck", "bracket did not shrink at step %d", it); return; }
      lo = b.xmin; hi = b.xmax;
      if (!(b.x[0] > lo && b.x[0] < hi)) { bad("best-outside", "best point outside the bracket"); return; }
      if (it > 1000) { bad("no-convergence", "bracket still %g wide after %d steps", hi - lo, it); return; }
      if (tol == 0 && hi - lo < stop) break;
   }
   bool byY = it > 3 && b.y[3] - b.y[0] <= ytol;
   if (tol > 0 && !byY && (hi - bx >= tol || bx - lo >= tol) && hi - lo > 1e-13 * (1 + fabs(p))) bad("early-stop", "stopped with bracket %g for tolerance %g", hi - lo, tol);
   /* unimodal functions: the true minimiser is found to the bracket width */
   if (!byY && (type <= 3 || type == 5 || type == 7 || type == 13) && !(p >= lo - 1e-7 * (1 + fabs(p)) && p <= hi + 1e-7 * (1 + fabs(p)))) bad("missed", "final bracket (%.17g, %.17g) excludes the minimum %.17g", lo, hi, p);
   count(fname[type]); count("minimisation steps", it); seen(mix(mix(hdbl(p), hdbl(x2)), type)); if (evals % 3001 == 1) sample("%s: %d steps to %.12g", fname[type], it, bx);
}
static void parabola_case() {
   double A = rng.uni(-5, 5), B = rng.uni(-5, 5), C = rng.uni(-5, 5), x[3], y[3]; x[0] = rng.uni(-3, 3); x[1] = x[0] + rng.uni(.1, 2); x[2] = rng.chance(.5) ? x[0] - rng.uni(.1, 2) : x[1] + rng.uni(.1, 2);
   int k = (int)rng.below(3); std::swap(x[0], x[k]);
   for (int i = 0; i < 3; i++) y[i] = C + x[i] * (B + x[i] * A);
   cur("parabola %.17g %.17g %.17g at %.17g %.17g %.17g", A, B, C, x[0], x[1], x[2]); double b = 0, c = 0, a = fit_parabola(x, y, &b, &c), a2 = fit_parabola(x, y, NULL, NULL);
   if (fabs(a - A) > 1e-10 || fabs(b - B) > 1e-9 || fabs(c - C) > 1e-9 || a != a2) bad("parabola", "%g %g %g", a, b, c);
   count("parabolas"); seen(hdbl(A));
}
static void interp_case() {
   int n = (int)rng.range(4, 24); std::vector<double> co; int kind = (int)rng.below(2);
   int npts = (int)rng.range(2, std::min(n, 12)), deg = kind ? npts - 1 : 2; if (rng.chance(.3)) deg = (int)rng.below(deg + 1);
   for (int i = 0; i <= deg; i++) co.push_back(rng.uni(-1, 1));
   double x0 = rng.uni(0, n - 1), sc = n * .5;
   auto P = [&](LD x) { LD t = (x - x0) / sc, v = 0; for (int i = deg; i >= 0; i--) v = v * t + co[i]; return v; };
   auto D = [&](LD x) { LD t = (x - x0) / sc, v = 0; for (int i = deg; i >= 1; i--) v = v * t + i * co[i]; return v / sc; };
   double *t = (double *)malloc(n * sizeof(double)); for (int i = 0; i < n; i++) t[i] = (double)P(i);
   bool onnode = rng.chance(.25), out = rng.chance(.15); double x = onnode ? (double)rng.below(n) : out ? (rng.chance(.5) ? -rng.uni(0, 2) : n - 1 + rng.uni(0, 2)) : rng.uni(0, n - 1);
   if (rng.chance(.05)) { x = nextafter((double)rng.range(1, n - 1), rng.chance(.5) ? -1e9 : 1e9); onnode = false; }
   if (kind) {
      cur("lagrange %d points degree %d table %d x %.17g", npts, deg, n, x);
      double d = 0, v = lagrange_interpolate_within_table(t, n, x, npts, &d), v2 = lagrange_interpolate_within_table(t, n, x, npts, NULL);
      double amp = out ? pow(30., 1 + npts * .4) : pow(4., npts * .6);
      if (v != v2) bad("lagrange-arg", "value depends on asking for the derivative");
      if (onnode && v != t[(int)x]) bad("lagrange-node", "%.17g at node, table holds %.17g", v, t[(int)x]);
      if (!(fabsl(v - P(x)) < 1e-12 * amp)) bad("lagrange-poly", "%.15g, polynomial is %.15Lg", v, P(x));
      double gap = fabs(x - rint(x)); bool isnode = gap == 0; double dtol = isnode ? 1e-8 * amp + 1e-6 : 1e-10 * amp / std::max(gap, 1e-12) * 1e-2 + 1e-9 * amp;
      if (gap == 0 || gap > 1e-6) if (!(fabsl(d - D(x)) < dtol)) bad("lagrange-deriv", "%.12g, polynomial slope %.12Lg (tolerance %g)", d, D(x), dtol);
      count("lagrange");
   } else {
      cur("cubic spline degree %d table %d x %.17g", deg, n, x); int e = 77; double v = cubic_spline_interpolate_within_table(t, n, x, &e), v2 = cubic_spline_interpolate_within_table(t, n, x, NULL);
      if (v != v2) bad("spline-arg", "value depends on asking for the error code");
      if (onnode && fabs(v - t[(int)x]) > 1e-14 * (1 + fabs(v)) * 4) bad("spline-node", "%.17g at node, table holds %.17g", v, t[(int)x]);
      if (!(fabsl(v - P(x)) < 1e-11)) bad("spline-poly", "%.15g, polynomial is %.15Lg", v, P(x));   /* exact through quadratics */
      int i = (int)floor(x), ee = i < 0 || i > n - 2 ? -2 : i < 1 || i > n - 3 ? -1 : 0; if (n - 3 < 1) ee = e;
      if (e != ee) bad("spline-code", "code %d at x=%g in a table of %d, expected %d", e, x, n, ee);
      count("spline");
      /* arbitrary data: continuous value and slope across interior nodes, exact at nodes */
      for (int k = 0; k < n; k++) t[k] = rng.uni(-1, 1);
      if (n > 5) { int k = (int)rng.range(2, n - 4); double h = 1e-6, l = cubic_spline_interpolate_within_table(t, n, k - h, NULL), m = cubic_spline_interpolate_within_table(t, n, k, NULL), u = cubic_spline_interpolate_within_table(t, n, k + h, NULL);
         cur("spline smoothness at node %d", k); double sl = (m - l) / h, su = (u - m) / h, want = (t[k + 1] - t[k - 1]) * .5; if (m != t[k] && fabs(m - t[k]) > 1e-15) bad("spline-node", "random table: %g / %g", m, t[k]); if (fabs(sl - want) > 1e-4 || fabs(su - want) > 1e-4) bad("spline-slope", "slopes %g %g at node, expected %g", sl, su, want); count("spline smoothness"); }
   }
   free(t); seen(mix(hdbl(x), hdbl(co[0])));
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (long k = 0, m = budget(300000, 8000000); k < m; k++) brent_case();
   for (long k = 0, m = budget(100000, 2000000); k < m; k++) parabola_case();
   for (long k = 0, m = budget(500000, 15000000); k < m; k++) interp_case();
   for (auto s : fname) need(s, 100);
   need("lagrange", 1000); need("spline", 1000); need("spline smoothness", 1000); need("parabolas", 100);
   return finish();
}
