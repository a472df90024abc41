/* P19: precession, nutation, obliquity, sidereal time and Earth orientation against the published
   expressions, rebuilt in long double from elementary rotations. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "nut_ref.h"
using namespace vh;
typedef long double LD;
extern "C" {
int setup_ecliptic_precession(double *m, const double a, const double b);
int setup_precession_with_nutation_eops(double *m, const double year);
int setup_equatorial_precession_from_j2000(double *m, const double year) __attribute__((weak));
}
static const LD PIL = 3.141592653589793238462643383279502884L, AS = PIL / 648000.L;
struct M { LD a[9]; };
static M mul(const M &x, const M &y) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.a[i * 3 + j] = 0; for (int k = 0; k < 3; k++) r.a[i * 3 + j] += x.a[i * 3 + k] * y.a[k * 3 + j]; } return r; }
static M tr(const M &x) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i * 3 + j] = x.a[j * 3 + i]; return r; }
/* frame rotations, counterclockwise by t about axis */
static M R1(LD t) { LD c = cosl(t), s = sinl(t); return M{{1, 0, 0, 0, c, s, 0, -s, c}}; }
static M R2(LD t) { LD c = cosl(t), s = sinl(t); return M{{c, 0, -s, 0, 1, 0, s, 0, c}}; }
static M R3(LD t) { LD c = cosl(t), s = sinl(t); return M{{c, s, 0, -s, c, 0, 0, 0, 1}}; }
static M cv(const double *m) { M r; for (int i = 0; i < 9; i++) r.a[i] = m[i]; return r; }
static LD diff(const M &x, const M &y) { LD d = 0; for (int i = 0; i < 9; i++) { LD q = fabsl(x.a[i] - y.a[i]); if (!(q <= d)) d = q; } return d; }
static LD orth(const M &x) {
   M p = mul(x, tr(x)); LD d = 0;
   for (int i = 0; i < 9; i++) d = fmaxl(d, fabsl(p.a[i] - (i % 4 == 0)));
   LD det = x.a[0] * (x.a[4] * x.a[8] - x.a[5] * x.a[7]) - x.a[1] * (x.a[3] * x.a[8] - x.a[5] * x.a[6]) + x.a[2] * (x.a[3] * x.a[7] - x.a[4] * x.a[6]);
   if (!(fabsl(det - 1) < 1e-12)) d = 9;
   for (int i = 0; i < 9; i++) if (x.a[i] != x.a[i]) d = 9;
   return d;
}
/* ------------------------------------------------------------------ references */
static LD obliq(LD T) {
   if (T > 100) T = 100;
   if (T < -100) T = -100;
   static const LD c[] = {-4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L};
   LD u = T / 100, s = 0;
   for (int i = 9; i >= 0; i--) s = (s + c[i]) * u;
   return (84381.448L + s) * AS;
}
static M ecl_from_2000(LD y) {
   LD t = (y - 2000) / 100;
   LD eta = (47.0029L - .03302L * t + .00006L * t * t) * t * AS;
   LD Pi = 174.876384L * PIL / 180 + (-869.8089L * t + .03536L * t * t) * AS;
   LD p = (5029.0966L + 1.11113L * t - .000006L * t * t) * t * AS;
   return mul(R3(-(Pi + p)), mul(R1(eta), R3(Pi)));
}
static M ecl(LD a, LD b) { return mul(ecl_from_2000(b), tr(ecl_from_2000(a))); }
static M eq_old(LD a, LD b) { return mul(R1(-obliq((b - 2000) / 100)), mul(ecl(a, b), R1(obliq((a - 2000) / 100)))); }
static M eq76(LD y) {
   LD t = (y - 2000) / 100;
   LD ze = (2306.2181L + .30188L * t + .017998L * t * t) * t * AS, z = (2306.2181L + 1.09468L * t + .018203L * t * t) * t * AS, th = (2004.3109L - .42665L * t - .041833L * t * t) * t * AS;
   return mul(R3(-z), mul(R2(th), R3(-ze)));
}
static const int NN = sizeof NUT_REF / sizeof NUT_REF[0];
/* rates: 1 published, 0 = as the source applies them (term number times three); cosines: 1 full, 0 truncated */
static void nut(LD T, int rates, int cosines, LD *dl, LD *de) {
   LD a[5] = {297.85036L + T * (445267.11148L + T * (-.0019142L + T / 189474)), 357.52772L + T * (35999.05034L + T * (-.0001603L - T / 300000)),
              134.96298L + T * (477198.867398L + T * (.0086972L + T / 56250)), 93.27191L + T * (483202.017538L + T * (-.0036825L + T / 327270)),
              125.04452L + T * (-1934.136261L + T * (.0020708L + T / 450000))};
   for (int i = 0; i < 5; i++) a[i] = fmodl(a[i], 360) * PIL / 180;
   LD s = (-171996 - 174.2L * T) * sinl(a[4]), c = (92025 + 8.9L * T) * cosl(a[4]);
   for (int i = 0; i < NN; i++) {
      const int *k = NUT_REF[i];
      LD g = 0; for (int j = 0; j < 5; j++) g += k[j] * a[j];
      int rs = k[6], rc = k[8];
      if (i == 26 || i == 28) rs = -rs;         /* published: 17 - .1T and -16 + .1T */
      if (!rates) { rs = i * 3 < 16 ? NUT_REF[i * 3][6] : 0; rc = i * 3 < 9 ? NUT_REF[i * 3][8] : 0; if (!k[7]) rc = 0; }
      s += (k[5] + rs * T / 10) * sinl(g);
      c += ((cosines ? k[9] : k[7]) + rc * T / 10) * cosl(g);
   }
   *dl = s / 10000; *de = c / 10000;
}
static double pick_year() {
   switch (rng.below(10)) {
      case 0: return 2000.;
      case 1: return 1950.;
      case 2: return rng.uni(-8000, 12000);
      case 3: return 2000. + rng.uni(-1, 1) * rng.logu(1e-6, 10);
      case 4: return (double)rng.range(1500, 2500);
      case 5: return rng.uni(-20000, 24000);
      case 6: return 1875.;
      default: return rng.uni(1600, 2400);
   }
}
static void check_pair(double a, double b, const char *how) {
   double e[9], q[9], bk[9];
   memset(e, 0xff, sizeof e); memset(q, 0xff, sizeof q);
   setup_ecliptic_precession(e, a, b);
   setup_precession(q, a, b);
   LD slack = fabs(a - b) < 1e-5 ? 5e-9L : 0;        /* documented: sensibly equal epochs are treated as equal */
   LD tol = 3e-15L + slack, ang = (fabsl(a - 2000) + fabsl(b - 2000)) / 100 * 5100 * AS;
   tol += ang * 4e-16L;
   LD o;
   if ((o = orth(cv(e))) > 6e-15L) bad("ecl-rotation", "%s: ecliptic precession %.9g -> %.9g not a rotation (%.3Lg)", how, a, b, o);
   if ((o = orth(cv(q))) > 9e-15L) bad("eq-rotation", "%s: precession %.9g -> %.9g not a rotation (%.3Lg)", how, a, b, o);
   LD d = diff(cv(e), ecl(a, b));
   if (!(d <= tol)) bad("ecl-value", "%s: ecliptic precession %.9g -> %.9g differs from the IAU1976 rotation by %.3Lg", how, a, b, d);
   d = diff(cv(q), eq_old(a, b));
   if (fabs(a - 2000) > 9999 || fabs(b - 2000) > 9999) tol += 2e-11L;   /* the clipped obliquity is given to nine decimals of a degree */
   if (!(d <= tol + 4e-15L)) bad("eq-value", "%s: precession %.9g -> %.9g differs from the IAU1976 rotation by %.3Lg", how, a, b, d);
   setup_precession(bk, b, a);
   d = diff(mul(cv(bk), cv(q)), M{{1, 0, 0, 0, 1, 0, 0, 0, 1}});
   if (!(d <= 2e-14L)) bad("inverse", "%s: precession %.9g -> %.9g and back leaves %.3Lg", how, a, b, d);
   if (fabs(a - b) < 1e-5) count("equal epochs");
   else if (a == 2000. || b == 2000.) count("pairs with J2000"); else count("pairs between epochs");
   seen(mix(hdbl(a), hdbl(b)));
}
/* a random walk over a few epochs: cached, inverse-cached and fresh results are the same */
static void history(long n) {
   std::map<std::pair<int, int>, std::array<double, 18>> first;
   for (long run = 0; run < n; run++) {
      std::vector<double> y; int m = (int)rng.range(2, 6);
      for (int i = 0; i < m; i++) y.push_back(pick_year());
      if (rng.chance(.3)) y.push_back(y[0] + rng.uni(-2e-5, 2e-5));
      first.clear();
      for (int s = 0; s < 30; s++) {
         int i = (int)rng.below(y.size()), j = (int)rng.below(y.size()), k = (int)rng.below(y.size());
         cur("history %ld step %d: %.17g %.17g %.17g", run, s, y[i], y[j], y[k]);
         check_pair(y[i], y[j], "history");
         std::array<double, 18> r; setup_ecliptic_precession(&r[0], y[i], y[j]); setup_precession(&r[9], y[i], y[j]);
         auto it = first.find({i, j});
         if (it == first.end()) first[{i, j}] = r;
         else for (int q = 0; q < 18; q++) if (!(fabs(r[q] - it->second[q]) < 1e-15)) { bad("history", "precession %.12g -> %.12g depends on earlier calls by %.3g", y[i], y[j], r[q] - it->second[q]); break; }
         /* through an intermediate epoch */
         double ab[9], bc[9], ac[9];
         setup_precession(ab, y[i], y[j]); setup_precession(bc, y[j], y[k]); setup_precession(ac, y[i], y[k]);
         LD d = diff(mul(cv(bc), cv(ab)), cv(ac));
         LD sl = (fabs(y[i] - y[j]) < 1e-5 || fabs(y[k] - y[j]) < 1e-5 || fabs(y[i] - y[k]) < 1e-5) ? 8e-9L : 0;
         if (!(d < 4e-14L + sl)) bad("compose", "%.9g -> %.9g -> %.9g differs from %.9g -> %.9g by %.3Lg", y[i], y[j], y[k], y[i], y[k], d);
         count("compositions");
      }
   }
}
static void vectors(long n) {
   for (long c = 0; c < n; c++) {
      double a = pick_year(), b = pick_year(), m[9];
      cur("vector %.17g %.17g", a, b);
      setup_precession(m, a, b);
      double v[3], w[3], u[3], z[3];
      for (double &x : v) x = rng.normal() * (rng.chance(.2) ? 0 : 1);
      double sc = rng.logu(1e-6, 1e6); for (double &x : v) x *= sc;
      double L = vector3_length(v) + 1e-300;
      precess_vector(m, v, w); deprecess_vector(m, w, u);
      memcpy(z, v, sizeof z); precess_vector(m, z, z);
      for (int i = 0; i < 3; i++) {
         LD e = (LD)m[i * 3] * v[0] + (LD)m[i * 3 + 1] * v[1] + (LD)m[i * 3 + 2] * v[2];
         if (!(fabsl(w[i] - e) <= 4e-16L * L)) bad("vector", "precess_vector component %d: %.17g expected %.17Lg", i, w[i], e);
         if (!(fabs(u[i] - v[i]) <= 4e-15 * L)) bad("vector-back", "deprecess_vector does not undo precess_vector (%.3g)", u[i] - v[i]);
         if (z[i] != w[i]) bad("vector-inplace", "in-place precession differs");
      }
      memcpy(z, w, sizeof z); deprecess_vector(m, z, z);
      if (memcmp(z, u, sizeof z)) bad("vector-inplace", "in-place reverse precession differs");
      /* spherical form */
      double pi_[2] = {rng.uni(-20, 20), asin(rng.uni(-1, 1))}, po[2], pb[2];
      if (rng.chance(.1)) pi_[1] = rng.chance(.5) ? M_PI / 2 : -M_PI / 2;
      if (rng.chance(.1)) pi_[0] = rng.range(-8, 8) * M_PI / 2;
      cur("ra/dec %.17g %.17g, %.17g %.17g", a, b, pi_[0], pi_[1]);
      for (int back = 0; back < 2; back++) {
         precess_ra_dec(m, po, pi_, back);
         M mm = cv(m); if (back) mm = tr(mm);
         LD x[3] = {cosl(pi_[0]) * cosl(pi_[1]), sinl(pi_[0]) * cosl(pi_[1]), sinl(pi_[1])}, y[3], g[3] = {cosl(po[0]) * cosl(po[1]), sinl(po[0]) * cosl(po[1]), sinl(po[1])};
         LD cd = sqrtl(1 - g[2] * g[2]), d = 0;
         for (int i = 0; i < 3; i++) { y[i] = mm.a[i * 3] * x[0] + mm.a[i * 3 + 1] * x[1] + mm.a[i * 3 + 2] * x[2]; d = fmaxl(d, fabsl(y[i] - g[i])); }
         if (!(d < 2e-15L + 2e-15L / fmaxl(cd, 3e-8L))) bad("radec", "precess_ra_dec off by %.3Lg rad (cos dec %.3Lg)", d, cd);
         if (!(fabs(po[0] - pi_[0]) <= M_PI + 1e-9)) bad("radec-range", "precessed RA %.9g is not within half a turn of %.9g", po[0], pi_[0]);
         if (!(fabs(po[1]) <= M_PI / 2)) bad("radec-range", "precessed dec %.9g", po[1]);
         precess_ra_dec(m, pb, po, !back);
         LD h[3] = {cosl(pb[0]) * cosl(pb[1]), sinl(pb[0]) * cosl(pb[1]), sinl(pb[1])}; d = 0;
         for (int i = 0; i < 3; i++) d = fmaxl(d, fabsl(h[i] - x[i]));
         if (!(d < 5e-8L)) bad("radec-back", "precess_ra_dec and back off by %.3Lg", d);
      }
      DPT in, out, rt; in.x = -pi_[0]; in.y = pi_[1];
      precess_pt(&out, &in, a, b); precess_pt(&rt, &out, b, a);
      M mm = cv(m);
      LD x[3] = {cosl(pi_[0]) * cosl(pi_[1]), sinl(pi_[0]) * cosl(pi_[1]), sinl(pi_[1])}, g[3] = {cosl(-out.x) * cosl(out.y), sinl(-out.x) * cosl(out.y), sinl(out.y)};
      LD h[3] = {cosl(-rt.x) * cosl(rt.y), sinl(-rt.x) * cosl(rt.y), sinl(rt.y)};
      for (int i = 0; i < 3; i++) {
         LD e = mm.a[i * 3] * x[0] + mm.a[i * 3 + 1] * x[1] + mm.a[i * 3 + 2] * x[2];
         if (!(fabsl(e - g[i]) < 5e-8L)) bad("pt", "precess_pt %.9g -> %.9g off by %.3Lg", a, b, e - g[i]);
         if (!(fabsl(h[i] - x[i]) < 1e-7L)) bad("pt-back", "precess_pt %.9g -> %.9g and back off by %.3Lg", a, b, h[i] - x[i]);
      }
      count("directions");
   }
}
static void nutations(long n) {
   for (long c = 0; c < n; c++) {
      double T = rng.chance(.6) ? rng.uni(-4, 4) : rng.chance(.5) ? rng.uni(-30, 30) : rng.uni(-100, 100);
      if (c == 0) T = (2446895.5 - 2451545.) / 36525.;
      if (c == 1) T = 0;
      double dl, de, dl2 = 7, de2 = 7; LD fl, fe, kl, ke, x;
      cur("nutation %.17g", T);
      nutation(T, &dl, &de);
      nutation(T, &dl2, NULL); nutation(T, NULL, &de2);
      if (dl2 != dl || de2 != de) bad("nutation-null", "asking for one angle only changes it: %.17g %.17g, %.17g %.17g", dl, dl2, de, de2);
      if (c == 0 && (fabs(dl + 3.788) > .0006 || fabs(de - 9.443) > .0006)) bad("nutation-meeus", "1987 April 10: %.5f %.5f", dl, de);
      LD tol = 2e-8L + 3e-10L * fabsl(T);
      nut(T, 1, 1, &fl, &fe);
      nut(T, 0, 0, &kl, &ke);
      if (!(fabsl(dl - fl) <= tol)) {
         if (fabsl(dl - kl) <= tol) bad("nutation-rates", "nutation in longitude at T=%.5f is %.3Lg arcsec from IAU1980: rates applied to the wrong terms", T, dl - fl);
         else bad("nutation-lon", "nutation in longitude at T=%.9f: %.9f expected %.9Lf", T, dl, fl);
      }
      if (!(fabsl(de - fe) <= tol)) {
         LD rl; nut(T, 1, 0, &x, &rl);
         LD cl; nut(T, 0, 1, &x, &cl);
         if (fabsl(de - ke) <= tol) { bad("nutation-rates", "nutation in obliquity at T=%.5f: rates applied to the wrong terms", T); bad("nutation-cosines", "nutation in obliquity at T=%.5f is %.3Lg arcsec from IAU1980: a dozen cosine terms of .1 to .2 mas are left out", T, de - fe); }
         else if (fabsl(de - rl) <= tol) bad("nutation-cosines", "nutation in obliquity at T=%.5f: a dozen cosine terms of .1 to .2 mas are left out", T);
         else if (fabsl(de - cl) <= tol) bad("nutation-rates", "nutation in obliquity at T=%.5f: rates applied to the wrong terms", T);
         else bad("nutation-obl", "nutation in obliquity at T=%.9f: %.9f expected %.9Lf", T, de, fe);
      }
      count("nutations"); seen(hdbl(T));
      /* obliquity, with repeats so that its remembered value is used */
      double T2 = rng.chance(.2) ? T : rng.chance(.5) ? rng.uni(-100, 100) : rng.uni(-300, 300);
      if (rng.chance(.05)) T2 = rng.pick(std::vector<double>{0., -0., 100., -100., nextafter(100., 200), 300., 30000., nextafter(0., 1)});
      for (double q : {T2, T, T2}) {
         double o = mean_obliquity(q);
         if (!(fabsl(o - obliq(q)) < 5e-10L * (fabs(q) > 100 ? 1 : 1e-5L))) bad("obliquity", "mean obliquity at T=%.12g: %.12f deg expected %.12Lf", q, o * 180 / M_PI, obliq(q) * 180 / PIL);
      }
      /* sidereal time */
      double jd = rng.chance(.6) ? rng.uni(2305000, 2597000) : rng.uni(-1e6, 6e6);
      if (rng.chance(.3)) jd = floor(jd) + (rng.chance(.5) ? .5 : 0.);
      double g = green_sidereal_time(jd);
      LD dd = (LD)jd - 2451545, tc = dd / 36525;
      LD ref = 280.46061837L + 360 * (dd - floorl(dd)) + .98564736629L * dd + tc * tc * (.000387933L - tc / 38710000);
      LD e = fmodl(g * 180 / PIL - ref, 360); if (e > 180) e -= 360; if (e < -180) e += 360;
      if (!(fabsl(e) < 2e-12L * (1 + fabsl(ref) * .1L))) bad("sidereal", "sidereal time at JD %.9f off by %.3Lg deg", jd, e);
      /* one sidereal rotation per 23h56m4.09s */
      double g2 = green_sidereal_time(jd + 0.99726956633);
      e = fmodl((g2 - g) * 180 / PIL, 360); if (e > 180) e -= 360; if (e < -180) e += 360;
      if (fabs(jd - 2451545) < 2e5 && !(fabsl(e) < 2e-7L)) bad("sidereal-rate", "a sidereal day after JD %.6f the Earth has turned %.3Lg deg too far", jd, e);
      count("sidereal times");
   }
}
static void full(long n) {
   for (long c = 0; c < n; c++) {
      double y = rng.chance(.7) ? rng.uni(1800, 2200) : rng.uni(-3000, 7000), m[9], m0[9];
      double a = rng.chance(.3) ? 0. : rng.uni(-1e-6, 1e-6), b = rng.chance(.3) ? 0. : rng.uni(-1e-6, 1e-6);
      cur("nutation matrix %.17g %.17g %.17g", y, a, b);
      LD T = ((LD)y - 2000) / 100;
      double dl, de; nutation((double)((y - 2000.) / 100.), &dl, &de);
      LD e = obliq(T), L = dl * AS + a, E = de * AS + b;
      setup_precession_with_nutation_delta(m, y, a, b);
      M ref = mul(R3(L * cosl(e)), mul(mul(R1(-e - E), mul(R3(-L), R1(e))), eq76(y)));
      LD d = diff(cv(m), ref);
      if (!(d < 8e-15L + fabsl(T) * 1e-15L)) bad("full-matrix", "precession+nutation at %.6f differs from the composed rotations by %.3Lg", y, d);
      if (!((d = orth(cv(m))) < 1e-14L)) bad("full-rotation", "precession+nutation at %.6f not a rotation (%.3Lg)", y, d);
      setup_precession_with_nutation(m0, y);
      if (a == 0. && b == 0. && memcmp(m0, m, sizeof m)) bad("full-delta", "zero corrections change the matrix");
      M ref0; { LD L0 = dl * AS, E0 = de * AS; ref0 = mul(R3(L0 * cosl(e)), mul(mul(R1(-e - E0), mul(R3(-L0), R1(e))), eq76(y))); }
      if (!(diff(cv(m0), ref0) < 8e-15L + fabsl(T) * 1e-15L)) bad("full-matrix", "precession+nutation at %.6f without corrections", y);
      /* the two forms of precession agree as documented: a nanoradian per three years */
      double q[9]; setup_precession(q, 2000., y);
      if (fabsl(T) < 2 && !(diff(cv(q), eq76(y)) < 1e-9L * (1 + fabs(y - 2000) / 2.5))) bad("two-forms", "ecliptic and equatorial precession to %.4f differ by %.3Lg", y, diff(cv(q), eq76(y)));
      if (setup_equatorial_precession_from_j2000) { double r[9]; setup_equatorial_precession_from_j2000(r, y); if (!(diff(cv(r), eq76(y)) < 3e-15L + fabsl(T) * 1e-15L)) bad("eq76", "equatorial precession to %.4f off by %.3Lg", y, diff(cv(r), eq76(y))); count("equatorial matrices"); }
      /* Earth orientation without a file: polar motion and corrections are zero */
      double w[9]; int rv = setup_precession_with_nutation_eops(w, y);
      double jdt = 2451545. + (y - 2000.) * 365.25, ut1 = jdt - td_minus_ut(jdt) / 86400.;
      M er = mul(R3((LD)green_sidereal_time(ut1)), ref0);
      d = diff(cv(w), er);
      /* UT1 as a double day number is good to some nanoradians */
      if (rv == 0) bad("eop-none", "Earth orientation claims data without a file");
      if (!(d < 4e-9L + fabsl(T) * 1e-10L)) bad("eop-matrix", "Earth orientation at %.6f off by %.3Lg", y, d);
      if (!((d = orth(cv(w))) < 1e-14L)) bad("eop-rotation", "Earth orientation at %.6f not a rotation (%.3Lg)", y, d);
      count("full matrices"); seen(mix(hdbl(y), hdbl(a)));
   }
}
/* Earth orientation from a made-up data file */
static void eops(int runs) {
   for (int r = 0; r < runs; r++) {
      std::string fn = workdir + "/eop19.txt"; FILE *f = fopen(fn.c_str(), "wb");
      int n = 16371 + (int)rng.range(0, 300), mjd0 = 41684, nutn = n - (int)rng.range(5, 300);
      double ph = rng.uni(0, 6);
      for (int i = 0; i < n + 10; i++) {
         char l[400], t[40]; memset(l, ' ', sizeof l); l[187] = '\n'; l[188] = 0;
         auto put = [&](int at, const char *s) { memcpy(l + at, s, strlen(s)); };
         snprintf(t, sizeof t, "%02d%2d%2d %5d.00", (73 + i / 400) % 100, 1, 1, mjd0 + i); put(0, t);
         if (i < n) {
            put(16, "I"); put(57, "I");
            snprintf(t, sizeof t, "%9.6f", .04 + .2 * sin(i * .0144 + ph)); put(18, t);
            snprintf(t, sizeof t, "%9.6f", .001); put(27, t);
            snprintf(t, sizeof t, "%9.6f", .29 + .2 * cos(i * .0144 + ph)); put(37, t);
            double dt = 43.3 + i * .0019, u = td_minus_utc(2400000.5 + mjd0 + i + .1) - dt; u -= floor(u + .5);
            snprintf(t, sizeof t, "%10.7f", u); put(58, t);
            if (i < nutn) { put(95, "I"); snprintf(t, sizeof t, "%9.3f", -35 + 40 * sin(i * .0009 + ph)); put(97, t); snprintf(t, sizeof t, "%9.3f", -4 + 8 * cos(i * .001 + ph)); put(116, t); }
         }
         fwrite(l, 1, 188, f);
      }
      fclose(f);
      int rc = load_earth_orientation_params(fn.c_str(), NULL);
      if (rc != mjd0 + n - 1) { bad("eop-load", "load gave %d expected %d", rc, mjd0 + n - 1); continue; }
      count("eop files");
      for (int q = 0; q < 400; q++) {
         double day = rng.chance(.3) ? (double)rng.range(2, nutn - 4) : rng.chance(.1) ? rng.uni(-500, n + 500) : rng.uni(2, nutn - 4);
         double y = 2000. + (mjd0 + day - 51544.5) / 365.25;
         cur("eop matrix run %d day %.9f", r, day);
         double jdt = 2451545. + (y - 2000.) * 365.25;
         earth_orientation_params p; int rv = get_earth_orientation_params(jdt, &p, 31);
         double w[9]; int rv2 = setup_precession_with_nutation_eops(w, y);
         if (rv != rv2) bad("eop-flags", "flags %x and %x differ", rv, rv2);
         double dl, de; nutation((y - 2000.) / 100., &dl, &de);
         LD e = obliq(((LD)y - 2000) / 100), L = dl * AS + p.dPsi, E = de * AS + p.dEps;
         M pn = mul(mul(R1(-e - E), mul(R3(-L), R1(e))), eq76(y));
         LD gst = green_sidereal_time(jdt - p.tdt_minus_ut1 / 86400.) + L * cosl(e);
         M er = mul(R2(-p.dX), mul(R1(-p.dY), mul(R3(gst), pn)));
         LD d = diff(cv(w), er);
         if (!(d < 5e-9L)) bad("eop-matrix", "Earth orientation at %.6f off by %.3Lg", y, d);
         /* the pole of the true equator seen from the rotating Earth is at (x, -y) */
         LD px = 0, py = 0; for (int i = 0; i < 3; i++) { px += w[i] * pn.a[6 + i]; py += w[3 + i] * pn.a[6 + i]; }
         if (!(fabsl(px - p.dX) < 1e-11L && fabsl(py + p.dY) < 1e-11L)) bad("eop-pole", "pole at %.6Lf %.6Lf expected %.6f %.6f arcsec", px / AS, py / AS, p.dX / (double)AS, -p.dY / (double)AS);
         if (!((d = orth(cv(w))) < 1e-14L)) bad("eop-rotation", "not a rotation (%.3Lg)", d);
         count("eop matrices"); if (rv == 0) count("eop complete"); seen(hdbl(y));
      }
      load_earth_orientation_params(NULL, NULL);
   }
}
int main(int argc, char **argv) {
   init(argc, argv);
   long n = budget(40000, 600000);
   for (long i = 0; i < n; i++) {
      double a = pick_year(), b = rng.chance(.05) ? a : rng.chance(.05) ? a + rng.uni(-3e-5, 3e-5) : pick_year();
      cur("pair %.17g %.17g", a, b);
      check_pair(a, b, "pair");
      if (i < 3) sample("precession %.4f -> %.4f", a, b);
   }
   history(budget(1200, 20000));
   vectors(budget(40000, 800000));
   nutations(budget(40000, 800000));
   full(budget(20000, 300000));
   if (shard == 0 || thorough) eops(thorough ? 3 : 1);
   need("pairs between epochs", 500); need("pairs with J2000", 500); need("equal epochs", 20); need("compositions", 1000);
   need("directions", 1000); need("nutations", 1000); need("full matrices", 1000); need("eop matrices", 300); need("eop complete", 100);
   return finish();
}
