/* P06: Mars clocks against the published Mars24 relations, evaluated independently in long double. */
#include "vh.h"
using namespace vh;
typedef long double LD;
double tt_to_mtc(const double jd);
double mtc_to_tt(const double mtc);
double mars_true_solar_minus_mean_solar_time(const double jd);
double mtst_at_airy_to_tt(const double mtst);
static const LD SOL = 1.0274912517L, PIL = 3.14159265358979323846L;
static LD msd(LD jd) { return (jd - 2451549.5L) / SOL + 44796.0L - 0.0009626L; }
static LD sd(LD x) { return sinl(x * PIL / 180); }
static LD cd(LD x) { return cosl(x * PIL / 180); }
struct M { LD afms, nu, ls, eot; };
static M mars(LD jd) {
   LD t = jd - 2451545.0L, m = 19.3871L + .52402073L * t;
   M r; r.afms = 270.3871L + .524038496L * t;
   static const LD A[7] = {.0071L, .0057L, .0039L, .0037L, .0021L, .0020L, .0018L}, T[7] = {2.2353L, 2.7543L, 1.1177L, 15.7866L, 2.1354L, 2.4694L, 32.8493L},
      P[7] = {49.409L, 168.173L, 191.837L, 21.736L, 15.704L, 95.528L, 49.095L};
   LD pbs = 0; for (int i = 0; i < 7; i++) pbs += A[i] * cd(360.L / 365.25L * t / T[i] + P[i]);
   r.nu = (10.691L + 3e-7L * t) * sd(m) + .623L * sd(2 * m) + .050L * sd(3 * m) + .005L * sd(4 * m) + .0005L * sd(5 * m) + pbs;
   r.ls = r.afms + r.nu;
   r.eot = (2.861L * sd(2 * r.ls) - .071L * sd(4 * r.ls) + .002L * sd(6 * r.ls) - r.nu) / 360;
   return r;
}
static bool clock_ok(const char *s, LD sol, const char *what) {
   int h, mi, se, ms, n = 0;
   if (sscanf(s, "%2d:%2d:%2d.%3d%n", &h, &mi, &se, &ms, &n) != 4 || n != 12) { bad(std::string("clock-") + what, "unreadable clock '%.20s'", s); return false; }
   if (h < 0 || h > 23 || mi > 59 || se > 59 || mi < 0 || se < 0 || ms < 0) { bad(std::string("clock-") + what, "clock fields out of range '%.12s'", s); return false; }
   LD got = ((h * 60 + mi) * 60 + se + ms / 1000.L) / 86400.L, want = sol - floorl(sol), df = got - want;
   df -= roundl(df);
   if (!(fabsl(df) * 86400 <= .00055L + .003L)) { bad(std::string("clock-") + what, "clock '%.12s' off by %.4Lf s", s, df * 86400); return false; }
   return true;
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (long k = 0, n = budget(400000, 40000000); k < n; k++) {
      double jd;
      switch (k % 4) {
      case 0: jd = 2451545. + rng.uni(-500, 500) * 365.25; break;
      case 1: jd = 2440000.5 + rng.uni(0, 40000); break;
      case 2: jd = 2451549.5 + rng.range(-60000, 60000) * 1.0274912517 + rng.uni(-2e-5, 2e-5); break;
      default: jd = (double)rng.range(2300000, 2600000) + .5 * rng.below(2); break;
      }
      cur("jd=%.9f", jd);
      double mtc = tt_to_mtc(jd);
      LD rm = msd(jd);
      if (!(fabsl(mtc - rm) < 2e-9L)) bad("msd", "MSD %.9f expected %.9Lf", mtc, rm);
      if (!(fabs(mtc_to_tt(mtc) - jd) < 2e-9)) bad("msd-inverse", "recovered %.9f", mtc_to_tt(mtc));
      double e = mars_true_solar_minus_mean_solar_time(jd);
      M r = mars(jd);
      if (!(fabsl(e - r.eot) < 1e-9L)) bad("eot", "equation of time %.10f sol, expected %.10Lf", e, r.eot);
      double back = mtst_at_airy_to_tt(mtc + e);
      if (!(fabs(back - jd) < 6e-8)) bad("true-inverse", "true solar time maps back %.3f ms off", (back - jd) * 86400e3);
      count("instants"); seen(hdbl(jd));
      if (k % 30001 == 0) sample("jd %.5f msd %.6f eot %.6f", jd, mtc, e);
   }
   for (long k = 0, n = budget(3000, 60000); k < n; k++) {
      double jd = k % 3 ? 2451545. + rng.uni(-300, 300) * 365.25 : 2451549.5 + (rng.range(-60000, 60000) + .0009626) * 1.0274912517 + rng.uni(-3e-8, 3e-8);
      char a[40], b[40]; snprintf(a, sizeof a, "%.9f", jd); jd = atof(a);
      double lon = rng.chance(.2) ? 90. * rng.below(5) : rng.uni(-360, 360); snprintf(b, sizeof b, "%.6f", lon); lon = atof(b);
      bool site = rng.chance(.6);
      cur("marstime %s %s", a, site ? b : "");
      std::string out; std::vector<std::string> av = {tools + "/marstime", a}; if (site) av.push_back(b);
      int rc = run(av, &out);
      if (rc) { bad("tool", "exit %d: %.200s", rc, out.c_str()); continue; }
      M r = mars(jd); LD m = msd(jd);
      const char *p = strstr(out.c_str(), "MTC = ");
      double v; if (!p || sscanf(p, "MTC = %lf", &v) != 1 || fabsl(v - m) > 2e-6L) bad("tool-mtc", "MTC line %.60s expected %.6Lf", p ? p : "missing", m);
      else { const char *q = strchr(p, '('); if (q) clock_ok(q + 1, m, "mtc"); q = strstr(p, "eot = "); if (!q || fabsl(atof(q + 6) - r.eot) > 1e-6L) bad("tool-eot", "%.20s", q ? q : "missing"); }
      p = strstr(out.c_str(), "LTST at Airy: "); if (!p) bad("tool-ltst", "missing"); else clock_ok(p + 14, m + r.eot, "airy");
      p = strstr(out.c_str(), "Recovered JD: "); if (!p || fabs(atof(p + 14) - jd) > 8e-8) bad("tool-recovered", "%.40s", p ? p : "missing");
      p = strstr(out.c_str(), "longitude of sun = "); if (!p) bad("tool-ls", "missing"); else { LD d = (atof(p + 19) - r.ls) / 360; if (fabsl(d - roundl(d)) * 360 > 2e-6L) bad("tool-ls", "%.40s expected %.6Lf", p, r.ls); }
      if (site) {
         p = strstr(out.c_str(), "LTST at loc: "); if (!p) bad("tool-loc", "missing"); else clock_ok(p + 13, m + r.eot - (LD)lon / 360, "ltst-loc");
         p = strstr(out.c_str(), "LMST at loc: "); if (!p) bad("tool-loc", "missing"); else clock_ok(p + 13, m - (LD)lon / 360, "lmst-loc");
         count("site reports");
      }
      count("reports"); seen(hstr(a));
   }
   need("reports", 500); need("site reports", 100);
   return finish();
}
