/* P09: fields of 80-column observation records. */
#include "vh.h"
#include "calref.h"
extern "C" {
bool is_valid_mpc_code(const char *mpc_code);
double extract_date_from_mpc_report(const char *buff, unsigned *format);
int get_ra_dec_from_mpc_report(const char *ibuff, int *ra_format, double *ra, double *ra_precision, int *dec_format, double *dec, double *dec_precision);
}
using namespace vh; using namespace calref;
typedef long double LD;
static std::string fmt(const char *f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string digits(int n, int mode) { std::string s; for (int i = 0; i < n; i++) s += mode == 1 ? '0' : mode == 2 ? '9' : (char)('0' + rng.below(10)); return s; }
static LD frac(const std::string &s) { LD r = 0, m = 1; for (char c : s) r += (c - '0') * (m /= 10); return r; }
static std::string blank(const std::string &date, const std::string &ra, const std::string &dec) {
   std::string r(80, ' ');
   std::string nm = rng.chance(.5) ? "     K08T03D" : "00433       "; r.replace(0, 12, nm);
   if (rng.chance(.3)) r[12] = rng.chance(.5) ? '*' : '-';
   r[13] = " KAa"[rng.below(4)]; r[14] = "CcSXN "[rng.below(6)];
   r.replace(15, date.size(), date); r.replace(32, ra.size(), ra); r.replace(44, dec.size(), dec);
   r.replace(65, 6, "18.2 R"); r.replace(77, 3, rng.pick(std::vector<std::string>{"568", "I41", "G96", "W84", "XXX", "zz1"}));
   return r;
}
static void tail(std::string &r) { int k = (int)rng.below(3); if (k) r += k == 1 ? "\n" : "\r\n"; }
static I julgreg(int y, int m, int d) { I g = greg_jd(y, m, d); return (y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15)))) ? g : jul_jd(y, m, d); }
static void date_case() {
   int kind = (int)rng.below(6), mode = (int)rng.below(6), nd = 0; unsigned want = 0; LD jd = 0; std::string t;
   int c = (int)rng.below(4);
   int y = c == 0 ? (int)rng.range(1900, 2099) : (int)rng.range(1700, 2099);
   if (kind == 0 && rng.chance(.4)) y = (int)rng.range(0, 9999);
   if (kind == 0 && rng.chance(.1)) y = 1582 + (int)rng.range(-1, 1);
   int m = (int)rng.range(1, 12), d = (int)rng.range(1, 28);
   if (rng.chance(.2)) { static const int ml[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; d = ml[m - 1]; if (y == 1582 && m == 10) d = 31; }
   if (y == 1582 && m == 10 && d > 4 && d < 15) d = rng.chance(.5) ? 4 : 15;
   I day = julgreg(y, m, d); LD day0 = (LD)day - .5L;
   char cent = (char)('A' + y / 100 - 10);
   if (kind == 0) {                              /* YYYY MM DD.dddddd */
      nd = (int)rng.range(0, 6); std::string f = digits(nd, mode);
      int z = (int)rng.below(6);                  /* leading zeroes may be blank */
      t = fmt("%04d ", y) + fmt(z == 0 || z == 2 ? "%2d " : "%02d ", m) + fmt(z == 1 || z == 2 ? "%2d." : "%02d.", d) + f;
      want = nd; jd = day0 + frac(f);
      if (z < 3 && (m < 10 || d < 10)) count("dates with blanks for zeroes");
   } else if (kind == 1) {                       /* JD */
      nd = (int)rng.range(2, 9); std::string f = digits(nd, mode); long n = rng.range(1000000, 9999999); if (rng.chance(.7)) n = rng.range(2300000, 2600000);
      t = fmt("%ld.", n) + f; jd = n + frac(f); want = 10 + nd;
   } else if (kind == 2) {                       /* MJD */
      nd = (int)rng.range(2, 9); std::string f = digits(nd, mode); long n = rng.chance(.7) ? rng.range(0, 99999) : rng.range(0, 999999);
      t = fmt("M%06ld.", n) + f; jd = n + 2400000.5L + frac(f); want = 40 + nd;
   } else if (kind == 3) {                       /* CYYMMDD.ddd */
      nd = (int)rng.range(2, 9); std::string f = digits(nd, mode);
      t = fmt("%c%02d%02d%02d.", cent, y % 100, m, d) + f; jd = day0 + frac(f); want = 30 + nd;
   } else {
      int hh = (int)rng.below(24), mi = (int)rng.below(60), ss = (int)rng.below(60);
      if (rng.chance(.2)) hh = 23, mi = 59, ss = 59;
      if (rng.chance(.1)) hh = mi = ss = 0;
      if (kind == 4) {
         nd = (int)rng.range(0, 3); std::string f = digits(nd, mode);
         t = fmt("%c%02d%02d%02d:%02d%02d%02d", cent, y % 100, m, d, hh, mi, ss) + f; want = 20 + nd;
         jd = day0 + (hh * 3600 + mi * 60 + ss + frac(f)) / 86400.L;
      } else { t = fmt("%c%02d%02d%02d:%02d%02d", cent, y % 100, m, d, hh, mi); want = 50; jd = day0 + (hh * 3600 + mi * 60) / 86400.L; }
   }
   std::string r = blank(t, "12 34 56.789", "+12 34 56.7 ");
   bool radar = rng.chance(.15);
   if (radar) r[14] = rng.chance(.5) ? 'R' : 'r';
   tail(r);
   cur("date in record [%s]", r.c_str());
   char *h = strdup(r.c_str()); unsigned g = 12345;
   double v = extract_date_from_mpc_report(h, &g), v2 = extract_date_from_mpc_report(h, NULL);
   if (v != v2) bad("date-format-arg", "result depends on asking for the format: %.9f / %.9f", v, v2);
   double tol = 1.5e-9;
   if (radar) {
      LD sec = jd * 86400.L, rs = roundl(sec), lo = rs;
      if (fabsl(fabsl(sec - rs) - .5L) < 1e-3L) { /* halfway: either neighbour */ if (fabsl((LD)v * 86400.L - rs) > .5L) lo = (v * 86400.L > rs) ? rs + 1 : rs - 1; }
      if (fabsl((LD)v - lo / 86400.L) > 2.5e-9L) bad("radar-date", "radar date %s read as %.10f, expected %.10Lf", t.c_str(), v, lo / 86400.L);
      count("radar dates");
   } else if (fabsl((LD)v - jd) > tol) bad(fmt("date-kind%d", kind), "'%s' read as JD %.10f, expected %.10Lf", t.c_str(), v, jd);
   if (g != want) bad(fmt("date-format-kind%d", kind), "'%s' format reported as %u, expected %u", t.c_str(), g, want);
   free(h);
   count(fmt("date format %u", want).c_str()); seen(hstr(t)); if (evals % 9001 == 5) sample("date '%s' -> %.9f format %u", t.c_str(), v, g);
   /* damage: not a date */
   std::string q = blank(t, "12 34 56.78 ", "+12 34 56.7 "); q[14] = 'C';
   int k = (int)rng.below(6); const char *why = "";
   if (k == 0) { q.resize(rng.below(80)); why = "short"; }
   else if (k == 1) { q += digits((int)rng.range(3, 40), 0); why = "long"; }
   else if (k == 2) { q[12] = "x0+A"[rng.below(4)]; why = "asterisk column"; }
   else if (k == 3) { q[77 + rng.below(3)] = rng.chance(.5) ? ' ' : "{~\x7f"[rng.below(3)]; why = "station code"; }
   else if (k == 4 && kind != 1 && kind != 2) {    /* month out of range */
      int bm = rng.chance(.3) ? 0 : (int)rng.range(13, 99); char b[3]; snprintf(b, 3, "%02d", bm); size_t at = kind == 0 ? 20 : 18; q[at] = b[0]; q[at + 1] = b[1]; why = "month"; }
   else {   /* a letter where a digit must stand */
      std::vector<int> pos = kind == 0 ? std::vector<int>{0, 1, 2, 3, 6, 9} : std::vector<int>{1, 2, 3, 4, 5, 6, 8, 9};
      q[15 + rng.pick(pos)] = "ABXz/:"[rng.below(5)]; why = "non-digit"; }
   cur("damaged (%s) record [%s]", why, q.c_str());
   char *hq = strdup(q.c_str()); double z = extract_date_from_mpc_report(hq, &g); free(hq);
   if (z != 0.) bad(std::string("damaged-") + why, "date %.6f returned", z);
   count("damaged dates");
}
struct Ang { std::string t; LD v; int f; LD prec; };
/* an RA (hours) or dec (degrees, unsigned) field */
static Ang ang(bool ra) {
   Ang a; int mode = (int)rng.below(6), n; LD z;
   int zz = ra ? (int)rng.below(24) : (int)rng.below(90), mm = (int)rng.below(60), ss = (int)rng.below(60), deg = (int)rng.below(360);
   if (rng.chance(.1)) zz = 0;
   if (rng.chance(.1)) mm = ss = 59;
   if (rng.chance(.1)) mm = ss = 0;
   for (;;) {
      switch (rng.below(ra ? 6 : 4)) {
      case 0: n = (int)rng.range(0, ra ? 3 : 2); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%02d %02d %02d", zz, mm, ss) + (n ? "." + a.t : rng.chance(.5) ? "." : ""); a.v = zz + mm / 60.L + (ss + z) / 3600; a.f = n; a.prec = powl(10, -n); return a;
      case 1: n = (int)rng.range(0, ra ? 6 : 5); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%02d %02d", zz, mm) + (n ? "." + a.t : ""); a.v = zz + (mm + z) / 60.L; a.f = -1 - n; a.prec = 60 * powl(10, -n); return a;
      case 2: n = (int)rng.range(0, ra ? 9 : 8); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%02d.", zz) + a.t; a.v = zz + z; a.f = 100 + n; a.prec = 3600 * powl(10, -n); return a;
      case 3: n = (int)rng.range(1, ra ? 6 : 5); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%02d%02d%02d", zz, mm, ss) + a.t; a.v = zz + mm / 60.L + (ss + z) / 3600; a.f = 306 + n; a.prec = powl(10, -n); return a;
      case 4: n = (int)rng.range(0, 8); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%03d.", deg) + a.t; a.v = (deg + z) / 15; a.f = 200 + n; a.prec = 240 * powl(10, -n); return a;
      case 5: n = (int)rng.range(0, 2); a.t = digits(n, mode); z = frac(a.t); a.t = fmt("%03d %02d %02d", deg, mm, ss) + (n ? "." + a.t : rng.chance(.5) ? "." : ""); a.v = (deg + mm / 60.L + (ss + z) / 3600) / 15; a.f = 400 + n; a.prec = powl(10, -n) / 15; return a;
      }
   }
}
static std::string pad(std::string s, size_t n) { s.resize(n, ' '); return s; }
static void radec_case() {
   Ang r = ang(true), d = ang(false); bool neg = rng.chance(.5);
   bool badr = rng.chance(.08), badd = rng.chance(.08);
   static const std::vector<std::string> junk = {"            ", "ab cd ef.gh ", "1 23 45.6   ", "-12 34 56.7 ", "x2 34 56.78 ", " 1 23 45.67 ", "?           ", "    12 34 56", "12:34:56.78 ", "12h34m56.7s ", "1           "};
   std::string rt = pad(badr ? rng.pick(junk) : r.t, 12), dt = pad(badd ? rng.pick(junk).substr(0, 11) : d.t, 11);
   if (badr && rt[0] == '-') rt = "--34 56.78  ";
   std::string sg = neg ? "-" : "+";
   if (badd && rng.chance(.3)) sg = " ";
   if (badd && sg == " " && (dt[0] >= '0' && dt[0] <= '9')) sg = "+";
   std::string rec = blank("2013 02 13.14159 ", rt, sg + dt); tail(rec);
   cur("RA/dec in record [%s]", rec.c_str());
   char *h = strdup(rec.c_str()); int rf = 777, df = 777; double ra = 0, de = 0, rp = 0, dp = 0;
   int rv = get_ra_dec_from_mpc_report(h, &rf, &ra, &rp, &df, &de, &dp);
   double ra2 = 0, de2 = 0; int rv2 = get_ra_dec_from_mpc_report(h, NULL, &ra2, NULL, NULL, &de2, NULL);
   free(h);
   if (rv != rv2 || (!badr && ra != ra2) || (!badd && de != de2)) bad("optional-args", "results depend on which outputs are asked for");
   int want = (badr ? -1 : 0) + (badd ? -2 : 0);
   if (rv != want) bad("radec-status", "returned %d, expected %d for RA '%s' dec '%s%s'", rv, want, rt.c_str(), sg.c_str(), dt.c_str());
   if (!badr) {
      LD e = r.v * M_PIl / 12; if (fabsl(ra - e) > 5e-15L * (1 + fabsl(e))) bad("ra-value", "RA '%s' read as %.15f, expected %.15Lf rad", rt.c_str(), ra, e);
      if (rf != r.f) bad("ra-format", "RA '%s' format %d, expected %d", rt.c_str(), rf, r.f);
      if (fabsl(rp - r.prec * 15) > 1e-9L * r.prec * 15) bad("ra-precision", "RA '%s' precision %g arcsec, expected %Lg", rt.c_str(), rp, r.prec * 15);
      count(fmt("RA format %d", r.f).c_str());
   } else count("bad RAs");
   if (!badd) {
      LD e = d.v * M_PIl / 180 * (neg ? -1 : 1); if (fabsl(de - e) > 5e-15L * (1 + fabsl(e))) bad("dec-value", "dec '%s%s' read as %.15f, expected %.15Lf rad", sg.c_str(), dt.c_str(), de, e);
      if (df != d.f) bad("dec-format", "dec '%s' format %d, expected %d", dt.c_str(), df, d.f);
      if (fabsl(dp - d.prec) > 1e-9L * d.prec) bad("dec-precision", "dec '%s' precision %g arcsec, expected %Lg", dt.c_str(), dp, d.prec);
      count(fmt("dec format %d", d.f).c_str());
   } else count("bad decs");
   seen(hstr(rt + sg + dt)); if (evals % 9001 == 7) sample("RA '%s' -> %.12f rad; dec '%s%s' -> %.12f rad", rt.c_str(), ra, sg.c_str(), dt.c_str(), de);
}
int main(int argc, char **argv) {
   init(argc, argv);
   if (shard == 0) for (int a = 1; a < 256; a++) for (int k = 0; k < 3; k++) {
      char c[4] = {'5', 'G', 'z', 0}; c[k] = (char)a; cur("station code with byte 0x%02x at %d", a, k);
      bool e = a > ' ' && a <= 'z'; if (is_valid_mpc_code(c) != e) bad("station-code", "valid=%d expected %d", !e, e);
   }
   for (long k = 0, m = budget(400000, 12000000); k < m; k++) date_case();
   for (long k = 0, m = budget(500000, 15000000); k < m; k++) radec_case();
   for (int f : {0, 1, 2, 3, 4, 5, 6, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 32, 33, 34, 35, 36, 37, 38, 39, 42, 43, 44, 45, 46, 47, 48, 49, 50}) need(fmt("date format %u", f).c_str(), 50);
   for (int f : {0, 1, 2, 3, -1, -2, -3, -4, -5, -6, -7, 100, 105, 109, 200, 204, 208, 307, 308, 309, 310, 311, 312, 400, 401, 402}) need(fmt("RA format %d", f).c_str(), 50);
   need("bad RAs", 100); need("bad decs", 100); need("damaged dates", 1000);
   return finish();
}
