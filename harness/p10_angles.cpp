/* P10: angle output. */
#include "vh.h"
extern "C" {
void output_angle_to_buff(char *obuff, double angle, int precision);
void output_signed_angle_to_buff(char *obuff, const double angle, const int precision);
int get_ra_dec_from_mpc_report(const char *ibuff, int *ra_format, double *ra, double *ra_precision, int *dec_format, double *dec, double *dec_precision);
int text_search_and_replace(char *str, const char *oldstr, const char *newstr);
double get_ra_from_string(const char *buff, int *bytes_read);
double get_dec_from_string(const char *buff, int *bytes_read);
}
using namespace vh;
typedef long double LD;
static std::string fmt(const char *f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
struct Spec { int code, lead, nd, kind; LD unit; };   /* kind 0 d.d, 1 'd m.m', 2 'd m s.s', 3 packed; unit = size of one shown step, in displayed units of the angle */
static bool spec(int c, Spec &s) {
   s.code = c; s.lead = 2;
   if (c >= 100 && c <= 116) { s.kind = 0; s.nd = c - 100; s.unit = powl(10, -s.nd); return true; }
   if (c >= 200 && c <= 215) { s.kind = 0; s.lead = 3; s.nd = c - 200; s.unit = powl(10, -s.nd); return true; }
   if (c <= -1 && c >= -7) { s.kind = 1; s.nd = -1 - c; s.unit = powl(10, -s.nd) / 60; return true; }
   if (c >= 0 && c <= 9) { s.kind = 2; s.nd = c; s.unit = powl(10, -s.nd) / 3600; return true; }
   if (c >= 307 && c <= 312) { s.kind = 3; s.nd = c - 306; s.unit = powl(10, -s.nd) / 3600; return true; }
   if (c >= 400 && c <= 402) { s.kind = 2; s.lead = 3; s.nd = c - 400; s.unit = powl(10, -s.nd) / 3600; return true; }
   return false;
}
static bool num(const std::string &t, size_t &p, int n, int64_t &v) { v = 0; for (int i = 0; i < n; i++, p++) { if (p >= t.size() || !isdigit((unsigned char)t[p])) return false; v = v * 10 + (t[p] - '0'); } return true; }
/* strict reader for the documented layout; returns false if malformed */
static bool readback(const Spec &s, std::string t, LD &v, const char **why) {
   size_t want = 12;
   if (s.code >= 4 && s.code <= 9) want += s.code - 3;
   if (s.code >= 209 && s.code <= 215) want += s.code - 208;
   if (s.code >= 110 && s.code <= 116) want += s.code - 109;
   *why = "length"; if (t.size() != want) return false;
   while (!t.empty() && t.back() == ' ') t.pop_back();
   size_t p = 0; int64_t z, m = 0, sec = 0, f = 0; *why = "layout";
   if (!num(t, p, s.lead, z)) return false;
   if (s.kind == 1 || s.kind == 2) { if (p >= t.size() || t[p++] != ' ') return false; if (!num(t, p, 2, m)) return false; }
   if (s.kind == 2) { if (p >= t.size() || t[p++] != ' ') return false; if (!num(t, p, 2, sec)) return false; }
   if (s.kind == 3) { if (!num(t, p, 2, m) || !num(t, p, 2, sec)) return false; }
   if (s.nd) { if (s.kind != 3 && (p >= t.size() || t[p++] != '.')) return false; if (!num(t, p, s.nd, f)) return false; }
   else if (p < t.size() && t[p] == '.') p++;
   if (p != t.size()) return false;
   *why = "field range"; if (m > 59 || sec > 59) return false;
   LD fr = (LD)f; for (int i = 0; i < s.nd; i++) fr /= 10;
   if (s.kind == 0) v = z + fr; else if (s.kind == 1) v = z + (m + fr) / 60; else v = z + m / 60.L + (sec + fr) / 3600;
   return true;
}
static const std::vector<int> codes = [] { std::vector<int> v; for (int c = -7; c <= 402; c++) { Spec s; if (spec(c, s)) v.push_back(c); } return v; }();
static void one(double a, int code, bool sgn) {
   Spec s; spec(code, s);
   LD scale = s.lead == 3 ? 15 : 1;
   cur("angle %.17g code %d%s", a, code, sgn ? " signed" : "");
   char b[64]; memset(b, '#', sizeof b); b[63] = 0;
   if (sgn) output_signed_angle_to_buff(b + 8, a, code); else output_angle_to_buff(b + 8, a, code);
   for (int i = 0; i < 8; i++) if (b[i] != '#') bad("outside", "byte before the buffer changed");
   std::string t = b + 8;
   for (size_t i = 8 + t.size() + 1; i < 63; i++) if (b[i] != '#') { bad("outside", "byte %zu past the text changed", i - 8 - t.size()); break; }
   std::string u = t;
   if (sgn) { char e = a < 0 ? '-' : '+'; if (t.empty() || t[0] != e) { bad("sign", "'%s'", t.c_str()); return; } u = t.substr(1); }
   LD v; const char *why; LD w = fabsl((LD)a) * scale;
   if (!readback(s, u, v, &why)) { bad(fmt("%s-code%d", why, code), "'%s' for %.15Lf", t.c_str(), w); return; }
   LD tol = s.unit * .5L + w * 6e-16L + 1e-18L; 
   if (fabsl(v - w) > tol) bad(fmt("value-code%d", code), "'%s' reads %.17Lf, angle %.17Lf, off by %Lg steps", t.c_str(), v, w, (v - w) / s.unit);
   count(fmt("code %d", code).c_str()); seen(mix(hstr(t), code));
   if (evals % 20011 == 3) sample("%.12g in format %d: '%s'", a, code, t.c_str());
   /* readers recover it */
   bool rdra = !sgn && (code <= 3 || (code >= 100 && code <= 109) || (code >= 200 && code <= 208) || code >= 307);
   bool rddec = sgn && (code <= 2 || (code >= 100 && code <= 108) || (code >= 307 && code <= 311)) && code != -7 && s.lead == 2;
   if ((rdra || rddec) && w < 100 * scale) {
      std::string rec = "     K08T03D  C2013 02 13.14159 "; rec += rdra ? u : "12 34 56.789"; rec += rddec ? t.substr(0, 12) : "+12 34 56.7 "; rec += "                     568";
      rec.resize(80, ' '); int rf, df; double ra, de, rp, dp;
      int rv = get_ra_dec_from_mpc_report(rec.c_str(), &rf, &ra, &rp, &df, &de, &dp);
      LD g = rdra ? (LD)ra * 12 / M_PIl * (s.lead == 3 ? 15 : 1) : fabsl((LD)de) * 180 / M_PIl;
      if (rv) bad("reread", "record reader refuses '%s' (%d)", t.c_str(), rv);
      else {
         if (fabsl(g - v) > 1e-14L * (1 + v)) bad("reread", "'%s' read as %.15Lf, says %.15Lf", t.c_str(), g, v);
         if (rddec && (de < 0) != (a < 0) && v != 0) bad("reread-sign", "'%s' read as %g", t.c_str(), de);
         int f = rdra ? rf : df; 
         if (f != code && code != 100 && code != 200 && code != 400) bad("reread-format", "'%s' recognised as format %d not %d", t.c_str(), f, code);
      }
      count("re-read by the record reader");
   }
   if (s.kind == 2 && s.lead == 2 && s.nd <= 6 && !sgn && v < 24) { int n = 0; double g = get_ra_from_string(u.c_str(), &n) * 12 / M_PI; if (n <= 0 || fabsl(g - v) > 1e-11L) bad("reread-ra", "'%s' read as RA %.12f h", u.c_str(), g); count("re-read as RA"); }
   if (s.kind == 2 && s.lead == 2 && s.nd <= 6 && sgn && v < 90) { int n = 0; double g = get_dec_from_string(t.c_str(), &n) * 180 / M_PI; if (n <= 0 || fabsl(fabs(g) - v) > 1e-11L || (v > 0 && (g < 0) != (a < 0))) bad("reread-dec", "'%s' read as dec %.12f", t.c_str(), g); count("re-read as dec"); }
}
static void replace_case() {
   auto rs = [](int n) { std::string s; for (int i = 0; i < n; i++) s += "ab "[rng.below(3)]; return s; };
   std::string s = rs((int)rng.below(20)), o = rs((int)rng.range(1, 3)), n = rs((int)rng.below(5)), e; int k = 0;
   for (size_t i = 0; i < s.size();) if (s.compare(i, o.size(), o) == 0) { e += n; i += o.size(); k++; } else e += s[i++];
   cur("replace '%s' by '%s' in '%s'", o.c_str(), n.c_str(), s.c_str());
   size_t need_ = std::max(s.size(), e.size()) + 1 + n.size(); char *b = (char *)malloc(need_ + 80); strcpy(b, s.c_str());
   int g = text_search_and_replace(b, o.c_str(), n.c_str());
   if (g != k || e != b) bad("replace", "gave '%s' (%d), expected '%s' (%d)", b, g, e.c_str(), k);
   free(b); count("replacements"); seen(hstr(s + "|" + o + "|" + n));
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (long k = 0, m = budget(1500000, 40000000); k < m; k++) {
      int code = rng.pick(codes); Spec s; spec(code, s); bool sgn = rng.chance(.4);
      double top = s.lead == 3 ? 24 : sgn ? 90 : rng.chance(.5) ? 24 : 99.4;
      double a; LD scale = s.lead == 3 ? 15 : 1;
      switch (rng.below(7)) {
      case 0: a = rng.uni(0, top); break;
      case 1: a = (double)rng.range(0, (long)top - 1); break;
      case 2: { /* just below/at/above a whole minute, second or degree */
         LD base = rng.below((uint64_t)top) * scale + (rng.chance(.5) ? rng.below(60) / 60.L : 1) + (rng.chance(.5) ? rng.below(60) / 3600.L : 0);
         a = (double)((base + (rng.uni() - .5) * 4 * s.unit) / scale); break; }
      case 3: { LD n = floorl(rng.uni(0, top) * scale / s.unit) + .5L; LD e = rng.chance(.5) ? 1e-6L : -1e-6L; a = (double)((n + e) * s.unit / scale); break; } /* beside a rounding tie */
      case 4: { LD n = floorl(rng.uni(0, top) * scale / s.unit); a = (double)(n * s.unit / scale); break; }
      case 5: a = nextafter((double)rng.range(1, (long)top - 1), rng.chance(.5) ? 0 : 1e9); break;
      default: a = rng.logu(1e-14, 1.); }
      if (a < 0) a = 0;
      if (a > top) a = top;
      if (s.lead == 2 && a > 99.4) a = 99.4;
      if (sgn && rng.chance(.5)) a = -a;
      one(a, code, sgn);
   }
   /* unknown format codes never overrun and say so */
   for (long k = 0, m = budget(3000, 100000); k < m; k++) {
      int code = rng.chance(.5) ? (int)rng.range(-500, 600) : (int)rng.next(); Spec s; if (spec(code, s)) continue;
      if (code >= 4 && code <= 11) continue;
      double a = rng.chance(.5) ? rng.uni(0, 360) : rng.logu(1e-6, 1e18);
      cur("angle %.17g with unknown code %d", a, code); char b[64]; memset(b, '#', sizeof b); b[63] = 0;
      output_angle_to_buff(b, a, code);
      if (strlen(b) != 12 || b[0] != '?') bad("unknown-code", "'%s'", b);
      count("unknown codes");
   }
   for (long k = 0, m = budget(100000, 3000000); k < m; k++) replace_case();
   for (int c : codes) need(fmt("code %d", c).c_str(), 100);
   need("re-read by the record reader", 1000); need("re-read as RA", 1000); need("re-read as dec", 1000); need("replacements", 1000);
   return finish();
}
