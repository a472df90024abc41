/* P02: text -> instant.  Strings are generated from a known instant in every
   supported style; the oracle is the generator's own value (calref.h). */
#include "vh.h"
#include "calref.h"
#include "meeus_moon.h"
#include <time.h>
#include "watdefs.h"
#include "date.h"
using namespace vh;
using calref::I;
typedef long double LD;
static const char *mon[13] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December", 0};
static const char *dow[7] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const int cals[8] = {0, 1, 2, 3, 5, 6, 7, 8};

static std::string fmt(const char *f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string caser(std::string s) {
   int k = (int)rng.below(3);
   for (auto &c : s) c = (char)(k == 0 ? tolower(c) : k == 1 ? toupper(c) : c);
   return s;
}
struct D { int cal; I y; int m, d; I jd; };
static D rand_date(int cal, I ylo, I yhi) {
   D r; r.cal = cal;
   for (;;) {
      I y = rng.range((long)ylo, (long)yhi);
      calref::Year Y;
      int c = cal == 6 ? (y >= 1583 ? 0 : 1) : cal;
      if (cal == 6 && y == 1582) continue;
      if (!calref::year_data(c, y, Y)) continue;
      int m = (int)rng.below(13);
      if (!Y.len[m]) continue;
      int d = rng.chance(.2) ? Y.len[m] : 1 + (int)rng.below((uint64_t)Y.len[m]);
      I s = Y.start; for (int i = 0; i < m; i++) s += Y.len[i];
      r.y = y; r.m = m + 1; r.d = d; r.jd = s + d - 1;
      return r;
   }
}
static LD day0(I jd) { return (LD)(jd - 2451545) - 0.5L; }      /* 0h of that date, days from J2000.0 */

/* a clock time; returns text and fraction of day */
static std::string clock_text(LD *frac) {
   int h = (int)rng.below(24), m = (int)rng.below(60);
   if (rng.chance(.1)) { h = rng.chance(.5) ? 0 : 23; m = rng.chance(.5) ? 0 : 59; }
   char b[80];
   switch (rng.below(5)) {
      case 0: *frac = (h * 60 + m) / 1440.L; snprintf(b, sizeof b, "%d:%02d", h, m); break;
      case 1: { int s = (int)rng.below(60); *frac = (h * 3600 + m * 60 + s) / 86400.L; snprintf(b, sizeof b, "%02d:%02d:%02d", h, m, s); break; }
      case 2: { int s = (int)rng.below(60), p = 1 + (int)rng.below(7); long k = rng.range(0, (long)pow(10, p) - 1);
                *frac = (h * 3600 + m * 60 + s + (LD)k / powl(10, p)) / 86400.L; snprintf(b, sizeof b, "%02d:%02d:%02d.%0*ld", h, m, s, p, k); break; }
      case 3: { int p = 1 + (int)rng.below(5); long k = rng.range(0, (long)pow(10, p) - 1);
                *frac = (h * 60 + m + (LD)k / powl(10, p)) / 1440.L; snprintf(b, sizeof b, "%d:%02d.%0*ld", h, m, p, k); break; }
      default: {
         int hh = 1 + (int)rng.below(12), pm = (int)rng.below(2);
         static const char *am[4] = {"am", "a.m.", "pm", "p.m."};
         int s = (int)rng.below(60); int tw = (int)rng.below(2);
         int H = (hh % 12) + (pm ? 12 : 0);
         if (tw) { *frac = (H * 3600 + m * 60 + s) / 86400.L; snprintf(b, sizeof b, "%d:%02d:%02d %s", hh, m, s, am[pm * 2 + rng.below(2)]); }
         else { *frac = (H * 60 + m) / 1440.L; snprintf(b, sizeof b, "%d:%02d %s", hh, m, am[pm * 2 + rng.below(2)]); }
         count("am-pm");
      }
   }
   return b;
}
static std::string offsets(LD *off) {
   std::string r; *off = 0;
   int n = (int)rng.below(3);
   static const char *u = "smhdwlyc";
   static const LD sc[8] = {1 / 86400.L, 1 / 1440.L, 1 / 24.L, 1, 7, 29.530588853L, 365.25L, 36525};
   for (int i = 0; i < n; i++) {
      int k = (int)rng.below(8); char b[60];
      int sg = rng.below(2) ? 1 : -1;
      if (rng.chance(.5)) { long v = rng.range(1, 400); snprintf(b, sizeof b, " %c%ld%c", sg > 0 ? '+' : '-', v, u[k]); *off += sg * v * sc[k]; }
      else { long v = rng.range(1, 999), w = rng.range(0, 99); snprintf(b, sizeof b, " %c%ld.%02ld%c", sg > 0 ? '+' : '-', v, w, u[k]); *off += sg * (v + w / 100.L) * sc[k]; }
      r += b; count("offset");
   }
   return r;
}
static void expect(const char *style, const std::string &s, int format, LD init, LD want, int want_ut, LD tol = 2e-10L) {
   if (s.size() > 70) return;
   cur("%s \"%s\" format=0x%x init=%.9Lf", style, s.c_str(), format, init);
   int ut = -77;
   LD got = get_time_from_stringl(init, s.c_str(), format, &ut);
   LD got2 = get_time_from_stringl(init, s.c_str(), format, NULL);
   double init_d = (double)(init + 2451545.L);
   int ut3 = -77;
   double got3 = get_time_from_string(init_d, s.c_str(), format, &ut3);
   LD sc = fabsl(want) * 4e-19L + tol;
   if (!(fabsl(got - want) <= sc)) bad(std::string("parse-") + style, "got t2k=%.12Lf, text denotes %.12Lf (off by %.4Lg d)", got, want, got - want);
   if (got2 != got) bad("isut-null", "result changes when the UT flag is not requested: %.12Lf vs %.12Lf", got, got2);
   if (ut != want_ut) bad(std::string("isut-") + style, "UT flag %d, expected %d", ut, want_ut);
   if (!(fabsl((LD)got3 - 2451545.L - want) <= sc + 2e-9L + fabsl(want) * 4e-16L)) bad(std::string("parsed-") + style, "double version got JD %.9f, text denotes %.9Lf", got3, want + 2451545.L);
   count(style);
   seen(mix(hstr(s), (uint64_t)format));
}
static const int ORDER[4] = {FULL_CTIME_YMD, FULL_CTIME_YDM, FULL_CTIME_DMY, FULL_CTIME_MDY};

static void one() {
   int cal = cals[rng.below(8)];
   if (rng.chance(.5)) cal = 0;
   int ord = ORDER[rng.below(4)];
   int format = cal | ord;
   LD init = rng.chance(.3) ? (LD)rng.uni(-200000, 60000) : (LD)floor(rng.uni(-60000, 40000)) + 0.5L * rng.below(2);
   /* the starting date must itself exist in the calendar */
   int id, im; I iy;
   I ijd = (I)floorl(init + 0.5L) + 2451545;
   if (!calref::to_dmy(cal, ijd, &id, &im, &iy)) return;
   LD frac = 0, off = 0;
   std::string ct, of = rng.chance(.4) ? offsets(&off) : "";
   bool hast = rng.chance(.6);
   if (hast) ct = " " + clock_text(&frac);
   bool md = (ord & FULL_CTIME_MONTH_DAY) != 0;
   int style = (int)rng.below(20);
   switch (style) {
      case 0: case 1: {                       /* numeric three fields */
         D d = rand_date(cal, rng.chance(.2) ? 33 : 1000, rng.chance(.1) ? 9999 : 2500);
         if (cal == 7) d = rand_date(cal, 100, 9000);
         char sep = "-/ "[rng.below(3)];
         int maxm = (cal == 2 || cal == 7) ? 13 : 12;
         bool clear_day = d.d > maxm;
         std::string a = fmt(rng.below(2) ? "%d" : "%02d", clear_day && rng.below(2) ? 0 : 0);
         std::string Y = fmt("%ld", (long)d.y), M = fmt(rng.below(2) ? "%d" : "%02d", d.m), Dd = fmt(rng.below(2) ? "%d" : "%02d", d.d);
         bool mfirst = clear_day ? rng.below(2) : md, yfirst = rng.below(2);
         LD dfrac = 0;
         if (!hast && rng.chance(.3)) { int p = 1 + (int)rng.below(9); long k = rng.range(0, (long)pow(10, p) - 1); Dd += fmt(".%0*ld", p, k); dfrac = (LD)k / powl(10, p); mfirst = rng.below(2); count("decimal-day"); }
         std::string s = mfirst ? M + sep + Dd : Dd + sep + M;
         s = yfirst ? Y + sep + s : s + sep + Y;
         expect("numeric", s + ct + of, format, init, day0(d.jd) + frac + dfrac + off, 0);
         break;
      }
      case 2: case 3: {                       /* named month */
         D d = rand_date(cal, 33, 2600); if (cal == 7) d = rand_date(cal, 100, 9000);
         if (d.m == 13) return;
         char sep = "- /"[rng.below(3)];
         std::string m = mon[d.m - 1];
         if (rng.below(2)) m = m.substr(0, 3);
         m = caser(m);
         std::string Y = fmt("%ld", (long)d.y), Dd = fmt("%d", d.d), s;
         LD dfrac = 0;
         if (!hast && rng.chance(.3)) { int p = 1 + (int)rng.below(9); long k = rng.range(0, (long)pow(10, p) - 1); Dd += fmt(".%0*ld", p, k); dfrac = (LD)k / powl(10, p); }
         switch (rng.below(4)) {
            case 0: s = Dd + sep + m + sep + Y; break;
            case 1: s = m + sep + Dd + sep + Y; break;
            case 2: s = Y + sep + m + sep + Dd; break;
            default: if (dfrac != 0) s = Dd + sep + m + sep + Y; else s = Dd + m + Y; break;
         }
         expect("named", s + ct + of, format, init, day0(d.jd) + frac + dfrac + off, 0);
         break;
      }
      case 4: case 5: {                       /* ISO / FITS */
         D d = rand_date(cal, 1000, 9999); if (cal == 7) d = rand_date(cal, 1000, 9000);
         if (d.d > 31 || d.m > 12) return;
         int h = (int)rng.below(24), mi = (int)rng.below(60), se = (int)rng.below(60), p = (int)rng.below(8);
         std::string s = fmt("%04ld-%02d-%02d%c%02d:%02d:%02d", (long)d.y, d.m, d.d, rng.below(2) ? 'T' : 't', h, mi, se);
         LD f = se;
         if (p) { long k = rng.range(0, (long)pow(10, p) - 1); s += fmt(".%0*ld", p, k); f += (LD)k / powl(10, p); }
         expect("fits", s + of, format, init, day0(d.jd) + (h * 3600 + mi * 60 + f) / 86400.L + off, 0);
         break;
      }
      case 6: {                               /* YYYYMMDD(.dd), YYMMDD */
         D d = rand_date(cal, 1000, 9999); if (cal == 7) d = rand_date(cal, 1000, 9000);
         bool six = rng.chance(.3) && (cal == 0 || cal == 6);
         if (six) d = rand_date(cal, 1940, 2039);
         std::string s = six ? fmt("%02d%02d%02d", (int)(d.y % 100), d.m, d.d) : fmt("%04ld%02d%02d", (long)d.y, d.m, d.d);
         LD dfrac = 0;
         if (!hast && rng.chance(.4)) { int p = 1 + (int)rng.below(8); long k = rng.range(0, (long)pow(10, p) - 1); s += fmt(".%0*ld", p, k); dfrac = (LD)k / powl(10, p); }
         expect(six ? "packed6" : "packed8", s + ct + of, format, init, day0(d.jd) + frac + dfrac + off, 0);
         break;
      }
      case 7: {                               /* year + day of year */
         D d = rand_date(cal, 1000, 9999); if (cal == 7) d = rand_date(cal, 1000, 9000);
         calref::Year Y; calref::year_data(cal == 6 ? (d.y >= 1583 ? 0 : 1) : cal, d.y, Y);
         long doy = rng.range(1, (long)(Y.end - Y.start));
         char sep = " -/"[rng.below(3)];
         LD df = 0;
         std::string ds = fmt(rng.below(2) ? "%ld" : "%03ld", doy);
         if (!hast && rng.chance(.3)) { long k = rng.range(0, 99999); ds += fmt(".%05ld", k); df = k / 100000.L; }
         expect("day-of-year", fmt("%ld%c", (long)d.y, sep) + ds + ct + of, format, init, day0(Y.start) + (doy - 1) + df + frac + off, 0);
         break;
      }
      case 8: {                               /* JD and MJD */
         int p = (int)rng.below(9); long k = p ? rng.range(0, (long)pow(10, p) - 1) : 0;
         long n = rng.range(1000000, 3999999);
         std::string fr = p ? fmt(".%0*ld", p, k) : "";
         LD v = n + (LD)k / powl(10, p);
         switch (rng.below(4)) {
            case 0: expect("jd", fmt("%s%ld", rng.below(2) ? "JD " : "j", n) + fr + of, format, init, v - 2451545.L + off, 1); break;
            case 1: expect("jd", fmt("jd%ld", n) + fr + of, format, init, v - 2451545.L + off, 1); break;
            case 2: expect("jd7", fmt("%ld", n) + fr + of, format, init, v - 2451545.L + off, 1); break;
            default: n = rng.range(-10000, 99999); v = n < 0 ? n - (LD)k / powl(10, p) : n + (LD)k / powl(10, p);
               expect("mjd", fmt("%s%ld", rng.below(2) ? "MJD " : "mjd", n) + fr + of, format, init, v + 2400000.5L - 2451545.L + off, 1);
         }
         break;
      }
      case 9: {                               /* decimal years */
         long n = rng.range(1000, 9999); int p = 1 + (int)rng.below(7); long k = rng.range(1, (long)pow(10, p) - 1);
         LD v = n + (LD)k / powl(10, p);
         expect("decimal-year", fmt("%s%ld.%0*ld", rng.below(2) ? "y" : "", n, p, k) + of, format, init, (v - 2000) * 365.25L - .5L + off, 0);
         break;
      }
      case 10: {                              /* year alone -> 1st of the first month */
         D d = rand_date(cal, 1000, 9999); if (cal == 7) d = rand_date(cal, 1000, 9000);
         calref::Year Y; calref::year_data(cal == 6 ? (d.y >= 1583 ? 0 : 1) : cal, d.y, Y);
         expect("year", fmt("%ld", (long)d.y) + ct + of, format, init, day0(Y.start) + frac + off, 0);
         break;
      }
      case 11: {                              /* GPS week/day, Unix seconds */
         if (rng.below(2)) {
            long w = rng.range(0, 9999), dd = rng.range(0, 6);
            expect("gps", fmt("gps %04ld%ld", w, dd) + of, format, init, w * 7 + dd + 2444244.5L - 2451545.L + off, 0);
         } else {
            long s = rng.range(0, 4000000000L), fr = rng.range(0, 999);
            expect("unix", fmt("unix %ld.%03ld", s, fr) + of, format, init, (s + fr / 1000.L) / 86400.L + 2440587.5L - 2451545.L + off, 0, 2e-11L * 10);
         }
         break;
      }
      case 12: {                              /* BC / AD years with named month */
         if (cal != 0 && cal != 1 && cal != 6) cal = 0;
         format = cal | ord;
         D d = rand_date(cal, -3000, 2500);
         bool bc = d.y <= 0;
         long Y = bc ? 1 - (long)d.y : (long)d.y;
         if (Y <= 32) return;
         std::string m = mon[d.m - 1]; m = m.substr(0, 3);
         std::string tag = bc ? (rng.below(2) ? "BC" : "B.C.") : (rng.below(2) ? "AD" : "A.D.");
         std::string s = rng.below(2) ? fmt("%s %ld %s %d", tag.c_str(), Y, m.c_str(), d.d) : fmt("%d %s %ld %s", d.d, m.c_str(), Y, tag.c_str());
         expect(bc ? "bc" : "ad", s + of, format, init, day0(d.jd) + off, 0);
         break;
      }
      case 13: {                              /* negative (astronomical) years */
         if (cal == 7 || cal == 5) { cal = 0; format = cal | ord; }
         D d = rand_date(cal, -5000, -1);
         if (d.m == 13) return;
         std::string m = mon[d.m - 1];
         m = m.substr(0, 3);
         expect("negative-year", rng.below(2) ? fmt("%ld %s %d", (long)d.y, m.c_str(), d.d) + of : fmt("%d %s %ld", d.d, m.c_str(), (long)d.y) + of, format, init, day0(d.jd) + off, 0);
         break;
      }
      case 14: {                              /* two fields: month name + day, year kept */
         calref::Year Y; calref::year_data(cal == 6 ? (ijd >= 2299161 ? 0 : 1) : cal, iy, Y);
         int m = (int)rng.below(12); if (!Y.len[m]) return;
         if (cal == 6 && iy == 1582) return;
         int d = 1 + (int)rng.below((uint64_t)Y.len[m]);
         I s = Y.start; for (int i = 0; i < m; i++) s += Y.len[i];
         std::string nm = caser(std::string(mon[m]).substr(0, 3 + rng.below(4)));
         char sep = " -/"[rng.below(3)];
         int kind = (int)rng.below(3);
         std::string t = kind == 0 ? fmt("%d%c", d, sep) + nm : kind == 1 ? nm + sep + fmt("%d", d) : (md ? fmt("%d%c%d", m + 1, sep, d) : fmt("%d%c%d", d, sep, m + 1));
         expect("two-field", t + ct + of, format, init, day0(s + d - 1) + frac + off, 0);
         break;
      }
      case 15: {                              /* reset only part of the date */
         calref::Year Y; calref::year_data(cal == 6 ? (ijd >= 2299161 ? 0 : 1) : cal, iy, Y);
         if (cal == 6 && iy == 1582) return;
         I ms = Y.start; for (int i = 0; i < im - 1; i++) ms += Y.len[i];
         switch (rng.below(4)) {
            case 0: { int d = 1 + (int)rng.below((uint64_t)Y.len[im - 1]); expect("day-only", fmt(rng.below(2) ? "%d" : "%02d", d) + ct + of, format, init, day0(ms + d - 1) + frac + off, 0); break; }
            case 1: { long d = rng.range(100, (long)(Y.end - Y.start)); expect("doy-only", fmt("%ld", d) + ct + of, format, init, day0(Y.start + d - 1) + frac + off, 0); break; }
            case 2: { int m = (int)rng.below(12); if (Y.len[m] < id) return; I s = Y.start; for (int i = 0; i < m; i++) s += Y.len[i];
                      expect("month-only", caser(std::string(mon[m]).substr(0, 3)) + ct + of, format, init, day0(s + id - 1) + frac + off, 0); break; }
            default: {                         /* nearest given weekday */
               int w = (int)rng.below(7), have = (int)calref::fmod_(ijd + 1, 7);
               int diff = w - have; if (diff > 3) diff -= 7; if (diff < -3) diff += 7;
               expect("weekday", caser(std::string(dow[w]).substr(0, 3 + rng.below(3))) + ct + of, format, init, day0(ijd + diff) + frac + off, 0);
            }
         }
         break;
      }
      case 16: {                              /* clock time only: date kept */
         LD f; std::string t = clock_text(&f);
         expect("time-only", t + of, format, init, day0(ijd) + f + off, 0);
         break;
      }
      case 17: {                              /* pure offsets and nothing else */
         LD o2; std::string t = offsets(&o2);
         if (t.empty()) { long v = rng.range(-500, 500); if (!v) return; expect("plain-days", fmt("%+ld", v), format, init, init + v, 0); }
         else expect("offset-only", t, format, init, init + o2, 0);
         break;
      }
      case 18: {                              /* d.m.y with dots */
         D d = rand_date(cal, 1000, 2500); if (cal == 7) d = rand_date(cal, 1000, 9000);
         std::string s = md ? fmt("%02d.%02d.%ld", d.m, d.d, (long)d.y) : fmt("%02d.%02d.%ld", d.d, d.m, (long)d.y);
         expect("dotted", s + ct + of, format, init, day0(d.jd) + frac + off, 0);
         break;
      }
      default: {                              /* two-digit years resolved by flags; small years without them */
         if (cal != 0 && cal != 6) { cal = 0; }
         int f2 = cal | ord;
         D d = rand_date(cal, 33, 99);
         std::string m = std::string(mon[d.m - 1]).substr(0, 3);
         std::string s = fmt("%d %s %ld", d.d, m.c_str(), (long)d.y);
         if (rng.below(2)) expect("small-year", s + ct + of, f2, init, day0(d.jd) + frac + off, 0);
         else {
            long cy = 1970 + (long)(time(NULL) / (1461 * 86400 / 4));
            I y = d.y + 1900; while (y < cy - 60) y += 100;
            int day = d.d; if (d.m == 2 && day == 29) day = 28;
            I jd = calref::greg_jd(y, d.m, day);
            expect("two-digit-year", fmt("%d %s %ld", day, m.c_str(), (long)d.y) + ct + of, f2 | FULL_CTIME_TWO_DIGIT_YEAR, init, day0(jd) + frac + off, 0);
         }
      }
   }
}
/* geocentric elongation of the Moon from the Sun, in degrees (Meeus, chapters 25 and 47) */
static double elongation(double t2k) {
   const double T = t2k / 36525, R = acos(-1.) / 180; double f[5];
   for (int i = 0; i < 5; i++) f[i] = MEEUS_FUND[i][0] + T * (MEEUS_FUND[i][1] + T * (MEEUS_FUND[i][2] + T * (MEEUS_FUND[i][3] + T * MEEUS_FUND[i][4])));
   double E = 1 - .002516 * T - .0000074 * T * T, lon = 0;
   for (int i = 0; i < 60; i++) { const int *a = MEEUS_LON[i]; double t = a[4] * sin((a[0] * f[1] + a[1] * f[2] + a[2] * f[3] + a[3] * f[4]) * R); for (int k = abs(a[1]); k; k--) t *= E; lon += t; }
   lon = f[0] + lon / 1e6;
   double M = f[2] * R, sun = 280.46646 + T * (36000.76983 + T * .0003032) + (1.914602 - .004817 * T) * sin(M) + (.019993 - .000101 * T) * sin(2 * M) + .000289 * sin(3 * M) - .00569;
   return fmod(fmod(lon - sun, 360) + 360, 360);
}
/* what the comments in the source promise beyond the ordinary styles */
static void wrinkles() {
   int cal = rng.chance(.5) ? 0 : 6, ord = ORDER[rng.below(4)], format = cal | ord;
   bool md = (ord & FULL_CTIME_MONTH_DAY) != 0, yf = (ord & FULL_CTIME_YEAR_FIRST) != 0;
   LD init = (LD)rng.uni(-60000, 40000), frac = 0, off = 0;
   std::string of = rng.chance(.3) ? offsets(&off) : "", ct;
   switch (rng.below(7)) {
      case 0: {                               /* three numbers, any of which could be anything: the flags decide */
         D d = rand_date(cal, 1, 31);
         std::string Y = fmt("%d", (int)d.y), M = fmt("%d", d.m), Dd = fmt("%d", d.d), s; std::string sep(1, "-/ "[rng.below(3)]);
         if (rng.below(2)) { ct = " " + clock_text(&frac); s = yf ? (md ? Y + sep + M + sep + Dd : Y + sep + Dd + sep + M) : md ? M + sep + Dd + sep + Y : Dd + sep + M + sep + Y; }
         else {
            long k = rng.range(1, 9999); Dd += fmt(".%04ld", k); frac = k / 10000.L;         /* the point tells the day; at either end, it puts the year at the other */
            switch (rng.below(3)) { case 0: s = Dd + sep + M + sep + Y; break; case 1: s = Y + sep + M + sep + Dd; break; default: s = yf ? Y + sep + Dd + sep + M : M + sep + Dd + sep + Y; }
         }
         expect("flags-decide", s + ct + of, format, init, day0(d.jd) + frac + off, 0);
         break;
      }
      case 1: {                               /* a named month between or beside two small numbers */
         D d = rand_date(cal, 1, 28); std::string m = caser(std::string(mon[d.m - 1]).substr(0, 3));
         int w = (int)rng.below(3); std::string s;
         if (w == 0) s = fmt("%s %d %d", m.c_str(), d.d, (int)d.y); else if (w == 1) s = fmt("%d %d %s", (int)d.y, d.d, m.c_str()); else s = yf ? fmt("%d %s %d", (int)d.y, m.c_str(), d.d) : fmt("%d %s %d", d.d, m.c_str(), (int)d.y);
         if (rng.below(2)) ct = " " + clock_text(&frac);
         expect("named-small", s + ct + of, format, init, day0(d.jd) + frac + off, 0);
         break;
      }
      case 2: {                               /* day of year before the year */
         D d = rand_date(0, 1000, 2500); calref::Year Y; calref::year_data(0, d.y, Y);
         long doy = rng.range(33, (long)(Y.end - Y.start)); if (rng.below(2)) ct = " " + clock_text(&frac);
         expect("doy-first", fmt("%ld%c%d", doy, " /-"[rng.below(3)], (int)d.y) + ct + of, ord, init, day0(Y.start) + doy - 1 + frac + off, 0);
         break;
      }
      case 3: {                               /* ':MM' and ':MM:SS' keep the hour; ':' alone keeps the time */
         LD fr = init + .5L - floorl(init + .5L); int h = (int)floorl(fr * 24), mi = (int)rng.below(60), se = (int)rng.below(60); if (fr * 24 - h < 1e-6 || fr * 24 - h > 1 - 1e-6) return;
         I j = (I)floorl(init + .5L) + 2451545; D d = rand_date(cal, 1000, 2500); bool dated = rng.below(2) != 0; if (dated) j = d.jd;
         std::string s = dated ? fmt("%d %s %d ", d.d, std::string(mon[d.m - 1]).substr(0, 3).c_str(), (int)d.y) : "", c; LD f;
         switch (rng.below(3)) { case 0: c = fmt(":%02d", mi); f = (h * 60 + mi) / 1440.L; break; case 1: c = fmt(":%02d:%02d", mi, se); f = (h * 3600 + mi * 60 + se) / 86400.L; break; default: c = ":"; f = fr; }
         if (cal == 6 && !dated && j < 2299161 + 400 && j > 2299161 - 400) return;
         expect("hour-kept", s + c + of, format, init, day0(j) + f + off, 0);
         break;
      }
      case 4: {                               /* a year BC is never completed to a century */
         D d = rand_date(cal, -98, -33); I Y = 1 - d.y; std::string m = std::string(mon[d.m - 1]).substr(0, 3);
         expect("bc-two-digit", fmt("%d %s %d BC", d.d, m.c_str(), (int)Y) + of, format | FULL_CTIME_TWO_DIGIT_YEAR, init, day0(d.jd) + off, 0);
         break;
      }
      case 5: {                               /* nearest new moon, quarter, full moon; offsets come after */
         int k = (int)rng.below(4); static const char *ph[4] = {"nm", "1q", "fm", "3q"};
         D d = rand_date(0, 1800, 2200); LD base = init; std::string s;
         if (fabsl(init) > 73000) return;
         if (rng.below(2)) { s = fmt("%d %s %d ", d.d, std::string(mon[d.m - 1]).substr(0, 3).c_str(), (int)d.y); base = day0(d.jd); }
         s += ph[k];
         cur("phase \"%s%s\" init=%.6Lf", s.c_str(), of.c_str(), init);
         int ut = -9; LD r = get_time_from_stringl(init, s.c_str(), ord, &ut);
         double e = fmod(elongation((double)r) - 90. * k + 540, 360) - 180;
         if (fabs(e) / 12.19 * 1440 > 8 || ut != 1) bad("phase-time", "'%s' gives t2k %.5Lf (flag %d), where the elongation is %.4f degrees off", s.c_str(), r, ut, e);
         if (fabsl(r - base) > 29.530588853L / 2 + 1.L) bad("phase-nearest", "'%s' asked for %.5Lf, gives %.5Lf", s.c_str(), base, r);
         if (!of.empty()) expect("phase-offset", s + of, ord, init, r + off, 1);
         count("phase"); seen(hdbl((double)r));
         break;
      }
      default: {                              /* week numbers must have five digits */
         std::string s = fmt("gps %0*d", 1 + (int)rng.below(4), (int)rng.below(10000)); int ut = 9; cur("'%s'", s.c_str());
         get_time_from_stringl(init, s.c_str(), ord, &ut); if (ut >= 0) bad("error-gps", "'%s' accepted", s.c_str()); count("gps-short");
      }
   }
}
static void errors() {
   static const char *words[] = {"xyzzy", "foo", "hello", "qqq", "ben", "%$#", "@", "zulu", "!!!", "x"};
   LD init = (LD)rng.uni(-50000, 50000);
   int fm = ORDER[rng.below(4)];
   std::string s = words[rng.below(10)];
   int n = 1 + (int)rng.below(3);
   for (int i = 1; i < n; i++) s += std::string(1, " /-"[rng.below(3)]) + words[rng.below(10)];
   cur("error \"%s\" init=%.6Lf", s.c_str(), init);
   int ut = 99;
   LD r = get_time_from_stringl(init, s.c_str(), fm, &ut);
   if (ut >= 0) bad("error-accepted", "gibberish \"%s\" accepted (flag %d, t2k %.6Lf)", s.c_str(), ut, r);
   if (n == 1 && r != init) bad("error-moved", "gibberish \"%s\" changed the time", s.c_str());
   std::string lng(80 + rng.below(300), '1');
   cur("too long %zu", lng.size());
   ut = 99; r = get_time_from_stringl(init, lng.c_str(), fm, &ut);
   if (ut >= 0 || r != init) bad("error-long", "over-long text accepted");
   ut = 99; r = get_time_from_stringl(init, "   ", fm, &ut);
   if (ut >= 0 || r != init) bad("error-blank", "blank text accepted");
   count("error");
   seen(hstr(s));
}
int main(int argc, char **argv) {
   init(argc, argv);
   static const char *styles[] = {"numeric", "named", "fits", "packed6", "packed8", "day-of-year", "jd", "jd7", "mjd", "decimal-year", "year", "gps", "unix", "bc", "ad", "negative-year", "two-field", "day-only", "doy-only", "month-only", "weekday", "time-only", "plain-days", "offset-only", "dotted", "small-year", "two-digit-year", "error", "am-pm", "offset", "flags-decide", "named-small", "doy-first", "hour-kept", "bc-two-digit", "phase", "phase-offset", "gps-short"};
   for (auto s : styles) need(s, 20);
   long n = budget(800000, 20000000);
   for (long i = 0; i < n; i++) one();
   for (long i = 0; i < n / 20; i++) errors();
   for (long i = 0; i < n / 8; i++) wrinkles();
   /* "now" */
   for (int i = 0; i < 5; i++) {
      cur("now"); time_t a = time(NULL); LD r = get_time_from_stringl(0, "now +1h", 0, NULL); time_t b = time(NULL);
      LD s = (r + 2451545.L - 2440587.5L) * 86400.L - 3600;
      /* "now" keeps only what follows it: the instant is somewhere between the two clock readings */
      if (s < (LD)a - 1 || s > (LD)b + 1) bad("now", "'now' gave unix time %.3Lf, clock %ld..%ld", s, (long)a, (long)b);
   }
   sample("styles observed: %zu", counters.size());
   for (int i = 0; i < 6; i++) { one(); sample("%s", curbuf ? curbuf : curfallback); }
   return finish();
}
