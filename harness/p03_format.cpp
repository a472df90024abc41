/* P03: instant -> text.  The text is parsed by an independent reader that
   follows the documented layout for the flags in use. */
#include "vh.h"
#include "calref.h"
#include "watdefs.h"
#include "date.h"
using namespace vh;
using calref::I;
typedef long double LD;
static const char *mon[13] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "M13"};
static const char *dow[7] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const int cals[9] = {0, 1, 2, 3, 4, 5, 6, 7, 8};

static std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t j = i; while (j < s.size() && s[j] != ' ') j++; if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
static std::string strip(std::string s, char c) { s.erase(std::remove(s.begin(), s.end(), c), s.end()); return s; }
static bool isnum(const std::string &s) { if (s.empty()) return false; size_t i = (s[0] == '-'); if (i == s.size()) return false; bool dot = false; for (; i < s.size(); i++) { if (s[i] == '.') { if (dot) return false; dot = true; } else if (!isdigit((unsigned char)s[i])) return false; } return true; }
static int decimals(const std::string &s) { size_t p = s.find('.'); return p == std::string::npos ? 0 : (int)(s.size() - p - 1); }

static LD unit_days(int of) {
   switch (of) {
      case FULL_CTIME_FORMAT_SECONDS: return 1 / 86400.L;
      case FULL_CTIME_FORMAT_HH_MM: return 1 / 1440.L;
      case FULL_CTIME_FORMAT_HH: return 1 / 24.L;
      case FULL_CTIME_FORMAT_YEAR: return 365.25L;
      default: return 1;
   }
}
/* allowed interval of (t - shown) */
static void window(int f, LD t, LD *lo, LD *hi) {
   int prec = (f >> 4) & 15, of = f & FULL_CTIME_FORMAT_MASK;
   LD step = unit_days(of) / powl(10, prec);
   LD guard = 0.05L / 86400.L / powl(10, prec);
   LD eps = 1e-13L + fabsl(t) * 3e-19L;
   if (of == FULL_CTIME_FORMAT_JD || of == FULL_CTIME_FORMAT_MJD) { eps += 1e-12L; *lo = -step * .5L - guard - eps; *hi = step * .5L + eps; if (f & FULL_CTIME_ROUNDING) { *lo = -step - eps; *hi = eps; } return; }
   if (f & FULL_CTIME_ROUNDING) {
      if (of == FULL_CTIME_FORMAT_YEAR) { *lo = -step - eps; *hi = step + eps; return; }
      *lo = -step * .5L - eps; *hi = step * .5L + eps;
   } else { *lo = -guard - eps; *hi = step + eps; }
}
struct Shown { bool hasdate, hastime; I jd; LD day; std::string text; bool ok; };

static void check(LD t, int f, std::string *outtxt = NULL) {
   int cal = f & CALENDAR_MASK, prec = (f >> 4) & 15, of = f & FULL_CTIME_FORMAT_MASK;
   char buf[160]; memset(buf, 'Z', sizeof buf);
   cur("t2k=%.15Lf format=0x%06x", t, f);
   full_ctimel(buf, t, f);
   if (!memchr(buf, 0, 81)) { bad("unterminated", "no terminator within 80 bytes"); return; }
   std::string s = buf;
   if (outtxt) *outtxt = s;
   LD lo, hi; window(f, t, &lo, &hi);
   if (of == FULL_CTIME_FORMAT_JD || of == FULL_CTIME_FORMAT_MJD) {
      std::string u = s; LD base = 2451545.L;
      if (of == FULL_CTIME_FORMAT_MJD) { if (u.substr(0, 1) != "M") { bad("jd-text", "'%s'", s.c_str()); return; } u = u.substr(1); base -= 2400000.5L; }
      if (u.substr(0, 3) != "JD ") { bad("jd-text", "'%s'", s.c_str()); return; }
      u = u.substr(3);
      if (!isnum(u) || decimals(u) != prec) { bad("jd-text", "'%s'", s.c_str()); return; }
      LD v = strtold(u.c_str(), NULL) - base;
      if (t - v < lo || t - v > hi) bad("jd-value", "'%s' shown for t2k %.15Lf (off %.3Lg d)", s.c_str(), t, t - v);
      count("jd/mjd"); seen(mix(hstr(s), (uint64_t)f)); return;
   }
   if (of == FULL_CTIME_FORMAT_YEAR) {
      std::string u = strip(s, ' ');
      if (f & FULL_CTIME_LEADING_ZEROES) { if (s.find(' ') != std::string::npos) bad("year-text", "'%s' has blanks", s.c_str()); }
      if (!isnum(u) && !(f & FULL_CTIME_LEADING_ZEROES)) { bad("year-text", "'%s'", s.c_str()); return; }
      if (decimals(u) != prec) { bad("year-text", "'%s' for %d decimals", s.c_str(), prec); return; }
      LD v = (strtold(u.c_str(), NULL) - 2000) * 365.25L;
      LD step = 365.25L / powl(10, prec);
      LD y = t / 365.25L + 2000;
      if (y < 0) { LD sl = .5L / powl(10, prec) + 1e-9L; lo = -step - sl; hi = step + sl; }
      hi += 1e-13L * 365; lo -= 1e-13L * 365;
      if (!(f & FULL_CTIME_LEADING_ZEROES && y < 0))
      if (t - v < lo || t - v > hi) bad("year-value", "'%s' shown for t2k %.15Lf (year %.12Lf)", s.c_str(), t, y);
      count("decimal-year"); seen(mix(hstr(s), (uint64_t)f)); return;
   }
   if (f & (FULL_CTIME_NO_SPACES | FULL_CTIME_NO_COLONS)) {
      /* layout-only flags: same text with the separators dropped */
      char b2[160]; full_ctimel(b2, t, f & ~(FULL_CTIME_NO_SPACES | FULL_CTIME_NO_COLONS));
      std::string w = b2;
      if (f & FULL_CTIME_NO_SPACES) w = strip(w, ' ');
      if (f & FULL_CTIME_NO_COLONS) w = strip(w, ':');
      if (w != s) bad("separators", "'%s' but without the flag '%s'", s.c_str(), b2);
      count("no-separators"); seen(mix(hstr(s), (uint64_t)f)); return;
   }
   std::vector<std::string> v = split(s);
   size_t k = 0;
   std::string dwf, dwl;
   if (f & FULL_CTIME_DAY_OF_WEEK_FIRST) { if (v.empty()) { bad("text", "'%s'", s.c_str()); return; } dwf = v[k++]; }
   if (f & FULL_CTIME_DAY_OF_WEEK_LAST) { if (v.empty()) { bad("text", "'%s'", s.c_str()); return; } dwl = v.back(); v.pop_back(); }
   bool date = !(f & FULL_CTIME_TIME_ONLY), clock = of != FULL_CTIME_FORMAT_DAY;
   LD shown = 0; I jd = 0; bool jdknown = false, yearknown = true;
   LD dayfrac = 0; std::string ys;
   I y = 0; int m = 0, d = 0; long doy = 0;
   if (date) {
      bool hasyear = !(f & FULL_CTIME_NO_YEAR);
      if (hasyear && (f & FULL_CTIME_YEAR_FIRST)) { if (k < v.size()) ys = v[k++]; }
      std::string ds, ms;
      if (f & FULL_CTIME_DAY_OF_YEAR) { if (k < v.size()) ds = v[k++]; }
      else if (k + 1 < v.size()) { if (f & FULL_CTIME_MONTH_DAY) { ms = v[k++]; ds = v[k++]; } else { ds = v[k++]; ms = v[k++]; } }
      if (hasyear && !(f & FULL_CTIME_YEAR_FIRST)) { if (k < v.size()) ys = v[k++]; }
      if (!isnum(ds) || (hasyear && !isnum(ys))) { bad("text", "'%s' for format 0x%x", s.c_str(), f); return; }
      if (!clock && decimals(ds) != prec) { bad("text", "'%s' lacks %d decimals", s.c_str(), prec); return; }
      if (clock && decimals(ds)) { bad("text", "'%s' decimals in the day", s.c_str()); return; }
      size_t p = ds.find('.');
      dayfrac = p == std::string::npos ? 0 : strtold(("0" + ds.substr(p)).c_str(), NULL);
      if (f & FULL_CTIME_DAY_OF_YEAR) doy = atol(ds.c_str());
      else {
         d = atoi(ds.c_str());
         if (f & FULL_CTIME_MONTHS_AS_DIGITS) { if (!isnum(ms)) { bad("text", "'%s'", s.c_str()); return; } m = atoi(ms.c_str()); }
         else for (int i = 0; i < 13; i++) if (ms == mon[i]) m = i + 1;
         if (m < 1 || m > 13) { bad("text", "'%s': month '%s'", s.c_str(), ms.c_str()); return; }
         if (f & FULL_CTIME_LEADING_ZEROES) { size_t ip = p == std::string::npos ? ds.size() : p; if (ip != 2 || ((f & FULL_CTIME_MONTHS_AS_DIGITS) && ms.size() != 2)) bad("leading-zeroes", "'%s'", s.c_str()); }
      }
      /* candidate day: the real day or its neighbours, whichever the text says */
      int rd, rm; I ry;
      I j0 = (I)floorl(t + .5L) + 2451545;
      for (I j = j0 - 1; j <= j0 + 1 && !jdknown; j++) {
         if (!calref::to_dmy(cal, j, &rd, &rm, &ry)) continue;
         calref::Year Y; calref::year_data(cal == 6 ? (ry >= 1583 ? 0 : 1) : cal, ry, Y);
         bool okd = (f & FULL_CTIME_DAY_OF_YEAR) ? doy == j - Y.start + 1 : rd == d && rm == m;
         bool oky = !hasyear || ((f & FULL_CTIME_TWO_DIGIT_YEAR) ? atol(ys.c_str()) == llabs(ry % 100) && ys.size() == 2 : atol(ys.c_str()) == ry);
         if (okd && oky) { jd = j; jdknown = true; }
      }
      if (!jdknown) { bad("date", "'%s' is not the date of t2k %.12Lf (calendar %d)", s.c_str(), t, cal); return; }
      if (hasyear && (f & FULL_CTIME_LEADING_ZEROES) && !(f & FULL_CTIME_TWO_DIGIT_YEAR) && ys.size() < 4) bad("leading-zeroes", "year in '%s'", s.c_str());
      (void)y; (void)yearknown;
   }
   LD tf = dayfrac;
   if (clock) {
      if (k >= v.size()) { bad("text", "'%s' has no time", s.c_str()); return; }
      std::string c = v[k++];
      int h = -1, mi = -1; LD sec = -1, x = 0; bool good = true;
      size_t c1 = c.find(':'), c2 = c1 == std::string::npos ? c1 : c.find(':', c1 + 1);
      if (of == FULL_CTIME_FORMAT_SECONDS) {
         if (c1 == std::string::npos || c2 == std::string::npos) good = false;
         else { h = atoi(c.c_str()); mi = atoi(c.substr(c1 + 1).c_str()); std::string q = c.substr(c2 + 1); sec = strtold(q.c_str(), NULL);
            good = isnum(q) && decimals(q) == prec && h >= 0 && h < 24 && mi >= 0 && mi < 60 && sec >= 0 && sec < 60 && c2 - c1 == 3 && q.size() == (size_t)(prec ? prec + 3 : 2);
            x = (h * 3600 + mi * 60 + sec) / 86400.L; }
      } else if (of == FULL_CTIME_FORMAT_HH_MM) {
         if (c1 == std::string::npos) good = false;
         else { h = atoi(c.c_str()); std::string q = c.substr(c1 + 1); LD mm = strtold(q.c_str(), NULL);
            good = isnum(q) && decimals(q) == prec && h >= 0 && h < 24 && mm >= 0 && mm < 60 && q.size() == (size_t)(prec ? prec + 3 : 2); x = (h * 60 + mm) / 1440.L; }
      } else { LD hh = strtold(c.c_str(), NULL); good = isnum(c) && decimals(c) == prec && hh >= 0 && hh < 24; x = hh / 24; }
      if (!good) { bad("clock", "'%s': clock field '%s'", s.c_str(), c.c_str()); return; }
      if ((f & FULL_CTIME_LEADING_ZEROES) && (c.size() < 2 || !isdigit((unsigned char)c[1]))) bad("leading-zeroes", "clock in '%s'", s.c_str());
      tf = x;
   }
   if (k != v.size()) { bad("text", "unexpected text in '%s'", s.c_str()); return; }
   LD tt = t + .5L;
   LD df;
   if (date) { shown = (LD)(jd - 2451545) + tf; df = tt - shown; }
   else if (!clock) { count("time-only-day"); return; }
   else { df = tt - floorl(tt) - tf; if (df < -.5L) df += 1; if (df > .5L) df -= 1; }
   if (date || clock) {
      if (df < lo || df > hi) bad("value", "'%s' shown for t2k %.15Lf: off by %.4Lg d (allowed %.3Lg..%.3Lg)", s.c_str(), t, df, lo, hi);
   }
   /* weekday of the shown day (or of the instant if no date is shown) */
   for (int w = 0; w < 2; w++) {
      const std::string &dn = w ? dwl : dwf;
      if (dn.empty()) continue;
      bool ok;
      if (date) ok = dn == dow[calref::fmod_(jd + 1, 7)];
      else { I j = (I)floorl(t + .5L) + 2451545; ok = dn == dow[calref::fmod_(j + 1, 7)] || dn == dow[calref::fmod_(j + 2, 7)]; }
      if (!ok) bad("weekday", "'%s': wrong weekday", s.c_str());
      count("weekday");
   }
   count(date ? (clock ? "date+time" : "date") : "time");
   if (f & FULL_CTIME_ROUNDING) count("rounded");
   seen(mix(hstr(s), (uint64_t)f));
}
static LD rand_t(int cal) {
   LD lo = -2000000, hi = 1000000;
   if (cal == 5) { lo = -900000; hi = 346000; }
   if (cal == 7) { lo = -1800000; hi = 1700000; }
   if (rng.chance(.5)) { lo = -60000; hi = 60000; }
   LD day = floorl((LD)rng.uni((double)lo, (double)hi)) + .5L;
   LD t = day;
   switch (rng.below(6)) {
      case 0: t += (LD)rng.uni(); break;
      case 1: t += (LD)rng.below(86400) / 86400.L; break;
      case 2: t += (LD)rng.below(1440) / 1440.L + (rng.below(2) ? 1 : -1) * (LD)rng.logu(1e-14, 1e-5); break;
      case 3: t += (rng.below(2) ? 1 : -1) * (LD)rng.logu(1e-15, 1e-3); break;
      case 4: t += (LD)rng.below(864000000) / 864000000.L + (rng.below(2) ? 1 : -1) * (LD)rng.logu(1e-14, 1e-8); break;
      default: t += (LD)rng.below(24) / 24.L + (rng.below(2) ? 1 : -1) * (LD)rng.logu(1e-15, 1e-4);
   }
   return t;
}
static void split_check(LD t, int cal) {
   long y; int m, d, h, mi;
   cur("split t2k=%.15Lf cal=%d", t, cal);
   LD s = split_timel(t, &y, &m, &d, &h, &mi, cal);
   if (h < 0 || h > 23 || mi < 0 || mi > 59 || !(s >= 0 && s < 60.0000001L)) bad("split-range", "%ld %d %d %d:%d:%.12Lf", y, m, d, h, mi, s);
   int rd, rm; I ry; bool ok = false;
   I j0 = (I)floorl(t + .5L) + 2451545;
   for (I j = j0; j <= j0 + 1; j++) if (calref::to_dmy(cal, j, &rd, &rm, &ry) && rd == d && rm == m && ry == y) {
      LD back = (LD)(j - 2451545) - .5L + (h * 3600 + mi * 60 + s) / 86400.L;
      ok = true;
      if (fabsl(back - t) > 2e-15L * 10 + fabsl(t) * 2e-19L) bad("split-value", "recombined %.15Lf", back);
   }
   if (!ok) bad("split-date", "%ld-%d-%d", y, m, d);
   double s2 = split_time((double)(t + 2451545.L), &y, &m, &d, &h, &mi, cal);
   if (h < 0 || h > 23 || mi < 0 || mi > 59 || !(s2 >= 0 && s2 < 60.000001)) bad("split-range", "double: %d:%d:%f", h, mi, s2);
   {
      double jd = (double)(t + 2451545.L);
      long y2; int m2; double dd = decimal_day_to_dmy(jd, &y2, &m2, cal);
      I j = (I)floor(jd + .5);
      if (!calref::to_dmy(cal, j, &rd, &rm, &ry) || ry != y2 || rm != m2 || fabs(dd - (rd + (jd + .5 - floor(jd + .5)))) > 1e-8) bad("decimal-day", "JD %.9f -> %ld %d %.9f", jd, y2, m2, dd);
   }
   count("split");
   seen(mix(hstr(curbuf ? curbuf : curfallback, strlen(curbuf ? curbuf : curfallback)), 5));
}
int main(int argc, char **argv) {
   init(argc, argv);
   set_month_name(13, "M13");
   for (auto k : {"date+time", "date", "time", "weekday", "rounded", "jd/mjd", "decimal-year", "no-separators", "split", "exact-second", "monotone"}) need(k, 50);
   long n = budget(1200000, 24000000);
   for (long i = 0; i < n; i++) {
      int cal = rng.chance(.4) ? 0 : cals[rng.below(9)];
      LD t = rand_t(cal);
      { int rd, rm; I ry; I j = (I)floorl(t + .5L) + 2451545; if (!calref::to_dmy(cal, j, &rd, &rm, &ry) || !calref::to_dmy(cal, j + 1, &rd, &rm, &ry)) continue; }
      int f = cal | ((int)rng.below(16) << 4) | ((int)rng.below(7) << 8);
      if (rng.chance(.5)) f &= ~FULL_CTIME_FORMAT_MASK;
      for (int b = 11; b <= 23; b++) if (rng.chance(b == 14 ? .15 : b == 20 || b == 22 ? .08 : .3)) f |= 1 << b;
      check(t, f);
      if (rng.chance(.15)) split_check(t, cal);
      if (rng.chance(.2)) {
         /* a JD double nearest to a whole second displays exactly that second */
         I j = 2451545 + rng.range(-700000, 300000); long sod = rng.range(0, 86399);
         double jd = (double)((LD)j - .5L + sod / 86400.L);
         int p = (int)rng.below(3);
         int ff = (p << 4) | FULL_CTIME_YMD | FULL_CTIME_MONTHS_AS_DIGITS | FULL_CTIME_LEADING_ZEROES | (rng.below(2) ? FULL_CTIME_ROUNDING : 0);
         char buf[100], want[140]; cur("exact second JD=%.9f format=0x%x", jd, ff); full_ctime(buf, jd, ff);
         int rd, rm; I ry; calref::to_dmy(0, j, &rd, &rm, &ry);
         snprintf(want, sizeof want, "%04ld %02d %02d %02ld:%02ld:%02ld%s", (long)ry, rm, rd, sod / 3600, sod / 60 % 60, sod % 60, p == 0 ? "" : p == 1 ? ".0" : ".00");
         if (strcmp(buf, want)) bad("exact-second", "'%s', instant is '%s'", buf, want);
         count("exact-second");
      }
      if (rng.chance(.1)) {
         /* a later instant never shows an earlier time */
         int ff = ((int)rng.below(8) << 4) | FULL_CTIME_YMD | FULL_CTIME_MONTHS_AS_DIGITS | FULL_CTIME_LEADING_ZEROES | (rng.below(2) ? FULL_CTIME_ROUNDING : 0) | ((int)rng.below(4) << 8);
         LD t1 = fabsl(t) > 700000 ? t / 4 : t, t2 = t1 + (LD)rng.logu(1e-12, 1.);
         char a[100], b[100]; cur("monotone t=%.15Lf then %.15Lf format=0x%x", t1, t2, ff); full_ctimel(a, t1, ff); full_ctimel(b, t2, ff);
         if (strlen(a) == strlen(b) && strcmp(a, b) > 0 && a[0] != '-') bad("monotone", "'%s' then '%s'", a, b);
         count("monotone");
      }
   }
   for (int i = 0; i < 8; i++) { std::string o; int f = (int)(rng.next() & 0xffe7f0) & ~FULL_CTIME_FORMAT_MASK; LD t = rand_t(0); check(t, f, &o); sample("t2k %.12Lf format 0x%x -> '%s'", t, f, o.c_str()); }
   return finish();
}
