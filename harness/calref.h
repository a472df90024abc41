/* Independent reference calendars (Reingold/Dershowitz style arithmetic and
   frozen tables), used as oracles.  JD numbers are "noon" day numbers as in
   the library (2451545 = 1 January 2000 Gregorian). */
#ifndef CALREF_H
#define CALREF_H
#include <stdint.h>
#include <string.h>
#include "calref_data.h"
namespace calref {
typedef int64_t I;
static inline I fdiv(I a, I b) { I q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static inline I fmod_(I a, I b) { return a - b * fdiv(a, b); }

enum { GREG = 0, JUL = 1, HEB = 2, ISL = 3, REV = 4, PER = 5, JG = 6, CHI = 7, MPER = 8 };

/* ---- Gregorian / Julian: count from 1 March, era arithmetic ---- */
static inline I greg_jd(I y, int m, int d) {
   y -= m <= 2;
   I era = fdiv(y, 400), yoe = y - era * 400;
   I doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   I doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + doe - 719468 + 2440588;
}
static inline I jul_jd(I y, int m, int d) {
   y -= m <= 2;
   I era = fdiv(y, 4), yoe = y - era * 4;
   I doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   return era * 1461 + yoe * 365 + doy + 1721118;   /* 1 Mar 0 (Julian) = JD 1721118 */
}
static inline bool greg_leap(I y) { return fmod_(y, 4) == 0 && (fmod_(y, 100) != 0 || fmod_(y, 400) == 0); }
static inline bool jul_leap(I y) { return fmod_(y, 4) == 0; }

/* ---- Hebrew ---- */
static inline I heb_elapsed(I y) {           /* days from the epoch to 1 Tishri y, before year-length corrections */
   I months = fdiv(235 * y - 234, 19);
   I parts = 12084 + 13753 * months;
   I days = 29 * months + fdiv(parts, 25920);
   return (fmod_(3 * (days + 1), 7) < 3) ? days + 1 : days;
}
static inline I heb_newyear(I y) {
   I e0 = heb_elapsed(y - 1), e1 = heb_elapsed(y), e2 = heb_elapsed(y + 1);
   I corr = (e2 - e1 == 356) ? 2 : (e1 - e0 == 382) ? 1 : 0;
   return 347998 + e1 + corr;
}
static inline bool heb_leap(I y) { return fmod_(7 * y + 1, 19) < 7; }

/* ---- Islamic (tabular, civil epoch) ---- */
static inline I isl_newyear(I y) { return 1948440 + (y - 1) * 354 + fdiv(3 + 11 * y, 30); }

/* ---- modern (arithmetic) Persian, 2820-year cycle ---- */
static inline I mper_newyear(I y) {
   I n = y - 474, cyc = fdiv(n, 2820), yy = fmod_(n, 2820) + 474;
   return 1948321 + 1029983 * cyc + 365 * (yy - 1) + fdiv(31 * yy - 5, 128);
}
/* ---- astronomical Persian: frozen leap years -1096..2327 ---- */
static const int PER_LO = -1096, PER_HI = 2327;
static I per_ny[3500]; static bool per_init_done = false;
static inline void per_init() {
   if (per_init_done) return;
   per_init_done = true;
   I jd = PERSIAN_START_JD; size_t k = 0;
   for (int y = PER_LO; y <= PER_HI + 1; y++) {
      per_ny[y - PER_LO] = jd;
      bool leap = k < sizeof(persian_leaps) / sizeof(persian_leaps[0]) && persian_leaps[k] == y;
      if (leap) k++;
      jd += 365 + leap;
   }
}
/* ---- French Revolutionary (equinox based table, 2820-year rule outside) ---- */
static inline I rev_newyear(I y) {
   static const int brk[8] = {-814, -492, -331, -108, 0, 144, 301, 487};
   static const int del[9] = {405, 439, 498, 469, 419, 393, 322, 184, 92};
   int i = 0;
   while (i < 8 && y >= brk[i]) i++;
   I num = del[i] + y * 683;
   I q = num / 2820;                         /* truncating, as the table was built */
   return 2375475 + 365 * y + q - (i < 5 ? 1 : 0);
}
struct Year { I start, end; int n; int len[13]; int intercalary; };
/* chinese table */
static inline bool chi_year(I y, Year &o) {
   if (y < CHI_FIRST || y >= CHI_FIRST + CHI_N) return false;
   uint32_t p = chi_packed[y - CHI_FIRST];
   o.intercalary = (p >> 13) % 14;
   o.n = o.intercalary ? 13 : 12;
   if (o.intercalary) o.intercalary++;
   o.start = y * 365 + y / 4 + 757862 + (p >> 13) / 14;
   o.end = o.start;
   for (int i = 0; i < 13; i++) { o.len[i] = (i < o.n) ? (((p >> i) & 1) ? 30 : 29) : 0; o.end += o.len[i]; }
   return true;
}
/* Year structure of any calendar; false = not defined */
static inline bool year_data(int cal, I y, Year &o) {
   memset(&o, 0, sizeof o);
   static const int gl[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
   o.n = 12;
   switch (cal) {
      case GREG: case JUL:
         for (int i = 0; i < 12; i++) o.len[i] = gl[i];
         if (cal == GREG ? greg_leap(y) : jul_leap(y)) o.len[1] = 29;
         o.start = cal == GREG ? greg_jd(y, 1, 1) : jul_jd(y, 1, 1);
         o.end = cal == GREG ? greg_jd(y + 1, 1, 1) : jul_jd(y + 1, 1, 1);
         return true;
      case HEB: {
         o.start = heb_newyear(y); o.end = heb_newyear(y + 1);
         I L = o.end - o.start;
         bool leap = heb_leap(y);
         /* Tishri Heshvan Kislev Tevet Shevat Adar(I) AdarII Nisan Iyar Sivan Tammuz Av Elul */
         int base[13] = {30, 29, 30, 29, 30, 29, 0, 30, 29, 30, 29, 30, 29};
         if (leap) { base[5] = 30; base[6] = 29; }
         int k = (int)(L % 10);
         if (k == 3) base[2] = 29;
         if (k == 5) base[1] = 30;
         memcpy(o.len, base, sizeof base);
         o.n = 13;
         return true;
      }
      case ISL:
         o.start = isl_newyear(y); o.end = isl_newyear(y + 1);
         for (int i = 0; i < 12; i++) o.len[i] = 30 - (i & 1);
         o.len[11] = (int)(o.end - o.start - 325);
         return true;
      case REV:
         o.start = rev_newyear(y); o.end = rev_newyear(y + 1);
         for (int i = 0; i < 12; i++) o.len[i] = 30;
         o.len[12] = (int)(o.end - o.start - 360); o.n = 13;
         return true;
      case PER: case MPER:
         if (cal == PER) {
            if (y < PER_LO || y > PER_HI) return false;
            per_init();
            o.start = per_ny[y - PER_LO]; o.end = per_ny[y + 1 - PER_LO];
         } else { o.start = mper_newyear(y); o.end = mper_newyear(y + 1); }
         for (int i = 0; i < 11; i++) o.len[i] = i < 6 ? 31 : 30;
         o.len[11] = (int)(o.end - o.start - 336);
         return true;
      case CHI: return chi_year(y, o);
   }
   return false;
}
/* reference date of a day number, walking years from a guess */
static inline bool to_dmy(int cal, I jd, int *d, int *m, I *y, Year *yout = 0) {
   if (cal == JG) cal = jd >= 2299161 ? GREG : JUL;
   static const double epoch[9] = {1721060, 1721058, 347998 - 366, 1948440 - 354, 2375475, 1947955, 0, 757862 + 90, 1947955};
   static const double ylen[9] = {365.2425, 365.25, 365.2468222, 354.366666667, 365.24219858, 365.24219858, 0, 365.2425, 365.24219858};
   I g = (I)floor(((double)jd - epoch[cal]) / ylen[cal]);
   if (cal == PER) { if (g < PER_LO) g = PER_LO; if (g > PER_HI) g = PER_HI; }
   if (cal == CHI) { if (g < CHI_FIRST) g = CHI_FIRST; if (g > CHI_FIRST + CHI_N - 1) g = CHI_FIRST + CHI_N - 1; }
   for (int it = 0; it < 20000; it++) {
      Year Y;
      if (!year_data(cal, g, Y)) return false;
      if (jd < Y.start) { g--; continue; }
      if (jd >= Y.end) { g++; continue; }
      I r = jd - Y.start;
      for (int i = 0; i < 13; i++) {
         if (r < Y.len[i]) { *d = (int)r + 1; *m = i + 1; *y = g; if (yout) *yout = Y; return true; }
         r -= Y.len[i];
      }
      return false;
   }
   return false;
}
} // namespace
#endif
