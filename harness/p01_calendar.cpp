/* P01: day number <-> calendar date is an exact, gap-free bijection that
   follows each calendar's own rules (independent reference: calref.h). */
#include "vh.h"
#include "calref.h"
#include "watdefs.h"
#include "date.h"
using namespace vh;
using calref::I;
static const char *cn[9] = {"gregorian", "julian", "hebrew", "islamic", "revolutionary", "persian", "jul-greg", "chinese", "modern-persian"};

static void check_day(int cal, long jd) {
   int d = -999, m = -999; long y = -99999;
   cur("day cal=%s jd=%ld", cn[cal], jd);
   int rd, rm; I ry; calref::Year Y;
   bool have = calref::to_dmy(cal, jd, &rd, &rm, &ry, &Y);
   day_to_dmy(jd, &d, &m, &y, cal);
   if (!have) {
      count("outside-table");
      if (d != -1) bad(std::string("range-") + cn[cal], "jd %ld lies outside the calendar's table but gave %d/%d/%ld", jd, d, m, y);
      return;
   }
   seen(mix(mix((uint64_t)cal, (uint64_t)jd), 77));
   if (d != rd || m != rm || y != ry)
      bad(std::string("todate-") + cn[cal], "jd %ld -> %ld-%d-%d, calendar rules give %ld-%d-%d", jd, y, m, d, (long)ry, rm, rd);
   long back = dmy_to_day(rd, rm, (long)ry, cal);
   if (back != jd)
      bad(std::string("tojd-") + cn[cal], "%ld-%d-%d -> %ld, calendar rules give %ld", (long)ry, rm, rd, back, jd);
   int dim = days_in_month(rm, (long)ry, cal);
   if (dim != Y.len[rm - 1] || rd > dim)
      bad(std::string("monthlen-") + cn[cal], "days_in_month(%d,%ld)=%d, rules give %d", rm, (long)ry, dim, Y.len[rm - 1]);
   if (cal == 7 && get_chinese_intercalary_month() != Y.intercalary)
      bad("intercalary", "year %ld: intercalary month %d, table says %d", (long)ry, get_chinese_intercalary_month(), Y.intercalary);
   count(cn[cal]);
}
static void check_year(int cal, long y) {
   cur("year cal=%s year=%ld", cn[cal], y);
   calref::Year Y, Z;
   if (!calref::year_data(cal, y, Y)) { if (dmy_to_day(1, 1, y, cal) != 0) bad(std::string("yrange-") + cn[cal], "year %ld is outside the table but has a new year", y); return; }
   long tot = 0;
   for (int m = 1; m <= 13; m++) {
      int dim = days_in_month(m, y, cal);
      if (dim != Y.len[m - 1]) bad(std::string("monthlen-") + cn[cal], "year %ld month %d has %d days, rules give %d", y, m, dim, Y.len[m - 1]);
      long s = dmy_to_day(1, m, y, cal);
      if (s != Y.start + tot) bad(std::string("monthstart-") + cn[cal], "year %ld month %d starts %ld, rules give %ld", y, m, s, (long)(Y.start + tot));
      /* the day after the last day of a month is the first of the next non-empty month */
      tot += Y.len[m - 1];
   }
   if (calref::year_data(cal, y + 1, Z)) {
      long nxt = dmy_to_day(1, 1, y + 1, cal);
      if (nxt != Y.start + tot) bad(std::string("gap-") + cn[cal], "year %ld ends %ld but year %ld starts %ld", y, (long)(Y.start + tot), y + 1, nxt);
   }
   count("years");
   seen(mix(mix((uint64_t)cal + 100, (uint64_t)y), 78));
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (int c = 0; c < 9; c++) need(cn[c], 10000);
   need("years", 10000); need("hebrew-cycle", 680000); need("outside-table", 10);
   /* 1. every day over the historical and near span */
   const long lo = thorough ? -3000000 : 1400000, hi = thorough ? 7000000 : 2900000;
   for (int c = 0; c < 9; c++)
      for (long jd = lo + shard; jd <= hi; jd += nshards) check_day(c, jd);
   if (!thorough)
      for (int c = 0; c < 9; c++) for (long jd = -1000000 + shard * 3; jd < 5000000; jd += nshards * 3 + (long)(seed % 5) + 1) check_day(c, jd);
   /* 2. every year: month lengths, starts, contiguity; days around both ends of each year */
   for (int c = 0; c < 9; c++) {
      if (c == 6) continue;
      long ylo = thorough ? -20000 : -9000, yhi = thorough ? 20000 : 12000;
      for (long y = ylo + shard; y <= yhi; y += nshards) {
         check_year(c, y);
         calref::Year Y;
         if (calref::year_data(c, y, Y)) for (long k = -2; k <= 2; k++) check_day(c, (long)Y.start + k);
      }
   }
   /* the Hebrew new year depends on the exact fraction of a day at which the moon is new: every fraction comes up once in 689472 years */
   for (long y = -300000 + shard; y < 389472; y += nshards) { check_year(2, y); count("hebrew-cycle"); }
   /* 3. far past and future, as long as 32-bit day numbers reach */
   long n = budget(400000, 20000000);
   for (long i = 0; i < n; i++) {
      int c = (int)rng.below(9);
      long jd;
      switch (rng.below(4)) {
         case 0: jd = rng.range(-30000000, 30000000); break;
         case 1: jd = rng.range(-2000000000L, 2000000000L); break;
         case 2: { calref::Year Y; if (c == 6 || !calref::year_data(c, rng.range(-4000000, 4000000), Y)) { jd = rng.range(2299160 - 400, 2299160 + 400); } else jd = (long)Y.start + rng.range(-3, 3); break; }
         default: jd = rng.range(-30000000, 30000000); break;
      }
      check_day(c, jd);
   }
   for (long i = 0; i < n / 20; i++) { int c = (int)rng.below(9); if (c == 6) continue; check_year(c, rng.range(-5000000, 5000000)); }
   /* 4. the 1582 switch: valid dates on either side */
   for (long jd = 2298000; jd < 2300400; jd++) check_day(6, jd);
   int d, m; long y;
   for (long jd = 2298000; jd < 2300400; jd++) { day_to_dmy(jd, &d, &m, &y, 6); if (sample, jd >= 2299158 && jd <= 2299163) sample("julian/gregorian jd %ld -> %ld-%02d-%02d", jd, y, m, d); }
   return finish();
}
