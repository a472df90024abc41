/* P05: Easter against the ecclesiastical epact tables (Lilius/Clavius) and the Julian lunar cycle. */
#include "vh.h"
#include "calref.h"
using namespace vh;
void easter_date(const long year, int *month, int *day);
void easter_date_julian(const long year, int *month, int *day);

/* first Sunday strictly after the paschal full moon given as JD */
static int64_t sunday_after(int64_t jd) { do jd++; while (((jd + 1) % 7 + 7) % 7 != 0); return jd; }
static int64_t greg(int64_t y) {
   int64_t golden = calref::fmod_(y, 19) + 1, cent = calref::fdiv(y, 100) + 1;
   int64_t solar = calref::fdiv(3 * cent, 4) - 12;         /* dropped leap days */
   int64_t lunar = calref::fdiv(8 * cent + 5, 25) - 5;      /* moon correction */
   int64_t epact = calref::fmod_(11 * golden + 20 + lunar - solar, 30);
   if ((epact == 25 && golden > 11) || epact == 24) epact++;
   int64_t full = 44 - epact; if (full < 21) full += 30;    /* day of March */
   return sunday_after(calref::greg_jd(y, 3, 1) + full - 1);
}
static int64_t jul(int64_t y) {
   int64_t golden = calref::fmod_(y, 19) + 1;
   int64_t epact = calref::fmod_(11 * (golden - 1) + 8, 30);   /* Julian epacts */
   int64_t full = 44 - epact; if (full < 21) full += 30;
   return sunday_after(calref::jul_jd(y, 3, 1) + full - 1);
}
static void one(long y, bool g) {
   cur("%s Easter of %ld", g ? "Gregorian" : "Julian", y);
   int m = -1, d = -1;
   if (g) easter_date(y, &m, &d); else easter_date_julian(y, &m, &d);
   int64_t want = g ? greg(y) : jul(y);
   if (!((m == 3 && d >= 22 && d <= 31) || (m == 4 && d >= 1 && d <= 25))) { bad(g ? "range" : "jrange", "%d/%d", m, d); return; }
   int64_t got = g ? calref::greg_jd(y, m, d) : calref::jul_jd(y, m, d);
   if (got != want) bad(g ? "computus" : "jcomputus", "returned month %d day %d, %+ld days from the computus", m, d, (long)(got - want));
   if (((got + 1) % 7 + 7) % 7) bad(g ? "sunday" : "jsunday", "month %d day %d is no Sunday", m, d);
   count(g ? "gregorian years" : "julian years");
   seen(mix(y, g));
   if (y % 700001 == 2) sample("%d %ld: %d/%d", g, y, m, d);
}
int main(int argc, char **argv) {
   init(argc, argv);
   long top = 5700000;                                  /* one whole period */
   for (long y = 0; y < top; y++) if (mine(y)) one(y, true);
   for (long y = 0; y < (thorough ? 2000000 : 60000); y++) if (mine(y)) one(y, false);
   for (long k = 0, n = budget(400000, 20000000); k < n; k++) {
      long y = (long)rng.logu(1, 2e9);
      one(y, true); one(y, false);
      int m, d, m2, d2; easter_date(y, &m, &d); easter_date(y + 5700000, &m2, &d2);
      if (m != m2 || d != d2) bad("period", "year %ld and 5.7 million years later differ", y);
      easter_date_julian(y, &m, &d); easter_date_julian(y + 532, &m2, &d2);
      if (m != m2 || d != d2) bad("jperiod", "year %ld and 532 years later differ", y);
   }
   /* the program's own lists */
   for (long k = 0, n = budget(160, 2000); k < n; k++) {
      std::string out; int rc;
      if (k % 2) {
         long y0 = rng.chance(.5) ? rng.range(0, 9900) : rng.range(1500, 2300);
         cur("easter %ld", y0);
         rc = run({tools + "/easter", std::to_string(y0)}, &out);
         int found = 0;
         for (const char *p = out.c_str(); *p;) {
            long y; char mn[10]; int d, n2 = 0;
            if (sscanf(p, "%ld %3s %d%n", &y, mn, &d, &n2) == 3 && n2) {
               int m = !strcmp(mn, "Mar") ? 3 : 4;
               if (y < y0 || y >= y0 + 75) bad("list-year", "year %ld in a list from %ld", y, y0);
               else if (y >= 1583 ? calref::greg_jd(y, m, d) != greg(y) : calref::jul_jd(y, m, d) != jul(y)) bad("list-date", "%ld %s %d", y, mn, d);
               found++; p += n2;
            } else { while (*p && *p != '\n') p++; if (*p) p++; }
         }
         if (found != 75) bad("list-count", "%d dates in the 75-year list", found);
         count("year lists");
      } else {
         int m = (int)rng.range(3, 4), d = m == 3 ? (int)rng.range(22, 31) : (int)rng.range(1, 25);
         cur("easter %d %d", m, d);
         rc = run({tools + "/easter", std::to_string(m), std::to_string(d)}, &out);
         std::vector<long> want, got;
         for (long y = 1583; y < 10000; y++) if (greg(y) == calref::greg_jd(y, m, d)) want.push_back(y);
         size_t e = out.find(" found over"); std::string body = out.substr(0, e == std::string::npos ? out.size() : out.rfind('\n', e));
         const char *p = body.c_str(); char *q;
         for (;;) { long v = strtol(p, &q, 10); if (q == p) break; got.push_back(v); p = q; }
         if (e == std::string::npos) bad("day-list", "no total");
         else { long tot = atol(out.c_str() + out.rfind('\n', e) + 1); if (tot != (long)want.size()) bad("day-list", "total %ld, expected %zu", tot, want.size()); }
         if (got != want) bad("day-list", "%zu years listed, %zu expected", got.size(), want.size());
         count("day lists");
      }
      if (rc != 0) bad("tool", "easter exited %d", rc);
   }
   need("year lists", 10); need("day lists", 10);
   return finish();
}
