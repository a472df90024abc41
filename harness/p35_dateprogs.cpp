/* P35: the date programs print what the calendars say.  jd: one instant in every calendar; calendar: the page of a
   month; utc_test: the published leap seconds; gtest: Greenwich sidereal time four ways.  Oracle: calref.h + tables. */
#include "vh.h"
#include "calref.h"
#include "watdefs.h"
#include "afuncs.h"
using namespace vh;
using calref::I;
typedef std::vector<std::string> SV;
static const char *mon3[12] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
static const char *monl[12] = {"January","February","March","April","May","June","July","August","September","October","November","December"};
static const char *dow3[7] = {"Sun","Mon","Tue","Wed","Thu","Fri","Sat"};
static const char *dowl[7] = {"Sunday","Monday","Tuesday","Wednesday","Thursday","Friday","Saturday"};
static SV lines(const std::string &s) { SV v; std::string c; for (char ch : s) if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; if (!c.empty()) v.push_back(c); return v; }
static I jg(I y, int m, int d) { I j = calref::greg_jd(y, m, d); return j >= 2299161 ? j : calref::jul_jd(y, m, d); }
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static int leap_tai(double mjd) {            /* TAI-UTC from 1972 on */
   static const int L[][2] = {{1972,1},{1972,7},{1973,1},{1974,1},{1975,1},{1976,1},{1977,1},{1978,1},{1979,1},{1980,1},{1981,7},{1982,7},{1983,7},{1985,7},{1988,1},{1990,1},{1991,1},{1992,7},{1993,7},{1994,7},{1996,1},{1997,7},{1999,1},{2006,1},{2009,1},{2012,7},{2015,7},{2017,1}};
   int n = 9; for (auto &l : L) if (mjd >= (double)(calref::greg_jd(l[0], l[1], 1) - 2400001)) n++;
   return n;
}
/* ---------------- jd ---------------- */
static void do_jd(long n) {
   static const char *names[9] = {"Gregorian", "Julian", "Hebrew", "Islamic", "Revolutionary", "Persian (Jalali)", "Greg/Jul", "Chinese",  "Modern Persian"};
   need("jd-lines", 1000);
   for (long k = 0; k < n; k++) {
      int style = (int)rng.below(9), cal = style < 3 ? (int)rng.pick(std::vector<int>{0, 1, 6, 6, 6}) : 6;
      I j; double frac = 0;
      int r = (int)rng.below(10);
      if (r < 5) j = (I)rng.uni(2378497, 2500000); else if (r < 8) j = (I)rng.uni(1757585, 2816787); else j = (I)rng.uni(-1000000, 4000000);
      if (rng.chance(.1)) j = 2299161 + (I)rng.below(8) - 4;
      if (rng.chance(.1)) { I y = (I)rng.uni(1600, 2100); j = calref::greg_jd(y, 1, 1) + (I)rng.below(4) - 2; }
      I y; int m, d;
      calref::to_dmy(cal, j, &d, &m, &y);
      if (style != 7 && style != 8 && (y < 1000 || y > 9999)) { if (style > 0) style = 0; }
      if (style == 0 && y < 100 && y > -100) { k--; continue; }
      std::string a; int sec = 0; long fr = 0;
      if (rng.chance(.7)) { if (style == 7 || style == 8 || style < 3) { fr = (long)rng.below(1000000); frac = fr / 1e6; } else { sec = (int)rng.below(86400); frac = sec / 86400.; } }
      std::string f6 = frac > 0 && sec == 0 ? fmt(".%06ld", fr) : "", hms = sec ? fmt(" %02d:%02d:%02d", sec / 3600, sec / 60 % 60, sec % 60) : "";
      switch (style) {
         case 0: a = fmt("%ld %d %d", (long)y, m, d) + f6; break;
         case 1: a = fmt("%ld %s %d", (long)y, mon3[m - 1], d) + f6; break;
         case 2: a = fmt("%ld-%02d-%02d", (long)y, m, d) + f6; break;
         case 3: a = fmt("%d-%s-%ld", d, mon3[m - 1], (long)y) + hms; break;
         case 4: a = fmt("%ld-%s-%d", (long)y, mon3[m - 1], d) + hms; break;
         case 5: a = fmt("%s %d %ld", mon3[m - 1], d, (long)y) + hms; break;
         case 6: a = fmt("%ld %d %d", (long)y, m, d) + hms; break;
         case 7: { frac = fr / 1e6; a = fmt("%.6f", (double)j - .5 + frac); frac = atof(a.c_str()) - ((double)j - .5); break; }
         case 8: { a = fmt("MJD%.6f", (double)j - 2400001. + frac); frac = atof(a.c_str() + 3) - ((double)j - 2400001.); break; }
      }
      if (style == 7 && (j < 1000001 || j > 9000000)) continue;       /* a bare number is only a JD in the usual range */
      if (style == 8 && (j < 2400001 || j > 2499999)) continue;
      if (frac < 0) { j--; frac += 1; }
      SV av = {tools + "/jd"};
      if (cal != 6 || rng.chance(.2)) av.push_back(fmt("-c%d", cal));
      if (rng.chance(.5)) { std::string w; for (char c : a + " ") if (c == ' ') { if (!w.empty()) av.push_back(w); w.clear(); } else w += c; }
      else av.push_back(a);
      cur("jd cal=%d '%s'", cal, a.c_str());
      std::string o; int rc = run(av, &o);
      SV L = lines(o);
      if (rc || L.size() != 14) { bad("jd-run", "exit %d, %zu lines: %s", rc, L.size(), o.substr(0, 300).c_str()); continue; }
      double jd = (double)j - .5 + frac;
      /* first line: date and time, and the JD */
      I gy; int gm, gd; calref::to_dmy(6, j, &gd, &gm, &gy);
      char ds[8], ms[8]; long py; int pd, ph, pm; double ps, pj;
      if (sscanf(L[0].c_str(), "%3s %ld %3s %d %d:%d:%lf = JD %lf", ds, &py, ms, &pd, &ph, &pm, &ps, &pj) != 8) { bad("jd-head", "unexpected first line '%s'", L[0].c_str()); continue; }
      if (fabs(pj - jd) > 2e-8 + fabs(jd) * 3e-16 * 8) bad("jd-value", "'%s': JD %.8f printed, the date is JD %.8f", a.c_str(), pj, jd);
      double day = frac * 86400., got = ph * 3600. + pm * 60. + ps;
      bool same = py == (long)gy && pd == gd && !strcmp(ms, mon3[gm - 1]) && !strcmp(ds, dow3[calref::fmod_(j + 1, 7)]);
      if (!same && (frac < 1e-8 || frac > 1 - 1e-8)) count("midnight");
      else if (!same || fabs(got - day) > 1e-3 || ph < 0 || ph > 23 || pm < 0 || pm > 59 || ps < 0 || ps >= 60) bad("jd-date", "'%s': printed '%s', expected %s %ld %s %d and %.6f seconds of the day", a.c_str(), L[0].c_str(), dow3[calref::fmod_(j + 1, 7)], (long)gy, mon3[gm - 1], gd, day);
      /* day of year */
      double doy; if (sscanf(L[1].c_str(), "Day of year = %lf %ld", &doy, &py) != 2 || py != (long)gy || fabs(doy - ((double)(j - jg(gy, 1, 1) + 1) + frac)) > 1e-7) {
         if (!(frac < 1e-8 || frac > 1 - 1e-8)) bad("jd-doy", "'%s': '%s', expected %.9f %ld", a.c_str(), L[1].c_str(), (double)(j - jg(gy, 1, 1) + 1) + frac, (long)gy); }
      for (int c = 0; c < 10; c++) {
         int cc = c == 9 ? 0 : c, rd = -1, rm = -1; I ry = 0; calref::Year Y;
         std::string nm = c == 9 ? "New greg" : names[c];
         const std::string &l = L[2 + c];
         if (l.compare(0, nm.size(), nm)) { bad("jd-name", "line '%s' where %s was expected", l.c_str(), nm.c_str()); continue; }
         long qy; int qm, qd; char ic = ' '; const char *p = l.c_str() + 20;
         bool have = calref::to_dmy(cc, j, &rd, &rm, &ry, cc == 6 ? NULL : &Y);
         if (c == 9) { if (sscanf(p, "%ld%d%d", &qy, &qm, &qd) != 3) qd = -99; }
         else { char t[100]; snprintf(t, sizeof t, "%s", p); for (char *q = t; *q; q++) if (*q == 'i') { ic = 'i'; *q = ' '; } if (sscanf(t, "%ld%d%d", &qy, &qm, &qd) != 3) qd = -99; }
         if (!have) { count("outside"); if (cc == 7 ? qd != -1 : (qd != -1 || qm != -1)) bad("jd-range", "%s has no date for JD %ld but '%s' is printed", nm.c_str(), (long)j, l.c_str()); continue; }
         char eic = ' ';
         if (cc == 7 && Y.intercalary) { if (rm == Y.intercalary) eic = 'i'; if (rm >= Y.intercalary) rm--; }
         if (frac > 1 - 1e-8) { count("midnight"); continue; }
         if (qy != (long)ry || qm != rm || qd != rd || ic != eic) bad(std::string("jd-") + nm, "'%s' (JD %.6f): '%s', the calendar says %ld %d%c %d", a.c_str(), jd, l.c_str(), (long)ry, rm, eic, rd);
         count("jd-lines");
      }
      /* time-scale lines */
      double dt, tu, dut, tdb, tai, gps;
      if (sscanf(L[12].c_str(), "Delta-T = TD - UT1 = %lf; TD - UTC = %lf; UT1 - UTC = DUT1 = %lf", &dt, &tu, &dut) != 3
         || sscanf(L[13].c_str(), "TDB - TDT = %lf milliseconds   TAI-UTC = %lf    GPS-UTC = %lf", &tdb, &tai, &gps) != 3) { bad("jd-scales", "unexpected lines '%s' '%s'", L[12].c_str(), L[13].c_str()); continue; }
      if (fabs(tu - dt - dut) > 2e-7) bad("jd-dut", "DUT1 is %.7f but TD-UTC less TD-UT1 is %.7f", dut, tu - dt);
      if (fabs(tu - 32.184 - tai) > 6e-4 || fabs(tai - 19 - gps) > 1.5e-3) bad("jd-tai", "TD-UTC %.7f, TAI-UTC %.3f, GPS-UTC %.3f", tu, tai, gps);
      if (jd > 2441317.5 + 1e-6 && jd < 2458000 && fabs(tai - leap_tai(jd - 2400000.5 + 1e-9)) > 1e-3 && fabs(tai - leap_tai(jd - 2400000.5 - 1e-6)) > 1e-3) bad("jd-leap", "JD %.6f: TAI-UTC printed as %.3f, %d in force", jd, tai, leap_tai(jd - 2400000.5));
      if (jd > 2400000 && jd < 2500000) {
         double T = (jd - 2451545) / 36525, g = (357.53 + 35999.05 * T) * M_PI / 180;
         if (fabs(tdb - 1.658 * sin(g) - .014 * sin(2 * g)) > .06) bad("jd-tdb", "JD %.6f: TDB-TDT printed as %.4f ms", jd, tdb);
         count("tdb");
      }
      seen(hstr(a)); sample("jd %s -> %s", a.c_str(), L[0].c_str());
   }
}
/* ---------------- calendar ---------------- */
struct Show { int x, y; std::string t; };
static std::vector<Show> shows(const SV &L) {
   std::vector<Show> v;
   for (auto &l : L) { Show s; int n = 0; if (sscanf(l.c_str(), "%d %d moveto %n", &s.x, &s.y, &n) == 2 && n) { size_t e = l.rfind(") show"); if (l[n] == '(' && e != std::string::npos) { s.t = l.substr(n + 1, e - n - 1); v.push_back(s); } } }
   return v;
}
/* phases the program is given in phases.dat: corrections to mean lunations, by index 4k+i (k from 2000 January) */
static bool have_phases = false; static uint64_t phase_salt = 0;
static const long PH0 = -3800, PHN = 4 * 6600;
static int32_t phase_dt(long idx) { return (int32_t)(mix(phase_salt, (uint64_t)idx) % 108001) - 54000; }
static void write_phases() { std::vector<int32_t> b; b.push_back((int32_t)PH0); for (long i = 0; i < PHN; i++) b.push_back(phase_dt(i)); FILE *f = fopen((workdir + "/phases.dat").c_str(), "wb"); fwrite(b.data(), 4, b.size(), f); fclose(f); }
struct Phase { double t; int which; };
/* those between two JDs */
static std::vector<Phase> phases_in(double a, double b) {
   std::vector<Phase> v; if (!have_phases) return v;
   for (long i = (long)floor(((a - 2451550.09765) / 29.530588853 - PH0) * 4) - 3; ; i++) {
      if (i < 0) continue; if (i >= PHN) break;
      double m = 2451550.09765 + 29.530588853 * (PH0 + i / 4.), t = m + (phase_dt(i) - td_minus_utc(m)) / 86400.;
      if (m > b + 2) break;
      if (t >= a && t < b) v.push_back({t, (int)(i & 3)});
   }
   return v;
}
static bool near_midnight(double t) { double f = t + .5 - floor(t + .5); return f < 2e-3 || f > 1 - 2e-3; }
static void one_month(int y, int m, const SV &body, int xsize, bool jds, bool mjd, bool wrap, const std::string &what) {
   const int X0 = 20, Y0 = 20, YS = 104;
   std::vector<Show> S = shows(body);
   I first = jg(y, m, 1), next = m == 12 ? jg(y + 1, 1, 1) : jg(y, m + 1, 1); int nd = (int)(next - first), wd0 = (int)calref::fmod_(first + 1, 7);
   /* title */
   std::string title = fmt("%s %d", monl[m - 1], y);
   if (jds) title += fmt(" (JD %ld.5)", (long)first - 2); else if (mjd) title += fmt(" (MJD %ld)", (long)(first - 2400002));
   int titles = 0; for (auto &s : S) if (s.y == Y0 + 5 * YS + 25) { titles++; if (s.t != title) bad("cal-title", "%s: title '%s', expected '%s'", what.c_str(), s.t.c_str(), title.c_str()); }
   if (titles != 1) bad("cal-title", "%s: %d titles", what.c_str(), titles);
   /* weekday names, each centred in its own column */
   int wn = 0; for (auto &s : S) if (s.y == Y0 + 5 * YS + 5) { int c = (s.x - X0) / xsize; if (c < 0 || c > 6 || s.t != dowl[c]) bad("cal-week", "%s: '%s' heads column %d", what.c_str(), s.t.c_str(), c); wn++; }
   if (wn != 7) bad("cal-week", "%s: %d weekday names", what.c_str(), wn);
   /* days */
   std::vector<int> col(40, -1), row(40, -1), cnt(40, 0); bool used[5][7]; memset(used, 0, sizeof used);
   std::map<std::pair<int, int>, std::vector<int>> cell;
   for (auto &s : S) {
      int a = 0, b = 0, n = 0;
      if (!((sscanf(s.t.c_str(), "%d/%d%n", &a, &b, &n) == 2 && n == (int)s.t.size()) || (b = 0, n = 0, sscanf(s.t.c_str(), "%d%n", &a, &n) == 1 && n == (int)s.t.size() && s.t[0] != ' '))) continue;
      if ((s.x - X0 - 3) % xsize || (s.y - Y0 + 15) % YS) continue;
      int c = (s.x - X0 - 3) / xsize, r = 5 - (s.y - Y0 + 15) / YS;
      for (int q : {a, b}) if (q) { if (q < 1 || q > nd || c < 0 || c > 6 || r < 0 || r > 4) { bad("cal-cell", "%s: '%s' in column %d row %d", what.c_str(), s.t.c_str(), c, r); continue; } cnt[q]++; col[q] = c; row[q] = r; used[r][c] = true; }
   }
   for (int q = 1; q <= nd; q++) {
      int wc = (wd0 + q - 1) % 7, wr = (wd0 + q - 1) / 7;
      if (wr > 4) { if (wrap) wr = 0; else wr = 4; }
      if (cnt[q] != 1) bad("cal-day", "%s: day %d shown %d times", what.c_str(), q, cnt[q]);
      else if (col[q] != wc || row[q] != wr) bad("cal-day", "%s: day %d is in column %d of week %d, it is a %s in week %d", what.c_str(), q, col[q], row[q] + 1, dowl[wc], wr + 1);
      count("cal-days");
   }
   /* the Jewish holidays fall on their dates */
   for (int h = 0; h < 2; h++) {
      I j = calref::heb_newyear(y + 3761) + (h ? 9 : 0); int dd, mm; I yy; calref::to_dmy(6, j, &dd, &mm, &yy);
      const char *nm = h ? "Yom Kippur" : "Rosh Hashanah"; int hits = 0;
      for (auto &s : S) { std::string t = s.t; size_t p = t.rfind(") show ("); if (p != std::string::npos) t = t.substr(p + 8); if (t == nm) { hits++; int c = (s.x - X0 - 3) / xsize; if (mm == m && c != (int)calref::fmod_(j + 1, 7)) bad("cal-holiday", "%s: %s (%d %s) is in column %d", what.c_str(), nm, dd, mon3[mm - 1], c); } }
      for (auto &l : body) if (l.find(std::string("show (") + nm + ") show") != std::string::npos) hits++;     /* in a shared cell, after its date */
      if ((hits > 0) != (mm == m && yy == y)) bad("cal-holiday", "%s: %s is %d %s %ld but appears %d times", what.c_str(), nm, dd, monl[mm - 1], (long)yy, hits);
      if (hits) count("holidays");
   }
   /* small months: the two before, then the ones after, in the free cells in order */
   std::vector<std::pair<int, int>> freec; for (int r = 0; r < 5; r++) for (int c = 0; c < 7; c++) if (!used[r][c]) freec.push_back({r, c});
   int off = -2; size_t k = 0;
   for (auto &fc : freec) {
      if (off == 0) off = 1;
      int mm = m - 1 + off, yy = y; while (mm < 0) mm += 12, yy--; while (mm > 11) mm -= 12, yy++; mm++;
      off++; k++;
      int x = X0 + fc.second * xsize + 1, yt = Y0 + YS * (5 - fc.first) - 12;
      std::string ti = fmt("%s %d", monl[mm - 1], yy), got;
      I f = jg(yy, mm, 1); int n = (int)((mm == 12 ? jg(yy + 1, 1, 1) : jg(yy, mm + 1, 1)) - f), w = (int)calref::fmod_(f + 1, 7);
      int found = 0; std::vector<std::string> grid(6);
      for (auto &s : S) { if (s.y == yt && s.t == ti && s.x >= x && s.x < x + xsize) found++; if (s.x == x) for (int i = 0; i < 6; i++) if (s.y == yt - 12 * (i + 1)) grid[i] = s.t; }
      if (!found) bad("cal-small", "%s: '%s' is not at the head of the free cell in row %d, column %d", what.c_str(), ti.c_str(), fc.first, fc.second);
      std::vector<Phase> ph = phases_in((double)f - .5, (double)(f + n) - .5); bool edge = false; for (auto &q : phases_in((double)f - 1.5, (double)(f + n) + .5)) if (near_midnight(q.t)) edge = true;
      if (edge) { count("small-months"); continue; }
      int day = 1; std::vector<std::string> exp(6);
      for (int i = 0; i < 6; i++) { std::string e(20, ' '); for (int j = 0; j < 7; j++) if ((i || j >= w) && day <= n) { if (day > 9) e[j * 3] = (char)('0' + day / 10); e[j * 3 + 1] = (char)('0' + day % 10); for (auto &q : ph) if ((I)floor(q.t + .5) == f + day - 1) { e[j * 3] = "N1F3"[q.which]; e[j * 3 + 1] = "MQMQ"[q.which]; count("phase-days"); } day++; } while (!e.empty() && e.back() == ' ') e.pop_back(); exp[i] = e; }
      for (int i = 0; i < 6; i++) { if (i == 5 && (jds || mjd) && exp[5].empty()) continue; if (grid[i] != exp[i]) bad("cal-small", "%s: week %d of %s reads '%s', expected '%s'", what.c_str(), i + 1, ti.c_str(), grid[i].c_str(), exp[i].c_str()); }
      if (jds || mjd) { std::string e = jds ? fmt("(JD %ld.5)", (long)f - 2) : fmt("(MJD %ld)", (long)(f - 2400002)); int hit = 0; for (auto &s : S) if (s.x == x && s.y == yt - 84 && s.t == e) hit++; if (hit != 1) bad("cal-smalljd", "%s: %s lacks '%s'", what.c_str(), ti.c_str(), e.c_str()); }
      count("small-months");
   }
}
static void do_calendar(long n) {
   need("cal-days", 2000); need("small-months", 300); need("holidays", 5); need("events", 20); need("phases", 20); need("phase-days", 50);
   for (long k = 0; k < n; k++) {
      int y = rng.chance(.7) ? (int)rng.uni(1700, 2200) : (int)rng.uni(13, 9999), m = 1 + (int)rng.below(12);
      bool doll = rng.chance(.06), legal = rng.chance(.2), wrap = rng.chance(.3), single = rng.chance(.3), j = rng.chance(.3), mj = !j && rng.chance(.3), rev = rng.chance(.2);
      if (y == 1582 || doll) { if (y == 1582) y = 1583; }
      have_phases = y >= 1700 && y < 2200 && rng.chance(.4); if (have_phases) { phase_salt = rng.next(); write_phases(); } else unlink((workdir + "/phases.dat").c_str());
      SV av = {tools + "/calendar"};
      if (rev && !doll) { av.push_back(fmt("%d", m)); av.push_back(fmt("%d", y)); } else { av.push_back(fmt("%d", y)); av.push_back(doll ? "-d" : fmt("%d", m)); }
      if (legal) av.push_back("-l"); if (wrap) av.push_back("-w"); if (single) av.push_back("-s"); if (j) av.push_back("-j"); if (mj) av.push_back("-m");
      std::string of = workdir + "/cal.ps"; unlink(of.c_str());
      bool ofile = rng.chance(.3); if (ofile) av.push_back("-o" + of);
      std::string what; for (size_t i = 1; i < av.size(); i++) if (av[i][1] != 'o') what += (i > 1 ? " " : "") + av[i];
      /* events for chosen dates */
      std::string ev; std::vector<std::pair<int, std::string>> want; unlink((workdir + "/dates.txt").c_str());
      if (!doll && rng.chance(.5)) {
         int nd = (int)((m == 12 ? jg(y + 1, 1, 1) : jg(y, m + 1, 1)) - jg(y, m, 1));
         std::string evy;
         for (int i = 0; i < 5; i++) { int d = 1 + (int)rng.below(nd); int mm = rng.chance(.8) ? m : 1 + (int)rng.below(12); std::string t = fmt("Event%d%c", i, (char)('a' + rng.below(26))), &to = rng.chance(.25) ? evy : ev; if (rng.chance(.3)) t += " is here"; if (rng.chance(.1)) t += " F\xc3\xaate";
            if (rng.chance(.1)) { int len = (int)rng.range(30, 68); while ((int)t.size() < len) t += (char)('a' + rng.below(26)); } if (rng.chance(.15)) { int k = (int)rng.range(1, 12); for (int q = 0; q < k; q++) { if (t.size() > 60) break; t += fmt("(%c)", (char)('a' + rng.below(26))); } }
            std::string ps; for (char c : t) ps += c == '(' ? "\\050" : c == ')' ? "\\051" : std::string(1, c); if (t.find('(') != std::string::npos) count("parentheses");
            if (rng.chance(.25)) { int wd = (int)rng.below(7), from = (int)rng.pick(std::vector<int>{1, 8, 15, 22}); to += fmt("%s %2d/%d %s\n", mon3[mm - 1], from, (wd + 0) % 7, t.c_str()); int dd = from; while (calref::fmod_(jg(y, mm, 1) + dd - 1 + 1, 7) != wd) dd++; if (mm == m) want.push_back({dd, ps}); }
            else if (rng.chance(.3) && t.size() < 34) { std::set<int> ds = {d}; int k = rng.chance(.1) ? 14 : (int)rng.range(1, 4); std::string line = fmt("%s %2d", mon3[mm - 1], d); for (int q = 0; q < k && line.size() + t.size() < 76; q++) { int d2 = 1 + (int)rng.below(nd); if (!ds.insert(d2).second) continue; line += fmt(",%d", d2); } to += line + " " + t + "\n"; if (mm == m) for (int q : ds) want.push_back({q, ps}); count("day_lists"); }
            else { to += fmt("%s %2d %s\n", mon3[mm - 1], d, t.c_str()); if (mm == m) want.push_back({d, ps}); } }
         if (!evy.empty()) { FILE *f = fopen((workdir + fmt("/date%d.txt", y)).c_str(), "w"); fputs(evy.c_str(), f); fclose(f); count("year_files"); }
         FILE *f = fopen((workdir + "/dates.txt").c_str(), "w"); fputs(ev.c_str(), f); fclose(f);
      }
      cur("calendar %s", what.c_str());
      std::string o; int rc = run(av, &o); unlink((workdir + fmt("/date%d.txt", y)).c_str());
      if (ofile) { std::string e; FILE *f = fopen(of.c_str(), "rb"); if (!f) { bad("cal-file", "%s: -o file not written", what.c_str()); continue; } char b[65536]; size_t q; while ((q = fread(b, 1, sizeof b, f)) > 0) e.append(b, q); fclose(f); o = e; }
      if (rc) { bad("cal-run", "%s: exit %d: %s", what.c_str(), rc, o.substr(0, 200).c_str()); continue; }
      SV L = lines(o); int xs = ((legal ? 1008 : 792) - 60) / 7;
      if (o.find("%!PS-Adobe") == std::string::npos) bad("cal-ps", "%s: not PostScript", what.c_str());
      if (!doll) {
         int pages = 0, np = -1; for (auto &l : L) { if (!l.compare(0, 8, "%%Page: ")) pages++; sscanf(l.c_str(), "%%%%Pages: %d", &np); }
         if (pages != np) bad("cal-pages", "%s: %d pages announced, %d present", what.c_str(), np, pages);
         one_month(y, m, L, xs, j, mj, wrap, what);
         std::vector<Show> S = shows(L);
         if (have_phases) {
            static const char *nm[4] = {"New moon", "First quarter", "Full moon", "Last quarter"}; I f = jg(y, m, 1), nx = m == 12 ? jg(y + 1, 1, 1) : jg(y, m + 1, 1); int got[4] = {0, 0, 0, 0}, exp4[4] = {0, 0, 0, 0}; bool edge = false;
            for (auto &q : phases_in((double)f - 1.5, (double)nx + .5)) if (near_midnight(q.t)) edge = true;
            if (!edge) {
               std::vector<Phase> ph = phases_in((double)f - .5, (double)nx - .5);
               for (auto &q : ph) exp4[q.which]++;
               for (auto &l : L) for (int w = 0; w < 4; w++) { int x, yy; if (l.find(std::string("(") + nm[w] + ") show") == std::string::npos || sscanf(l.c_str(), "%d %d moveto", &x, &yy) != 2) continue; got[w]++; int c = (x - 23) / xs, r = 4 - (yy - 20) / 104, hit = 0;
                  for (auto &q : ph) if (q.which == w) { int d = (int)((I)floor(q.t + .5) - f) + 1, wr = (int)(calref::fmod_(f + 1, 7) + d - 1) / 7; if (wr > 4) wr = wrap ? 0 : 4; if (c == (int)calref::fmod_(f + d, 7) && r == wr) hit++; }
                  if (!hit) bad("cal-phase", "%s: %s in column %d of week %d", what.c_str(), nm[w], c, r + 1); }
               for (int w = 0; w < 4; w++) if (got[w] != exp4[w]) bad("cal-phase", "%s: %d times '%s', not %d", what.c_str(), got[w], nm[w], exp4[w]);
               count("phases");
            }
         }
         for (auto &w : want) { int c = (int)calref::fmod_(jg(y, m, 1) + w.first, 7), hit = 0; for (auto &l : L) { int x, yy; size_t p = l.find("(" + w.second + ") show"); if (p == std::string::npos || sscanf(l.c_str(), "%d %d moveto", &x, &yy) != 2) continue; int same = 0; for (auto &z : want) same += z.second == w.second; int wr0 = (int)(calref::fmod_(jg(y, m, 1) + 1, 7) + w.first - 1) / 7; if (wr0 > 4) wr0 = wrap ? 0 : 4; if (same > 1 && ((x - 23) / xs != c || 4 - (yy - 20) / 104 != wr0)) continue; hit++; if ((x - 23) / xs != c) bad("cal-event", "%s: '%s' on day %d is in column %d, not %d", what.c_str(), w.second.c_str(), w.first, (x - 23) / xs, c);
               int wr = (int)(calref::fmod_(jg(y, m, 1) + 1, 7) + w.first - 1) / 7; if (wr > 4) wr = wrap ? 0 : 4; int r = 4 - (yy - 20) / 104; if (r != wr) bad("cal-event", "%s: '%s' on day %d is in week %d, not %d", what.c_str(), w.second.c_str(), w.first, r + 1, wr + 1); }
            int cell = 0; auto at = [&](int d, int *cc, int *rr) { *cc = (int)calref::fmod_(jg(y, m, 1) + d, 7); *rr = (int)(calref::fmod_(jg(y, m, 1) + 1, 7) + d - 1) / 7; if (*rr > 4) *rr = wrap ? 0 : 4; }; for (auto &z : want) { int c1, r1, c2, r2; at(z.first, &c1, &r1); at(w.first, &c2, &r2); cell += z.second == w.second && c1 == c2 && r1 == r2; } if (hit != cell) bad("cal-event", "%s: '%s' for day %d appears %d times in its cell: %s", what.c_str(), w.second.c_str(), w.first, hit, ev.c_str()); count("events"); }
      } else {
         int got = 0; SV body; int mm = 0;
         for (auto &l : L) { int q; if (sscanf(l.c_str(), "/calendar_%d {", &q) == 1) { mm = q; body.clear(); } else if (mm && l.find("} def") != std::string::npos && l.find("stroke") == 0) { one_month(y, mm, body, xs, j, mj, wrap, what + fmt(" month %d", mm)); got++; mm = 0; } else if (mm) body.push_back(l); }
         if (got != 12) bad("cal-doll", "%s: %d months in the year", what.c_str(), got);
         count("dollhouse");
      }
      seen(hstr(what)); sample("calendar %s", what.c_str());
   }
}
/* ---------------- utc_test ---------------- */
static void do_utc(long n) {
   for (long k = 0; k < n; k++) {
      int a = 1960 + (int)rng.below(60), b = a + (int)rng.below(40);
      cur("utc_test %d,%d", a, b);
      std::string o; SV av = {tools + "/utc_test", fmt("%d,%d", a, b)};
      int pl = 0; if (rng.chance(.5)) { pl = 58000 + (int)rng.below(2000); av.push_back(fmt("-p%d", pl)); }
      int rc = run(av, &o);
      if (rc) { bad("utc-run", "exit %d", rc); continue; }
      std::map<std::pair<int, int>, double> got; int prevy = 0, prevm = 0;
      for (size_t p = 0; (p = o.find(" : ", p)) != std::string::npos; p++) { int y; char mm[4]; double v; if (p >= 8 && sscanf(o.c_str() + p - 8, "%d %3s : %lf", &y, mm, &v) == 3) { int m = !strcmp(mm, "Jan") ? 1 : 7; if (y < prevy || (y == prevy && m <= prevm)) bad("utc-order", "%d %s out of order", y, mm); prevy = y; prevm = m; got[{y, m}] = v; } }
      for (int y = a; y <= b; y++) for (int m : {1, 7}) {
         double mj = (double)(calref::greg_jd(y, m, 1) - 2400001); bool step = y >= 1972 && leap_tai(mj) != leap_tai(mj - 1);
         if (mj > 57754.5 && !(pl && 1)) continue;                 /* beyond the last published one, the program predicts */
         bool has = got.count({y, m});
         if (y == 1972 && m == 1) { if (has && fabs(got[{y, m}] - 10) > 1e-3) bad("utc", "1972 Jan: %.3f", got[{y, m}]); continue; }
         if (mj > 57754.5) step = false;
         if (mj > pl && pl && mj > 57754.5 && has) { bad("utc-predict", "%d/%d is listed although predictions end at MJD %d", y, m, pl); continue; }
         if (mj > 57754.5) continue;
         if (has != step || (has && fabs(got[{y, m}] - leap_tai(mj)) > 1e-3)) bad("utc", "leap second of %d/%d: %s (published: %s, TAI-UTC %d)", y, m, has ? fmt("listed as %.3f", got[{y, m}]).c_str() : "not listed", step ? "yes" : "no", leap_tai(mj));
         count("utc-steps");
      }
      seen(mix(a, b)); sample("utc_test %d,%d: %zu steps listed", a, b, got.size());
   }
   need("utc-steps", 100);
}
/* ---------------- gtest: sidereal time four ways ---------------- */
static void do_gtest(long n) {
   need("gst", 40);
   for (long k = 0; k < n; k++) {
      double jd = floor((rng.chance(.6) ? rng.uni(2400000, 2500000) : rng.uni(-3e6, 8e6)) * 1e4) / 1e4; std::string a = fmt("%.4f", jd), o;
      cur("gtest %s", a.c_str()); jd = atof(a.c_str());
      int rc = run({tools + "/gtest", a}, &o); SV L = lines(o);
      if (rc) { bad("gst-run", "exit %d", rc); continue; }
      long double d = (long double)jd - 2451545.0L, ref = fmodl(280.460618375L + 360.0L * fmodl(d, 1.0L) + 0.9856473662863335614875655943417750399269906456764772986L * d, 360.0L); if (ref < 0) ref += 360;
      int hits = 0;
      for (auto &l : L) { int v; double full, ang; if (sscanf(l.c_str(), "v%d %lf %lf", &v, &full, &ang) == 3) { hits++; double e = fabs(ang - (double)ref); e = fmin(e, 360 - e); double tol = v == 1 ? 1e-6 + fabs((double)d) * 1e-12 : 6e-7; if (e > tol) bad(fmt("gst-v%d", v), "JD %s: %.12f, the linear formula gives %.12Lf", a.c_str(), ang, ref); }
         else if (sscanf(l.c_str(), "tg %lf %lf", &full, &ang) == 2 && jd > 2415020 && jd < 2488070) { hits++; double T = (double)(d / 36525), e = ang - (double)ref - T * T * .000387933; e -= 360 * floor(e / 360 + .5); if (fabs(e) > 5e-6) bad("gst-tg", "JD %s: %.12f against %.12Lf", a.c_str(), ang, ref); } }
      if (hits < 4) bad("gst-lines", "only %d values: %s", hits, o.substr(0, 200).c_str());
      count("gst"); seen(hdbl(jd));
   }
}
/* ---------------- mpc_time: the submission time in an MPC observation identifier ---------------- */
static std::string b62(long v, int n) { std::string s(n, '0'); for (int i = n - 1; i >= 0; i--, v /= 62) s[i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[v % 62]; return s; }
static void do_mpc_time(long n) {
   need("mpc_time", 40); need("mpc_time-leap", 2); need("mpc_time-warned", 2);
   for (long k = 0; k < n; k++) {
      int y = rng.chance(.5) ? (int)rng.range(1800, 2439) : (int)rng.range(1990, 2040), m = 1 + (int)rng.below(12), d = 1 + (int)rng.below(31); long hms = rng.chance(.1) ? rng.pick(std::vector<long>{0, 59, 3599, 86399, 86400}) : (long)rng.below(86400), ms = (long)rng.below(1000); if (rng.chance(.05)) ms = (long)rng.range(1000, 3843); if (rng.chance(.05)) hms = (long)rng.range(86401, 200000); if (rng.chance(.1)) { hms = 86400; m = rng.chance(.5) ? 6 : 12; d = m == 6 ? 30 : 31; if (rng.chance(.3)) d--; if (rng.chance(.3)) m = 5; }
      static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int nd = len[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
      std::string id = b62((y - 1800) * 372L + (m - 1) * 31 + d - 1, 3) + b62(hms, 3) + b62(ms, 2), rest; int want = (int)rng.below(4); if (want) rest = b62((long)rng.below(1u << 30), 8); if (want > 1) rest += b62((long)rng.below(3844), 2); if (want > 2) rest += b62((long)rng.below(1u << 30), 7);
      cur("mpc_time %s", (id + rest).c_str()); std::string o; int rc = run({tools + "/mpc_time", id + rest}, &o); SV L = lines(o); if (rc || L.empty()) { bad("mpc_time-run", "exit %d: %s", rc, o.c_str()); continue; }
      std::string head = fmt("%04d-%02d-%02d %02ld:%02ld:%02ld.%03ld = JD ", y, m, d, hms / 3600, hms / 60 % 60, hms % 60, ms); if (L[0].compare(0, head.size(), head)) { bad("mpc_time", "'%s' should begin '%s'", L[0].c_str(), head.c_str()); continue; }
      bool okdate = d <= nd && ms < 1000 && hms < 86400; if (okdate) { double jd = atof(L[0].c_str() + head.size()), e = (double)jg(y, m, d) - .5 + (hms + ms / 1000.) / 86400; if (fabs(jd - e) > 6e-7) bad("mpc_time-jd", "'%s': JD %.6f", L[0].c_str(), e); }
      std::string all; for (size_t i = 1; i < L.size(); i++) all += L[i] + "\n"; auto has = [&](const char *t) { return all.find(t) != std::string::npos; };
      if (want && !has(("Submission counter: " + rest.substr(0, 8) + " ").c_str())) bad("mpc_time-counter", "%s", all.c_str());
      if (want > 1 && !has(("counter: " + rest.substr(8, 2) + " ").c_str())) bad("mpc_time-batch", "%s", all.c_str());
      if (want > 2 && !has(("sub-batch: " + rest.substr(10, 7) + " ").c_str())) bad("mpc_time-number", "%s", all.c_str());
      if ((size_t)want != (has("Submission counter") ? 1u : 0u) + (has("Sub-batch number within") ? 1u : 0u) + (has("Observation number") ? 1u : 0u)) bad("mpc_time-lines", "%s", all.c_str());
      if (has(fmt("There are only %d days", nd).c_str()) != (d > nd) || has("There are only") != (d > nd)) bad("mpc_time-days", "%d-%02d-%02d: %s", y, m, d, all.c_str());
      if (has("milliseconds should be") != (ms >= 1000) || has("time of day is out") != (hms > 86400)) bad("mpc_time-range", "%ld %ld: %s", hms, ms, all.c_str());
      bool good = (m == 6 || m == 12) && d == nd; if (has("invalid leap second") != (hms == 86400 && !good) || has("This is a leap second") != (hms == 86400 && good)) bad("mpc_time-leap", "%d-%02d-%02d %ld: %s", y, m, d, hms, all.c_str());
      count("mpc_time"); if (hms == 86400) count("mpc_time-leap"); if (!okdate) count("mpc_time-warned"); seen(hstr(id)); sample("mpc_time %s: %s", id.c_str(), L[0].c_str());
   }
}
int main(int argc, char **argv) {
   init(argc, argv);
   bool san = mode == "san";
   do_jd(san ? budget(800, 8000) : budget(6000, 80000));
   do_calendar(san ? budget(250, 2500) : budget(2500, 30000));
   do_utc(san ? budget(48, 300) : budget(240, 3000));
   do_gtest(san ? budget(80, 400) : budget(800, 8000));
   do_mpc_time(san ? budget(150, 800) : budget(1500, 20000));
   return finish();
}
