/* P04: TT-UTC, Delta-T, TDB and Earth-orientation files against published tables. */
#include "vh.h"
#include "calref.h"
#include "watdefs.h"
#include "afuncs.h"
using namespace vh;
typedef long double LD;

static int mjd(int y, int m, int d) { return (int)(calref::greg_jd(y, m, d) - 2400001); }
struct Leap { int y, m; };
static const Leap leaps[] = {{1972,1},{1972,7},{1973,1},{1974,1},{1975,1},{1976,1},{1977,1},{1978,1},{1979,1},{1980,1},
   {1981,7},{1982,7},{1983,7},{1985,7},{1988,1},{1990,1},{1991,1},{1992,7},{1993,7},{1994,7},{1996,1},{1997,7},{1999,1},
   {2006,1},{2009,1},{2012,7},{2015,7},{2017,1}};
static std::vector<int> leapmjd;
struct Old { int y, m; double a; int ref; double rate; };
static const Old olds[] = {{1961,1,1.4228180,37300,.001296},{1961,8,1.3728180,37300,.001296},{1962,1,1.8458580,37665,.0011232},
   {1963,11,1.9458580,37665,.0011232},{1964,1,3.2401300,38761,.001296},{1964,4,3.3401300,38761,.001296},{1964,9,3.4401300,38761,.001296},
   {1965,1,3.5401300,38761,.001296},{1965,3,3.6401300,38761,.001296},{1965,7,3.7401300,38761,.001296},{1965,9,3.8401300,38761,.001296},
   {1966,1,4.3131700,39126,.002592},{1968,2,4.2131700,39126,.002592}};
/* published Delta-T at two-year steps from 1620, hundredths of a second */
static const int dtab[] = {
12400,11500,10600,9800,9100,8500,7900,7400,7000,6500,6200,5800,5500,5300,5000,4800,4600,4400,4200,4000,3700,3500,3300,3100,2800,2600,2400,2200,
2000,1800,1600,1400,1300,1200,1100,1000,900,900,900,900,900,900,900,900,1000,1000,1000,1000,1000,1100,1100,1100,1100,1100,1100,1100,1100,1200,
1200,1200,1200,1200,1300,1300,1300,1300,1400,1400,1400,1500,1500,1500,1500,1600,1600,1600,1600,1600,1700,1700,1700,1700,1700,1700,1700,1700,
1600,1600,1500,1400,1370,1310,1270,1250,1250,1250,1250,1250,1250,1230,1200,1140,1060,960,860,750,660,600,570,560,570,590,620,650,680,710,730,
750,770,780,790,750,640,540,290,160,-100,-270,-360,-470,-540,-520,-550,-560,-580,-590,-620,-640,-610,-470,-270,0,260,540,770,1050,1340,1600,
1820,2020,2120,2240,2350,2390,2430,2400,2390,2390,2370,2400,2430,2530,2620,2730,2820,2910,3000,3070,3140,3220,3310,3400,3500,3650,3830,4020,
4220,4450,4650,4850,5050,5220,5380,5490,5580,5686,5831,5998,6163,6297,6383,6430,6457,6485,6546,6607,6660,6728,6810,6897,6936,6929,6918};
static const int NT = sizeof dtab / sizeof dtab[0];

static LD poly(LD x, const std::vector<LD> &c) { LD r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
static LD ref_dt_year(LD y) {
   if (y < -500) return poly((y - 1820) / 100, {-20, 0, 32});
   if (y < 500) return poly(y / 100, {10583.6L, -1014.41L, 33.78311L, -5.952053L, -.1798452L, .022174192L, .0090316521L});
   if (y < 1600) return poly((y - 1000) / 100, {1574.2L, -556.01L, 71.23472L, .319781L, -.8503463L, -.005050998L, .0083572073L});
   if (y < 1620) return poly((y - 1600) / 100, {120, -98.08L, -153.2L, 140.272L});
   LD loc = (y - 1620) / 2;
   if (loc > NT - 1) {
      LD over = loc - (NT - 1);
      return (dtab[NT - 1] + (dtab[NT - 1] - dtab[NT - 2]) * over) / 100.L + 32.5L * (over / 50) * (over / 50);
   }
   int i = (int)loc; if (i > NT - 2) i = NT - 2;
   return (dtab[i] + (dtab[i + 1] - dtab[i]) * (loc - i)) / 100.L;
}
struct Seg { double y1, y2; bool off; double o; std::vector<double> c; };
struct Override { std::string text; std::vector<Seg> seg; bool active = false; };
static std::vector<std::string *> keep;         /* the library keeps the pointer */
static LD ref_dt(double jd, const Override &ov) {
   LD y = 2000.L + ((LD)jd - 2451545.L) / 365.25L;
   if (ov.active) for (auto &s : ov.seg) if (y >= s.y1 && y < s.y2) {
      LD x = (y - (s.off ? s.o : 2000.)) / 100, r = 0;
      for (size_t i = s.c.size(); i-- > 0;) r = r * x + s.c[i];
      return r;
   }
   return ref_dt_year(y);
}
/* distance (days) to any place the curve changes branch, where either side may be taken by rounding */
static bool near_break(double jd, const Override &ov) {
   double y = 2000. + (jd - 2451545.) / 365.25;
   for (double b : {-500., 500., 1600., 1620.}) if (fabs(y - b) < 1e-7) return true;
   if (ov.active) for (auto &s : ov.seg) if (fabs(y - s.y1) < 1e-7 || fabs(y - s.y2) < 1e-7) return true;
   return false;
}
static LD ref_utc(double jd, const Override &ov, int mjd_end, bool *skip) {
   double m = jd - 2400000.5;
   *skip = false;
   if (m < leapmjd[0]) {
      for (int i = 12; i >= 0; i--) if (m >= mjd(olds[i].y, olds[i].m, 1))
         return 32.184L + olds[i].a + (LD)olds[i].rate * ((LD)m - olds[i].ref);
      return ref_dt(jd, ov);
   }
   int im = (int)floor(m);
   if (im > mjd_end) im = mjd_end;
   if (im >= mjd(2021, 12, 1)) {
      int y, mo, d; { /* civil year of im */
         y = 2000 + (int)((im - 51544) / 365.2425);
         while (mjd(y, 1, 1) > im) y--;
         while (mjd(y + 1, 1, 1) <= im) y++;
         (void)mo; (void)d;
      }
      int lo, hi;
      if (im < mjd(y, 7, 1)) lo = mjd(y, 1, 1), hi = mjd(y, 7, 1); else lo = mjd(y, 7, 1), hi = mjd(y + 1, 1, 1);
      double jm = 2400000.5 + (lo + hi) * .5;
      LD v = ref_dt(jm, ov) + .5L - 32.184L;
      if (fabsl(v - roundl(v)) < 1e-6L || near_break(jm, ov)) *skip = true;
      return 32.184L + floorl(v);
   }
   int n = 0;
   for (size_t i = 0; i < leapmjd.size(); i++) if (im >= leapmjd[i]) n = 10 + (int)i;
   if (!n) return ref_dt(jd, ov);       /* predictive cut-off set before 1972: no leap second applies */
   return 32.184L + n;
}
static Override make_override() {
   Override o; o.active = true;
   int n = (int)rng.range(1, 4);
   for (int i = 0; i < n; i++) {
      Seg s; double a = rng.range(-4000, 5000), b = a + rng.range(1, 3000);
      if (rng.chance(.3)) a += rng.below(100) / 100., b += rng.below(100) / 100.;
      s.y1 = a; s.y2 = b; s.off = rng.chance(.6); s.o = s.off ? (double)rng.range(-1000, 3000) : 2000.;
      int nc = (int)rng.range(1, 6);
      char t[100]; std::string tx;
      snprintf(t, sizeof t, "%.10g,%.10g:", s.y1, s.y2); tx += t;
      s.y1 = atof(t); { char *c = strchr(t, ','); s.y2 = atof(c + 1); }
      if (s.off) { snprintf(t, sizeof t, "o%.10g,", s.o); tx += t; }
      for (int k = 0; k < nc; k++) {
         snprintf(t, sizeof t, "%s%.*f", k ? "," : "", (int)rng.below(5), rng.uni(-300, 300)); tx += t;
         s.c.push_back(atof(k ? t + 1 : t));
      }
      o.text += (i ? ";" : "") + tx;
      o.seg.push_back(s);
   }
   if (rng.chance(.3)) o.text += ";";
   return o;
}
extern "C++" double default_td_minus_ut(const double jd);
static bool utc_close(LD a, LD b, double jd) { return fabsl(a - b) <= 2e-6L + fabsl(b) * 1e-12L + fabsl((LD)jd - 2451545.L) * 1e-13L; }

static double tdbref(double jd) {
   /* published amplitudes (s), rates (rad/cy), phases; summed in long double */
   static const LD A[6] = {1656.6894e-6L, 22.4175e-6L, 13.8399e-6L, 4.7701e-6L, 4.6767e-6L, 2.2566e-6L};
   static const LD W[6] = {628.30758494L, 575.33848843L, 1256.61516988L, 52.96909651L, 606.97767539L, 21.32990954L};
   static const LD F[6] = {6.2400497L, 4.2969771L, 6.1968995L, 0.4444038L, 4.0211937L, 5.5431320L};
   LD t = ((LD)jd - 2451545.L) / 36525.L, r = 0;
   for (int i = 0; i < 6; i++) r += A[i] * sinl(W[i] * t + F[i]);
   return (double)r;
}
static double pick_jd(const Override &ov) {
   switch (rng.below(9)) {
   case 0: return 2451545. + rng.uni(-4000., 4000.) * 365.25 * (rng.chance(.3) ? 5 : 1);
   case 1: return 2400000.5 + rng.range(37200, 41400) + rng.uni() * (rng.chance(.5) ? 1 : 0);
   case 2: { int i = (int)rng.below(leapmjd.size()); static const double e[] = {0, -1. / 86400, 1. / 86400, -1e-3, .5, -.5, -.99999, .99999, -1e-5, 1e-5};
             return 2400000.5 + leapmjd[i] + e[rng.below(10)]; }
   case 3: { int i = (int)rng.below(13); static const double e[] = {0, -1. / 86400, 1. / 86400, .3, -.3};
             return 2400000.5 + mjd(olds[i].y, olds[i].m, 1) + e[rng.below(5)]; }
   case 4: return 2400000.5 + rng.range(41317, 61000) + rng.uni();
   case 5: { int y = (int)rng.range(2021, 2500); static const double e[] = {0, -1. / 86400, 1. / 86400, -.5, .5, 1, -1, -1e-4};
             return 2400000.5 + mjd(y, rng.chance(.5) ? 1 : 7, 1) + e[rng.below(8)]; }
   case 6: { double y = 1610 + 2. * rng.below(220) + rng.uni(-2, 2) * .5; return 2451545. + (y - 2000) * 365.25; }
   case 7: if (ov.active) { const Seg &s = ov.seg[rng.below(ov.seg.size())];
             return 2451545. + (rng.uni(s.y1, s.y2) - 2000) * 365.25 + (rng.chance(.2) ? 800 : 0); }
           /* fallthrough */
   default: return 2400000.5 + mjd((int)rng.range(1955, 2060), (int)rng.range(1, 12), (int)rng.range(1, 28)) + rng.below(86400) / 86400.;
   }
}
static void check_one(double jd, const Override &ov, int mend, const char *st) {
   cur("jd=%.8f override=[%s] cutoff=%d state=%s", jd, ov.active ? ov.text.c_str() : "", mend, st);
   LD r = ref_dt(jd, ov);
   double got = td_minus_ut(jd);
   bool nb = near_break(jd, ov);
   double tol = 1e-6 + fabs((double)r) * 1e-10;
   if (!nb && !(fabs(got - (double)r) <= tol)) bad(ov.active ? "deltat-override" : "deltat", "td_minus_ut %.9f expected %.9Lf", got, r);
   bool skip; LD u = ref_utc(jd, ov, mend, &skip);
   double gu = td_minus_utc(jd);
   if (!skip && !nb && !(utc_close(gu, u, jd) || fabs(gu - (double)u) <= tol)) bad("utc", "td_minus_utc %.9f expected %.9Lf", gu, u);
   double gb = tdb_minus_utc(jd), p = tdbref(jd);
   if (!skip && !nb && !(fabs(gb - (double)u - p) < 3e-6 + fabs((double)u) * 1e-10)) bad("tdb", "tdb_minus_utc - td_minus_utc = %.9f expected %.9f", gb - (double)u, p);
   double gt = (double)tdb_minus_tdt((jd - 2451545.L) / 36525.L);
   if (!(fabs(gt - p) < 1e-9)) bad("tdb-tdt", "%.12f expected %.12f", gt, p);
   if (!(fabs(gt) < .002)) bad("tdb-range", "TDB-TT %.9f s", gt);
   /* asking again, and after other queries, gives the same answer */
   if (td_minus_utc(jd) != gu || td_minus_ut(jd) != got) bad("repeat", "answer changed on repetition");
   count("queries");
   if (jd > 2437300.5 && jd < 2441317.5) count("drift era");
   else if (jd >= 2441317.5 && jd < 2459549.5) count("leap era");
   else if (jd >= 2459549.5) count("predicted era");
   else count("pre-1961");
   if (ov.active) count("with override");
   seen(mix(hdbl(jd), hstr(ov.text)));
   if (evals % 5003 == 1) sample("jd %.5f dT %.6f TT-UTC %.6f", jd, got, gu);
}

/* ------------------------------------------------ Earth-orientation files */
struct Eop { int mjd0, n, nut, pred; double ph, amp; std::vector<double> x, y, dt, psi, eps; };
static std::string eop_file(Eop &e) {
   std::string fn = workdir + "/eop.txt";
   FILE *f = fopen(fn.c_str(), "wb");
   int blank = rng.chance(.3) ? 0 : (int)rng.range(1, 40);
   e.x.clear(); e.y.clear(); e.dt.clear(); e.psi.clear(); e.eps.clear();
   double base = 43. + rng.uni(0, 1);
   for (int i = 0; i < e.n + blank; i++) {
      char l[400]; memset(l, ' ', sizeof l); l[187] = '\n'; l[188] = 0;
      char t[60];
      int m = e.mjd0 + i;
      auto put = [&](int at, const char *s) { memcpy(l + at, s, strlen(s)); };
      snprintf(t, sizeof t, "%02d%2d%2d %5d.00", (m / 365) % 100, (m / 30) % 12 + 1, m % 28 + 1, m); put(0, t);
      if (i < e.n) {
         double ph = i * .0144 + e.ph;
         double x = .04 + .2 * sin(ph) * e.amp, y = .29 + .2 * cos(ph) * e.amp;
         double psi = -35 + 40 * sin(i * .00092 + e.ph) * e.amp, eps = -4 + 8 * cos(i * .0013 + e.ph) * e.amp;
         /* UT1-UTC from a smooth Delta-T and the leap seconds of the day */
         double dt = base + i * .0019 + .3 * sin(i * .0007 + e.ph);
         bool skip; Override no; LD u = ref_utc(2400000.5 + m + .1, no, 2147483647, &skip);
         double ut = (double)u - dt;
         ut -= floor(ut + .5);     /* any whole-second ambiguity is removed by continuity */
         put(16, i < e.pred ? "I" : "P");
         snprintf(t, sizeof t, "%9.6f", x); put(18, t); e.x.push_back(atof(t));
         snprintf(t, sizeof t, "%9.6f", .0001); put(27, t);
         snprintf(t, sizeof t, "%9.6f", y); put(37, t); e.y.push_back(atof(t));
         put(57, i < e.pred ? "I" : "P");
         snprintf(t, sizeof t, "%10.7f", ut); put(58, t); e.dt.push_back(atof(t));
         if (i < e.nut) {
            put(95, i < e.pred ? "I" : "P");
            snprintf(t, sizeof t, "%9.3f", psi); put(97, t); e.psi.push_back(atof(t));
            snprintf(t, sizeof t, "%9.3f", eps); put(116, t); e.eps.push_back(atof(t));
         }
      }
      fwrite(l, 1, 188, f);
   }
   fclose(f);
   /* the expected continuous Delta-T */
   bool skip; Override no; LD u0 = ref_utc(2400000.5 + e.mjd0 + .1, no, 2147483647, &skip);
   for (int i = 0; i < e.n; i++) {
      double v = (double)u0 - e.dt[i];
      if (i) v += floor(e.dt[i - 1] - v + .5);
      e.dt[i] = v;
   }
   return fn;
}
/* interpolated value must lie inside the hull of the four bracketing values (with the spline's overshoot) */
static void cmp(const char *k, const std::vector<double> &v, double d, double got, double scale) {
   int i = (int)floor(d);
   double lo = 1e300, hi = -1e300;
   for (int q = i - 1; q <= i + 2; q++) { lo = std::min(lo, v[q] * scale); hi = std::max(hi, v[q] * scale); }
   double s = (hi - lo) * .2 + fabs(hi) * 1e-9 + 1e-13;
   double lin = (v[i] + (v[i + 1] - v[i]) * (d - i)) * scale;
   if (!(got >= lo - s && got <= hi + s)) bad(std::string("eop-") + k, "%s at day %.6f: %.12g outside %.12g..%.12g", k, d, got, lo, hi);
   if (!(fabs(got - lin) <= (hi - lo) * .35 + fabs(hi) * 1e-9 + 1e-13)) bad(std::string("eop-") + k, "%s at day %.6f: %.12g vs linear %.12g", k, d, got, lin);
   if (d == i && !(fabs(got - v[i] * scale) < fabs(v[i] * scale) * 1e-10 + 1e-15)) bad(std::string("eop-node-") + k, "%s at node %d: %.15g in file %.15g", k, i, got, v[i] * scale);
}
static void eop_run(int runs) {
   const double AS = M_PI / 648000.;
   for (int r = 0; r < runs; r++) {
      Override no;
      Eop e; e.mjd0 = r % 2 ? 41684 : (int)rng.range(41400, 44000); e.n = 16371 + (int)rng.range(0, 2000);
      if (r % 5 == 4) e.n = 16371;
      e.nut = e.n - (int)rng.range(0, 300); e.pred = e.n - (int)rng.range(1, 400); e.ph = rng.uni(0, 6.28); e.amp = rng.uni(.2, 1.);
      std::string fn = eop_file(e);
      int fd[3] = {0, 0, 0};
      cur("load EOP file mjd0=%d n=%d nut=%d", e.mjd0, e.n, e.nut);
      int rc = load_earth_orientation_params(fn.c_str(), fd);
      if (rc != e.mjd0 + e.n - 1) bad("eop-load", "load returned %d, last day %d", rc, e.mjd0 + e.n - 1);
      if (fd[0] != e.mjd0 + e.pred - 1) bad("eop-lastobs", "last observed day %d expected %d", fd[0], e.mjd0 + e.pred - 1);
      int info[3];
      if (load_earth_orientation_params(NULL, info) != 0 || info[0] != e.mjd0 || info[1] != e.mjd0 + e.n - 1 || info[2] != e.mjd0 + e.nut - 1)
         bad("eop-info", "info %d %d %d", info[0], info[1], info[2]);
      count("eop loads");
      for (int q = 0; q < 4000; q++) {
         double d = rng.chance(.2) ? (double)rng.range(1, e.n - 3) : rng.uni(-30, e.n + 30);
         if (rng.chance(.1)) d = e.nut - 3 + rng.uni(-4, 4);
         double jd = 2400000.5 + e.mjd0 + d;
         d = jd - (2400000.5 + e.mjd0);
         int mask = rng.chance(.5) ? 31 : (int)rng.range(1, 31);
         cur("EOP day %.9f of %d (nutation %d) mask %d", d, e.n, e.nut, mask);
         earth_orientation_params p;
         int rv = get_earth_orientation_params(jd, &p, mask);
         const std::vector<double> *v[5] = {&e.x, &e.y, &e.dt, &e.psi, &e.eps};
         double got[5] = {p.dX, p.dY, p.tdt_minus_ut1, p.dPsi, p.dEps};
         double sc[5] = {AS, AS, 1., AS / 1000, AS / 1000};
         static const char *nm[5] = {"dX", "dY", "deltaT", "dPsi", "dEps"};
         for (int i = 0; i < 5; i++) {
            int n = (int)v[i]->size();
            int fl = (int)floor(d);
            bool in = fl >= 1 && fl <= n - 3, want = (mask >> i) & 1;
            if (want && in && (rv >> i & 1)) bad("eop-flag", "%s flagged missing inside the data", nm[i]);
            if (want && !in && !(rv >> i & 1)) bad("eop-flag", "%s not flagged missing outside the data", nm[i]);
            if (want && in) { cmp(nm[i], *v[i], d, got[i], sc[i]); count("eop values"); }
            else if (i == 2 && want) { LD x = ref_dt(jd, no); if (!(fabs(got[i] - (double)x) < 1e-6)) bad("eop-default", "Delta-T outside file %.6f expected %.6Lf", got[i], x); count("eop fallback"); }
            else if (i != 2 && got[i] != 0.) bad("eop-zero", "%s is %g without data", nm[i], got[i]);
         }
         if (td_minus_ut(jd) != (mask & 4 ? p.tdt_minus_ut1 : td_minus_ut(jd))) bad("eop-td", "td_minus_ut differs from the file's Delta-T");
         seen(mix(hdbl(jd), mask));
      }
      /* reload bad files: error codes, and nothing left loaded */
      std::string badf = workdir + "/bad.txt";
      FILE *f = fopen(badf.c_str(), "wb"); fprintf(f, "not an EOP file\n"); fclose(f);
      cur("bad EOP files");
      if (load_earth_orientation_params(badf.c_str(), NULL) != EOP_FILE_WRONG_FORMAT) bad("eop-bad", "wrong format not reported");
      if (load_earth_orientation_params((workdir + "/none").c_str(), NULL) != EOP_FILE_NOT_FOUND) bad("eop-bad", "missing file not reported");
      if (truncate(fn.c_str(), 188L * 16000)) {}
      if (load_earth_orientation_params(fn.c_str(), NULL) != EOP_FILE_WRONG_FORMAT) bad("eop-bad", "short file not reported");
      load_earth_orientation_params(NULL, NULL);
      for (int q = 0; q < 200; q++) check_one(pick_jd(no), no, 2147483647, "after-eop");
      unlink(fn.c_str()); unlink(badf.c_str());
   }
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (auto &l : leaps) leapmjd.push_back(mjd(l.y, l.m, 1));
   Override no;
   for (long k = 0, n = budget(60000, 3000000); k < n; k++) check_one(pick_jd(no), no, 2147483647, "fresh");
   /* exhaustive: every civil day 1960-2030 at 0h, just before, and noon */
   for (int m = mjd(1960, 1, 1); m < mjd(2031, 1, 1); m++) if (mine(m))
      for (double fr : {0., .5, 86399. / 86400}) check_one(2400000.5 + m + fr, no, 2147483647, "sweep");
   for (int y = -5000; y <= 6000; y++) if (mine(y)) check_one(2451545. + (y + rng.uni() - 2000) * 365.25, no, 2147483647, "years");
   /* histories of overrides and cut-offs */
   Override ov; int mend = 2147483647;
   for (long k = 0, n = budget(4000, 200000); k < n; k++) {
      switch (rng.below(6)) {
      case 0: case 1: ov = make_override(); { std::string *s = new std::string(ov.text); keep.push_back(s); reset_td_minus_dt_string(s->c_str()); } count("overrides set"); break;
      case 2: ov = Override(); reset_td_minus_dt_string(rng.chance(.5) ? NULL : ""); count("overrides removed"); break;
      case 3: mend = rng.chance(.4) ? 2147483647 : rng.chance(.5) ? 59215 : (int)rng.range(41317, 90000); mjd_end_of_predictive_leap_seconds = mend; count("cut-off changes"); break;
      default: break;
      }
      for (int i = 0; i < 6; i++) check_one(pick_jd(ov), ov, mend, "history");
      if (keep.size() > 2000) { for (size_t i = 0; i + 1 < keep.size(); i++) delete keep[i]; std::string *l = keep.back(); keep.clear(); keep.push_back(l); }
   }
   mjd_end_of_predictive_leap_seconds = 2147483647; reset_td_minus_dt_string(NULL);
   for (int k = 0; k < 2000; k++) check_one(pick_jd(no), no, 2147483647, "restored");
   eop_run(thorough ? 12 : 2);
   need("drift era", 1000); need("leap era", 1000); need("predicted era", 1000); need("with override", 1000); need("eop values", 1000); need("eop fallback", 10);
   return finish();
}
