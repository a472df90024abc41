/* P43: conjunct lists each closest approach of two bodies in the sky of a planet, with its time and separation, and marks what can be a transit or an occultation.
   Oracle: the apparent directions from the same stand-in ephemeris (light time iterated to the end), scanned finely; both lists are matched. */
#include "vh.h"
#include "stub/jpleph.h"
using namespace vh;
using std::string; using std::vector;
static const double D2R = M_PI / 180, AUC = 86400. * 299792.458 / 149597870.7;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[900]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &n, const string &s) { FILE *f = fopen((workdir + "/" + n).c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &n) { string s; FILE *f = fopen((workdir + "/" + n).c_str(), "rb"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); } return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static long greg(long y, int m, int d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return (153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static const char *MON = "JanFebMarAprMayJunJulAugSepOctNovDec";
static int home;
static void helio(int b, double jd, double *p) { if (!b) { p[0] = p[1] = p[2] = 0; return; } double r[6]; jpl_pleph(NULL, jd, b, 11, r, 0); memcpy(p, r, 24); }
struct Dir { double ra, dec, r; };
static Dir look(int b, double jd) { double h[3], p[3], r = 0; helio(home, jd, h); for (int k = 0; k < 6; k++) { helio(b, jd - r / AUC, p); double q = 0; for (int j = 0; j < 3; j++) { p[j] -= h[j]; q += p[j] * p[j]; } r = sqrt(q); } return {atan2(p[1], p[0]), asin(p[2] / r), r}; }
/* the program's measure: difference in right ascension foreshortened by the mean declination, and in declination */
static double sep(const Dir &a, const Dir &b) { double d = remainder(a.ra - b.ra, 2 * M_PI) * cos((a.dec + b.dec) / 2); return hypot(d, a.dec - b.dec); }
static double sep(int a, int b, double jd) { return sep(look(a, jd), look(b, jd)); }
/* how evenly the squared separation curves near jd: where it turns over again within two steps, five parabolas in a row need not lead to the minimum */
static bool even(int a, int b, double jd, double step) { double h = step * .1, c[41]; for (int k = 0; k <= 40; k++) { double q[3]; for (int m = 0; m < 3; m++) { double s = sep(a, b, jd + (k - 20 + m - 1) * h); q[m] = s * s; } c[k] = q[0] + q[2] - 2 * q[1]; } for (double x : c) if (x < .3 * c[20] || x > 3 * c[20]) return false; return true; }
struct Ev { int i, j; double jd, s; bool seen; };
static void one() {
   static const double R[11] = {696265, 2439, 6051, 6378, 3393, 71398, 60000, 25400, 25295, 1137, 1737.53}, F[11] = {0, 0, 0, .00335281, .0051865, .0648088, .1076209, .03, .022, 0, 0};
   home = rng.chance(.6) ? 3 : (int)rng.range(1, 9); bool used[11]; int nu = 0; string mask; bool given = rng.chance(.7); for (int b = 0; b < 11; b++) { used[b] = given ? rng.chance(.4) : true; mask += used[b] ? '1' : '0'; if (b == home) used[b] = false; if (used[b]) nu++; } if (home == 10) return;
   bool moon = used[10] || home == 10; double t0 = floor(rng.uni(1900, 2098) * 1000) / 1000, dt = moon ? rng.uni(.0012, .002) : rng.uni(.002, .006), span = rng.uni(.05, moon ? .5 : 2.5); if (nu > 6) span = std::min(span, .4); dt = floor(dt * 1e5) / 1e5; double tm = floor((t0 + span) * 1000) / 1000; bool occ = rng.chance(.2), noeph = rng.chance(.04);
   if (moon && home == 3 && rng.chance(.5)) { occ = rng.chance(.7); }
   vector<string> av = {tools + "/conjunct", fmt("%.3f", t0), fmt("%.5f", dt), fmt("m%.3f", tm), noeph ? "enone.eph" : "eeph.bin"}; put("eph.bin", "x"); if (given) av.push_back("u" + mask); if (home != 3) av.push_back(fmt("v%d", home)); if (occ) av.push_back("o"); unlink((workdir + "/d:\\z2").c_str());
   string c; for (size_t k = 1; k < av.size(); k++) c += " " + av[k]; cur("conjunct%s", c.c_str()); seen(hstr(c)); string out; int r = run(av, &out); if (noeph) { if (r == 0 || out.find("'none.eph' not opened") == string::npos) bad("no-ephemeris", "exit %d: %.200s", r, out.c_str()); count("no_ephemeris"); return; } if (r) { bad("exit", "exit %d: %.300s", r, out.c_str()); return; }
   auto J = [](double t) { return 2451545 + (t - 2000) * 365.25; }; double step = dt * 365.25, a = J(t0), z = J(tm); vector<Ev> E;
   for (int i = 0; i < 11; i++) for (int j = 0; j < i; j++) if (used[i] && used[j] && !(i == 10 && j == 3)) { double h = std::min(step / 2, moon ? .25 : .6), p[3] = {9, 9, 9}; for (double t = a; t <= z + h; t += h) { p[0] = p[1]; p[1] = p[2]; p[2] = sep(i, j, t); if (t > a + 1.5 * h && p[1] < p[0] && p[1] <= p[2]) { double lo = t - 2 * h, hi = t; for (int k = 0; k < 60; k++) { double u = lo + (hi - lo) * .382, v = lo + (hi - lo) * .618; if (sep(i, j, u) < sep(i, j, v)) hi = v; else lo = u; } E.push_back({i, j, (lo + hi) / 2, sep(i, j, (lo + hi) / 2), false}); } } }
   vector<string> L = lines(out), Z = lines(get("d:\\z2")); size_t nz = 0;
   for (auto &l0 : L) { string l = l0; size_t cr = l.rfind('\r'); if (cr != string::npos) l = l.substr(cr + 1); if (l.empty()) continue; int i, j, d, y, hh, mi, ss; double s; char mo[5]; string m = l.size() > 12 ? l.substr(5, 2) : ""; string v = l; if (l.size() > 12) { if (isalpha((unsigned char)v[5])) v[5] = ' '; if (v[6] == '?') v[6] = ' '; } if (v.size() < 14) { bad("form", "'%s'", l.c_str()); continue; } i = atoi(v.substr(0, 2).c_str()); j = atoi(v.substr(3, 2).c_str()); s = atof(v.substr(5, 7).c_str()); if (sscanf(v.c_str() + 12, "%d %3s %d %d:%d:%d", &d, mo, &y, &hh, &mi, &ss) != 6 || !strstr(MON, mo)) { bad("form", "'%s'", l.c_str()); continue; }
      double jd = greg(y, (int)((strstr(MON, mo) - MON) / 3) + 1, d) - .5 + (hh * 3600 + mi * 60 + ss) / 86400.; if (i < 0 || i > 10 || j < 0 || j >= i || !used[i] || !used[j]) { bad("bodies", "'%s' with%s", l.c_str(), c.c_str()); continue; }
      Ev *e = NULL; for (auto &x : E) if (x.i == i && x.j == j && fabs(x.jd - jd) < .5 && (!e || fabs(x.jd - jd) < fabs(e->jd - jd))) e = &x; double now = sep(i, j, jd);
      if (!e) { /* on the edge of the span, perhaps */ bool odd = false; for (auto &x : E) if (x.i == i && x.j == j && fabs(x.jd - jd) < 12 * step && !even(i, j, x.jd, step)) odd = true; if (odd) count("uneven"); else if (jd > a + 2 * step && jd < z - 2 * step) bad("no-such-event", "'%s': separation %.4f then; %.4f and %.4f a step before and after", l.c_str(), now / D2R, sep(i, j, jd - step) / D2R, sep(i, j, jd + step) / D2R); nz++; continue; }
      if (e->seen) { bad("twice", "'%s'", l.c_str()); continue; } e->seen = true; if (!even(i, j, e->jd, step)) { count("uneven"); nz++; continue; } if (fabs(s - e->s / D2R) > .0011 + (e->s > 1 ? 3e-5 * e->s / D2R : 0)) bad("separation", "'%s': it is %.5f", l.c_str(), e->s / D2R); if (fabs(jd - e->jd) > .02 && now > e->s + 2e-5) bad("time", "'%s': %.4f, not %.4f (JD), where the separation is %.5f", l.c_str(), jd, e->jd, e->s / D2R);
      Dir A = look(i, e->jd), B = look(j, e->jd); bool in = A.r < B.r; int n = in ? i : j, f = in ? j : i; double dn = in ? A.r : B.r, df = in ? B.r : A.r; auto lim = [&](bool pol) { auto rad = [&](int b) { return R[b] * (pol ? 1 - F[b] : 1); }; return (rad(home) * (1 - dn / df) + rad(f) * dn / df + rad(n)) / dn / 149597870.7; }; double lo = lim(true), hi = lim(false), q = e->s, eps = 2e-6; char want = q < hi - eps ? (j ? 'M' : in ? 'T' : 0) : q > hi + eps ? 0 : '*';
      if (want != '*') { char g = isalpha((unsigned char)m[0]) ? m[0] : 0; if (g != want) bad("mark", "'%s': the limit is %.5f degrees, the separation %.5f; Sun nearer: %d", l.c_str(), hi / D2R, q / D2R, !j && !in); if (fabs(q - lo) > eps) { bool poss = q < hi && q > lo; if ((m[1] == '?') != poss) bad("possible", "'%s': between %.6f and %.6f?  %.6f", l.c_str(), lo / D2R, hi / D2R, q / D2R); } }
      if (occ && !isalpha((unsigned char)m[0])) bad("not-occultation", "'%s'", l.c_str()); if (isalpha((unsigned char)m[0])) count(m[0] == 'T' ? "transits" : "occultations"); count("events"); sample("%s", l.c_str());
      if (nz < Z.size()) { string w = l; if (w.size() > 13) w[13] = '^'; w += "//tdj"; size_t p = w.size(); double lj = Z[nz].size() > p ? atof(Z[nz].c_str() + p) : 0; if (Z[nz].compare(0, p, w) || fabs(lj - jd) > 1.2e-3 || Z[nz].find(fmt(";gp%02d;gp%02d^", i, j)) != Z[nz].size() - 11) bad("log", "'%s' for '%s'", Z[nz].c_str(), l.c_str()); nz++; } else bad("log", "'%s' is not in the log", l.c_str()); }
   for (auto &e : E) if (!e.seen && e.jd > a + 2.6 * step && e.jd < z - 2.6 * step) { bool alone = true; for (auto &x : E) if (&x != &e && x.i == e.i && x.j == e.j && fabs(x.jd - e.jd) < 4 * step) alone = false; double mx = std::min(sep(e.i, e.j, e.jd - step), sep(e.i, e.j, e.jd + step)), far = std::min(sep(e.i, e.j, e.jd - 2 * step), sep(e.i, e.j, e.jd + 2 * step)); if (!alone || !even(e.i, e.j, e.jd, step) || mx < e.s + 1e-7 || far < mx) { count("shallow"); continue; }
      if (occ) { Dir A = look(e.i, e.jd), B = look(e.j, e.jd); bool in = A.r < B.r; int n = in ? e.i : e.j, f = in ? e.j : e.i; double dn = in ? A.r : B.r, df = in ? B.r : A.r, hi = (R[home] * (1 - dn / df) + R[f] * dn / df + R[n]) / dn / 149597870.7; if (e.s > hi - 2e-6 || (!e.j && !in)) continue; }
      bad("missed", "bodies %d and %d, JD %.4f, %.4f degrees", e.i, e.j, e.jd, e.s / D2R); }
   count("runs"); }
int main(int argc, char **argv) { init(argc, argv); long n = mode == "san" ? budget(15, 150) : budget(60, 1500); for (long i = 0; i < n; i++) one(); if (mode != "san") for (auto k : {"runs", "events", "occultations", "transits"}) need(k, 3); return finish(); }
