/* P39: jevent lists the transits, shadows, occultations and eclipses of Jupiter's four great moons that can be seen from the Earth, all
   of them and no others, in order, at the right minute, on the screen, in its file and in its binary record. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include <sys/stat.h>
using namespace vh;
using std::string; using std::vector;
#include "vsopgen.h"
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static VgFile vf;
static const double AUK = 149597870.7, RJ = 71492., PER[4] = {1.769138, 3.551181, 7.154553, 16.689018};
/* heliocentric place, AU, ecliptic of date, from the file's own terms (p: 2 the Earth, 4 Jupiter) */
static void helio(int p, double jd, double *v) {
   double T = (jd - 2451545) / 365250, c[3];
   for (int k = 0; k < 3; k++) { double s = 0, tp = 1; for (int o = 0; o < 6; o++, tp *= T) { int x = p * 18 + k * 6 + o; double q = 0; for (int i = vf.idx[x]; i < vf.idx[x + 1]; i++) q += vf.t[i].a * cos(vf.t[i].b + vf.t[i].c * T); s += q * tp; } c[k] = s * 1e-8; }
   v[0] = c[2] * cos(c[1]) * cos(c[0]); v[1] = c[2] * cos(c[1]) * sin(c[0]); v[2] = c[2] * sin(c[1]);
}
struct Pos { double E[3], J[3]; };
struct View { double x, y, front, lt; };
static void jsat(int k, double jd, double *s) { double b[15]; memset(b, 0, sizeof b); calc_jsat_loc(jd, b, 1 << k, 0L); for (int i = 0; i < 3; i++) s[i] = b[3 * k + i]; }
/* where the moon is before or behind the planet, in its radii, as seen from the Earth (who = 1) or the Sun */
static View view(int who, const Pos &p, const double *s) {
   double d[3], r = 0, lt = 0; for (int i = 0; i < 3; i++) { d[i] = p.J[i] - (who ? p.E[i] : 0); r += d[i] * d[i]; lt += (p.J[i] - p.E[i]) * (p.J[i] - p.E[i]); } r = sqrt(r);
   double h = hypot(d[0], d[1]), e[3] = {-d[1] / h, d[0] / h, 0}, n[3] = {-d[2] * d[0] / h / r, -d[2] * d[1] / h / r, h / r}; View v; v.front = 0; v.x = v.y = 0;
   for (int i = 0; i < 3; i++) { v.x += s[i] * e[i]; v.y += s[i] * n[i]; v.front -= s[i] * d[i] / r; }
   v.y *= 1.071374; v.lt = sqrt(lt) * AUK / 299792.458 / 86400; return v;
}
struct Ev { int sat, type; bool start; double t; /* TT, as seen */ double sharp; /* half chord */ bool sure, hidden, hsure, used; };
static vector<Ev> truth(int mask, double t1, double t2) {
   vector<Ev> ev; double st = 4. / 1440; size_t N = (size_t)((t2 - t1 + 3) / st) + 2; vector<Pos> P(N); double t0 = t1 - 1.5;
   auto at = [&](double t) { Pos p; helio(2, t, p.E); helio(4, t, p.J); return p; };
   /* planets move slowly: place them hourly and interpolate */
   size_t M = (size_t)((t2 - t1 + 3) * 24) + 4; vector<Pos> H(M); for (size_t i = 0; i < M; i++) H[i] = at(t0 + i / 24. - 1 / 24.);
   auto pos = [&](double t) { double x = (t - t0) * 24 + 1; size_t i = (size_t)x; if (i + 1 >= M) i = M - 2; double f = x - i; Pos p; for (int k = 0; k < 3; k++) { p.E[k] = H[i].E[k] * (1 - f) + H[i + 1].E[k] * f; p.J[k] = H[i].J[k] * (1 - f) + H[i + 1].J[k] * f; } return p; };
   for (int k = 0; k < 4; k++) if (mask >> k & 1) {
      vector<Ev> mine; struct Span { double a, b; int who; bool front; double minr; }; vector<Span> sp;
      auto f = [&](int who, double t, View *w) { double s[3]; jsat(k, t, s); View v = view(who, pos(t), s); if (w) *w = v; return v.x * v.x + v.y * v.y - 1; };
      vector<double> fv[2]; vector<double> front[2]; for (int who = 0; who < 2; who++) { fv[who].resize(N); front[who].resize(N); }
      for (size_t i = 0; i < N; i++) { double s[3]; jsat(k, t0 + i * st, s); Pos p = pos(t0 + i * st); for (int who = 0; who < 2; who++) { View v = view(who, p, s); fv[who][i] = v.x * v.x + v.y * v.y - 1; front[who][i] = v.front; } }
      for (int who = 0; who < 2; who++) for (size_t i = 1; i + 1 < N; i++) { /* local minimum of the distance */
            if (!(fv[who][i] <= fv[who][i - 1] && fv[who][i] < fv[who][i + 1] && fv[who][i] < 3)) continue;
            View v; f(who, t0 + i * st, &v); double m = sqrt(std::max(0., fv[who][i] + 1)); bool sure = m < .97; if (m > 1.05) continue;
            size_t a = i, b = i; while (a > 0 && fv[who][a] < 0) a--; while (b + 1 < N && fv[who][b] < 0) b++; if (fv[who][a] < 0 || fv[who][b] < 0) continue;
            double A[2]; if (fv[who][i] >= 0) A[0] = A[1] = t0 + i * st; else for (int q = 0; q < 2; q++) { double lo = q ? t0 + (b - 1) * st : t0 + a * st, hi = q ? t0 + b * st : t0 + (a + 1) * st; for (int it = 0; it < 40; it++) { double md = .5 * (lo + hi); if ((f(who, md, NULL) < 0) == (q == 0)) hi = md; else lo = md; } A[q] = .5 * (lo + hi); }
            sp.push_back({A[0], A[1], who, v.front > 0, m}); for (int q = 0; q < 2; q++) { View w; f(who, A[q], &w); Ev e; e.sat = k + 1; e.type = (v.front > 0 ? 1 : 0) | (who ? 0 : 2); e.start = q == 0; e.t = A[q] + w.lt; e.sharp = sqrt(std::max(0., 1 - m * m)); e.sure = sure; e.hidden = false; e.hsure = true; e.used = false; 
               mine.push_back(e); } }
      for (size_t i = 0; i < mine.size(); i++) { Ev &e = mine[i]; double em = e.start ? 0 : 0; (void)em; const Span &own = sp[i / 2]; double t = e.start ? own.a : own.b;
         for (auto &s : sp) if (!s.front && s.who != own.who) { double g = s.minr > .9 ? .04 : 8. / 1440; if (s.minr > .97) { if (t > s.a - .1 && t < s.b + .1) e.hsure = false; continue; } if (e.sharp < .4) g = .06; if (t > s.a + g && t < s.b - g) e.hidden = true; else if (t > s.a - g && t < s.b + g) e.hsure = false; } }
      for (auto &e : mine) ev.push_back(e);
   }
   return ev;
}
static double maxdev[4];
static const char *TY[] = {"Occ", "Tra", "Ecl", "Sha"};
struct Rep { int sat, type; bool start; double ut; string l; };
static bool parse(const string &l, Rep &r) {
   char ty[8], se[8], mon[8]; int y, d, h, m; r.l = l; if (sscanf(l.c_str(), "sat %d: %3s %5[a-z]", &r.sat, ty, se) != 3) return false; size_t p = l.rfind(": "); if (p == string::npos || p < 8) return false;
   r.type = -1; for (int i = 0; i < 4; i++) if (!strcmp(ty, TY[i])) r.type = i; if (strcmp(se, "start") && strcmp(se, "end")) return false; r.start = !strcmp(se, "start");
   if (sscanf(l.c_str() + p + 2, "%d %3s %d %d:%d", &d, mon, &y, &h, &m) != 5 || r.type < 0) return false; 
   if (d > 31) std::swap(d, y); static const char *MN = "JanFebMarAprMayJunJulAugSepOctNovDec"; const char *q = strstr(MN, mon); if (!q) return false; int mo = (int)(q - MN) / 3 + 1;
   long a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3; r.ut = (double)((153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045) - .5 + h / 24. + m / 1440.; return h < 24 && m < 60;
}
static void one() {
   static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int y = rng.chance(.6) ? (int)rng.range(1950, 2060) : (int)rng.range(1601, 2390), mo = (int)rng.range(1, 12), d = (int)rng.range(1, ML[mo - 1]); bool jul = rng.chance(.15), quiet = rng.chance(.2), file = quiet || rng.chance(.5), data = rng.chance(.5);
   int mask = rng.chance(.5) ? 15 : rng.chance(.1) ? 0 : (int)rng.range(1, 15), nd = rng.chance(.3) ? 30 : rng.chance(.1) ? 0 : (int)rng.range(1, 60); double fr = rng.chance(.3) ? floor(rng.uni() * 1000) / 1000 : 0;
   vector<string> av = {tools + "/jevent", fr ? fmt("%.3f", d + fr) : fmt("%d", d), fmt("%d", mo), fmt("%d", y)}; string of = workdir + "/j.txt", df = workdir + "/j.bin"; remove(of.c_str()); remove(df.c_str());
   if (jul) av.push_back("-j"); if (quiet) av.push_back(rng.chance(.5) ? "-q" : "-Q"); if (mask != 15 || rng.chance(.3)) av.push_back(fmt("-s%d", mask)); if (nd != 30 || rng.chance(.3)) av.push_back(fmt("-%c%d", "dD"[rng.below(2)], nd)); if (file) av.push_back("-fj.txt"); string before; if (data) { av.push_back("-rj.bin"); if (rng.chance(.4)) { before = "prior records__"; put(df, before); } }
   string cmd; for (size_t i = 1; i < av.size(); i++) cmd += " " + av[i]; cur("jevent%s", cmd.c_str());
   string out; int rv = run(av, &out); if (rv) { bad(fmt("exit%d", rv), "%.500s", out.c_str()); return; }
   long a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3; double t1 = (double)((153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32045) - .5 + d + fr + (jul ? -38 : -yy / 100 + yy / 400), t2 = t1 + nd;
   seen(hstr(cmd)); vector<string> L; 
   if (!quiet) { size_t p = out.find("Final results:\n"); if (p == string::npos) { bad("no-results", "%.500s", out.c_str()); return; } L = lines(out.substr(p + 15)); }
   if (file) { vector<string> G = lines(get(of)); if (quiet) L = G; else if (G != L) bad("file", "the file lists %zu events, the screen %zu", G.size(), L.size()); count("files"); }
   vector<Rep> R; for (auto &l : L) { Rep r; if (!parse(l, r)) { bad("form", "'%s'", l.c_str()); return; } R.push_back(r); if (!(mask >> (r.sat - 1) & 1)) bad("unasked-moon", "'%s'", l.c_str()); }
   for (size_t i = 1; i < R.size(); i++) if (R[i].ut < R[i - 1].ut) bad("order", "'%s' after '%s'", R[i].l.c_str(), R[i - 1].l.c_str());
   vector<Ev> E = truth(mask, t1, t2); double dT = td_minus_ut(t1) / 86400;
   for (auto &r : R) { double t = r.ut + dT, best = 1e9; Ev *b = NULL; for (auto &e : E) if (e.sat == r.sat && e.type == r.type && e.start == r.start && fabs(e.t - t) < best) { best = fabs(e.t - t); b = &e; }
      if (t < t1 - 2. / 1440 || t > t2 + 2. / 1440) bad("outside", "'%s' is not within the span asked for", r.l.c_str());
      if (!b || best > .1) { bad("false-event", "'%s': no such event (nearest %.1f minutes off)", r.l.c_str(), best * 1440); continue; }
      if (b->used) bad("twice", "'%s' is listed twice", r.l.c_str()); b->used = true; if (b->hsure && b->hidden) bad("hidden", "'%s' cannot be seen: the moon is then %s", r.l.c_str(), r.type == 0 ? "in Jupiter's shadow" : "behind Jupiter");
      if (b->sharp > .4) { double tol = r.sat == 4 ? 3.6 / 1440 : 2.6 / 1440; maxdev[r.sat - 1] = std::max(maxdev[r.sat - 1], best * 1440); if (best > tol) bad("time", "'%s' is %.2f minutes off", r.l.c_str(), best * 1440); count("timed"); }
      count(TY[r.type]); }
   for (auto &e : E) if (!e.used && e.sure && e.hsure && !e.hidden && e.t > t1 + 8. / 1440 && e.t < t2 - 8. / 1440) { char b[80]; full_ctime(b, e.t - dT, FULL_CTIME_FORMAT_HH_MM); bad("missed", "moon %d, %s %s at %s is not listed", e.sat, TY[e.type], e.start ? "start" : "end", b); }
   for (auto &e : E) if (e.hsure && e.hidden && !e.used) count("hidden");
   if (data) { string B = get(df); if (B.compare(0, before.size(), before)) bad("data-append", "earlier records were lost"); B = B.substr(std::min(B.size(), before.size())); if (B.size() != 5 * R.size()) bad("data-count", "%zu bytes for %zu events", B.size(), R.size()); else for (size_t i = 0; i < R.size(); i++) { int32_t t; memcpy(&t, B.data() + 5 * i, 4); int c = (unsigned char)B[5 * i + 4]; double ut = t / 1440. + 2451545 - dT; if (fabs(ut - R[i].ut) > 2.2 / 1440 || (c & 3) != R[i].type || ((c >> 2) & 1) != R[i].start || c >> 3 != R[i].sat) bad("data-record", "record %zu: minute %d, byte %d, for '%s'", i, t, c, R[i].l.c_str()); count("records"); } }
   if (!R.empty()) sample("%s", R[0].l.c_str());
   count("runs");
}
int main(int argc, char **argv) {
   init(argc, argv); vf = vg_make(); put(workdir + "/vsop.bin", string(vf.vsop.begin(), vf.vsop.end()));
   long n = mode == "san" ? budget(16, 100) : budget(160, 6000);
   for (long i = 0; i < n; i++) one();
   if (mode != "san") for (auto k : {"Occ", "Tra", "Ecl", "Sha", "hidden", "timed", "records", "files"}) need(k, 50);
   for (int k = 0; k < 4; k++) count(fmt("largest_error_moon%d_hundredths_of_minute", k + 1).c_str(), (long)(maxdev[k] * 100));
   for (auto f : {"/vsop.bin", "/j.txt", "/j.bin"}) unlink((workdir + f).c_str());
   return finish();
}
