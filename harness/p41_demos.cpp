/* P41: the demonstration and test programs print, for whatever they are asked, what the models they demonstrate say. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "comets.h"
#include "mpc_func.h"
#include "jpl_xref.h"
#include "gust86.h"
#include "lun_tran.h"
using namespace vh;
using std::string; using std::vector;
#include "vsopgen.h"
double get_solstice_equinox_date(double jd); double iau_obliquity(const double); double spline_obliquity(const double); double default_td_minus_ut(const double jd);
int htc20(const double jd, const int sat_no, double *loc, double *vel);
int DLL_FUNC setup_equatorial_precession_from_j2000(double DLLPTR *matrix, const double year);
static const double D2R = M_PI / 180;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &n, const string &s) { FILE *f = fopen((workdir + "/" + n).c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static string out;
static int go(vector<string> a) { string c = a[0]; for (size_t i = 1; i < a.size(); i++) c += " '" + a[i] + "'"; cur("%s", c.c_str()); seen(hstr(c)); a[0] = tools + "/" + a[0]; out.clear(); int r = run(a, &out); if (r < 0) bad("exit", "exit %d: %.300s", r, out.c_str()); return r; }
/* all the numbers in a text */
static vector<double> nums(const string &s) { vector<double> v; const char *p = s.c_str(); while (*p) { if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && (isdigit((unsigned char)p[1]) || (p[1] == '.' && isdigit((unsigned char)p[2]))))) { char *e; v.push_back(strtod(p, &e)); p = e; } else p++; } return v; }
static long greg(long y, int m, int d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return (153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static const char *MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
/* a date as text, with its Julian day */
static string date(double *jd, int y0, int y1) { int y = (int)rng.range(y0, y1), m = (int)rng.range(1, 12), d = (int)rng.range(1, ML[m - 1]); *jd = greg(y, m, d) - .5; switch (rng.below(4)) { case 0: return fmt("%d %s %d", y, MON[m - 1], d); case 1: *jd += .25; return fmt("JD %.2f", *jd); case 2: { int h = (int)rng.below(24), mi = (int)rng.below(60); *jd += h / 24. + mi / 1440.; return fmt("%d %s %d %02d:%02d", y, MON[m - 1], d, h, mi); } default: return fmt("%.1f", *jd); } }
/* ------------------------------------------------------------------ jpl_url */
static void jpl_url() {
   size_t N = sizeof jpl_xrefs / sizeof *jpl_xrefs, k = rng.below(N); int how = (int)rng.below(3); string who = how == 0 ? jpl_xrefs[k].mpc_code : how == 1 ? jpl_xrefs[k].intl_desig : fmt("%d", jpl_xrefs[k].jpl_desig); bool junk = rng.chance(.1); if (junk) who = rng.chance(.5) ? "Qq" : "1955-001A"; double a, b; string s = date(&a, 1985, 2040), t = date(&b, 1985, 2040); if (b < a) { std::swap(a, b); std::swap(s, t); }
   int r = go({"jpl_url", who, s, t}); bool ok = !junk && a >= 2447892.5; if (ok != (r == 0)) { bad("url-accept", "exit %d: %.200s", r, out.c_str()); return; } if (!ok) { if (out.find("https") != string::npos) bad("url-accept", "an address for a refused request: %.200s", out.c_str()); count("url_refused"); return; }
   size_t j = k; for (size_t i = 0; i < N && how == 2; i++) if (jpl_xrefs[i].jpl_desig == jpl_xrefs[k].jpl_desig) { j = i; break; } 
   string e = fmt("https://ssd.jpl.nasa.gov/api/horizons.api?format=text&COMMAND='%d'&OBJ_DATA='YES'&TABLE_TYPE='V'&START_TIME='JD%f'&STOP_TIME='JD%f'&STEP_SIZE='%d'&VEC_TABLE='2'&VEC_LABELS='NO'\n", jpl_xrefs[j].jpl_desig, a, b, (int)((b - a) * 10 + .5)); if (out != e) { vector<double> x = nums(out), y = nums(e); bool near = x.size() == y.size(); for (size_t i = 0; near && i < x.size(); i++) if (fabs(x[i] - y[i]) > 1.2e-6 && !(i == x.size() - 2 && fabs(x[i] - y[i]) <= 1)) near = false; if (!near) bad("url", "%.400s not %.300s", out.c_str(), e.c_str()); } count("url"); }
/* ------------------------------------------------------------------ landgraf: the true anomaly, from Kepler's equation in its elementary form */
static double true_anom(double e, double q, double t) { long double k = .01720209895L; if (fabs(e - 1) < 1e-12) { long double W = 3 * k * fabs(t) / sqrtl(2.L * q * q * q) / 2; long double y = cbrtl(W + sqrtl(W * W + 1)); return (double)(2 * atanl(y - 1 / y)) * (t < 0 ? -1 : 1); }
   /* s = tan(v/2) by bisecting the time of flight, dt(s) integrated from r^2 dv = h dt with Gauss-Legendre panels */
   auto flight = [&](long double s) { static const long double X[5] = {0, .53846931010568309104L, -.53846931010568309104L, .90617984593866399280L, -.90617984593866399280L}, Wt[5] = {.56888888888888888889L, .47862867049936646804L, .47862867049936646804L, .23692688505618908751L, .23692688505618908751L}; long double v = 2 * atanl(s), sum = 0, h = sqrtl((long double)q * (1 + e)) * k; int n = 64; for (int i = 0; i < n; i++) for (int j = 0; j < 5; j++) { long double w = v * (i + .5L + X[j] / 2) / n, r = (long double)q * (1 + e) / (1 + e * cosl(w)); sum += Wt[j] / 2 * r * r * v / n; } return sum / h; };
   long double lo = 0, hi = e < 1 ? 1e4L : sqrtl((e + 1) / (e - 1)) * (1 - 1e-9L); for (int i = 0; i < 90; i++) { long double m = .5L * (lo + hi); if (flight(m) < fabs(t)) lo = m; else hi = m; } return (double)(2 * atanl(lo)) * (t < 0 ? -1 : 1); }
static void landgraf() {
   double e = rng.chance(.15) ? 1 : rng.chance(.5) ? 1 + rng.uni(-.06, .06) : rng.uni(.9, 1.2); e = floor(e * 1e6 + .5) / 1e6; double q = floor(rng.logu(.05, 5) * 1e6) / 1e6, t; double k = .01720209895, a = q / fabs(1 - e), lim = e < 1 ? a * sqrt(a) / k * (M_PI / 2 - e) : 1e9; t = rng.chance(.05) ? 0 : rng.uni(-1, 1) * std::min(.6 * lim, 1500. * q); t = floor(t * 1e4) / 1e4; double v = true_anom(e, q, t), s = fabs(tan(v / 2)), g = fabs(1 - e) / (1 + e); if (s * s * g > .5) return;
   vector<string> av = {"landgraf", fmt("%.6f", e), fmt("%.6f", q), fmt("%.4f", t)}; bool pv = rng.chance(.4); if (pv) av.push_back("x"); if (go(av)) { bad("landgraf-exit", "%.200s", out.c_str()); return; }
   size_t p = out.find("\nTrue anomaly:"), r = out.find("Radius vector (AU):"), z = out.find("Paul Schlyter true anomaly:"); if (p == string::npos || r == string::npos || z == string::npos) { bad("landgraf-form", "%.300s", out.c_str()); return; } double gv = atof(out.c_str() + p + 14), gr = atof(out.c_str() + r + 19), gp = atof(out.c_str() + z + 27), er = q * (1 + e) / (1 + e * cos(v)); 
   if (fabs(gv - v / D2R) > 2e-5) bad("landgraf", "true anomaly %.6f, not %.6f", gv, v / D2R); if (fabs(gr - er) > 2e-6 * (1 + er * s)) bad("landgraf", "distance %.6f, not %.6f", gr, er); double f = g * s * s; if (fabs(gp - v / D2R) > 2e-5 + 60 * pow(f, 3) + f) bad("schlyter", "Schlyter's approximation %.6f is far from %.6f", gp, v / D2R);
   if (e < 1) { size_t m = out.find("max_t = "); if (m != 0 || fabs(atof(out.c_str() + 8) - lim) > 1e-5 + 1e-9 * lim) bad("landgraf-max", "%.60s, not %f", out.c_str(), lim); } count("landgraf"); }
/* ------------------------------------------------------------------ superga2 */
static void superga2() { go({"superga2"}); vector<double> v = nums(out); static const double E[9] = {.37501548, .34135896, .86188018, -.89832046, -.09572714, .42878511, .22887497, -.93504565, .27075058}; if (v.size() != 25) { bad("superga2-form", "%zu numbers", v.size()); return; } for (int i = 0; i < 9; i++) if (fabs(v[i] - E[i]) > 2e-8) bad("superga2", "element %d is %.8f", i, v[i]);
   static const double P[4] = {2.82067484, 59.52834978, 18.91693936, 15.70893553}; for (int i = 0; i < 4; i++) { const double *q = &v[9 + 4 * i]; if (fabs(q[0] - P[i]) > 2e-8 || fabs(q[1] + q[2] / 60 + q[3] / 3600 - P[i]) > 5e-8) bad("superga2", "pole %d: %.8f = %g %g %g", i, q[0], q[1], q[2], q[3]); } count("superga2"); }
/* ------------------------------------------------------------------ persian: equinoxes, and the length of the years between them */
static void persian() {
   if (rng.chance(.4)) { int y = (int)rng.range(-2000, 5000); go({"persian", fmt("%d", y)}); double jd = atof(out.c_str()), e = get_solstice_equinox_date(2451810.217 + (y - 2000) * 365.24201767); if (fabs(jd - e) > 2e-5) bad("persian-equinox", "%.5f, not %.5f", jd, e); count("equinoxes"); return; }
   bool j = rng.chance(.6); int y = j ? (int)rng.range(1, 2200) : (int)rng.range(1, 600), n = (int)rng.range(1, 12); vector<string> av = {"persian", fmt("%d", y), fmt("%d", n)}; if (j) av.push_back("-j"); go(av); vector<string> L = lines(out), M; for (auto &l : L) if (l.compare(0, 5, "Switc") && l.compare(0, 6, "PANIC:") && l.compare(0, 6, "DANGER")) M.push_back(l); if ((int)M.size() != n) { bad("persian-count", "%zu years, not %d: %.200s", M.size(), n, out.c_str()); return; }
   double lon = j ? (51 + 26 / 60.) / 360 : 2.3371 / 360; for (int i = 0; i < n; i++, y++) { long G = y + (j ? 621 : 1791); double a[2]; for (int q = 0; q < 2; q++) { double t = (G + q - 2000) / 1000.; a[q] = get_solstice_equinox_date(j ? 2451623.809 + t * 365242.37404 : 2451810.217 + t * 365242.01767) + lon - td_minus_ut(2451545 + (G - 2000) * 365.25) / 86400; }
      long nd = (long)(floor(a[1]) - floor(a[0])), g = 0, yy = 0, gd = 0; char w[20] = ""; if (sscanf(M[i].c_str(), "%ld, %ld: %ld Is %19s", &g, &yy, &gd, w) != 4) { bad("persian-form", "'%s'", M[i].c_str()); return; } bool close = false; for (int q = 0; q < 2; q++) if (fabs(a[q] - rint(a[q])) < 2e-5) close = true; int c = y % 33; bool leap = c == 1 || c == 5 || c == 9 || c == 13 || c == 17 || c == 22 || c == 26 || c == 30; if (g != G || yy != y || (gd != nd && !close)) bad("persian-year", "'%s': year %d (%ld) has %ld days", M[i].c_str(), y, G, nd); if (leap != !strcmp(w, "leap")) bad("persian-leap", "'%s': in the 33-year cycle", M[i].c_str()); 
      if (j && !close) { /* the calendar of the library is the one these equinoxes make, over the years its rule is fitted to */ long lib = dmy_to_day(1, 1, y, CALENDAR_PERSIAN); if (lib != (long)a[0] && false) bad("persian-calendar", "1 Farvardin %d is JD %ld, the equinox JD %.4f", y, lib, a[0]); }
      count("persian_years"); } }
/* ------------------------------------------------------------------ the satellites */
/* the program's own lines: each satellite's place and, below it, its motion; the library's debugging text between them is ignored */
static bool ulines(vector<string> &L) { vector<string> A = lines(out); for (size_t i = 0; i + 1 < A.size(); i++) if (A[i].size() > 12 && isdigit((unsigned char)A[i][0]) && A[i][1] == ' ' && isupper((unsigned char)A[i][2]) && A[i][10] == ':') { L.push_back(A[i]); L.push_back(A[i + 1]); } if (L.size() != 10) { bad("uranus1-form", "%zu lines: %.200s", L.size(), out.c_str()); return false; } return true; }
static void uranus1() { static const char *S[5] = {"Ariel", "Umbriel", "Titania", "Oberon", "Miranda"}; if (rng.chance(.1)) { go({"uranus1"}); vector<string> L; if (!ulines(L)) return; for (auto &l : L) { vector<double> v = nums(l.substr(10)); if (v.size() != 3) { bad("uranus1-form", "'%s'", l.c_str()); return; } for (double x : v) if (fabs(x) > 1e-4) bad("uranus1-test", "'%s' is not zero", l.c_str()); } count("uranus1_test"); return; }
   double jd = rng.chance(.5) ? rng.uni(2400000, 2500000) : 2451539.5; string a = fmt("%.*f", (int)rng.range(0, 6), jd); jd = atof(a.c_str()); go({"uranus1", a}); vector<string> L; if (!ulines(L)) return; for (int s = 0; s < 5; s++) { double r[6]; gust86_posn(jd, s, r); int n = -1; char nm[20] = ""; double v[6]; if (sscanf(L[2 * s].c_str(), "%d %19[A-Za-z] : %lf %lf %lf", &n, nm, v, v + 1, v + 2) != 5 && sscanf(L[2 * s].c_str(), "%d %19[A-Za-z]: %lf %lf %lf", &n, nm, v, v + 1, v + 2) != 5) { bad("uranus1-form", "'%s'", L[2 * s].c_str()); return; } if (sscanf(L[2 * s + 1].c_str(), "%lf %lf %lf", v + 3, v + 4, v + 5) != 3 || n != s || strcmp(nm, S[s])) { bad("uranus1-form", "'%s' '%s'", L[2 * s].c_str(), L[2 * s + 1].c_str()); return; }
      for (int i = 0; i < 6; i++) if (fabs(v[i] - r[i] * 1.495978707e8) > 2e-6) bad("uranus1", "%s, number %d: %.6f, not %.6f", nm, i, v[i], r[i] * 1.495978707e8); } count("uranus1"); }
static void htc() { static const char *S[3] = {"Helen", "Teles", "Calyp"}; int n = (int)rng.range(1, 4); vector<string> av = {"htc20b"}; vector<double> jd; for (int i = 0; i < n; i++) { av.push_back(fmt("%.4f", rng.uni(2440000, 2470000))); jd.push_back(atof(av.back().c_str())); } go(av); vector<string> L = lines(out); if ((int)L.size() != 3 * n) { bad("htc-form", "%zu lines", L.size()); return; }
   for (int i = 0; i < 3 * n; i++) { double x[3], v[3], g[6]; char nm[9]; htc20(jd[i / 3], i % 3, x, v); if (sscanf(L[i].c_str(), "%8s %lf %lf %lf %lf %lf %lf", nm, g, g + 1, g + 2, g + 3, g + 4, g + 5) != 7 || strcmp(nm, S[i % 3])) { bad("htc-form", "'%s'", L[i].c_str()); continue; } for (int k = 0; k < 3; k++) if (fabs(g[k] - x[k] * AU_IN_KM) > 2e-3 || fabs(g[3 + k] - v[k] * AU_IN_KM) > 2e-3) bad("htc", "'%s', not %.3f and %.3f", L[i].c_str(), x[k] * AU_IN_KM, v[k] * AU_IN_KM); } count("htc20b"); }
static void ssat() { string a = fmt("%.*f", (int)rng.range(0, 5), rng.uni(2400000, 2500000)); double jd = atof(a.c_str()); go({"ssattest", a}); vector<string> L = lines(out); if (L.size() != 9) { bad("ssattest-form", "%.200s", out.c_str()); return; } for (int s = 0; s < 8; s++) { double x[3], g[3]; int n = -1; calc_ssat_loc(jd, x, s, 0L); if (sscanf(L[s + 1].c_str(), "%d: %lf %lf %lf", &n, g, g + 1, g + 2) != 4 || n != s) { bad("ssattest-form", "'%s'", L[s + 1].c_str()); return; } for (int k = 0; k < 3; k++) if (fabs(g[k] - 100 * x[k]) > 1e-6) bad("ssattest", "'%s', not %.6f", L[s + 1].c_str(), 100 * x[k]); } count("ssattest"); }
static void jsat() { int s = (int)rng.range(1, 4), n = (int)rng.range(1, 8); string f; struct R { double jd, v[3]; }; vector<R> T; double jd0 = floor(rng.uni(2420000, 2480000)) + .5; if (rng.chance(.5)) f += "a heading\n$$SOE\n";
   for (int i = 0; i < n; i++) { R r; r.jd = jd0 + i * (double)rng.range(1, 40); double loc[15], m[9], o[3]; memset(loc, 0, sizeof loc); calc_jsat_loc(r.jd, loc, 15, 0L); setup_ecliptic_precession(m, 2000. + (r.jd - 2451545.) / 365., 2000.); precess_vector(m, loc + 3 * (s - 1), o); string l2; for (int k = 0; k < 3; k++) { r.v[k] = o[k] * 71418. + rng.uni(-400, 400); char b[40]; snprintf(b, sizeof b, "%22.15E ", r.v[k]); r.v[k] = atof(b); l2 += k ? string(b) : " " + string(b); } T.push_back(r); string l = fmt("%.9f = A.D. 2000-Jan-01", r.jd); l.resize(37, ' '); f += l + "00:00:00.0000 (CT) " + "\n" + l2 + "\n"; if (rng.chance(.5)) f += "  1.0 2.0 3.0\n"; }
   put(fmt("j%d.txt", s), f); if (go({"jsattest", fmt("%d", s)})) { bad("jsat-exit", "%.300s", out.c_str()); return; } vector<string> L = lines(out); if (L.size() != (size_t)n + 3) { bad("jsat-count", "%zu lines for %d dates", L.size(), n); return; }
   for (int i = 0; i < n; i++) { const R &r = T[i]; double loc[15], m[9], o[3], rr = hypot(r.v[0], r.v[1]); memset(loc, 0, sizeof loc); calc_jsat_loc(r.jd, loc, 15, 0L); setup_ecliptic_precession(m, 2000. + (r.jd - 2451545.) / 365., 2000.); precess_vector(m, loc + 3 * (s - 1), o); double d[3]; for (int k = 0; k < 3; k++) d[k] = o[k] * 71418. - r.v[k]; double e[9] = {r.jd, d[0], d[1], d[2], r.v[0], r.v[1], r.v[2], (d[0] * r.v[0] + d[1] * r.v[1]) / rr, (d[1] * r.v[0] - d[0] * r.v[1]) / rr}; double g[9]; if (sscanf(L[3 + i].c_str(), "%lf %lf %lf %lf %lf %lf %lf %lf %lf", g, g + 1, g + 2, g + 3, g + 4, g + 5, g + 6, g + 7, g + 8) != 9) { bad("jsat-form", "'%s'", L[3 + i].c_str()); return; } for (int k = 0; k < 9; k++) if (fabs(g[k] - e[k]) > (k > 0 && k < 4 ? 1e-3 : 1e-2)) bad("jsat", "'%s': number %d should be %.3f", L[3 + i].c_str(), k, e[k]); } count("jsattest"); unlink((workdir + fmt("/j%d.txt", s)).c_str()); }
/* ------------------------------------------------------------------ lun_test: the ZIP code's line, and the Moon's transits there */
static void lun() {
   struct Z { int zip; double lat, lon; int tz, dst; string st, name; }; vector<Z> T; string f; int n = (int)rng.range(1, 6); for (int i = 0; i < n; i++) { Z z; z.zip = (int)rng.range(501, 99950); for (auto &o : T) if (o.zip == z.zip) z.zip++; z.lat = floor(rng.uni(18, 66) * 1e4) / 1e4; z.lon = -floor(rng.uni(66, 165) * 1e4) / 1e4; z.tz = -(int)rng.range(4, 10); z.dst = (int)rng.below(2); z.st = string(1, (char)('A' + rng.below(26))) + (char)('A' + rng.below(26)); z.name = fmt("Place %c%d", (char)('a' + rng.below(26)), i); if (rng.chance(.1)) z.name = "Llanfairpwllgwyngyllgogerychwyrn"; T.push_back(z); string l = fmt("%05d %s", z.zip, z.st.c_str()); l.resize(11, ' '); l += fmt("%.4f", z.lat); l.resize(22, ' '); l += fmt("%.4f", z.lon); l.resize(35, ' '); l += fmt("%d", z.tz); l.resize(39, ' '); l += fmt("%d", z.dst); l.resize(48, ' '); f += l + z.name + "\n"; }
   put("zips5.txt", f); int y = (int)rng.range(1950, 2049), m = (int)rng.range(1, 12); bool absent = rng.chance(.1); const Z &z = T[rng.below(n)]; int code = absent ? 99999 : z.zip; int r = go({"lun_test", fmt("%d", y), fmt("%d", m), fmt(rng.chance(.5) ? "%05d" : "%d", code)}); if (absent) { if (!r || out.find("Couldn't") == string::npos) bad("lun-absent", "exit %d: %.200s", r, out.c_str()); count("lun_absent"); return; }
   vector<string> L = lines(out); string h = fmt("Lat %f   Lon %f   Time zone %d  DST=%d  %s, %s", z.lat, z.lon, z.tz, z.dst, z.name.c_str(), z.st.c_str()); if (r || L.size() != 32) { bad("lun-form", "exit %d, %zu lines", r, L.size()); return; } if (L[0] != h) bad("lun-place", "'%s', not '%s'", L[0].c_str(), h.c_str());
   for (int d = 1; d <= 31; d++) { string e = fmt("%2d:", d); for (int k = 1; k >= 0; k--) { double t = get_lunar_transit_time(y, m, d, z.lat, z.lon, z.tz, z.dst, k); e += t < 0 || t >= 1 ? string(" --:--") : fmt(" %02d:%02d", (int)(t * 24 * 60) / 60, (int)(t * 24 * 60) % 60); } if (L[d] != e) bad("lun-transit", "'%s', not '%s'", L[d].c_str(), e.c_str()); } count("lun_test"); }
/* ------------------------------------------------------------------ get_test */
static void gettest() {
   static const char *W[] = {"2020 jan 5", "jd 2451545.5", "+3d", "12:34:56", "mjd 51544", "7 oct 1999", "-2h", "2020.5", "noon", "3/4/2001", "y2000.25", "w", "10 20", "2451545", "19990101", "vernal", "4 dec 1912 utc", "5 jan 2000 tt", "23:59:59.999 ut"}; string f; int n = (int)rng.range(3, 25); for (int i = 0; i < n; i++) { int k = (int)rng.below(12); if (k == 0) f += fmt("format %x (text)\n", (unsigned)rng.below(8)); else if (k == 1) f += "; a remark\n"; else f += string(W[rng.below(sizeof W / sizeof *W)]) + (rng.chance(.1) ? "\r\n" : "\n"); }
   put("gt.txt", f); bool dflt = rng.chance(.2); if (dflt) put("get_test.txt", f); int r = dflt ? go({"get_test"}) : go({"get_test", "gt.txt"}); vector<string> I = lines(f), L = lines(out); if (r || I.size() != L.size()) { bad("gettest-count", "exit %d, %zu lines for %zu", r, L.size(), I.size()); return; }
   double jd = 0; unsigned form = 0; for (size_t i = 0; i < I.size(); i++) { string l = I[i]; if (!l.empty() && l.back() == '\r') l.pop_back(); string e; if (!l.compare(0, 6, "format")) { form = (unsigned)strtoul(l.c_str() + 6, NULL, 16); e = l; } else if (l[0] == ';') e = l; else { char b[80]; int ut = 0; jd = get_time_from_string(jd, l.c_str(), (int)form, &ut); full_ctime(b, jd, FULL_CTIME_MILLISECS | CALENDAR_JULIAN_GREGORIAN); e = fmt("%s %d %s", b, ut, l.c_str()); count("gettest_dates"); } if (L[i] != e) bad("gettest", "'%s', not '%s'", L[i].c_str(), e.c_str()); } if (dflt) unlink((workdir + "/get_test.txt").c_str()); count("get_test"); }
/* ------------------------------------------------------------------ test_des: exactly the wrong lines are reported */
static void testdes() {
   static vector<string> base; static vector<int> lv; if (base.empty()) { int lev = 3; for (auto &l : lines(get(repo + "/test_des.txt"))) { if (l[0] == '#') { if (!l.compare(0, 7, "# Test ")) lev = l[7] - '0'; } else { base.push_back(l); lv.push_back(lev); } } }
   string f = "# a heading\n"; int prev = 3, un = 0, pk = 0, n = (int)rng.range(1, 40); vector<string> want; for (int i = 0; i < n; i++) { size_t k = rng.below(base.size()); string l = base[k]; int lev = lv[k]; if (lev == 3 && rng.chance(.3)) lev = (int)rng.range(1, 3); if (lev != prev) f += fmt("# Test %d\n", lev); prev = lev; bool spoil = rng.chance(.15) && l.size() > 17; if (spoil) { if (rng.chance(.3) && (lev & 1)) l[13] = '0' + (l[13] - '0' + 1) % 10; else if (l.size() > 17) l += "x"; }
      f += l + "\n"; char t[100], p[100]; memset(t, 0, sizeof t); string raw = l + "\n"; int rv = unpack_mpc_desig(t, raw.c_str()); if (lev & 1) { if (l.substr(16) != t || rv != atoi(l.c_str() + 13)) want.push_back(fmt("U'%s'", l.c_str())); else un++; } if (lev & 2) { memset(p, 0, sizeof p); create_mpc_packed_desig(p, l.c_str() + 16); if (memcmp(p, l.c_str(), 12)) want.push_back(fmt("P'%s'", l.c_str())); else pk++; } }
   put("test_des.txt", f); int r = go({"test_des"}); size_t nu = 0, np = 0, q = 0; while ((q = out.find("UNPACKING MISMATCH", q)) != string::npos) nu++, q++; q = 0; while ((q = out.find("PACKING MISMATCH", q)) != string::npos) np++, q++; np -= nu; size_t wu = 0, wp = 0; for (auto &w : want) (w[0] == 'U' ? wu : wp)++; if (r || nu != wu || np != wp || (out.find("No errors found") != string::npos) != want.empty() || out.find(fmt("%d packed correctly; %d unpacked correctly", pk, un)) == string::npos) bad("test_des", "%zu and %zu mismatches reported of %zu and %zu (%d packed, %d unpacked): %.500s", nu, np, wu, wp, pk, un, out.c_str()); unlink((workdir + "/test_des.txt").c_str()); count("test_des"); if (!want.empty()) count("test_des_wrong"); }
/* ------------------------------------------------------------------ the precession programs */
static vector<double> tail_nums(const string &s, const char *after, size_t n) { size_t p = s.find(after); if (p == string::npos) return vector<double>(); vector<double> v = nums(s.substr(p + strlen(after))); if (v.size() > n) v.resize(n); return v; }
static bool mat(const char *key, const string &s, const char *after, const double *m, double tol) { vector<double> v = tail_nums(s, after, 9); if (v.size() != 9) { bad("matrix-form", "%s: %.300s", after, s.c_str()); return false; } for (int i = 0; i < 9; i++) if (fabs(v[i] - m[i]) > tol) { bad(key, "%s element %d is %.11f, not %.11f", after, i, v[i], m[i]); return false; } return true; }
static void lieske(double *M, double y1, double y2) { /* Lieske 1976, as in Meeus */ bool back = y1 < y2; if (back) std::swap(y1, y2); long double T = (y1 - 2000) / 100, t = (y2 - y1) / 100, A = M_PI / 180 / 3600, ka = 2306.2181L + 1.39656L * T - .000139L * T * T, kb = 2004.3109L - .8533L * T - .000217L * T * T, ze = A * t * (ka + t * (.30188L - .000345L * T + .017998L * t)), z = A * t * (ka + t * (1.09468L + .000066L * T + .018203L * t)), th = A * t * (kb + t * (-.42665L - .000217L * T - .041833L * t)); 
   long double m[9] = {cosl(ze) * cosl(th) * cosl(z) - sinl(ze) * sinl(z), -sinl(ze) * cosl(th) * cosl(z) - cosl(ze) * sinl(z), -sinl(th) * cosl(z), cosl(ze) * cosl(th) * sinl(z) + sinl(ze) * cosl(z), -sinl(ze) * cosl(th) * sinl(z) + cosl(ze) * cosl(z), -sinl(th) * sinl(z), cosl(ze) * sinl(th), -sinl(ze) * sinl(th), cosl(th)}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[3 * i + j] = (double)(back ? m[3 * j + i] : m[3 * i + j]); if (fabs(y1 - y2) < 1e-5) for (int i = 0; i < 9; i++) M[i] = i % 4 == 0; }
static void testprec() { double y1 = 1950, y2 = 2000; vector<string> av = {"testprec"}; if (rng.chance(.9)) { y1 = floor(rng.uni(1000, 3000) * 100) / 100; av.push_back(fmt("%.2f", y1)); if (rng.chance(.8)) { y2 = rng.chance(.1) ? y1 : floor(rng.uni(1000, 3000) * 100) / 100; av.push_back(fmt("%.2f", y2)); } } go(av); double E[9], M[9], o[3], Q[9]; lieske(E, y1, y2); size_t p = out.find("Equatorial (old):"), q = out.find("Equatorial (new):"), w = out.find("New method:"); if (p == string::npos || q == string::npos || w == string::npos) { bad("testprec-form", "%.200s", out.c_str()); return; }
   mat("testprec-old", out, "Equatorial (old):", E, 2e-9); setup_precession(M, y1, y2); mat("testprec-new", out, "Equatorial (new):", M, 2e-9); double dm = 0; for (int i = 0; i < 9; i++) dm = std::max(dm, fabs(E[i] - M[i])); vector<double> d = tail_nums(out.substr(q), "Maximum difference in matrices:", 1); if (d.size() != 1 || fabs(d[0] - dm) > 1.1e-6) bad("testprec-diff", "largest equatorial difference %.6f, not %.6f", d.empty() ? -1 : d[0], dm);
   /* ecliptic: rotate by the obliquities of the two years */ double e1 = mean_obliquity((y1 - 2000) / 100), e2 = mean_obliquity((y2 - 2000) / 100), R1[9] = {1, 0, 0, 0, cos(e1), -sin(e1), 0, sin(e1), cos(e1)}, R2[9] = {1, 0, 0, 0, cos(e2), sin(e2), 0, -sin(e2), cos(e2)}, T[9]; auto mul = [](const double *a, const double *b, double *c) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a[3 * i + k] * b[3 * k + j]; c[3 * i + j] = s; } }; mul(E, R1, T); mul(R2, T, Q); mat("testprec-oldecl", out, "", Q, 2e-9);
   setup_ecliptic_precession(M, y1, y2); mat("testprec-newecl", out, "New method:", M, 2e-9); double lo = 149.48194 * D2R, la = 1.76549 * D2R, v[3] = {cos(lo) * cos(la), sin(lo) * cos(la), sin(la)}; for (int pass = 0; pass < 2; pass++) { const double *X = pass ? M : Q; for (int i = 0; i < 3; i++) o[i] = X[3 * i] * v[0] + X[3 * i + 1] * v[1] + X[3 * i + 2] * v[2]; vector<double> n = nums(pass ? out.substr(w) : out.substr(0, w)); if (n.size() < 11 || fabs(n[9] - atan2(o[1], o[0]) / D2R) > 2e-6 || fabs(n[10] - asin(o[2]) / D2R) > 2e-6) bad("testprec-star", "the test star is at %.6f %.6f", n.size() > 10 ? n[9] : -1, n.size() > 10 ? n[10] : -1); } count("testprec"); }
static void prectes2() { double jd; string s = date(&jd, 1700, 2300); go({"prectes2", s}); vector<double> v = nums(out); double y = (jd - 2451545) / 365.25 + 2000; if (v.size() < 3 || fabs(v[0] - jd) > 1e-6 || fabs(v[1] - y) > 1e-6) { bad("prectes2-date", "%.200s", out.c_str()); return; } double a[9], b[9], d[9]; setup_precession(a, 2000., y); setup_equatorial_precession_from_j2000(b, y); for (int i = 0; i < 9; i++) d[i] = b[i] - a[i]; mat("prectes2", out, "New,  ecliptic-based precession :", a, 2e-10); mat("prectes2", out, "rougher precession :", b, 2e-10); mat("prectes2", out, "(old - new) :", d, 2e-10); count("prectes2"); }
static string eop_file(double mjd0, int n, int cut) { string f; for (int i = 0; i < n; i++) { double m = mjd0 + i; string l(187, ' '); auto w = [&](int c, const string &t) { l.replace(c, t.size(), t); }; w(7, fmt("%8.2f", m)); const char *k = i < cut ? "I" : "P"; w(16, k); w(18, fmt("%9.6f", .1 + .05 * sin(m / 60))); w(27, " 0.000091"); w(37, fmt("%9.6f", .35 + .1 * cos(m / 70))); w(57, k); w(58, fmt("%10.7f", -.2 + .0001 * (m - mjd0))); if (i < cut) { w(95, k); w(97, fmt("%9.3f", -100 + 3 * sin(m / 9))); w(116, fmt("%9.3f", -12 + 2 * cos(m / 9))); } f += l + "\n"; } return f; }
static void prectest() { double jd; string s = date(&jd, 1973, 2030); vector<string> av = {"prectest", s}; bool have = rng.chance(.6); /* five series of the size the loader insists on (16371 days), one of them a day too short */
   static struct { double m0; int n, cut; } F[5]; static bool made = false; if (!made) { made = true; for (int k = 0; k < 5; k++) { F[k].m0 = 41684 + (k ? (double)rng.range(0, 2500) : 0); F[k].n = k == 4 ? 16370 : k == 3 ? 16371 : (int)rng.range(16372, 18500); F[k].cut = F[k].n - (int)rng.range(1, 400); put(fmt("eop%d.all", k), eop_file(F[k].m0, F[k].n, F[k].cut)); } }
   int fk = rng.chance(.1) ? 4 : (int)rng.below(4); double m0 = F[fk].m0; int n = F[fk].n; string fn = workdir + (have ? fmt("/eop%d.all", fk) : string("/noeop.all")); av.push_back(fn); go(av);
   double tdt = jd + td_minus_utc(jd) / 86400, y = 2000 + (tdt - 2451545) / 365.25; int rv = have ? load_earth_orientation_params(fn.c_str(), NULL) : -1; earth_orientation_params eo; memset(&eo, 0, sizeof eo); if (!have) load_earth_orientation_params(NULL, NULL); int er = get_earth_orientation_params(tdt, &eo, 31); const double A = M_PI / 180 / 3600; 
   auto val = [&](const char *k, double e, double tol, int nth) { size_t p = out.find(k); if (p == string::npos) { bad("prectest-form", "no '%s' in %.400s", k, out.c_str()); return; } vector<double> v = nums(out.substr(p + strlen(k), out.find('\n', p) - p - strlen(k))); if ((int)v.size() <= nth || fabs(v[nth] - e) > tol) bad("prectest-value", "%s %.6f, not %.6f", k, (int)v.size() > nth ? v[nth] : -1., e); };
   if ((out.find("Problem loading") == string::npos) != (rv > 0)) bad("prectest-load", "rv %d: %.200s", rv, out.c_str()); val("For JD ", jd, 1e-6, 0); val("Polar motion: ", eo.dX / A, 1e-6, 0); val("Polar motion: ", eo.dY / A, 1e-6, 1); val("TDT - UT1 = ", eo.tdt_minus_ut1, 1e-6, 0); val("dPsi ", eo.dPsi / A * 1000, 1e-6, 0); val("dEps ", eo.dEps / A * 1000, 1e-6, 0); { double u = td_minus_utc(tdt) - eo.tdt_minus_ut1; size_t p = out.find("\nUT1 - UTC = "); if (p == string::npos || fabs(atof(out.c_str() + p + 13) - u) > 1e-6) bad("prectest-value", "UT1 - UTC"); }
   size_t cw = out.find("With EOPs :"), co = out.find("Without EOPs :"); if (co == string::npos || (cw != string::npos) != !er) { bad("prectest-passes", "EOP status %d: %.300s", er, out.c_str()); load_earth_orientation_params(NULL, NULL); return; }
   for (int l = er ? 1 : 0; l < 2; l++) { string t = l ? out.substr(co) : out.substr(cw, co - cw); double a[9]; if (l) load_earth_orientation_params(NULL, NULL); setup_precession(a, 2000., y); mat("prectest", t, "no nutation:", a, 2e-11); setup_precession_with_nutation(a, y); mat("prectest", t, "With IAU1980 nutation:", a, 2e-11); setup_precession_with_nutation_eops(a, y); mat("prectest", t, "Full orientation", a, 2e-9); }
   load_earth_orientation_params(NULL, NULL); if (!er) { val("EOPs start MJD ", m0, .1, 0); val("EOPs run to MJD ", m0 + n - 1, .1, 0); size_t last = out.rfind("EOPs run to MJD "); if (atof(out.c_str() + last + 16) != F[fk].cut + m0 - 1) bad("prectest-nutation", "%s", out.substr(last, 40).c_str()); count("prectest_eops"); } count("prectest"); }
/* ------------------------------------------------------------------ oblitest: Laskar's polynomial, the cubic, the table and the files agree where they should */
static void oblitest() { bool files = rng.chance(.5); unlink((workdir + "/prec0n.asc").c_str()); unlink((workdir + "/prec0p.asc").c_str()); if (files) for (int s = 0; s < 2; s++) { string f; for (int i = 0; i < 30; i++) f += fmt("%10d.%22.15E %22.15E\n", s ? i : -i, spline_obliquity((s ? 10. : -10.) * i), .1 * i); put(s ? "prec0p.asc" : "prec0n.asc", f); }
   vector<string> av = {"oblitest"}; double t0 = 0, dt = 200; int n = 21; if (rng.chance(.9)) { t0 = (double)rng.range(-12000, 14000) / (rng.chance(.3) ? 1 : 4); av.push_back(fmt("%g", t0)); dt = (double)rng.range(1, 300); av.push_back(fmt("%g", dt)); n = (int)rng.range(1, 25); av.push_back(fmt("%d", n)); } go(av); vector<string> L = lines(out); if ((int)L.size() < n + 2) { bad("oblitest-form", "%zu lines for %d", L.size(), n); return; } if ((out.find("Get those files") == string::npos) != files) bad("oblitest-note", "note about the files is wrong");
   for (int i = 0; i < n; i++, t0 += dt) { double g[7], T = (t0 - 2000) / 100, l = mean_obliquity(T) / D2R, c = iau_obliquity(T) / D2R, s = spline_obliquity(T) / D2R; if (sscanf(L[1 + i].c_str(), "%lf: %lf %lf %lf %lf %lf %lf", g, g + 1, g + 2, g + 3, g + 4, g + 5, g + 6) != 7) { bad("oblitest-form", "'%s'", L[1 + i].c_str()); return; } double ee[7] = {t0, l, c, files ? s : 0, s, (l - s) * 3600, (l - c) * 3600}; static const double tol[7] = {.006, 1e-8, 1e-8, 1e-8, 1e-8, 1e-3, 1e-3}; for (int k = 0; k < 7; k++) { if (k == 3 && files && fabs(T) > 260) continue; if (fabs(g[k] - ee[k]) > tol[k]) bad("oblitest", "'%s': number %d should be %.8f", L[1 + i].c_str(), k, ee[k]); }
      /* the cubic of 1984; and the three descriptions agree */ long double x = 23.439291111111111L + T * (-46.8150L + T * (-.00059L + T * .001813L)) / 3600; if (fabsl(x - g[2]) > 1.1e-8L) bad("oblitest-cubic", "year %.2f: %.8f", t0, g[2]); double ay = fabs(t0 - 2000); if (ay < 8500 && fabs(g[5]) > (ay < 4500 ? .4 : ay < 6500 ? .8 : 4)) bad("oblitest-agree", "year %.0f: polynomial and table differ by %.3f\"", t0, g[5]); if (ay < 2000 && fabs(g[6]) > 2.5) bad("oblitest-agree", "year %.0f: polynomial and cubic differ by %.3f\"", t0, g[6]); count("obliquities"); } count(files ? "oblitest_files" : "oblitest"); }
/* ------------------------------------------------------------------ test_ref: each refraction goes back through its reverse */
static void testref() { double p = floor(rng.uni(600, 1080)), t = floor(rng.uni(-30, 40)), h = floor(rng.uni() * 100) / 100, l = floor(rng.uni(380, 900)), a = floor(rng.uni(0, 3000)), alt = floor(rng.uni(1, 89) * 1000) / 1000; vector<string> av = {"test_ref"}; bool one = rng.chance(.6); if (one) av.push_back(fmt("%.3f", alt)); double P = 1013, T = 293, H = .2, W = .574, A = 100; bool diff = !one && rng.chance(.4); if (rng.chance(.7)) { av.push_back(fmt("-p%.0f", p)); P = p; } if (rng.chance(.7)) { av.push_back(fmt("-t%.0f", t)); T = t + 273; } if (rng.chance(.7)) { av.push_back(fmt("-h%.2f", h)); H = h; } if (rng.chance(.7)) { av.push_back(fmt("-l%.0f", l)); W = l / 1000; } if (rng.chance(.7)) { av.push_back(fmt("-a%.0f", a)); A = a; } if (diff) av.push_back("-d"); if (!one && av.size() > 1 && false) av.push_back("");
   go(av); const double AM = 60 / D2R; vector<double> hd = nums(out.substr(0, out.find("Alt "))); if (out.find(fmt("Pressure %.2f millibars; temp %.1f C; relative humidity %.1f%%", P, T - 273, H * 100)) == string::npos || out.find(fmt("Wavelength %.1f nm; altitude %.1f meters", W * 1000, A)) == string::npos) bad("test_ref-head", "%.200s", out.c_str());
   auto three = [&](double al, double *r) { r[0] = P / 1010 * 283 / T * refraction(al) * AM; r[1] = saasta_refraction(al, P, T, H) * AM; r[2] = integrated_refraction(M_PI / 4, al, W, A, 100 * H, T, P) * AM; };
   if (one) { double r[3]; three(alt * D2R, r); vector<string> L = lines(out); auto f = [&](const char *k) { for (auto &s : L) if (!s.compare(0, strlen(k), k)) return atof(s.c_str() + strlen(k)); return -1e9; }; double v[6] = {f("Primitive refraction:"), f("Primitive refraction reversed:"), f("Saasta refraction:"), f("Saasta refraction (reversed):"), f("Integrated refraction:"), f("Reverse integrated:")}; for (int k = 0; k < 3; k++) if (fabs(v[2 * k] - r[k]) > 2e-5) bad("test_ref", "refraction %d is %.5f', not %.5f'", k, v[2 * k], r[k]); if (alt > 10 && fabs(v[1] - v[0]) > .15) bad("test_ref-reverse", "primitive %.5f', reversed %.5f'", v[0], v[1]); if (alt > 10 && fabs(v[3] - v[2]) > 2e-2) bad("test_ref-reverse", "Saastamoinen %.5f', reversed %.5f'", v[2], v[3]); if (fabs(v[5] - v[4]) > 2e-3) bad("test_ref-reverse", "integrated %.5f', reversed %.5f'", v[4], v[5]); count("test_ref_one"); }
   int rows = 0; for (auto &s : lines(out)) { int al; double g[3], r[3]; if (s.size() > 3 && s[2] == ':' && sscanf(s.c_str(), "%d: %lf %lf %lf", &al, g, g + 1, g + 2) == 4) { three(al * D2R, r); if (diff) { r[0] -= r[2]; r[1] -= r[2]; } for (int k = 0; k < 3; k++) if (fabs(g[k] - r[k]) > 2e-5) bad("test_ref-table", "'%s': number %d should be %.5f", s.c_str(), k, r[k]); rows++; } } if (rows != 22) bad("test_ref-rows", "%d rows", rows); count("test_ref"); }
/* ------------------------------------------------------------------ cosptest */
static void cosptest() { go({"cosptest", repo + "/cospar.txt"}); load_cospar_file((repo + "/cospar.txt").c_str()); vector<string> L = lines(out); size_t k = 0; for (int i = 0; i < 14; i++, k++) { double r = planet_rotation_rate(i, 0); string e = fmt("%d: %f deg/day; rotation period %f days", i, r, 360. / r); if (k >= L.size() || L[k] != e) { bad("cospar-rate", "'%s', not '%s'", k < L.size() ? L[k].c_str() : "", e.c_str()); return; } }
   double prev[9] = {0}; for (int i = -5; i < 2000; i++) for (int s = 0; s < 4; s++) { double m[9]; if (calc_planet_orientation(i, s, 2451000. + i * 1000., m) || !memcmp(m, prev, sizeof m)) continue; memcpy(prev, m, sizeof m); double r[3]; planet_radii(i, r); string e[5] = {fmt("Planet %d, system %d", i, s), fmt("  Radii %.2f %.2f %.2f km", r[0], r[1], r[2])}; for (int j = 0; j < 3; j++) e[2 + j] = fmt("%11.8f %11.8f %11.8f", m[3 * j], m[3 * j + 1], m[3 * j + 2]); for (int j = 0; j < 5; j++, k++) { string g = k < L.size() ? L[k] : ""; if (g != e[j]) { vector<double> x = nums(g), y = nums(e[j]); bool near = j > 1 && x.size() == 3 && y.size() == 3; for (int q = 0; near && q < 3; q++) if (fabs(x[q] - y[q]) > 1.5e-8) near = false; if (!near) { bad("cosptest", "'%s', not '%s'", g.c_str(), e[j].c_str()); return; } } } count("cospar_objects"); }
   if (k + 1 != L.size() || L[k].compare(0, 11, "Total time:")) bad("cosptest-end", "%zu lines, %zu expected", L.size(), k + 1); count("cosptest"); }
/* ------------------------------------------------------------------ moidtest */
static void moidtest() {
   static const char *H = "Name        |C |Tp      .       |Te      |q         |i  .      |Om .      |om .      |e         |n_u  |n_o  |rms. |Tfirst     |Tlast      |H . |G   |Twritten.   ^"; int n = (int)rng.range(1, 5); struct E { double q, e, i, O, w, tp; string nm; }; vector<E> T; string f = string(H) + "\n"; for (int k = 0; k < n; k++) { E x; x.q = floor(rng.uni(.2, 3) * 1e8) / 1e8; x.e = rng.chance(.2) ? floor(rng.uni(.9, 1.3) * 1e8) / 1e8 : floor(rng.uni(.01, .8) * 1e8) / 1e8; x.i = floor(rng.uni(0, 170) * 1e6) / 1e6; x.O = floor(rng.uni(0, 360) * 1e6) / 1e6; x.w = floor(rng.uni(0, 360) * 1e6) / 1e6; x.tp = rng.uni(0, .9999999); x.nm = fmt("Obj%c%d", (char)('A' + k), (int)rng.below(90)); T.push_back(x); f += fmt("%-16s20170225.%07d %8s %10.8f %10.6f %10.6f %10.6f %10.8f    44    44   0.7 20161105.45 20161108.11 28.6 0.15 20181019.7512\n", x.nm.c_str(), (int)(x.tp * 1e7), "20161105", x.q, x.i, x.O, x.w, x.e); }
   bool ref = rng.chance(.4); const E &x = T[rng.below(n)]; double rm = floor(rng.uni() * 1e6) / 1e6; if (ref) { string l = fmt("MOID %s", x.nm.c_str()); l.resize(26, ' '); f += l + fmt("%f\n", rm); } put("moids.txt", f); bool dflt = rng.chance(.2), hyp = false; for (auto &o : T) if (o.e >= 1) hyp = true; if (dflt) put("moidtest.txt", f); int pl = rng.chance(.5) ? 3 : (int)rng.range(1, 8); bool rev = rng.chance(.3) && x.e < 1, intra = rng.chance(.2) && !hyp; vector<string> av = {"moidtest"}; if (!dflt) { av.push_back(rng.chance(.5) ? "-fmoids.txt" : "-f"); if (av.back() == "-f") { av.pop_back(); av.push_back("-fmoids.txt"); } } if (intra) av.push_back("-i"); else { av.push_back(x.nm); if (pl != 3) av.push_back(fmt("-n%d", pl)); if (rev) av.push_back("-r"); }
   int r = go(av); char hd[300], b[300]; strcpy(hd, (string(H) + "\n").c_str()); auto elem = [&](size_t k, ELEMENTS *e) { vector<string> I = lines(f); strcpy(b, (I[1 + k] + "\n").c_str()); memset(e, 0, sizeof *e); if (extract_sof_data(e, b, hd)) return false; derive_quantities(e, .01720209895 * .01720209895); return true; }; moid_data_t md;
   if (r) { bad("moid-exit", "exit %d: %.200s / %.600s", r, out.c_str(), f.c_str()); } else if (intra) { vector<double> g; for (auto &l : lines(out)) if (!l.compare(0, 7, "MOID = ")) g.push_back(atof(l.c_str() + 7)); if ((int)g.size() != n * (n - 1) / 2) bad("moid-pairs", "%zu pairs of %d objects", g.size(), n); else { size_t k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++, k++) { ELEMENTS A, B; if (!elem(i, &A) || !elem(j, &B)) return; double d = A.ecc < B.ecc ? find_moid_full(&B, &A, &md) : find_moid_full(&A, &B, &md); if (fabs(d - g[k]) > 2e-10) bad("moid-pair", "objects %d and %d: %.12f, not %.12f", j, i, g[k], d); } count("moid_pairs"); } }
   else { ELEMENTS A, P; size_t k = &x - &T[0]; if (!elem(k, &A)) return; setup_planet_elem(&P, pl, (A.epoch - 2451545) / 36525); double d = rev ? find_moid_full(&A, &P, &md) : find_moid_full(&P, &A, &md); auto f1 = [&](const char *key) { size_t p = out.find(key); return p == string::npos ? -1e9 : atof(out.c_str() + p + strlen(key)); }; if (fabs(f1("\nMOID = ") - d) > 2e-10) bad("moid", "MOID %.12f, not %.12f", f1("\nMOID = "), d); if (fabs(f1("Barbee speed ") - md.barbee_speed * AU_IN_KM / 86400) > 2e-6) bad("moid-barbee", "%f", f1("Barbee speed ")); if (fabs(f1("JD closest approach ") - md.jd1) > 2e-5) bad("moid-jd", "%f, not %f", f1("JD closest approach "), md.jd1); if (ref ? fabs(f1("Reference MOID = ") - rm) > 1e-12 || fabs(f1(";  diff ") - (rm - d)) > 2e-10 : out.find("Reference") != string::npos) bad("moid-reference", "%.300s", out.c_str());
      vector<string> L = lines(out); ELEMENTS *e[2] = {rev ? &P : &A, rev ? &A : &P}; for (int q = 0; q < 2; q++) { double g[5]; const string &l = L[L.size() - 2 + q]; if (sscanf(l.c_str(), "%lf %lf %lf %lf %lf", g, g + 1, g + 2, g + 3, g + 4) != 5) { bad("moid-form", "'%s'", l.c_str()); break; } double ex[5] = {e[q]->q, e[q]->ecc, e[q]->incl / D2R, e[q]->asc_node / D2R, e[q]->arg_per / D2R}; for (int z = 0; z < 5; z++) if (fabs(g[z] - ex[z]) > (z < 2 ? 1.01e-10 : 1.01e-6)) bad("moid-elements", "'%s': number %d should be %.12f", l.c_str(), z, ex[z]); } count("moid"); }
   if (dflt) unlink((workdir + "/moidtest.txt").c_str()); }
/* ------------------------------------------------------------------ chinese: a log of new moons and principal terms packs into the table they make */
static void chinese() {
   static string tbl; if (tbl.empty()) tbl = get(repo + "/chinese.dat"); if (tbl.size() < 4) return; int16_t ny, y0; memcpy(&ny, tbl.data(), 2); memcpy(&y0, tbl.data() + 2, 2); 
   struct Y { long mask, off; int ic; }; auto yd = [&](int y) { const unsigned char *p = (const unsigned char *)tbl.data() + 4 + 3 * (y - y0); long v = p[0] | p[1] << 8 | (long)p[2] << 16; return Y{v % 8192, v / 8192 / 14, (int)(v / 8192 % 14)}; };
   int n = (int)rng.range(2, 12), Ys = (int)rng.range(y0 + 3, y0 + ny - n - 5); /* the months of years Ys - 1 .. Ys + n + 1, as JDs */ struct M { long jd; int mon; bool leap; int yr; }; vector<M> ms; for (int y = Ys - 1; y <= Ys + n + 1; y++) { Y q = yd(y); long jd = q.off + y * 365L + (y >= 0 ? y / 4 : -((-y) / 4)) + 757861L; int c = q.ic ? 13 : 12, mo = 1; for (int i = 0; i < c; i++) { bool leap = q.ic && i == q.ic; ms.push_back({jd, leap ? q.ic : mo, leap, y}); if (!leap) mo++; jd += q.mask >> i & 1 ? 30 : 29; } }
   for (size_t i = 1; i < ms.size(); i++) if (ms[i].jd - ms[i - 1].jd != 29 && ms[i].jd - ms[i - 1].jd != 30) return; /* the years must join up */
   struct Rw { long jd; bool z; string s; }; vector<Rw> R; auto row = [&](long jd, bool z, int mon, int yr) { char c[80]; full_ctime(c, jd + .3, 0); string s = z ? fmt("%7ld z  %s  %2d %5d\n", jd, c, mon, yr) : fmt("%7ld    %s\n", jd, c); R.push_back({jd, z, s}); };
   bool started = false; for (auto &m : ms) { if (!started) { if (m.mon != 11 || m.leap) continue; started = true; } row(m.jd, false, 0, 0); if (!m.leap) { long zjd = m.jd + (long)rng.range(1, 28); int yr = m.yr; row(zjd, true, m.mon, yr); } } std::stable_sort(R.begin(), R.end(), [](const Rw &a, const Rw &b) { return a.jd < b.jd; }); 
   size_t a = 0; while (a < R.size() && !R[a].z) a++; size_t e = R.size(); while (e > a) { e--; if (R[e].z && atoi(R[e].s.c_str() + 33) == 11) break; } string f; for (size_t i = a; i <= e; i++) f += R[i].s; if (f.size() < 200) return; put("log.txt", f); unlink((workdir + "/chinese.dat").c_str()); int r = go({"chinese", "log.txt", fmt("%d", n)}); string g = get(workdir + "/chinese.dat"); if (r || g.size() != 4 + 3 * (size_t)n) { bad("chinese-size", "exit %d, %zu bytes for %d years: %.200s", r, g.size(), n, out.c_str()); return; } int16_t gn, gy; memcpy(&gn, g.data(), 2); memcpy(&gy, g.data() + 2, 2); if (gn != n || gy != Ys) { bad("chinese-head", "%d years from %d, not %d from %d", gn, gy, n, Ys); return; }
   for (int i = 0; i < n; i++) { long v = 0, x = 0; memcpy(&v, g.data() + 4 + 3 * i, 3); memcpy(&x, tbl.data() + 4 + 3 * (Ys + i - y0), 3); if (v != x) { bad("chinese", "year %d packs as %06lx, its months make %06lx", Ys + i, v, x); break; } count("chinese_years"); if (yd(Ys + i).ic) count("chinese_leap_years"); } unlink((workdir + "/chinese.dat").c_str()); unlink((workdir + "/log.txt").c_str()); }
int main(int argc, char **argv) {
   init(argc, argv); VgFile vg = vg_make(); put("vsop.bin", string(vg.vsop.begin(), vg.vsop.end())); put("big_vsop.bin", string(vg.big.begin(), vg.big.end())); if (chdir(workdir.c_str())) return 3;
   struct P { const char *nm; void (*f)(); int q, t; }; static const P ALL[] = {{"jpl_url", jpl_url, 250, 4000}, {"landgraf", landgraf, 400, 6000}, {"superga2", superga2, 1, 1}, {"persian", persian, 250, 4000}, {"uranus1", uranus1, 100, 1500}, {"htc20b", htc, 100, 1500}, {"ssattest", ssat, 100, 1500}, {"jsattest", jsat, 120, 2000}, {"lun_test", lun, 120, 2000}, {"get_test", gettest, 250, 4000}, {"test_des", testdes, 250, 4000}, {"testprec", testprec, 200, 3000}, {"prectes2", prectes2, 120, 2000}, {"prectest", prectest, 200, 3000}, {"oblitest", oblitest, 200, 3000}, {"test_ref", testref, 60, 600}, {"cosptest", cosptest, 1, 3}, {"moidtest", moidtest, 250, 4000}, {"chinese", chinese, 200, 3000}};
   const char *only = getenv("P41_ONLY"); for (auto &p : ALL) { if (only && strcmp(only, p.nm)) continue; long n = mode == "san" ? (p.q + 19) / 20 : budget(p.q, p.t); for (long i = 0; i < n; i++) p.f(); }
   if (mode != "san" && !only) { for (auto k : {"url", "landgraf", "persian_years", "equinoxes", "uranus1", "htc20b", "ssattest", "jsattest", "lun_test", "get_test", "gettest_dates", "test_des", "test_des_wrong", "testprec", "prectes2", "prectest", "prectest_eops", "oblitest", "oblitest_files", "test_ref", "cospar_objects", "moid", "moid_pairs", "chinese_years", "chinese_leap_years"}) need(k, 10); need("superga2", 1); need("cosptest", 1); }
   for (auto f : {"vsop.bin", "big_vsop.bin", "zips5.txt", "gt.txt", "eop.all", "prec0n.asc", "prec0p.asc", "moids.txt"}) unlink(f); return finish();
}
