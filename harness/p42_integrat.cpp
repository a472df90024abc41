/* P42: integrat carries orbits from their epoch to another under the attraction of the Sun, planets and asteroids.
   Oracle: an extrapolation integrator (Gragg-Bulirsch-Stoer, order 10) of the full equations of motion; every line of output read back. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "stub/jpleph.h"
#include <sys/stat.h>
using namespace vh;
using std::string; using std::vector;
#include "vsopgen.h"
static const double D2R = M_PI / 180, GM = .01720209895 * .01720209895, CL = 86400. * 299792.458 / 149597870.7;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &n, const string &s) { FILE *f = fopen((workdir + "/" + n).c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &n) { string s; FILE *f = fopen((workdir + "/" + n).c_str(), "rb"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); } return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static long greg(long y, int m, int d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return (153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static string ymd(long jdn) { long a = jdn + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, d = (4 * c + 3) / 1461, e = c - 1461 * d / 4, m = (5 * e + 2) / 153; return fmt("%04ld%02ld%02ld", 100 * b + d - 4800 + m / 10, m + 3 - 12 * (m / 10), e - (153 * m + 2) / 5 + 1); }
static double jd_of(const string &s) { long v = atol(s.substr(0, 8).c_str()); return greg(v / 10000, (int)(v / 100 % 100), (int)(v % 100)) - .5 + (s.size() > 8 ? atof(s.c_str() + 8) : 0); }

/* ---------------------------------------------------------------- two-body */
struct El { double tp, q, e, i, O, w; };
static void state(const El &x, double jd, double *s) {
   double a = x.q / (1 - x.e), n = sqrt(GM / fabs(a * a * a)), M = n * (jd - x.tp), X, Y, VX, VY;
   if (x.e < 1) { M = remainder(M, 2 * M_PI); double E = M + x.e * sin(M), lo = -M_PI - .1, hi = M_PI + .1; for (int k = 0; k < 200; k++) { double f = E - x.e * sin(E) - M; (f > 0 ? hi : lo) = E; double N = E - f / (1 - x.e * cos(E)); if (!(N > lo && N < hi)) N = (lo + hi) / 2; if (fabs(N - E) < 1e-16) break; E = N; }
      double b = a * sqrt(1 - x.e * x.e), Ed = n / (1 - x.e * cos(E)); X = a * (cos(E) - x.e); Y = b * sin(E); VX = -a * sin(E) * Ed; VY = b * cos(E) * Ed; }
   else { double H = asinh(M / x.e); for (int k = 0; k < 200; k++) { double d = (x.e * sinh(H) - H - M) / (x.e * cosh(H) - 1); H -= d; if (fabs(d) < 1e-15) break; } double b = -a * sqrt(x.e * x.e - 1), Hd = n / (x.e * cosh(H) - 1); X = a * (cosh(H) - x.e); Y = b * sinh(H); VX = a * sinh(H) * Hd; VY = b * cosh(H) * Hd; }
   double cw = cos(x.w), sw = sin(x.w), cO = cos(x.O), sO = sin(x.O), ci = cos(x.i), si = sin(x.i), P[3] = {cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si}, Q[3] = {-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si};
   for (int j = 0; j < 3; j++) { s[j] = X * P[j] + Y * Q[j]; s[j + 3] = VX * P[j] + VY * Q[j]; } }
static El elements(const double *s, double jd) {
   El x; double r = sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]), v2 = s[3] * s[3] + s[4] * s[4] + s[5] * s[5], rv = s[0] * s[3] + s[1] * s[4] + s[2] * s[5], h[3] = {s[1] * s[5] - s[2] * s[4], s[2] * s[3] - s[0] * s[5], s[0] * s[4] - s[1] * s[3]}, hh = sqrt(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]), ev[3];
   for (int j = 0; j < 3; j++) ev[j] = ((v2 - GM / r) * s[j] - rv * s[j + 3]) / GM;
   x.e = sqrt(ev[0] * ev[0] + ev[1] * ev[1] + ev[2] * ev[2]); x.q = hh * hh / GM / (1 + x.e); x.i = atan2(hypot(h[0], h[1]), h[2]); x.O = atan2(h[0], -h[1]); double cO = cos(x.O), sO = sin(x.O);
   double N[3] = {cO, sO, 0}, W[3] = {-sO * cos(x.i), cO * cos(x.i), sin(x.i)}; x.w = atan2(ev[0] * W[0] + ev[1] * W[1] + ev[2] * W[2], ev[0] * N[0] + ev[1] * N[1]);
   double a = 1 / (2 / r - v2 / GM), n = sqrt(GM / fabs(a * a * a)), M; if (x.e < 1) { double E = atan2(rv / sqrt(GM * a), 1 - r / a); M = E - x.e * sin(E); } else { double sh = rv / sqrt(-GM * a) / x.e; M = x.e * sh - asinh(sh); }
   x.tp = jd - M / n; return x; }

/* ---------------------------------------------------------------- the reference integration */
static const double MASS[14] = {1, 1.660136795271931e-7, 2.447838339664545e-6, 3.003489596331057e-6, 3.227151445053866e-7, .0009547919384243268, .0002858859806661309, 4.366244043351564e-5, 5.151389020466116e-5, 7.396449704142013e-9, 3.003489596331057e-6 / 81.30056, 4.7622e-10, 1.0775e-10, 1.3412e-10};
static char *vsop; static bool jpl;
static void planets(double jd, double p[10][3]) {
   static double cj[4] = {-1, -1, -1, -1}, cp[4][10][3]; static bool cb[4]; static int nx; for (int k = 0; k < 4; k++) if (cj[k] == jd && cb[k] == jpl) { memcpy(p, cp[k], sizeof cp[k]); return; }
   if (jpl) { double s[6]; const double so = .397777155931913701597179975942380896684, co = .917482062069181825744000384639406458043; for (int b = 0; b < 10; b++) { double r[6]; jpl_pleph(NULL, jd, b + 1, 11, r, 0); memcpy(s, r, sizeof s); p[b][0] = s[0]; p[b][1] = s[1] * co + s[2] * so; p[b][2] = s[2] * co - s[1] * so; } }
   else for (int b = 0; b < 8; b++) { double o[15]; compute_planet(vsop, b + 1, (jd - 2451545) / 36525, o); memcpy(p[b], o + 12, 24); }
   nx = (nx + 1) & 3; cj[nx] = jd; cb[nx] = jpl; memcpy(cp[nx], p, sizeof cp[nx]); }
struct Body { El el; double t0; double s[6]; int mass; bool pluto; };      /* mass: index of its own mass, or 0 */
static void deriv(double jd, const vector<Body> &B, const vector<double> &y, vector<double> &d) {
   double P[10][3]; planets(jd, P);
   for (size_t k = 0; k < B.size(); k++) { const double *r = &y[6 * k], *v = r + 3; double *a = &d[6 * k + 3]; double r2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2], rr = sqrt(r2), v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2], rv = r[0] * v[0] + r[1] * v[1] + r[2] * v[2], f = GM / (r2 * rr);
      for (int j = 0; j < 3; j++) { d[6 * k + j] = v[j]; a[j] = -f * r[j] + f / (CL * CL) * ((4 * GM / rr - v2) * r[j] + 4 * rv * v[j]); }
      auto pull = [&](const double *p, double m) { double q[3], q2 = 0, p2 = 0; for (int j = 0; j < 3; j++) { q[j] = p[j] - r[j]; q2 += q[j] * q[j]; p2 += p[j] * p[j]; } double g = GM * m / (q2 * sqrt(q2)), h = GM * m / (p2 * sqrt(p2)); for (int j = 0; j < 3; j++) a[j] += g * q[j] - h * p[j]; };
      for (int b = 0; b < (jpl ? 10 : 8); b++) if (!(b == 8 && B[k].pluto)) pull(P[b], MASS[b + 1] + (b == 2 && !jpl ? MASS[10] : 0));
      for (size_t m = 0; m < k; m++) if (B[m].mass) pull(&y[6 * m], MASS[B[m].mass]); } }
/* from one time to another; the states on the way at whole multiples of 'step' after day .5 */
static void advance(vector<Body> &B, double t0, double t1, double step, vector<vector<double>> *grid) {
   size_t n = 6 * B.size(); vector<double> y(n), d(n), z0(n), z1(n), T[6]; for (size_t k = 0; k < B.size(); k++) memcpy(&y[6 * k], B[k].s, 48);
   while (t0 != t1) { double H = t1 > t0 ? 1 : -1, e; if (grid) { e = floor((t0 - .5) / step + 1e-9) * step + .5 + step; } else e = t0 + H; if (fabs(e - t0) > 1) e = t0 + H; if ((t1 - e) * H < 1e-9) e = t1; H = e - t0;
      for (int k = 0; k < 5; k++) { int m = 2 * (k + 1); double h = H / m; deriv(t0, B, y, d); z0 = y; z1 = y; for (size_t i = 0; i < n; i++) z1[i] += h * d[i]; for (int q = 1; q < m; q++) { deriv(t0 + q * h, B, z1, d); for (size_t i = 0; i < n; i++) { double t = z0[i] + 2 * h * d[i]; z0[i] = z1[i]; z1[i] = t; } } deriv(e, B, z1, d); T[k].resize(n); for (size_t i = 0; i < n; i++) T[k][i] = .5 * (z0[i] + z1[i] + h * d[i]);
         for (int q = k - 1; q >= 0; q--) { double ra = (double)(k + 1) / (q + 1); for (size_t i = 0; i < n; i++) T[q][i] = T[q + 1][i] + (T[q + 1][i] - T[q][i]) / (ra * ra - 1); } }
      y = T[0]; t0 = e; if (grid && fabs(remainder(t0 - .5, step)) < 1e-7) grid->push_back(y); }
   for (size_t k = 0; k < B.size(); k++) memcpy(B[k].s, &y[6 * k], 48); }

/* ---------------------------------------------------------------- one run */
static const char *HD = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^";
struct Obj { string name, line; El el; double ep; bool perts; int mass; };
static string line_of(const Obj &o, bool rest_only = false) { (void)rest_only; double d = floor(o.el.tp - .5), f = o.el.tp - .5 - d; long u = (long)floor(f * 1e7); return fmt("%-12s %s.%07ld %s %11.8f %10.6f %10.6f %10.6f %10.8f ", o.name.c_str(), ymd((long)d + 1).c_str(), u, ymd((long)floor(o.ep + .5)).c_str(), o.el.q, o.el.i / D2R, o.el.O / D2R, o.el.w / D2R, o.el.e); }
static El parse(const string &l) { El x; x.tp = jd_of(l.substr(13, 16)); x.q = atof(l.substr(39, 11).c_str()); x.i = atof(l.substr(51, 10).c_str()) * D2R; x.O = atof(l.substr(62, 10).c_str()) * D2R; x.w = atof(l.substr(73, 10).c_str()) * D2R; x.e = atof(l.substr(84, 10).c_str()); return x; }
static void run_case() {
   jpl = rng.chance(mode == "san" ? .8 : .85); bool aster = jpl && rng.chance(.35), back = !aster && rng.chance(.3), fork_ = aster && rng.chance(.6), cache = fork_ && rng.chance(.5), eph_same = aster;
   double step = rng.chance(.5) ? 2 : rng.chance(.5) ? 1 : rng.chance(.7) ? 4 : 2.5; if (aster && step > 2) step = 2;   /* steps that have to be divided leave the asteroids' attraction out */ double span = jpl ? (double)rng.range(1, 400) : (double)rng.range(1, 40); long e0 = (long)rng.range(2444240, 2462500);
   if (aster) { e0 -= e0 % (long)step; span = step * ceil(span / step); } long d0 = e0 + (back ? -1 : 1) * (long)span;
   double dest = d0 + .5; bool frac = !aster && rng.chance(.15); if (frac) dest += .25; string ds = frac ? fmt("%.2f", dest) : rng.chance(.5) ? ymd(d0 + 1) : fmt("%.1f", dest);
   vector<Obj> O; int n = (int)rng.range(1, aster ? 8 : 5) + (aster ? 3 : 0); double P[10][3];
   for (int k = 0; k < n; k++) { Obj o; o.mass = aster && k < 3 ? 11 + k : 0; o.ep = e0 + .5 - (!eph_same && rng.chance(.3) ? (double)rng.range(-30, 30) : 0); if (o.ep == dest) o.ep = e0 + .5; o.perts = o.mass || !rng.chance(.12); static const int NUM[3] = {1, 2, 4}; o.name = o.mass ? fmt("%12d", NUM[k]) : rng.chance(.1) && jpl ? string("      134340") : rng.chance(.3) ? fmt("%12d", (int)rng.range(5, 99999)) : fmt("     K%02d%c%02d%c", (int)rng.below(30), (char)('A' + rng.below(24)), (int)rng.below(90), (char)('A' + k));
      El x; x.e = rng.chance(.08) ? rng.uni(1.05, 1.5) : rng.uni(.05, .75); x.q = rng.uni(.5, 4); if (rng.chance(.1)) x.q = rng.uni(5, 30); x.i = rng.uni(2, 170) * D2R; x.O = rng.uni(0, 2 * M_PI); x.w = rng.uni(0, 2 * M_PI); double per = x.e < 1 ? 2 * M_PI * pow(x.q / (1 - x.e), 1.5) / sqrt(GM) : 800; x.tp = o.ep + rng.uni(-.5, .5) * std::min(per, 9000.);
      double s[6]; bool near = false; if (o.mass) { x.q = rng.uni(2, 2.8); x.e = rng.uni(.06, .25); x.i = rng.uni(3, 30) * D2R; }
      else if (o.name == "      134340" || rng.chance(.3)) { /* beside a planet */ planets(o.ep, P); int b = o.name == "      134340" ? 8 : (int)rng.below(jpl ? 9 : 8); double q[10][3]; memcpy(q, P, sizeof q); planets(o.ep + .5, P); double off = o.name == "      134340" ? 1e-4 : b == 8 ? .02 : b < 4 ? rng.uni(.03, .08) : rng.uni(.25, .6), u[3] = {rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(.2, 1)}, un = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
         for (int j = 0; j < 3; j++) { s[j] = q[b][j] + off * u[j] / un; s[j + 3] = (P[b][j] - q[b][j]) / .5; } s[5] += .0008; near = true; }
      else if (aster && rng.chance(.6)) { const Obj &c = O[rng.below(3)]; state(c.el, o.ep, s); double off = rng.uni(.006, .02); s[2] += off; s[rng.below(2)] += off * rng.uni(-1, 1); s[5] += 1e-5; near = true; }
      if (near) { El y = elements(s, o.ep); if (y.e > .05 && y.e < .8 && y.i > .03) x = y; else { if (x.e > 1) x.e = .3; } }
      x.i = floor(x.i / D2R * 1e6) / 1e6 * D2R; x.O = fmod(x.O + 4 * M_PI, 2 * M_PI); x.w = fmod(x.w + 4 * M_PI, 2 * M_PI); o.el = x; o.line = line_of(o) + fmt("%4.2f %5d %s %s %-7s %5.2f %5.2f", rng.uni(.2, 1), (int)rng.range(5, 9999), ymd(e0 - (long)rng.range(1000, 9000)).c_str(), ymd(e0 - (long)rng.range(0, 900)).c_str(), o.perts ? "M-v 38h" : "", rng.uni(3, 22), .15); o.el = parse(o.line); O.push_back(o); }
   if (!aster && rng.chance(.1) && n > 2) std::swap(O[0], O[1]);
   string in = string(HD) + "\n"; for (auto &o : O) in += o.line + "\n"; put("in.sof", in);
   bool unpert = rng.chance(.3), update = rng.chance(.15) && !fork_; int lim = !fork_ && !aster && rng.chance(.15) ? (int)rng.range(1, n) : 0, procs = fork_ ? (int)rng.range(2, 5) : 0; vector<string> av = {tools + "/integrat", "in.sof", "out.sof", ds};
   if (jpl) { put("eph.bin", "x"); if (rng.chance(.5)) av.push_back("-feph.bin"); else { av.push_back("-f"); av.push_back("eph.bin"); } } if (unpert) av.push_back("-p"); if (lim) av.push_back(fmt("-n%d", lim)); if (step != 2) av.push_back(fmt("-s%g", step)); if (!aster && rng.chance(.2)) av.push_back("-t1e-13"); if (procs) av.push_back(fmt("-z%d", procs)); if (cache) av.push_back("-c"); if (rng.chance(.1)) av.push_back(fmt("-v%d", (int)rng.below(3)));
   bool uflag = !update && rng.chance(.3); if (uflag) av.push_back("-u"); unlink((workdir + "/ickywax.ugh").c_str()); unlink((workdir + "/ephem.dat").c_str()); if (!update && !uflag) unlink((workdir + "/out.sof").c_str()); if (update) { string old = in; put("out.sof", old); }
   string c; for (size_t i = 1; i < av.size(); i++) c += " " + av[i]; cur("integrat%s; %s", c.c_str(), O[0].line.c_str()); seen(hstr(c + in)); string out; int r = run(av, &out); if (r) { bad("exit", "exit %d: %.300s\n%.900s", r, out.c_str(), in.c_str()); return; }
   vector<string> L = lines(get("out.sof")); vector<const Obj *> want; int done = 0; bool any = false; for (auto &o : O) { if (lim && done >= lim) break; want.push_back(&o); if (o.perts || unpert) { done++; any = true; } }
   if (!any) { count("nothing_integrated"); }
   if (L.size() != want.size() + 1 || L[0] != HD) { bad("lines", "%zu lines of output, %zu expected; first '%s'\n%.600s\n--\n%.900s", L.size(), want.size() + 1, L.empty() ? "" : L[0].c_str(), out.c_str(), in.c_str()); return; }
   { int tot = 0; for (auto &o : O) if (o.perts || unpert) tot++; if (lim) tot = std::min(tot, lim); size_t p = out.find(" asteroids to be integrated"); while (p && p != string::npos && isdigit((unsigned char)out[p - 1])) p--; if (p == string::npos || atoi(out.c_str() + p) != tot) bad("tally", "says %d, %d wanted: %.400s", p == string::npos ? -1 : atoi(out.c_str() + p), tot, out.c_str()); }
   /* the perturbing asteroids go along with each object */
   vector<Body> mass; for (size_t k = 0; k < want.size(); k++) { const Obj &o = *want[k]; const string &g = L[k + 1]; cur("integrat%s; %s", c.c_str(), o.line.c_str());
      if (!(o.perts || unpert)) { if (g != o.line) bad("unperturbed", "'%s' became '%s'", o.line.c_str(), g.c_str()); count("left_alone"); continue; }
      if (g.size() != o.line.size() || g.substr(0, 13) != o.line.substr(0, 13) || g.substr(94) != o.line.substr(94) || g[29] != ' ' || g[38] != ' ' || g[50] != ' ' || g[61] != ' ' || g[72] != ' ' || g[83] != ' ') { bad("columns", "'%s' became '%s'", o.line.c_str(), g.c_str()); continue; }
      if (fabs(jd_of(g.substr(30, 8)) - dest) > (frac ? 1 : 1e-6)) bad("epoch", "'%s' is not at %.2f", g.c_str(), dest);
      vector<Body> B = mass; Body b; b.el = o.el; b.t0 = o.ep; b.mass = o.mass; b.pluto = o.name == "      134340"; B.push_back(b); for (auto &x : B) state(x.el, o.ep, x.s); vector<vector<double>> grid; advance(B, o.ep, dest, step, cache ? &grid : NULL); if (o.mass) mass.push_back(b);
      El x = elements(B.back().s, dest), y = parse(g); double ts = sqrt(1 + fabs(dest - o.ep) / 100), amp = b.pluto || aster ? 4 : 1; double dO = remainder(y.O - x.O, 2 * M_PI) / D2R, dw = remainder(y.w - x.w, 2 * M_PI) / D2R, dt = y.tp - x.tp; double per = x.e < 1 ? 2 * M_PI * pow(x.q / (1 - x.e), 1.5) / sqrt(GM) : 1e9; if (x.e < 1) dt = remainder(dt, per);
      double got[6] = {y.q - x.q, y.e - x.e, (y.i - x.i) / D2R, dO, dw, dt}, big = amp * ts, vr = std::min(per, 4000.) / 6.28, tol[6] = {1e-8 + 4e-9 * big * std::max(1., x.q), 1e-8 + 4e-9 * big, 7e-7 + 3e-7 * big, 7e-7 + 3e-7 * big / sin(x.i), 7e-7 + 3e-7 * big / sin(x.i) + 3e-7 * big / x.e, 2e-7 + 4e-9 * big * vr / x.e}; static const char *NM[6] = {"q", "e", "i", "node", "argument of perihelion", "time of perihelion"};
      for (int j = 0; j < 6; j++) if (!(fabs(got[j]) < tol[j])) { bad("elements", "%s is off by %.3g (allowed %.3g)%s: '%s' became '%s'", NM[j], got[j], tol[j], aster ? ", with asteroids" : "", o.line.c_str(), g.c_str()); break; }
      /* how much the motion differed from an unperturbed one */
      double s[6]; state(o.el, dest, s); double sh = 0; for (int j = 0; j < 3; j++) sh += pow(s[j] - B.back().s[j], 2); if (sqrt(sh) > 1e-7) count("perturbed_visibly"); count(o.mass ? "asteroid_perturbers" : back ? "backward" : jpl ? "jpl" : "vsop"); if (b.pluto) count("pluto_itself"); if (x.e > 1) count("hyperbolic"); if (procs && !o.mass) count("forked");
      if (cache && !o.mass) { string data = get("ephem.dat"); size_t nl = data.find('\n'); double st = 0, sz = 0; int nx = 0; if (nl == string::npos || sscanf(data.c_str(), "%lf %lf %d", &st, &sz, &nx) != 3 || fabs(st - (o.ep + step)) > 1e-6 || fabs(sz - step) > 1e-6 || nx != (int)grid.size() || data.size() != nl + 1 + 24u * (size_t)nx * (want.size() - 3)) { bad("ephem-file", "ephem.dat: '%.60s', %zu bytes, %zu records of %zu steps", data.c_str(), data.size(), want.size() - 3, grid.size()); continue; }
         for (int q = 0; q < nx; q++) { double p[3]; memcpy(p, data.data() + nl + 1 + 24 * ((k - 3) * (size_t)nx + (size_t)q), 24); for (int j = 0; j < 3; j++) if (!(fabs(p[j] - grid[(size_t)q][6 * (B.size() - 1) + (size_t)j]) < 3e-8 * std::max(1., fabs(p[j])))) { bad("ephem-file", "ephem.dat: object %zu at step %d is at %.9f", k, q, p[j]); q = nx; break; } } count("ephemeris_files"); } }
   for (int q = 0; q < 6; q++) for (auto f : {"chunk%d.ugh", "ephem%d.ugh"}) { char b[20]; snprintf(b, sizeof b, f, q); if (!access((workdir + "/" + b).c_str(), F_OK)) { bad("left-behind", "%s", b); unlink((workdir + "/" + b).c_str()); } }
   if (update) { if (lines(get("ickywax.ugh")) != lines(in)) bad("update", "the file to be updated was not kept"); count("updates"); } sample("%s", L[1].substr(0, 100).c_str()); count("runs"); }
static void failures() { for (int k = 0; k < 3; k++) { unlink((workdir + "/vsop.bin").c_str()); put("in.sof", string(HD) + "\n"); string out; vector<string> av = {tools + "/integrat", k == 0 ? "none.sof" : "in.sof", "out2.sof", "20200101"}; if (k == 1) av.push_back("-fnone.406"); cur("integrat failure %d", k); int r = run(av, &out); if (r == 0 || r < 0 || out.find(k == 1 ? "'none.406' not found" : k == 0 ? "'none.sof'" : "vsop.bin") == string::npos) bad("failure", "case %d: exit %d, %.300s", k, r, out.c_str()); count("failures"); } }
int main(int argc, char **argv) {
   init(argc, argv); failures(); VgFile g = vg_make(); put("vsop.bin", string(g.vsop.begin(), g.vsop.end())); vsop = (char *)malloc(g.vsop.size()); memcpy(vsop, &g.vsop[0], g.vsop.size());
   long n = mode == "san" ? budget(25, 250) : budget(200, 4000); for (long i = 0; i < n; i++) run_case();
   if (mode != "san") for (auto k : {"runs", "backward", "jpl", "vsop", "asteroid_perturbers", "perturbed_visibly", "forked", "hyperbolic", "pluto_itself", "left_alone"}) need(k, 3);
   need("ephemeris_files", mode == "san" ? 0 : 3); return finish(); }
