/* P16: MOID against a brute-force two-dimensional search with local refinement. */
#include <array>
#include "vh_trap.h"
#include "watdefs.h"
#include "comets.h"
using vh::rng;
typedef double D;
static const double MU = .01720209895 * .01720209895;
static void at(const ELEMENTS &e, D nu, D *o) { D r = e.q * (1 + e.ecc) / (1 + e.ecc * cos(nu)), x = r * cos(nu), y = r * sin(nu); for (int i = 0; i < 3; i++) o[i] = x * e.perih_vec[i] + y * e.sideways[i]; }
static void der(const ELEMENTS &e, D nu, D *p, D *d, D *dd)
{
   D c = cos(nu), s = sin(nu), u = 1 + e.ecc * c, P = e.q * (1 + e.ecc), x = P * c / u, y = P * s / u;
   D xd = -P * s / (u * u), yd = P * (e.ecc + c) / (u * u), ud = -e.ecc * s, xdd = -P * c / (u * u) + 2 * P * s * ud / (u * u * u), ydd = -P * s / (u * u) - 2 * P * (e.ecc + c) * ud / (u * u * u);
   for (int i = 0; i < 3; i++) { p[i] = x * e.perih_vec[i] + y * e.sideways[i]; d[i] = xd * e.perih_vec[i] + yd * e.sideways[i]; dd[i] = xdd * e.perih_vec[i] + ydd * e.sideways[i]; }
}
static D sep2(const ELEMENTS &a, const ELEMENTS &b, D u, D v) { D p[3], q[3]; at(a, u, p); at(b, v, q); D s = 0; for (int i = 0; i < 3; i++) s += (p[i] - q[i]) * (p[i] - q[i]); return s; }
static D refine(const ELEMENTS &a, const ELEMENTS &b, D &n1, D &n2)
{
   D lam = 1e-3, cur = sep2(a, b, n1, n2);
   for (int it = 0; it < 200; it++) {
      D p[3], d[3], dd[3], P[3], E[3], EE[3], g1 = 0, g2 = 0, h11 = 0, h12 = 0, h22 = 0; der(a, n1, p, d, dd); der(b, n2, P, E, EE);
      for (int i = 0; i < 3; i++) { D w = p[i] - P[i]; g1 += w * d[i]; g2 -= w * E[i]; h11 += d[i] * d[i] + w * dd[i]; h22 += E[i] * E[i] - w * EE[i]; h12 -= d[i] * E[i]; }
      bool ok = false;
      for (int k = 0; k < 40; k++) {
         D a11 = h11 + lam * (fabs(h11) + 1e-30), a22 = h22 + lam * (fabs(h22) + 1e-30), det = a11 * a22 - h12 * h12;
         if (!(a11 > 0 && det > 0)) { lam *= 8; if (lam > 1e15) break; continue; }
         D x = -(g1 * a22 - g2 * h12) / det, y = -(g2 * a11 - g1 * h12) / det;
         if (b.ecc >= 1 && (fabs(n2 + y) >= M_PI || 1 + b.ecc * cos(n2 + y) <= b.q * (1 + b.ecc) / 999)) { lam *= 8; if (lam > 1e15) break; continue; }
         D nf = sep2(a, b, n1 + x, n2 + y);
         if (nf <= cur) { bool small = fabs(x) < 1e-14 && fabs(y) < 1e-14; n1 += x; n2 += y; ok = nf < cur; cur = nf; lam *= .1; if (small) return cur; break; }
         lam *= 8; if (lam > 1e15) break;
      }
      if (!ok) break;
   }
   return cur;
}
static std::vector<D> grid(const ELEMENTS &e, int n)
{
   std::vector<D> g;
   if (e.ecc < 1) { for (int i = 0; i < n; i++) g.push_back(-M_PI + 2 * M_PI * i / n); D k = sqrt((1 + e.ecc) / (1 - e.ecc)); for (int i = 0; i < n; i++) g.push_back(2 * atan(k * tan((-M_PI + 2 * M_PI * (i + .5) / n) / 2))); }
   D rmax = e.ecc < 1 ? std::min(990., e.q * (1 + e.ecc) / (1 - e.ecc)) : 990;
   if (e.ecc >= 1) { D lim = acos(std::max(-1., (e.q * (1 + e.ecc) / 990 - 1) / e.ecc)); for (int i = 0; i <= n; i++) g.push_back(-lim + 2 * lim * i / n); }
   if (e.ecc > .9) for (int i = 1; i < n; i++) { D r = e.q * exp(log(rmax / e.q) * i / n), c = (e.q * (1 + e.ecc) / r - 1) / e.ecc; if (fabs(c) < 1) { g.push_back(acos(c)); g.push_back(-acos(c)); } }
   std::sort(g.begin(), g.end()); return g;
}
static D brute(const ELEMENTS &a, const ELEMENTS &b, int n, D &bn1, D &bn2)
{
   auto g1 = grid(a, n), g2 = grid(b, n); int N = (int)g1.size(), M = (int)g2.size();
   std::vector<float> d(N * M); std::vector<D> pa(3 * N), pb(3 * M);
   for (int i = 0; i < N; i++) at(a, g1[i], &pa[3 * i]);
   for (int i = 0; i < M; i++) at(b, g2[i], &pb[3 * i]);
   for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { D x = pa[3 * i] - pb[3 * j], y = pa[3 * i + 1] - pb[3 * j + 1], z = pa[3 * i + 2] - pb[3 * j + 2]; d[i * M + j] = (float)(x * x + y * y + z * z); }
   std::vector<std::array<D, 3>> c;
   for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) {
      float v = d[i * M + j]; bool m = true;
      for (int u = -1; u <= 1 && m; u++) for (int w = -1; w <= 1; w++) { if (!u && !w) continue; int I = (i + u + N) % N, J = j + w; if (b.ecc < 1) J = (J + M) % M; else if (J < 0 || J >= M) continue; if (d[I * M + J] < v) { m = false; break; } }
      if (m) c.push_back({(D)v, g1[i], g2[j]});
   }
   std::sort(c.begin(), c.end()); D best = 1e30;
   for (size_t k = 0; k < c.size() && k < 12; k++) { D u = c[k][1], v = c[k][2], f = refine(a, b, u, v); if (f < best) { best = f; bn1 = u; bn2 = v; } }
   return sqrt(best);
}
static void mk(ELEMENTS &e, D q, D ecc, D i, D o, D w) { memset(&e, 0, sizeof e); e.q = q; e.ecc = ecc; e.incl = i; e.asc_node = o; e.arg_per = w; e.gm = MU; e.perih_time = rng.uni(2440000, 2460000); e.epoch = 2451545; derive_quantities(&e, MU); }
static const double JPL[15][6] = {
   {0.38709927, 0.20563593, 7.00497902, 48.33076593, 77.45779628, 252.25032350}, {0.72333566, 0.00677672, 3.39467605, 76.67984255, 131.60246718, 181.97909950}, {1.00000261, 0.01671123, -0.00001531, 0.0, 102.93768193, 100.46457166},
   {1.52371034, 0.09339410, 1.84969142, 49.55953891, -23.94362959, -4.55343205}, {5.20288700, 0.04838624, 1.30439695, 100.47390909, 14.72847983, 34.39644051}, {9.53667594, 0.05386179, 2.48599187, 113.66242448, 92.59887831, 49.95424423},
   {19.18916464, 0.04725744, 0.77263783, 74.01692503, 170.95427630, 313.23810451}, {30.06992276, 0.00859048, 1.77004347, 131.78422574, 44.96476227, -55.12002969}, {39.48211675, 0.24882730, 17.14001206, 110.30393684, 224.06891629, 238.92903833},
   {2.7664603, 0.0783638, 10.583360, 80.494464, 73.921341, 0}, {2.7723257, 0.2296435, 34.846130, 173.197757, 310.264059, 0}, {2.3615363, 0.0900245, 7.133918, 103.951631, 149.589094, 0}, {2.5543838, 0.0722511, 6.102741, 356.567840, 62.015715, 0}, {2.9204983, 0.1382234, 3.093382, 150.465894, 229.122381, 0}, {2.6437135, 0.1862108, 11.747399, 293.516504, 96.956836, 0}};
static const double RATE[9][6] = {
   {0.00000037, 0.00001906, -0.00594749, -0.12534081, 0.16047689, 149472.67411175}, {0.00000390, -0.00004107, -0.00078890, -0.27769418, 0.00268329, 58517.81538729}, {0.00000562, -0.00004392, -0.01294668, 0.0, 0.32327364, 35999.37244981},
   {0.00001847, 0.00007882, -0.00813131, -0.29257343, 0.44441088, 19140.30268499}, {-0.00011607, -0.00013253, -0.00183714, 0.20469106, 0.21252668, 3034.74612775}, {-0.00125060, -0.00050991, 0.00193609, -0.28867794, -0.41897216, 1222.49362201},
   {-0.00196176, -0.00004397, -0.00242939, 0.04240589, 0.40805281, 428.48202785}, {0.00026291, 0.00005105, 0.00035372, -0.00508664, -0.32241464, 218.45945325}, {-0.00031596, 0.00005170, 0.00004818, -0.01183482, -0.04062942, 145.20780515}};
static bool same_angle(D a, D b, D tol) { D d = a - b; d -= 2 * M_PI * rint(d / (2 * M_PI)); return fabs(d) <= tol; }
static void planets(int idx, D tc)
{
   ELEMENTS e; memset(&e, 0x5a, sizeof e);
   vh::cur("planet %d t_cen %.12g", idx, tc);
   int rv = setup_planet_elem(&e, idx, tc);
   if (idx < 1 || idx > 15) { if (rv != -1) vh::bad("unknown-planet", "orbit given for body %d (%d)", idx, rv); vh::count("unknown bodies"); return; }
   D x[6]; for (int i = 0; i < 6; i++) x[i] = JPL[idx - 1][i] + (idx <= 9 ? RATE[idx - 1][i] * tc : 0);
   D r = M_PI / 180, w = idx <= 9 ? x[4] - x[3] : x[4], q = x[0] * (1 - x[1]);
   if (rv || fabs(e.q - q) > 1e-12 * q || fabs(e.ecc - x[1]) > 1e-14 || !same_angle(e.incl, x[2] * r, 1e-13) || !same_angle(e.asc_node, x[3] * r, 1e-12) || !same_angle(e.arg_per, w * r, 1e-12))
      vh::bad("planet-elements", "body %d: q=%.12g e=%.12g i=%.12g node=%.12g w=%.12g; published q=%.12g e=%.12g i=%.12g node=%.12g w=%.12g (deg)", idx, e.q, e.ecc, e.incl / r, e.asc_node / r, e.arg_per / r, q, x[1], x[2], x[3], w);
   if (fabs(e.epoch - (2451545. + 36525. * tc)) > 1e-6) vh::bad("planet-epoch", "epoch %.9g", e.epoch);
   if (idx <= 9) {
      D M = (x[5] - x[4]) * r; ELEMENTS f = e; D l[4]; comet_posn(&f, e.epoch, l);
      if (!same_angle(f.mean_anomaly, M, 1e-9 + 1e-9 / e.t0 * 10)) vh::bad("planet-longitude", "mean anomaly at epoch %.9g, published %.9g (rad)", f.mean_anomaly, fmod(M, 2 * M_PI));
   }
   vh::count("planet orbits"); vh::seen(vh::mix((uint64_t)idx, vh::hdbl(tc)));
}
static void vel(const ELEMENTS &e, D nu, D *o) { D h = sqrt(MU * e.q * (1 + e.ecc)), p = e.q * (1 + e.ecc), x = -MU / h * sin(nu), y = MU / h * (e.ecc + cos(nu)); (void)p; for (int i = 0; i < 3; i++) o[i] = x * e.perih_vec[i] + y * e.sideways[i]; }
static void pair_case()
{
   ELEMENTS a, b; int pl = 0;
   if (rng.chance(.5)) { pl = 1 + (int)rng.below(15); setup_planet_elem(&a, pl, rng.uni(-2, 2)); vh::count("against a planet"); }
   else mk(a, rng.logu(.2, 20), rng.chance(.15) ? 0 : rng.chance(.2) ? rng.uni(.8, .97) : rng.uni(0, .8), acos(rng.uni(-1, 1)), rng.uni(0, 6.28), rng.uni(0, 6.28));
   D ecc; int cl = (int)rng.below(5); static const char *cn[] = {"ordinary ellipse", "elongated ellipse", "comet-like ellipse", "parabola", "hyperbola"};
   ecc = cl == 0 ? (rng.chance(.1) ? 0 : rng.uni(0, .6)) : cl == 1 ? rng.uni(.6, .95) : cl == 2 ? 1 - rng.logu(1e-4, .05) : cl == 3 ? 1 : 1 + rng.logu(1e-4, 3);
   D q = rng.chance(.4) ? a.q * (1 + a.ecc) * rng.uni(.5, 1.1) : rng.logu(.05, 20), inc = rng.chance(.1) ? a.incl : rng.chance(.5) ? rng.uni(0, .3) : acos(rng.uni(-1, 1));
   mk(b, q, ecc, inc, rng.chance(.1) ? a.asc_node : rng.uni(0, 6.28), rng.uni(0, 6.28));
   if (rng.chance(.05) && a.ecc > 0) { b = a; b.arg_per += rng.uni(-.3, .3); b.q *= rng.uni(.9, 1.1); derive_quantities(&b, MU); vh::count("nearly coincident orbits"); cl = 0; ecc = b.ecc; }
   if (rng.chance(.08)) { /* orbits that truly cross, often the first of them a circle */
      if (rng.chance(.5) && !pl) mk(a, a.q, 0, a.incl, a.asc_node, a.arg_per);
      D u0 = rng.uni(-3.1, 3.1), v0 = rng.chance(.5) ? rng.uni(-1.5, 1.5) : rng.uni(-3, 3), p[3], n[3], t[3], e[3], r; at(a, u0, p); r = sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); for (int i = 0; i < 3; i++) p[i] /= r;
      if (ecc >= 1 && 1 + ecc * cos(v0) < .1) v0 = 1; D z = acos(rng.uni(-1, 1)), y = rng.uni(0, 6.28); t[0] = sin(z) * cos(y); t[1] = sin(z) * sin(y); t[2] = cos(z);
      for (int i = 0; i < 3; i++) n[i] = p[(i + 1) % 3] * t[(i + 2) % 3] - p[(i + 2) % 3] * t[(i + 1) % 3]; D l = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
      if (l > .05) { for (int i = 0; i < 3; i++) n[i] /= l;
         for (int i = 0; i < 3; i++) t[i] = n[(i + 1) % 3] * p[(i + 2) % 3] - n[(i + 2) % 3] * p[(i + 1) % 3];
         for (int i = 0; i < 3; i++) e[i] = cos(v0) * p[i] - sin(v0) * t[i];
         D i2 = acos(n[2]), o2 = atan2(n[0], -n[1]), w2 = atan2(e[2] / sin(i2), e[0] * cos(o2) + e[1] * sin(o2)), q2 = r * (1 + ecc * cos(v0)) / (1 + ecc);
         if (sin(i2) > .02 && q2 > .01) { mk(b, q2, ecc, i2, o2, w2); vh::count("crossing orbits"); if (a.ecc == 0) vh::count("a circle crossed"); } } }
   if (b.ecc < 1 && b.q * (1 + b.ecc) / (1 - b.ecc) > 900) return;
   moid_data_t m; memset(&m, 0, sizeof m); D mo = 0;
   vh::cur("a: q=%.15g e=%.15g i=%.15g node=%.15g w=%.15g; b: q=%.15g e=%.15g i=%.15g node=%.15g w=%.15g", a.q, a.ecc, a.incl, a.asc_node, a.arg_per, b.q, b.ecc, b.incl, b.asc_node, b.arg_per);
   if (!GUARDED(mo = find_moid_full(&a, &b, &m))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
   D n1 = 0, n2 = 0, br = brute(a, b, 72, n1, n2);
   /* start from the library's own answer too */
   D u = m.obj1_true_anom, v0 = 0, best = 1e30; { auto g = grid(b, 720); for (D v : g) { D f = sep2(a, b, u, v); if (f < best) { best = f; v0 = v; } } }
   D pu = u, pv = v0, own = 0; { D lo = v0 - .01, hi = v0 + .01; if (b.ecc >= 1) { D lim = acos(std::max(-1., (b.q * (1 + b.ecc) / 995 - 1) / b.ecc)); hi = std::min(hi, lim); lo = std::max(lo, -lim); } for (int k = 0; k < 90; k++) { D x = lo + (hi - lo) * .381966, y = lo + (hi - lo) * .618034; if (sep2(a, b, u, x) < sep2(a, b, u, y)) hi = y; else lo = x; } pv = (lo + hi) / 2; own = sqrt(sep2(a, b, u, pv)); }
   D fu = pu, fv = pv, fr = sqrt(refine(a, b, fu, fv)); if (fr < br) { br = fr; n1 = fu; n2 = fv; }
   /* two nearly equal minima within one search step (documented limit of the method): either may be reported */
   D apart = pv - n2; apart = fabs(apart - 2 * M_PI * rint(apart / (2 * M_PI)));
   const bool twin = apart > .005 && apart < .25;
   const D tol = (twin ? 1e-4 * (1 + a.q) : 2e-6) + 3e-5 * br + 5e-8 * b.q * (1 + b.ecc) / pow(1 + b.ecc * cos(n2), 2);   /* last: the search stops at 1e-6 degree */
   if (twin) vh::count("neighbouring minima");
   if (!(mo <= br + tol)) vh::bad("not-minimum", "reported %.10g, but the orbits come within %.10g at anomalies %.9g, %.9g", mo, br, n1, n2);
   if (!(mo >= br - 1e-7 - 1e-6 * br)) vh::bad("unrealisable", "reported %.10g, but no points are closer than %.10g", mo, br);
   if (fabs(m.obj1_true_anom) > 2 * M_PI + 1e-9) vh::bad("anomaly", "anomaly %.9g out of range", m.obj1_true_anom);
   if (!(fabs(own - mo) <= 2e-4 * mo + 1e-5 * (1 + a.q))) vh::bad("anomaly", "the reported point (anomaly %.9g) is %.9g from the other orbit, not %.9g", u, own, mo);
   /* time and encounter speed */
   { ELEMENTS f = a; D l[4], p[3]; comet_posn(&f, m.jd1, l); at(a, u, p); D d = sqrt(pow(l[0] - p[0], 2) + pow(l[1] - p[1], 2) + pow(l[2] - p[2], 2)); if (!(d <= 1e-6 * l[3] + 1e-6)) vh::bad("moid-date", "at the date given (%.6f) the object is %.6g AU from the point given", m.jd1, d);
     D va[3], vb[3]; vel(a, u, va); vel(b, pv, vb); D s = sqrt(pow(va[0] - vb[0], 2) + pow(va[1] - vb[1], 2) + pow(va[2] - vb[2], 2)); bool flat = mo > .05;
     if (!flat && !(fabs(s - m.barbee_speed) <= 3e-3 * (sqrt(va[0] * va[0] + va[1] * va[1] + va[2] * va[2]) + s))) vh::bad("speed", "encounter speed %.9g, expected %.9g AU/day", m.barbee_speed, s);
     if (!flat) vh::count("encounter speeds compared"); }
   vh::count(cn[cl]); vh::count("pairs");
   if (br < .01) vh::count("close approaches");
   vh::seen(vh::mix(vh::hdbl(mo), vh::hdbl(a.q)));
   if (vh::nontrivial_total % 997 == 0) vh::sample("%s: moid %.9g brute force %.9g", cn[cl], mo, br);
   D mb = 0; moid_data_t m2;
   if (b.ecc < .7) {       /* the first orbit is meant to be the rounder one */
      if (!GUARDED(mb = find_moid_full(&b, &a, &m2))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
      if (!(fabs(mb - mo) <= 2 * tol)) vh::bad("asymmetric", "%.10g one way, %.10g the other", mo, mb);
      vh::count("both orders");
   }
   /* rotating both orbits together changes nothing; no data block needed */
   ELEMENTS a2 = a, b2 = b; D rot = rng.uni(-3, 3); a2.asc_node += rot; b2.asc_node += rot; derive_quantities(&a2, MU); derive_quantities(&b2, MU);
   if (GUARDED(mb = find_moid_full(&a2, &b2, NULL))) { if (!(fabs(mb - mo) <= tol)) vh::bad("rotation", "%.10g after turning both orbits by %.6g, %.10g before", mb, rot, mo); }
   else vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str());
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   for (int i = -2; i <= 18; i++) if (vh::mine(i + 2)) for (int k = 0; k < 40; k++) planets(i, k == 0 ? 0 : rng.uni(-30, 30));
   long n = vh::budget(24000, 600000);
   if (vh::mode == "san") n = vh::budget(2000, 40000);
   for (long i = 0; i < n; i++) pair_case();
   for (auto *c : {"ordinary ellipse", "elongated ellipse", "comet-like ellipse", "parabola", "hyperbola", "against a planet", "close approaches", "both orders", "planet orbits", "unknown bodies", "encounter speeds compared"}) vh::need(c, 10);
   return vh::finish();
}
