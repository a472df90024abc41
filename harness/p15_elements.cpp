/* P15: state vector -> elements -> state vector, and the defining relations of the elements. */
#include "vh_trap.h"
#include "watdefs.h"
#include "comets.h"
#include "kepref.h"
using namespace kepref;
using vh::rng;
static const double MU = .01720209895 * .01720209895, EPS = 2.220446049250313e-16;
static const char *cname[] = {"circular", "nearly circular", "low eccentricity", "around e=.9", "high eccentricity", "near-parabolic ellipse", "barely elliptic", "parabola", "barely hyperbolic", "near-parabolic hyperbola", "hyperbola", "strong hyperbola"};
static double pick_ecc(int *cls)
{
   int k = (int)rng.below(12); *cls = k;
   switch (k) {
      case 0: return 0.;
      case 1: return rng.logu(1e-17, 1e-3);
      case 2: return rng.uni(0, .9);
      case 3: return rng.uni(.89, .91);
      case 4: return rng.uni(.9, .9999);
      case 5: return 1 - rng.logu(1e-9, 1e-4);
      case 6: return 1 - rng.logu(1.2e-16, 1e-9);
      case 7: return 1.;
      case 8: return 1 + rng.logu(2.3e-16, 1e-9);
      case 9: return 1 + rng.logu(1e-9, 1e-2);
      case 10: return 1 + rng.logu(1e-2, 5);
      default: return 1 + rng.logu(1, 1e3);
   }
}
static double pick_angle(double hi)
{
   switch (rng.below(8)) {
      case 0: return 0.;
      case 1: return hi;
      case 2: return hi / 2;
      case 3: return hi / 2 + rng.logu(1e-9, 1e-3) * (rng.chance(.5) ? 1 : -1);
      case 4: return rng.logu(1e-9, 1e-3);
      case 5: return hi * rng.range(0, 8) / 8.;
      default: return rng.uni(0, hi);
   }
}
static L dot(const L *a, const L *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross(L *o, const L *a, const L *b) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
static L len(const L *a) { return sqrtl(dot(a, a)); }
static L dist3(const L *a, const double *b) { L s = 0; for (int i = 0; i < 3; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrtl(s); }

static void one(const double *st, double mu, double t, const char *what, bool planar)
{
   L r[3], v[3], h[3], e[3];
   for (int i = 0; i < 3; i++) { r[i] = st[i]; v[i] = st[i + 3]; }
   cross(h, r, v);
   const L R = len(r), V = len(v), H = len(h), al = 2 / R - V * V / mu;
   cross(e, v, h); for (int i = 0; i < 3; i++) e[i] = e[i] / mu - r[i] / R;
   const L ecc = len(e), q = H * H / mu / (1 + ecc);
   if (H < 1e-4L * R * V) return;         /* (nearly) straight into the primary: elements degenerate */
   vh::cur("%s state %.17g %.17g %.17g %.17g %.17g %.17g gm %.17g t %.17g", what, st[0], st[1], st[2], st[3], st[4], st[5], mu, t);
   ELEMENTS el; memset(&el, 0, sizeof el); el.gm = mu;
   if (!GUARDED(calc_classical_elements(&el, st, t, 1))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
   /* conditioning: the eccentricity vector carries errors of some eps * (R V^2/mu + ...) */
   const L cond = 1 + R / q + R * V * V / mu, de = 40 * EPS * (1 + R * V * V / mu);
   if (!(fabsl(el.ecc - ecc) <= de * (1 + ecc) + 2e-14L)) vh::bad("eccentricity", "e=%.17g, expected %.17Lg (allowed %.3Lg)", el.ecc, ecc, de);
   if (!(fabsl(el.q / q - 1) <= 100 * EPS * cond)) vh::bad("perihelion-distance", "q=%.17g, expected %.17Lg (allowed %.3Lg relative)", el.q, q, 100 * EPS * cond);
   if (!(fabsl(fabsl(el.angular_momentum) / H - 1) <= 1e-14L * cond)) vh::bad("angular-momentum", "h=%.17g, expected %.17Lg", el.angular_momentum, H);
   if (el.ecc != 1. && fabsl(al) * R > 1e-9L && fabsl(ecc - 1) > 1e-9L) {
      L tol = 100 * EPS * cond / fminl(fabsl(al) * R, 1) + 100 * EPS * cond / fminl(fabsl(1 - ecc), 1);
      if (!(fabsl(fabsl(el.major_axis) * fabsl(al) - 1) <= tol)) vh::bad("major-axis", "a=%.17g, expected %.17Lg", el.major_axis, 1 / al);
      if ((el.major_axis > 0) != (al > 0)) vh::bad("major-axis", "a=%.17g has the wrong sign", el.major_axis);
      L n = sqrtl(mu * fabsl(al * al * al));
      if (!(fabsl(fabsl(el.t0) * n - 1) <= 2 * tol)) vh::bad("motion", "t0=%.17g, expected %.17Lg", el.t0, 1 / n);
   }
   L inc = atan2l(hypotl(h[0], h[1]), h[2]);
   if (!(fabsl(el.incl - inc) <= 1e-14L * cond + 1e-14L) && !(fabsl(inc - M_PIl / 2) < 1e-7L && fabsl(el.incl - inc) < 3e-8L)) vh::bad("inclination", "incl=%.17g, expected %.17Lg", el.incl, inc);
   if (el.incl < 0 || el.incl > M_PI + 1e-15) vh::bad("inclination", "incl=%.17g out of range", el.incl);
   if (hypotl(h[0], h[1]) > 1e-7L * H) {
      L node = atan2l(h[0], -h[1]), d = el.asc_node - node; d -= 2 * M_PIl * rintl(d / (2 * M_PIl));
      if (!(fabsl(d) <= 1e-14L * cond * H / hypotl(h[0], h[1]))) vh::bad("node", "node=%.17g, expected %.17Lg", el.asc_node, node);
   }
   /* orthonormal frame in the orbit plane, whatever the shape */
   L P[3] = {el.perih_vec[0], el.perih_vec[1], el.perih_vec[2]}, S[3] = {el.sideways[0], el.sideways[1], el.sideways[2]};
   if (!(fabsl(len(P) - 1) < 1e-12L && fabsl(len(S) - 1) < 1e-12L && fabsl(dot(P, S)) < 1e-12L && fabsl(dot(P, h)) < 1e-12L * cond * H && fabsl(dot(S, h)) < 1e-12L * cond * H))
      vh::bad("frame", "perihelion/sideways vectors not an orthonormal pair in the orbit plane: |P|-1=%.3Lg |S|-1=%.3Lg P.S=%.3Lg P.h=%.3Lg S.h=%.3Lg", len(P) - 1, len(S) - 1, dot(P, S), dot(P, h) / H, dot(S, h) / H);
   if (ecc > 1e-3L) { L d = 0; for (int i = 0; i < 3; i++) d += powl(P[i] - e[i] / ecc, 2); if (!(sqrtl(d) <= de / ecc * 4 + 1e-14L)) vh::bad("perihelion-direction", "off by %.3Lg", sqrtl(d)); }
   /* (a) the structure as returned */
   const L shift = R * EPS * (1000 * cond * cond + 100 / fmaxl(fabsl(1 - ecc), 1e-6L));
   double loc[4], vel[3]; ELEMENTS e1 = el;
   /* time granularity: perihelion time is stored as a double, the elapsed time re-derived from it */
   const L dtime = 4 * EPS * (fabsl((L)t) + fabsl((L)el.perih_time) + fabsl((L)t - el.perih_time));
   L tol = shift + V * dtime, tolv = V * 1000 * EPS * cond * cond + mu / R / R * dtime + V * shift / R;
   if (ecc < 1e-3L) { tol += 0; }
   if (!GUARDED(comet_posn_and_vel(&e1, t, loc, vel))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
   if (!(dist3(r, loc) <= tol)) vh::bad("round-trip-position", "came back (%.15g %.15g %.15g): off by %.3Lg of %.6Lg (allowed %.3Lg), e=%.17Lg", loc[0], loc[1], loc[2], dist3(r, loc), R, tol, ecc);
   if (!(dist3(v, vel) <= tolv)) vh::bad("round-trip-velocity", "came back (%.15g %.15g %.15g): off by %.3Lg of %.6Lg (allowed %.3Lg)", vel[0], vel[1], vel[2], dist3(v, vel), V, tolv);
   /* (b) from the seven published elements alone (q, e, i, node, argument, perihelion time, gm) */
   ELEMENTS e2; memset(&e2, 0, sizeof e2);
   e2.q = el.q; e2.ecc = el.ecc; e2.incl = el.incl; e2.asc_node = el.asc_node; e2.arg_per = el.arg_per; e2.perih_time = el.perih_time; e2.gm = mu; e2.epoch = el.epoch;
   derive_quantities(&e2, mu);
   const L angtol = (fabsl(inc - M_PIl / 2) < 1e-6L ? 5e-8L : 0) + 1e-13L * cond + 4e-16L * H / fmaxl(hypotl(h[0], h[1]), 1e-30L) * (hypotl(h[0], h[1]) > 0 ? 1 : 0);
   const L loose = R * fminl(angtol + 3e-13L * cond, 1e-6L) + tol, loosev = V * fminl(angtol + 3e-13L * cond, 1e-6L) + tolv;
   if (!GUARDED(comet_posn_and_vel(&e2, t, loc, vel))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
   if (hypotl(h[0], h[1]) == 0 || hypotl(h[0], h[1]) > 1e-9L * H) {
      if (!(dist3(r, loc) <= loose)) vh::bad(planar ? "elements-position-planar" : "elements-position", "the angular elements give (%.15g %.15g %.15g): off by %.3Lg of %.6Lg (allowed %.3Lg); e=%.15g i=%.15g node=%.15g w=%.15g", loc[0], loc[1], loc[2], dist3(r, loc), R, loose, el.ecc, el.incl, el.asc_node, el.arg_per);
      if (!(dist3(v, vel) <= loosev)) vh::bad(planar ? "elements-velocity-planar" : "elements-velocity", "the angular elements give a velocity off by %.3Lg of %.6Lg (allowed %.3Lg)", dist3(v, vel), V, loosev);
      vh::count("states rebuilt from the angular elements");
   }
   /* (c) somewhere else on the orbit, the same orbit */
   { double t2 = t + (double)(R / V) * rng.uni(-3, 3); ELEMENTS e3 = el; L M = 0; (void)M;
     if (GUARDED(comet_posn_and_vel(&e3, t2, loc, vel))) {
        L r2[3], v2[3], h2[3]; for (int i = 0; i < 3; i++) { r2[i] = loc[i]; v2[i] = vel[i]; } cross(h2, r2, v2);
        L dh = 0; for (int i = 0; i < 3; i++) dh += powl(h2[i] - h[i], 2); dh = sqrtl(dh);
        L R2 = len(r2), V2 = len(v2), c2 = cond + R2 / q;
        if (!(dh <= 1e-12L * c2 * H)) vh::bad("momentum-conserved", "angular momentum changed by %.3Lg of %.3Lg", dh, H);
        if (!(fabsl(V2 * V2 / 2 - mu / R2 - (V * V / 2 - mu / R)) <= 1e-12L * c2 * (V2 * V2 + V * V + mu / R + mu / R2))) vh::bad("energy-conserved", "energy %.15Lg, was %.15Lg", V2 * V2 / 2 - mu / R2, V * V / 2 - mu / R);
     } else vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); }
   /* (d) ref=0 leaves the shape the same */
   { ELEMENTS e4; memset(&e4, 0, sizeof e4); e4.gm = mu; calc_classical_elements(&e4, st, t, 0);
     if (e4.q != el.q || e4.ecc != el.ecc || e4.perih_time != el.perih_time) vh::bad("ref0", "q, e or T change when the angles are not asked for"); }
   vh::seen(vh::mix(vh::hdbl(st[0]), vh::hdbl(st[4])));
}
static void from_elements()
{
   int cls; double e = pick_ecc(&cls), q = rng.chance(.5) ? rng.uni(.1, 5) : rng.logu(1e-3, 1e3);
   double mu = rng.chance(.4) ? MU : rng.chance(.3) ? 1. : MU * rng.logu(1e-9, 1e3);
   double i = pick_angle(M_PI), O = pick_angle(2 * M_PI), w = pick_angle(2 * M_PI), ts = q * sqrt(q / mu);
   bool planar = rng.chance(.12); if (planar) i = rng.chance(.5) ? 0 : M_PI;
   double dt = rng.chance(.1) ? 0 : ts * rng.logu(1e-6, rng.chance(.2) ? 1e4 : 30) * (rng.chance(.5) ? 1 : -1);
   L x, y, vx, vy, P[3], S[3]; double st[6];
   perifocal(q, e, mu, dt, &x, &y, &vx, &vy); axes(i, O, w, P, S);
   for (int k = 0; k < 3; k++) { st[k] = (double)(P[k] * x + S[k] * y); st[k + 3] = (double)(P[k] * vx + S[k] * vy); }
   if (planar) st[2] = st[5] = 0.;
   vh::count(cname[cls]); if (planar) { vh::count("planar orbits"); if (i > 1) vh::count("planar retrograde orbits"); }
   one(st, mu, rng.chance(.4) ? 0. : rng.uni(2400000, 2500000), cname[cls], planar);
}
static void from_simple()
{  /* states on the axes, exactly circular, small integers */
   double mu = rng.chance(.5) ? 1. : MU, st[6]; double k = sqrt(mu);
   int a = (int)rng.below(3), b = (a + 1 + (int)rng.below(2)) % 3;
   memset(st, 0, sizeof st);
   if (rng.chance(.5)) { double r = rng.chance(.5) ? 1 : rng.chance(.5) ? 4 : rng.uni(.1, 40); st[a] = rng.chance(.5) ? r : -r; st[3 + b] = (rng.chance(.5) ? 1 : -1) * k / sqrt(r) * (rng.chance(.5) ? 1 : rng.chance(.3) ? M_SQRT2 : rng.uni(.1, 2)); if (rng.chance(.2)) st[3 + a] = k * rng.uni(-.5, .5); }
   else for (int i = 0; i < 6; i++) st[i] = (double)rng.range(-3, 3) * (i < 3 ? 1 : k);
   if (st[0] == 0 && st[1] == 0 && st[2] == 0) return;
   if (st[3] == 0 && st[4] == 0 && st[5] == 0) return;
   vh::count("simple states");
   one(st, mu, rng.chance(.5) ? 0 : 2451545., "simple", st[2] == 0 && st[5] == 0);
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   long n = vh::budget(400000, 10000000);
   if (vh::mode == "san") n /= 10;
   for (long i = 0; i < n; i++) { from_elements(); if (i % 3 == 0) from_simple(); }
   for (auto *c : cname) vh::need(c, 100);
   vh::need("planar orbits", 100); vh::need("planar retrograde orbits", 100); vh::need("simple states", 1000); vh::need("states rebuilt from the angular elements", 1000);
   return vh::finish();
}
