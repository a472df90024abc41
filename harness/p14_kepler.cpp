/* P14: two-body positions against a long-double universal-variable solution, for every orbit type. */
#include "vh_trap.h"
#include "watdefs.h"
#include "comets.h"
#include "kepref.h"
extern "C++" double kepler(const double ecc, double mean_anom);
using namespace kepref;
using vh::rng;
static const double MU = .01720209895 * .01720209895;
static const double EPS = 2.220446049250313e-16;

static double pick_ecc(int *cls)
{
   int k = (int)rng.below(12); *cls = k;
   switch (k) {
      case 0: return 0.;
      case 1: return rng.logu(1e-17, 1e-3);
      case 2: return rng.uni(0, .9);
      case 3: return rng.uni(.89, .91);
      case 4: return rng.uni(.9, .9999);
      case 5: return 1 - rng.logu(1e-9, 1e-4);
      case 6: return 1 - rng.logu(1.2e-16, 1e-9);
      case 7: return 1.;
      case 8: return 1 + rng.logu(2.3e-16, 1e-9);
      case 9: return 1 + rng.logu(1e-9, 1e-2);
      case 10: return 1 + rng.logu(1e-2, 5);
      default: return 1 + rng.logu(1, 1e4);
   }
}
static const char *cname[] = {"circular", "nearly circular", "low eccentricity", "around e=.9", "high eccentricity", "near-parabolic ellipse", "barely elliptic", "parabola", "barely hyperbolic", "near-parabolic hyperbola", "hyperbola", "strong hyperbola"};
static double pick_angle(double hi)
{
   switch (rng.below(8)) {
      case 0: return 0.;
      case 1: return hi;
      case 2: return hi / 2;
      case 3: return hi / 2 + rng.logu(1e-17, 1e-3) * (rng.chance(.5) ? 1 : -1);
      case 4: return rng.logu(1e-17, 1e-3);
      case 5: return hi * rng.range(0, 8) / 8.;
      default: return rng.uni(0, hi);
   }
}
struct Ref { L p[3], v[3], r, speed; };
static Ref reference(const ELEMENTS &e, double mu, double dt)
{
   L x, y, vx, vy, P[3], S[3]; Ref z;
   z.r = perifocal(e.q, e.ecc, mu, dt, &x, &y, &vx, &vy); axes(e.incl, e.asc_node, e.arg_per, P, S);
   for (int i = 0; i < 3; i++) { z.p[i] = P[i] * x + S[i] * y; z.v[i] = P[i] * vx + S[i] * vy; }
   z.speed = sqrtl(vx * vx + vy * vy);
   return z;
}
static L dist3(const L *a, const double *b) { L s = 0; for (int i = 0; i < 3; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrtl(s); }

static void one_orbit()
{
   ELEMENTS e; int cls;
   memset(&e, 0xa5, sizeof e);
   e.q = rng.chance(.5) ? rng.uni(.1, 5) : rng.logu(1e-4, 1e4);
   e.ecc = pick_ecc(&cls);
   const double mu = rng.chance(.6) ? MU : MU * rng.logu(1e-9, 10.);
   e.incl = pick_angle(M_PI); e.asc_node = pick_angle(2 * M_PI); e.arg_per = pick_angle(2 * M_PI);
   e.perih_time = rng.chance(.5) ? 0. : rng.uni(2400000., 2500000.);
   e.gm = mu; e.abs_mag = 10; e.slope_param = .15; e.central_obj = 0; e.is_asteroid = 1; e.epoch = e.perih_time; e.mean_anomaly = 0;
   vh::cur("q=%.17g e=%.17g i=%.17g node=%.17g w=%.17g mu=%.17g T=%.17g (derive)", e.q, e.ecc, e.incl, e.asc_node, e.arg_per, mu, e.perih_time);
   derive_quantities(&e, mu);
   vh::count(cname[cls]);
   /* derived quantities */
   if (e.ecc != 1) {
      L a = e.q / fabsl(1 - (L)e.ecc), t0 = a * sqrtl(a / mu);
      if (fabsl(fabsl(e.major_axis) / a - 1) > 1e-13L || fabsl(fabsl(e.t0) / t0 - 1) > 1e-13L) vh::bad("derived", "major axis %.17g (expected %.17Lg), t0 %.17g (expected %.17Lg)", e.major_axis, a, e.t0, t0);
   }
   L P[3], S[3]; axes(e.incl, e.asc_node, e.arg_per, P, S);
   if (dist3(P, e.perih_vec) > 1e-14L || dist3(S, e.sideways) > 1e-14L)
      vh::bad("axes", "perihelion direction (%.12g %.12g %.12g), expected (%.12Lg %.12Lg %.12Lg); off by %.3Lg, sideways off by %.3Lg", e.perih_vec[0], e.perih_vec[1], e.perih_vec[2], P[0], P[1], P[2], dist3(P, e.perih_vec), dist3(S, e.sideways));
   L hh = sqrtl((L)mu * e.q * (1 + (L)e.ecc));
   if (fabsl(e.angular_momentum / hh - 1) > 1e-14L) vh::bad("derived", "angular momentum %.17g expected %.17Lg", e.angular_momentum, hh);
   const double ts = e.q * sqrt(e.q / mu);
   for (int k = 0; k < 5; k++) {
      double dt;
      switch (rng.below(8)) {
         case 0: dt = 0; break;
         case 1: dt = e.ecc < 1 && e.t0 > 0 ? M_PI * e.t0 * (rng.chance(.5) ? 1 : 1 + rng.uni(-1e-9, 1e-9)) : ts; break;
         case 2: dt = e.ecc < 1 && e.t0 > 0 ? e.t0 * rng.uni(-7, 7) : ts * rng.uni(-10, 10); break;
         case 3: dt = ts * rng.logu(1e-12, 1e-3); break;
         case 4: dt = ts * rng.logu(1, 1e6); break;
         default: dt = ts * rng.logu(1e-4, 1e3);
      }
      if (rng.chance(.5)) dt = -dt;
      double t = e.perih_time + dt; dt = t - e.perih_time;
      double loc[5] = {9, 9, 9, 9, 123.25}, loc2[5] = {8, 8, 8, 8, 123.25}, vel[4] = {9, 9, 9, 321.5};
      vh::cur("q=%.17g e=%.17g i=%.17g node=%.17g w=%.17g mu=%.17g T=%.17g t=%.17g", e.q, e.ecc, e.incl, e.asc_node, e.arg_per, mu, e.perih_time, t);
      if (!GUARDED(comet_posn_and_vel(&e, t, loc, vel); comet_posn(&e, t, loc2))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); continue; }
      Ref z = reference(e, mu, dt);
      const L tolp = 60 * EPS * (z.r * (1 + z.r / e.q) + z.speed * fabsl((L)dt)), scale = tolp / z.r;
      const L accel = mu / (z.r * z.r), tolv = z.speed * scale * 4 + accel * tolp / z.speed * 4 + 60 * EPS * z.speed;
      if (dist3(z.p, loc) > tolp || !(dist3(z.p, loc) < 1e300L)) vh::bad("position", "position (%.15g %.15g %.15g), expected (%.15Lg %.15Lg %.15Lg): off by %.3Lg of %.6Lg (allowed %.3Lg)", loc[0], loc[1], loc[2], z.p[0], z.p[1], z.p[2], dist3(z.p, loc), z.r, tolp);
      if (!(fabsl(loc[3] - z.r) <= tolp)) vh::bad("distance", "distance %.15g expected %.15Lg", loc[3], z.r);
      if (!(dist3(z.v, vel) <= tolv)) vh::bad("velocity", "velocity (%.15g %.15g %.15g), expected (%.15Lg %.15Lg %.15Lg): off by %.3Lg (allowed %.3Lg)", vel[0], vel[1], vel[2], z.v[0], z.v[1], z.v[2], dist3(z.v, vel), tolv);
      if (loc2[0] != loc[0] || loc2[1] != loc[1] || loc2[2] != loc[2] || loc2[3] != loc[3]) vh::bad("posn-only", "comet_posn differs from comet_posn_and_vel");
      if (loc[4] != 123.25 || vel[3] != 321.5) vh::bad("overrun", "wrote beyond loc[3] or vel[2]");
      /* mean anomaly left in the structure */
      if (e.ecc != 1) {
         L M = dt / (e.q / fabsl(1 - (L)e.ecc) * sqrtl(e.q / fabsl(1 - (L)e.ecc) / mu));
         L dM = e.mean_anomaly - M; if (e.ecc < 1) dM -= 2 * M_PIl * rintl(dM / (2 * M_PIl));
         if (fabsl(dM) > 1e-14L * (1 + 4 * fabsl(M))) vh::bad("mean-anomaly", "mean anomaly %.15g, expected %.15Lg", e.mean_anomaly, M);
         if (e.ecc < 1 && fabs(e.mean_anomaly) > M_PI * (1 + 1e-14)) vh::bad("mean-anomaly", "mean anomaly %.15g out of range", e.mean_anomaly);
      }
      /* periodicity */
      if (e.ecc < 1 && fabs(dt) < 20 * e.t0) {
         double t2 = t + 2 * M_PI * e.t0 * rng.range(1, 3), l2[4], v2[3];
         double dt2 = t2 - e.perih_time;
         if (GUARDED(comet_posn_and_vel(&e, t2, l2, v2))) {
            Ref y = reference(e, mu, dt2);
            const L tol2 = 60 * EPS * (y.r * (1 + y.r / e.q) + y.speed * fabsl((L)dt2));
            if (!(dist3(y.p, l2) <= tol2)) vh::bad("revolutions", "position off by %.3Lg a few revolutions later (allowed %.3Lg)", dist3(y.p, l2), tol2);
            vh::count("positions a few revolutions on");
         } else vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str());
      }
      vh::seen(vh::mix(vh::hdbl(e.ecc), vh::mix(vh::hdbl(e.q), vh::hdbl(dt))));
      if (z.r > 100 * e.q) vh::count("far from perihelion");
      if (k == 0) vh::sample("%s q=%.6g e=%.9g dt=%.6g r=%.6Lg", cname[cls], e.q, e.ecc, dt, z.r);
   }
}
/* Kepler's equation itself, any number of revolutions */
static void kepler_eqn()
{
   int cls; double e = pick_ecc(&cls); if (e == 1) return;
   double M = rng.chance(.3) ? rng.uni(-4, 4) : rng.chance(.3) ? rng.uni(-1e3, 1e3) : rng.logu(1e-12, e > 1 ? 1e8 : 100) * (rng.chance(.5) ? 1 : -1), E = 0;
   if (rng.chance(.05)) M = 0;
   vh::cur("kepler e=%.17g M=%.17g", e, M);
   if (!GUARDED(E = kepler(e, M))) { vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); return; }
   L F, d, x = E;
   if (e < 1) { L k = rintl(x / (2 * M_PIl)); L y = x - k * 2 * M_PIl; L s = fabsl(y) < .5L ? ({ L t = y * y * y / 6, a = 0; for (int n = 4; n < 40; n += 2) { a += t; t *= -y * y / (n * (n + 1)); } a; }) : y - sinl(y);
      F = (1 - (L)e) * y + e * s + k * 2 * M_PIl; d = 1 - e * cosl(y); if (d < 1 - (L)e) d = 1 - e; L h = sinl(y / 2); d = 1 - (L)e + 2 * e * h * h; }
   else { L s = fabsl(x) < .5L ? ({ L t = x * x * x / 6, a = 0; for (int n = 4; n < 40; n += 2) { a += t; t *= x * x / (n * (n + 1)); } a; }) : sinhl(x) - x;
      F = ((L)e - 1) * x + e * s; L h = sinhl(x / 2); d = (L)e - 1 + 2 * e * h * h; }
   L err = fabsl(F - M) / d;     /* error in the anomaly */
   L tol = 60 * EPS * fabsl(x) + 8 * EPS * fabsl((L)M) / d + 4e-12L * (e < .9 ? 1e-6L : 0);
   if (!(err <= tol)) vh::bad("kepler", "E=%.17g leaves M off by %.3Lg: anomaly off by %.3Lg (allowed %.3Lg)", E, F - M, err, tol);
   vh::count("kepler equations"); vh::seen(vh::mix(vh::hdbl(e), vh::hdbl(M)));
}
/* compressed catalogue elements: six 32-bit integers */
static void ast_file()
{
   uint32_t w[6]; ELEMENTS e; memset(&e, 0, sizeof e);
   w[0] = (uint32_t)rng.below(3600000000u); w[2] = (uint32_t)rng.below(99999999); w[3] = (uint32_t)rng.below(3600000000u); w[4] = (uint32_t)rng.below(3600000000u); w[5] = (uint32_t)rng.below(1800000000u);
   L a;
   switch (rng.below(3)) { case 0: w[1] = (uint32_t)rng.range(10000000, 2100000000); break; case 1: w[1] = (uint32_t)rng.range(2100000001, 3150000000u); break; default: w[1] = (uint32_t)rng.range(3150000001u, 4190000000u); }
   a = w[1] / 1e8L; if (w[1] > 3150000000u) { a = 63 / (4 - a / 10.5L); vh::count("very large axes"); } else if (w[1] > 2100000000u) { a = 4 * a - 63; vh::count("large axes"); }
   double ep = rng.uni(2400000, 2500000);
   vh::cur("packed elements %u %u %u %u %u %u epoch %.17g", w[0], w[1], w[2], w[3], w[4], w[5], ep);
   setup_elems_from_ast_file(&e, w, ep);
   L M = w[0] / 1e7L, t0 = a * sqrtl(a / MU), d2r = M_PIl / 180;
   const L ta = 1e-14L + 2e-16L * a;      /* 4 - x cancels for the largest axes */
   if (fabsl(e.major_axis / a - 1) > ta || fabsl(e.ecc - w[2] / 1e8L) > 1e-15L || fabsl(e.incl - w[5] / 1e7L * d2r) > 1e-14L || fabsl(e.arg_per - w[4] / 1e7L * d2r) > 1e-14L || fabsl(e.asc_node - w[3] / 1e7L * d2r) > 1e-14L
       || fabsl(e.mean_anomaly - M * d2r) > 1e-14L || e.epoch != ep || fabsl(e.q / (a * (1 - w[2] / 1e8L)) - 1) > ta + 1e-14L + 1e-15L / (1 - w[2] / 1e8L) || e.gm != MU || e.central_obj)
      vh::bad("packed", "a=%.12g (expected %.12Lg) e=%.10g i=%.10g w=%.10g node=%.10g M=%.10g q=%.10g", e.major_axis, a, e.ecc, e.incl, e.arg_per, e.asc_node, e.mean_anomaly, e.q);
   if (fabsl(e.perih_time - (ep - M * d2r * t0)) > 1e-8L + 1e-11L * t0) vh::bad("packed", "perihelion %.9g, expected %.9Lg", e.perih_time, ep - M * d2r * t0);
   double loc[4]; double mref = e.mean_anomaly; comet_posn(&e, ep, loc);
   L dm = e.mean_anomaly - mref; dm -= 2 * M_PIl * rintl(dm / (2 * M_PIl));
   if (fabsl(dm) > 1e-10L + 1e-8L / t0) vh::bad("packed", "mean anomaly at the epoch %.12g, stated %.12g", e.mean_anomaly, mref);
   vh::count("packed elements"); vh::seen(vh::mix(w[0], w[1]));
}
/* H-G phase law */
static void phase_law()
{
   double ph = rng.chance(.1) ? 0 : rng.uni(0, 2.9), G = rng.uni(0, .5);
   vh::cur("phase %.17g slope %.17g", ph, G);
   double c = phase_angle_correction_to_magnitude(ph, G);
   L t = tanl(ph / 2.L), p1 = expl(-3.33L * powl(t, .63L)), p2 = expl(-1.87L * powl(t, 1.22L)), m = -2.5L * log10l((1 - G) * p1 + G * p2);
   if (!(fabsl(c - m) < 5e-6L)) vh::bad("phase", "correction %.9g, expected %.9Lg", c, m);
   vh::count("phase corrections"); vh::seen(vh::hdbl(ph));
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   long n = vh::budget(250000, 6000000);
   if (vh::mode == "san") n /= 10;
   for (long i = 0; i < n; i++) { one_orbit(); kepler_eqn(); if (i % 4 == 0) { ast_file(); phase_law(); } }
   for (auto *c : cname) vh::need(c, 100);
   vh::need("far from perihelion", 1000); vh::need("kepler equations", 1000); vh::need("very large axes", 100); vh::need("large axes", 100); vh::need("phase corrections", 100); vh::need("positions a few revolutions on", 1000);
   return vh::finish();
}
