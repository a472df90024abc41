/* P21: Earth-surface distances against the exact geodesic (integrals on the auxiliary sphere in long double). */
#include "vh.h"
#define main dist_main
#include "dist.cpp"
#undef main
using namespace vh;
#include "geodref.h"
static LD apart(LD la1, LD lo1, LD la2, LD lo2) {   /* small or large angle between two surface directions */
   /* same identities as for the sphere, free of cancellation at both ends */
   LD a[3] = {cosl(la1) * cosl(lo1), cosl(la1) * sinl(lo1), sinl(la1)}, b[3] = {cosl(la2) * cosl(lo2), cosl(la2) * sinl(lo2), sinl(la2)}, d = 0, e = 0;
   for (int i = 0; i < 3; i++) { d += (a[i] - b[i]) * (a[i] - b[i]); e += (a[i] + b[i]) * (a[i] + b[i]); }
   d = 2 * atan2l(sqrtl(d), sqrtl(e));
   return d == d ? d : 9;
}
/* within a few millimetres of the line of points the code itself calls its trouble zone */
static bool in_zone(double la1, double lo1, double la2, double lo2, double f) {
   return fabs(la1 + la2) < 5e-9 && fabsl(remainderl((LD)lo2 - lo1, 2 * PIL)) > PIL * (1 - f) - 1e-9L;
}
static double lat_() {
   switch (rng.below(8)) { case 0: return M_PI / 2 * (rng.chance(.5) ? 1 : -1); case 1: return 0.; case 2: return (M_PI / 2 - rng.logu(1e-10, .1)) * (rng.chance(.5) ? 1 : -1); case 3: return rng.normal() * 1e-5; default: return asin(rng.uni(-1, 1)); }
}
static double lon_() {
   switch (rng.below(6)) { case 0: return rng.range(-4, 4) * M_PI / 2; case 1: return rng.range(-1, 1) * M_PI + rng.normal() * 1e-7; case 2: return rng.uni(-7, 7); default: return rng.uni(-M_PI, M_PI); }
}
static LD mx[8]; static const char *mn[8] = {"", "arrive", "arrive-antipodal", "direct", "andoyer", "sphere", "symmetric", "azimuth"};
static void mxs(int i, LD v) { if (!(v <= mx[i])) mx[i] = v; }
int main(int argc, char **argv) {
   init(argc, argv); gauss();
   const double flats[] = {1 / 298.257223563, 1 / 298.257, 1 / 297., 1 / 299.1528128, 0.};
   long n = budget(60000, 1500000);
   for (long c = 0; c < n; c++) {
      double f = flats[rng.below(rng.chance(.5) ? 1 : 5)];
      double la1 = lat_(), lo1 = lon_(), la2 = lat_(), lo2 = lon_();
      int kind = (int)rng.below(8);
      if (kind == 0) { la2 = la1; lo2 = lo1; }
      if (kind == 1) { double s = rng.logu(1e-12, .05); la2 = std::max(-M_PI / 2, std::min(M_PI / 2, la1 + s * rng.normal())); lo2 = lo1 + s * rng.normal(); }
      if (kind == 2) { double s = rng.chance(.2) ? 0. : rng.logu(1e-12, .05); la2 = std::max(-M_PI / 2, std::min(M_PI / 2, -la1 + s * rng.normal())); lo2 = lo1 + M_PI + s * rng.normal(); }
      if (kind == 3) lo2 = lo1 + rng.range(-1, 1) * M_PI;
      if (kind == 4) { la1 = rng.chance(.5) ? 0. : la1; la2 = rng.chance(.5) ? -la1 : 0.; }
      double az = 99, az2 = 99, rz = 99, rz2 = 99;
      cur("inverse %.17g %.17g %.17g %.17g flat 1/%.9g", la1, lo1, la2, lo2, f ? 1 / f : 0.);
      double d = vincenty_earth_dist(la1, lo1, la2, lo2, f, &az, &az2);
      double dr = vincenty_earth_dist(la2, lo2, la1, lo1, f, &rz, &rz2);
      double dn = vincenty_earth_dist(la1, lo1, la2, lo2, f, NULL, NULL);
      LD sep = apart(la1, lo1, la2, lo2);
      bool anti = PIL - sep < .06L, zone = in_zone(la1, lo1, la2, lo2, f);
      double slack = zone ? 6e-7 : 0.;
      if (zone) count("antipodal line");
      if (dn != d) bad("optional", "distance %.17g without azimuths, %.17g with", dn, d);
      LD half = (1 - f) * 0; { LD I1, I3; integ(0, PIL, (1 / ((LD)(1 - f) * (1 - f)) - 1), f, &I1, &I3); half = (1 - f) * I1; }
      if (!(d >= 0 && d <= half + 2e-9L + slack)) bad("range", "distance %.12g (longest possible %.12Lg)", d, half);
      if (sep > 1e-11L && !(d > 0)) bad("zero", "distance zero between points %.3Lg rad apart", sep);
      if (!(d <= sep * 1.0068L + 1e-10L && d >= sep * .9932L - 1e-10L)) if (!anti) bad("metric", "distance %.12g for points %.12Lg rad apart", d, sep);
      if (kind == 0 && d != 0.) bad("zero", "distance %.3g from a point to itself", d);
      mxs(6, fabs(d - dr));
      if (!(fabs(d - dr) < (anti ? 3e-9 + slack : 2e-11))) bad("symmetric", "%.15g one way, %.15g the other", d, dr);
      /* travelling there, exactly and by the library */
      if (d > 0) {
         End e = direct(la1, az, d, f);
         LD miss = apart(e.lat, lo1 + e.dlon, la2, lo2);
         if (getenv("DBG") && miss > (anti ? 1e-9L : mx[1])) printf("%d miss %.3Lg lat %.15g %.15g dlon %.15g az %.12g d %.12g f %g\n", anti, miss, la1, la2, lo2 - lo1, az, d, f); mxs(anti ? 2 : 1, miss);
         if (zone && miss >= 3e-9L && miss < 3e-4L) bad("antipodal-line", "going %.12g at azimuth %.9g misses by %.3Lg rad", d, az, miss);
         else if (!(miss < (anti ? 3e-9L : 4e-11L))) bad("arrive", "going %.12g at azimuth %.9g misses by %.3Lg rad", d, az, miss);
         if (!(az >= 0 && az <= 2 * M_PI && az2 >= 0 && az2 <= 2 * M_PI)) bad("azimuth-range", "azimuths %.12g %.12g", az, az2);
         LD da = fabsl(remainderl(az2 - e.az, 2 * PIL)) * fminl(cosl(la2), sinl(fminl(d, PIL / 2)));
         if (!anti) { mxs(7, da); if (!(da < 1e-10L)) bad("azimuth-there", "azimuth on arrival %.12g expected %.12Lg", az2, e.az); }
         double la3 = 99, lo3 = 99; vincenty_direct(la1, lo1, &la3, &lo3, f, az, d);
         miss = apart(la3, lo3, la2, lo2);
         if (!(miss < (zone ? 3e-4L : anti ? 3e-9L : 6e-11L))) bad("direct-inverse", "direct does not undo inverse: %.3Lg rad", miss);
         /* back azimuth taken backwards returns */
         if (!anti && cosl(la2) > 1e-6L) { vincenty_direct(la2, lo2, &la3, &lo3, f, az2 + M_PI, d); miss = apart(la3, lo3, la1, lo1); if (!(miss < 1e-10L)) bad("return", "going back misses by %.3Lg", miss); }
         count(anti ? "near-antipodal pairs" : "pairs");
      } else count("coincident pairs");
      /* approximate formulae */
      double dd = earth_dist(la1, lo1, la2, lo2, f), ds = spherical_earth_dist(la1, lo1, la2, lo2);
      if (!(fabsl(ds - sep) < 4e-16L + 1e-15L * (fabs(lo1) + fabs(lo2) + 1))) bad("sphere", "%.17g expected %.17Lg", ds, sep);
      if (!anti) { mxs(4, fabsl(dd - d) / (d + 1e-9)); if (!(fabsl(dd - d) < f * f * 13 + d * f * f * 10 + 1e-12L)) bad("andoyer", "%.12g against %.12g", dd, d); }
      else if (!(fabs(dd - d) < f * 1.8 + 1e-12)) bad("andoyer-antipodal", "%.12g against %.12g", dd, d);
      /* triangle inequality through a third point */
      double la4 = lat_(), lo4 = lon_();
      double t1 = vincenty_earth_dist(la1, lo1, la4, lo4, f, NULL, NULL), t2 = vincenty_earth_dist(la4, lo4, la2, lo2, f, NULL, NULL);
      if (!(d <= t1 + t2 + 8e-9 + slack + 6e-7 * (in_zone(la1, lo1, la4, lo4, f) + in_zone(la4, lo4, la2, lo2, f)))) bad("triangle", "%.12g > %.12g + %.12g via %.9g %.9g", d, t1, t2, la4, lo4);
      /* direct problem on its own, short and long */
      double a = lon_(), s = rng.chance(.3) ? rng.logu(1e-10, 1) : rng.uni(0, 3.1), la5 = 99, lo5 = 99;
      cur("direct %.17g %.17g az %.17g dist %.17g flat 1/%.9g", la1, lo1, a, s, f ? 1 / f : 0.);
      vincenty_direct(la1, lo1, &la5, &lo5, f, a, s);
      End e = direct(la1, a, s, f);
      LD miss = apart(e.lat, lo1 + e.dlon, la5, lo5);
      mxs(3, miss);
      if (!(miss < 6e-11L)) bad("direct", "off by %.3Lg rad", miss);
      if (!(fabs(la5) <= M_PI / 2)) bad("direct-range", "latitude %.17g", la5);
      seen(mix(hdbl(la1), hdbl(lo2)));
   }
   std::string ms; for (int i = 1; i < 8; i++) { char t[60]; snprintf(t, sizeof t, "%s %.2Lg ", mn[i], mx[i]); ms += t; }
   sample("largest deviations: %s", ms.c_str());
   need("pairs", 10000); need("near-antipodal pairs", 500); need("coincident pairs", 500);
   return finish();
}
