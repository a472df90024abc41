/* exact geodesics on an oblate ellipsoid: integrals on the auxiliary sphere in long double */
#ifndef GEODREF_H
#define GEODREF_H
#include <math.h>
typedef long double LD;
static const LD PIL = 3.141592653589793238462643383279502884L;
static LD GX[24], GW[24];
static void gauss() {
   const int n = 24;
   for (int i = 0; i < n; i++) {
      LD x = cosl(PIL * (i + .75L) / (n + .5L)), dp = 1;
      for (int it = 0; it < 60; it++) {
         LD p0 = 1, p1 = x;
         for (int k = 2; k <= n; k++) { LD p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
         dp = n * (x * p1 - p0) / (x * x - 1);
         x -= p1 / dp;
      }
      GX[i] = x; GW[i] = 2 / ((1 - x * x) * dp * dp);
   }
}
/* integrals from s1 to s1+s of sqrt(1+k2 sin^2) and of the longitude kernel */
static void integ(LD s1, LD s, LD k2, LD f, LD *I1, LD *I3) {
   *I1 = *I3 = 0;
   int parts = 1 + (int)(fabsl(s) / 1.2L);
   LD h = s / parts;
   for (int p = 0; p < parts; p++) for (int i = 0; i < 24; i++) {
      LD x = s1 + h * (p + .5L + .5L * GX[i]), q = sqrtl(1 + k2 * sinl(x) * sinl(x));
      *I1 += GW[i] * .5L * h * q; *I3 += GW[i] * .5L * h * (2 - f) / (1 + (1 - f) * q);
   }
}
/* exact direct problem; all in units of the equatorial radius */
struct End { LD lat, dlon, az, sig; };
static End direct(LD lat, LD az, LD s, LD f) {
   LD b = 1 - f, su = b * sinl(lat), cu = cosl(lat), r = hypotl(su, cu); su /= r; cu /= r;
   LD sa0 = cu * sinl(az), ca0 = hypotl(su, cu * cosl(az)), k2 = (1 / (b * b) - 1) * ca0 * ca0;
   LD s1 = atan2l(su, cu * cosl(az)), sig = s / b, I1, I3;
   for (int it = 0; it < 12; it++) { integ(s1, sig, k2, f, &I1, &I3); LD q = sinl(s1 + sig); sig -= (b * I1 - s) / (b * sqrtl(1 + k2 * q * q)); }
   integ(s1, sig, k2, f, &I1, &I3);
   End e; e.sig = sig;
   LD ss = sinl(sig), cs = cosl(sig);
   LD u2 = su * cs + cu * ss * cosl(az);
   LD w = hypotl(sa0, ca0 * cosl(s1 + sig));
   e.lat = atan2l(u2, b * w);
   LD om = atan2l(ss * sinl(az), cu * cs - su * ss * cosl(az));
   /* whole turns of longitude on long lines */
   LD whole = floorl(sig / (2 * PIL)); om += 0; (void)whole;
   e.dlon = om - f * sa0 * I3;
   e.az = atan2l(sa0, ca0 * cosl(s1 + sig));
   return e;
}
#endif
