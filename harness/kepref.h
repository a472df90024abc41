/* Two-body reference in long double, universal variables (uniform in eccentricity). */
#ifndef KEPREF_H
#define KEPREF_H
#include <math.h>
namespace kepref {
typedef long double L;
static inline void stumpff(L psi, L *c1, L *c2, L *c3)
{
   if (fabsl(psi) < 1.5L) {
      L t1 = 1, t2 = .5L, t3 = 1.L / 6; *c1 = t1; *c2 = t2; *c3 = t3;
      for (int k = 1; k < 40; k++) {
         t1 *= -psi / ((2 * k) * (2 * k + 1)); t2 *= -psi / ((2 * k + 1) * (2 * k + 2)); t3 *= -psi / ((2 * k + 2) * (2 * k + 3));
         *c1 += t1; *c2 += t2; *c3 += t3;
         if (fabsl(t1) < 1e-22L) break;
      }
   } else if (psi > 0) { L s = sqrtl(psi), h = sinl(s / 2); *c1 = sinl(s) / s; *c2 = 2 * h * h / psi; *c3 = (1 - *c1) / psi; }
   else { L s = sqrtl(-psi), h = sinhl(s / 2); *c1 = sinhl(s) / s; *c2 = 2 * h * h / -psi; *c3 = (1 - *c1) / psi; }
}
/* perifocal position/velocity at time t after perihelion; returns r */
static inline L perifocal(L q, L e, L mu, L t, L *x, L *y, L *vx, L *vy)
{
   const L al = (1 - e) / q, sm = sqrtl(mu);
   if (e < 1) { L P = 2 * acosl(-1.L) * powl(q / (1 - e), 1.5L) / sm; t -= P * rintl(t / P); }
   const L target = sm * fabsl(t);
   auto F = [&](L chi, L *d) { L a, b, c; stumpff(al * chi * chi, &a, &b, &c); if (d) *d = q + e * chi * chi * b; return q * chi + e * chi * chi * chi * c; };
   L lo = 0, hi = target / q + 1e-300L;
   if (e >= 1) { L h2 = cbrtl(6 * target / e); if (h2 < hi) hi = h2; }
   else { L h3 = 1.05L * acosl(-1.L) / sqrtl(al); if (h3 < hi) hi = h3; }   /* half a revolution */
   if (F(hi, NULL) < target) hi *= 1.0001L;
   L chi = e > 1 && al < 0 ? hi : hi;
   if (al < 0) { L s = sqrtl(-al); L g = asinhl(target * s * s * s / e) / s + 2 / s; if (g < chi && F(g, NULL) > target) hi = chi = g; }
   for (int it = 0; it < 400; it++) {
      L d, f = F(chi, &d) - target;
      if (f > 0) hi = chi; else lo = chi;
      L n = chi - f / d;
      if (!(n > lo && n < hi)) n = (lo + hi) / 2;
      if (fabsl(n - chi) <= 2e-19L * fabsl(n)) { chi = n; break; }
      chi = n;
   }
   if (t < 0) chi = -chi;
   L c1, c2, c3; stumpff(al * chi * chi, &c1, &c2, &c3);
   const L r = q + e * chi * chi * c2;
   *x = q - chi * chi * c2; *y = sqrtl(q * (1 + e)) * chi * c1;
   *vx = -sm * chi * c1 / r; *vy = sqrtl(mu * q * (1 + e)) * (1 - al * chi * chi * c2) / r;
   return r;
}
static inline void axes(L i, L om, L w, L p[3], L s[3])
{
   L cO = cosl(om), sO = sinl(om), cw = cosl(w), sw = sinl(w), ci = cosl(i), si = sinl(i);
   p[0] = cO * cw - sO * sw * ci; p[1] = sO * cw + cO * sw * ci; p[2] = sw * si;
   s[0] = -cO * sw - sO * cw * ci; s[1] = -sO * sw + cO * cw * ci; s[2] = cw * si;
}
}
#endif
