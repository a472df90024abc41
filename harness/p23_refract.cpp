/* P23: refraction and sky brightness against the published models, evaluated independently in long double. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "vislimit.h"
using namespace vh;
typedef long double LD;
static const LD PIL = 3.141592653589793238462643383279502884L, D2R = PIL / 180, AS = D2R / 3600;
static LD mx[12];
static void mxs(int i, LD v) { if (v > mx[i]) mx[i] = v; }
/* Bennett with the correction Meeus gives; degrees in, arcminutes out */
static LD bennett(LD h) { LD r = 1 / tanl((h + 7.31L / (h + 4.4L)) * D2R); return r - .06L * sinl((14.7L * r + 13) * D2R); }
static LD saemundsson(LD h) { return 1.02L / tanl((h + 10.3L / (h + 5.11L)) * D2R); }
static LD saasta(LD h, LD p, LD t, LD rh) {   /* arcsec */
   LD z = (90 - h) * D2R, tz = tanl(z), q = (p - .156L * rh * powl(t / 247.1L, 18.36L)) / t;
   return 16.271L * q * tz * (1 + .0000394L * q * tz * tz) - .0000749L * p * (tz + tz * tz * tz);
}
/* the Explanatory Supplement's model atmosphere (3.281) */
struct Atm {
   LD r0, t0, c2, gam, c6, c7, nt, rt, tt;
   Atm(LD lat, LD wl, LD h, LD rh, LD t, LD p) {
      LD g = 9.784L * (1 - .0026L * cosl(2 * lat) - 2.8e-7L * h), pw = rh / 100 * powl(t / 247.1L, 18.36L);
      LD a = 273.15e-6L / 1013.25L * (287.607L + 1.6288L / (wl * wl) + .0136L / (wl * wl * wl * wl));
      r0 = 6378120 + h; rt = 6378120 + 11000.L; t0 = t; c2 = g * 28.966L / 8314.36L; gam = c2 / .0065L;
      LD c5 = pw * (1 - 18.016L / 28.966L) * gam / (18.36L - gam);
      c6 = a * (p + c5) / t; c7 = (a * c5 + 11.2684e-6L * pw) / t;
      tt = t - .0065L * (rt - r0); LD dn; nt = trop(rt, &dn);
   }
   LD trop(LD r, LD *dn) const { LD f = 1 - .0065L * (r - r0) / t0; *dn = -.0065L / t0 * ((gam - 1) * c6 * powl(f, gam - 2) - 17.36L * c7 * powl(f, 16.36L)); return 1 + c6 * powl(f, gam - 1) - c7 * powl(f, 17.36L); }
   LD strat(LD r, LD *dn) const { LD e = (nt - 1) * expl(-c2 * (r - rt) / tt); *dn = -c2 / tt * e; return 1 + e; }
   LD n(LD r, bool tr, LD *dn) const { return tr ? trop(r, dn) : strat(r, dn); }
   LD integrand(LD z, LD K, bool tr, LD *r) const {   /* K = n0 r0 sin z0 */
      LD dn, nn;
      for (int i = 0; i < 60; i++) { nn = n(*r, tr, &dn); LD ch = (K / sinl(z) - nn * *r) / (nn + *r * dn); *r += ch; if (fabsl(ch) < 1e-9L) break; }
      nn = n(*r, tr, &dn);
      return *r * dn / (nn + *r * dn);
   }
   LD part(LD z1, LD z2, LD r1, LD r2, LD K, bool tr, int N) const {   /* composite Simpson over the zenith angle */
      LD h = (z2 - z1) / N, s = 0, r = r1;
      for (int i = 0; i <= N; i++) { if (i == N) r = r2; s += (i == 0 || i == N ? 1 : i & 1 ? 4 : 2) * integrand(z1 + h * i, K, tr, &r); }
      return s * h / 3;
   }
   LD refr(LD alt, int N) const {
      LD dn, z0 = PIL / 2 - alt, n0 = trop(r0, &dn), K = n0 * r0 * sinl(z0), rs = 6378120 + 80000.L, ns = strat(rs, &dn);
      if (K < 1e-6L) return 0;
      LD zt = asinl(K / (nt * rt)), zs = asinl(K / (ns * rs));
      return part(z0, zt, r0, rt, K, true, N) + part(zt, zs, rt, rs, K, false, N);
   }
};
static double alt_() { switch (rng.below(6)) { case 0: return rng.uni(0, 3); case 1: return 90 - rng.logu(1e-7, 10); case 2: { static const double v[] = {0, 90, 45, 1, 5, 10, 15, 30, 60, 89}; return v[rng.below(10)]; } default: return rng.uni(0, 90); } }
static void low() {
   double h = rng.chance(.1) ? rng.uni(-1.5, 0) : alt_(), a = h * M_PI / 180;
   cur("low-precision refraction at altitude %.17g deg", h);
   LD e = bennett(a / D2R), r = refraction(a) / D2R * 60;
   mxs(0, fabsl(r - e));
   if (!(fabsl(r - e) < 1e-11L * (1 + fabsl(e)))) bad("bennett", "%.15Lg' expected %.15Lg'", r, e);
   if (!(r > -.9L / 60)) bad("downward", "refraction %.6Lg'", r);
   double h2 = h + rng.logu(1e-4, 5), r2 = refraction(h2 * M_PI / 180) / M_PI * 180 * 60;
   if (h2 <= 90 && !(r2 < r)) bad("decreasing", "refraction %.9Lg' here but %.9g' at %.9g deg", r, r2, h2);
   /* removing and putting back */
   LD back = reverse_refraction(a) / D2R * 60;
   if (!(fabsl(refraction(a + (double)(back / 60 * D2R)) / D2R * 60 - back) < .0101L / 60)) bad("round-trip", "reverse %.12Lg', refraction there %.12g'", back, refraction(a + (double)(back / 60 * D2R)) / M_PI * 180 * 60);
   double t = a - refraction(a); LD again = t + reverse_refraction(t);
   mxs(1, fabsl(again - a) / AS);
   if (h > -1 && !(fabsl(again - a) < .0125L * AS)) bad("round-trip", "observed altitude %.12g comes back as %.12Lg", a, again);
   count("low-precision refractions"); seen(hdbl(h));
}
static void saas() {
   double h = rng.chance(.5) ? rng.uni(10, 90) : 90 - rng.logu(1e-5, 78), p = rng.chance(.1) ? 0 : rng.uni(400, 1080), t = rng.uni(220, 320), rh = rng.chance(.2) ? 0 : rng.chance(.1) ? 1 : rng.uni(), a = h * M_PI / 180;
   cur("Saastamoinen at altitude %.17g P %.17g T %.17g humidity %.17g", h, p, t, rh);
   LD e = saasta(a / D2R, p, t, rh), r = saasta_refraction(a, p, t, rh) / AS;
   mxs(2, fabsl(r - e) / (1 + fabsl(e)));
   if (!(fabsl(r - e) < 3e-12L * (1 + fabsl(e)) * (1 + 1 / tanl(a)))) bad("saasta", "%.15Lg'' expected %.15Lg''", r, e);
   LD dry = saasta_refraction(a, p, t, 0) / AS;
   if (p > 0 && h > 12 && h < 89.99) {
      if (!(r > 0)) bad("downward", "refraction %.6Lg''", r);
      if (!(r <= dry)) bad("saasta-humidity", "%.12Lg'' moist, %.12Lg'' dry", r, dry);
      LD r2 = saasta_refraction(a, p, t + 10, rh * 0) / AS; if (!(r2 < dry)) bad("saasta-temperature", "%.12Lg'' at %g K, %.12Lg'' ten degrees warmer", dry, t, r2);
      LD k = saasta_refraction(a, p * 1.25, t, 0) / AS; if (!(fabsl(k / dry - 1.25L) < 5e-3L)) bad("saasta-pressure", "%.9Lg'' becomes %.9Lg'' at 1.25 times the pressure", dry, k);
   }
   /* inverse: from the true altitude */
   LD rev = reverse_saasta_refraction(a, p, t, rh) / AS, there = saasta_refraction((double)(a + rev * AS), p, t, rh) / AS;
   LD slope = fabsl(saasta(h + rev / 3600 + .05L, p, t, rh) - saasta(h + rev / 3600 - .05L, p, t, rh)) / 360, guess = saemundsson(h) * 60;
   mxs(3, fabsl(rev - there));
   if (h + rev / 3600 < 90 && !(fabsl(rev - there) <= 1.2L * slope * fabsl(guess - rev) + 1e-8L)) bad("saasta-inverse", "reverse %.9Lg'' but %.9Lg'' from the altitude it gives", rev, there);
   count("Saastamoinen refractions"); seen(mix(hdbl(h), hdbl(p)));
}
static long n_integ, n_rough; static LD sum_rel;
static void integ() {
   double h = alt_(), a = h * M_PI / 180, lat = rng.uni(-M_PI / 2, M_PI / 2), wl = rng.chance(.5) ? .574 : rng.uni(.3, 2), ht = rng.chance(.3) ? 0. : rng.uni(-400, 8000);
   double t = rng.uni(240, 315), p = rng.chance(.05) ? 0. : 1013.25 * exp(-ht / 8000.) * rng.uni(.9, 1.08), rh = rng.chance(.25) ? 0. : rng.chance(.1) ? 100. : rng.uni(0, 100);
   if (h == 90) a = M_PI / 2;
   if (p == 0.) rh = 0.;
   cur("integrated refraction alt %.17g lat %.17g wavelength %.17g height %.17g humidity %.17g T %.17g P %.17g", h, lat, wl, ht, rh, t, p);
   Atm m(lat, wl, ht, rh, t, p);
   LD r = integrated_refraction(lat, a, wl, ht, rh, t, p) / AS, e = m.refr(a, h < 3 ? 2400 : 500) / AS;
   LD rel = fabsl(r - e) / (fabsl(e) + 1e-3L);
   if (getenv("DBG") && rel > mx[4]) printf("%s: %.9Lg expected %.9Lg\n", curbuf, r, e);
   mxs(4, rel); mxs(5, fabsl(r - e)); if (e > 1) { n_integ++; sum_rel += (r - e) / e; if (fabsl(r - e) > .005L + 2e-4L * e) n_rough++; }
   if (!(fabsl(r - e) < .005L + 5e-3L * e)) bad("integrated", "%.9Lg'' expected %.9Lg''", r, e);
   if (!(r >= -1e-9L)) bad("downward", "refraction %.6Lg''", r);
   LD r2 = integrated_refraction(lat, a, wl, ht, rh, t, p * 1.05) / AS;
   if (p > 0 && h < 89.9) { LD e2 = Atm(lat, wl, ht, rh, t, p * 1.05).refr(a, h < 3 ? 2400 : 500) / AS; if (!(fabsl(r2 - r - (e2 - e)) < .01L + 5e-3L * e)) bad("pressure", "five percent more pressure adds %.6Lg'', expected %.6Lg''", r2 - r, e2 - e); }
   double hh = h + rng.uni(.05, 4);
   if (hh < 90 && p > 0) { LD rr = integrated_refraction(lat, hh * M_PI / 180, wl, ht, rh, t, p) / AS; if (!(rr < r)) bad("decreasing", "%.9Lg'' here, %.9Lg'' at %.6g deg", r, rr, hh); }
   /* inverse: given the true altitude of something that is seen above the horizon */
   LD ta = a - r * AS;
   LD rev = reverse_integrated_refraction(lat, (double)ta, wl, ht, rh, t, p) / AS;
   mxs(6, fabsl(ta + rev * AS - a) / AS);
   if (!(fabsl(ta + rev * AS - a) < (.11L + 1e-4L * e) * AS)) bad("integrated-inverse", "removing %.9Lg'' and putting back %.9Lg''", r, rev);
   count(h < 5 ? "integrated refractions, low" : "integrated refractions"); seen(mix(hdbl(h), hdbl(t)));
   /* the simple formula claims 0.9'' in standard air */
   if (h > 8) { LD st = integrated_refraction(M_PI / 4, a, .574, 0., 0., 283., 1010.) / AS, b = refraction(a) / AS; mxs(7, fabsl(st - b)); if (!(fabsl(st - b) < 2.6L)) bad("agree", "Bennett %.6Lg'', integrated %.6Lg'' in standard air", b, st); }
}
/* Schaefer's model */
static LD p10(LD m) { return powl(10, -.4L * m); }
static LD mass(LD z) { LD c = cosl(z); return c > 0 ? 1 / (c + .025L * expl(-11 * c)) : 40; }
static void sky() {
   BRIGHTNESS_DATA b; memset(&b, 0xa5, sizeof b);
   b.zenith_ang_moon = rng.uni(0, M_PI); b.zenith_ang_sun = rng.uni(0, M_PI);
   if (rng.chance(.2)) b.zenith_ang_moon = M_PI / 2 + rng.normal() * .02;
   if (rng.chance(.2)) b.zenith_ang_sun = M_PI / 2 + rng.normal() * .05;
   b.moon_elongation = rng.chance(.1) ? rng.range(-4, 4) * M_PI / 2 : rng.chance(.2) ? rng.uni(-20, 20) : rng.uni(0, M_PI);
   b.ht_above_sea_in_meters = rng.uni(-100, 6000); b.latitude = rng.uni(-M_PI / 2, M_PI / 2); b.temperature_in_c = rng.uni(-40, 45);
   b.relative_humidity = rng.chance(.1) ? 0 : rng.chance(.1) ? 100 : rng.uni(0, 100); b.year = rng.chance(.2) ? rng.uni(-4000, 8000) : rng.uni(1950, 2060); b.month = rng.chance(.5) ? rng.range(1, 12) : rng.uni(.5, 13);
   b.zenith_angle = rng.chance(.1) ? 0 : rng.chance(.1) ? M_PI / 2 - rng.logu(1e-6, .1) : rng.uni(0, M_PI / 2);
   b.dist_moon = rng.logu(.001, M_PI); b.dist_sun = rng.logu(.001, M_PI); b.mask = 31;
   cur("sky: zenith %.9g, moon zenith angle %.9g elongation %.9g distance %.9g, sun %.9g distance %.9g, height %.9g latitude %.9g T %.9g humidity %.9g year %.9g month %.9g", b.zenith_angle, b.zenith_ang_moon, b.moon_elongation, b.dist_moon, b.zenith_ang_sun, b.dist_sun, b.ht_above_sea_in_meters, b.latitude, b.temperature_in_c, b.relative_humidity, b.year, b.month);
   BRIGHTNESS_DATA in = b;
   set_brightness_params(&b); compute_sky_brightness(&b); compute_extinction(&b);
   double lim = compute_limiting_mag(&b);
   if (memcmp(&in, &b, offsetof(BRIGHTNESS_DATA, air_mass_sun))) bad("inputs", "the inputs were altered");
   static const LD wl[5] = {.365L, .44L, .55L, .7L, .9L}, bo[5] = {8e-14L, 7e-14L, 1e-13L, 1e-13L, 3e-13L}, cm[5] = {1.36L, .91L, 0, -.76L, -1.17L}, ms[5] = {-25.96L, -26.09L, -26.74L, -27.26L, -27.55L}, mo[5] = {-10.93L, -10.45L, -11.05L, -11.90L, -12.70L}, oz[5] = {0, 0, .031L, .008L, 0}, wt[5] = {.074L, .045L, .031L, .02L, .015L};
   LD ma = (b.month - 3) * PIL / 6, hgt = b.ht_above_sea_in_meters, rh = b.relative_humidity, z = b.zenith_angle;
   LD hum = rh <= 0 ? 1 : rh >= 100 ? 1e6L : 1 - .32L / logl(rh / 100);
   LD xg = 1 / (cosl(z) + .0286L * expl(-10.5L * cosl(z))), xa = 1 / (cosl(z) + .0123L * expl(-24.5L * cosl(z))), xo = 1 / sqrtl(1 - powl(sinl(z) / (1 + 20.L / 6378), 2));
   LD el = fabsl(remainderl(PIL - b.moon_elongation, 2 * PIL)) / D2R, mm = -12.73L + .026L * el + 4e-9L * el * el * el * el;
   auto f = [](LD d) { LD g = d / D2R; return 6.2e7L / (g * g) + powl(10, 6.15L - g / 40) + powl(10, 5.36L) * (1.06L + cosl(d) * cosl(d)); };
   LD x = mass(z), bl = 0, dm2 = 0;
   if (!(fabsl(b.air_mass_moon - mass(b.zenith_ang_moon)) < 1e-12L * b.air_mass_moon) || !(fabsl(b.air_mass_sun - mass(b.zenith_ang_sun)) < 1e-12L * b.air_mass_sun) || !(fabsl(b.air_mass - x) < 1e-12L * x)) bad("air-mass", "moon %.12g sun %.12g here %.12g", b.air_mass_moon, b.air_mass_sun, b.air_mass);
   if (!(fabsl(b.air_mass_gas - xg) < 1e-12L * xg) || !(fabsl(b.air_mass_aerosol - xa) < 1e-12L * xa) || !(fabsl(b.air_mass_ozone - xo) < 1e-12L * xo)) bad("air-mass", "gas %.12g aerosol %.12g ozone %.12g", b.air_mass_gas, b.air_mass_aerosol, b.air_mass_ozone);
   if (!(fabsl(b.lunar_mag - mm) < 1e-9L)) bad("moon-magnitude", "%.12g expected %.12Lg", b.lunar_mag, mm);
   for (int i = 0; i < 5; i++) {
      LD kr = .1066L * expl(-hgt / 8200) * powl(wl[i] / .55L, -4), ka = .1L * powl(wl[i] / .55L, -1.3L) * expl(-hgt / 1500) * powl(hum, 1.33L) * (1 + sinl(ma) * sinl(b.latitude));
      LD ko = oz[i] * (3 + .4L * (b.latitude * cosl(ma) - cosl(3 * b.latitude))) / 3, kw = wt[i] * .94L * rh / 100 * expl(b.temperature_in_c / 15.L) * expl(-hgt / 8200);
      LD k = kr + ka + ko + kw, ext = (kr + kw) * xg + ka * xa + ko * xo;
      if (!(fabsl(b.k[i] - k) < 3e-6L * fabsl(k) + 1e-12L)) bad("extinction-coefficient", "band %d: %.12g expected %.12Lg", i, b.k[i], k);
      if (!(fabsl(b.extinction[i] - ext) < 3e-6L * fabsl(ext) + 1e-11L)) bad("extinction", "band %d: %.12g expected %.12Lg", i, b.extinction[i], ext);
      k = b.k[i];    /* coefficients are rounded in the code: go on with its own */
      LD dl = p10(k * x), c3 = p10(k * mass(b.zenith_ang_moon)), c4 = p10(k * mass(b.zenith_ang_sun));
      LD bn = bo[i] * (1 + .3L * cosl(2 * PIL * (b.year - 1992) / 11)) * (.4L + .6L / sqrtl(1 - .96L * sinl(z) * sinl(z))) * dl;
      LD bm = p10(mm + cm[i] - mo[i] + 43.27L) * (1 - dl) * (f(b.dist_moon) * c3 + 440000 * (1 - c3));
      LD lower = PIL / 2 - b.zenith_ang_moon; if (lower < 0) bm *= expl(100 * lower);
      LD bt = p10(ms[i] - mo[i] + 32.5L - (90 - b.zenith_ang_sun / D2R) - z / (2 * PIL * k)) * (100 / (b.dist_sun / D2R)) * (1 - p10(k));
      LD bd = p10(ms[i] - mo[i] + 43.27L) * (1 - dl) * (f(b.dist_sun) * c4 + 440000 * (1 - c4));
      LD e = bn + bm + fminl(bd, bt);
      if (!isfinite(b.brightness[i]) || !(b.brightness[i] > 0)) { if (isfinite((double)e) && e > 0) bad("finite", "brightness %g in band %d", b.brightness[i], i); }
      else { LD rel = fabsl(b.brightness[i] / e - 1); mxs(8, rel); if (!(rel < 4e-6L)) bad("brightness", "band %d: %.12g expected %.12Lg (night %.4Lg moon %.4Lg twilight %.4Lg day %.4Lg)", i, b.brightness[i], e, bn, bm, bt, bd); }
      if (i == 2) { bl = b.brightness[2]; dm2 = b.extinction[2]; }
   }
   bl /= 1.11e-15L;
   LD c1 = bl > 1500 ? powl(10, -8.35L) : powl(10, -9.8L), c2 = bl > 1500 ? powl(10, -5.9L) : powl(10, -1.9L), th = c1 * powl(1 + sqrtl(c2 * bl), 2);
   LD el2 = -16.57L - 2.5L * log10l(th) - dm2;
   if (fabsl(bl - 1500) > .01L && isfinite(b.brightness[2]) && !(fabsl(lim - el2) < 1e-4L)) bad("limiting", "limiting magnitude %.9g expected %.9Lg", lim, el2);
   /* a subset of bands: same values, others left alone, whatever was there before */
   BRIGHTNESS_DATA s = in; s.mask = (int)rng.below(32);
   set_brightness_params(&s); for (int i = 0; i < 5; i++) s.brightness[i] = s.extinction[i] = -7. - i;
   compute_extinction(&s); compute_sky_brightness(&s);
   for (int i = 0; i < 5; i++) { bool on = (s.mask >> i) & 1;
      if (memcmp(&s.brightness[i], on ? &b.brightness[i] : &s.brightness[i], 8) || (!on && s.brightness[i] != -7. - i)) bad("subset", "mask %d band %d: %.17g, %.17g with all bands", s.mask, i, s.brightness[i], b.brightness[i]);
      if (memcmp(&s.extinction[i], on ? &b.extinction[i] : &s.extinction[i], 8) || (!on && s.extinction[i] != -7. - i)) bad("subset", "mask %d band %d: extinction %.17g, %.17g with all bands", s.mask, i, s.extinction[i], b.extinction[i]); }
   count("sky geometries"); seen(mix(hdbl(b.zenith_angle), hdbl(b.dist_sun)));
}
int main(int argc, char **argv) {
   init(argc, argv);
   long n = budget(200000, 4000000); for (long i = 0; i < n; i++) low();
   n = budget(200000, 4000000); for (long i = 0; i < n; i++) saas();
   n = budget(8000, 100000); for (long i = 0; i < n; i++) integ();
   /* the code's integration steps are coarse: single values may be off by a few parts in a thousand near the horizon, the run of them may not */
   cur("integrated refraction, all of this run");
   if (n_integ > 100 && n_rough * 100 > n_integ * 3) bad("integrated-typical", "%ld of %ld off by more than two parts in ten thousand", n_rough, n_integ);
   if (n_integ > 100 && fabsl(sum_rel / n_integ) > 5e-5L) bad("integrated-typical", "off by %.3Lg on average", sum_rel / n_integ);
   if (getenv("DBG")) printf("rough %ld of %ld mean %.3Lg\n", n_rough, n_integ, sum_rel / n_integ);
   n = budget(100000, 2000000); for (long i = 0; i < n; i++) sky();
   if (getenv("DBG")) for (int i = 0; i < 9; i++) printf("mx%d %.4Lg\n", i, mx[i]);
   need("low-precision refractions", 1000); need("Saastamoinen refractions", 1000); need("integrated refractions", 500); need("integrated refractions, low", 100); need("sky geometries", 1000);
   return finish();
}
