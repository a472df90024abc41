/* P20: spherical coordinate transforms against directions computed in long double. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
using namespace vh;
typedef long double LD;
static const LD PIL = 3.141592653589793238462643383279502884L, DEG = PIL / 180;
struct V { LD x[3]; };
static V dir(LD lon, LD lat) { return V{{cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)}}; }
static LD dot(const V &a, const V &b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static V cross(const V &a, const V &b) { return V{{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}}; }
static LD len(const V &a) { return sqrtl(dot(a, a)); }
static LD far(const V &a, const V &b) { V d; for (int i = 0; i < 3; i++) d.x[i] = a.x[i] - b.x[i]; LD r = len(d); return r == r ? r : 9; }
static V app(const LD *m, const V &v, bool back) { V r; for (int i = 0; i < 3; i++) { r.x[i] = 0; for (int k = 0; k < 3; k++) r.x[i] += (back ? m[k * 3 + i] : m[i * 3 + k]) * v.x[k]; } return r; }
static V norm(V a) { LD l = len(a); for (LD &q : a.x) q /= l; return a; }
static LD GAL[9], SGAL[9];
static void setup() {
   /* galactic: pole RA 192.85948, dec 27.12825, longitude of the celestial pole 122.93192 */
   V pole = dir(192.85948L * DEG, 27.12825L * DEG), ncp = dir(0, PIL / 2);
   LD l = 122.93192L * DEG;
   /* unit vector toward l=122.93192,b=0 is the projection of the celestial pole */
   V p; for (int i = 0; i < 3; i++) p.x[i] = ncp.x[i] - dot(ncp, pole) * pole.x[i];
   p = norm(p); V q = cross(pole, p);
   for (int i = 0; i < 3; i++) { GAL[i] = cosl(l) * p.x[i] - sinl(l) * q.x[i]; GAL[3 + i] = sinl(l) * p.x[i] + cosl(l) * q.x[i]; GAL[6 + i] = pole.x[i]; }
   /* supergalactic: pole at galactic 47.37, +6.32; zero point 137.37, 0 */
   V sp = dir(47.37L * DEG, 6.32L * DEG), sz = dir(137.37L * DEG, 0), sy = cross(sp, sz);
   sp = app(GAL, sp, true); sz = app(GAL, sz, true); sy = app(GAL, sy, true);
   for (int i = 0; i < 3; i++) { SGAL[i] = sz.x[i]; SGAL[3 + i] = sy.x[i]; SGAL[6 + i] = sp.x[i]; }
}
static double lat_() {
   switch (rng.below(8)) { case 0: return M_PI / 2 * (rng.chance(.5) ? 1 : -1); case 1: return 0.; case 2: return (M_PI / 2 - rng.logu(1e-12, .1)) * (rng.chance(.5) ? 1 : -1); case 3: return rng.normal() * 1e-6; default: return asin(rng.uni(-1, 1)); }
}
static double lon_() {
   switch (rng.below(6)) { case 0: return rng.range(-8, 8) * M_PI / 2; case 1: return rng.range(-2, 2) * M_PI + rng.normal() * 1e-9; case 2: return rng.uni(-20, 20); default: return rng.uni(0, 2 * M_PI); }
}
static void systems(long n) {
   const double *gm = j2000_to_galactic_matrix(), *sm = j2000_to_supergalactic_matrix();
   for (int i = 0; i < 9; i++) {
      if (!(fabsl(gm[i] - GAL[i]) < 2e-9L)) bad("galactic-matrix", "element %d %.12g expected %.12Lg", i, gm[i], GAL[i]);
      if (!(fabsl(sm[i] - SGAL[i]) < 1.2e-8L)) bad("supergalactic-matrix", "element %d %.12g expected %.12Lg", i, sm[i], SGAL[i]);
   }
   for (long c = 0; c < n; c++) {
      double ra = lon_(), dec = lat_(), a, b, r2, d2;
      cur("systems %.17g %.17g", ra, dec);
      V v = dir(ra, dec);
      for (int s = 0; s < 2; s++) {
         /* the matrices are given to 8 and 10 digits; latitudes come from an arcsine */
         LD del = s ? 5e-8L : 1e-9L; auto tol = [&](double lat) { return 3 * del + del / fmaxl(fabsl(cosl(lat)), sqrtl(del)) + 5e-8L; };
         a = b = r2 = d2 = 99;
         s ? ra_dec_to_supergalactic(ra, dec, &a, &b) : ra_dec_to_galactic(ra, dec, &a, &b);
         if (!(far(dir(b, a), app(s ? SGAL : GAL, v, false)) < tol(a))) bad(s ? "supergalactic" : "galactic", "RA %.9g dec %.9g -> lon %.9g lat %.9g", ra, dec, b, a);
         s ? supergalactic_to_ra_dec(a, b, &r2, &d2) : galactic_to_ra_dec(a, b, &r2, &d2);
         if (!(far(dir(r2, d2), v) < tol(dec) + tol(a))) bad(s ? "supergalactic-back" : "galactic-back", "RA %.9g dec %.9g came back %.9g %.9g", ra, dec, r2, d2);
         s ? supergalactic_to_ra_dec(dec, ra, &r2, &d2) : galactic_to_ra_dec(dec, ra, &r2, &d2);
         if (!(far(dir(r2, d2), app(s ? SGAL : GAL, v, true)) < tol(d2))) bad(s ? "supergalactic-from" : "galactic-from", "lon %.9g lat %.9g -> %.9g %.9g", ra, dec, r2, d2);
         if (!(fabs(a) <= M_PI / 2 && fabs(d2) <= M_PI / 2)) bad("lat-range", "latitude beyond a pole");
      }
      /* ecliptic <-> equatorial rectangular */
      double sc = rng.logu(1e-5, 1e5), x[3], y[3], z[3];
      for (int i = 0; i < 3; i++) x[i] = y[i] = (double)(v.x[i] * sc);
      equatorial_to_ecliptic(y);
      LD ob = 84381.448L / 3600 * DEG;
      V e{{x[0], x[1] * cosl(ob) + x[2] * sinl(ob), x[2] * cosl(ob) - x[1] * sinl(ob)}};
      for (int i = 0; i < 3; i++) if (!(fabsl(y[i] - e.x[i]) < 3e-15L * sc)) bad("ecliptic", "component %d: %.17g expected %.17Lg", i, y[i], e.x[i]);
      memcpy(z, y, sizeof z); ecliptic_to_equatorial(z);
      for (int i = 0; i < 3; i++) if (!(fabs(z[i] - x[i]) < 1e-15 * sc)) bad("ecliptic-back", "component %d: %.17g came back %.17g", i, x[i], z[i]);
      count("directions"); seen(mix(hdbl(ra), hdbl(dec)));
   }
}
static void vec(long n) {
   for (long c = 0; c < n; c++) {
      double lon = lon_(), lat = lat_(), v[3] = {7, 7, 7}, w[3], u[3], x[3];
      cur("vector %.17g %.17g", lon, lat);
      polar3_to_cartesian(v, lon, lat); V e = dir(lon, lat);
      for (int i = 0; i < 3; i++) if (!(fabsl(v[i] - e.x[i]) < 3e-16L)) bad("polar3", "component %d %.17g expected %.17Lg", i, v[i], e.x[i]);
      double s = rng.logu(1e-8, 1e8); for (int i = 0; i < 3; i++) { w[i] = rng.normal() * s; if (rng.chance(.1)) w[i] = 0; u[i] = rng.normal(); }
      V wl{{w[0], w[1], w[2]}}, ul{{u[0], u[1], u[2]}};
      LD L = len(wl);
      if (!(fabsl(vector3_length(w) - L) <= 4e-16L * L)) bad("length", "%.17g expected %.17Lg", vector3_length(w), L);
      if (!(fabsl(dot_product(w, u) - dot(wl, ul)) <= 6e-16L * L * len(ul))) bad("dot", "%.17g expected %.17Lg", dot_product(w, u), dot(wl, ul));
      vector_cross_product(x, w, u); V cx = cross(wl, ul);
      for (int i = 0; i < 3; i++) if (!(fabsl(x[i] - cx.x[i]) <= 4e-16L * L * len(ul))) bad("cross", "component %d %.17g expected %.17Lg", i, x[i], cx.x[i]);
      double t[3] = {w[0], w[1], w[2]}; double r = normalize_vect3(t);
      if (!(fabsl(r - L) <= 4e-16L * L)) bad("normalize", "length %.17g expected %.17Lg", r, L);
      for (int i = 0; i < 3; i++) if (L > 0 ? !(fabsl(t[i] - wl.x[i] / L) < 5e-16L) : t[i] != 0.) bad("normalize", "component %d %.17g", i, t[i]);
      /* rotate about an axis */
      double ang = rng.chance(.1) ? rng.range(-4, 4) * M_PI / 2 : rng.uni(-10, 10); int ax = (int)rng.below(3);
      memcpy(t, w, sizeof t); rotate_vector(t, ang, ax);
      int a = (ax + 1) % 3, b = (ax + 2) % 3; LD q[3]; q[ax] = w[ax]; q[a] = w[a] * cosl(ang) - w[b] * sinl(ang); q[b] = w[b] * cosl(ang) + w[a] * sinl(ang);
      for (int i = 0; i < 3; i++) if (!(fabsl(t[i] - q[i]) <= 5e-16L * L)) bad("rotate", "axis %d angle %.9g component %d: %.17g expected %.17Lg", ax, ang, i, t[i], q[i]);
      if (t[ax] != w[ax]) bad("rotate-axis", "component along the axis changed");
      /* matrices */
      double m[9], m0[9]; set_identity_matrix(m);
      for (int i = 0; i < 9; i++) if (m[i] != (i % 4 == 0)) bad("identity", "element %d is %g", i, m[i]);
      V row[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
      for (int k = 0; k < 6; k++) {
         int i = (int)rng.below(3), j = (i + 1 + (int)rng.below(2)) % 3; double g = rng.uni(-7, 7); LD cg = cosl(g), sg = sinl(g);
         if (rng.chance(.5)) { spin_matrix(m + 3 * i, m + 3 * j, g); for (int z = 0; z < 3; z++) { LD p = row[i].x[z], r2 = row[j].x[z]; row[i].x[z] = p * cg - r2 * sg; row[j].x[z] = r2 * cg + p * sg; } }
         else { pre_spin_matrix(m + i, m + j, g); for (int z = 0; z < 3; z++) { LD p = row[z].x[i], r2 = row[z].x[j]; row[z].x[i] = p * cg - r2 * sg; row[z].x[j] = r2 * cg + p * sg; } }
      }
      for (int i = 0; i < 9; i++) if (!(fabsl(m[i] - row[i / 3].x[i % 3]) < 4e-15L)) bad("spin", "element %d: %.17g expected %.17Lg", i, m[i], row[i / 3].x[i % 3]);
      memcpy(m0, m, sizeof m); invert_orthonormal_matrix(m);
      for (int i = 0; i < 9; i++) if (m[i] != m0[(i % 3) * 3 + i / 3]) bad("invert", "inverse is not the transpose");
      /* clamped inverse functions */
      double p = rng.chance(.5) ? rng.uni(-1, 1) : rng.chance(.5) ? rng.uni(-1.5, 1.5) : (rng.chance(.5) ? 1 : -1) * (1 + rng.range(-3, 3) * 1.2e-16);
      LD pc = fminl(1, fmaxl(-1, p));
      if (!(fabsl(acose(p) - acosl(pc)) < 5e-16L)) bad("acose", "acose( %.17g) = %.17g", p, acose(p));
      if (!(fabsl(asine(p) - asinl(pc)) < 3e-16L)) bad("asine", "asine( %.17g) = %.17g", p, asine(p));
      count("vectors");
   }
}
static void horizon(long n) {
   for (long c = 0; c < n; c++) {
      double jd = rng.chance(.8) ? rng.uni(2415020, 2488069) : rng.uni(2e6, 3e6);
      DPT ll, rd, aa, le, back; ll.x = lon_(); ll.y = lat_();
      if (rng.chance(.1)) { ll.y = acos(rng.uni(.5e-5, 2e-5)) * (rng.chance(.5) ? 1 : -1); }
      rd.x = lon_(); rd.y = lat_();
      double ha = 99;
      cur("horizon lat %.17g lon %.17g ra %.17g dec %.17g jd %.17g", ll.y, ll.x, -rd.x, rd.y, jd);
      aa.x = aa.y = 99;
      full_ra_dec_to_alt_az(&rd, &aa, &le, &ll, jd, &ha);
      /* of date */
      DPT pe; precess_pt(&pe, &rd, 2000., 2000. + (jd - 2451545.) / 365.25);
      V date = dir(-le.x, le.y);
      if (!(far(dir(-pe.x, pe.y), date) < 1e-7L)) bad("horizon-epoch", "mean place of date %.9g %.9g expected %.9g %.9g", le.x, le.y, pe.x, pe.y);
      double dl; nutation((jd - 2451545.) / 36525., &dl, NULL);
      LD lst = (LD)green_sidereal_time(jd) + ll.x + dl * 0.917482062069181825744L * DEG / 3600;
      LD H = lst + le.x;      /* hour angle = LST - RA; le.x = -RA */
      LD d = remainderl(H + ha, 2 * PIL);
      if (!(fabsl(d) < 1e-11L + fabsl(lst) * 3e-16L)) bad("hour-angle", "hour angle %.12g expected %.12Lg", -ha, remainderl(H, 2 * PIL));
      if (!(fabs(ha) <= M_PI + 1e-12)) bad("hour-angle-range", "hour angle %.17g", ha);
      /* direction: x south, y west, z up */
      H = -(LD)ha; LD la = ll.y;
      V hd{{sinl(la) * cosl(H) * cosl(le.y) - cosl(la) * sinl(le.y), sinl(H) * cosl(le.y), cosl(la) * cosl(H) * cosl(le.y) + sinl(la) * sinl(le.y)}};
      V got = dir(aa.x, aa.y);
      LD cl = fmaxl(fabsl(cosl(la)), 1e-5L), tol = 5e-8L + 6e-8L / sqrtl(cl) + (fabsl(cosl(la)) < 1e-5L ? 2.5e-5L : 0);
      if (!(fabsl(sinl(aa.y) - hd.x[2]) < 3e-15L)) bad("altitude", "altitude %.12g expected sine %.15Lg", aa.y, hd.x[2]);
      if (!(far(got, hd) < tol)) bad("azimuth", "lat %.9g HA %.9Lg dec %.9g: az %.9g alt %.9g off by %.3Lg", ll.y, H, le.y, aa.x, aa.y, far(got, hd));
      if (!(fabs(aa.y) <= M_PI / 2)) bad("altitude", "altitude %.17g", aa.y);
      /* optional outputs and an already precessed place */
      DPT a2, l2 = le; a2.x = a2.y = 99; double h2 = 99;
      full_ra_dec_to_alt_az(&rd, &a2, NULL, &ll, jd, NULL);
      if (a2.x != aa.x || a2.y != aa.y) bad("horizon-null", "leaving out outputs changes the answer");
      full_ra_dec_to_alt_az(NULL, &a2, &l2, &ll, jd, &h2);
      if (a2.x != aa.x || a2.y != aa.y || h2 != ha || l2.x != le.x || l2.y != le.y) bad("horizon-epoch-in", "a place of date gives another answer");
      /* and back: azimuth of the reverse function counts from north through east */
      DPT az = aa; az.x += rng.chance(.5) ? M_PI : -M_PI;
      full_alt_az_to_ra_dec(&back, &az, jd, &ll);
      if (!(far(dir(-back.x, back.y), dir(-rd.x, rd.y)) < tol * 2 + 2e-7L)) bad("horizon-back", "lat %.9g lon %.9g RA %.9g dec %.9g jd %.5f came back %.9g %.9g", ll.y, ll.x, -rd.x, rd.y, jd, -back.x, back.y);
      /* a chosen altitude and azimuth, including beyond the zenith */
      DPT q; q.x = lon_(); q.y = lat_(); if (rng.chance(.2)) q.y *= rng.uni(1, 1.9);
      cur("from horizon lat %.17g lon %.17g az %.17g alt %.17g jd %.17g", ll.y, ll.x, q.x, q.y, jd);
      full_alt_az_to_ra_dec(&back, &q, jd, &ll);
      full_ra_dec_to_alt_az(&back, &aa, NULL, &ll, jd, NULL);
      if (!(far(dir(aa.x + PIL, aa.y), dir(q.x, q.y)) < tol * 2 + 2e-7L + 4e-8L / sqrtl(cl))) bad("horizon-forth", "lat %.9g az %.9g alt %.9g came back %.9g %.9g", ll.y, q.x, q.y, aa.x + M_PI, aa.y);
      count("horizon places"); if (cl < 2e-5L) count("polar sites"); seen(mix(hdbl(rd.x), hdbl(jd)));
   }
}
static void separations(long n) {
   for (long c = 0; c < n; c++) {
      double a[2] = {lon_(), lat_()}, b[2] = {lon_(), lat_()};
      int k = (int)rng.below(6);
      if (k == 0) { b[0] = a[0]; b[1] = a[1]; }
      if (k == 1) { double s = rng.logu(1e-15, 1e-2); b[0] = a[0] + s * rng.normal(); b[1] = a[1] + s * rng.normal(); }
      if (k == 2) { double s = rng.chance(.3) ? 0 : rng.logu(1e-15, 1e-2); b[0] = a[0] + M_PI + s * rng.normal(); b[1] = -a[1] + s * rng.normal(); }
      if (k == 3) b[0] = a[0];
      double d = 99, pa = 99, d2 = 99, pa2 = 99, d3 = 99;
      cur("separation %.17g %.17g %.17g %.17g", a[0], a[1], b[0], b[1]);
      int rv = calc_dist_and_posn_ang(a, b, &d, &pa);
      calc_dist_and_posn_ang(b, a, &d2, &pa2); int rv3 = calc_dist_and_posn_ang(a, b, &d3, NULL);
      V A = dir(a[0], a[1]), B = dir(b[0], b[1]);
      LD ref = atan2l(len(cross(A, B)), dot(A, B));
      LD tol = 6e-16L + 3e-16L * (fabs(a[0]) + fabs(b[0]));
      if (!(fabsl(d - ref) < tol)) bad("separation", "%.17g expected %.17Lg", d, ref);
      if (!(fabs(d - d2) < tol)) bad("separation-symmetric", "%.17g one way, %.17g the other", d, d2);
      if (d3 != d) bad("separation-null", "separation depends on whether the angle is wanted");
      if (rv3 && rv3 != rv) bad("separation-null", "return value %d", rv3);
      if (!(d >= 0 && d <= M_PI)) bad("separation-range", "%.17g", d);
      /* tangent frame at a: north, and the direction of decreasing longitude (as right ascension is drawn) */
      V N{{-sinl(a[1]) * cosl(a[0]), -sinl(a[1]) * sinl(a[0]), cosl(a[1])}}, W{{sinl(a[0]), -cosl(a[0]), 0}};
      LD x = dot(B, W), y = dot(B, N);
      if (rv == -1) { if (!(ref < tol + 1e-15L || PIL - ref < tol + 1e-15L) || pa != 0.) bad("angle-undefined", "angle reported undefined at separation %.6Lg", ref); count("undefined angles"); }
      else {
         LD sref = sqrtl(x * x + y * y);
         LD e = remainderl(pa - atan2l(x, y), 2 * PIL);
         if (!(fabsl(e) * sref < tol * 2)) bad("angle", "position angle %.15g expected %.15Lg at separation %.6Lg", pa, atan2l(x, y), ref);
         if (!(pa >= 0 && pa <= 2 * M_PI)) bad("angle-range", "position angle %.17g", pa);
         /* travelling there arrives */
         double to[2] = {99, 99}; reverse_dist_and_posn_ang(to, a, d, pa);
         if (!(far(dir(to[0], to[1]), B) < tol * 4)) bad("arrive", "travelling %.9g at %.9g from %.9g %.9g ends at %.9g %.9g, not %.9g %.9g", d, pa, a[0], a[1], to[0], to[1], b[0], b[1]);
      }
      /* any distance, any angle */
      double s = rng.chance(.2) ? rng.range(-2, 2) * M_PI / 2 : rng.chance(.5) ? rng.uni(0, M_PI) : rng.logu(1e-14, 1), p = lon_(), to[2] = {99, 99};
      cur("travel %.17g %.17g by %.17g at %.17g", a[0], a[1], s, p);
      reverse_dist_and_posn_ang(to, a, s, p);
      V T; for (int i = 0; i < 3; i++) T.x[i] = A.x[i] * cosl(s) + sinl(s) * (N.x[i] * cosl(p) + W.x[i] * sinl(p));
      if (!(far(dir(to[0], to[1]), T) < 2e-15L + 3e-16L * (fabs(a[0]) + fabs(p)))) bad("travel", "off by %.3Lg", far(dir(to[0], to[1]), T));
      if (!(fabs(to[1]) <= M_PI / 2)) bad("travel-range", "latitude %.17g", to[1]);
      count("separations"); seen(mix(hdbl(a[0]), hdbl(b[1])));
   }
}
int main(int argc, char **argv) {
   init(argc, argv);
   setup();
   systems(budget(80000, 1500000)); vec(budget(80000, 1500000)); horizon(budget(80000, 1500000)); separations(budget(160000, 3000000));
   sample("galactic pole RA %.6f dec %.6f", atan2((double)GAL[7], (double)GAL[6]) * 180 / M_PI + 360, asin((double)GAL[8]) * 180 / M_PI);
   need("directions", 10000); need("vectors", 10000); need("horizon places", 10000); need("polar sites", 1000); need("separations", 10000); need("undefined angles", 100);
   return finish();
}
