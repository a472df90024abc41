/* P27: the Earth's position without data files, and the events found from positions: lunar phases, solstices and equinoxes, rise, set and transit. */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "lunar.h"
#include "riseset3.h"
#include "earth_table.h"
#include "vsopgen.h"
using namespace vh;
typedef long double LD;
int get_earth_loc(const double t_millennia, double *results);
double get_solstice_equinox_date(double jd);
double get_lunar_transit_time(const int year, const int month, const int day, const double latitude, const double longitude, const int time_zone, const int dst, const int real_transit);
int get_zip_code_data(const int zip_code, double *latitude, double *longitude, int *time_zone, int *use_dst, char *place_name);
void format_hh_mm(char *buff, const double time);
extern "C" { long double DLL_FUNC find_nearest_lunar_phase_time(const int phase_idx, const long double t2k); }
static const double D2R = M_PI / 180;
static double wrap(double x, double full) { x = fmod(x, full); if (x > full / 2) x -= full; if (x < -full / 2) x += full; return x; }
static LD mx[12]; static void mxx(int i, LD v) { if (v > mx[i]) mx[i] = v; }
static void save(const std::string &p, const std::vector<char> &b) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(&b[0], 1, b.size(), f); fclose(f); } }
/* ------------------------------------------------------------------ the Earth, J2000 */
static void earth_ref(LD t, LD *v, LD *slack) {
   int row = 0; for (int i = 0; i < 3; i++) { v[i] = slack[i] = 0; LD p = 1; for (int j = 0; j < 6; j++) { LD s = 0; for (int k = 0; k < EARTH_N[i * 6 + j]; k++, row++) { LD a = EARTH_T[row][1] + (LD)EARTH_T[row][2] * t; s += EARTH_T[row][0] * cosl(a); slack[i] += fabsl(EARTH_T[row][0] * p) * (4e-16L * (1 + fabsl(a))); } v[i] += s * p; p *= t; } v[i] *= 1e-8L; slack[i] = slack[i] * 1e-8L * 4 + 1e-15L * (1 + fabsl(v[i])); }
}
static void one_earth() {
   double t = rng.chance(.5) ? rng.uni(-.5, .5) : rng.chance(.5) ? rng.uni(-4, 4) : rng.range(-2000, 2000) / 1000.; double o[8] = {0, 0, 0, 0, 0, 0, 77, 78};
   cur("Earth at t=%.17g millennia", t); get_earth_loc(t, o); if (o[6] != 77 || o[7] != 78) bad("earth-write", "wrote beyond six values");
   LD v[3], sl[3]; earth_ref(t, v, sl);
   for (int i = 0; i < 3; i++) { LD d = fabsl(o[3 + i] - v[i]); mxx(0, d / sl[i]); if (!(d <= sl[i])) bad("earth-series", "value %d is %.17g instead of %.17Lg (allowed %.3Lg)", i, o[3 + i], v[i], sl[i]); }
   LD x[3] = {v[2] * cosl(v[0]) * cosl(v[1]), v[2] * sinl(v[0]) * cosl(v[1]), v[2] * sinl(v[1])};
   for (int i = 0; i < 3; i++) if (!(fabsl(o[i] - x[i]) <= 2 * (sl[0] + sl[1] + sl[2]) + 1e-15L)) bad("earth-xyz", "coordinate %d is %.17g, not %.17Lg", i, o[i], x[i]);
   double T = t * 10, R, lon = vg_sun(T, &R) + 180, prec = (5029.0966 * T + 1.11161 * T * T) / 3600; /* of date to J2000 */
   if (fabs(T) <= 20) {
      double dl = wrap(o[3] / D2R - (lon - prec), 360), lim = .012 + 2e-5 * T * T, dr = o[5] - R; double pi_ = (47.0029 * T - .03302 * T * T), b = pi_ * sin(o[3] - (174.876384 - 869.8089 * T / 3600) * D2R), db = o[4] / D2R * 3600 - b;
      mxx(1, fabs(dl) / lim); mxx(2, fabs(dr)); mxx(3, fabs(db) / (1.5 + .01 * T * T));
      if (!(fabs(dl) <= lim)) bad("earth-lon", "longitude off by %.5f degree from the mean solar theory", dl);
      if (!(fabs(dr) <= 1.3e-4)) bad("earth-dist", "distance %.6f, solar theory %.6f", o[5], R);
      if (!(fabs(db) <= 1.5 + .01 * T * T)) bad("earth-lat", "latitude %.3f arcsec, ecliptic of date lies at %.3f", o[4] / D2R * 3600, b);
      count("earth_independent");
   }
   double h = 1e-6, a[6], b[6]; get_earth_loc(t - h, a); get_earth_loc(t + h, b); /* 3.65 days: the motion is smooth and Keplerian */
   LD dxv[3], vv = 0, L[3], n = 0; for (int i = 0; i < 3; i++) { dxv[i] = (b[i] - a[i]) / (2 * h * 365250); vv += dxv[i] * dxv[i]; }
   for (int i = 0; i < 3; i++) { L[i] = o[(i + 1) % 3] * dxv[(i + 2) % 3] - o[(i + 2) % 3] * dxv[(i + 1) % 3]; n += L[i] * L[i]; }
   if (fabs(t) < 2) { double k2 = .000295912208, e = vv / 2 - k2 / o[5], want = -k2 / 2; if (!(fabs(e / want - 1) < 2e-3)) bad("earth-energy", "orbital energy implies a semimajor axis of %.6f AU", want / e); double hh = sqrt((double)n), wh = sqrt(k2) * sqrt(1 - .0167 * .0167); if (!(fabs(hh / wh - 1) < 1e-3)) bad("earth-area", "areal velocity off by a factor %.6f", hh / wh); mxx(4, fabs(e / want - 1)); mxx(5, fabs(hh / wh - 1)); }
   count("earth"); seen(hdbl(o[3]));
}
/* ------------------------------------------------------------------ lunar phases */
static LD phase_ref(LD k, int ph) { /* Meeus 49, with E = 1 and without the T terms of the arguments */
   LD d = 3.14159265358979323846264338327950288L / 180, m = (2.5534L + 29.10535669L * k) * d, p = (201.5643L + 385.81693528L * k) * d, f = (160.7108L + 390.67050274L * k) * d;
   struct { LD a[3]; int p, m, f; } T[] = {{{-.40720L, -.62801L, -.40614L}, 1, 0, 0}, {{.17241L, .17172L, .17302L}, 0, 1, 0}, {{.01608L, .00862L, .01614L}, 2, 0, 0}, {{.01039L, .00804L, .01043L}, 0, 0, 2}, {{.00739L, .00454L, .00734L}, 1, -1, 0}, {{-.00514L, -.01183L, -.00515L}, 1, 1, 0}, {{.00208L, .00204L, .00209L}, 0, 2, 0}, {{-.00111L, -.00180L, -.00111L}, 1, 0, -2}, {{-.00057L, -.00070L, -.00057L}, 1, 0, 2}};
   LD s = 5.09765L + k * 29.530588853L; int w = ph == 0 ? 0 : ph == 2 ? 2 : 1; for (auto &t : T) s += t.a[w] * sinl(t.p * p + t.m * m + t.f * f);
   return s + (ph == 1 ? .00306L : ph == 3 ? -.00306L : 0);
}
static double elong(double T) { double l, b; vg_moon(T, &l, &b); return l - (vg_sun(T, NULL) - 20.4898 / 3600); }
static void one_phase() {
   int ph = (int)rng.below(4); LD t = rng.chance(.5) ? rng.uni(-36525, 36525) : rng.uni(-8e5, 8e5);
   if (rng.chance(.2)) { LD k = (LD)rng.range(-1000, 1000) + ph * .25L; t = 5.09765L + 29.530588853L * k + (rng.chance(.5) ? 14.7652944265L : 0) + rng.uni(-1e-3, 1e-3); }
   cur("phase %d nearest %.15Lg", ph, t); LD r = find_nearest_lunar_phase_time(ph, t);
   LD k = roundl((t - 5.09765L) / 29.530588853L - ph * .25L), best = 9e9L; for (int j = -1; j < 2; j++) { LD e = phase_ref(k + j + ph * .25L, ph); if (fabsl(e - r) < fabsl(best)) best = e - r; }
   mxx(6, fabsl(best)); LD lim = 2e-10L + 1e-17L * fabsl(t) * 1e3L; if (!(fabsl(best) <= lim)) bad("phase-formula", "%.12Lf is off by %.3Lg days from the published formula", r, best);
   if (!(fabsl(r - t) <= 14.7653L + .85L)) bad("phase-nearest", "%.6Lf is %.3Lf days away", r, r - t);
   double T = (double)r / 36525, d = wrap(elong(T) - ph * 90, 360), plim = .05 + .02 * fabs(T) + .009 * T * T; mxx(7, fabs(d) / plim);
   if (fabs(T) < 20 && !(fabs(d) <= plim)) bad("phase-sky", "the Moon is %.4f degree from the phase (allowed %.4f)", d, plim);
   LD q = find_nearest_lunar_phase_time(ph, r + 29.530588853L), g = q - r; /* asked one lunation on: the next one */
   if (!(g > 29.1L && g < 29.95L)) { LD mean = 5.09765L + 29.530588853L * roundl((r - 5.09765L) / 29.530588853L - ph * .25L) + ph * .25L * 29.530588853L; if (fabsl(r - mean) < 1) bad("phase-step", "one lunation later: %.4Lf days on", g); }
   count("phases"); seen(mix(hdbl((double)r), ph));
   if (rng.chance(.5)) { /* through the time parser */
      static const char *nm[] = {"nm", "1q", "fm", "3q"}; char b[80]; double off = rng.chance(.5) ? 0 : rng.range(-60, 60) / 4.; double jd = rng.range(24000000, 24900000) / 10.;
      if (off) snprintf(b, sizeof b, "JD %.1f %s%+.2fd", jd, nm[ph], off); else snprintf(b, sizeof b, "JD %.1f %s", jd, nm[ph]);
      int ut = 0; cur("'%s'", b); LD v = get_time_from_stringl(0, b, 0, &ut), e = find_nearest_lunar_phase_time(ph, (LD)jd - 2451545) + off;
      if (!(fabsl(v - e) < 1e-9L)) bad("phase-string", "t2k %.9Lf instead of %.9Lf", v, e); count("phase_strings");
   }
}
/* ------------------------------------------------------------------ solstices and equinoxes */
static double mean_event(double year, int i) { static const double c[4][5] = {{2451623.80984, 365242.37404, .05169, -.00411, -.00057}, {2451716.56767, 365241.62603, .00325, .00888, -.00030}, {2451810.21715, 365242.01767, -.11575, .00337, .00078}, {2451900.05952, 365242.74049, -.06223, -.00823, .00032}}; double y = (year - 2000) / 1000, s = 0; for (int k = 4; k >= 0; k--) s = s * y + c[i][k]; return s; }
static void one_season() {
   int yr = (int)rng.range(1000, 3000), i = (int)rng.below(4); double m = mean_event(yr, i), j0 = m + rng.uni(-40, 40); cur("season %d of %d from %.5f", i, yr, j0);
   double r = get_solstice_equinox_date(j0), d = r - m; mxx(8, fabs(d)); if (!(fabs(d) < .03)) bad("season-date", "JD %.5f, mean seasons give %.5f", r, m);
   double T = (r - 2451545) / 36525, R, Om = (125.04452 - 1934.136261 * T) * D2R, L2 = 2 * (280.46646 + 36000.76983 * T) * D2R, lon = vg_sun(T, &R) + (-17.2 * sin(Om) - 1.32 * sin(L2) - 20.4898 / R) / 3600; d = wrap(lon - i * 90, 360);
   mxx(9, fabs(d)); if (!(fabs(d) < .016)) bad("season-lon", "apparent solar longitude %.5f", lon);
   { /* to the second: the series as the library sums them (P25), its nutation (P19), aberration by the textbook */
      double ov[3], dl; if (calc_big_vsop_loc(NULL, 3, ov, T, 0.)) bad("season-series", "no position"); nutation(T, &dl, NULL); double fine = ov[0] / D2R + (-.09033 + dl - 20.4898 / ov[2]) / 3600; fine = wrap(fine + 180 - i * 90, 360);
      if (fabs(fine) > 90) fine = wrap(fine + 180, 360);
      mxx(10, fabs(fine) * 3600); if (!(fabs(fine) * 3600 < .08)) bad("season-fine", "apparent solar longitude misses the multiple of 90 degrees by %.3f arcsec", fine * 3600); }
   double r2 = get_solstice_equinox_date(r + 1); if (!(fabs(r2 - r) < 1e-4)) bad("season-repeat", "two starts give %.6f and %.6f", r, r2);
   count("seasons"); seen(mix(hdbl(r), i));
}
/* ------------------------------------------------------------------ rise, set, transit */
static double sid(double jd) { double T = (jd - 2451545) / 36525; return 280.46061837 + 360.98564736629 * (jd - 2451545) + T * T * (.000387933 - T / 38710000); }
static double altitude(int pl, double jd, double lat, double lonE, double *H) {
   double T = (jd - 2451545) / 36525, l, b = 0; if (pl == 10) vg_moon(T, &l, &b); else l = vg_sun(T, NULL);
   double e = (23.4392911 - T * (.0130042 + T * (1.64e-7 - T * 5.04e-7))) * D2R; l *= D2R; b *= D2R;
   double ra = atan2(sin(l) * cos(e) - tan(b) * sin(e), cos(l)), dec = asin(sin(b) * cos(e) + cos(b) * sin(e) * sin(l)), h = sid(jd) * D2R + lonE - ra; if (H) *H = h;
   return asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(h)) / D2R;
}
static void one_rise(const char *data) {
   int pl = rng.chance(.5) ? 3 : 10; double lat = (rng.chance(.15) ? rng.uni(-89.9, 89.9) : rng.uni(-66, 66)) * D2R, lon = rng.uni(-180, 180) * D2R, j0 = 2451545 + rng.uni(-110000, 110000), h = rng.chance(.7) ? 1 / 24. : rng.uni(.01, .1), j1 = j0 + h, lim = pl == 10 ? .125 : -.83333;
   if (rng.chance(.7)) { double H; altitude(pl, j0, lat, lon, &H); j0 += (wrap(H + (rng.chance(.5) ? 1.57 : -1.57), 2 * M_PI)) / -2 / M_PI - h * rng.uni(.1, .9) ; j1 = j0 + h; }
   double a0 = altitude(pl, j0, lat, lon, NULL) - lim, a1 = altitude(pl, j1, lat, lon, NULL) - lim; int s = 99;
   cur("rise/set of %d between JD %.17g and %.17g, latitude %.15g longitude %.15g (altitudes %.4f %.4f)", pl, j0, j1, lat, lon, a0, a1); double r = look_for_rise_set(pl, j0, j1, lat, lon, data, &s);
   if (fabs(a0) < .02 || fabs(a1) < .02) { count("rise_edge"); return; }
   int want = a0 > 0 && a1 < 0 ? 1 : a0 < 0 && a1 > 0 ? 0 : -1;
   if (s != want) { bad("rise-kind", "classified %d, altitudes say %d", s, want); return; }
   seen(mix(hdbl(j0), hdbl(lat))); if (s < 0) { count("rise_none"); if (r != 0) bad("rise-none", "no event but time %.6f", r); return; }
   double am = altitude(pl, (j0 + j1) / 2, lat, lon, NULL) - lim, curv = fabs(a0 + a1 - 2 * am) / fabs(a1 - a0); /* how straight the altitude runs */
   count(s ? "sets" : "rises"); if (curv > .25) { count("rise_grazing"); return; }
   double a = altitude(pl, r, lat, lon, NULL) - lim; mxx(10, fabs(a)); if (!(r >= j0 - 1e-9 && r <= j1 + 1e-9)) bad("rise-interval", "JD %.8f lies outside the interval", r);
   if (!(fabs(a) < .025 + 15 * 24 * 2e-4 * h * fabs(curv))) bad("rise-altitude", "altitude at JD %.8f is %.4f degree from the horizon", r, a);
}
static int ref_dst(long jd, int year) { auto sunday = [&](int month, int nth) { long j; if (nth > 0) { j = dmy_to_day(1, month, year, 0); while ((j + 1) % 7) j++; j += 7 * (nth - 1); } else { j = dmy_to_day(1, month + 1, year, 0) - 1; while ((j + 1) % 7) j--; } return j; };
   long a = year <= 2006 ? sunday(4, 1) : sunday(3, 2), b = year <= 2006 ? sunday(10, -1) : sunday(11, 1); return jd >= a && jd < b; } /* at noon: the change days themselves count as changed */
static void one_transit() {
   int year = (int)rng.range(1900, 2100), month = (int)rng.range(1, 12), day = (int)rng.range(1, 28), dst = (int)rng.below(2), up = (int)rng.below(2); double lat = rng.chance(.7) ? rng.uni(-65, 65) : rng.uni(-30, 30), lon = rng.uni(-180, 180); int tz = (int)lround(lon / 15);
   if (rng.chance(.3)) { month = rng.chance(.5) ? (rng.chance(.5) ? 3 : 4) : (rng.chance(.5) ? 10 : 11); day = (int)rng.range(1, month == 4 || month == 11 ? 30 : 31); }
   long jd = dmy_to_day(day, month, year, 0); cur("lunar %stransit %d-%d-%d latitude %.6f longitude %.6f zone %d dst %d", up ? "" : "anti", year, month, day, lat, lon, tz, dst);
   double r = get_lunar_transit_time(year, month, day, lat, lon, tz, dst, up), ut = jd - .5 + r - tz / 24. - (dst ? ref_dst(jd, year) : 0) / 24., H, a = altitude(10, ut, lat * D2R, lon * D2R, &H); (void)a;
   double d = wrap(H - (up ? 0 : M_PI), 2 * M_PI) / D2R; mxx(11, fabs(d)); if (!(fabs(d) < .05)) bad("transit", "returned %.6f: the Moon's hour angle is %.4f degrees off", r, d);
   if (!(r > -.1 && r < 1.1)) bad("transit-day", "returned %.6f, more than a little outside the day", r);
   char b[8] = "zzzzzzz"; format_hh_mm(b, r); char e[16]; if (r < 0 || r >= 1) strcpy(e, "--:--"); else snprintf(e, sizeof e, "%02d:%02d", (int)(r * 1440) / 60, (int)(r * 1440) % 60); if (strcmp(b, e)) bad("hh-mm", "'%s' instead of '%s'", b, e);
   count(fabs(lat) < 29 ? "transit_tropic" : lat > 0 ? "transit_north" : "transit_south"); seen(mix(hdbl(r), jd));
}
static void zips() {
   std::vector<std::array<std::string, 2>> v; FILE *f = fopen("zips5.txt", "wb"); if (!f) return; struct Z { int zip, tz, dst; double lat, lon; std::string name, st; }; std::vector<Z> z; int n = (int)rng.range(1, 40);
   for (int i = 0; i < n; i++) { Z q; q.zip = (int)rng.range(501, 99950); q.tz = (int)rng.range(-10, -4); q.dst = (int)rng.below(2); q.lat = rng.range(-9000000, 9000000) / 1e5; q.lon = rng.range(-18000000, 18000000) / 1e5; q.st = std::string(1, (char)('A' + rng.below(26))) + (char)('A' + rng.below(26)); int len = (int)rng.range(1, 45); for (int k = 0; k < len; k++) q.name += (char)('a' + rng.below(26)); bool dup = false; for (auto &o : z) dup |= o.zip == q.zip; if (dup) continue; z.push_back(q);
      fprintf(f, "%05d %s   %10.5f %10.5f   %3d  %d       %s\n", q.zip, q.st.c_str(), q.lat, q.lon, q.tz, q.dst, q.name.c_str()); }
   fclose(f);
   for (int i = 0; i < 6; i++) { const Z &q = z[rng.below(z.size())]; char *nm = (char *)malloc(q.name.size() + 5); double la, lo; int tz, ds; cur("zip code %05d", q.zip); if (get_zip_code_data(q.zip, &la, &lo, &tz, &ds, nm)) { bad("zip", "not found"); free(nm); continue; }
      if (la != q.lat || lo != q.lon || tz != q.tz || ds != q.dst || nm != q.name + ", " + q.st) bad("zip", "gave %.5f %.5f %d %d '%s' for %.5f %.5f %d %d '%s, %s'", la, lo, tz, ds, nm, q.lat, q.lon, q.tz, q.dst, q.name.c_str(), q.st.c_str()); free(nm);
      if (get_zip_code_data(q.zip, &la, &lo, &tz, &ds, NULL)) bad("zip", "not found without a name buffer"); count("zip"); seen(mix(q.zip, hdbl(la))); }
   double la; int tz; cur("zip code 100000"); if (get_zip_code_data(100000, &la, &la, &tz, &tz, NULL) != -1) bad("zip-none", "an absent code was found"); unlink("zips5.txt"); if (get_zip_code_data(501, &la, &la, &tz, &tz, NULL) != -2) bad("zip-none", "no error without the file");
}
/* ------------------------------------------------------------------ the programs */
static double jd_of(const std::string &s) { /* "dd Mon yyyy hh:mm[:ss]" */ int y, d, h, m, k; double sec = 0; char mon[9]; if (sscanf(s.c_str(), "%d %3s %d %d:%d:%lf", &d, mon, &y, &h, &m, &sec) < 5) return -1; for (k = 0; k < 12; k++) if (!strncmp(mon, "JanFebMarAprMayJunJulAugSepOctNovDec" + 3 * k, 3)) return dmy_to_day(d, k + 1, y, 0) - .5 + (h * 60 + m) / 1440. + sec / 86400; return -1; }
static void prog_phases() {
   int y = (int)rng.range(1700, 2200); char a[20], m[20]; snprintf(a, sizeof a, "%d", y); snprintf(m, sizeof m, "-m%d", y + 2); std::string o, lf = workdir + "/ph.log", df = workdir + "/ph.dat"; cur("phases %s %s", a, m); int rc = run({tools + "/phases", a, m, "-l" + lf, "-d" + df}, &o);
   if (rc) { bad("phases-exit", "exit %d: %.200s", rc, o.c_str()); return; }
   std::vector<double> t; for (size_t p = 0; p < o.size();) { size_t e = o.find('\n', p); if (e == std::string::npos) e = o.size(); std::string l = o.substr(p, e - p); p = e + 1; size_t cr = l.rfind('\r'); if (cr != std::string::npos) { size_t st = l.find("JD "); if (st != std::string::npos) l.erase(st, cr + 1 - st); } for (size_t c = 0; c + 17 <= l.size(); c += 19) { double j = jd_of(l.substr(c, 17)); if (j > 0) t.push_back(j); } }
   if (t.size() < 90 || t.size() > 120) bad("phases-count", "%zu phases in two years", t.size());
   double last = 0; for (size_t i = 0; i < t.size(); i++) { double td = t[i] + td_minus_utc(t[i]) / 86400, T = (td + 15 / 86400. - 2451545) / 36525, d = wrap(elong(T) - 90. * (i % 4), 360); if (!(fabs(d) < .03)) bad("phases", "phase %zu at JD %.5f UTC is off by %.4f degree", i, t[i], d); if (last && !(t[i] - last > 6 && t[i] - last < 9)) bad("phases-step", "%.3f days between phases", t[i] - last); last = t[i]; count("phases_prog"); seen(hdbl(t[i])); }
   FILE *f = fopen(df.c_str(), "rb"); int32_t v; std::vector<int32_t> q; if (f) { while (fread(&v, 4, 1, f) == 1) q.push_back(v); fclose(f); }
   if (q.size() != t.size() + 1) bad("phases-data", "%zu numbers for %zu phases", q.size(), t.size()); else for (size_t i = 0; i < t.size(); i++) { double k = q[0] + i * .25, td = 2451550.09765 + 29.530588853 * k + q[i + 1] / 86400., e = t[i] + td_minus_utc(t[i]) / 86400; if (!(td - e > -2e-3 && td - e < 2e-3)) bad("phases-data", "phase %zu: %.6f in the file, %.6f in the table", i, td, e); }
   run({tools + "/phases", a, m, "-c", "-l" + lf}, &o); f = fopen(lf.c_str(), "rb"); char b[200]; int nz = 0; double lastz = 0; /* principal terms: multiples of 30 degrees */
   if (f) { while (fgets(b, sizeof b, f)) { char *z = strstr(b, " z "); if (!z) continue; double j = jd_of(std::string(z + 3).substr(strspn(z + 3, " "))); if (j < 0) { bad("terms", "unreadable line '%s'", b); continue; } double td = j + td_minus_utc(j) / 86400, T = (td - 2451545) / 36525, lon = vg_sun(T, NULL) - 20.4898 / 3600, d = wrap(lon, 30); nz++; if (!(fabs(d) < .016)) bad("terms", "solar longitude %.4f at '%.60s'", lon, b); if (atol(b) != (long)floor(j - 1 / 6.) && fabs(j - 1 / 6. - round(j - 1 / 6.)) > 1e-4) bad("terms-day", "day number of '%.60s'", b); int mon = 0, yr; if (sscanf(strrchr(b, ':') + 3 + strspn(strrchr(b, ':') + 3, "0123456789."), "%d %d", &mon, &yr) == 2) { int e = ((int)lround(lon / 30) % 12 + 13) % 12 + 1; if (((mon - e) % 12 + 12) % 12 != 0) bad("terms-month", "solar month %d at longitude %.3f", mon, lon); } if (lastz && !(j - lastz > 29 && j - lastz < 32)) bad("terms-step", "%.3f days between terms", j - lastz); lastz = j; count("terms"); } fclose(f); }
   if (nz < 23) bad("terms-count", "%d terms in two years", nz);
   unlink(lf.c_str()); unlink(df.c_str());
}
static void prog_tables() {
   int y = (int)rng.range(1950, 2100); char a[20]; snprintf(a, sizeof a, "%d", y); std::string o; cur("tables %s", a); int rc = run({tools + "/tables", a}, &o); if (rc) { bad("tables-exit", "exit %d: %.200s", rc, o.c_str()); return; }
   long jd = dmy_to_day(1, 1, y, 0), end = dmy_to_day(1, 1, y + 1, 0); double lat = 44.01 * D2R, lon = -69.9 * D2R; size_t p = 0; int nev = 0, nph = 0;
   while (p < o.size()) { size_t e = o.find('\n', p); if (e == std::string::npos) e = o.size(); std::string l = o.substr(p, e - p); p = e + 1; if (l.size() < 28 || l[0] == 'D' || l.compare(0, 4, "    ") == 0) continue; if (jd >= end) { bad("tables-days", "too many days"); break; }
      bool sun = (jd + 1) % 7 == 0; int dd, mm; long yy; { long jj = jd; day_to_dmy(jj, &dd, &mm, &yy, 0); } char w[9]; snprintf(w, sizeof w, sun ? "Su" : "%2d", dd); if (l.compare(0, 2, w)) bad("tables-day", "line '%s' for day %d", l.c_str(), dd);
      static const int off[4] = {4, 10, 17, 23}; for (int k = 0; k < 4; k++) { int h, m, pl = k < 2 ? 3 : 10; double st = jd - .5 + 5 / 24.; if (sscanf(l.c_str() + off[k], "%2d:%2d", &h, &m) == 2) { double t = st + (h * 60 + m + .5) / 1440., al = altitude(pl, t, lat, lon, NULL) - (pl == 10 ? .125 : -.83333), b = altitude(pl, t + .02, lat, lon, NULL) - altitude(pl, t - .02, lat, lon, NULL); if (!(fabs(al) < .15)) bad("tables-alt", "day %d event %d '%s': altitude off by %.3f", dd, k, l.c_str(), al); if ((b > 0) != (k % 2 == 0)) bad("tables-kind", "day %d event %d: altitude %s", dd, k, b > 0 ? "increasing" : "decreasing"); count("table_events"); }
         else { if (l.compare(off[k], 5, "--:--")) bad("tables-format", "'%s'", l.c_str()); int nx = 0; double q = altitude(pl, st, lat, lon, NULL) - (pl == 10 ? .125 : -.83333); for (int i = 1; i <= 24; i++) { double c = altitude(pl, st + i / 24., lat, lon, NULL) - (pl == 10 ? .125 : -.83333); if (k % 2 ? q > .05 && c < -.05 : q < -.05 && c > .05) nx++; q = c; } if (nx) bad("tables-missed", "day %d event %d not listed", dd, k); count("table_none"); } }
      double T0 = (jd - .5 + 5 / 24. - 2451545) / 36525, T1 = T0 + 1 / 36525., b; double l0, l1; vg_moon(T0, &l0, &b); vg_moon(T1, &l1, &b); double s0 = vg_sun(T0, NULL), s1 = vg_sun(T1, NULL); auto quad = [](double x) { return (int)floor(fmod(fmod(x, 360) + 360, 360) / 90); }; auto edge = [](double x) { return fabs(wrap(x, 90)) < .02; };
      std::string ev = l.size() > 29 ? l.substr(29) : "", want; while (!ev.empty() && ev.back() == ' ') ev.pop_back();
      if (!edge(l0 - s0) && !edge(l1 - s1) && !edge(s0) && !edge(s1)) { if (quad(l0 - s0) != quad(l1 - s1)) want = std::string("1Q FM 3Q NM").substr(3 * quad(l0 - s0), 2), nph++; if (quad(s0) != quad(s1)) { static const char *nm[] = {"Summ Sol", "Autu Eq", "Wint Sol", "Vern Eq"}; want = nm[quad(s0)]; nev++; } if (ev != want) bad("tables-event", "day %d: '%s' instead of '%s'", dd, ev.c_str(), want.c_str()); }
      jd++; }
   if (jd != end) bad("tables-days", "%ld days missing", end - jd);
   if (nph < 40) bad("tables-phases", "%d phases in a year", nph);
   count("tables"); seen(hstr(o)); (void)nev;
}
static void prog_season() {
   int y = (int)rng.range(1600, 2300); char a[20], m[20]; snprintf(a, sizeof a, "%d", y); snprintf(m, sizeof m, "-m%d", y + 3); std::string o; cur("solseqn %s %s", a, m); int rc = run({tools + "/solseqn", a, m}, &o); if (rc) { bad("solseqn-exit", "exit %d: %.200s", rc, o.c_str()); return; }
   int n = 0; size_t p = 0; while ((p = o.find(": ", p)) != std::string::npos) { size_t e = o.find('\n', p), q = o.rfind(' ', e); double jd = atof(o.c_str() + q), best = 9e9; int i = n % 4; for (int yy = y - 1; yy < y + 5; yy++) best = std::min(best, fabs(jd - mean_event(yy, i))); if (!(best < .03)) bad("solseqn", "event %d at JD %.5f", n, jd); static const char *nm[] = {"Mar equ", "Jun sol", "Sep equ", "Dec sol"}; if (p < 7 || o.compare(p - 7, 7, nm[i])) bad("solseqn-name", "event %d named '%.7s'", n, o.c_str() + p - 7); n++; p = e; count("solseqn"); }
   if (n < 11 || n > 13) bad("solseqn-count", "%d events in three years", n);
   /* the same events in UT, only some of them, into a file as well; and in far centuries the names still follow one another */
   if (rng.chance(.5)) { y = (int)rng.range(2400, 6000); snprintf(a, sizeof a, "%d", y); snprintf(m, sizeof m, "-m%d", y + 3); if (run({tools + "/solseqn", a, m}, &o)) { bad("solseqn-exit", "year %d: %.200s", y, o.c_str()); return; } }
   int mask = (int)rng.range(1, 15); char om[20]; snprintf(om, sizeof om, "-o%d", mask); std::string o2, o3, sf = workdir + "/ss.txt"; cur("solseqn %s %s -u %s", a, m, om);
   if (run({tools + "/solseqn", a, m, "-u", om, "-f" + sf}, &o2)) { bad("solseqn-exit", "with -u: %.200s", o2.c_str()); return; }
   FILE *g = fopen(sf.c_str(), "rb"); char gb[300]; while (g && fgets(gb, sizeof gb, g)) o3 += gb; if (g) fclose(g);
   if (o2.find(o3) == std::string::npos || (o3.empty() && !o2.empty())) bad("solseqn-file", "the file has '%.80s', the screen '%.80s'", o3.c_str(), o2.c_str());
   auto parse = [](const std::string &t) { std::vector<std::pair<std::string, double>> v; size_t p = 0; while ((p = t.find(": ", p)) != std::string::npos) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); size_t q = t.rfind(' ', e); v.push_back({p < 7 ? "" : t.substr(p - 7, 7), atof(t.c_str() + q)}); p = e; } return v; };
   auto A = parse(o), B = parse(o2); size_t b = 0; static const char *N4[] = {"Mar equ", "Jun sol", "Sep equ", "Dec sol"};
   for (size_t i = 0; i < A.size(); i++) { if (A[i].first != N4[i % 4]) bad("solseqn-name", "event %zu after the start of year %d named '%s'", i, y, A[i].first.c_str()); if (i && !(A[i].second - A[i - 1].second > 86 && A[i].second - A[i - 1].second < 97)) bad("solseqn-step", "%.3f days between events", A[i].second - A[i - 1].second);
      if (!((mask >> (i % 4)) & 1)) continue;
      if (b >= B.size()) { if (i + 1 < A.size()) bad("solseqn-mask", "%zu events for mask %d", B.size(), mask); break; }
      double want = A[i].second - td_minus_ut(A[i].second) / 86400.; if (B[b].first != A[i].first || !(fabs(B[b].second - want) < 2.5e-5)) bad("solseqn-ut", "event %zu: '%s' JD %.5f UT, %.5f expected", i, B[b].first.c_str(), B[b].second, want); b++; count("solseqn_ut"); }
   if (b + 1 < B.size()) bad("solseqn-mask", "%zu events for mask %d, %zu expected", B.size(), mask, b);
}
/* geometry seen from planet p1 of planet p2 and the Sun: separation (radians), and the two distances */
static double sun_sep(const char *data, double jd, int p1, int p2, double *elng) {
   double T = (jd - 2451545) / 36525, v[2][3], r1 = calc_vsop_loc(data, p1, 2, T, 0), r2 = calc_vsop_loc(data, p2, 2, T, 0), lt = fabs(r1 - r2) / AU_PER_DAY / 36525;
   for (int k = 0; k < 2; k++) { double t = k ? T - lt : T, l = calc_vsop_loc(data, k ? p2 : p1, 0, t, 0), b = calc_vsop_loc(data, k ? p2 : p1, 1, t, 0), r = k ? r2 : r1; v[k][0] = r * cos(b) * cos(l); v[k][1] = r * cos(b) * sin(l); v[k][2] = r * sin(b); }
   double a[3], c[3], x[3]; for (int i = 0; i < 3; i++) { a[i] = -v[0][i]; c[i] = v[1][i] - v[0][i]; } for (int i = 0; i < 3; i++) x[i] = a[(i + 1) % 3] * c[(i + 2) % 3] - a[(i + 2) % 3] * c[(i + 1) % 3];
   double s = atan2(sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), a[0] * c[0] + a[1] * c[1] + a[2] * c[2]); if (elng) { elng[0] = r1; elng[1] = sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); } return s;
}
static void prog_transit(const char *data) {
   int y = (int)rng.range(1700, 2000), p1 = rng.chance(.8) ? 3 : (int)rng.range(4, 6), p2 = p1 == 3 ? 1 + (int)rng.below(2) : (int)rng.range(1, 3); char a[20], b[20], c[20], m[20]; snprintf(a, sizeof a, "%d", rng.chance(.5) ? p1 : p2); snprintf(b, sizeof b, "%d", atoi(a) == p1 ? p2 : p1); snprintf(c, sizeof c, "%d", y); snprintf(m, sizeof m, "-m%d", y + 120);
   std::string o; cur("transit %s %s %s %s", a, b, c, m); int rc = run({tools + "/transit", a, b, c, m}, &o); if (rc) { bad("ptransit-exit", "exit %d: %.200s", rc, o.c_str()); return; }
   std::vector<double> t; size_t p = 0; while ((p = o.find(" at ", p)) != std::string::npos) { p += 4; t.push_back(jd_of(o.substr(p, 24))); }
   if (t.size() % 2) bad("ptransit-pairs", "%zu contacts", t.size());
   static const double rad[10] = {696265., 2439., 6051., 6378., 3393., 71398., 60000., 25400., 25295., 1500.};
   for (size_t i = 0; i + 1 < t.size(); i += 2) { for (int k = 0; k < 2; k++) { double q[2], s = sun_sep(data, t[i + k], p1, p2, q), e = (rad[0] / q[0] + rad[p2] / q[1] + rad[p1] * (1 / q[1] - 1 / q[0])) / AU_IN_KM; if (!(fabs(s - e) < 3e-4 * (t[i + 1] - t[i] > .05 ? 1 : 3))) bad("ptransit-contact", "contact at JD %.5f: separation %.2f arcsec, limb at %.2f", t[i + k], s / D2R * 3600, e / D2R * 3600); if (sun_sep(data, (t[i] + t[i + 1]) / 2, p1, p2, NULL) > s + 1e-6) bad("ptransit-mid", "farther from the Sun's centre in mid-transit"); } count("planet_transits"); seen(hdbl(t[i])); }
   double jd = dmy_to_day(1, 3, y, 0), end = dmy_to_day(1, 6, y + 119, 0), q[2], s0 = sun_sep(data, jd - 1, p1, p2, q), s1 = sun_sep(data, jd, p1, p2, q); int nt = 0; /* every close conjunction must have been listed */
   for (; jd < end; jd += 1) { double s2 = sun_sep(data, jd + 1, p1, p2, q); if (s1 < .03 && s1 < s0 && s1 <= s2 && q[1] < q[0]) { double lo = jd - 1, hi = jd + 1; for (int k = 0; k < 60; k++) { double u = lo + (hi - lo) / 3, w = hi - (hi - lo) / 3; if (sun_sep(data, u, p1, p2, NULL) < sun_sep(data, w, p1, p2, NULL)) hi = w; else lo = u; } double mn = sun_sep(data, lo, p1, p2, q); if (mn < .93 * rad[0] / AU_IN_KM / q[0]) { bool f = false; for (size_t i = 0; i + 1 < t.size(); i += 2) f |= lo > t[i] - .05 && lo < t[i + 1] + .05; if (!f) bad("ptransit-missed", "transit at JD %.4f (separation %.1f arcsec) not listed", lo, mn / D2R * 3600); nt++; } } s0 = s1; s1 = s2; }
   count("planet_transit_runs");
   if (p1 != 3) return;
   cur("transit %s %s %s %s -e", a, b, c, m); rc = run({tools + "/transit", a, b, c, m, "-e"}, &o); if (rc) { bad("elong-exit", "exit %d: %.200s", rc, o.c_str()); return; }
   p = 0; while (p < o.size()) { size_t e = o.find('\n', p); if (e == std::string::npos) e = o.size(); std::string l = o.substr(p, e - p); p = e + 1; double v = atof(l.c_str() + l.find_last_of(' ') + 1), j = l.size() > 30 ? jd_of(l.substr(9)) : -1; if (j < 0) continue; double s = sun_sep(data, j, 3, p2, q) / D2R; if (!(fabs(s - v) < .05)) bad("elong", "'%s': elongation %.3f", l.c_str(), s); if (l.compare(0, 8, "West Elo") == 0 || l.compare(0, 8, "East Elo") == 0) { double g = sun_sep(data, j - 1.5, 3, p2, NULL) / D2R, h = sun_sep(data, j + 1.5, 3, p2, NULL) / D2R; if (!(g < s && h < s)) bad("elong-max", "'%s' is not the greatest elongation: %.4f %.4f %.4f", l.c_str(), g, s, h); count("elongations"); } else { if ((l[0] == 'I') != (q[1] < q[0])) bad("conj-kind", "'%s' at distance %.3f", l.c_str(), q[1]); count("conjunctions"); } }
}
int main(int argc, char **argv) {
   init(argc, argv); if (chdir(workdir.c_str())) return 3;
   static const char *req[] = {"earth", "earth_independent", "phases", "phase_strings", "seasons", "rises", "sets", "rise_none", "transit_tropic", "transit_north", "transit_south", "zip"}; for (auto r : req) need(r, 10);
   unlink("vsop.bin"); unlink("big_vsop.bin"); bool san = mode == "san";
   cur("season without data"); if (get_solstice_equinox_date(2451545.) != 0) bad("season-none", "no error without the file"); cur("transit without data"); if (get_lunar_transit_time(2000, 1, 1, 0, 0, 0, 0, 1) != -2) bad("transit-none", "no error without the file");
   VgFile g = vg_make(); save("vsop.bin", g.vsop); save("big_vsop.bin", g.big);
   char *data = load_file_into_memory("vsop.bin", NULL); if (!data) { bad("load", "vsop.bin not loaded"); return finish(); }
   { size_t sz = 0; char *d2 = load_file_into_memory("vsop.bin", &sz); if (!d2 || sz != g.vsop.size() || memcmp(d2, &g.vsop[0], sz)) bad("load", "contents differ"); free(d2); if (load_file_into_memory("nonesuch", NULL)) bad("load", "a missing file was loaded"); }
   long n = budget(24000, 800000); for (long i = 0; i < n; i++) { one_earth(); one_phase(); one_rise(data); if (i % 4 == 0) { one_season(); one_transit(); } if (i % 200 == 0) zips(); }
   if (!tools.empty()) { need("phases_prog", 90); need("terms", 20); need("table_events", 300); need("tables", 1); need("solseqn", 10); need("solseqn_ut", 10); need("planet_transits", 4); need("elongations", 20); need("conjunctions", 20); for (long i = 0; i < budget(16, 400); i++) { prog_phases(); prog_tables(); prog_season(); prog_transit(data); } }
   free(data); (void)san;
   if (getenv("DBG")) for (int i = 0; i < 12; i++) printf("mx[%d]=%.4Lg\n", i, mx[i]);
   return finish();
}
