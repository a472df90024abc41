/* P31: the same question gets the same answer, whatever was asked before.
   The parent never calls the library.  It forks children from its pristine state: one runs a long random history of queries
   and documented setters (interleaved sessions, repeated questions, poisoned stack and heap between the calls) and reports
   every answer; for each (question, setter state) a fresh child gives the reference answer.  Bit for bit they must agree. */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "lunar.h"
#include "comets.h"
#include "mpc_func.h"
#include "showelem.h"
#include "vislimit.h"
#include "riseset3.h"
#include "gust86.h"
#include "brentmin.h"
#include "stringex.h"
#include "vsopgen.h"
#include <malloc.h>
#include <dirent.h>
#include <fenv.h>
#include <locale.h>
#include <errno.h>
#include <alloca.h>
#include <limits.h>
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
#endif
using namespace vh;
typedef std::string S;
double tt_to_mtc(const double jd); double mtc_to_tt(const double mtc); double mars_true_solar_minus_mean_solar_time(const double jd); double mtst_at_airy_to_tt(const double mtst);
void easter_date(const long year, int *month, int *day);
int htc20(const double jd, const int sat_no, double *xyz, double *vxyz);
double get_solstice_equinox_date(double jd);
double get_lunar_transit_time(const int year, const int month, const int day, const double latitude, const double longitude, const int time_zone, const int dst, const int real_transit);
double v_minus_i_to_b_minus_v(const double), b_minus_v_to_v_minus_i(const double), v_minus_r_to_b_minus_v(const double), b_minus_v_to_v_minus_r(const double), johnson_b_minus_v_from_tycho_b_minus_v(const double), johnson_v_from_tycho_b_minus_v(const double, const double);
double cubic_spline_interpolate_within_table(const double *table, const int n_entries, double x, int *err_code);
double lagrange_interpolate_within_table(const double *table, const int n_entries, double x, const int n_pts, double *deriv);
double iau_obliquity(const double), spline_obliquity(const double);
long extract_mpcorb_dat(ELEMENTS *elem, const char *buff); long extract_astorb_dat(ELEMENTS *elem, const char *buff);
double quick_atof(const char *ibuff);
double default_td_minus_ut(const double jd);

static void clean(const void *p, size_t n) {
#ifdef VH_MSAN
   __msan_unpoison(p, n);
#endif
   (void)p; (void)n;
}
static uint8_t fillbyte = 0xa5;
static void dirty(void *p, size_t n) {
   memset(p, fillbyte, n);
#ifdef VH_MSAN
   __msan_poison(p, n);
#endif
}
/* ------------------------------------------------------------ answers */
struct Out {
   S s, why;
   void raw(const void *p, size_t n) {
#ifdef VH_MSAN
      intptr_t k = __msan_test_shadow(p, n); if (k >= 0 && why.empty()) why = "byte " + std::to_string((long)k) + " of a result is uninitialised";
      __msan_unpoison(p, n);
#endif
      s.append((const char *)p, n);
   }
   void dv(const double *p, int n) { for (int i = 0; i < n; i++) d1(p + i); }
   void d1(const double *p) {
#ifdef VH_MSAN
      intptr_t k = __msan_test_shadow(p, 8); if (k >= 0 && why.empty()) why = "byte " + std::to_string((long)k) + " of a number is uninitialised";
      __msan_unpoison(p, 8);
#endif
      double x = *p; if (x != x) s.append("NaN     ", 8); else s.append((const char *)&x, 8); }
   void d(double x) { clean(&x, 8); d1(&x); }
   void ld(long double x) { if (x != x) s += "NaN"; else s.append((const char *)&x, 10); }
   void i(long x) { s.append((const char *)&x, 8); }
   void str(const char *p, size_t cap) {
#ifdef VH_MSAN
      for (size_t k = 0; k < cap; k++) { if (__msan_test_shadow(p + k, 1) >= 0) { if (why.empty()) why = "character " + std::to_string(k) + " of a text is uninitialised"; return; } if (!p[k]) break; }
#endif
      size_t n = strnlen(p, cap); s.append(p, n); s += '\0'; }
};
/* ------------------------------------------------------------ setter state */
struct State { int dt, eop, cos, nam, end, dir; bool operator<(const State &o) const { return memcmp(this, &o, sizeof *this) < 0; } };
static const char *DTS[] = {NULL, "d2000,63.8,29.2,1.2:d1900,10,5", "1950,2050:60,40,20"};
static const char *CAL0[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char *DOW0[7] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *CAL1[12] = {"jan", "fev", "mars", "avr", "mai", "juin", "juil", "aout", "sept", "oct", "nov", "dec"};
static const char *DOW1[7] = {"dim", "lun", "mar", "mer", "jeu", "ven", "sam"};
static S base;
static void set_dt(int k) { reset_td_minus_dt_string(DTS[k]); }
static void set_eop(int k) { if (!k) load_earth_orientation_params(NULL, NULL); else { int fd = 0; load_earth_orientation_params((base + (k == 1 ? "/eop1" : "/eop2")).c_str(), k == 1 ? &fd : NULL); } }
static void set_cos(int k) { load_cospar_file(k == 0 ? NULL : (base + "/cosalt").c_str()); }
static void set_nam(int k) { for (int i = 0; i < 12; i++) set_month_name(i + 1, (k ? CAL1 : CAL0)[i]); for (int i = 0; i < 7; i++) set_day_of_week_name(i, (k ? DOW1 : DOW0)[i]); }
static void set_end(int k) { mjd_end_of_predictive_leap_seconds = k == 0 ? INT_MAX : k == 1 ? 70000 : 60676; }
static State cs;
static void apply(const State &t, const State &from) { if (t.dt != from.dt) set_dt(t.dt); if (t.end != from.end) set_end(t.end); if (t.eop != from.eop) set_eop(t.eop); if (t.cos != from.cos) set_cos(t.cos); if (t.nam != from.nam) set_nam(t.nam); }
/* ------------------------------------------------------------ questions */
static VgFile VG;
typedef void (*OpF)(Rng &, Out &);
struct Op { const char *name; OpF f; };
static void between();
static const double JDP[] = {2451545., 2451545.5, 2451544.999999999, 2455197.5, 2433282.42345905, 2415020.31352, 2440000.25, 2469807.5, 2305447.5, 1721057.5, 2816787.5, 625000.5, 2460400.123456, 2451549.5, 2461000.5, 2441317.5};
static double jdp(Rng &a) { double j = JDP[a.below(16)]; return a.chance(.25) ? j + (double)a.below(4) * 1e-8 : j; }
static double jdm(Rng &a) { static const double J[] = {2451545., 2451545.5, 2455197.5, 2433282.42345905, 2440000.25, 2460400.123456, 2451549.5, 2461000.5}; double j = J[a.below(8)]; return a.chance(.25) ? j + (double)a.below(4) * 1e-8 : j; }
static double yrp(Rng &a) { static const double Y[] = {2000., 1950., 1875., 2000.0000001, 2024.5, 1600., 2050., -500., 1991.25, 1984.}; return Y[a.below(10)]; }
static const char *TXT[] = {"2009 mar 14 3:14:15.9", "1 jan 2000 12:00", "2451545.5", "JD 2453333.25", "mjd 51544.5", "2004-02-29T17:30:00", "J2004.5", "+3d", "-2.5h", "14/3/2012", "3 avr 2010", "2001 juin 9", "18 sept 1776", "2020 day 100", "20110103.7", "h 7 Ramadan 1400", "10 tishri 5765", "2012.3 y", "fm+1", "full moon", "12:34", "lun 5 mai 1999"};
static void o_dmy(Rng &a, Out &o) { long y = (long)a.range(-3000, 6000); int c = (int)a.below(9), m = 1 + (int)a.below(13), d = 1 + (int)a.below(30); if (c == CALENDAR_CHINESE) y = a.range(4600, 5100); o.i(dmy_to_day(d, m, y, c)); o.i(days_in_month(m, y, c)); }
static void o_day(Rng &a, Out &o) { long j = a.range(1700000, 2600000); int c = (int)a.below(9), d, m; long y; dirty(&d, 4); dirty(&m, 4); dirty(&y, 8); day_to_dmy(j, &d, &m, &y, c); o.raw(&d, 4); o.raw(&m, 4); o.raw(&y, 8); if (c == CALENDAR_CHINESE && d > 0) o.i(get_chinese_intercalary_month()); }
static void o_chi(Rng &a, Out &o) { long j = a.range(2300000, 2500000); int d, m; long y; dirty(&d, 4); dirty(&m, 4); dirty(&y, 8); day_to_dmy(j, &d, &m, &y, CALENDAR_CHINESE); if (d <= 0) return; o.raw(&d, 4); o.raw(&m, 4); o.raw(&y, 8); o.i(get_chinese_intercalary_month()); o.i(dmy_to_day(d, m, y, CALENDAR_CHINESE)); }
static void o_ctime(Rng &a, Out &o) { char b[80]; dirty(b, 80); int f = (int)(a.next() & 0x3fffff) & ~0xf; if ((f & 7 << 10) == 0) f |= 0; full_ctime(b, jdp(a) + a.uni(), f | (a.chance(.2) ? (int)a.below(9) : 0)); o.str(b, 80); }
static void o_ctimel(Rng &a, Out &o) { char b[80]; dirty(b, 80); full_ctimel(b, (long double)(jdp(a) - 2451545.) + a.uni(), (int)(a.next() & 0x3ffff0)); o.str(b, 80); }
static void o_split(Rng &a, Out &o) { long y; int m, d, h, mi; dirty(&y, 8); dirty(&m, 4); dirty(&d, 4); dirty(&h, 4); dirty(&mi, 4); double s = split_time(jdp(a) + a.uni(), &y, &m, &d, &h, &mi, (int)a.below(2)); o.d(s); o.raw(&y, 8); o.raw(&m, 4); o.raw(&d, 4); o.raw(&h, 4); o.raw(&mi, 4); }
static void o_ddmy(Rng &a, Out &o) { long y; int m; dirty(&y, 8); dirty(&m, 4); o.d(decimal_day_to_dmy(jdp(a) + a.uni(), &y, &m, (int)a.below(2))); o.raw(&y, 8); o.raw(&m, 4); }
static void o_parse(Rng &a, Out &o) { int u; dirty(&u, 4); const char *t = TXT[a.below(22)]; int f = a.chance(.5) ? FULL_CTIME_YMD : a.chance(.5) ? FULL_CTIME_DMY : FULL_CTIME_MDY; o.d(get_time_from_string(jdm(a), t, f, &u)); o.raw(&u, 4); }
static void o_parsel(Rng &a, Out &o) { int u; dirty(&u, 4); o.ld(get_time_from_stringl((long double)(jdm(a) - 2451545.), TXT[a.below(22)], a.chance(.5) ? FULL_CTIME_YMD : 0, &u)); o.raw(&u, 4); }
static void o_names(Rng &a, Out &o) { const char *m = set_month_name(1 + (int)a.below(12), NULL), *d = set_day_of_week_name((int)a.below(7), NULL); o.str(m ? m : "(none)", 40); o.str(d ? d : "(none)", 40); }
static void o_dt(Rng &a, Out &o) { double j = jdp(a); o.d(td_minus_ut(j)); o.d(td_minus_utc(j)); o.d(tdb_minus_utc(j)); o.d(default_td_minus_ut(j)); }
static void o_dt2(Rng &a, Out &o) { static const double J[] = {2451545., 2500000., 2473000., 2457754.5, 2441499.5, 2437500.3, 2470001.}; o.d(td_minus_utc(J[a.below(7)])); o.ld(tdb_minus_tdt((long double)a.below(5) * .1L - .2L)); }
static void o_eop(Rng &a, Out &o) { earth_orientation_params p; dirty(&p, sizeof p); int m = (int)a.below(32); o.i(get_earth_orientation_params(jdm(a), &p, m)); o.d1(&p.dX); o.d1(&p.dY); o.d1(&p.dPsi); o.d1(&p.dEps); o.d1(&p.tdt_minus_ut1); }
static void o_eopinfo(Rng &, Out &o) { int f[3]; dirty(f, 12); o.i(load_earth_orientation_params(NULL, f)); for (int i = 0; i < 3; i++) o.raw(f + i, 4); }
static void o_prec(Rng &a, Out &o) { double m[9]; dirty(m, 72); setup_precession(m, yrp(a), yrp(a)); o.dv(m, 9); }
static void o_precb(Rng &a, Out &o) { double y1 = yrp(a), y2 = yrp(a), m[9], n[9]; dirty(m, 72); dirty(n, 72); setup_precession(m, y1, y2); between(); setup_precession(n, y2, y1); o.dv(m, 9); o.dv(n, 9); }
static void o_eclp(Rng &a, Out &o) { double m[9]; dirty(m, 72); setup_ecliptic_precession(m, yrp(a), yrp(a)); o.dv(m, 9); }
static void o_pnut(Rng &a, Out &o) { double m[9]; dirty(m, 72); if (a.chance(.5)) setup_precession_with_nutation(m, yrp(a)); else setup_precession_with_nutation_delta(m, yrp(a), 1e-6 * (double)a.below(3), -1e-6 * (double)a.below(3)); o.dv(m, 9); }
static void o_peop(Rng &a, Out &o) { double m[9]; dirty(m, 72); o.i(setup_precession_with_nutation_eops(m, 2000. + (jdm(a) - 2451545.) / 365.25)); o.dv(m, 9); }
static void o_ppt(Rng &a, Out &o) { DPT i, r; i.x = a.uni(-3, 3); i.y = a.uni(-1.5, 1.5); clean(&i, sizeof i); dirty(&r, sizeof r); precess_pt(&r, &i, yrp(a), yrp(a)); o.dv(&r.x, 2); }
static void o_prd(Rng &a, Out &o) { double m[9], v[3], w[3], p[2], q[2]; dirty(m, 72); setup_precession(m, yrp(a), yrp(a)); v[0] = a.uni(); v[1] = a.uni(); v[2] = a.uni(); p[0] = a.uni(-3, 3); p[1] = a.uni(-1.5, 1.5); clean(v, 24); clean(p, 16); dirty(w, 24); dirty(q, 16); between(); precess_vector(m, v, w); o.dv(w, 3); deprecess_vector(m, v, w); o.dv(w, 3); precess_ra_dec(m, q, p, (int)a.below(2)); o.dv(q, 2); }
static void o_obl(Rng &a, Out &o) { double t = (yrp(a) - 2000.) / 100. * (a.chance(.2) ? 20 : 1); o.d(mean_obliquity(t)); o.d(iau_obliquity(t)); o.d(spline_obliquity(t)); }
static void o_nut(Rng &a, Out &o) { double l, e; dirty(&l, 8); dirty(&e, 8); nutation((jdp(a) - 2451545.) / 36525., &l, &e); o.d1(&l); o.d1(&e); }
static void o_gst(Rng &a, Out &o) { o.d(green_sidereal_time(jdp(a))); }
static void o_altaz(Rng &a, Out &o) { DPT p, r, l, s; double h; p.x = a.uni(-3, 3); p.y = a.uni(-1.5, 1.5); l.x = a.uni(-3, 3); l.y = a.uni(-1.5, 1.5); clean(&p, 16); clean(&l, 16); dirty(&r, 16); dirty(&s, 16); dirty(&h, 8); double j = jdm(a); full_ra_dec_to_alt_az(&p, &r, a.chance(.5) ? &s : NULL, &l, j, a.chance(.5) ? &h : NULL); o.dv(&r.x, 2); dirty(&s, 16); full_alt_az_to_ra_dec(&s, &p, j, &l); o.dv(&s.x, 2); }
static void o_gal(Rng &a, Out &o) { double x, y, u = a.uni(-3, 3), v = a.uni(-1.5, 1.5); dirty(&x, 8); dirty(&y, 8); int k = (int)a.below(4); (k == 0 ? ra_dec_to_galactic(u, v, &x, &y) : k == 1 ? galactic_to_ra_dec(u, v, &x, &y) : k == 2 ? ra_dec_to_supergalactic(u, v, &x, &y) : supergalactic_to_ra_dec(u, v, &x, &y)); o.d1(&x); o.d1(&y); o.dv(j2000_to_galactic_matrix(), 9); o.dv(j2000_to_supergalactic_matrix(), 9); }
static void o_ecl(Rng &a, Out &o) { double v[3] = {a.uni(), a.uni(), a.uni()}, m[9]; clean(v, 24); ecliptic_to_equatorial(v); o.dv(v, 3); rotate_vector(v, a.uni(), (int)a.below(3)); o.dv(v, 3); equatorial_to_ecliptic(v); o.dv(v, 3); dirty(m, 72); set_identity_matrix(m); spin_matrix(m, m + 3, a.uni()); invert_orthonormal_matrix(m); o.dv(m, 9); o.d(normalize_vect3(v)); }
static void o_con(Rng &a, Out &o) { char b[8]; dirty(b, 8); o.i(constell_from_ra_dec(a.uni(0, 360), a.uni(-90, 90), b)); o.str(b, 8); }
static void o_var(Rng &a, Out &o) { char b[16]; dirty(b, 16); make_var_desig(b, 1 + (int)a.below(9999)); o.str(b, 16); clean(b, 16); o.i(decipher_var_desig(b)); }
static void o_refr(Rng &a, Out &o) { double h = a.uni(0, 1.5); o.d(refraction(h)); o.d(reverse_refraction(h)); o.d(saasta_refraction(h, 1010., 280. + (double)a.below(20), .3)); o.d(reverse_saasta_refraction(h, 1000., 285., .2)); }
static void o_irefr(Rng &a, Out &o) { double h = a.uni(.02, 1.5), w = a.chance(.5) ? .55 : .7; if (a.chance(.5)) o.d(integrated_refraction(.7, h, w, 500., 40., 283., 990.)); else o.d(reverse_integrated_refraction(-.3, h, w, 0., 10., 290., 1013.)); }
static void o_dpa(Rng &a, Out &o) { double p[2] = {a.uni(-3, 3), a.uni(-1.5, 1.5)}, q[2] = {a.uni(-3, 3), a.uni(-1.5, 1.5)}, d, g; clean(p, 16); clean(q, 16); dirty(&d, 8); dirty(&g, 8); calc_dist_and_posn_ang(p, q, &d, &g); o.d1(&d); o.d1(&g); double r[2]; dirty(r, 16); reverse_dist_and_posn_ang(r, p, a.uni(0, 3), a.uni(-3, 3)); o.dv(r, 2); }
static int bodyp(Rng &a) { static const int B[] = {0, 2, 3, 4, 5, 6, 10, 11, 14, 28, 31, 55, 2000, 99999, -5, 1}; return B[a.below(16)]; }
static void o_ori(Rng &a, Out &o) { double m[9]; dirty(m, 72); int b = bodyp(a), s = (int)a.below(4); int rv = calc_planet_orientation(b, s, jdm(a), m); o.i(rv); o.dv(m, 9); }
static void o_ori2(Rng &a, Out &o) { double m[9], n[9]; int b = bodyp(a), s = (int)a.below(3); double j = jdm(a); dirty(m, 72); dirty(n, 72); int r1 = calc_planet_orientation(b, s, j, m); between(); int r2 = calc_planet_orientation(a.chance(.5) ? b : bodyp(a), s, j, n); o.i(r1); o.i(r2); o.dv(m, 9); o.dv(n, 9); }
static void o_rate(Rng &a, Out &o) { o.d(planet_rotation_rate(bodyp(a), (int)a.below(4))); }
static void o_radii(Rng &a, Out &o) { double r[3]; dirty(r, 24); int rv = planet_radii(bodyp(a), r); o.i(rv); if (!rv) o.dv(r, 3); }
static void o_jsat(Rng &a, Out &o) { double v[16]; dirty(v, 128); int w = 1 + (int)a.below(15); calc_jsat_loc(jdm(a), v, w, a.chance(.5) ? 0 : 5); for (int i = 0; i < 4; i++) if (w >> i & 1) o.dv(v + 3 * i, 3); }
static void o_ssat(Rng &a, Out &o) { double v[4]; dirty(v, 32); calc_ssat_loc(jdm(a), v, (int)a.below(9), a.chance(.5) ? 0 : 3); o.dv(v, 3); }
static void o_tri(Rng &a, Out &o) { double v[3]; dirty(v, 24); calc_triton_loc(jdm(a), v); o.dv(v, 3); }
static void o_gust(Rng &a, Out &o) { double v[6]; dirty(v, 48); gust86_posn(jdm(a), (int)a.below(5), v); o.dv(v, 3); }
static void o_htc(Rng &a, Out &o) { double v[3], w[3]; dirty(v, 24); dirty(w, 24); o.i(htc20(jdm(a), (int)a.below(8) + (a.chance(.5) ? 1 : 0), v, w)); }
static void o_rock(Rng &a, Out &o) { static const int R[] = {505, 514, 515, 516, 610, 611, 613, 615, 706, 715, 803, 808, 904, 905, 401, 12345}; double v[3]; dirty(v, 24); int rv = evaluate_rock(jdm(a), R[a.below(16)], v); o.i(rv); if (!rv) o.dv(v, 3); }
static void o_vsop(Rng &a, Out &o) { int p = (int)a.below(9), v = (int)a.below(3); double t = (jdm(a) - 2451545.) / 36525.; o.d(calc_vsop_loc(VG.vsop.data(), p, v, t, a.chance(.5) ? 0. : 1e4)); }
static void o_moon(Rng &a, Out &o) { double f[N_FUND], l, r; dirty(f, sizeof f); dirty(&l, 8); dirty(&r, 8); lunar_fundamentals(VG.vsop.data(), (jdm(a) - 2451545.) / 36525., f); between(); long p = (long)a.below(3) * 100; lunar_lon_and_dist(VG.vsop.data(), f, &l, &r, p); o.dv(f, N_FUND); o.d1(&l); o.d1(&r); o.d(lunar_lat(VG.vsop.data(), f, p)); }
static void o_cplan(Rng &a, Out &o) { double v[16]; dirty(v, 128); int p = 1 + (int)a.below(8); compute_planet(VG.vsop.data(), p, (jdm(a) - 2451545.) / 36525., v); o.dv(v, 3); }
static void o_plu(Rng &a, Out &o) { double v[3]; dirty(v, 24); calc_pluto_loc(VG.vsop.data(), v, (jdm(a) - 2451545.) / 36525., (long)a.below(2) * 100); o.dv(v, 3); }
static void o_big(Rng &a, Out &o) { FILE *f = fopen((base + "/d0/big_vsop.bin").c_str(), "rb"); if (!f) { o.i(-1); return; } double v[6]; dirty(v, 48); calc_big_vsop_loc(f, 1 + (int)a.below(8), v, (jdm(a) - 2451545.) / 36525., a.chance(.5) ? 0. : 1e-6); fclose(f); o.dv(v, 3); }
static void o_phase(Rng &a, Out &o) { o.ld(find_nearest_lunar_phase_time((int)a.below(4), (long double)(jdm(a) - 2451545.))); }
static void o_sol(Rng &a, Out &o) { o.d(get_solstice_equinox_date(jdm(a))); }
static void o_rise(Rng &a, Out &o) { int s; dirty(&s, 4); double j = floor(jdm(a)); o.d(look_for_rise_set(a.chance(.5) ? 3 : 10, j, j + 1, a.uni(-1, 1), a.uni(-3, 3), VG.vsop.data(), &s)); PLANET_DATA p; dirty(&p, sizeof p); fill_planet_data(&p, a.chance(.5) ? 3 : 10, j, .5, 1., VG.vsop.data()); o.raw(&p, sizeof p); }
static void o_tran(Rng &a, Out &o) { o.d(get_lunar_transit_time(1990 + (int)a.below(40), 1 + (int)a.below(12), 1 + (int)a.below(28), a.uni(-60, 60), a.uni(-180, 180), (int)a.below(5) - 2, (int)a.below(2), (int)a.below(2))); }
static ELEMENTS mk(Rng &a) { ELEMENTS e; memset(&e, 0, sizeof e); e.q = a.uni(.3, 3); e.ecc = a.chance(.2) ? 1. : a.uni(0, 1.5); e.incl = a.uni(0, 3); e.arg_per = a.uni(0, 6); e.asc_node = a.uni(0, 6); e.perih_time = jdm(a); e.epoch = e.perih_time + 30; e.slope_param = .15; e.abs_mag = 12.3; e.is_asteroid = 1; clean(&e, sizeof e); derive_quantities(&e, .01720209895 * .01720209895); return e; }
static void o_kep(Rng &a, Out &o) { ELEMENTS e = mk(a); clean(&e, sizeof e); between(); double l[4], v[3]; dirty(l, 32); dirty(v, 24); comet_posn_and_vel(&e, jdm(a), l, v); o.dv(l, 4); o.dv(v, 3); dirty(l, 32); comet_posn(&e, jdm(a), l); o.dv(l, 4); }
static void o_cls(Rng &a, Out &o) { double r[6] = {a.uni(-2, 2), a.uni(-2, 2), a.uni(-1, 1), a.uni(-.02, .02), a.uni(-.02, .02), a.uni(-.01, .01)}; clean(r, 48); ELEMENTS e; memset(&e, fillbyte, sizeof e); e.gm = .01720209895 * .01720209895; clean(&e, sizeof e); calc_classical_elements(&e, r, jdm(a), 1); o.dv(&e.perih_time, 6); o.d1(&e.mean_anomaly); o.dv(e.perih_vec, 3); o.dv(e.sideways, 3); }
static void o_pel(Rng &a, Out &o) { ELEMENTS e; memset(&e, 0, sizeof e); clean(&e, sizeof e); o.i(setup_planet_elem(&e, 1 + (int)a.below(8), (jdm(a) - 2451545.) / 36525.)); o.dv(&e.perih_time, 6); }
static void o_moid(Rng &a, Out &o) { ELEMENTS e, f; do { Rng b(a.next()); e = mk(b); clean(&e, sizeof e); } while (e.ecc >= .95); memset(&f, 0, sizeof f); clean(&f, sizeof f); setup_planet_elem(&f, 3, 0.); moid_data_t m; dirty(&m, sizeof m); between(); o.d(find_moid_full(&f, &e, a.chance(.5) ? &m : NULL)); }
static void o_show(Rng &a, Out &o) { ELEMENTS e = mk(a); clean(&e, sizeof e); char b[700]; dirty(b, 700); elements_in_mpc_format(b, 700, &e, "2004 AB", 0, (int)a.below(8)); o.str(b, 700); }
static void o_sof(Rng &a, Out &o) { static const char *H = "Name        |Tp              .       |Te      |q         .|i  .      |Om .      |om .      |e .       |rms .|n_o |Tlast  .|H .  |G . ^\n", *L[] = {"   1        |20100101.12345678|20100301|2.5500000|10.593000|080.3932|072.5220|0.0758230|0.60|6000|20120101|3.34|0.12\n", "   2        |20091231.00000000|20100301|2.1340000|34.8410000|173.096|310.0488|0.2312740|0.60|6000|20120101|4.13|0.11\n"}; ELEMENTS e; memset(&e, 0, sizeof e); clean(&e, sizeof e); o.i(extract_sof_data(&e, L[a.below(2)], H)); o.dv(&e.perih_time, 8); }
static void o_orb(Rng &a, Out &o) { static const char *L[] = {"00001    3.34  0.12 K107N 113.41048   72.58976   80.39321   10.58682  0.0791382  0.21432817   2.7653485  0 MPO110568  6063  94 1802-2006 0.61 M-v 30h MPCLINUX   0000      (1) Ceres              20061025", "K04A00B 18.20  0.15 K107N 213.41048   12.58976   30.39321    1.58682  0.5791382  0.51432817   1.7653485  0 MPO110568    63   4 1802-2006 0.61 M-v 30h MPCLINUX   0000           2004 AB         20061025"}; ELEMENTS e; memset(&e, 0, sizeof e); clean(&e, sizeof e); o.i(extract_mpcorb_dat(&e, L[a.below(2)])); o.dv(&e.perih_time, 8); }
static const char *REC[] = {"     K04A00B  C2010 03 15.12345 12 34 56.78 -01 23 45.6           18.2 V     703", "00433         C1931 01 30.12345 10 04 56.7  +12 23 45             10.2       024", "     J95O010  C1997 04 01.5     01 02 03.456+89 59 59.99          -0.7 R     568", "    CK08N030  CK09020312:34567  23 59 59.999-45 00 00.1           20.1 G     C51", "     K04A00B  C2455270.123456   123.456789  -01.3960001           18.2 V     703"};
static void o_rec(Rng &a, Out &o) { const char *r = REC[a.below(5)]; unsigned f; int rf, df; double v[4]; dirty(&f, 4); dirty(&rf, 4); dirty(&df, 4); dirty(v, 32); double dt = extract_date_from_mpc_report(r, &f); o.d(dt); if (dt > 0) o.raw(&f, 4); int rv = get_ra_dec_from_mpc_report(r, &rf, v, v + 1, &df, v + 2, v + 3); o.i(rv); if (!rv) { o.raw(&rf, 4); o.raw(&df, 4); o.dv(v, 4); } }
static void o_net(Rng &a, Out &o) { static const char *N[] = {"GSC 1.1", "UCAC-4", "Gaia-DR2", "USNO-A2.0", "nothing", "PPM", "Tycho-2"}; o.i(net_name_to_byte_code(N[a.below(7)])); const char *n = byte_code_to_net_name((char)(' ' + a.below(95))); o.str(n ? n : "(none)", 60); }
static void o_site(Rng &a, Out &o) { static const char *L[] = {"568 204.52780.941706+0.337237Mauna Kea", "703 249.26736.845315+0.533213Catalina", "000   0.0000 0.62411 +0.77873 Greenwich", "250                           Hubble Space Telescope", "Bad 123", "W+12 34 N23 45 100m"}; mpc_code_t m; memset(&m, fillbyte, sizeof m); clean(&m, sizeof m); const char *l = L[a.below(6)]; int rv = get_mpc_code_info(&m, l); o.i(rv); if (rv >= 0) { o.dv(&m.lat, 2); o.d1(&m.alt); o.dv(&m.rho_cos_phi, 2); o.i(m.planet); o.i(m.prec1); o.i(m.prec2); o.i(m.name ? m.name - l : -1); o.str(m.code, 5); } }
static void o_xxx(Rng &a, Out &o) { static const char *L[] = {"COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth", "E12.345, N45.678, 123m", "W 77 3 56.7, N 38 55 17, 92m", "N44.01 W69.90 100ft", "garbage"}; mpc_code_t m; memset(&m, fillbyte, sizeof m); clean(&m, sizeof m); const char *l = L[a.below(5)]; int rv = a.chance(.5) ? get_xxx_location_info(&m, l) : get_lat_lon_info(&m, l); o.i(rv); if (!rv) { o.dv(&m.lat, 2); o.d1(&m.alt); o.dv(&m.rho_cos_phi, 2); } }
static void o_radec(Rng &a, Out &o) { static const char *T[] = {"12 34 56.78", "12h34m56s", "123.456", "-1 02 03", "+45:06:07.8", "7.5h", "x"}; int n; dirty(&n, 4); const char *t = T[a.below(7)]; o.d(get_ra_from_string(t, &n)); o.raw(&n, 4); dirty(&n, 4); o.d(get_dec_from_string(t, &n)); o.raw(&n, 4); }
static void o_angle(Rng &a, Out &o) { char b[60]; int p = (int)a.below(9) + (a.chance(.3) ? 100 : a.chance(.3) ? 200 : 0); double x = a.uni(0, 24); dirty(b, 60); output_angle_to_buff(b, x, p); o.str(b, 60); dirty(b, 60); output_signed_angle_to_buff(b, x - 12, p); o.str(b, 60); }
static void o_ell(Rng &a, Out &o) { double d, c, s; dirty(&d, 8); dirty(&c, 8); dirty(&s, 8); o.d(point_to_ellipse(1., .99, a.uni(), a.uni(), &d)); o.d1(&d); o.i(lat_alt_to_parallax(a.uni(-1.5, 1.5), 1000., &c, &s, 6378140., 6356755.)); o.d1(&c); o.d1(&s); int p = (int)a.below(12); o.d(planet_radius_in_meters(p)); o.d(planet_axis_ratio(p)); }
static void o_pack(Rng &a, Out &o) { static const char *N[] = {"2004 AB", "(12345)", "C/1995 O1", "73P-AB", "S/2009 S 1", "Jupiter XLV", "1999-012A", "P/2010 A2-B", "nonsense", "(620001)", "3141 P-L", "2023 TA620"}; char b[20]; dirty(b, 20); o.i(create_mpc_packed_desig(b, N[a.below(12)])); o.str(b, 20); }
static void o_unp(Rng &a, Out &o) { static const char *N[] = {"     K04A00B", "12345       ", "    CJ95O010", "0073P      b", "    SK09S010", "J045S       ", "~0000       ", "     SN79DL4", "     PLS3141", "K04A00B     ", "    xyz     "}; char b[80]; dirty(b, 80); o.i(unpack_mpc_desig(b, N[a.below(11)])); o.str(b, 80); dirty(b, 80); o.i(unpack_unaligned_mpc_desig(b, N[a.below(11)])); o.str(b, 80); }
static void o_hex(Rng &a, Out &o) { char b[8]; dirty(b, 8); int n = 1 + (int)a.below(5); o.i(encode_value_in_mutant_hex(b, n, (int)a.below(3844))); o.raw(b, n); o.i(get_mutant_hex_value(b, n)); }
static const char *ADL[] = {"# version=2017", "# observatory", "! mpcCode 703", "# telescope", "! aperture 0.7", "permID |provID     |trkSub  |mode|stn |obsTime                 |ra         |dec        |rmsRA|rmsDec|astCat|mag  |band|remarks", "       |2004 AB    |abc     |CCD |703 |2010-03-15T02:57:46.1Z  |188.736583 |-01.396000 |0.12 |0.13  |UCAC4 |18.2 |V   |",
  "433    |           |        |CCD |568 |2012-01-02T00:00:00Z    |000.5      |+45.25     |     |      |Gaia2 |10.1 |G   |note"};
static const char *XML[] = {"<?xml version=\"1.0\"?>", "<ades version=\"2017\">", "<obsBlock>", "<obsContext>", "<observatory><mpcCode>W84</mpcCode></observatory>", "</obsContext>", "<obsData>", "<optical><provID>2004 AB</provID><trkSub>zz9</trkSub><stn>W84</stn><obsTime>2015-06-07T08:09:10.5Z</obsTime>", "<ra>12.5</ra><dec>-3.25</dec><astCat>Gaia1</astCat><mag>21.2</mag><band>r</band><mode>CCD</mode></optical>", "</obsData>", "</obsBlock>", "</ades>"};
static void ades(const char **l, int n, Out &o) { void *c = init_ades2mpc(); for (int i = 0; i < n; i++) { char b[400]; dirty(b, 400); strcpy(b, l[i]); clean(b, strlen(b) + 1); int r, k = 0; do { r = xlate_ades2mpc_in_place(c, b); o.i(r); if (r > 0) o.str(b, 400); between(); } while (r > 0 && k++ < 20); } o.i(free_ades2mpc_context(c)); }
static void o_adesp(Rng &a, Out &o) { if (a.chance(.3)) ades(ADL + 5, 3, o); else ades(ADL, 8 - (int)a.below(2), o); }
static void o_adesx(Rng &a, Out &o) { ades(XML, a.chance(.3) ? 9 : 12, o); }
static void o_adesf(Rng &a, Out &o) { void *c = init_ades2mpc(); FILE *f = fopen((base + (a.chance(.5) ? "/ades.psv" : "/ades.xml")).c_str(), "rb"); char b[400]; int n = 0; dirty(b, 400); for (;;) { if (!fgets_with_ades_xlation(b, 400, c, f) || n++ > 50) break; o.str(b, 400); between(); } fclose(f); o.i(free_ades2mpc_context(c)); }
static void o_brent(Rng &a, Out &o) { double c = a.uni(-1, 1), w = a.uni(.5, 3); auto f = [&](double x) { double u = x - c; return w * u * u + .2 * u * u * u + .1 * cos(5 * u); }; brent_min_t b; memset(&b, fillbyte, sizeof b); clean(&b, sizeof b); brent_min_init(&b, c - 1.3, f(c - 1.3), c + .01, f(c + .01), c + 1.7, f(c + 1.7)); b.tolerance = 1e-9; b.ytolerance = 0; int n = 0; while (n++ < 60) { double x = brent_min_next(&b); o.d(x); between(); if (brent_min_add(&b, f(x)) || b.xmax - b.xmin < 1e-9) break; } o.d1(&b.x[0]); }
static void o_interp(Rng &a, Out &o) { double t[20], d; for (int i = 0; i < 20; i++) t[i] = sin(i * .3 + (double)a.below(3)); clean(t, sizeof t); int e; dirty(&e, 4); dirty(&d, 8); o.d(cubic_spline_interpolate_within_table(t, 20, a.uni(-1, 21), &e)); o.raw(&e, 4); o.d(lagrange_interpolate_within_table(t, 20, a.uni(0, 19), 4 + (int)a.below(4), a.chance(.5) ? &d : NULL)); }
static void o_sky(Rng &a, Out &o) { BRIGHTNESS_DATA b; memset(&b, fillbyte, sizeof b); b.zenith_ang_moon = a.uni(0, 3); b.zenith_ang_sun = a.uni(1, 3); b.moon_elongation = a.uni(0, 3); b.ht_above_sea_in_meters = 1000; b.latitude = .6; b.temperature_in_c = 10; b.relative_humidity = 40; b.year = 2010; b.month = 1 + (double)a.below(12); b.zenith_angle = a.uni(0, 1.4); b.dist_moon = a.uni(.1, 2); b.dist_sun = a.uni(.2, 3); b.mask = 31; clean(&b, sizeof b); set_brightness_params(&b); between(); compute_extinction(&b); compute_sky_brightness(&b); o.dv(b.k, 5); o.dv(b.extinction, 5); o.dv(b.brightness, 5); o.d(compute_limiting_mag(&b)); }
static void o_col(Rng &a, Out &o) { double x = a.uni(-.1, 1.8); o.d(v_minus_i_to_b_minus_v(x)); o.d(b_minus_v_to_v_minus_i(x)); o.d(v_minus_r_to_b_minus_v(x)); o.d(b_minus_v_to_v_minus_r(x)); o.d(johnson_b_minus_v_from_tycho_b_minus_v(x)); o.d(johnson_v_from_tycho_b_minus_v(x, 9.)); }
static void o_mars(Rng &a, Out &o) { double j = jdm(a); o.d(tt_to_mtc(j)); o.d(mtc_to_tt(51000.25)); o.d(mars_true_solar_minus_mean_solar_time(j)); o.d(mtst_at_airy_to_tt(40000. + (double)a.below(9))); }
static void o_east(Rng &a, Out &o) { int m, d; dirty(&m, 4); dirty(&d, 4); easter_date(a.range(1583, 9000), &m, &d); o.raw(&m, 4); o.raw(&d, 4); }
static void o_str(Rng &a, Out &o) { char b[24]; strcpy(b, "abc"); clean(b, 24); snprintf_append(b, 24, "%d,%s", (int)a.below(100), "xyz"); o.str(b, 24); char c[80]; strcpy(c, "one two one three one"); clean(c, 80); o.i(text_search_and_replace(c, "one", a.chance(.5) ? "1" : "eleven")); o.str(c, 80); o.d(quick_atof("-12.345e3")); o.i(is_valid_mpc_code(a.chance(.5) ? "703" : "7 3")); }
static void o_mag(Rng &a, Out &o) { o.d(phase_angle_correction_to_magnitude(a.uni(0, 3), .15)); o.d(extract_yyyymmdd_to_jd(a.chance(.5) ? "20100203.5" : "19991231")); }
static const Op OPS[] = {{"dmy_to_day", o_dmy}, {"day_to_dmy", o_day}, {"chinese", o_chi}, {"full_ctime", o_ctime}, {"full_ctimel", o_ctimel}, {"split_time", o_split}, {"decimal_day_to_dmy", o_ddmy}, {"get_time_from_string", o_parse}, {"get_time_from_stringl", o_parsel}, {"names", o_names},
  {"delta_t", o_dt}, {"leap_seconds", o_dt2}, {"eop", o_eop}, {"eop_info", o_eopinfo}, {"precession", o_prec}, {"precession_pair", o_precb}, {"ecliptic_precession", o_eclp}, {"nutation_matrix", o_pnut}, {"earth_matrix", o_peop}, {"precess_pt", o_ppt}, {"precess_vectors", o_prd}, {"obliquity", o_obl}, {"nutation", o_nut}, {"sidereal", o_gst}, {"alt_az", o_altaz}, {"galactic", o_gal}, {"vectors", o_ecl},
  {"constellation", o_con}, {"var_desig", o_var}, {"refraction", o_refr}, {"integrated_refraction", o_irefr}, {"dist_pa", o_dpa}, {"orientation", o_ori}, {"orientation_pair", o_ori2}, {"rotation_rate", o_rate}, {"radii", o_radii}, {"jsats", o_jsat}, {"ssats", o_ssat}, {"triton", o_tri}, {"gust86", o_gust}, {"htc20", o_htc}, {"rocks", o_rock},
  {"vsop", o_vsop}, {"moon", o_moon}, {"compute_planet", o_cplan}, {"pluto", o_plu}, {"big_vsop", o_big}, {"lunar_phase", o_phase}, {"solstice", o_sol}, {"rise_set", o_rise}, {"lunar_transit", o_tran}, {"kepler", o_kep}, {"classical", o_cls}, {"planet_elem", o_pel}, {"moid", o_moid}, {"showelem", o_show}, {"sof", o_sof}, {"mpcorb", o_orb},
  {"mpc_record", o_rec}, {"net_names", o_net}, {"mpc_code", o_site}, {"lat_lon", o_xxx}, {"ra_dec_text", o_radec}, {"angle_text", o_angle}, {"ellipse", o_ell}, {"pack", o_pack}, {"unpack", o_unp}, {"mutant_hex", o_hex}, {"ades_psv", o_adesp}, {"ades_xml", o_adesx}, {"ades_file", o_adesf}, {"brent", o_brent}, {"interpolate", o_interp}, {"sky", o_sky}, {"colours", o_col}, {"mars", o_mars}, {"easter", o_east}, {"strings", o_str}, {"magnitude", o_mag}};
static const int NOP = sizeof OPS / sizeof *OPS;
static const int NARG = 24;
/* ------------------------------------------------------------ noise */
static Rng noise(1); static int depth = 0; static bool noisy = false;
static void run_op(int op, int arg, Out &o) { Rng a(mix(mix(0xabcde, op), arg)); OPS[op].f(a, o); }
static void between() { if (!noisy || depth >= 2) return; depth++; while (noise.chance(.3)) { Out x; run_op((int)noise.below(NOP), (int)noise.below(NARG), x); } depth--; }
__attribute__((noinline)) static void scribble() {
   size_t n = 4096 + noise.below(60000); volatile char *p = (volatile char *)alloca(n); uint64_t k = noise.below(6); double dd = noise.uni(-10, 10); uint8_t c = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x41 : (uint8_t)noise.next();
   if (k < 4) for (size_t i = 0; i < n; i++) p[i] = (char)c; else for (size_t i = 0; i + 8 <= n; i += 8) memcpy((void *)(p + i), &dd, 8);
   fillbyte = (uint8_t)noise.next();
   for (int i = 0; i < 6; i++) { size_t m = 16 + noise.below(i < 4 ? 600 : 20000); char *q = (char *)malloc(m); memset(q, (int)noise.below(256), m); asm volatile("" : : "r"(q) : "memory"); free(q); }
}
/* ------------------------------------------------------------ children */
struct Step { int op, arg; State st; };   /* op < 0: a setter, arg says which; st = the state in force afterwards */
static void wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(9); c += k; n -= (size_t)k; } }
static bool rd(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static const State S0 = {0, 0, 0, 0, 0, 0};
/* run a history in a pristine child; answers[i] for every step (empty for setters) */
static bool play(const std::vector<Step> &h, bool noisy_, uint64_t nseed, std::vector<S> &ans, S *fail, size_t *lastp) {
   int pp[2]; if (pipe(pp)) { *fail = "pipe"; return false; }
   fflush(NULL);
   pid_t pid = fork();
   if (!pid) {
      close(pp[0]); { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); close(nul); } } noise = Rng(nseed); noisy = noisy_; cs = S0; cs.dir = h.empty() ? 0 : h[0].st.dir;
      if (chdir((base + (cs.dir ? "/d1" : "/d0")).c_str())) _exit(9);
      int f0 = -1, rnd = fegetround(); S loc = setlocale(LC_ALL, NULL);
      for (size_t i = 0; i < h.size(); i++) {
         if (i == 20) f0 = fds();
         progress++;
         if (h[i].op < 0) { apply(h[i].st, cs); cs = h[i].st; uint32_t n = 0; wr(pp[1], &n, 4); n = 0; wr(pp[1], &n, 4); continue; }
         Out o; if (noisy) scribble(); run_op(h[i].op, h[i].arg, o);
         if (noisy) { if (fegetround() != rnd && o.why.empty()) o.why = "the rounding mode was changed"; if (loc != setlocale(LC_ALL, NULL) && o.why.empty()) o.why = "the locale was changed"; if (i > 20 && (i % 16 == 0 || i + 1 == h.size()) && fds() > f0 && o.why.empty()) o.why = "file handles stay open"; }
         uint32_t n = (uint32_t)o.s.size(), w = (uint32_t)o.why.size(); wr(pp[1], &n, 4); wr(pp[1], o.s.data(), n); wr(pp[1], &w, 4); wr(pp[1], o.why.data(), w);
      }
      _exit(0);
   }
   close(pp[1]); ans.clear(); bool ok = pid > 0;
   for (size_t i = 0; ok && i < h.size(); i++) { uint32_t n = 0, w = 0; S s, y; ok = rd(pp[0], &n, 4); if (ok) { s.resize(n); ok = !n || rd(pp[0], &s[0], n); } ok = ok && rd(pp[0], &w, 4); if (ok) { y.resize(w); ok = !w || rd(pp[0], &y[0], w); } if (!ok) break; ans.push_back(s); if (w) { *fail = y; *lastp = i; close(pp[0]); kill(pid, SIGKILL); waitpid(pid, NULL, 0); return false; } progress++; }
   close(pp[0]); int st = 0; waitpid(pid, &st, 0);
   if (!ok || st) { *lastp = ans.size(); *fail = "the process died (status " + std::to_string(st) + ")"; return false; }
   return true;
}
static S stt(const State &s) { char b[100]; snprintf(b, sizeof b, "dt%d,eop%d,cospar%d,names%d,end%d,dir%d", s.dt, s.eop, s.cos, s.nam, s.end, s.dir); return b; }
static S show(const std::vector<Step> &h, size_t upto) { S r; size_t a = upto > 8 ? upto - 8 : 0; if (a) r = "... "; for (size_t i = a; i <= upto && i < h.size(); i++) r += h[i].op < 0 ? "set(" + stt(h[i].st) + "); " : S(OPS[h[i].op].name) + "#" + std::to_string(h[i].arg) + "; "; return r; }
static std::map<std::pair<State, int>, S> refs; static long nref = 0;
static bool reference(const Step &q, S *out) {
   auto key = std::make_pair(q.st, q.op * 1000 + q.arg); auto it = refs.find(key); if (it != refs.end()) { *out = it->second; return true; }
   std::vector<Step> h; State z = S0; z.dir = q.st.dir; Step s0 = {-1, 0, q.st}; (void)z; h.push_back(s0); h.push_back(q);
   std::vector<S> a; S f; size_t l = 0;
   if (!play(h, false, 1, a, &f, &l)) { bad(S(f.find("died") != S::npos ? "died:" : "state:") + OPS[q.op].name, "in a fresh process (%s): %s", stt(q.st).c_str(), f.c_str()); return false; }
   nref++; if (refs.size() < 200000) refs[key] = a[1];
   *out = a[1]; return true;
}
static void pick_setter(State &s) { switch (rng.below(5)) { case 0: s.dt = (int)rng.below(3); break; case 1: s.eop = (int)rng.below(3); break; case 2: s.cos = (int)rng.below(2); break; case 3: s.nam = (int)rng.below(2); break; default: s.end = (int)rng.below(3); } }
static std::unordered_set<int> pairs;
static void one_history(long len) {
   std::vector<Step> h; State s = S0; s.dir = rng.chance(.15); int fam = -1, lo = 0; double pset = rng.chance(.3) ? 0 : rng.uni(.01, .08), prep = rng.uni(0, .3); bool nz = rng.chance(.7);
   Step first = {-1, 0, s}; h.push_back(first); std::vector<int> subset; if (rng.chance(.6)) { int n = 2 + (int)rng.below(8); for (int i = 0; i < n; i++) subset.push_back((int)rng.below(NOP)); } (void)fam; (void)lo;
   int nargs = rng.chance(.5) ? 3 : NARG;
   while ((long)h.size() < len) {
      if (rng.chance(pset)) { pick_setter(s); Step t = {-1, 0, s}; h.push_back(t); continue; }
      if (rng.chance(prep) && h.size() > 2) { Step t = h[h.size() - 1 - rng.below(std::min<size_t>(h.size() - 1, 6))]; if (t.op >= 0) { t.st = s; h.push_back(t); continue; } }
      Step t = {subset.empty() ? (int)rng.below(NOP) : subset[rng.below(subset.size())], (int)rng.below(nargs), s}; h.push_back(t);
   }
   uint64_t ns = rng.next(); std::vector<S> a; S f; size_t last = 0;
   cur("history of %ld calls, seed %llu", len, (unsigned long long)ns);
   bool ok = play(h, nz, ns, a, &f, &last);
   if (!ok) { int op = last < h.size() ? h[last].op : -1; S nm = op < 0 ? "setter" : OPS[op].name; cur("%s", show(h, last).c_str()); bad((f.find("died") != S::npos ? "died:" : "state:") + nm, "%s", f.c_str()); }
   count("histories"); if (nz) count("histories with noise");
   for (size_t i = 0; i < a.size(); i++) {
      if (h[i].op < 0) { count("setter calls"); continue; }
      S r; if (!reference(h[i], &r)) continue;
      count("answers compared"); evals++; if (i && h[i - 1].op >= 0) { pairs.insert(h[i - 1].op * 1000 + h[i].op); seen(mix(mix(h[i - 1].op, h[i - 1].arg), mix(h[i].op * 1000 + h[i].arg, h[i].st.dt + 3 * h[i].st.eop + 9 * h[i].st.cos))); }
      if (a[i] == r) continue;
      /* which earlier call matters? */
      S why = "the whole history"; for (size_t j = i; j-- > 0;) { std::vector<Step> m; Step z = {-1, 0, h[j].st}; m.push_back(z); m.push_back(h[j]); if (h[j].op < 0 && j) { m[0] = Step{-1, 0, h[j - 1].st}; } Step z2 = {-1, 0, h[i].st}; m.push_back(z2); m.push_back(h[i]); std::vector<S> b; S g; size_t l; if (play(m, false, 1, b, &g, &l) && b.back() != r) { why = h[j].op < 0 ? "set(" + stt(h[j].st) + ")" : S(OPS[h[j].op].name) + "#" + std::to_string(h[j].arg); break; } }
      cur("%s", show(h, i).c_str());
      size_t p = 0; while (p < r.size() && p < a[i].size() && r[p] == a[i][p]) p++;
      double x = 0, y = 0; if (p / 8 * 8 + 8 <= r.size() && p / 8 * 8 + 8 <= a[i].size()) { memcpy(&x, r.data() + p / 8 * 8, 8); memcpy(&y, a[i].data() + p / 8 * 8, 8); }
      bad(S("history:") + OPS[h[i].op].name, "%s#%d answers differently (byte %zu; as a number %.17g instead of %.17g) after %s; state %s, call %zu of the history", OPS[h[i].op].name, h[i].arg, p, y, x, why.c_str(), stt(h[i].st).c_str(), i);
      return;
   }
}
/* repeating one call keeps no memory */
static void leaks(int op) {
   cur("leak check of %s", OPS[op].name);
   int pp[2]; if (pipe(pp)) return;
   fflush(NULL); pid_t pid = fork();
   if (!pid) { close(pp[0]); if (chdir((base + "/d0").c_str())) _exit(9); cs = S0; long g = 0; auto batch = [&]() { for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) { Out o; run_op(op, k, o); } }; batch(); for (int t = 0; t < 8; t++) { struct mallinfo2 m = mallinfo2(); long b = (long)(m.uordblks + m.hblkhd); batch(); m = mallinfo2(); g = (long)(m.uordblks + m.hblkhd) - b; if (g <= 0) break; } wr(pp[1], &g, 8); _exit(0); }
   close(pp[1]); long g = 0; bool ok = rd(pp[0], &g, 8); close(pp[0]); waitpid(pid, NULL, 0);
   if (ok && g > 0) bad(S("leak:") + OPS[op].name, "every 32 calls keep %ld bytes", g);
   if (ok) count("leak checks");
}
static void save(const S &p, const void *d, size_t n) { FILE *f = fopen(p.c_str(), "wb"); if (f) { if (n) (void)!fwrite(d, 1, n, f); fclose(f); } }
static S slurp(const S &p) { S r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void mk_eop(const S &fn, int mjd0, int n, double ph) {
   FILE *f = fopen(fn.c_str(), "wb");
   for (int i = 0; i < n; i++) { char l[400], t[60]; memset(l, ' ', sizeof l); l[187] = '\n'; l[188] = 0; auto put = [&](int at, const char *s) { memcpy(l + at, s, strlen(s)); };
      snprintf(t, sizeof t, "%02d%2d%2d %5d.00", i % 100, i % 12 + 1, i % 28 + 1, mjd0 + i); put(0, t); l[16] = i < n - 100 ? 'I' : 'P'; snprintf(t, sizeof t, "%9.6f", .04 + .2 * sin(i * .0144 + ph)); put(18, t); snprintf(t, sizeof t, "%9.6f", .29 + .2 * cos(i * .0144 + ph)); put(37, t); l[57] = l[16]; snprintf(t, sizeof t, "%10.7f", .3 * sin(i * .001 + ph)); put(58, t);
      if (i < n - 300) { l[95] = l[16]; snprintf(t, sizeof t, "%9.3f", -35 + 40 * sin(i * .00092)); put(97, t); snprintf(t, sizeof t, "%9.3f", -4 + 8 * cos(i * .0013)); put(116, t); }
      fputs(l, f); }
   fclose(f);
}
int main(int argc, char **argv) {
#ifdef VH_MSAN
   __msan_scoped_disable_interceptor_checks();   /* the driver is not instrumented: only the library's own reads are judged */
#endif
   init(argc, argv);
   char rp[PATH_MAX + 1]; base = realpath(workdir.c_str(), rp) ? rp : workdir; if (outpath[0] != '/') { char c[4000]; if (getcwd(c, sizeof c)) outpath = S(c) + "/" + outpath; }
   (void)!system(("mkdir -p '" + base + "/d0' '" + base + "/d1'").c_str());
   VG = vg_make(); clean(VG.vsop.data(), VG.vsop.size()); for (auto d : {"/d0", "/d1"}) { save(base + d + "/vsop.bin", VG.vsop.data(), VG.vsop.size()); save(base + d + "/big_vsop.bin", VG.big.data(), VG.big.size()); }
   S cos = slurp(repo + "/cospar.txt"), alt = cos; save(base + "/d0/cospar.txt", cos.data(), cos.size());
   if (cos.empty()) { fprintf(stderr, "no cospar.txt\n"); return 5; }
   { size_t p = 0; while ((p = alt.find("W", p)) != S::npos) { size_t q = alt.find_first_of("0123456789\n", p + 3); if (q != S::npos && alt[q] != '\n') alt[q] = alt[q] == '9' ? '1' : (char)(alt[q] + 1); p = p + 1; } p = 0; while ((p = alt.find("r=", p)) != S::npos) { if (isdigit((unsigned char)alt[p + 2])) alt[p + 2] = alt[p + 2] == '9' ? '1' : (char)(alt[p + 2] + 1); p += 2; } }
   save(base + "/cosalt", alt.data(), alt.size());
   mk_eop(base + "/eop1", 41684, 18000, .3); mk_eop(base + "/eop2", 44000, 17000, 2.1);
   { S p; for (auto l : ADL) p += S(l) + "\n"; save(base + "/ades.psv", p.data(), p.size()); p.clear(); for (auto l : XML) p += S(l) + "\n"; save(base + "/ades.xml", p.data(), p.size()); }
   if (mode != "san") for (int i = 0; i < NOP; i++) if (mine(i)) leaks(i);
   for (long k = 0, n = mode == "san" ? budget(64, 1600) : budget(480, 24000); k < n; k++) one_history(20 + (long)rng.below(rng.chance(.2) ? 600 : 150));
   count("reference processes", nref); count("ordered pairs of questions", (long)pairs.size());
   if (mode != "san") need("leak checks", NOP);
   need("histories", 60); need("answers compared", 4000); need("setter calls", 100); need("ordered pairs of questions", 2500);
   sample("%d questions, each with %d argument sets", NOP, NARG);
   return finish();
}
