/* A stand-in for the 'jpl_eph' library (not part of this repository): ten bodies on fixed ellipses round the Sun, equatorial J2000, AU. */
#ifndef JPLEPH_STUB_H
#define JPLEPH_STUB_H
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define JPL_EPHEM_EARTH_MOON_RATIO 32
#define STUB_EMRAT 81.30056
/* 1-9: Mercury to Pluto (3 = Earth-Moon barycentre); 10: the Moon from the Earth.  Position and velocity per day. */
static inline void stub_body(int b, double jd, double *pv) {
   static const double el[10][6] = { /* a, e, i, node, perihelion (argument), mean longitude-like phase at J2000; radians except a */
      {.387098, .205630, .498, .19, 1.17, .70}, {.723332, .006773, .427, .14, 2.15, 2.91}, {1.00000011, .016710, .409093, .001, 1.796, 4.47}, {1.523662, .093412, .431, .058, 5.80, .339},
      {5.203363, .048393, .405, .057, .18, .343}, {9.537070, .054151, .393, .104, 1.47, 5.54}, {19.19126, .047168, .413, .032, 2.96, 2.49}, {30.06896, .008586, .389, .061, .79, 4.47},
      {39.48169, .248808, .411, .76, 3.17, .26}, {.00257, .0549, .45, .1, 5.55, 2.36}};
   const double *q = el[b - 1], k = .01720209895; double n = b == 10 ? 2 * M_PI / 27.321661 : k / (q[0] * sqrt(q[0])), M = q[5] + n * (jd - 2451545.), E = M;
   M = E = fmod(M, 2 * M_PI); for (int j = 0; j < 60; j++) { double d = (E - q[1] * sin(E) - M) / (1 - q[1] * cos(E)); E -= d; if (fabs(d) < 1e-15) break; }
   double s = sqrt(1 - q[1] * q[1]), x = q[0] * (cos(E) - q[1]), y = q[0] * s * sin(E), Ed = n / (1 - q[1] * cos(E)), vx = -q[0] * sin(E) * Ed, vy = q[0] * s * cos(E) * Ed;
   double cw = cos(q[4]), sw = sin(q[4]), cO = cos(q[3]), sO = sin(q[3]), ci = cos(q[2]), si = sin(q[2]);
   double P[3] = {cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si}, Q[3] = {-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si};
   for (int j = 0; j < 3; j++) { pv[j] = x * P[j] + y * Q[j]; pv[j + 3] = vx * P[j] + vy * Q[j]; } }
static inline void *jpl_init_ephemeris(const char *fn, char nam[][6], double *val) { (void)nam; (void)val; FILE *f = fopen(fn, "rb"); if (!f) return NULL; fclose(f); return calloc(1, 16); }
static inline void jpl_close_ephemeris(void *e) { free(e); }
static inline double jpl_get_double(void *e, int k) { (void)e; return k == JPL_EPHEM_EARTH_MOON_RATIO ? STUB_EMRAT : -1; }
static inline int jpl_state(void *e, const double jd, const int list[14], double pv[][6], double nut[4], const int bary) {
   (void)e; (void)nut; if (bary) abort(); for (int i = 0; i < 10; i++) if (list[i]) stub_body(i + 1, jd, pv[i]); return 0; }
/* target and centre as in the JPL code: 1-9 planets, 10 Moon, 11 Sun */
static inline int jpl_pleph(void *e, const double jd, int targ, int cent, double *r, int vel) {
   (void)e; (void)vel; double a[6] = {0}, m[6]; if (cent != 11) abort(); if (targ == 11) { memset(r, 0, 6 * sizeof(double)); return 0; }
   if (targ == 3 || targ == 10) { stub_body(3, jd, a); stub_body(10, jd, m); for (int j = 0; j < 6; j++) r[j] = a[j] + m[j] * (targ == 3 ? -1 / (1 + STUB_EMRAT) : 1 - 1 / (1 + STUB_EMRAT)); }
   else { stub_body(targ, jd, a); for (int j = 0; j < 6; j++) r[j] = a[j]; }
   return 0; }
#endif
