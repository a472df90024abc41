/* Writes a vsop.bin / big_vsop.bin holding a simplified but realistic solar system: Keplerian planets, the leading terms of the Earth's
   series (equinox of date) and the published 60-term lunar theory. */
#ifndef VSOPGEN_H
#define VSOPGEN_H
struct VgT { double a, b, c; };
#include "meeus_moon.h"
struct VgFile { std::vector<char> vsop, big; std::vector<VgT> t; int idx[145]; };
static inline void vg_w(std::vector<char> &b, size_t o, const void *p, size_t n) { memcpy(&b[o], p, n); }
static inline VgFile vg_make() {
   VgFile v; std::vector<VgT> s[144]; const double H = M_PI / 2, D = M_PI / 180;
   static const double el[8][6] = { /* L0 deg, deg per millennium, a, e, i, longitude of perihelion; of date, node below */
      {252.250906, 1494740.721723, .387098310, .20563175, 7.004986, 77.456119}, {181.979801, 585192.130213, .723329820, .00677192, 3.394662, 131.563703}, {0, 0, 0, 0, 0, 0}, {355.433, 191416.96447, 1.523679342, .09340065, 1.849726, 336.060234},
      {34.351519, 30363.027748, 5.202603209, .04849793, 1.303267, 14.331207}, {50.077444, 12235.110686, 9.554909192, .05554814, 2.488879, 93.057237}, {314.055005, 4298.640561, 19.218446062, .04638122, .773197, 173.005291}, {304.348665, 2198.833092, 30.110386869, .00945575, 1.769953, 48.120276}};
   static const double node[8] = {48.330893, 76.67992, 0, 49.558093, 100.464407, 113.665503, 74.005957, 131.784057};
   for (int p = 0; p < 8; p++) {
      std::vector<VgT> *q = s + p * 18;
      if (p == 2) {
         static const VgT L0[] = {{175347046., 0, 0}, {3341656., 4.6692568, 6283.07585}, {34894., 4.6261024, 12566.1517}, {3497., 2.7441, 5753.3849}, {3418., 2.8289, 3.5231}, {3136., 3.6277, 77713.7715}, {2676., 4.4181, 7860.4194}, {2343., 6.1352, 3930.2097}, {1324., .7425, 11506.7698}, {1273., 2.0371, 529.6910}, {1199., 1.1096, 1577.3435}, {990., 5.233, 5884.927}, {902., 2.045, 26.298}, {857., 3.508, 398.149}, {780., 1.179, 5223.694}, {753., 2.533, 5507.553}, {505., 4.583, 18849.228}, {492., 4.205, 775.523}, {357., 2.920, .067}, {317., 5.849, 11790.629}, {284., 1.899, 796.298}, {271., .315, 10977.079}, {243., .345, 5486.778}, {206., 4.806, 2544.314}, {205., 1.869, 5573.143}, {202., 2.458, 6069.777}};
         static const VgT L1[] = {{628331966747., 0, 0}, {206059., 2.678235, 6283.07585}, {4303., 2.6351, 12566.1517}, {425., 1.590, 3.523}}, L2[] = {{52919., 0, 0}, {8720., 1.0721, 6283.0758}, {309., .867, 12566.152}};
         static const VgT B0[] = {{280., 3.199, 84334.662}, {102., 5.422, 5507.553}, {80., 3.88, 5223.69}, {44., 3.70, 2352.87}, {32., 4.00, 1577.34}}, B1[] = {{9., 3.90, 5507.55}, {6., 1.73, 5223.69}};
         static const VgT R0[] = {{100013989., 0, 0}, {1670700., 3.0984635, 6283.07585}, {13956., 3.05525, 12566.1517}, {3084., 5.1985, 77713.7715}, {1628., 1.1739, 5753.3849}, {1576., 2.8469, 7860.4194}, {925., 5.453, 11506.770}, {542., 4.564, 3930.210}, {472., 3.661, 5884.927}}, R1[] = {{103019., 1.10749, 6283.07585}, {1721., 1.0644, 12566.1517}, {702., 3.142, 0}}, R2[] = {{4359., 5.7846, 6283.0758}, {124., 5.579, 12566.152}};
#define VG_SET(k, A) q[k].assign(A, A + sizeof A / sizeof *A)
         VG_SET(0, L0); VG_SET(1, L1); VG_SET(2, L2); VG_SET(6, B0); VG_SET(7, B1); VG_SET(12, R0); VG_SET(13, R1); VG_SET(14, R2);
      } else {
         double e = el[p][3], n = el[p][1] * D, L = el[p][0] * D, w = el[p][5] * D, a = el[p][2], i = el[p][4] * D, m = L - w, u = L - node[p] * D;
         q[0] = {{L * 1e8, 0, 0}, {2e8 * e, m - H, n}, {1.25e8 * e * e, 2 * m - H, 2 * n}, {1e8 * e * e * e * 13 / 12, 3 * m - H, 3 * n}, {-1e8 * i * i / 4, 2 * u - H, 2 * n}};
         q[1] = {{n * 1e8, 0, 0}};
         q[6] = {{i * 1e8, u - H, n}, {i * e * 1e8, u + m - H, 2 * n}, {-i * e * 1e8, u - m - H, 0}};
         q[12] = {{1e8 * a * (1 + e * e / 2), 0, 0}, {-1e8 * a * e, m, n}, {-.5e8 * a * e * e, 2 * m, 2 * n}};
      }
   }
   v.idx[0] = 0;
   for (int k = 0; k < 144; k++) { /* vsop.bin's index holds 38 after the first series, a byte 'x' at entry 10 and 0x93e at entry 134: pad with empty terms */
      int have = v.idx[k] + (int)s[k].size(), want = k == 0 ? 38 : k < 9 ? std::min(have, 120) : k == 9 ? 120 : k == 133 ? 0x93e : have;
      while ((int)v.t.size() < want || !s[k].empty()) { if (!s[k].empty()) { v.t.push_back(s[k][0]); s[k].erase(s[k].begin()); } else v.t.push_back({0, 0, 0}); }
      v.idx[k + 1] = (int)v.t.size();
   }
   v.vsop.assign(60874, 0); v.big.assign(290 + 24 * v.t.size(), 0);
   for (int i = 0; i < 145; i++) { int16_t x = (int16_t)v.idx[i]; vg_w(v.vsop, i * 2, &x, 2); vg_w(v.big, i * 2, &x, 2); }
   for (size_t i = 0; i < v.t.size(); i++) { VgT g = v.t[i]; vg_w(v.vsop, 290 + i * 24, &g, 24); g.a *= 1e-8; vg_w(v.big, 290 + i * 24, &g, 24); }
   for (int i = 0; i < 60; i++) { size_t o = 59354 + i * 12; for (int k = 0; k < 4; k++) v.vsop[o + k] = (char)MEEUS_LON[i][k]; int32_t x = MEEUS_LON[i][4], y = MEEUS_LON[i][5]; vg_w(v.vsop, o + 4, &x, 4); vg_w(v.vsop, o + 8, &y, 4); }
   for (int i = 0; i < 60; i++) { size_t o = 59354 + 720 + i * 8; for (int k = 0; k < 4; k++) v.vsop[o + k] = (char)MEEUS_LAT[i][k]; int32_t x = MEEUS_LAT[i][4]; vg_w(v.vsop, o + 4, &x, 4); }
   for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { double x = MEEUS_FUND[i][j]; vg_w(v.vsop, 59354 + 1200 + (i * 5 + j) * 8, &x, 8); }
   { int32_t x = 0x6ed5a0b1; vg_w(v.vsop, 59354 + 1200, &x, 4); }      /* the low half of the first constant, checked by the reader: far below rounding interest */
   return v;
}
/* independent evaluation: the Moon (degrees, of date, no aberration needed: the theory includes light time) and the Sun */
static inline void vg_moon(double T, double *lon, double *lat) {
   double f[5]; for (int i = 0; i < 5; i++) f[i] = MEEUS_FUND[i][0] + T * (MEEUS_FUND[i][1] + T * (MEEUS_FUND[i][2] + T * (MEEUS_FUND[i][3] + T * MEEUS_FUND[i][4])));
   double E = 1 - .002516 * T - .0000074 * T * T, d = M_PI / 180, sl = 0, sb = 0; double D = f[1] * d, M = f[2] * d, Mp = f[3] * d, F = f[4] * d, L = f[0] * d;
   for (auto &r : MEEUS_LON) sl += r[4] * pow(E, abs(r[1])) * sin(r[0] * D + r[1] * M + r[2] * Mp + r[3] * F);
   for (auto &r : MEEUS_LAT) sb += r[4] * pow(E, abs(r[1])) * sin(r[0] * D + r[1] * M + r[2] * Mp + r[3] * F);
   double A1 = (119.75 + 131.849 * T) * d, A2 = (53.09 + 479264.29 * T) * d, A3 = (313.45 + 481266.484 * T) * d;
   sl += 3958 * sin(A1) + 1962 * sin(L - F) + 318 * sin(A2);
   sb += -2235 * sin(L) + 382 * sin(A3) + 175 * sin(A1 - F) + 175 * sin(A1 + F) + 127 * sin(L - Mp) - 115 * sin(L + Mp);
   *lon = f[0] + sl * 1e-6; *lat = sb * 1e-6;
}
/* Meeus, chapter 25: true geometric longitude of date (degrees) and distance */
static inline double vg_sun(double T, double *R) {
   double d = M_PI / 180, L = 280.46646 + T * (36000.76983 + .0003032 * T), M = (357.52911 + T * (35999.05029 - .0001537 * T)) * d, e = .016708634 - T * (.000042037 + .0000001267 * T);
   double C = (1.914602 - T * (.004817 + .000014 * T)) * sin(M) + (.019993 - .000101 * T) * sin(2 * M) + .000289 * sin(3 * M);
   if (R) *R = 1.000001018 * (1 - e * e) / (1 + e * cos(M + C * d));
   return L + C;
}
#endif
