/* P25: the planetary and lunar series evaluators against a long double evaluation of the documented series, over generated data files
   (and, for the Moon, over the published table). */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include <malloc.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace vh;
typedef long double LD;
static const LD PIL = 3.141592653589793238462643383279502884L;
static std::string W(const char *n) { return workdir + "/" + n; }
static bool slow = false;
static long heap_now() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
/* a leak grows with every batch of identical calls (the allocator's own caches make the figure waver) */
template <class F> static void no_leak(const char *key, F f) { for (int i = 0; i < 10; i++) f(); long g = 0; for (int k = 0; k < 6; k++) { long h = heap_now(); for (int i = 0; i < 8; i++) f(); g = heap_now() - h; if (g <= 0) break; } count("leak_checks"); if (g > 0) bad(key, "every eight identical calls keep %ld bytes", g); }
static void put16(std::vector<char> &b, size_t o, int v) { b[o] = (char)v; b[o + 1] = (char)(v >> 8); }
static void put32(std::vector<char> &b, size_t o, int32_t v) { memcpy(&b[o], &v, 4); }
static void putd(std::vector<char> &b, size_t o, double v) { memcpy(&b[o], &v, 8); }
static void save(const std::string &p, const std::vector<char> &b, size_t n) { FILE *f = fopen(p.c_str(), "wb"); if (f) { if (n) (void)!fwrite(&b[0], 1, n, f); fclose(f); } }
/* ------------------------------------------------------------------ vsop.bin */
struct T3 { double a, b, c; };
struct Lun { int m[4]; int sl, sr; };
struct Vsop { std::vector<char> raw; int idx[145]; std::vector<T3> t; Lun lon[60], lat[60]; double fund[5][5]; int plong[42]; int ps[36][9]; };
static const int MEEUS_LON[60][6] = {{0,0,1,0,6288774,-20905355},{2,0,-1,0,1274027,-3699111},{2,0,0,0,658314,-2955968},{0,0,2,0,213618,-569925},{0,1,0,0,-185116,48888},{0,0,0,2,-114332,-3149},
{2,0,-2,0,58793,246158},{2,-1,-1,0,57066,-152138},{2,0,1,0,53322,-170733},{2,-1,0,0,45758,-204586},{0,1,-1,0,-40923,-129620},{1,0,0,0,-34720,108743},{0,1,1,0,-30383,104755},{2,0,0,-2,15327,10321},
{0,0,1,2,-12528,0},{0,0,1,-2,10980,79661},{4,0,-1,0,10675,-34782},{0,0,3,0,10034,-23210},{4,0,-2,0,8548,-21636},{2,1,-1,0,-7888,24208},{2,1,0,0,-6766,30824},{1,0,-1,0,-5163,-8379},{1,1,0,0,4987,-16675},
{2,-1,1,0,4036,-12831},{2,0,2,0,3994,-10445},{4,0,0,0,3861,-11650},{2,0,-3,0,3665,14403},{0,1,-2,0,-2689,-7003},{2,0,-1,2,-2602,0},{2,-1,-2,0,2390,10056},{1,0,1,0,-2348,6322},{2,-2,0,0,2236,-9884},
{0,1,2,0,-2120,5751},{0,2,0,0,-2069,0},{2,-2,-1,0,2048,-4950},{2,0,1,-2,-1773,4130},{2,0,0,2,-1595,0},{4,-1,-1,0,1215,-3958},{0,0,2,2,-1110,0},{3,0,-1,0,-892,3258},{2,1,1,0,-810,2616},{4,-1,-2,0,759,-1897},
{0,2,-1,0,-713,-2117},{2,2,-1,0,-700,2354},{2,1,-2,0,691,0},{2,-1,0,-2,596,0},{4,0,1,0,549,-1423},{0,0,4,0,537,-1117},{4,-1,0,0,520,-1571},{1,0,-2,0,-487,-1739},{2,1,0,-2,-399,0},{0,0,2,-2,-381,-4421},
{1,1,1,0,351,0},{3,0,-2,0,-340,0},{4,0,-3,0,330,0},{2,-1,2,0,327,0},{0,2,1,0,-323,1165},{1,1,-1,0,299,0},{2,0,3,0,294,0},{2,0,-1,-2,0,8752}};
static const int MEEUS_LAT[60][5] = {{0,0,0,1,5128122},{0,0,1,1,280602},{0,0,1,-1,277693},{2,0,0,-1,173237},{2,0,-1,1,55413},{2,0,-1,-1,46271},{2,0,0,1,32573},{0,0,2,1,17198},{2,0,1,-1,9266},{0,0,2,-1,8822},{2,-1,0,-1,8216},
{2,0,-2,-1,4324},{2,0,1,1,4200},{2,1,0,-1,-3359},{2,-1,-1,1,2463},{2,-1,0,1,2211},{2,-1,-1,-1,2065},{0,1,-1,-1,-1870},{4,0,-1,-1,1828},{0,1,0,1,-1794},{0,0,0,3,-1749},{0,1,-1,1,-1565},{1,0,0,1,-1491},{0,1,1,1,-1475},
{0,1,1,-1,-1410},{0,1,0,-1,-1344},{1,0,0,-1,-1335},{0,0,3,1,1107},{4,0,0,-1,1021},{4,0,-1,1,833},{0,0,1,-3,777},{4,0,-2,1,671},{2,0,0,-3,607},{2,0,2,-1,596},{2,-1,1,-1,491},{2,0,-2,1,-451},{0,0,3,-1,439},{2,0,2,1,422},
{2,0,-3,-1,421},{2,1,-1,1,-366},{2,1,0,1,-351},{4,0,0,1,331},{2,-1,1,1,315},{2,-2,0,-1,302},{0,0,1,3,-283},{2,1,1,-1,-229},{1,1,0,-1,223},{1,1,0,1,223},{0,1,-2,-1,-220},{2,1,-1,-1,-220},{1,0,1,1,-185},{2,-1,-2,-1,181},
{0,1,2,1,-177},{4,0,-2,-1,176},{4,-1,-1,-1,166},{1,0,1,-1,-164},{4,0,1,-1,132},{1,0,-1,-1,-119},{4,-1,0,-1,115},{2,-2,0,1,107}};
static const double MEEUS_FUND[5][5] = {{218.3164591,481267.88134236,-.0013268,1/538841.,-1/65194000.},{297.8502042,445267.1115168,-.00163,1/545868.,-1/113065000.},{357.5291092,35999.0502909,-.0001536,1/24490000.,0},
{134.9634114,477198.8676313,.008997,1/69699.,-1/14712000.},{93.2720993,483202.0175273,-.0034029,-1/3526000.,1/863310000.}};
static void emit(Vsop &v) {
   v.raw.assign(60874, 0);
   for (int i = 0; i < 145; i++) put16(v.raw, i * 2, v.idx[i]);
   for (size_t i = 0; i < v.t.size(); i++) { putd(v.raw, 290 + i * 24, v.t[i].a); putd(v.raw, 298 + i * 24, v.t[i].b); putd(v.raw, 306 + i * 24, v.t[i].c); }
   for (int i = 0; i < 42; i++) put32(v.raw, 58610 + i * 4, v.plong[i]);
   for (int i = 0; i < 36; i++) { size_t o = 58610 + 168 + i * 16; for (int k = 0; k < 3; k++) v.raw[o + k] = (char)v.ps[i][k]; v.raw[o + 3] = (char)rng.below(256); for (int k = 0; k < 6; k++) put16(v.raw, o + 4 + k * 2, v.ps[i][3 + k]); }
   for (int i = 0; i < 60; i++) { size_t o = 59354 + i * 12; for (int k = 0; k < 4; k++) v.raw[o + k] = (char)v.lon[i].m[k]; put32(v.raw, o + 4, v.lon[i].sl); put32(v.raw, o + 8, v.lon[i].sr); }
   for (int i = 0; i < 60; i++) { size_t o = 59354 + 720 + i * 8; for (int k = 0; k < 4; k++) v.raw[o + k] = (char)v.lat[i].m[k]; put32(v.raw, o + 4, v.lat[i].sl); }
   for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) putd(v.raw, 59354 + 1200 + (i * 5 + j) * 8, v.fund[i][j]);
}
static void fill_terms(std::vector<T3> &t, const int *idx, double unit) {
   t.resize(idx[144]);
   for (int s = 0; s < 144; s++) {
      double big = unit * (s % 18 < 6 ? 6 : s % 18 < 12 ? .1 : 30) * exp(-(s % 6) * rng.uni(0, 3));
      for (int k = idx[s]; k < idx[s + 1]; k++) {
         T3 &x = t[k]; double r = rng.uni();
         x.a = big * exp(-rng.uni(0, 18)) * (rng.chance(.5) ? 1 : -1); x.b = rng.uni(-7, 7); x.c = r < .15 ? 0 : r < .3 ? rng.uni(-1, 1) : rng.uni(-3e4, 3e5);
         if (rng.chance(.02)) x.a = 0;
         if (k == idx[s] && s % 18 == 1 && rng.chance(.8)) { x.a = unit * rng.uni(100, 27000); x.b = x.c = 0; }
      }
      if (rng.chance(.6)) std::sort(t.begin() + idx[s], t.begin() + idx[s + 1], [](const T3 &p, const T3 &q) { return fabs(p.a) > fabs(q.a); });
   }
}
static Vsop gen_vsop(bool real_moon) {
   Vsop v;
   std::vector<int> c; for (int i = 0; i < 142; i++) { double p = rng.uni(); c.push_back(p < .1 ? 38 : p < .15 ? 2366 : (int)(38 + rng.below(2329))); }
   std::sort(c.begin(), c.end());
   v.idx[0] = 0; v.idx[1] = 38; for (int i = 2; i < 145; i++) v.idx[i] = c[i - 2 < 142 ? i - 2 : 141];
   v.idx[144] = v.idx[143] + 0;
   { /* the bytes a reader may test for: entry 10 ends in 'x', entry 134 is 0x93e */
      int x = (rng.chance(.5) ? 120 : 376); for (int i = 2; i < 10; i++) v.idx[i] = std::min(v.idx[i], x); v.idx[10] = x; for (int i = 11; i < 145; i++) v.idx[i] = std::max(v.idx[i], x);
      v.idx[134] = 0x93e; for (int i = 135; i < 145; i++) v.idx[i] = 0x93e + (int)rng.below(0x40); std::sort(v.idx + 135, v.idx + 145); if (rng.chance(.5)) v.idx[144] = 0x97e; }
   fill_terms(v.t, v.idx, 1e8);
   for (int &x : v.plong) x = (int)rng.range(-70000000, 70000000) >> rng.below(12);
   for (auto &r : v.ps) { r[0] = (int)rng.range(0, 3); r[1] = (int)rng.range(-2, 2); r[2] = (int)rng.range(-6, 6); for (int k = 3; k < 9; k++) r[k] = (int)rng.range(-32768, 32767) >> rng.below(14); }
   for (int i = 0; i < 60; i++) { for (int k = 0; k < 4; k++) { v.lon[i].m[k] = (int)rng.range(k == 1 ? -3 : -4, k == 1 ? 3 : 4); v.lat[i].m[k] = (int)rng.range(-4, 4); }
      v.lon[i].sl = (int)rng.range(-7000000, 7000000) >> rng.below(20); v.lon[i].sr = (int)rng.range(-21000000, 21000000) >> rng.below(20); v.lat[i].sl = (int)rng.range(-6000000, 6000000) >> rng.below(18);
      if (rng.chance(.15)) v.lon[i].sl = 0;
      if (rng.chance(.15)) v.lon[i].sr = 0; }
   for (int k = 0; k < 4; k++) { v.lon[0].m[k] = k == 2; v.lat[0].m[k] = k == 3; }
   v.lon[46].sr = (v.lon[46].sr & ~0xff) | 'q';
   for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) v.fund[i][j] = MEEUS_FUND[i][j] * (j ? rng.uni(.9, 1.1) : rng.uni(0, 3));
   if (real_moon) {
      for (int i = 0; i < 60; i++) { for (int k = 0; k < 4; k++) { v.lon[i].m[k] = MEEUS_LON[i][k]; v.lat[i].m[k] = MEEUS_LAT[i][k]; } v.lon[i].sl = MEEUS_LON[i][4]; v.lon[i].sr = MEEUS_LON[i][5]; v.lat[i].sl = MEEUS_LAT[i][4]; }
      memcpy(v.fund, MEEUS_FUND, sizeof v.fund);
   }
   { uint64_t u; memcpy(&u, &v.fund[0][0], 8); u = (u & ~0xffffffffull) | 0x6ed5a0b1u; memcpy(&v.fund[0][0], &u, 8); }
   emit(v); return v;
}
/* sum of one coordinate; *slack = rounding allowance, *drop = what a threshold may leave out */
static LD poisson(const std::vector<T3> &t, const int *idx, LD tm, LD prec, LD unit, LD *slack, LD *drop) {
   LD r = 0, pw = 1; *slack = *drop = 0; prec = fabsl(prec);
   for (int k = 0; k < 6; k++) {
      LD s = 0, sl = 0, dr = 0;
      for (int i = idx[k]; i < idx[k + 1]; i++) { LD arg = t[i].b + (LD)t[i].c * tm; s += t[i].a * cosl(arg); sl += fabsl((LD)t[i].a) * ((fabsl((LD)t[i].b) + fabsl((LD)t[i].c * tm)) * 4e-16L + 4e-16L * (1 + 0.05L * (idx[k + 1] - idx[k]))); if (fabsl((LD)t[i].a) <= prec * (1 + 1e-9L)) dr += fabsl((LD)t[i].a); }
      r += s * pw; *slack += (sl + 1e-15L * fabsl(s)) * fabsl(pw); *drop += dr * fabsl(pw); pw *= tm; if (tm != 0) prec /= fabsl(tm);
   }
   *slack = 3 * *slack * unit + 3e-15L * fabsl(r * unit); *drop *= unit; return r * unit;
}
static LD wrapd(LD a, LD b, LD full) { LD d = fmodl(fabsl(a - b), full); return fminl(d, full - d); }
static LD mx[8];
static double rand_t() { double r = rng.uni(); return r < .08 ? 0 : r < .55 ? rng.uni(-1.5, 1.5) : r < .9 ? rng.uni(-40, 20) : rng.uni(-1e-7, 1e-7); }
static void one_vsop(const Vsop &v, const char *data) {
   int pl = (int)rng.range(1, 8), val = (int)rng.below(3); double t = rand_t(), prec = 0;
   if (rng.chance(.4)) prec = rng.logu(.1, 1e7) * (rng.chance(.2) ? -1 : 1);
   cur("vsop planet %d value %d t=%.17g precision %.17g", pl, val, t, prec);
   double r = calc_vsop_loc(data, pl, val, t, prec);
   LD sl, dr, e = poisson(v.t, v.idx + (pl - 1) * 18 + val * 6, (LD)(t / 10), prec, 1e-8L, &sl, &dr);
   if (prec == 0) dr = 0;
   LD d = val ? fabsl(r - e) : wrapd(r, e, 2 * PIL);
   if (!(d <= sl + dr + 1e-15L)) bad("vsop", "%.17g instead of %.17Lg (off by %.3Lg, allowed %.3Lg + %.3Lg)", r, e, d, sl, dr);
   if (prec == 0 && sl > 0) mx[0] = std::max(mx[0], d / (sl + 1e-15L));
   if (!val && !(r >= 0 && r < 2 * M_PI + 1e-12)) bad("vsop-range", "longitude %.17g not in 0..2 pi", r);
   if (calc_vsop_loc(data, 0, val, t, prec) != 0.) bad("vsop-sun", "the Sun is not at the origin");
   count(prec == 0 ? "vsop_full" : dr > 10 * sl ? "vsop_truncated" : "vsop_prec_nodrop"); seen(mix(hdbl(r), pl * 3 + val));
}
static void one_pluto(const Vsop &v, const char *data) {
   double t = rand_t(), loc[4] = {9, 9, 9, 9}; long prec = rng.chance(.6) ? 0 : rng.range(1, 33000);
   cur("pluto t=%.17g precision %ld", t, prec);
   int rv = calc_pluto_loc(data, loc, t, prec);
   LD j = (34.35L + 3034.9057L * t) * PIL / 180, s = (50.08L + 1222.1138L * t) * PIL / 180, p = (238.96L + 144.96L * t) * PIL / 180;
   LD e[3] = {238.956785L + 144.96L * t, -3.908202L, 407.247248L}, sl[3] = {2e-13L + fabsl(144.96L * t) * 4e-16L, 0, 1e-13L}, dr[3] = {0, 0, 0};
   for (int i = 0; i < 7; i++) { LD a = i == 6 ? j - p : (i + 1) * p; for (int k = 0; k < 3; k++) { LD S = v.plong[i * 6 + k * 2] * 1e-6L, C = v.plong[i * 6 + k * 2 + 1] * 1e-6L; e[k] += S * sinl(a) + C * cosl(a); sl[k] += (fabsl(S) + fabsl(C)) * ((fabsl(j) + 7 * fabsl(p)) * 4e-16L + 1e-15L); } }
   bool left = false;
   for (int i = 0; i < 36; i++) {
      LD a = v.ps[i][0] * j + v.ps[i][1] * s + v.ps[i][2] * p; bool small = true; for (int k = 3; k < 9; k++) if (labs(v.ps[i][k]) > prec) small = false;
      for (int k = 0; k < 3; k++) { LD S = v.ps[i][3 + k * 2] * 1e-6L, C = v.ps[i][4 + k * 2] * 1e-6L; e[k] += S * sinl(a) + C * cosl(a); sl[k] += (fabsl(S) + fabsl(C)) * ((3 * fabsl(j) + 2 * fabsl(s) + 6 * fabsl(p)) * 4e-16L + 1e-15L); if (small) { dr[k] += fabsl(S) + fabsl(C); if (prec) left = true; } }
   }
   LD sc[3] = {PIL / 180, PIL / 180, .1L};
   for (int k = 0; k < 3; k++) { LD d = fabsl(loc[k] - e[k] * sc[k]), lim = (3 * sl[k] + (prec ? dr[k] : 0)) * sc[k] + 1e-15L; if (k == 0) d = wrapd(loc[0], e[0] * sc[0], 2 * PIL); if (!(d <= lim)) bad("pluto", "coordinate %d is %.17g instead of %.17Lg (allowed %.3Lg)", k, loc[k], e[k] * sc[k], lim); if (!prec) mx[1] = std::max(mx[1], d / lim); }
   if (rv || loc[3] != 9) bad("pluto-ret", "returned %d or wrote beyond three values", rv);
   count(!prec ? "pluto_full" : left ? "pluto_truncated" : "pluto_prec_nodrop"); seen(mix(hdbl(loc[0]), prec));
}
struct MoonRef { LD lon, lat, r, slon, slat, sr, dlon, dlat, dr; LD fund[9]; };
static MoonRef moon_ref(const Vsop &v, double td, long prec) {
   MoonRef m; LD t = td, f[9], sf[5], e = 1 - .002516L * t - .0000074L * t * t;
   for (int i = 0; i < 5; i++) { LD p = 1, ab = 0; f[i] = 0; for (int j = 0; j < 5; j++) { f[i] += p * v.fund[i][j]; ab += fabsl(p * v.fund[i][j]); p *= t; } f[i] *= PIL / 180; sf[i] = (ab * 5e-16L + 4e-13L) * PIL / 180; }
   f[5] = (119.75L + 131.849L * t) * PIL / 180; f[6] = (53.09L + 479264.29L * t) * PIL / 180; f[7] = (313.45L + 481266.484L * t) * PIL / 180; f[8] = t; memcpy(m.fund, f, sizeof f);
   LD sA = (fabsl(t) * 5e5L * 4e-16L + 4e-13L) * PIL / 180;
   m.lon = f[0] * 180 / PIL; m.lat = 0; m.r = 385000.56L; m.slon = sf[0] * 180 / PIL + 1e-12L; m.slat = 1e-13L; m.sr = 1e-9L; m.dlon = m.dlat = m.dr = 0;
   for (auto &q : v.lon) { LD a = 0, sa = 2e-14L; for (int k = 0; k < 4; k++) { a += q.m[k] * f[k + 1]; sa += abs(q.m[k]) * (sf[k + 1] + 1e-14L); } LD w = powl(e, abs(q.m[1])); LD aw = fabsl(w);
      m.lon += q.sl * w * sinl(a) * 1e-6L; m.r += q.sr * w * cosl(a) / 1000; m.slon += abs(q.sl) * aw * (sa + 2e-15L) * 1e-6L; m.sr += abs(q.sr) * aw * (sa + 2e-15L) / 1000;
      if (labs(q.sl) <= prec && labs(q.sr) <= prec) { m.dlon += abs(q.sl) * aw * 1e-6L; m.dr += abs(q.sr) * aw / 1000; } }
   for (auto &q : v.lat) { LD a = 0, sa = 2e-14L; for (int k = 0; k < 4; k++) { a += q.m[k] * f[k + 1]; sa += abs(q.m[k]) * (sf[k + 1] + 1e-14L); } LD w = powl(e, abs(q.m[1])); m.lat += q.sl * w * sinl(a) * 1e-6L; m.slat += abs(q.sl) * fabsl(w) * (sa + 2e-15L) * 1e-6L; if (labs(q.sl) <= prec) m.dlat += abs(q.sl) * fabsl(w) * 1e-6L; }
   m.lon += (3958 * sinl(f[5]) + 1962 * sinl(f[0] - f[4]) + 318 * sinl(f[6])) * 1e-6L; m.slon += 6300e-6L * (sA + sf[0] + sf[4]);
   m.lat += (-2235 * sinl(f[0]) + 382 * sinl(f[7]) + 175 * sinl(f[5] - f[4]) + 175 * sinl(f[5] + f[4]) + 127 * sinl(f[0] - f[3]) - 115 * sinl(f[0] + f[3])) * 1e-6L; m.slat += 3300e-6L * (sA + sf[0] + sf[3] + sf[4]);
   if (prec > 0) { if (prec >= 318) m.dlon += 6238e-6L; if (prec >= 115) m.dlat += 3209e-6L; }      /* the additional terms count as terms, too */
   m.slon *= 3; m.slat *= 3; m.sr *= 3;
   if (prec <= 0) m.dlon = m.dlat = m.dr = 0;
   return m;
}
static void one_moon(const Vsop &v, const char *data) {
   double t = rand_t(), fund[N_FUND + 1]; long prec = rng.chance(.6) ? 0 : (long)rng.logu(1, 1e7);
   fund[N_FUND] = 77; cur("moon t=%.17g precision %ld", t, prec);
   lunar_fundamentals(data, t, fund);
   double lon = 99, r = 99, lat = lunar_lat(data, fund, prec); lunar_lon_and_dist(data, fund, &lon, &r, prec);
   MoonRef m = moon_ref(v, t, prec);
   for (int i = 0; i < 8; i++) { LD d = wrapd(fund[i], m.fund[i], 2 * PIL); if (!(d <= 1e-13L + fabsl(m.fund[i]) * 2e-15L) || !(fund[i] >= 0 && fund[i] <= 2 * M_PI)) bad("moon-fund", "argument %d is %.17g instead of %.17Lg modulo 2 pi", i, fund[i], m.fund[i]); }
   if (fund[N_FUND] != 77) bad("moon-over", "wrote past the arguments");
   LD a = wrapd(lon, m.lon, 360), b = fabsl(lat - m.lat), c = fabsl(r - m.r);
   if (!(a <= m.slon + m.dlon)) bad("moon-lon", "longitude %.17g instead of %.17Lg (off %.3Lg, allowed %.3Lg + %.3Lg)", lon, m.lon, a, m.slon, m.dlon);
   if (!(b <= m.slat + m.dlat)) bad("moon-lat", "latitude %.17g instead of %.17Lg (off %.3Lg, allowed %.3Lg + %.3Lg)", lat, m.lat, b, m.slat, m.dlat);
   if (!(c <= m.sr + m.dr)) bad("moon-dist", "distance %.17g instead of %.17Lg (off %.3Lg, allowed %.3Lg + %.3Lg)", r, m.r, c, m.sr, m.dr);
   if (!(lon >= 0 && lon <= 360)) bad("moon-range", "longitude %.17g not in 0..360", lon);
   if (prec <= 0) mx[2] = std::max(mx[2], std::max(a / m.slon, std::max(b / m.slat, c / m.sr)));
   count(prec <= 0 ? "moon_full" : "moon_truncated"); seen(mix(hdbl(lon), hdbl(r)));
}
/* the published example: 1992 April 12, 0 TD */
static void published_moon(const char *data) {
   double fund[N_FUND], lon, r; cur("published lunar example"); seen(1); lunar_fundamentals(data, -.077221081451, fund); lunar_lon_and_dist(data, fund, &lon, &r, 0); double lat = lunar_lat(data, fund, 0);
   if (!(fabs(lon - 133.162655) < 1.2e-5) || !(fabs(lat + 3.229126) < 2e-6) || !(fabs(r - 368409.7) < .06)) bad("moon-published", "%.7f %.7f %.3f instead of 133.162655 -3.229126 368409.7", lon, lat, r);
   count("moon_published"); if (counters["moon_published"] == 1) sample("1992 Apr 12: lon %.6f lat %.6f dist %.1f", lon, lat, r);
}
/* ------------------------------------------------------------------ five coordinate systems */
static void rotx(const LD *a, LD ang, LD *o) { LD c = cosl(ang), s = sinl(ang); LD y = a[1] * c - a[2] * s, z = a[1] * s + a[2] * c; o[0] = a[0]; o[1] = y; o[2] = z; }
static void one_planet(const Vsop &, const char *data) {
   int pl = (int)rng.range(0, 10); double t = rand_t(), o[16]; if (fabs(t) > 20) t /= 4;
   for (double &x : o) x = 55;
   cur("compute_planet %d t=%.17g", pl, t); int rv = compute_planet(data, pl, t, o);
   if (rv || o[15] != 55) bad("planet-ret", "returned %d or wrote past fifteen values", rv);
   double lon, lat, r, m[9]; LD ob = mean_obliquity(t), e0 = 23.4392911L * PIL / 180;
   setup_precession(m, 2000. + t * 100., 2000.);
   if (pl == 9) {
      double loc[3]; calc_pluto_loc(data, loc, t, 0); LD x[3] = {cosl(loc[0]) * cosl(loc[1]) * loc[2], sinl(loc[0]) * cosl(loc[1]) * loc[2], sinl((LD)loc[1]) * loc[2]}, d = 0;
      for (int i = 0; i < 3; i++) d = std::max(d, fabsl(x[i] - o[12 + i])); if (!(d <= 1e-14L * (1 + fabsl(loc[2])))) bad("planet-pluto", "J2000 ecliptic position is off by %.3Lg AU from the series of Pluto", d);
      lon = o[0]; lat = o[1]; r = o[2]; if (!(fabs(r - fabs(loc[2])) <= 1e-13 * (1 + fabs(r)))) bad("planet-pluto-r", "distance %.17g instead of %.17g", r, loc[2]);
   } else if (pl == 10) { double f[N_FUND]; lunar_fundamentals(data, t, f); lat = lunar_lat(data, f, 0) * M_PI / 180; lunar_lon_and_dist(data, f, &lon, &r, 0); lon *= M_PI / 180; r /= 149597870.7; }
   else { lon = calc_vsop_loc(data, pl, 0, t, 0); lat = calc_vsop_loc(data, pl, 1, t, 0); r = calc_vsop_loc(data, pl, 2, t, 0); }
   if (!(wrapd(o[0], lon, 2 * PIL) <= 1e-14L) || !(fabsl((LD)o[1] - lat) <= 1e-14L * (1 + fabs(lat))) || !(fabsl((LD)o[2] - r) <= 2e-15L * (1 + fabs(r)))) bad("planet-polar", "polar position %.17g %.17g %.17g, the series give %.17g %.17g %.17g", o[0], o[1], o[2], lon, lat, r);
   LD a[3] = {cosl(lon) * cosl(lat) * r, sinl(lon) * cosl(lat) * r, sinl((LD)lat) * r}, b[3], c[3], d[3]; rotx(a, ob, b);
   for (int i = 0; i < 3; i++) c[i] = m[i * 3] * b[0] + m[i * 3 + 1] * b[1] + m[i * 3 + 2] * b[2];
   rotx(c, -e0, d); LD worst = 0; const LD *ref[4] = {a, b, c, d};
   for (int s = 0; s < 4; s++) for (int i = 0; i < 3; i++) { LD q = fabsl(ref[s][i] - o[3 + s * 3 + i]); if (!(q <= worst)) worst = q; }
   if (!(worst <= 2e-14L * (1 + fabsl(r)))) bad("planet-systems", "the five positions differ by %.3Lg AU (planet %d)", worst, pl);
   mx[3] = std::max(mx[3], worst / (2e-14L * (1 + fabsl(r)))); count(pl == 9 ? "planet_pluto" : pl == 10 ? "planet_moon" : pl ? "planet_vsop" : "planet_sun"); seen(mix(hdbl(o[12]), pl));
}
/* ------------------------------------------------------------------ big_vsop.bin */
struct Big { std::vector<char> raw; int idx[145]; std::vector<T3> t; std::string path; };
static Big gen_big(int which) {
   Big b; int n = 0; b.idx[0] = 0; for (int i = 0; i < 144; i++) { n += rng.chance(.1) ? 0 : (int)rng.below(i % 6 < 2 ? 60 : 15); b.idx[i + 1] = n; }
   fill_terms(b.t, b.idx, 1.); b.raw.assign(290 + 24 * b.t.size(), 0);
   for (int i = 0; i < 145; i++) put16(b.raw, i * 2, b.idx[i]);
   for (size_t i = 0; i < b.t.size(); i++) { putd(b.raw, 290 + i * 24, b.t[i].a); putd(b.raw, 298 + i * 24, b.t[i].b); putd(b.raw, 306 + i * 24, b.t[i].c); }
   char nm[30]; snprintf(nm, sizeof nm, "big%d.bin", which); b.path = W(nm); save(b.path, b.raw, b.raw.size()); return b;
}
static void one_big(const Big &b, FILE *f, int pl, const char *how) {
   double t = rand_t(), prec = 0, o[4] = {9, 9, 9, 9}; if (rng.chance(.4)) prec = rng.logu(1e-9, .1) * (rng.chance(.2) ? -1 : 1);
   cur("big vsop planet %d t=%.17g precision %.17g (%s, file %s)", pl, t, prec, how, b.path.c_str());
   int rv = calc_big_vsop_loc(f, pl, o, t, prec);
   if (rv || o[3] != 9) { bad("big-ret", "returned %d or wrote beyond three values", rv); return; }
   for (int val = 0; val < 3 && pl; val++) {
      LD sl, dr, e = poisson(b.t, b.idx + (pl - 1) * 18 + val * 6, (LD)(t / 10), prec, 1, &sl, &dr); if (prec == 0) dr = 0;
      LD d = val ? fabsl(o[val] - e) : wrapd(o[val], e, 2 * PIL); if (!(d <= sl + dr + 1e-15L)) bad("big", "coordinate %d is %.17g instead of %.17Lg (allowed %.3Lg + %.3Lg)", val, o[val], e, sl, dr);
      if (prec == 0) mx[4] = std::max(mx[4], d / (sl + 1e-15L));
   }
   if (!(o[0] >= 0 && o[0] < 2 * M_PI + 1e-12)) bad("big-range", "longitude %.17g not in 0..2 pi", o[0]);
   if (!pl && (o[0] != 0 || o[1] != 0 || o[2] != 0)) bad("big-sun", "the Sun is not at the origin");
   count(how); seen(mix(hdbl(o[0]), hdbl(o[2])));
}
static void big_history(long n) {
   Big b[2] = {gen_big(0), gen_big(1)}; FILE *f[2] = {fopen(b[0].path.c_str(), "rb"), fopen(b[1].path.c_str(), "rb")};
   char cwd[2000]; if (!getcwd(cwd, sizeof cwd) || chdir(workdir.c_str())) return;
   unlink("big_vsop.bin"); int pl = 1;
   { double o[3]; int fds = open_fds(); cur("big vsop, no file"); if (calc_big_vsop_loc(NULL, 3, o, .1, 0) != -1) bad("big-missing", "no error for a missing file"); if (open_fds() != fds) bad("big-fd", "file left open"); }
   for (long i = 0; i < n; i++) {
      if (rng.chance(.5)) pl = (int)rng.range(0, 8);
      double r = rng.uni(); int w = (int)rng.below(2);
      if (r < .6) one_big(b[w], f[w], pl, "big_given");
      else if (r < .8) { save("big_vsop.bin", b[w].raw, b[w].raw.size()); int fds = open_fds(); one_big(b[w], NULL, pl, "big_own_file"); if (open_fds() != fds) bad("big-fd", "file left open"); }
      else { /* a file cut short: an error, nothing left open, and the next answers unharmed */
         int p = pl ? pl : 4; size_t need_ = 290 + 24 * (size_t)b[w].idx[p * 18], cut = rng.chance(.3) ? rng.below((p - 1) * 36 + 38) : rng.below(need_); bool must = cut < need_ && b[w].idx[(p - 1) * 18] < b[w].idx[p * 18];
         if (cut < (size_t)(p - 1) * 36 + 38) must = true;
         save("big_vsop.bin", b[w].raw, cut); double o[3]; int fds = open_fds(); FILE *g = rng.chance(.5) ? fopen("big_vsop.bin", "rb") : NULL; bool own = !g;
         cur("big vsop planet %d, file cut to %zu of %zu bytes", p, cut, b[w].raw.size()); int rv = calc_big_vsop_loc(g, p, o, .3, 0); if (g) fclose(g);
         if (must && !rv) bad("big-short", "no error for a file cut short"); if (open_fds() != fds) bad("big-fd", "file left open after an error (%s)", own ? "own" : "given");
         count("big_cut");
      }
   }
   fclose(f[0]); fclose(f[1]); unlink("big_vsop.bin"); if (chdir(cwd)) _exit(3);
}
/* ------------------------------------------------------------------ ps_1996.dat */
struct PsBlock { double sec[12]; std::vector<std::array<double, 6>> t; };
struct PsPlanet { double tzero, dt; int nf[3], nb, tot; std::vector<double> fq; std::vector<PsBlock> blk; };
struct Ps { std::vector<PsPlanet> p; std::vector<char> raw; std::vector<size_t> endpos, start; };
static void app(std::vector<char> &b, const void *p, size_t n) { b.insert(b.end(), (const char *)p, (const char *)p + n); }
static Ps gen_ps() {
   Ps s; s.raw.assign(40, 0);
   for (int pl = 0; pl < 10; pl++) {
      PsPlanet p; p.tzero = 2415020.5 + (double)rng.range(-20000, 20000) + (rng.chance(.3) ? rng.uni() : 0); p.dt = rng.chance(.5) ? 7305. : rng.uni(200, 20000); p.nb = (int)rng.range(1, rng.chance(.1) ? 30 : 10);
      p.tot = 0; for (int &n : p.nf) { n = rng.chance(.1) ? 0 : (int)rng.range(0, 45); p.tot += n; } if (!p.tot) { p.nf[0] = 1; p.tot = 1; }
      for (int i = 0; i < p.tot; i++) p.fq.push_back(rng.chance(.1) ? 0 : rng.chance(.5) ? rng.uni(-.01, .2) : rng.uni(0, 1.5));
      s.start.push_back(s.raw.size()); put32(s.raw, pl * 4, (int32_t)s.raw.size());
      app(s.raw, &p.tzero, 8); app(s.raw, &p.dt, 8); for (int n : p.nf) { int16_t x = (int16_t)n; app(s.raw, &x, 2); } int16_t x = (int16_t)p.nb; app(s.raw, &x, 2); x = (int16_t)p.tot; app(s.raw, &x, 2);
      app(s.raw, &p.fq[0], 8 * p.tot);
      std::vector<std::vector<char>> body;
      for (int k = 0; k < p.nb; k++) {
         PsBlock b; std::vector<char> o; for (double &q : b.sec) q = rng.uni(-3e11, 3e11) * exp(-rng.uni(0, 12)); app(o, b.sec, 96);
         for (int i = 0; i < p.tot; i++) {
            std::array<double, 6> a; uint16_t fl = 0; std::vector<char> d;
            for (int j = 0; j < 6; j++) {
               int kind = (int)rng.below(4); fl |= kind << (j * 2);
               if (kind == 0) { signed char c = (signed char)rng.range(-128, 127); a[j] = c; app(d, &c, 1); }
               else if (kind == 1) { int16_t c = (int16_t)rng.range(-32768, 32767); a[j] = c; app(d, &c, 2); }
               else if (kind == 2) { int32_t c = (int32_t)rng.range(-2147483648L, 2147483647L); a[j] = c; app(d, &c, 4); }
               else { a[j] = rng.uni(-3e10, 3e10); app(d, &a[j], 8); }
            }
            if (rng.chance(.2)) fl |= (uint16_t)(rng.below(16) << 12);
            app(o, &fl, 2); app(o, &d[0], d.size()); b.t.push_back(a);
         }
         p.blk.push_back(b); body.push_back(o);
      }
      for (auto &o : body) { int16_t n = (int16_t)o.size(); app(s.raw, &n, 2); }
      for (auto &o : body) { app(s.raw, &o[0], o.size()); s.endpos.push_back(s.raw.size()); }
      s.p.push_back(p);
   }
   return s;
}
static void ps_check(const PsPlanet &p, int k, double jd, const void *h) {
   double o[7], o3[4]; for (double &x : o) x = 5; for (double &x : o3) x = 5;
   const PsBlock &b = p.blk[k]; double t0 = p.tzero + (double)k * p.dt;
   cur("ps1996 block %d (from %.17g for %.17g) at %.17g", k, t0, p.dt, jd);
   int rv = get_ps1996_position(jd, h, o, 1), rv3 = get_ps1996_position(jd, h, o3, 0);
   bool in = jd >= t0 && jd <= t0 + p.dt; if (in != !rv || rv != rv3 || (rv && rv != -1)) { bad("ps-range", "returned %d (and %d) for a date %s the block", rv, rv3, in ? "inside" : "outside"); return; }
   if (rv) { for (double x : o) if (x != 5) { bad("ps-range-write", "state written for a date outside"); break; } count("ps_outside_block"); return; }
   if (o[6] != 5 || o3[3] != 5) bad("ps-over", "wrote past the state vector");
   LD x = 2 * ((LD)jd - t0) / p.dt - 1, fx = x * p.dt / 2; LD ex = 5e-16L * (fabsl(x) + 1);
   for (int c = 0; c < 3; c++) {
      LD r = 0, v = 0, sr = 0, sv = 0, pw = 1, pd = 0; const double *sc = b.sec + c * 4;
      for (int j = 0; j < 4; j++) { r += sc[j] * pw; v += sc[j] * pd * 2 / p.dt; sr += fabs(sc[j]) * (1e-15L + j * ex); sv += fabs(sc[j]) * j * (1e-15L + j * ex) * 2 / p.dt; pd = pd * x + pw; pw *= x; }
      int i = 0; pw = 1; pd = 0;
      for (int m = 0; m < 3; m++) {
         for (int j = 0; j < p.nf[m]; j++, i++) {
            LD q = p.fq[i], C = b.t[i][c * 2], S = b.t[i][c * 2 + 1], ph = q * fx, A = fabsl(C) + fabsl(S), ea = fabsl(q) * p.dt / 2 * ex + 4e-16L * fabsl(ph) + 4e-15L;
            LD g = C * cosl(ph) + S * sinl(ph), gd = q * (S * cosl(ph) - C * sinl(ph));
            r += g * pw; v += gd * pw + g * pd * 2 / p.dt; sr += A * (ea + 2 * ex); sv += A * ((fabsl(q) + 2 * m / p.dt) * (ea + 4 * ex));
         }
         pd = pd * x + pw; pw *= x;
      }
      r *= 1e-10L; v *= 1e-10L; sr *= 1e-10L; sv *= 1e-10L; LD a = fabsl(o[c] - r), d = fabsl(o[c + 3] - v);
      if (!(a <= sr + 1e-16L)) bad("ps-position", "coordinate %d is %.17g instead of %.17Lg (allowed %.3Lg)", c, o[c], r, sr);
      if (!(d <= sv + 1e-16L)) bad("ps-velocity", "velocity %d is %.17g instead of %.17Lg (allowed %.3Lg)", c, o[c + 3], v, sv);
      if (o3[c] != o[c]) bad("ps-same", "position depends on whether the velocity is wanted");
      mx[5] = std::max(mx[5], std::max(a / (sr + 1e-16L), d / (sv + 1e-16L)));
   }
   count("ps_state"); seen(mix(hdbl(o[0]), hdbl(o[4])));
}
static void ps_history(long n) {
   Ps s = gen_ps(); std::string path = W("ps_1996.dat"); save(path, s.raw, s.raw.size()); FILE *f = fopen(path.c_str(), "rb");
   char cwd[2000]; if (!getcwd(cwd, sizeof cwd) || chdir(workdir.c_str())) return;
   int blk0[11]; blk0[0] = 0; for (int i = 0; i < 10; i++) blk0[i + 1] = blk0[i] + s.p[i].nb;
   for (long i = 0; i < n; i++) {
      int pl = (int)rng.range(1, 10); const PsPlanet &p = s.p[pl - 1]; double r = rng.uni(), jd = p.tzero + p.dt * p.nb * rng.uni(); int k;
      if (r < .08) { jd = p.tzero - rng.logu(1e-6, 1e5); } else if (r < .16) jd = p.tzero + p.dt * p.nb + rng.logu(1e-6, 1e5); else if (r < .3) jd = p.tzero + p.dt * (double)rng.below(p.nb + 1);
      double q = (jd - p.tzero) / p.dt; k = (int)floor(q); bool edge = fabs(q - rint(q)) < 1e-9;
      if (k < 0 || k >= p.nb) k = -1;
      bool own = rng.chance(.3); int fds = open_fds();
      cur("ps1996 planet %d at %.17g (%s file)", pl, jd, own ? "own" : "given"); void *h = load_ps1996_series(own ? NULL : f, jd, pl);
      if (open_fds() != fds) bad("ps-fd", "file left open");
      if ((k >= 0) != (h != NULL) && !edge) bad("ps-load", "%s for a date %s the series", h ? "loaded" : "not loaded", k >= 0 ? "inside" : "outside");
      if (h && k >= 0) {
         /* another series loaded in between changes nothing */
         void *h2 = rng.chance(.3) ? load_ps1996_series(f, s.p[pl % 10].tzero + 1., pl % 10 + 1) : NULL;
         if (!edge) ps_check(p, k, jd, h);
         else { int kk = k; double t0 = p.tzero + kk * p.dt; if (jd >= t0 && jd <= t0 + p.dt) ps_check(p, kk, jd, h); count("ps_block_edge"); }
         double t0 = p.tzero + (double)k * p.dt; if (!edge) { ps_check(p, k, t0 + p.dt * rng.uni(.001, .999), h); ps_check(p, k, t0 - rng.logu(1e-5, 1e3), h); ps_check(p, k, t0 + p.dt + rng.logu(1e-5, 1e3), h); }
         if (h2) unload_ps1996_series(h2);
      }
      if (h) unload_ps1996_series(h);
      if (!slow && i % 16 == 0) no_leak("ps-leak", [&]() { void *q = load_ps1996_series(f, jd, pl); double st[6]; if (q) { get_ps1996_position(jd, q, st, 1); unload_ps1996_series(q); } });
      count(k < 0 ? "ps_outside" : "ps_inside");
      if (rng.chance(.1)) { /* cut short: no series rather than a damaged one */
         int kk = (int)rng.below(p.nb); size_t endp = s.endpos[blk0[pl - 1] + kk], cut = rng.chance(.5) ? s.start[pl - 1] + rng.below(endp - s.start[pl - 1]) : endp - 1 - rng.below(20); save("ps_cut.dat", s.raw, cut); FILE *g = fopen("ps_cut.dat", "rb");
         cur("ps1996 planet %d block %d, file cut to %zu of %zu bytes", pl, kk, cut, endp); void *hh = load_ps1996_series(g, p.tzero + p.dt * (kk + .5), pl); fclose(g);
         if (hh) { bad("ps-short", "a series was loaded from a file that ends before it does"); unload_ps1996_series(hh); } count("ps_cut");
      }
   }
   fclose(f);
   { unlink("ps_1996.dat"); int fds = open_fds(); cur("ps1996, no file"); if (load_ps1996_series(NULL, 2451545., 4)) bad("ps-missing", "a series without a file"); if (open_fds() != fds) bad("ps-fd", "file left open"); }
   if (chdir(cwd)) _exit(3);
}
/* ------------------------------------------------------------------ elp82.dat */
struct ElpT { int amp, ph; signed char c[11]; };
struct Elp { std::vector<ElpT> s[36]; double poly[39]; std::vector<char> raw; std::string path; };
static Elp gen_elp(int which) {
   Elp e; static const double base[5][5] = {{3.8103444305883079, 8399.6847317739157, -2.8547283984772807e-5, 3.2017095500473753e-8, -1.5363745554361197e-10}, {1.4547885323225087, 70.993304818359619, -1.8557504160038375e-4, -2.1839401892941265e-7, 1.0327016221314224e-9},
      {2.1824391972168400, -33.781427063554160, 3.0844816013545104e-5, 3.6967043184601800e-8, -1.7385419860458600e-10}, {1.7534699452640699, 628.30758508103157, -9.7932363584126272e-8, 4.3633231299858243e-11, 7.2722052166430391e-13}, {1.7965956331206001, 5.6298669711442699e-3, 2.5659491293243858e-6, -5.7275888286280579e-10, -5.5166948773454100e-11}};
   for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) e.poly[i * 5 + j] = base[i][j] * (j == 0 ? rng.uni(.5, 1.5) : rng.uni(.9, 1.1));
   for (int i = 0; i < 7; i++) { e.poly[25 + i] = rng.uni(0, 7); e.poly[32 + i] = rng.uni(1, 2700); }
   e.raw.assign(608, 0); size_t off[36];
   std::vector<int> order; for (int i = 0; i < 36; i++) order.push_back(i); if (rng.chance(.3)) for (int i = 35; i > 0; i--) std::swap(order[i], order[rng.below(i + 1)]);
   for (int i : order) {
      int ty = i / 3, n = rng.chance(.08) ? 0 : (int)rng.range(1, ty == 0 ? (rng.chance(.3) ? 1500 : 300) : ty <= 2 || ty >= 7 ? 60 : rng.chance(.2) ? 700 : 80); double big = ty == 0 ? 2e9 : i % 3 == 2 ? 1e7 : 1.5e6;
      for (int k = 0; k < n; k++) {
         ElpT t; memset(&t, 0, sizeof t); t.amp = (int)(big * exp(-rng.uni(0, 16))) * (rng.chance(.5) ? 1 : -1); if (!t.amp) t.amp = 1; t.ph = ty ? (int)rng.range(0, 36000000) : 0; if (rng.chance(.05)) t.ph = -t.ph;
         int nc = ty == 0 || (ty >= 7) ? 4 : ty <= 2 ? 5 : 11; for (int j = 0; j < nc; j++) t.c[j] = (signed char)(rng.chance(.5) ? 0 : rng.range(-6, 6)); if (rng.chance(.05)) t.c[rng.below(nc)] = (signed char)rng.range(-60, 60);
         e.s[i].push_back(t);
      }
      std::sort(e.s[i].begin(), e.s[i].end(), [](const ElpT &p, const ElpT &q) { return labs(p.amp) > labs(q.amp); });
      off[i] = e.raw.size();
      for (auto &t : e.s[i]) { app(e.raw, &t.amp, 4); if (ty) app(e.raw, &t.ph, 4); app(e.raw, t.c, ty == 0 || ty >= 7 ? 4 : ty <= 2 ? 5 : 11); }
   }
   e.raw.resize(e.raw.size() + 10000);      /* the evaluator reads in blocks; the tail never counts */
   for (int i = 0; i < 36; i++) { put32(e.raw, i * 8, (int32_t)off[i]); put32(e.raw, i * 8 + 4, (int32_t)e.s[i].size()); }
   memcpy(&e.raw[296], e.poly, sizeof e.poly);
   char nm[30]; snprintf(nm, sizeof nm, "elp%d.dat", which); e.path = W(nm); save(e.path, e.raw, e.raw.size()); return e;
}
static LD dms(LD d, LD m, LD s) { return (d + m / 60 + s / 3600) * PIL / 180; }
static void elp_ref(const Elp &e, double tc, double prec, LD *o, LD *tol) {
   LD x = (LD)tc * 100 + 45, t = tc - .000091L / (86400.L * 36525) * (-23.8946L + 26) * x * x, as = PIL / 648000;
   LD f[23], sf[23]; memset(f, 0, sizeof f);
   for (int i = 0; i < 5; i++) { f[i] = 0; for (int j = 4; j >= 0; j--) f[i] = f[i] * t + e.poly[i * 5 + j]; sf[i] = fabsl(f[i]); }
   for (int i = 0; i < 7; i++) { f[9 + i] = e.poly[25 + i] + t * e.poly[32 + i]; sf[9 + i] = fabsl(f[9 + i]); }
   f[5] = f[0] - f[3] + PIL; f[6] = f[3] - f[4]; f[7] = f[0] - f[1]; f[8] = f[0] - f[2];
   LD w1 = dms(218, 18, 59.95571L), w2 = dms(83, 21, 11.67475L), w3 = dms(125, 2, 40.39816L), te = dms(100, 27, 59.22059L), pi_ = dms(102, 56, 14.42753L), w1d = 1732559343.73604L * as, w2d = 14643420.2632L * as, w3d = -6967919.3622L * as, ted = 129597742.2758L * as, pid = 1161.2283L * as;
   f[17] = w1 + (w1d + 5029.0966L * as) * t; f[18] = w1 - te + PIL + (w1d - ted) * t; f[19] = te - pi_ + (ted - pid) * t; f[20] = w1 - w2 + (w1d - w2d) * t; f[21] = w1 - w3 + (w1d - w3d) * t; f[22] = te + ted * t;
   for (int i = 0; i < 23; i++) sf[i] = fabsl(f[i]) + fabsl(f[0]) * (i >= 5 && i < 9) + 10;
   LD u[3] = {f[0] + 22639.58578L * as * sinl(f[7]), 0, 385000.52719L}, s[3] = {sf[0] * 4e-16L + .1L * sf[7] * 4e-16L + 1e-15L, 1e-17L, 4e-10L}, dr[3] = {0, 0, 0};
   static const int A[4] = {5, 6, 7, 8}, B[5] = {18, 19, 20, 21, 17}, C[11] = {9, 10, 22, 11, 12, 13, 14, 15, 18, 20, 21}, D[11] = {9, 10, 22, 11, 12, 13, 14, 18, 19, 20, 21};
   for (int i = 0; i < 36; i++) {
      int ty = i / 3, nc = ty == 0 || ty >= 7 ? 4 : ty <= 2 ? 5 : 11; const int *mp = ty == 0 ? A : ty <= 2 || ty >= 7 ? B : ty <= 4 ? C : D; LD sum = 0, sl = 0, dp = 0, pr = fabsl((LD)prec) * (i % 3 == 2 ? 384747980.674L / 1000 : 648000 / PIL) * 1e5L, k = ty == 2 || ty == 4 || ty == 6 || ty == 8 ? t : ty == 11 ? t * t : 1;
      for (auto &q : e.s[i]) { LD a = q.ph * 1e-5L * PIL / 180, sa = fabsl(a) + 1; for (int j = 0; j < nc; j++) { a += q.c[j] * f[mp[j]]; sa += abs(q.c[j]) * (sf[mp[j]] + 6); } sum += q.amp * (i == 2 ? cosl(a) : sinl(a)); sl += labs(q.amp) * (sa * 3e-16L + 1e-15L); if (labs(q.amp) < pr) dp += labs(q.amp); }
      LD sc = k * 1e-5L * (i % 3 == 2 ? 1 : as); u[i % 3] += sum * sc; s[i % 3] += sl * fabsl(sc); if (prec > 0) dr[i % 3] += dp * fabsl(sc);
   }
   LD P = (((.463486e-14L * t - .2507948e-11L) * t - .5417367e-9L) * t + .47020439e-6L) * t + .10180391e-4L, Q = (((-.320334e-14L * t - .1371808e-11L) * t + .1265417e-8L) * t + .12372674e-6L) * t - .113469002e-3L; P *= t; Q *= t;
   LD r2 = 2 * sqrtl(1 - P * P - Q * Q), X = u[2] * cosl(u[0]) * cosl(u[1]), Y = u[2] * sinl(u[0]) * cosl(u[1]), Z = u[2] * sinl(u[1]);
   o[0] = (1 - 2 * P * P) * X + 2 * P * Q * Y + P * r2 * Z; o[1] = 2 * P * Q * X + (1 - 2 * Q * Q) * Y - Q * r2 * Z; o[2] = -P * r2 * X + Q * r2 * Y + (1 - 2 * P * P - 2 * Q * Q) * Z; o[3] = u[2];
   *tol = (s[0] + s[1] + 1e-14L) * fabsl(u[2]) + s[2] + (dr[0] + dr[1]) * (fabsl(u[2]) + dr[2]) + dr[2];
   tol[1] = (dr[0] + dr[1]) * fabsl(u[2]) + dr[2]; tol[2] = s[2] + dr[2];
}
static void elp_history(long n) {
   Elp e[2] = {gen_elp(0), gen_elp(1)}; FILE *f[2] = {fopen(e[0].path.c_str(), "rb"), fopen(e[1].path.c_str(), "rb")};
   char cwd[2000]; if (!getcwd(cwd, sizeof cwd) || chdir(workdir.c_str())) return;
   for (long i = 0; i < n; i++) {
      int w = (int)rng.below(2); double t = rand_t(), prec = rng.chance(.45) ? rng.logu(1e-12, 1e-3) : 0, o[5] = {7, 7, 7, 7, 7}; bool own = rng.chance(.25);
      if (own) { save("elp82.dat", e[w].raw, e[w].raw.size()); }
      int fds = open_fds(); cur("elp t=%.17g precision %.17g (%s)", t, prec, own ? "own file" : e[w].path.c_str());
      int rv = compute_elp_xyz(own ? NULL : f[w], t, prec, o);
      if (open_fds() != fds) bad("elp-fd", "file left open"); if (own) unlink("elp82.dat");
      if (!slow && i % 8 == 0) no_leak("elp-leak", [&]() { double z[4]; compute_elp_xyz(f[w], t, prec, z); });
      if (rv || o[4] != 7) { bad("elp-ret", "returned %d or wrote past four values", rv); continue; }
      LD r[4], tol[3]; elp_ref(e[w], t, prec, r, tol); LD d = 0; for (int k = 0; k < 3; k++) { LD q = fabsl(o[k] - r[k]); if (!(q <= d)) d = q; }
      if (!(d <= tol[0])) bad("elp", "position off by %.3Lg km (allowed %.3Lg)", d, tol[0]);
      if (!(fabsl(o[3] - r[3]) <= tol[2])) bad("elp-dist", "distance %.17g instead of %.17Lg (allowed %.3Lg)", o[3], r[3], tol[2]);
      LD len = sqrtl((LD)o[0] * o[0] + (LD)o[1] * o[1] + (LD)o[2] * o[2]); if (!(fabsl(len - fabsl((LD)o[3])) <= 1e-13L * len + 1e-9L)) bad("elp-length", "vector of length %.17Lg with distance %.17g", len, o[3]);
      if (prec == 0) mx[6] = std::max(mx[6], d / tol[0]);
      count(prec == 0 ? "elp_full" : tol[1] > 2 * (tol[0] - tol[1]) ? "elp_truncated" : "elp_prec_nodrop"); if (own) count("elp_own_file"); seen(mix(hdbl(o[0]), hdbl(o[3])));
      if (rng.chance(.1)) {
         size_t cut = rng.below(608); save("elp82.dat", e[w].raw, cut); FILE *g = rng.chance(.5) ? fopen("elp82.dat", "rb") : NULL; double z[5] = {7, 7, 7, 7, 7}; int fd2 = open_fds();
         cur("elp, file cut to %zu bytes", cut); int q = compute_elp_xyz(g, t, 0, z); if (open_fds() != fd2) bad("elp-fd", "file left open"); if (g) fclose(g); unlink("elp82.dat");
         if (q != -2 || z[0] != 0 || z[1] != 0 || z[2] != 0 || z[3] != 0 || z[4] != 7) bad("elp-short", "returned %d, %g %g %g %g for a file without a complete header", q, z[0], z[1], z[2], z[3]);
         count("elp_cut");
      }
   }
   { double z[4]; int fds = open_fds(); cur("elp, no file"); if (compute_elp_xyz(NULL, .1, 0, z) != -1) bad("elp-missing", "no error for a missing file"); if (open_fds() != fds) bad("elp-fd", "file left open"); }
   fclose(f[0]); fclose(f[1]); if (chdir(cwd)) _exit(3);
}
int main(int argc, char **argv) {
   init(argc, argv); slow = mode == "san";
   if (workdir[0] != '/') { char c[2000]; if (getcwd(c, sizeof c)) workdir = std::string(c) + "/" + workdir; }
   workdir += "/s" + std::to_string(shard); mkdir(workdir.c_str(), 0700);
   need("vsop_full"); need("vsop_truncated"); need("pluto_full"); need("pluto_truncated"); need("moon_full"); need("moon_truncated"); need("moon_published"); need("planet_pluto"); need("planet_moon"); need("planet_vsop"); need("planet_sun");
   need("big_given"); need("big_own_file"); need("big_cut"); need("ps_state"); need("ps_outside"); need("ps_outside_block"); need("ps_cut"); need("ps_block_edge"); need("elp_full"); need("elp_truncated"); need("elp_own_file"); need("elp_cut");
   double k = slow ? .12 : 1;
   long nf = (long)(budget(2000, 30000) * k) + 1;
   for (long i = 0; i < nf; i++) {
      bool real_moon = rng.chance(.3) || !i; Vsop v = gen_vsop(real_moon); char *heap = (char *)malloc(v.raw.size()), *data = heap;      /* exactly the documented size */
      memcpy(data, &v.raw[0], v.raw.size()); if (real_moon) published_moon(data);
      for (int j = 0; j < 60; j++) { one_vsop(v, data); one_pluto(v, data); one_moon(v, data); if (j % 4 == 0) one_planet(v, data); }
      if (memcmp(data, &v.raw[0], v.raw.size())) bad("data", "the data were changed");
      free(heap);
   }
   long nh = (long)(budget(400, 6000) * k) + 1;
   for (long i = 0; i < nh; i++) { big_history(slow ? 40 : 120); ps_history(slow ? 60 : 200); }
   long ne = (long)(budget(240, 3600) * k) + 1;
   for (long i = 0; i < ne; i++) elp_history(slow ? 12 : 40);
   sample("largest fraction of the allowance used: vsop %.2Lg pluto %.2Lg moon %.2Lg systems %.2Lg big %.2Lg ps %.2Lg elp %.2Lg", mx[0], mx[1], mx[2], mx[3], mx[4], mx[5], mx[6]);
   return finish();
}
