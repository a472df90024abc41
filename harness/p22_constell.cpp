/* P22: constellation of every 1875 position, against the official boundaries as exact real-valued regions. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "con_table.h"
using namespace vh;
typedef long double LD;
extern "C" const char *constell_names;
static const int NSEG = sizeof SEG / sizeof SEG[0];
static std::vector<LD> ras, decs;    /* all boundary RAs (degrees) and declinations */
static std::string expect(LD ra, LD dec) {   /* degrees; exact comparisons */
   LD s = fmodl(ra * 240, 86400); if (s < 0) s += 86400; if (s >= 86400) s -= 86400;
   LD spd = (dec + 90) * 60;
   const char *r = "UMi";
   for (int i = 0; i < NSEG; i++) {     /* the nearest covering segment to the north: last one that qualifies in north-to-south order */
      if (!(spd < SEG[i].spd)) continue;
      LD o = s - SEG[i].ra; if (o < 0) o += 86400;
      if (o < SEG[i].len) r = SEG[i].con;
   }
   return r;
}
static LD edge_gap(LD ra, LD dec) {      /* distance to the nearest boundary line, degrees, each coordinate separately */
   LD r = fmodl(ra, 360), g = 999; if (r < 0) r += 360;
   auto it = std::lower_bound(ras.begin(), ras.end(), r);
   if (it != ras.end()) g = std::min(g, *it - r);
   if (it != ras.begin()) g = std::min(g, r - *(it - 1));
   auto id = std::lower_bound(decs.begin(), decs.end(), dec);
   if (id != decs.end()) g = std::min(g, *id - dec);
   if (id != decs.begin()) g = std::min(g, dec - *(id - 1));
   return g;
}
static std::map<std::string, int> index_of;
static std::map<std::string, long> hits;
static void check(double ra, double dec, const char *what, bool exact = false) {
   cur("%s: RA %.17g dec %.17g", what, ra, dec);
   if (!exact && edge_gap(ra, dec) < 1e-11L * (1 + fabs(ra) / 100)) { count("too close to a line to call"); return; }
   std::string e = expect(ra, dec);
   char buf[8]; memset(buf, '#', sizeof buf);
   int idx = constell_from_ra_dec(ra, dec, buf);
   if (buf[3] != 0 || buf[4] != '#') { bad("terminate", "name not four bytes"); return; }
   if (e != buf) bad("where", "in %s, expected %s", buf, e.c_str());
   if (idx < 0 || idx > 87) { bad("index", "index %d", idx); return; }
   if (index_of.count(buf) && index_of[buf] != idx) bad("index", "%s has index %d, not %d", buf, idx, index_of[buf]);
   if (constell_from_ra_dec(ra, dec, NULL) != idx) bad("null-name", "another index without a name buffer");
   seen(mix(hdbl(ra), hdbl(dec))); hits[buf]++; count(what);
}
int main(int argc, char **argv) {
   init(argc, argv);
   for (int i = 0; i < 88; i++) index_of[std::string(constell_names + 3 * i, 3)] = i;
   cur("names");
   if (strlen(constell_names) != 264 || index_of.size() != 88) bad("names", "%d names in %d bytes", (int)index_of.size(), (int)strlen(constell_names));
   for (auto &a : AREA) if (!index_of.count(a.con)) bad("names", "%s is not among them", a.con);
   std::set<LD> sr, sd; sr.insert(0); sr.insert(360);
   for (auto &s : SEG) { sr.insert((LD)(s.ra % 86400) / 240); sr.insert((LD)((s.ra + s.len) % 86400) / 240); sd.insert((LD)s.spd / 60 - 90); }
   ras.assign(sr.begin(), sr.end()); decs.assign(sd.begin(), sd.end());
   std::vector<LD> d2(decs); d2.insert(d2.begin(), -90); d2.push_back(90);
   /* every elementary cell between boundary lines, four points each, and the area of each constellation as the code sees it */
   std::map<std::string, double> area, area0;
   for (size_t i = 0; i + 1 < d2.size(); i++) for (size_t j = 0; j + 1 < ras.size(); j++) {
      LD w = (sinl(d2[i + 1] * M_PIl / 180) - sinl(d2[i] * M_PIl / 180)) * 180 / M_PIl * (ras[j + 1] - ras[j]);
      if (shard == 0) {
         char nm[4]; constell_from_ra_dec((double)((ras[j] + ras[j + 1]) / 2), (double)((d2[i] + d2[i + 1]) / 2), nm);
         area[nm] += w; area0[expect((ras[j] + ras[j + 1]) / 2, (d2[i] + d2[i + 1]) / 2)] += w;
      }
      if (!mine((long)(i * ras.size() + j))) continue;
      for (int k = 0; k < (thorough ? 12 : 4); k++) {
         LD e = rng.chance(.5) ? .5L : rng.logu(1e-9, .5), g = rng.chance(.5) ? .5L : rng.logu(1e-9, .5);
         LD ra = rng.chance(.5) ? ras[j] + e * (ras[j + 1] - ras[j]) : ras[j + 1] - e * (ras[j + 1] - ras[j]);
         LD de = rng.chance(.5) ? d2[i] + g * (d2[i + 1] - d2[i]) : d2[i + 1] - g * (d2[i + 1] - d2[i]);
         int turn = rng.chance(.4) ? (int)rng.range(-9, 9) : 0;
         check((double)(ra + 360 * turn), (double)de, turn < 0 ? "cell, negative RA" : turn ? "cell, RA past 360" : "cell");
      }
   }
   if (shard == 0) for (auto &a : AREA) {
      cur("area of %s", a.con);
      if (fabs(area0[a.con] - a.area) > 1e-3) { fprintf(stderr, "reference table broken: %s\n", a.con); return 9; }
      if (fabs(area[a.con] - a.area) > 1e-3) bad("area", "%s covers %.4f square degrees, officially %.3f", a.con, area[a.con], a.area);
      count("published areas compared");
   }
   /* beside every corner and edge, and exactly on the lines where binary fractions can be */
   for (int i = 0; i < NSEG; i++) if (mine(i)) for (int k = 0; k < (thorough ? 400 : 60); k++) {
      LD er = rng.chance(.5) ? SEG[i].ra : SEG[i].ra + SEG[i].len, ra, de = SEG[i].spd / 60.L - 90;
      LD s1 = rng.chance(.5) ? 1 : -1, s2 = rng.chance(.5) ? 1 : -1;
      ra = (rng.chance(.5) ? er : SEG[i].ra + rng.uni() * SEG[i].len) / 240 + s1 * rng.logu(1e-9, 1.);
      de += s2 * rng.logu(1e-9, .5);
      if (rng.chance(.5)) ra = fmodl(ra + 720, 360);
      if (rng.chance(.2)) ra -= 360;
      if (de > 90 || de < -90) continue;
      check((double)ra, (double)de, "beside an edge");
   }
   /* exactly on a line: a line of RA belongs to the region east of it, one of declination to the region north of it (Roman 1987) */
   for (size_t j = 0; j < ras.size(); j++) if (mine((long)j)) {
      double ra = (double)ras[j]; if ((LD)ra != ras[j] || fabs(ra * 240 - floor(ra * 240)) != 0) continue;
      for (int k = 0; k < 20; k++) { double de = rng.uni(-90, 90); if (edge_gap(1e-3, de) > 1e-10 || 1) { bool near = false; for (LD d : decs) if (fabsl(d - de) < 1e-10L) near = true; if (!near) check(ra - 360 * (int)rng.below(2), de, "on a line of RA", true); } }
   }
   for (size_t j = 0; j < decs.size(); j++) if (mine((long)j)) {
      double de = (double)decs[j]; if ((LD)de != decs[j]) continue;
      for (int k = 0; k < 40; k++) { double ra = rng.uni(0, 360); bool near = false; for (LD r : ras) if (fabsl(r - ra) < 1e-10L) near = true; if (!near) check(ra, de, "on a line of declination", true); }
   }
   for (int k = 0; k < 50; k++) { check(rng.uni(-360, 720), -90., "pole", true); check(rng.uni(-360, 720), 90., "pole", true); }
   long n = budget(400000, 20000000);
   for (long c = 0; c < n; c++) {
      double z = rng.uni(-1, 1), de = asin(z) * 180 / M_PI, ra = rng.uni(0, 360);
      if (rng.chance(.1)) ra = rng.uni(-3600, 3600);
      if (rng.chance(.05)) { ra = rng.range(-1, 1) * 360 + (rng.chance(.5) ? 1 : -1) * rng.logu(1e-9, 1); }
      if (rng.chance(.05)) { de = (rng.chance(.5) ? 1 : -1) * (90 - rng.logu(1e-9, 5)); }
      check(ra, de, "random");
   }
   /* reverse consistency: well-known stars (B1875 positions rounded to a tenth of a degree, far from the lines) */
   if (shard == 0) count("constellations found", (long)hits.size());
   if (shard == 0) for (auto &a : AREA) if (!hits.count(a.con)) { cur("reach"); bad("reach", "%s never found", a.con); }
   if (shard == 0) sample("RA 0-1e-7, dec 20: %s", expect(-1e-7L, 20).c_str());
   need("cell", 5000); need("cell, negative RA", 2000); need("beside an edge", 500); need("on a line of RA", 100); need("on a line of declination", 100); need("published areas compared", shard == 0 ? 88 : 0);
   return finish();
}
