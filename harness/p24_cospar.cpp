/* P24: planet and satellite orientations against an independent reading of the orientation data file (the real one and generated ones). */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
using namespace vh;
typedef long double LD;
static const LD PIL = 3.141592653589793238462643383279502884L;
struct Term { LD c; char kind; int mult, idx; };          /* kind: k constant, d, D (d^2), T, U (T^2), s, c */
typedef std::vector<Term> Expr;
struct Obj { std::vector<double> r; Expr a, d; std::map<char, Expr> w; char planet; };
struct Ang { LD c0, c1; char unit; };
struct File { std::map<int, Obj> obj; std::map<char, std::map<int, Ang>> ang; std::map<int, int> remap; std::string path; };
static Expr expr(const std::string &s) {      /* blanks already removed */
   Expr e; size_t i = 0;
   while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr("+-.", s[i]))) {
      char *end; Term t; t.c = strtold(s.c_str() + i, &end); t.kind = 'k'; t.mult = 1; t.idx = 0;
      i = end - s.c_str();
      if (s[i] == 'd' || s[i] == 'T') { bool sq = s[i + 1] == '2'; t.kind = s[i] == 'd' ? (sq ? 'D' : 'd') : sq ? 'U' : 'T'; i += sq ? 2 : 1; }
      else if (!s.compare(i, 3, "sin") || !s.compare(i, 3, "cos")) {
         t.kind = s[i]; i += 3;
         if (isdigit((unsigned char)s[i])) { t.mult = 0; while (isdigit((unsigned char)s[i])) t.mult = t.mult * 10 + s[i++] - '0'; }
         i++; while (isdigit((unsigned char)s[i])) t.idx = t.idx * 10 + s[i++] - '0';
      }
      e.push_back(t);
   }
   return e;
}
static bool parse(const std::string &path, File *f) {
   FILE *in = fopen(path.c_str(), "rb"); if (!in) return false;
   f->path = path; char planet = 0; int cur_ = 0; bool in_obj = false; std::string line; int ch; bool end = false;
   while (!end) {
      line.clear(); while ((ch = fgetc(in)) != EOF && ch != '\n') line += (char)ch;
      if (ch == EOF && line.empty()) break;
      if (!line.compare(0, 3, "END")) break;
      size_t h = line.find('#'); if (h != std::string::npos) line.resize(h);
      std::string s; for (size_t i = 0; i < line.size(); i++) {
         if (!line.compare(i, 3, "\xe2\x88\x92")) { s += '-'; i += 2; }      /* a minus sign is a minus sign */
         else if (line[i] > ' ') s += line[i]; }
      if (s.empty()) continue;
      if (!s.compare(0, 6, "Remap:")) { int a, b, n, p = 6; while (sscanf(line.c_str() + p, "%d %d%n", &a, &b, &n) == 2) { f->remap[b] = a; p += n; } continue; }
      if (!s.compare(0, 7, "Planet:")) { planet = s[7]; in_obj = false; continue; }
      if (!s.compare(0, 4, "Obj:")) { cur_ = atoi(s.c_str() + 4); in_obj = true; f->obj[cur_].planet = planet; continue; }
      size_t eq = s.find('='); if (eq == std::string::npos) continue;
      std::string rhs = s.substr(eq + 1);
      if (!in_obj) { Expr e = expr(rhs); Ang a; a.c0 = e[0].c; a.c1 = e[1].c; a.unit = e[1].kind; f->ang[s[0]][atoi(s.c_str() + 1)] = a; continue; }
      Obj &o = f->obj[cur_];
      if (s[0] == 'r') { const char *p = rhs.c_str(); char *q; while (o.r.size() < 3) { o.r.push_back(strtod(p, &q)); if (*q != ',') break; p = q + 1; } }
      else if (s[0] == 'a') o.a = expr(rhs);
      else if (s[0] == 'd') o.d = expr(rhs);
      else if (s[0] == 'W') o.w[s[1] == '=' ? '=' : s[1]] = expr(rhs);
   }
   fclose(in); return true;
}
static LD eval(const File &f, const Obj &o, const Expr &e, LD d, LD *speed, LD *size) {
   LD s = 0; *speed = *size = 0;
   for (auto &t : e) {
      LD T = d / 36525, v = t.c;
      switch (t.kind) {
         case 'd': v *= d; *speed += fabsl(t.c); break; case 'D': v *= d * d; break; case 'T': v *= T; break; case 'U': v *= T * T; break;
         case 's': case 'c': { const Ang &a = f.ang.at(o.planet).at(t.idx); LD g = (a.c0 + a.c1 * (a.unit == 'd' ? d : T)) * t.mult * PIL / 180; v *= t.kind == 's' ? sinl(g) : cosl(g);
            *speed += fabsl(t.c * a.c1 * t.mult * PIL / 180) / (a.unit == 'd' ? 1 : 36525); *size += fabsl(t.c * g) * 6e-16L; break; }
      }
      s += v; *size += fabsl(v) * 5e-16L;
   }
   return s;
}
static int real_id(const File &f, int id) { if (id > 9 && id < 1000) { auto it = f.remap.find(id); if (it != f.remap.end()) return it->second; } return id; }
static const Expr *wexpr(const Obj &o, int sys) { auto it = o.w.find((char)('0' + sys)); if (it != o.w.end()) return &it->second; it = o.w.find('='); return it == o.w.end() ? NULL : &it->second; }
static LD mx[6];
static void orientation(const File &f, int id, int sys, double jd) {
   double m[9]; for (double &x : m) x = -77;
   cur("orientation of %d system %d at %.17g (%s)", id, sys, jd, f.path.c_str());
   int rv = calc_planet_orientation(id, sys, jd, m);
   double again[9]; int rv2 = calc_planet_orientation(id, sys, jd, again);
   if (rv != rv2 || memcmp(m, again, sizeof m)) bad("repeat", "another answer when asked again");
   if (id == 3) {
      double e[9], tdt = jd + td_minus_ut(jd) / 86400.; setup_precession_with_nutation_eops(e, 2000. + (tdt - 2451545.) / 365.25);
      LD worst = 0; for (int i = 0; i < 9; i++) worst = std::max(worst, fabsl(m[i] - (i / 3 == 1 ? -1 : 1) * (LD)e[i]));
      if (rv || !(worst < 1e-12L)) bad("earth", "frame differs by %.3Lg from precession with nutation (returned %d)", worst, rv);
      count("Earth frames"); return;
   }
   auto it = f.obj.find(real_id(f, id));
   if (it == f.obj.end()) { if (!rv) bad("unknown", "object not in the file, returned 0"); count("unknown bodies"); return; }
   if (rv) { bad("known", "returned %d for an object in the file", rv); return; }
   const Obj &o = it->second; const Expr *w = wexpr(o, sys);
   double tdt = jd + td_minus_ut(jd) / 86400.; LD d = (LD)tdt - 2451545, sa, sd, sw, ea, ed, ew;
   LD ra = eval(f, o, o.a, d, &sa, &ea) * PIL / 180, de = eval(f, o, o.d, d, &sd, &ed) * PIL / 180, W = eval(f, o, *w, d, &sw, &ew) * PIL / 180;
   bool retro = false; for (auto &t : *w) if ((t.kind == 'd' || t.kind == 'T') && t.c < 0) retro = true;
   LD P[3] = {cosl(de) * cosl(ra), cosl(de) * sinl(ra), sinl(de)}, Q[3] = {-sinl(ra), cosl(ra), 0}, R[3] = {P[1] * Q[2] - P[2] * Q[1], P[2] * Q[0] - P[0] * Q[2], P[0] * Q[1] - P[1] * Q[0]};
   LD tol = 4e-15L + (ew + ea + ed) * PIL / 180 + (sw + sa + sd) * 1e-9L * PIL / 180 * fmaxl(1, fabsl(d) / 2e6L), worst = 0;
   for (int i = 0; i < 3; i++) {
      LD x = Q[i] * cosl(W) + R[i] * sinl(W), y = R[i] * cosl(W) - Q[i] * sinl(W);
      worst = std::max(worst, fabsl(m[i] - x)); worst = std::max(worst, fabsl(m[i + 3] - (retro ? y : -y))); worst = std::max(worst, fabsl(m[i + 6] - P[i]));
   }
   if (worst / tol > mx[0]) mx[0] = worst / tol; if (tol > mx[1]) mx[1] = tol;
   if (!(worst < tol)) bad("orientation", "differs by %.3Lg (allowed %.2Lg) from the rotation model in the file", worst, tol);
   for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { LD s = 0; for (int k = 0; k < 3; k++) s += (LD)m[3 * i + k] * m[3 * j + k]; if (!(fabsl(s - (i == j)) < 4e-15L)) bad("orthonormal", "rows %d and %d: %.3Lg", i, j, s - (i == j)); }
   seen(mix(mix((uint64_t)(id + 100000), (uint64_t)sys), hdbl(jd))); count(retro ? "orientations, retrograde" : "orientations");
}
static void radii(const File &f, int id) {
   double r[3] = {-5, -6, -7};
   cur("radii of %d (%s)", id, f.path.c_str());
   int rv = planet_radii(id, r);
   auto it = f.obj.find(real_id(f, id));
   if (it == f.obj.end()) { if (!rv) bad("unknown", "radii of an object not in the file, returned 0"); }
   else { if (rv) bad("known", "radii: returned %d for an object in the file", rv); for (size_t i = 0; i < 3; i++) if (r[i] != (i < it->second.r.size() ? it->second.r[i] : 0.)) bad("radii", "radius %d is %.17g", (int)i, r[i]); }
   count("radii");
}
static void rate(const File &f, int id, int sys) {
   cur("rotation rate of %d system %d (%s)", id, sys, f.path.c_str());
   double v = planet_rotation_rate(id, sys);
   auto it = f.obj.find(real_id(f, id)); LD e = 0;
   if (it != f.obj.end()) for (auto &t : *wexpr(it->second, sys)) if (t.kind == 'd') { e = t.c; break; }
   if (!(fabsl(v - e) <= 1e-15L * fabsl(e))) bad("rate", "%.17g degrees a day, the file says %.17Lg", v, e);
   count("rates");
}
static std::string num(double x, bool sign) { char b[60]; int dec = (int)rng.below(9); snprintf(b, sizeof b, sign ? "%+.*f" : "%.*f", dec, x); return b; }
static std::string trig(char p, int n0, int n1, bool uni) {
   std::string s; int k = (int)rng.below(rng.chance(.2) ? 9 : 4);
   for (int i = 0; i < k; i++) { std::string c = num(rng.uni(-9, 9), true); if (c[0] && rng.chance(.3)) c.insert(1, " "); s += (rng.chance(.7) ? " " : "") + c + (rng.chance(.8) ? " " : "") + (rng.chance(.5) ? "sin " : "cos "); if (rng.chance(.3)) s += (char)('1' + rng.below(9)); s += p + std::to_string(rng.range(n0, n1)); if (s.size() > 200) break; }
   (void)uni; return s;
}
static void generate(const std::string &path) {
   FILE *o = fopen(path.c_str(), "wb");
   fprintf(o, "# generated\n\n");
   std::vector<int> ids; for (int i = 0; i < 10; i++) if (i != 3 && rng.chance(.8)) ids.push_back(i);
   for (int p = 3; p < 10; p++) for (int k = 1; k < 20; k++) if (rng.chance(.3)) ids.push_back(p * 1000 + k);
   for (int k = 0; k < 5; k++) ids.push_back(-(int)rng.range(1, 30000));
   std::vector<int> used; int nremap = 0;
   for (int id : ids) if (id >= 1000 && rng.chance(.7)) { int from = (int)rng.range(10, 400); bool dup = false; for (int u : used) if (u == from) dup = true; if (dup) continue; used.push_back(from); fprintf(o, "%s%d %d", nremap % 7 ? "  " : nremap ? "\nRemap: " : "Remap: ", id, from); nremap++; }
   fprintf(o, "\n");
   std::set<int> done; size_t pos = 0; std::string letters = "pHEMJSUNQABCDFGIKLTVXYZ";
   while (pos < ids.size()) {
      if (letters.empty()) break; size_t li = rng.below(letters.size()); char p = letters[li]; letters.erase(li, 1); int n0 = rng.chance(.3) ? 0 : 1, n1 = (int)rng.range(1, 15);
      fprintf(o, "\nPlanet: %c%s\n", p, rng.chance(.2) ? "   # a comment" : "");
      for (int k = n0; k <= n1; k++) {
         if (rng.chance(.1)) fprintf(o, "# not this: %c%d=1+2T\n", p, k);
         if (rng.chance(.1)) fprintf(o, "\n");
         fprintf(o, "%*s%c%d%s%s%s%s%c%s\n", (int)rng.below(4), "", p, k, rng.chance(.3) ? " = " : "=", num(rng.uni(0, 360), false).c_str(), rng.chance(.3) ? "  " : "", rng.chance(.5) ? num(rng.uni(-90000, 90000), true).c_str() : num(rng.uni(-30, 30), true).c_str(), rng.chance(.3) ? 'd' : 'T', rng.chance(.2) ? "  # comment" : "");
      }
      for (int k = (int)rng.range(1, 12); k && pos < ids.size(); k--) {
         int id = ids[pos++]; if (done.count(id)) continue; done.insert(id);
         fprintf(o, "\nObj: %d%s\n", id, rng.chance(.6) ? "  # name (see notes)" : "");
         int nr = (int)rng.range(1, 3); double r = rng.logu(.1, 70000); fprintf(o, "   r=%.3f", r); for (int i = 1; i < nr; i++) fprintf(o, ",%.2f", r * (1 - i * .04)); fprintf(o, "\n");
         std::string a = num(rng.uni(0, 360), false), d = num(rng.uni(-90, 90), false);
         if (rng.chance(.7)) a += num(rng.uni(-4, 4), true) + "T"; if (rng.chance(.7)) d += (rng.chance(.5) ? "  " : "") + num(rng.uni(-1, 1), true) + "T";
         std::string body[3]; body[0] = "   a0=" + a + trig(p, n0, n1, false); body[1] = "   d0= " + d + trig(p, n0, n1, false);
         bool retro = rng.chance(.3);
         auto w = [&](const char *tag) { std::string s = std::string("   W") + tag + "=" + (rng.chance(.3) ? " " : "") + num(rng.uni(0, 360), false) + (rng.chance(.3) ? "  " : "") + num((retro ? -1 : 1) * rng.logu(1, 1200), true) + "d"; if (rng.chance(.2)) s += rng.chance(.5) ? " -1.4e-12d2" : " +12.72 T2"; return s + trig(p, n0, n1, true); };
         std::string ws; if (rng.chance(.3)) ws += w("2") + "  # (System II)\n"; if (rng.chance(.3)) ws += w("3") + "\n"; ws += w("");
         fprintf(o, "%s\n%s%s\n%s%s\n", body[0].c_str(), body[1].c_str(), rng.chance(.2) ? "   # +/- 5" : "", ws.c_str(), rng.chance(.2) ? "  # (a)" : "");
         if (rng.chance(.1)) fprintf(o, "#  W=1+2d\n");
      }
   }
   if (rng.chance(.7)) fprintf(o, "\nEND of data\n(a) notes  Obj: 5\n  r=1\n");
   fclose(o);
}
static double jd_() {
   switch (rng.below(5)) { case 0: return 2451545. + rng.range(-40000, 40000); case 1: return 2451545. + rng.normal() * 3e5; case 2: return 2451545.; default: return 2451545. + rng.uni(-40000, 40000); }
}
int main(int argc, char **argv) {
   init(argc, argv);
   if (chdir(workdir.c_str())) return 6;
   std::string base = repo + "/cospar.txt";
   { FILE *a = fopen(base.c_str(), "rb"), *b = fopen("cospar.txt", "wb"); if (!a || !b) return 6; char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, a)) > 0) fwrite(t, 1, n, b); fclose(a); fclose(b); }
   File dflt; if (!parse("cospar.txt", &dflt) || dflt.obj.size() < 50) return 6;
   std::vector<int> ids; for (auto &o : dflt.obj) ids.push_back(o.first);
   for (auto &r : dflt.remap) ids.push_back(r.first);
   /* the very first call of the process: one kind per shard */
   int first = ids[rng.below(ids.size())];
   switch (shard % 4) { case 0: radii(dflt, first); break; case 1: rate(dflt, first, (int)rng.below(4)); break; case 2: orientation(dflt, first, (int)rng.below(4), jd_()); break; default: radii(dflt, 123456); radii(dflt, first); }
   for (int id : ids) { radii(dflt, id); for (int s = 0; s < 4; s++) { rate(dflt, id, s); for (int k = 0; k < 3; k++) orientation(dflt, id, s, jd_()); } }
   long files = budget(1600, 60000);
   std::vector<std::string> dts = {"", "1900,2100:100", "1800,2200:o2000,60,2,.5"};
   for (long c = 0; c < files; c++) {
      File f, *now = &dflt; std::string path = workdir + "/gen" + std::to_string(c % 3) + ".txt";
      bool generated = c % 4 != 3;
      if (generated) { generate(path); parse(path, &f); cur("load %s", path.c_str()); int rv = load_cospar_file(path.c_str()); if (rv) bad("load", "returned %d", rv); now = &f; }
      else { cur("unload"); switch (rng.below(3)) { case 0: load_cospar_file(NULL); break; case 1: if (!load_cospar_file("no/such/file")) bad("load", "loaded a file that does not exist"); break; default: load_cospar_file("cospar.txt"); } }
      std::vector<int> q(ids); for (auto &o : now->obj) for (int k = 0; k < 3; k++) q.push_back(o.first); for (auto &r : now->remap) q.push_back(r.first); for (int i = 0; i < 12; i++) q.push_back((int)rng.range(-3000, 12000));
      static int last_id = 5, last_sys = 0; static double last_jd = 2451545;
      for (int k = 0; k < 250; k++) {
         if (k == 0) { if (c & 1) rate(*now, last_id, last_sys); orientation(*now, last_id, last_sys, last_jd); if (rng.chance(.5)) continue; }
         if (rng.chance(.02)) { reset_td_minus_dt_string(dts[rng.below(dts.size())].c_str()); count("Delta-T changes"); orientation(*now, last_id, last_sys, last_jd); }
         int id = rng.chance(.3) ? last_id : q[rng.below(q.size())], sys = rng.chance(.3) ? last_sys : (int)rng.below(4); double jd = rng.chance(.4) ? last_jd : jd_();
         switch (rng.below(5)) { case 0: radii(*now, id); break; case 1: rate(*now, id, sys); break; default: orientation(*now, id, sys, jd); last_jd = jd; }
         last_id = id; last_sys = sys;
      }
      reset_td_minus_dt_string(NULL);
      count(generated ? "generated data files" : "reloads of the real data file");
      if (generated) { char t[200]; snprintf(t, sizeof t, "%d objects, %d remapped", (int)f.obj.size(), (int)f.remap.size()); sample("%s", t); }
   }
   if (getenv("DBG")) printf("mx %.3Lg %.3Lg\n", mx[0], mx[1]);
   need("orientations", 5000); need("orientations, retrograde", 1000); need("radii", 1000); need("rates", 1000); need("unknown bodies", 500); need("generated data files", 30); need("Earth frames", 20);
   return finish();
}
