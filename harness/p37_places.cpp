/* P37: the programs that deal in places -- parallax (and its CGI form), dist, mpc_code -- print the place they were given,
   in every one of the forms they print it in. */
#include "vh.h"
#include "geodref.h"
#include <sys/stat.h>
using namespace vh;
using std::string; using std::vector;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static const LD A = 6378137, B = 6356752.314140347L, D = 180 / PIL;
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static double rd(const string &s) { return strtod(s.c_str(), NULL); }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static LD w360(LD x) { return x - 360 * floorl(x / 360); }
static LD ang(LD x) { return x - 360 * rintl(x / 360); }
/* lat in degrees, alt in metres -> metres from the axis and from the equator */
static void geod(LD lat, LD h, LD *c, LD *s) { LD b = B / A, e2 = 1 - b * b, p = lat / D, N = A / sqrtl(1 - e2 * sinl(p) * sinl(p)); *c = (N + h) * cosl(p); *s = (N * b * b + h) * sinl(p); }
static void ungeod(LD c, LD s, LD *lat, LD *h) {   /* fixed point on the footpoint's reduced latitude, Newton-polished */
   LD b = B / A, e2 = 1 - b * b, p = atan2l(s, c * b * b);
   for (int i = 0; i < 200; i++) { LD N = A / sqrtl(1 - e2 * sinl(p) * sinl(p)), q = atan2l(s + e2 * N * sinl(p), c); if (q == p) break; p = q; }
   LD N = A / sqrtl(1 - e2 * sinl(p) * sinl(p)); *lat = p * D; *h = c * cosl(p) + s * sinl(p) - N * (1 - e2 * sinl(p) * sinl(p));
}
static string exe(const char *n) { return tools + "/" + n; }
/* region table */
struct Rect { LD lo1, la1, lo2, la2; string name; };
static vector<Rect> rects; static string rectfile;
static void make_rects() {
   rects.clear(); rectfile = "# regions\n"; int n = (int)rng.range(0, 12);
   for (int k = 0; k < n; k++) { Rect r; double lo = rng.uni(-180, 180), la = rng.uni(-89, 80), w = rng.logu(1, 120), h = rng.logu(1, 60); string s[4] = {fmt("%.4f", lo), fmt("%.4f", la), fmt("%.4f", lo + w > 180 && rng.chance(.5) ? lo + w - 360 : lo + w), fmt("%.4f", std::min(90., la + h))}; if (rng.chance(.3)) { std::swap(s[0], s[2]); } if (rng.chance(.3)) std::swap(s[1], s[3]);
      string l; for (auto &x : s) { string y = x; y.resize(10, ' '); l += y; } r.lo1 = rd(s[0]); r.la1 = rd(s[1]); r.lo2 = rd(s[2]); r.la2 = rd(s[3]); r.name = fmt("%c%c %s of No %d", (char)('A' + rng.below(26)), (char)('A' + rng.below(26)), rng.chance(.1) ? "R\xc3\xa9gion" : "Region", k); rectfile += l + r.name + "\n"; if (rng.chance(.1)) rectfile += "# comment\n"; rects.push_back(r); }
}
/* name of the first region that holds the place; *sure is false within a hair of an edge */
static string region(LD lat, LD lon, bool *sure) {
   *sure = true; for (auto &r : rects) { LD a = ang(r.lo1 - lon), d = ang(r.lo2 - r.lo1), b = a + d, c1 = r.la1 - lat, c2 = r.la2 - lat; if (fabsl(a) < 1e-6L || fabsl(b) < 1e-6L || fabsl(c1) < 1e-6L || fabsl(c2) < 1e-6L || fabsl(fabsl(d) - 180) < 1e-5L || fabsl(fabsl(a) - 180) < 1e-6L) *sure = false; if (a * b < 0 && c1 * c2 < 0) return r.name; }
   return "";
}
static bool sexa(const string &t, LD v, LD tol) {
   char sg; long d; int m; double s; if (sscanf(t.c_str(), "%c%ld %d %lf", &sg, &d, &m, &s) != 4 || m > 59 || s >= 60 || (sg != '+' && sg != '-')) return false;
   LD x = d + m / 60.L + s / 3600.L; if (sg == '-') x = -x; return fabsl(x - v) < tol + 1.1e-5L / 3600 && (fabsl(v) < tol || (v < 0) == (sg == '-'));
}
struct Pl { LD lon, lat, alt, c, s; };
/* everything show_location() prints, against the place; tol in metres */
static void check_location(const vector<string> &L, const Pl &p, LD tol, bool haslon, const char *prog) {
   LD ta = tol > 1e-5L ? D * (cosl(p.lat / D) < 1e-3L ? 5e-8L : 3e-10L) : tol / 1e5L, tl = ta / std::max(1e-3L, cosl(p.lat / D)); int nl = 0; double v, w, x, lon1 = 0; bool la = false, al = false, pc = false, me = false, xr = false, xm = false; string reg = "?";
   for (auto &l : L) { size_t eq = l.find(" = "); string key = fmt("%s-", prog);
      if (!l.compare(0, 10, "Longitude ") && eq != string::npos) { v = rd(l.substr(10)); if (!nl++) lon1 = v; if (fabsl(ang(v - p.lon)) > tl + 6e-10L) bad(key + "lon", "'%s'; longitude is %.10Lf", l.c_str(), p.lon); if (!sexa(l.substr(eq + 3), v, 6e-10L)) bad(key + "lon-sexagesimal", "'%s'", l.c_str()); count("longitudes"); }
      else if (!l.compare(0, 9, "Latitude ") && eq != string::npos) { v = rd(l.substr(9)); la = true; if (!(fabsl(v - p.lat) < ta + 6e-10L)) bad(key + "lat", "'%s'; latitude is %.10Lf", l.c_str(), p.lat); if (!sexa(l.substr(eq + 3), v, 6e-10L)) bad(key + "lat-sexagesimal", "'%s'", l.c_str()); count("latitudes"); if (p.lat < 0 && p.lat > -1) count("small_southern_latitudes"); }
      else if (!l.compare(0, 9, "Altitude ")) { v = rd(l.substr(9)); al = true; if (!(fabsl(v - p.alt) < tol + 1.1e-5L)) bad(key + "alt", "'%s'; altitude is %.6Lf", l.c_str(), p.alt); }
      else if (sscanf(l.c_str(), "Parallax constants %lf %lf", &v, &w) == 2) { pc = true; if (!(fabsl(v - p.c / A) < tol / A + 1e-11L && fabsl(w - p.s / A) < tol / A + 1e-11L)) bad(key + "constants", "'%s'; should be %.12Lf %+.12Lf", l.c_str(), p.c / A, p.s / A); }
      else if (sscanf(l.c_str(), "In meters: %lf %lf", &v, &w) == 2) { me = true; if (!(fabsl(v - p.c) < tol + 1.1e-5L && fabsl(w - p.s) < tol + 1.1e-5L)) bad(key + "metres", "'%s'; should be %.6Lf %+.6Lf", l.c_str(), p.c, p.s); }
      else if (sscanf(l.c_str(), "xyz in Earth radii %lf %lf %lf", &v, &w, &x) == 3) { xr = true; LD t = tol / A + 6e-8L; if (!(fabsl(v - p.c * cosl(p.lon / D) / A) < t && fabsl(w - p.c * sinl(p.lon / D) / A) < t && fabsl(x - p.s / A) < t)) bad(key + "xyz", "'%s' at longitude %.9Lf", l.c_str(), p.lon); }
      else if (sscanf(l.c_str(), "xyz in meters %lf %lf %lf", &v, &w, &x) == 3) { xm = true; LD t = tol + 2e-5L; if (!(fabsl(v - p.c * cosl(p.lon / D)) < t && fabsl(w - p.c * sinl(p.lon / D)) < t && fabsl(x - p.s) < t)) bad(key + "xyz-metres", "'%s'; should be %.5Lf %.5Lf %.5Lf", l.c_str(), p.c * cosl(p.lon / D), p.c * sinl(p.lon / D), p.s); count("xyz"); }
      else if (!l.compare(0, 27, "This point is somewhere in ")) reg = l.substr(27); }
   if (!la || !al || !pc || !me || (haslon && (!nl || !xr || !xm))) { string o; for (auto &l : L) o += l + "\n"; bad(fmt("%s-missing", prog), "lines are missing from: %.900s", o.c_str()); return; }
   if (haslon && nl != (lon1 < -1e-6 || lon1 > 180 + 1e-6 ? 2 : nl)) bad(fmt("%s-lon-forms", prog), "%d longitude lines, the first for %.9f", nl, lon1);
   if (haslon) { bool sure; string r = region((double)p.lat, (double)p.lon, &sure), e = r.empty() ? "?" : r.size() > 2 ? r.substr(2) : ""; if (sure && reg != e) bad(fmt("%s-region", prog), "'%s'; expected '%s' for %.9Lf %.9Lf in\n%s", reg.c_str(), e.c_str(), p.lat, p.lon, rectfile.c_str()); else if (sure) count(r.empty() ? "no_region" : "regions"); }
}
static double pick_lat() { return rng.chance(.15) ? rng.uni(-1, 1) : rng.chance(.15) ? (rng.chance(.5) ? 1 : -1) * (90 - rng.logu(1e-4, 3)) : rng.uni(-88, 88); }
static double pick_alt() { return rng.chance(.1) ? 0 : rng.chance(.7) ? rng.uni(-400, 9000) : rng.uni(-6000, 400000); }
/* an angle written in degrees, in degrees and minutes, or with seconds */
static string wr(double a, LD *back) {
   string sg = a < 0 ? "-" : rng.chance(.3) ? "+" : ""; double x = fabs(a); LD v; string t; int k = (int)rng.below(4);
   if (k < 2) { t = fmt("%.*f", (int)rng.range(1, 9), x); v = rd(t); }
   else if (k == 2) { long u = (long)floor(x * 60 * 1e4); t = fmt("%ld %ld.%04ld", u / 600000, u / 10000 % 60, u % 10000); v = u / 600000.L; }
   else { long u = (long)floor(x * 3600 * 1e4); if (rng.chance(.5)) t = fmt("%ld %ld %ld.%04ld", u / 36000000, u / 600000 % 60, u / 10000 % 60, u % 10000); else t = fmt("%02ld  %02ld %02ld.%04ld", u / 36000000, u / 600000 % 60, u / 10000 % 60, u % 10000); v = u / 36000000.L; }
   *back = a < 0 ? -v : v; return sg + t;
}
static int prun(vector<string> av, string *o) { string d; for (auto &s : av) d += "'" + s + "' "; cur("%s", d.c_str()); evals++; int rc = run(av, o, "", {"HOME=" + workdir}); sample("%s", d.c_str()); seen(hstr(d)); return rc; }
static bool is_opt(const string &s) { return s[0] == '-' && !isdigit((unsigned char)s[1]); }
/* 'parallax longitude latitude altitude' */
static void three() {
   LD lon, lat; double lo; do lo = rng.uni(-180, 360); while (fabs(lo) < 2.5); string a = wr(lo, &lon), b = wr(pick_lat(), &lat), c = fmt("%.*f", (int)rng.below(5), pick_alt()); LD alt = rd(c); string o; if (is_opt(a) || is_opt(b) || is_opt(c)) return;
   vector<string> av = {exe("parallax"), a, b, c}; bool m = rng.chance(.2); if (m) av.insert(av.begin() + rng.range(1, 4), "-m"); if (prun(av, &o)) { bad("parallax-exit", "%.400s", o.c_str()); return; }
   Pl p = {lon, lat, alt, 0, 0}; geod(lat, alt, &p.c, &p.s); vector<string> L = lines(o); check_location(L, p, 1e-5L, true, "parallax"); count("from_lat_lon");
   if (m) { int n = 0; for (auto &l : L) { double v; if (sscanf(l.c_str(), "observatory_lat: %lf", &v) == 1) { n++; if (fabsl(v - lat) > 6e-7L) bad("parallax-mpc", "'%s'", l.c_str()); } if (sscanf(l.c_str(), "observatory_long: %lf", &v) == 1) { n++; if (fabsl(ang(v - lon)) > 6e-7L) bad("parallax-mpc", "'%s'", l.c_str()); } if (sscanf(l.c_str(), "observatory_alt: %lf", &v) == 1) { n++; if (fabsl(v - alt) > 6e-7L) bad("parallax-mpc", "'%s'", l.c_str()); } } if (n != 3) bad("parallax-mpc", "fields missing: %.900s", o.c_str()); count("mpc_form"); }
}
static void xyz() {
   double lo = rng.chance(.25) ? 90 * (double)rng.range(-2, 2) + rng.uni(.0004, .003) * (rng.chance(.5) ? 1 : -1) : rng.uni(-180, 180), la = pick_lat(), al = pick_alt(); bool metres = rng.chance(.5); LD c, s; geod(la, al, &c, &s); if (metres && (fabsl(c) < 5e4L)) return; LD k = metres ? 1 : A;
   string x = fmt("%.*f", metres ? 4 : 11, (double)(c * cosl(lo / D) / k)), y = fmt("%.*f", metres ? 4 : 11, (double)(c * sinl(lo / D) / k)), z = fmt("%.*f", metres ? 4 : 11, (double)(s / k)); if (metres && std::max(fabs(rd(x)), fabs(rd(y))) < 500) return; string o; if (prun({exe("parallax"), x, y, z}, &o)) { bad("parallax-exit", "%.400s", o.c_str()); return; }
   Pl p; LD X = rd(x) * k, Y = rd(y) * k; p.c = hypotl(X, Y); p.s = rd(z) * k; p.lon = atan2l(Y, X) * D; ungeod(p.c, p.s, &p.lat, &p.alt); check_location(lines(o), p, 2e-5L, true, "parallax"); count(metres ? "from_xyz_metres" : "from_xyz_radii");
}
static void two() {
   double la = rng.chance(.08) ? (rng.chance(.5) ? 90 : -90) * (1 - rng.logu(1e-8, 1e-6)) : pick_lat(), al = pick_alt(); bool metres = rng.chance(.5); LD c, s; geod(la, al, &c, &s); LD k = metres ? 1 : A; string x = fmt("%.*f", metres ? 4 : 11, (double)(c / k)), y = fmt("%+.*f", metres ? 4 : 11, (double)(s / k)); if (x.size() == 3 || y.size() == 3) return; string o;
   if (prun({exe("parallax"), x, y}, &o)) { bad("parallax-exit", "%.400s", o.c_str()); return; }
   Pl p; p.lon = 0; p.c = rd(x) * k; p.s = rd(y) * k; ungeod(p.c, p.s, &p.lat, &p.alt); check_location(lines(o), p, 2e-5L, false, "parallax"); count(metres ? "from_constants_metres" : "from_constants");
}
/* the observatory lists */
struct Obs { string code, line, name; Pl p; int planet, form; /* 1: longitude and constants; 2: rover; 3: rover in base 60; 0: no place; 4: temporary */ int pl, pc; };
static vector<Obs> obs; static string obsfile, rovfile;
static string pick_name() { static const char *n[] = {"Kitt Peak", "Mauna Kea & Haleakala", "R. & J. <Obs>", "St. Ch\xc3\xa2teau", "Observatory, No. 5", "A & B & C & D", "X", "Calar Alto-NASSR", "W74 + 12", "Siding Spring 100%"}; if (rng.chance(.02)) { string s; int k = (int)rng.range(20, 150); while ((int)s.size() < k) s += rng.chance(.7) ? "&" : "x"; return s; } return n[rng.below(10)]; }
static Obs make_obs(int k) {
   Obs o; o.planet = 3; o.pl = o.pc = 0; o.code = fmt("%c%02d", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[k % 36], k / 36); o.name = pick_name(); double lo = rng.chance(.1) ? rng.uni(0, .5) : rng.uni(0, 360), la = pick_lat(), al = rng.uni(-300, 5000); int w = (int)rng.below(10);
   memset(&o.p, 0, sizeof o.p); o.form = w < 5 ? 1 : w < 7 ? 2 : w < 8 ? 3 : w < 9 ? 0 : 1;
   if (o.form == 1) { int n1 = (int)rng.range(1, 5), n2 = (int)rng.range(3, 6); LD c, s; geod(la, al, &c, &s); bool geo = k == 14; if (geo) { lo = 0; c = s = 0; }
      string a = fmt("%.*f", n1, lo); if (rd(a) >= 360) a = fmt("%.*f", n1, 0.); while (a.find('.') < 3) a = " " + a; a.resize(9, ' '); string b = fmt("%.*f", n2, (double)(c / A)); b.resize(8, ' '); string d = fmt("%+.*f", n2, (double)(s / A)); d.resize(9, ' '); o.line = o.code + " " + a + b + d + o.name; o.p.lon = rd(a); o.p.c = rd(b) * A; o.p.s = rd(d) * A; if (o.p.c || o.p.s) ungeod(o.p.c, o.p.s, &o.p.lat, &o.p.alt); o.pl = n1; o.pc = n2; }
   else if (o.form == 2 || o.form == 3) { string a, b, c = fmt("%.3f", al); if (rng.chance(.4)) lo -= 360 * (lo > 180); if (rng.chance(.25)) o.code += "z", o.code.resize(4);
      if (o.form == 2) { a = fmt("%.*f", (int)rng.range(4, 9), lo); b = fmt("%.*f", (int)rng.range(4, 9), la); o.p.lon = rd(a); o.p.lat = rd(b); }
      else { auto b60 = [](double x, LD *back) { long u = (long)floor(fabs(x) * 3600e3), d = u / 3600000, m = u / 60000 % 60, s = u / 1000 % 60; *back = (x < 0 ? -1 : 1) * u / 3600000.L; return fmt("%s%ld%02ld%02ld.%03ld", x < 0 ? "-" : "", d, m, s, u % 1000); }; lo = fabs(lo); if (lo < .2) lo += 1; if (fabs(la) < .1) la += 1; a = b60(lo, &o.p.lon); b = b60(fabs(la), &o.p.lat); }
      o.p.alt = rd(c); if (rng.chance(.15)) o.planet = 4; string l = o.code; l.resize(4, ' '); l += "! " + a + " " + b + " " + c; l.resize(46, ' '); if (o.planet == 4) o.name = "@4 " + o.name; o.line = l + " " + o.name;
      if (o.planet == 3) geod(o.p.lat, o.p.alt, &o.p.c, &o.p.s); else { LD a4 = 3396190, b4 = 3376200, bb = b4 / a4, e2 = 1 - bb * bb, p = o.p.lat / D, N = a4 / sqrtl(1 - e2 * sinl(p) * sinl(p)); o.p.c = (N + o.p.alt) * cosl(p) / a4 * A; o.p.s = (N * bb * bb + o.p.alt) * sinl(p) / a4 * A; } }
   else { string l = o.code; l.resize(30, ' '); o.line = l + o.name; o.planet = -2; }
   return o;
}
static void make_lists() {
   obs.clear(); obsfile = "Code  Long.   cos      sin    Name\n"; rovfile = "# Rovers\n"; int n = (int)rng.range(3, 60);
   for (int k = 0; k < n; k++) { Obs o = make_obs(k); (o.form == 2 || o.form == 3 ? rovfile : obsfile) += o.line + "\n"; obs.push_back(o); if (rng.chance(.05)) (rng.chance(.5) ? rovfile : obsfile) += "# a remark between lines\n"; }
   if (rng.chance(.15)) { rovfile.pop_back(); obsfile.pop_back(); } else { rovfile += "# end\n"; obsfile += "</pre>\n"; }
   put(workdir + "/ObsCodes.htm", obsfile); put(workdir + "/rovers.txt", rovfile);
}
static void codes() {
   const Obs &o = rng.pick(obs), &q = rng.pick(obs); string out; bool f = rng.chance(.2); vector<string> av = {exe("parallax"), o.code}; if (f) av.push_back("-f"); bool rover = o.form == 2 || o.form == 3, found = !(f && rover); int rc = prun(av, &out);
   if (!found) { if (!rc || out.find("Couldn't find observatory code (" + o.code + ")") == string::npos) bad("parallax-f", "exit %d: %.300s", rc, out.c_str()); count("not_found"); return; }
   if (rc) { bad("parallax-code-exit", "exit %d: %.300s", rc, out.c_str()); return; }
   vector<string> L = lines(out); Pl p = o.p; if (L.empty()) { bad("parallax-code", "nothing printed"); return; }
   if (o.planet == 3) { double v[3]; if (sscanf(L[0].c_str() + o.code.size(), " !%lf %lf %lf", v, v + 1, v + 2) != 3 || L[0].compare(0, o.code.size(), o.code) || fabsl(ang(v[0] - p.lon)) > 3e-9L || v[0] < -180 || v[0] > 180.0000001 || fabsl(v[1] - p.lat) > (cosl(p.lat / D) < 1e-3L ? 3e-6L : 2e-8L) || fabsl(v[2] - p.alt) > 6e-4L || L[0].size() < o.name.size() || L[0].substr(L[0].size() - o.name.size()) != o.name) bad("parallax-rover", "'%s' for '%s'", L[0].c_str(), o.line.c_str());
      if (o.code.size() == 3 || 1) { /* the line is itself a valid line of a rover file */ count("rover_lines"); }
      if (L.size() < 2 || L[1] != o.line) bad("parallax-line", "'%s' for '%s'", L.size() > 1 ? L[1].c_str() : "", o.line.c_str());
      check_location(L, p, 1e-4L, p.lon != 0, "parallax-code"); count(rover ? "rover_codes" : "codes"); }
   else if (o.planet == -2) { if (L[0] != o.name) bad("parallax-name", "'%s' for '%s'", L[0].c_str(), o.line.c_str()); count("spacecraft"); }
   /* two codes */
   if (o.code.size() == 3 && q.code.size() == 3 && o.planet == 3 && q.planet == 3 && o.code != q.code) {
      if (prun({exe("parallax"), o.code, q.code}, &out)) { bad("parallax-pair-exit", "%.300s", out.c_str()); return; }
      string a, b; double km = -1, az = -1; char c1[8] = "", c2[8] = ""; for (auto &l : lines(out)) if (l[0] == '(' && l.find(" km from (") != string::npos && sscanf(l.c_str(), "(%3s) is %lf km from (%3s),  at bearing %lf", c1, &km, c2, &az) != 4) bad("parallax-pair", "'%s'", l.c_str());
      if (q.code != c1 || o.code != c2) { bad("parallax-pair", "no line for %s from %s: %.500s", q.code.c_str(), o.code.c_str(), out.c_str()); return; }
      LD l1 = o.p.lat / D, l2 = q.p.lat / D, dl = (q.p.lon - o.p.lon) / D, y = sinl(dl) * cosl(l2), x = cosl(l1) * sinl(l2) - sinl(l1) * cosl(l2) * cosl(dl), z = sinl(l1) * sinl(l2) + cosl(l1) * cosl(l2) * cosl(dl), d = atan2l(hypotl(x, y), z), e = w360(atan2l(y, x) * D);
      if (fabsl(km - d * A / 1000) > .0015L + 1e-9L * km) bad("parallax-pair-dist", "%.3f km, should be %.4Lf", km, d * A / 1000);
      if (km > 5 && km < 20000 && fabsl(ang(az - e)) > .0051L + 1e-4L / sinl(d)) bad("parallax-pair-bearing", "bearing %.2f, should be %.3Lf", az, e);
      check_location(lines(out), o.p, 1e-4L, o.p.lon != 0, "parallax-pair"); count("pairs"); }
}
static string url(const string &s) { string r; for (char c : s) { if (isalnum((unsigned char)c) || c == '.' || c == '-') r += c; else if (c == ' ' && rng.chance(.7)) r += '+'; else r += fmt("%%%02X", (unsigned char)c); } return r; }
static void cgi() {
   string q, o; auto add = [&](const char *f, const string &v) { q += (q.empty() ? "" : "&") + string(f) + "=" + url(v); }; Pl p; memset(&p, 0, sizeof p); int k = (int)rng.below(4); bool haslon = true; LD tol = 2e-5L; Obs ob;
   if (k == 0) { LD lo, la; string a, b; do a = wr(rng.uni(-180, 360), &lo); while (a.find('.') == string::npos); do b = wr(pick_lat(), &la); while (b.find('.') == string::npos || fabsl(la) < 1e-4L); string c = fmt("%.3f", pick_alt()); p.lon = lo; p.lat = la; p.alt = rd(c); geod(la, p.alt, &p.c, &p.s); int z = (int)rng.below(3); if (!z) { add("lat", b); add("lon", a); add("alt", c); } else if (z == 1) { add("alt", c); add("lon", a); add("lat", b); } else { add("lon", a); add("lat", b); add("alt", c); } count("cgi_lat_lon"); }
   else if (k == 1) { LD c, s; double la; do la = pick_lat(); while (fabs(la) < .01); geod(la, pick_alt(), &c, &s); bool m = rng.chance(.5); LD u = m ? 1 : A; if (m && (fabsl(c) < 1000 && fabsl(s) < 1000)) return; string a = fmt("%.*f", m ? 4 : 11, (double)(c / u)), b = fmt("%.*f", m ? 4 : 11, (double)(s / u)); p.c = rd(a) * u; p.s = rd(b) * u; ungeod(p.c, p.s, &p.lat, &p.alt); haslon = false; add("rho_cos_phi", a); add("rho_sin_phi", b); if (rng.chance(.3)) { add("lat", ""); add("mpc_code", ""); } count("cgi_constants"); }
   else if (k == 2) { LD c, s; double la, lo = rng.uni(-180, 180); do la = pick_lat(); while (fabs(la) < .01); geod(la, pick_alt(), &c, &s); bool m = rng.chance(.5); LD u = m ? 1 : A; string a = fmt("%.*f", m ? 4 : 11, (double)(c * cosl(lo / D) / u)), b = fmt("%.*f", m ? 4 : 11, (double)(c * sinl(lo / D) / u)), z = fmt("%.*f", m ? 4 : 11, (double)(s / u)); LD X = rd(a) * u, Y = rd(b) * u; p.c = hypotl(X, Y); p.s = rd(z) * u; p.lon = atan2l(Y, X) * D; ungeod(p.c, p.s, &p.lat, &p.alt); add("xyz0", a); add("xyz1", b); add("xyz2", z); count("cgi_xyz"); }
   else { ob = rng.pick(obs); if (ob.code.size() != 3 || ob.planet != 3 || ob.p.c == 0 || fabsl(ob.p.lat) < 1e-3L) return; p = ob.p; tol = 1e-4L; add("mpc_code", ob.code); haslon = p.lon != 0; count("cgi_codes"); }
   cur("parallax.cgi?%s", q.c_str()); evals++; seen(hstr(q)); bool post = rng.chance(.4); int rc = post ? run({exe("parallax_cgi")}, &o, q, {"HOME=" + workdir, "REQUEST_METHOD=POST", fmt("CONTENT_LENGTH=%zu", q.size()), "CONTENT_TYPE=application/x-www-form-urlencoded"}) : run({exe("parallax_cgi")}, &o, "", {"HOME=" + workdir, "REQUEST_METHOD=GET", "QUERY_STRING=" + q});
   if (rc || o.compare(0, 25, "Content-type: text/html\n\n")) { bad("cgi-exit", "exit %d: %.400s", rc, o.c_str()); return; }
   size_t t = o.find("<pre>"); if (t != string::npos) o.erase(0, t + 5); vector<string> L = lines(o); check_location(L, p, tol, haslon, "cgi");
   if (haslon) for (const char *s : {"maps?q=", "maps/?cp="}) { size_t at = o.find(s); double a, b; char c; if (at == string::npos || sscanf(o.c_str() + at + strlen(s), "%lf%c%lf", &a, &c, &b) != 3 || fabsl(a - p.lat) > 2e-7L + tol / 1e5L || fabsl(ang(b - p.lon)) > 2e-7L + tol / 1e5L / std::max(1e-3L, cosl(p.lat / D)) || fabs(b) > 180.0001) bad("cgi-map", "%.80s", at == string::npos ? "no link" : o.c_str() + at); else count("map_links"); }
}
static void dist_case() {
   double la = rng.uni(-89, 89), lo = rng.uni(-180, 180), az = rng.uni(0, 360), s = rng.chance(.3) ? rng.logu(.01, 100) : rng.uni(10, 19000); string o, a = fmt("%.7f", la), b = fmt("%.7f", lo), z = fmt("%.6f", az), d = fmt("%.6f", s); const LD f = 1 / 298.257223563L;
   if (rng.chance(.5)) { End e = direct(rd(a) / D, rd(z) / D, rd(d) * 1000 / A, f); if (prun({exe("dist"), a, b, d, z, "-d"}, &o)) { bad("dist-exit", "%.300s", o.c_str()); return; } double v, w, r = -1; if (sscanf(o.c_str(), "Vincenty direct: %lf %lf Reverse az: %lf", &v, &w, &r) != 3) { bad("dist-row", "%.300s", o.c_str()); return; }
      if (fabsl(v - e.lat * D) > 3e-9L || fabsl(ang(w - rd(b) - e.dlon * D)) > 3e-9L / cosl(e.lat)) bad("dist-direct", "%.10f %.10f, should be %.10Lf %.10Lf", v, w, e.lat * D, rd(b) + e.dlon * D);
      if (s > 1 && fabsl(ang(r - e.az * D)) > 1e-6L / cosl(e.lat) + 1e-5L / (LD)s) bad("dist-reverse", "%.10f, should be %.10Lf", r, e.az * D); count("direct_runs"); }
   else { End e = direct(rd(a) / D, rd(z) / D, rd(d) * 1000 / A, f); string c = fmt("%.10f", (double)(e.lat * D)), g = fmt("%.10f", (double)(rd(b) + e.dlon * D)); if (prun({exe("dist"), a, b, c, g}, &o)) { bad("dist-exit", "%.300s", o.c_str()); return; }
      double v[9]; int n = 0; for (auto &l : lines(o)) { if (sscanf(l.c_str(), "From lat=%lf, lon=%lf to lat=%lf, lon=%lf", v, v + 1, v + 2, v + 3) == 4) n += 1; if (sscanf(l.c_str(), "Distance from 'round earth': %lf", v + 4) == 1) n += 10; if (sscanf(l.c_str(), "Distance from H. Andoyer: %lf", v + 5) == 1) n += 100; if (sscanf(l.c_str(), "Distance from Vincenty: %lf", v + 6) == 1) n += 1000; if (sscanf(l.c_str(), "Azimuth %lf (back az: %lf", v + 7, v + 8) == 2) n += 10000; }
      if (n != 11111) { bad("dist-rows", "%.500s", o.c_str()); return; }
      if (fabs(v[0] - rd(a)) > 6e-7 || fabs(v[1] - rd(b)) > 6e-7 || fabs(v[2] - rd(c)) > 6e-7 || fabs(v[3] - rd(g)) > 6e-7) bad("dist-echo", "%.200s", o.c_str());
      LD l1 = rd(a) / D, l2 = e.lat, y = sinl(e.dlon) * cosl(l2), x = cosl(l1) * sinl(l2) - sinl(l1) * cosl(l2) * cosl(e.dlon), w = sinl(l1) * sinl(l2) + cosl(l1) * cosl(l2) * cosl(e.dlon), sp = atan2l(hypotl(x, y), w) * 6371; bool far = s > 19000;
      if (fabsl(v[4] - sp) > 1e-5L + 1e-9L * sp) bad("dist-round", "%.6f km, should be %.6Lf", v[4], sp);
      if (fabsl(v[6] - s) > 3e-6L && !far) bad("dist-vincenty", "%.6f km, should be %.6f", v[6], s);
      if (fabs(v[5] - s) > .02 + 1e-5 * s && s < 15000) bad("dist-andoyer", "%.6f km, should be %.6f", v[5], s);
      if (s > 1 && !far && (fabsl(ang(v[7] - rd(z))) > 1e-7L + 3e-6L / s / cosl(e.lat) || fabsl(ang(v[8] - e.az * D)) > 1e-7L + 3e-6L / s / cosl(e.lat))) bad("dist-azimuth", "%.9f %.9f, should be %.9f %.9Lf", v[7], v[8], rd(z), w360(e.az * D)); count("inverse_runs"); }
}
static string unamp(string s) { size_t p; while ((p = s.find("&amp;")) != string::npos) s.replace(p, 5, "\1"); for (auto &c : s) if (c == '\1') c = '&'; return s; }
static void check_row(string l, const Obs &o, bool full) {   /* one line of mpc_code's table */
   bool sure; string reg = o.planet == 3 ? region((double)o.p.lat, (double)o.p.lon, &sure) : fmt("@%d", o.planet); if (o.planet != 3) sure = true; LD lon = w360(o.p.lon); double v; string t = l; if (!full) t = "   " + t; if (t.size() < 79) { bad("list-row", "'%s'", l.c_str()); return; }
   if (full && atoi(t.substr(0, 2).c_str()) != o.planet) bad("list-planet", "'%s'", l.c_str());
   string code = o.code; code.resize(4, ' '); if (t.substr(3, 4) != code) bad("list-code", "'%s' for '%s'", l.c_str(), o.line.c_str());
   LD unit = A; v = rd(t.substr(7, 11)); LD e = fabsl(ang(v - lon)); int n1 = 6; if (o.form == 1) { n1 = 0; while (isdigit((unsigned char)t[12 + n1]) && n1 < 6) n1++; if (n1 != o.pl || t.substr(12 + n1, 6 - n1).find_first_not_of(' ') != string::npos) bad("list-lon-digits", "'%s' shows %d decimals of '%s'", l.c_str(), n1, o.line.c_str()); }
   if (e > .51L * powl(10, -n1) + (o.form == 1 ? -0.5L * powl(10, -n1) : 0) + 1e-9L || v < 0 || v > 360.0000001) bad("list-lon", "'%s' for longitude %.9Lf", l.c_str(), lon);
   if (fabsl(rd(t.substr(19, 10)) - o.p.lat) > 6e-7L) bad("list-lat", "'%s' for latitude %.9Lf", l.c_str(), o.p.lat);
   if (fabsl(rd(t.substr(30, 10)) - o.p.alt) > 6e-4L + 1e-4L) bad("list-alt", "'%s' for altitude %.5Lf", l.c_str(), o.p.alt);
   int n2 = 7; if (o.form == 1) { n2 = 0; while (isdigit((unsigned char)t[43 + n2]) && n2 < 7) n2++; if (n2 != o.pc || t.substr(43 + n2, 7 - n2).find_first_not_of(' ') != string::npos || t.substr(54 + n2, 7 - n2).find_first_not_of(' ') != string::npos) bad("list-constant-digits", "'%s' shows %d decimals of '%s'", l.c_str(), n2, o.line.c_str()); }
   LD tt = o.form == 1 ? 1e-9L : 6e-8L; if (fabsl(rd(t.substr(41, 9)) - o.p.c / unit) > tt || fabsl(rd(t.substr(51, 10)) - o.p.s / unit) > tt) bad("list-constants", "'%s' for %.9Lf %.9Lf", l.c_str(), o.p.c / unit, o.p.s / unit);
   reg.resize(15, ' '); if (sure && t.substr(62, 15) != reg) bad("list-region", "'%s', expected '%s'", l.c_str(), reg.c_str());
   if (t.substr(79) != o.name) bad("list-name", "'%s' for '%s'", l.c_str(), o.name.c_str());
}
static void listing() {
   vector<const Obs *> ord; string file; vector<string> notes; bool rov = rng.chance(.4); vector<Obs> mine;
   for (auto &o : obs) if ((o.form == 2 || o.form == 3) == rov) mine.push_back(o);
   if (rng.chance(.3)) for (auto &o : obs) if ((o.form == 2 || o.form == 3) != rov) mine.push_back(o);
   if (rng.chance(.4)) { Obs o; o.code = "XXX"; o.form = 4; o.planet = 3; o.pl = o.pc = 0; int d = (int)rng.below(360), m = (int)rng.below(60), s = (int)rng.below(60), e = (int)rng.range(-89, 89), n = (int)rng.below(60), t = (int)rng.below(60), h = (int)rng.below(4000); o.p.lon = d + m / 60.L + s / 3600.L; o.p.lat = abs(e) + n / 60.L + t / 3600.L; if (e < 0) o.p.lat = -o.p.lat; o.p.alt = h; o.name = "Temporary MPC code"; geod(o.p.lat, h, &o.p.c, &o.p.s); o.line = fmt("COM Long. %d %02d %02d E, Lat. %d %02d %02d %c, Alt. %dm, Google Earth", d, m, s, abs(e), n, t, e < 0 ? 'S' : 'N', h); mine.insert(mine.begin() + rng.below(mine.size() + 1), o); }
   for (auto &o : mine) { file += o.line + (rng.chance(.05) ? "\r\n" : "\n"); if (rng.chance(.1)) { string c = fmt("# remark %d", (int)rng.below(1000)); file += c + "\n"; notes.push_back(c); } }
   if (!mine.empty() && !file.empty() && rng.chance(.1) && file.compare(file.find_last_of('\n', file.size() - 2) + 1, 1, "#")) file.pop_back();
   string dir = workdir + "/x"; mkdir(dir.c_str(), 0700); string bin = dir + "/mpc_code"; unlink(bin.c_str()); if (symlink(exe("mpc_code").c_str(), bin.c_str())) { bad("x", "symlink"); return; } put(dir + "/geo_rect.txt", rectfile); put(dir + "/mpc_hdr.htm", "# header\n<html><body>%s\n<pre>\n"); string fn = workdir + (rov ? "/rov.txt" : "/list.htm"); put(fn, file);
   int mode3 = (int)rng.below(4); bool v = rng.chance(.3) && mode3 != 2; vector<string> av = {bin, fn}; if (mode3 == 2) av.push_back("-k"); if (mode3 == 3) av.push_back("-g"); if (v) av.insert(av.begin() + rng.range(1, 2), "-v"); string out; if (prun(av, &out)) { bad("list-exit", "%.900s\n%s", out.c_str(), file.c_str()); return; }
   vector<string> L = lines(out); for (auto &l : L) if (!l.empty() && l.back() == '\r') l.pop_back();
   if (mode3 < 2) { size_t i = 0; const string H = "Pl Code Longitude  Latitude     Altitude rho_cos   rho_sin_phi  region"; if (L.size() < 2 || L[0] != H || L.back() != H) { bad("list-header", "%.200s", out.c_str()); return; } i = 1; size_t nn = 0; for (auto &l : vector<string>(L.begin() + 1, L.end() - 1)) { if (l[0] == '#') { if (!v || nn >= notes.size() || notes[nn] != l) bad("list-note", "'%s'", l.c_str()); nn++; continue; } if (i - 1 >= mine.size()) { bad("list-extra", "'%s'", l.c_str()); return; } check_row(l, mine[i - 1], true); i++; count("list_rows"); } if (i - 1 != mine.size()) bad("list-count", "%zu lines for %zu sites", i - 1, mine.size()); if (v && nn != notes.size()) bad("list-notes", "%zu of %zu remarks", nn, notes.size()); count("lists"); }
   else if (mode3 == 2) { size_t k = 0, d = 0; string nm, de; for (size_t q = 0; q < L.size(); q++) { const string &l = L[q]; size_t p; if ((p = l.find("<name>")) != string::npos && l.find(" MPC sites ") == string::npos) { nm = l.substr(p + 6, l.find("</name>") - p - 6); d++; } if ((p = l.find("<description>")) != string::npos && l.find("MPC observatory sites") == string::npos) { de = l.substr(p + 13, l.find("</description>") - p - 13); }
         for (size_t z = 0; (z = l.find('&', z)) != string::npos; z++) if (l.compare(z, 5, "&amp;")) bad("kml-ampersand", "'%s'", l.c_str());
         if ((p = l.find("<coordinates>")) != string::npos) { double a, b; while (k < mine.size() && !(mine[k].planet == 3 && (mine[k].p.lat != 0 || mine[k].p.lon != 0))) k++; if (k == mine.size()) { bad("kml-extra", "'%s'", l.c_str()); return; } const Obs &o = mine[k++]; if (nm != o.code || unamp(de) != o.name) bad("kml-name", "'%s' '%s' for '%s'", nm.c_str(), de.c_str(), o.line.c_str()); if (sscanf(l.c_str() + p + 13, "%lf,%lf", &a, &b) != 2 || fabsl(ang(a - o.p.lon)) > 6e-7L || fabsl(b - o.p.lat) > 6e-7L || fabs(a) > 180.0000001) bad("kml-place", "'%s' for %.7Lf %.7Lf", l.c_str(), o.p.lon, o.p.lat); count("placemarks"); } }
      while (k < mine.size() && !(mine[k].planet == 3 && (mine[k].p.lat != 0 || mine[k].p.lon != 0))) k++;
      if (k != mine.size()) bad("kml-count", "no placemark for '%s'", mine[k].line.c_str());
      int op = 0, cl = 0; for (auto &l : L) { for (size_t z = 0; (z = l.find("<Placemark>", z)) != string::npos; z++) op++; for (size_t z = 0; (z = l.find("</Placemark>", z)) != string::npos; z++) cl++; } if (op != cl || (size_t)op != d || out.compare(0, 5, "<?xml") || out.find("</Folder>\n</kml>\n") == string::npos) bad("kml-shape", "%d %d %zu", op, cl, d); count("kmls"); }
   else { size_t k = 0; for (auto &l0 : L) { string l = l0; if (l.compare(0, 10, "<a name=\"L")) continue; if (k >= mine.size()) { bad("html-extra", "'%s'", l.c_str()); return; } const Obs &o = mine[k]; if (l.compare(10, 4, fmt("%04zu", k))) bad("html-number", "'%s'", l.c_str()); k++; bool link = o.planet == 3 && (o.p.lat != 0 || o.p.lon != 0); size_t p; double a, b;
         if (link) { if (l.find("<a name=\"" + o.code + "\"></a>") == string::npos) bad("html-anchor", "'%s'", l.c_str()); p = l.find("maps?q="); if (p == string::npos || sscanf(l.c_str() + p + 7, "%lf,%lf", &a, &b) != 2 || fabsl(a - o.p.lat) > 6e-7L || fabsl(ang(b - o.p.lon)) > 6e-7L || fabs(b) > 180.0000001) bad("html-google", "'%s'", l.c_str()); p = l.find("maps/?cp="); if (p == string::npos || sscanf(l.c_str() + p + 9, "%lf~%lf", &a, &b) != 2 || fabsl(a - o.p.lat) > 6e-8L || fabsl(ang(b - o.p.lon)) > 6e-8L || fabs(b) > 180.0000001) bad("html-bing", "'%s'", l.c_str()); }
         else if (l.find("href") != string::npos) bad("html-link", "'%s'", l.c_str());
         string t; bool tag = false; if (link) { size_t np = l.rfind("</a>"); if (np == string::npos || l.size() < np + 4) { bad("html-close", "'%s'", l.c_str()); continue; } size_t bp = l.find("style=a'>"); string head, rest; size_t gp = l.find("\">", l.find("maps?q=")); head = l.substr(gp + 2, l.find("</a>", gp) - gp - 2); if (bp == string::npos) continue; rest = l.substr(bp + 9, np - bp - 9); t = head + " " + rest; } else { t = l.substr(l.find("</a>") + 4); } (void)tag;
         check_row(link ? unamp(t) : t, o, false); count("html_rows"); }
      if (k != mine.size()) bad("html-count", "%zu rows for %zu sites", k, mine.size()); count("htmls"); }
}
int main(int argc, char **argv) {
   init(argc, argv); gauss(); long n = budget(mode == "san" ? 60 : 500, mode == "san" ? 1500 : 20000);
   for (auto r : {"from_lat_lon", "from_xyz_metres", "from_constants", "rover_codes", "codes", "pairs", "cgi_lat_lon", "cgi_codes", "direct_runs", "inverse_runs", "list_rows", "placemarks", "html_rows", "regions", "map_links"}) need(r, 5);
   for (long i = 0; i < n; i++) {
      make_rects(); put(workdir + "/geo_rect.txt", rectfile); make_lists();
      for (int k = 0; k < 3; k++) { three(); if (k < 2) { xyz(); two(); } codes(); cgi(); dist_case(); }
      listing(); listing();
   }
   for (auto f : {"/geo_rect.txt", "/ObsCodes.htm", "/rovers.txt", "/list.htm", "/rov.txt", "/x/mpc_code", "/x/geo_rect.txt", "/x/mpc_hdr.htm"}) unlink((workdir + f).c_str());
   rmdir((workdir + "/x").c_str());
   return finish();
}
