/* P34: 'astcheck' and 'astephem' against positions computed from the generated orbits:
   which catalogued objects are near an observation, where, how bright and how fast. */
#include "vh.h"
#include "kepref.h"
#include "calref.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include <sys/stat.h>
#include <dirent.h>
using namespace vh;
using std::string; using std::vector;
int get_earth_loc(const double t_millennia, double *results);
static const double R = 180 / M_PI, AS = 3600 * 180 / M_PI, AU_M = 149597870700., CDAY = 299792458. * 86400 / AU_M, GK = .01720209895;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[800]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static double wrap(double x) { return x - 2 * M_PI * rint(x / (2 * M_PI)); }
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static double rd(const string &s) { return strtod(s.c_str(), NULL); }
static void greg_dmy(long jd, long *y, int *m, int *d) { *y = (long)((jd - 1721060) / 365.2425); while ((long)calref::greg_jd(*y + 1, 1, 1) <= jd) ++*y; while ((long)calref::greg_jd(*y, 1, 1) > jd) --*y; *m = 12; while ((long)calref::greg_jd(*y, *m, 1) > jd) --*m; *d = (int)(jd - (long)calref::greg_jd(*y, *m, 1)) + 1; }
struct Obj { string name, line; double q, e, i, O, w, tp, H, G; bool comet; };
struct Site { string code; double lon, c, s; };
struct Place { double ra, dec, dist, r, mag; };
static void put_at(string &s, size_t p, const string &t) { if (s.size() < p + t.size()) s.resize(p + t.size(), ' '); s.replace(p, t.size(), t); }
/* geocentric observer offset, equatorial, AU */
static void observer(double jd, const Site &st, double *e) {
   double T = (jd - 2451545) / 36525, g = (280.46061837 + 360.98564736629 * (jd - 2451545) + .000387933 * T * T) / R + st.lon, a = 6378140. / AU_M; /* sidereal time good to a few arcsec: parallax to well under .1" */
   double o[3] = {cos(g) * st.c * a, sin(g) * st.c * a, st.s * a}; const double ob = 23.4392911 / R;
   e[0] += o[0]; e[1] += o[1] * cos(ob) + o[2] * sin(ob); e[2] += -o[1] * sin(ob) + o[2] * cos(ob);
}
static Place place(const Obj &b, double jd, const Site *st, double obsjd = 0) {
   double e[6]; get_earth_loc(((obsjd ? obsjd : jd) - 2451545) / 365250, e); if (st) observer(obsjd ? obsjd : jd, *st, e);
   kepref::L P[3], S[3]; kepref::axes(b.i / R, b.O / R, b.w / R, P, S); double d = 0; Place p; double v[3];
   for (int k = 0; k < 12; k++) { kepref::L x, y, vx, vy; p.r = (double)kepref::perifocal(b.q, b.e, (kepref::L)GK * GK, jd - d / CDAY - b.tp, &x, &y, &vx, &vy); for (int i = 0; i < 3; i++) v[i] = (double)(x * P[i] + y * S[i]) - e[i]; d = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
   const double ob = 23.4392911 / R; double y = v[1] * cos(ob) - v[2] * sin(ob), z = v[1] * sin(ob) + v[2] * cos(ob);
   p.ra = atan2(y, v[0]); p.dec = asin(z / d); p.dist = d; double es = sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
   if (b.comet) p.mag = b.H ? b.G * log10(p.r) : 0; else if (!b.H) p.mag = 0; else { double c = (p.r * p.r + d * d - es * es) / (2 * p.r * d); if (c > 1) c = 1; double ph = acos(c), t = tan(ph / 2); p.mag = 5 * log10(p.r) - 2.5 * log10((1 - b.G) * exp(-3.33 * pow(t, .63)) + b.G * exp(-1.87 * pow(t, 1.22))); }
   p.mag += 5 * log10(d) + b.H; return p;
}
static const char *HDR = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";
static string ymd(double jd, int nd) { double s = pow(10., nd); long long u = llround((jd + .5) * s); long day = (long)(u / (long long)s); long y; int m, d; greg_dmy(day, &y, &m, &d); string r = fmt("%04ld%02d%02d", y, m, d); if (nd) r += fmt(".%0*lld", nd, u % (long long)s); return r; }
static void write_line(Obj &b) {
   static const char *cols[] = {"Name", "Tp", "Te", "q", "i", "Om", "om", "e", "rms", "n_o", "Tfirst", "Tlast", "Perts", "H", "G"}; (void)cols;
   double tp = b.tp; string t = ymd(tp, 7); { long day = (long)calref::greg_jd(atol(t.substr(0, 4).c_str()), atoi(t.substr(4, 2).c_str()), atoi(t.substr(6, 2).c_str())); b.tp = day - .5 + rd("0" + t.substr(8)); }
   string q = fmt("%11.8f", b.q), I = fmt("%10.6f", b.i), O = fmt("%10.6f", b.O), w = fmt("%10.6f", b.w), e = fmt("%10.8f", b.e), H = b.H ? fmt("%5.2f", b.H) : string("     "), G = fmt("%5.2f", b.G);
   b.q = rd(q); b.i = rd(I); b.O = rd(O); b.w = rd(w); b.e = rd(e); b.H = rd(H); b.G = rd(G);
   string n = b.name; n.resize(12, ' ');
   b.line = n + " " + t + " 20240101 " + q + " " + I + " " + O + " " + w + " " + e + " 0.50   100 20000101 20240101 M-v 38h " + H + " " + G + "\n";
}
static Obj orbit() {
   Obj b; b.comet = rng.chance(.15); double a = rng.chance(.6) ? rng.uni(1.8, 4) : rng.chance(.5) ? rng.logu(.7, 60) : rng.uni(.6, 2);
   b.e = rng.chance(.2) ? rng.uni(0, .95) : rng.uni(0, .35); if (b.comet) b.e = rng.chance(.3) ? rng.uni(.99, 1.1) : rng.uni(.4, .99); b.q = b.comet && b.e > .98 ? rng.uni(.3, 5) : a * (1 - b.e); if (b.q < .02) b.q = .02; if (b.q > 90) b.q = 90;
   b.i = rng.chance(.5) ? rng.uni(0, 25) : rng.uni(0, 179); b.O = rng.uni(0, 360); b.w = rng.uni(0, 360); b.H = rng.chance(.05) ? 0 : rng.uni(8, 20); b.G = b.comet ? rng.uni(8, 12) : rng.chance(.6) ? .15 : rng.uni(.0, .5); b.tp = 0; return b;
}
static vector<Obj> catalogue(int n, double jd) {
   vector<Obj> v; std::set<string> names; Obj base = orbit(); base.tp = jd + rng.uni(-300, 300);
   for (int k = 0; k < n; k++) {
      Obj b; bool cl = k > 0 && rng.chance(.65); if (cl && v.size() > 4 && rng.chance(.15)) base = rng.pick(v);
      if (cl) { b = base; double s = rng.chance(.5) ? 3 : .3; b.O += rng.uni(-s, s); b.w += rng.uni(-s, s); b.i += rng.uni(-s, s); if (b.i < 0) b.i = -b.i; if (b.i > 179.9) b.i = 179.9; b.q *= 1 + rng.uni(-.005, .005) * s; if (b.q > 95) b.q = 95; b.tp += rng.uni(-4, 4) * s; if (rng.chance(.5)) b.H = rng.uni(8, 22); }
      else { b = orbit(); b.tp = b.e < .98 ? jd + rng.uni(-.5, .5) * 2 * M_PI * pow(b.q / (1 - b.e), 1.5) / GK : jd + rng.uni(-900, 900); double lim = 60000; if (b.tp < jd - lim) b.tp = jd - lim; if (b.tp > jd + lim) b.tp = jd + lim; if (rng.chance(.4)) base = b; }
      b.O = fmod(b.O + 720, 360); b.w = fmod(b.w + 720, 360);
      do { if (b.comet) b.name = rng.chance(.5) ? fmt("%c/%ld %c%ld", "CCCPDXA"[rng.below(7)], rng.range(1990, 2030), (char)('A' + rng.below(8)), rng.range(1, 30)) : fmt("%3ld%c", rng.range(1, 499), rng.chance(.6) ? 'P' : "DAXC"[rng.below(4)]); else b.name = rng.chance(.5) ? fmt("%7ld", rng.range(1, 999999)) : fmt("%ld %c%c%ld", rng.range(1990, 2030), (char)('A' + rng.below(8)), (char)('A' + rng.below(8)), rng.range(1, 300)); if (!b.comet && b.name.size() > 3 && strchr("APXCD", b.name[3])) b.name = ""; } while (b.name.empty() || !names.insert(b.name).second);
      write_line(b); v.push_back(b);
   }
   return v;
}
struct Ob { string id, line; double jd, ra, dec; string code; };
static string dat(double jd, double *back) { long long u = llround((jd + .5) * 1e5); long day = (long)(u / 100000); long y; int m, d; greg_dmy(day, &y, &m, &d); *back = day - .5 + (u % 100000) / 1e5; return fmt("%04ld %02d %02d.%05lld", y, m, d, u % 100000); }
static Ob observe(const string &id, double jd, double ra, double dec, const string &code) {
   Ob o; o.id = id; o.code = code; string l(80, ' '); put_at(l, 0, id); l[14] = 'C'; put_at(l, 15, dat(jd, &o.jd)); ra = fmod(ra + 4 * M_PI, 2 * M_PI);
   long u = lround(ra * R / 15 * 3600e2) % (24 * 360000L); put_at(l, 32, fmt("%02ld %02ld %02ld.%02ld", u / 360000, u / 6000 % 60, u / 100 % 60, u % 100)); o.ra = u / 3600e2 * 15 / R;
   long w = lround(fabs(dec) * R * 36000); if (w > 90 * 36000) w = 90 * 36000; put_at(l, 44, fmt("%c%02ld %02ld %02ld.%ld", dec < 0 ? '-' : '+', w / 36000, w / 600 % 60, w / 10 % 60, w % 10)); o.dec = (dec < 0 ? -1 : 1) * (w / 36000.) / R;
   put_at(l, 65, "18.5 V"); put_at(l, 77, code); o.line = l + "\n"; return o;
}
static string dir;
static string sof(const vector<Obj> &c) { string s = HDR; for (auto &b : c) s += b.line; return s; }
/* day files cut short or left over-long, as by a process that was killed while it wrote */
static void maim(size_t n) {
   DIR *d = opendir(dir.c_str()); if (!d) return; while (struct dirent *e = readdir(d)) if (strstr(e->d_name, ".chk") && rng.chance(.5)) { long full = 16 + 4L * (long)n, to = rng.chance(.3) ? 16 : rng.chance(.2) ? full + (long)rng.range(1, 40) : (long)rng.below(full); if (!truncate((dir + "/" + e->d_name).c_str(), to)) count("maimed_day_files"); } closedir(d);
}
static int runin(const vector<string> &av, string *o) { return run(av, o); }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static vector<Site> sites; static string sitefile, rovers;
static void make_sites() {
   sites.clear(); sitefile = "<pre>\nCode  Long.   cos      sin    Name\n"; rovers = "# rovers\n";
   for (int k = 0; k < 6; k++) {
      Site s; s.code = k == 0 ? "500" : fmt("%c%02d", "GHIJKL"[k], (int)rng.below(100)); double lat = rng.uni(-80, 80) / R; s.lon = k ? rng.uni(0, 360) : 0; s.c = k ? cos(lat) * .998 : 0; s.s = k ? sin(lat) * .996 : 0;
      string a = fmt("%09.5f", s.lon), b = fmt("%8.6f", s.c), c = fmt("%+9.6f", s.s); s.lon = rd(a) / R; s.c = rd(b); s.s = rd(c);
      string L = s.code + " " + a + b + c + " Site\n"; if (!k) L = "500   0.000000.000000 0.000000Geocentric\n"; else L = s.code + " " + a + b + c + "Observatory\n";
      if (k == 5) rovers += L; else sitefile += L; sites.push_back(s);
   }
   sitefile += "</pre>\n";
}
struct Exp { const Obj *b; Place p; double dra, ddec, dist, mra, mdec; };
static double mx[6];
static void check_row(const string &l, const vector<Exp> &ex, const char *key, const Exp **hit) {
   string n = l.substr(0, 12); while (!n.empty() && n.back() == ' ') n.pop_back(); *hit = NULL;
   for (auto &x : ex) if (x.b->name == n) *hit = &x;
   if (!*hit) bad(fmt("%s-name", key), "a row for '%s', which isn't in the catalogue: '%s'", n.c_str(), l.c_str());
}
static void near_obs(vector<Obj> &cat, double jd0, int round, long only = -1) {
   double tol = rng.chance(.3) ? 18000 : rng.chance(.03) ? rng.uni(100000, 4e6) : rng.logu(300, 40000), lim = rng.chance(.4) ? 22 : rng.uni(12, 24), mt = rng.chance(.4) ? 10 : rng.chance(.5) ? rng.uni(2, 60) : 1e5; int maxr = rng.chance(.6) ? 100 : (int)rng.range(1, 15);
   bool sweep = only < 0 && rng.chance(.2); if (sweep) { tol = rng.uni(500, 1500); lim = 40; mt = 1e5; maxr = 100; }
   bool nosites = rng.chance(.1); vector<vector<Ob>> groups; vector<string> file; std::set<string> ids;
   int ng = sweep ? 8 : (int)rng.range(1, 5); string lastid;
   for (int g = 0; g < ng; g++) {
      const Obj &b = only < 0 ? rng.pick(cat) : cat[only]; Site st = nosites ? Site{"500", 0, 0, 0} : rng.pick(sites); double jd = sweep ? jd0 + rng.uni(-2, 2) : rng.chance(.5) ? jd0 + rng.uni(-.4, .4) : jd0 + rng.uni(-30, 30); string id; if (rng.chance(.1)) { st = Site{"Z0" + string(1, (char)('0' + rng.below(10))), 0, 0, 0}; count("unknown_stations"); } do { if (!lastid.empty() && rng.chance(.3)) { id = lastid; id[11] = (char)('0' + rng.below(10)); } else id = fmt("     %c%c%05ld ", (char)('A' + rng.below(26)), (char)('a' + rng.below(26)), rng.range(0, 99999)); id.resize(12, ' '); } while (!ids.insert(id).second); lastid = id;
      double dT = td_minus_ut(jd) / 86400; Place p = place(b, jd + dT, &st); double off = sweep ? rng.uni(0, 60) : rng.chance(.5) ? rng.uni(0, 1.2) * std::min(tol, 20000.) : rng.uni(0, 60), an = rng.uni(0, 2 * M_PI), cd = cos(p.dec); if (cd < 1e-4) cd = 1e-4;
      double ra = p.ra + off * cos(an) / AS / cd, dec = p.dec + off * sin(an) / AS; if (fabs(dec) > 1.57) dec = p.dec; if (rng.chance(.08)) { ra = rng.uni(-.02, .02); }
      if (rng.chance(.08)) dec = (dec < 0 ? -1 : 1) * rng.uni(75, 89.5) / R;
      vector<Ob> gr; int no = rng.chance(.25) ? 1 : (int)rng.range(2, 4); double t = jd, vr = rng.uni(-30, 30) * (rng.chance(.5) ? 1 : .1), vd = rng.uni(-30, 30) * (rng.chance(.5) ? 1 : .1);
      for (int k = 0; k < no; k++) { Place pk = place(b, t + dT, &st); double dh = (t - jd) * 24; Site s2 = st; if (!nosites && k && rng.chance(.15)) s2 = rng.pick(sites); double rk = ra + wrap(pk.ra - p.ra) + vr * dh / AS / cos(dec), dk = dec + pk.dec - p.dec + vd * dh / AS; if (fabs(dk) > 1.57) dk = dec; gr.push_back(observe(id, t, rk, dk, s2.code)); if (k && rng.chance(.1)) gr.push_back(gr[0]); t += rng.chance(.2) ? rng.uni(1, 4) : rng.uni(.01, .2); }
      for (auto &o : gr) file.push_back(o.line); groups.push_back(gr);
   }
   for (size_t i = file.size(); i > 1; i--) std::swap(file[i - 1], file[rng.below(i)]);
   string txt; for (auto &l : file) { txt += l; if (rng.chance(.1)) txt += "COM a remark\n"; }
   string of = workdir + "/obs.txt"; put(of, txt); if (nosites) unlink((dir + "/ObsCodes.htm").c_str()); else put(dir + "/ObsCodes.htm", sitefile);
   vector<string> av = {tools + "/astcheck", of, "-p" + dir}; auto opt = [&](const string &o, const string &v) { if (rng.chance(.5)) av.push_back(o + v); else { av.push_back(o); av.push_back(v); } };
   string tt = fmt("%.2f", tol), lt = fmt("%.3f", lim), mtt = fmt("%.3f", mt); tol = rd(tt); lim = rd(lt); mt = rd(mtt); bool lov = rng.chance(.2), nh = rng.chance(.2);
   if (tol != 18000) opt("-r", tt);
   if (lim != 22) opt("-m", lt);
   if (mt != 10) opt("-z", mtt);
   if (maxr != 100) opt("-M", fmt("%d", maxr));
   if (lov) av.push_back("-l");
   if (nh) av.push_back("-h");
   if (rng.chance(.15)) { put(dir + "/other.sof", sof(cat)); opt("-f", "other.sof"); count("named_catalogue"); } else unlink((dir + "/other.sof").c_str());
   vector<std::pair<int, int>> cut; vector<string> mpcorb; size_t tail = 0;
   if (rng.chance(.25)) { int len = rng.chance(.5) ? 202 : (int)rng.range(60, 202); string ff = "MPCORB\n", ar; for (int k = 0, n = (int)rng.below(5); k < n; k++) ff += "header line " + string(rng.below(60), '-') + "\n"; for (size_t k = 0; k < cat.size(); k++) { string t = k ? "" : "00001 "; while ((int)t.size() < len) t += (char)rng.range(33, 126); mpcorb.push_back(t); ff += t + "\n"; } put(dir + (rng.chance(.5) ? "/mpcorb.dat" : "/MPCORB.DAT"), ff); for (int k = 0, n = (int)rng.range(1, 3); k < n; k++) { int a = (int)rng.range(1, len), c = (int)rng.range(1, std::min(20, len - a + 1)); cut.push_back({a, c}); ar += fmt("%s%d,%d", k ? (rng.chance(.5) ? ";" : " ") : "", a, c); tail += c + 1; } opt("-e", ar); count("extracts"); }
   string o; string desc; for (auto &s : av) desc += s + " "; cur("%s (%zu objects, %d groups): %.3000s", desc.c_str(), cat.size(), ng, txt.c_str()); int rc = runin(av, &o); unlink((dir + "/mpcorb.dat").c_str()); unlink((dir + "/MPCORB.DAT").c_str());
   if (rc) { bad("astcheck-exit", "exit %d: %.1200s", rc, o.c_str()); return; }
   vector<string> L = lines(o);
   for (auto &gr : groups) {
      std::sort(gr.begin(), gr.end(), [](const Ob &a, const Ob &b) { return a.line.substr(15, 16) < b.line.substr(15, 16); });
      bool amb = false; for (size_t k = 1; k < gr.size(); k++) if (gr[k].jd == gr[0].jd && gr[k].line != gr[0].line) amb = true;
      if (amb) continue;
      const Ob &f = gr[0]; const Site *st = NULL; for (auto &s : sites) if (s.code == f.code) st = &s; Site none = {"500", 0, 0, 0}; if (nosites || f.code[0] == 'Z') st = &none;
      double dT = td_minus_ut(f.jd) / 86400, jd = f.jd + dT, jd2 = jd + 1e-6, mr = 0, md = 0; bool single = true;
      for (size_t k = 1; k < gr.size(); k++) if (gr[k].code == f.code && gr[k].jd != f.jd && fabs(gr[k].jd - f.jd) < 10 && fabs(wrap(gr[k].ra - f.ra)) < 5 / R && fabs(gr[k].dec - f.dec) < 5 / R) { double d = gr[k].jd - f.jd; mr = wrap(gr[k].ra - f.ra) / d * cos(f.dec) * AS / 24; md = (gr[k].dec - f.dec) / d * AS / 24; jd2 = gr[k].jd + dT; single = false; }
      if (!single && mr == 0 && md == 0) continue;
      size_t at = 0; while (at < L.size() && L[at].compare(0, 13, f.id + ":")) at++;
      if (at == L.size()) { bad("astcheck-group", "no line for '%s': %.500s", f.id.c_str(), o.c_str()); continue; }
      double pm[3] = {0, 0, 0}; bool one = L[at].find("only one observation") != string::npos;
      if (one != single) bad("astcheck-single", "'%s' with %zu observations", L[at].c_str(), gr.size());
      if (!one && (sscanf(L[at].c_str() + 13, "%lf\"/hr in RA, %lf\"/hr in dec (%lf hours)", pm, pm + 1, pm + 2) != 3 || fabs(pm[0] - mr) > .51 + 1e-3 * fabs(mr) || fabs(pm[1] - md) > .51 + 1e-3 * fabs(md) || fabs(pm[2] - (jd2 - jd) * 24) > .0052)) bad("astcheck-motion", "'%s': motion should be %.2f %.2f in %.3f hours", L[at].c_str(), mr, md, (jd2 - jd) * 24);
      vector<Exp> ex; for (auto &b : cat) { Exp x; x.b = &b; x.p = place(b, jd, st); x.dra = wrap(x.p.ra - f.ra) * cos(f.dec) * AS; x.ddec = (x.p.dec - f.dec) * AS; x.dist = hypot(x.dra, x.ddec); double j2 = single ? jd + 1e-3 : jd2; Place p2 = place(b, j2, st); double h = (j2 - jd) * 24; x.mra = wrap(p2.ra - x.p.ra) * cos(f.dec) * AS / h; x.mdec = (p2.dec - x.p.dec) * AS / h; ex.push_back(x); }
      std::map<string, int> got; double last = -1; int rows = 0;
      for (size_t k = at + 1; k < L.size() && L[k].size() > 60 && L[k].compare(12, 14, "              ") == 0; k++) {
         string l = L[k]; rows++; string ext; if (tail && l.size() > tail) { ext = l.substr(l.size() - tail); l.resize(l.size() - tail); } const Exp *x; check_row(l, ex, "astcheck", &x); if (!x) continue; if (tail) { string e; for (auto &z : cut) e += " " + mpcorb[x->b - &cat[0]].substr(z.first - 1, z.second); if (e != ext) bad("astcheck-extract", "'%s' where '%s' belongs", ext.c_str(), e.c_str()); } if (got[x->b->name]++) bad("astcheck-twice", "'%s' is listed twice", l.c_str());
         double a = rd(l.substr(26, 6)), b = rd(l.substr(33, 6)), d = rd(l.substr(41, 6)), m = rd(l.substr(49, 4)), u = rd(l.substr(54, 5)), w = rd(l.substr(59, 5)); if (tol > 95000) { if (sscanf(l.c_str() + 26, "%lf %lf %lf", &a, &b, &d) != 3) bad("astcheck-row", "'%s'", l.c_str()); }
         double nearf = 1.5 + .3 / x->p.dist; 
         if (fabs(a + x->dra) > nearf || fabs(b + x->ddec) > nearf || fabs(d - x->dist) > nearf) bad("astcheck-offset", "'%s': offsets should be %.1f %.1f %.1f; %s", l.c_str(), -x->dra, -x->ddec, x->dist, x->b->line.c_str());
         mx[0] = std::max(mx[0], fabs(a + x->dra));
         if (tol < 95000) { if (!x->b->H) { if (l.compare(49, 5, "-----")) bad("astcheck-nomag", "'%s' has no magnitude in the catalogue", l.c_str()); } else if (fabs(m - x->p.mag) > .07) bad("astcheck-mag", "'%s': magnitude should be %.2f", l.c_str(), x->p.mag); mx[1] = std::max(mx[1], x->b->H ? fabs(m - x->p.mag) : 0.);
            double mtl = .8 + .01 * hypot(x->mra, x->mdec); if (fabs(u) < 9990 && fabs(w) < 9990 && (fabs(u - x->mra) > mtl || fabs(w - x->mdec) > mtl)) bad("astcheck-rate", "'%s': motion should be %.2f %.2f", l.c_str(), x->mra, x->mdec); }
         if (d < last && tol < 95000) bad("astcheck-order", "'%s' after one at %.0f", l.c_str(), last);
         last = d;
         if (x->dist > tol + 2) bad("astcheck-far", "'%s' is listed, at %.1f arcseconds; limit %.1f", l.c_str(), x->dist, tol);
         if (x->p.mag > lim + .02) bad("astcheck-faint", "'%s' is listed, at magnitude %.2f; limit %.2f", l.c_str(), x->p.mag, lim);
         if (!single && (fabs(x->mra - mr) > mt + .2 + .002 * mt || fabs(x->mdec - md) > mt + .2 + .002 * mt)) bad("astcheck-moving", "'%s' is listed; motion differs by %.2f %.2f, limit %.2f", l.c_str(), x->mra - mr, x->mdec - md, mt);
         if (lov) { Place p2 = place(*x->b, jd + .1, st, jd); double r2 = wrap(p2.ra - f.ra) * cos(f.dec) * AS - x->dra, d2 = (p2.dec - f.dec) * AS - x->ddec, v = (x->dra * d2 - r2 * x->ddec) / hypot(r2, d2), pv = rd(l.substr(l.find_last_of(' ') + 1)); if (hypot(r2, d2) > 20 && fabs(v - pv) > 3 + .02 * fabs(x->dist)) bad("astcheck-lov", "'%s': %.1f from the line of variation", l.c_str(), v); else count("lov"); }
         count("rows"); count(x->b->comet ? "comet_rows" : "asteroid_rows"); if (fabs(f.dec) > 60 / R) count("high_dec_rows"); if (fabs(x->p.ra) < 3 / R) count("zero_hour_rows"); if (fabs(fabs(x->p.ra) - M_PI) < 3 / R) count("twelve_hour_rows"); if (!single) count("moving_rows"); if (tol > 95000) count("wide_rows"); seen(mix(hdbl(x->dist), hdbl(x->p.mag)));
      }
      if (rows > maxr) bad("astcheck-max", "%d rows with -M%d", rows, maxr);
      int must = 0; vector<const Exp *> miss;
      for (auto &x : ex) { double marg = 150 + 30 / x.p.dist; bool ok = x.p.dist > .25 && x.dist < tol - marg && x.p.mag < lim - .02 && (single || (fabs(x.mra - mr) < mt - .2 - .002 * mt && fabs(x.mdec - md) < mt - .2 - .002 * mt)); if (hypot(x.mra, x.mdec) > 300) ok = false; if (tol > 95000 && !(x.dist < 640000)) ok = ok && false; if (ok) { must++; if (!got.count(x.b->name)) miss.push_back(&x); } }
      if (rows < maxr) for (auto x : miss) bad("astcheck-missed", "'%s' is %.1f arcseconds away (%.1f %.1f), magnitude %.2f, motion %.2f %.2f, but isn't listed (limits %.1f, %.2f, %.2f about %.2f %.2f; declination %.3f; distance %.3f; %s)", x->b->name.c_str(), x->dist, x->dra, x->ddec, x->p.mag, x->mra, x->mdec, tol, lim, mt, mr, md, f.dec * R, x->p.dist, x->b->line.c_str());
      else if (tol < 95000) for (auto x : miss) if (x->dist < last - 2) bad("astcheck-nearest", "'%s' at %.1f isn't among the nearest %d", x->b->name.c_str(), x->dist, maxr);
      count("groups"); if (!single) count("moving_groups"); count("must_list", must); if (!must) count("empty_groups"); if (round) count("after_cache");
   }
}
static void list_mode(vector<Obj> &cat, double jd0) {
   const Obj &b = rng.pick(cat); const Site st = rng.pick(sites); double back; string d = dat(jd0 + rng.uni(-20, 20), &back); static const char *mn = "janfebmaraprmayjunjulaugsepoctnovdec"; string t = d.substr(0, 4) + string(mn + 3 * (atoi(d.substr(5, 2).c_str()) - 1), 3) + fmt("%d", atoi(d.substr(8, 2).c_str())) + d.substr(10);
   double jd = back + td_minus_ut(back) / 86400; Place p = place(b, jd, &st); string ra = fmt("%.5f", fmod(p.ra * R + rng.uni(-1, 1) + 360, 360)), dec = fmt("%.5f", std::max(-89., std::min(89., p.dec * R + rng.uni(-1, 1)))); double tol = rng.uni(1000, 30000), lim = rng.uni(15, 25); double fr = rd(ra) / R, fd = rd(dec) / R; put(dir + "/ObsCodes.htm", sitefile);
   string o; vector<string> av = {tools + "/astcheck", "-c", t, ra, dec, st.code, fmt("-r%.0f", tol), fmt("-m%.2f", lim), "-p", dir}; tol = rd(fmt("%.0f", tol)); lim = rd(fmt("%.2f", lim));
   string desc; for (auto &s : av) desc += s + " "; cur("%s", desc.c_str()); int rc = runin(av, &o); if (rc) { bad("list-exit", "exit %d: %.1200s", rc, o.c_str()); return; }
   vector<Exp> ex; for (auto &c : cat) { Exp x; x.b = &c; x.p = place(c, jd, &st); x.dra = wrap(x.p.ra - fr) * cos(fd) * AS; x.ddec = (x.p.dec - fd) * AS; x.dist = hypot(x.dra, x.ddec); Place p2 = place(c, jd + 1e-3, &st); x.mra = wrap(p2.ra - x.p.ra) * cos(fd) * AS / 1.44; x.mdec = (p2.dec - x.p.dec) * AS / 1.44; ex.push_back(x); }
   std::set<string> got; for (auto &l : lines(o)) { if (l.size() < 65 || l.compare(12, 14, "              ") || (l[26] != '0' && l[26] != '1' && l[26] != '2' && l[26] != '3') || l[37] == ' ') continue; const Exp *x; check_row(l, ex, "list", &x); if (!x) continue; if (!got.insert(x->b->name).second) bad("list-twice", "'%s'", l.c_str());
      double v[5]; string mg = l.substr(49, 5); if (sscanf(l.c_str() + 26, "%lf %lf", v, v + 1) != 2 || sscanf(l.c_str() + 54, "%lf %lf", v + 3, v + 4) != 2) { bad("list-row", "'%s'", l.c_str()); continue; } v[2] = rd(mg);
      if (fabs(wrap(v[0] / R - x->p.ra)) * AS * cos(x->p.dec) > 1.5 || fabs(v[1] / R - x->p.dec) * AS > 1.5 || v[0] < 0 || v[0] >= 360.0000001) bad("list-place", "'%s': place should be %.6f %.6f", l.c_str(), x->p.ra * R, x->p.dec * R);
      if (x->b->H ? fabs(v[2] - x->p.mag) > .025 && x->p.mag > 0 : mg != "-----") bad("list-mag", "'%s': magnitude should be %.3f", l.c_str(), x->p.mag);
      if (fabs(v[3] * 60 - x->mra * 60 / 60 * 1) > 1e9) count("x"); double er = x->mra / 60, ed = x->mdec / 60; er *= 60; ed *= 60; /* arcsec/minute of time = arcsec/hour / 60 */
      if (fabs(v[3] - x->mra) > .02 + .02 * fabs(x->mra) + .004 || fabs(v[4] - x->mdec) > .024 + .02 * fabs(x->mdec)) bad("list-rate", "'%s': motion should be %.4f %.4f arcsec/minute", l.c_str(), x->mra, x->mdec);
      if (x->dist > tol + 2) bad("list-far", "'%s' at %.1f, limit %.1f", l.c_str(), x->dist, tol);
      if (x->p.mag > lim + .02) bad("list-faint", "'%s' of %.2f, limit %.2f", l.c_str(), x->p.mag, lim);
      count("list_rows"); }
   for (auto &x : ex) if (x.p.dist > .25 && x.dist < tol - 150 - 30 / x.p.dist && x.p.mag < lim - .02 && hypot(x.mra, x.mdec) < 5 && !got.count(x.b->name)) bad("list-missed", "'%s' is %.1f away (limit %.1f), magnitude %.2f (limit %.2f), but isn't listed", x.b->name.c_str(), x.dist, tol, x.p.mag, lim);
   count("lists");
}
static void clean() { DIR *d = opendir(dir.c_str()); if (!d) return; while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
/* several instances started together in a directory without day files */
static void parallel(vector<Obj> &cat, double jd0) {
   put(dir + "/ObsCodes.htm", sitefile); const Obj &b = rng.pick(cat); Place p = place(b, jd0, &sites[0]); string f = workdir + "/par.txt"; put(f, observe("     PAR0001 ", jd0, p.ra, p.dec, "500").line.c_str()); const int N = 6; pid_t pid[N]; string ref;
   cur("%d instances of astcheck at once, %zu objects", N, cat.size()); int rounds = thorough ? 12 : 2;
   for (int r = 0; r < rounds; r++) {
      DIR *d = opendir(dir.c_str()); if (d) { while (struct dirent *e = readdir(d)) if (strstr(e->d_name, ".chk")) unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
      for (int k = 0; k < N; k++) { string of = fmt("%s/par%d.out", workdir.c_str(), k); int us = (int)rng.below(3000); pid[k] = fork(); if (!pid[k]) { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL); int fd = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); if (chdir(workdir.c_str())) _exit(126); usleep((useconds_t)us); alarm(80); string a0 = tools + "/astcheck", pp = "-p" + dir; execl(a0.c_str(), a0.c_str(), f.c_str(), pp.c_str(), "-h", "-r60000", "-m99", "-M9999", (char *)NULL); _exit(127); } }
      for (int k = 0; k < N; k++) { int st; waitpid(pid[k], &st, 0); string o; FILE *fp = fopen(fmt("%s/par%d.out", workdir.c_str(), k).c_str(), "rb"); char bf[4096]; size_t n; if (fp) { while ((n = fread(bf, 1, sizeof bf, fp)) > 0) o.append(bf, n); fclose(fp); } if (st) bad("parallel-exit", "instance %d: status %d: %.600s", k, st, o.c_str()); if (ref.empty()) ref = o; else if (o != ref) bad("parallel", "instance %d printed something else: %.400s", k, o.c_str()); count("parallel_instances"); }
   }
   if (ref.find(b.name) == string::npos) bad("parallel-missed", "'%s' isn't in: %.500s", b.name.c_str(), ref.c_str());
}
static void ephem() {
   int n = (int)rng.range(1, 40), nn = (int)rng.below(n + 1); vector<Obj> v; vector<double> ep; string f; vector<string> des; for (int k = nn; k < n; k++) des.push_back(fmt("%ld %c%c%ld", rng.range(1950, 2030), (char)('A' + rng.below(24)), (char)('A' + rng.below(24)), rng.range(1, 300))); std::sort(des.begin(), des.end()); des.erase(std::unique(des.begin(), des.end()), des.end()); n = nn + (int)des.size();
   for (int k = 0; k < n; k++) { Obj b = orbit(); b.comet = false; if (b.e > .97) b.e = .97; double a = b.q / (1 - b.e); if (a > 900) a = 900; string s(267, ' '), A = fmt("%13.8f", a), E = fmt("%10.8f", b.e), I = fmt("%10.6f", b.i), O = fmt("%10.6f", b.O), w = fmt("%10.6f", b.w), M = fmt("%10.6f", rng.uni(0, 359.9)), H = fmt("%5.2f", rng.uni(3, 20)), G = fmt("%5.2f", b.G > .5 ? .15 : b.G); long y = rng.range(1990, 2030); int m = (int)rng.range(1, 12), d = (int)rng.range(1, 28);
      b.name = k < nn ? fmt("%d", k + 1) : des[k - nn]; if (k < nn) { put_at(s, 0, fmt("%6d", k + 1)); put_at(s, 7, fmt("Name%d", k)); } else put_at(s, 7, des[k - nn]);
      put_at(s, 26, "E. Bowell"); put_at(s, 42, H); put_at(s, 48, G); put_at(s, 106, fmt("%04ld%02d%02d", y, m, d)); put_at(s, 115, M); put_at(s, 126, w); put_at(s, 137, O); put_at(s, 147, I); put_at(s, 158, E); put_at(s, 168, A); s.resize(267, ' '); f += s + "\n";
      a = rd(A); b.e = rd(E); b.q = a * (1 - b.e); b.i = rd(I); b.O = rd(O); b.w = rd(w); b.H = rd(H); b.G = rd(G); b.tp = (double)calref::greg_jd(y, m, d) - .5 - rd(M) / R * a * sqrt(a) / GK; v.push_back(b); }
   put(workdir + "/astorb.dat", f); int k = (int)rng.below(n); bool none = rng.chance(.15); string nm = none ? (rng.chance(.5) ? fmt("%d", rng.chance(.5) ? n + (int)rng.range(1, 9) : -(int)rng.range(0, 5)) : rng.chance(.5) ? string("1949 ZZ999") : string("2031 AA")) : v[k].name; if (!none && k < nn && rng.chance(.0)) nm = v[k].name;
   double back, step = rng.chance(.3) ? 1 : rng.chance(.5) ? rng.uni(.1, 40) : -rng.uni(.1, 40); string st = fmt("%.3f", step); step = rd(st); int ni = (int)rng.range(1, 40); string d = dat(2451545 + rng.uni(-9000, 9000), &back); static const char *mn = "janfebmaraprmayjunjulaugsepoctnovdec"; string t = d.substr(0, 4) + " " + string(mn + 3 * (atoi(d.substr(5, 2).c_str()) - 1), 3) + " " + d.substr(8);
   string o; vector<string> av = {tools + "/astephem", "-o" + nm, "-t" + t, "-s" + st, fmt("-n%d", ni)}; string desc; for (auto &s : av) desc += s + "|"; cur("%s (%d records, %d numbered)", desc.c_str(), n, nn); int rc = runin(av, &o);
   if (none) { if (!rc || o.find("not found") == string::npos) bad("ephem-none", "exit %d for '%s': %.300s", rc, nm.c_str(), o.c_str()); count("ephem_not_found"); return; }
   if (rc) { bad("ephem-exit", "exit %d: %.500s", rc, o.c_str()); return; }
   int i = 0; for (auto &l : lines(o)) { if (l.find("dist") != string::npos) continue; double jd = back + i * step; i++; int dd, h, m, s, t10; long yy; char mon[9], sg; int dg; double mi, dist, r, mg, el; if (sscanf(l.c_str(), "%d %3s %ld: %dh%dm%d.%ds %c%d %lf' %lf %lf %lf %lf", &dd, mon, &yy, &h, &m, &s, &t10, &sg, &dg, &mi, &dist, &r, &mg, &el) != 14) { bad("ephem-row", "'%s'", l.c_str()); continue; }
      Place p = place(v[k], jd, NULL); double ra = (h * 3600 + m * 60 + s + t10 / 10. + .05) * 15 / AS, dec = (dg + mi / 60) / R * (sg == '-' ? -1 : 1), lt = .01 / CDAY * 2.2 / p.dist; lt += 0; double tolr = .02 / R / 60 + .8 / AS + .01 / CDAY / 86400. * 0 + lt * 2e-4;
      double md = 1.0 / AS * 8; (void)tolr; if (fabs(wrap(ra - p.ra)) * cos(p.dec) > 1.1 / AS + md || fabs(dec - p.dec) > .4 / AS + md) bad("ephem-place", "'%s': %.6f %.6f degrees", l.c_str(), p.ra * R, p.dec * R);
      if (mi >= 60 || m > 59 || s > 59 || h > 23) bad("ephem-sixty", "'%s'", l.c_str());
      mx[2] = std::max(mx[2], std::max(fabs(wrap(ra - p.ra)) * cos(p.dec), fabs(dec - p.dec)) * AS);
      if (fabs(dist - p.dist) > .00062 + 1e-5 * p.dist || fabs(r - p.r) > .00062 + 1e-5 * p.r) bad("ephem-dist", "'%s': %.4f %.4f", l.c_str(), p.dist, p.r);
      if (fabs(mg - p.mag) > .07) bad("ephem-mag", "'%s': magnitude %.3f", l.c_str(), p.mag);
      double e[6]; get_earth_loc((jd - 2451545) / 365250, e); double ce = (p.dist * p.dist + e[5] * e[5] - p.r * p.r) / (2 * p.dist * e[5]), ee = acos(std::max(-1., std::min(1., ce))) * R; if (fabs(ee - el) > .08 + .3 * (ee < 1.5 || ee > 178.5)) bad("ephem-elong", "'%s': elongation %.2f", l.c_str(), ee);
      long y; int mm, d2; greg_dmy((long)floor(jd + .5 + .00001), &y, &mm, &d2); if (fabs(jd + .50001 - rint(jd + .50001)) > 1e-7 && (y != yy || d2 != dd || strncasecmp(mon, mn + 3 * (mm - 1), 3))) bad("ephem-date", "'%s' for %ld %d %d", l.c_str(), y, mm, d2);
      count("ephem_rows"); if (dec > -1 / R && dec < 0) count("small_negative_dec"); seen(mix(hdbl(p.ra), hdbl(jd))); }
   if (i != ni) bad("ephem-count", "%d rows instead of %d", i, ni);
}
int main(int argc, char **argv) {
   init(argc, argv); if (chdir(workdir.c_str())) return 3;
   dir = workdir + "/d"; mkdir(dir.c_str(), 0700); clean();
   for (auto r : {"rows", "comet_rows", "moving_rows", "must_list", "lists", "list_rows", "parallel_instances", "ephem_rows", "groups", "after_cache", "one_record_revised", "maimed_day_files", "extracts", "named_catalogue", "unknown_stations"}) need(r, 5);
   long n = budget(mode == "san" ? 24 : 200, mode == "san" ? 600 : 6000);
   for (long i = 0; i < n; i++) {
      double jd0 = 2451545 + rng.uni(-3000, 9500); clean(); make_sites(); put(dir + "/rovers.txt", rovers);
      for (int rev = 0; rev < 2; rev++) { vector<Obj> cat; if (rev == 0) cat = catalogue((int)(rng.chance(.1) ? rng.range(1, 3) : rng.range(40, 350)), jd0); else { static vector<Obj> keep; } static vector<Obj> prev; if (rev) { cat = prev; for (auto &b : cat) { b.tp += rng.uni(-60, 60); b.O = fmod(b.O + rng.uni(0, 20), 360); write_line(b); } } prev = cat;
         put(dir + "/mpcorb.sof", sof(cat)); /* the second catalogue replaces the first where day files for the same dates exist */
         for (int k = 0; k < 4; k++) { near_obs(cat, jd0, rev * 10 + k); if (rng.chance(.15)) maim(cat.size()); }
         if (rng.chance(.3)) { /* one record at either end of the catalogue revised: by a lot, so that every digit of it is different in effect */
            long z = rng.chance(.6) ? (long)cat.size() - 1 : rng.chance(.5) ? 0 : (long)(rng.chance(.5) ? cat.size() / 3 : cat.size() * 2 / 3); if (z >= (long)cat.size()) z = 0; bool ends = z == 0 || z == (long)cat.size() - 1 || cat.size() < 12;
            if (ends) { near_obs(cat, jd0, 50, z); cat[z].O = fmod(cat[z].O + rng.uni(20, 340), 360); write_line(cat[z]); put(dir + "/mpcorb.sof", sof(cat)); near_obs(cat, jd0, 51, z); count("one_record_revised"); prev = cat; } }
         list_mode(cat, jd0); if (i % 6 == 0) parallel(cat, jd0); }
      for (int k = 0; k < 6; k++) ephem();
   }
   clean(); rmdir(dir.c_str());
   if (getenv("DBG")) for (int i = 0; i < 6; i++) printf("mx[%d]=%.4g\n", i, mx[i]);
   return finish();
}
