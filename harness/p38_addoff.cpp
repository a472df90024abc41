/* P38: add_off gives each spacecraft observation the place its craft had, asked of (a stand-in for) the ephemeris service, in the
   MPC's 80-column and ADES forms, and leaves everything else in the file alone. */
#include "vh.h"
#include <sys/stat.h>
#include <sys/file.h>
#define main jpl_unused_main
#include "jpl_xref.h"
#undef main
#include "watdefs.h"
#include "afuncs.h"
using namespace vh;
using std::string; using std::vector;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string get(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); e = e == string::npos ? s.size() : e + 1; v.push_back(s.substr(p, e - p)); p = e; } return v; }
static const int NX = sizeof jpl_xrefs / sizeof *jpl_xrefs;
static const double AUKM = 149597870.7;
/* The stand-in service: craft k circles the Earth's centre in a tilted circle of its own size; T in MJD.  Written out for the script by put_service(). */
struct Orb { double r, w, ph, inc; };
static Orb orb[64];
static void posn(const Orb &o, double mjd, double *p, double *v) {
   double a = o.ph + o.w * (mjd - 55000), c = cos(a), s = sin(a), ci = cos(o.inc), si = sin(o.inc), q = o.r * o.w / 86400;
   p[0] = o.r * c; p[1] = o.r * s * ci; p[2] = o.r * s * si; v[0] = -q * s; v[1] = q * c * ci; v[2] = q * c * si;
}
/* run as "curl": -s -o FILE [-q] URL */
static int service(int argc, char **argv) {
   string dir = getenv("VH_CURL"), url = argv[argc - 1], out; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "-o")) out = argv[i + 1];
   FILE *lg = fopen((dir + "/log").c_str(), "ab"); if (lg) { fprintf(lg, "%s\n", url.c_str()); fclose(lg); }
   int id = 0; size_t p = url.find("COMMAND='"); if (p != string::npos) sscanf(url.c_str() + p, "COMMAND='%d'", &id);
   FILE *c = fopen((dir + "/cfg").c_str(), "rb"); if (!c || out.empty()) return 3; int k, m; Orb o; double lo, hi; bool got = false;
   while (!got && fscanf(c, "%d %lf %lf %lf %lf %d %lf %lf", &k, &o.r, &o.w, &o.ph, &o.inc, &m, &lo, &hi) == 8) got = k == id;
   fclose(c); if (got && m == 2) return 22;
   FILE *f = fopen(out.c_str(), "wb"); if (!f) return 23;
   if (!got || m == 1) { fprintf(f, "API VERSION: 1.2\nNo ephemeris for target \"X\" after A.D. 2009-JAN-01 00:00:00.0000 TDB\n"); fclose(f); return 0; }
   fprintf(f, "API VERSION: 1.2\n*******\n$$SOE\n"); p = url.find("TLIST="); p = p == string::npos ? url.size() : p + 6;
   while (p < url.size() && url[p] != '&') { if (isdigit(url[p])) { char *e; double d = strtod(url.c_str() + p, &e), x[3], v[3]; p = e - url.c_str(); if (d < lo || d > hi) continue; posn(o, d, x, v);
         fprintf(f, "%.9f = A.D. 2000-Jan-01 00:00:00.0000 TDB \n %.15E %.15E %.15E\n %.15E %.15E %.15E\n", d + 2400000.5, x[0], x[1], x[2], v[0], v[1], v[2]); } else p++; }
   fprintf(f, "$$EOE\n"); fclose(f); return 0;
}
struct Ob { int craft; double mjd; /* TDB */ string code; };
static int mode_of[64]; static double lim[64][2];
static string tail(const char *code) { static const char *B[] = {"          18.3 rV", "                 ", "                V", "          21.0 GV"}; return fmt("%s%s%s", B[rng.below(4)], rng.chance(.5) ? "~5zHC" : "84456", code); }
static bool served(const Ob &o) { return o.craft >= 0 && mode_of[o.craft] == 0 && o.mjd >= lim[o.craft][0] && o.mjd <= lim[o.craft][1]; }
/* the craft's place at any time the program may count as this one; the table of requested times comes from the log */
static bool near_posn(const Ob &o, const vector<Ob> &all, const double *p, const double *tol, const double *v, double vtol, double *dbest) {
   *dbest = 1e300; bool ok = false;
   for (auto &x : all) if (x.craft == o.craft && fabs(x.mjd - o.mjd) < 1.05e-5 + 1e-9) {
      double q[3], w[3]; posn(orb[o.craft], x.mjd, q, w); double slack = 6e-7 * 86400 * orb[o.craft].r * orb[o.craft].w / 86400 + 1e-9 * orb[o.craft].r, vs = 6e-7 * orb[o.craft].r * orb[o.craft].w * orb[o.craft].w / 86400 + vtol, m = 0; bool g = true;
      for (int i = 0; i < 3; i++) { double d = fabs(p[i] - q[i]); m = std::max(m, d - slack - tol[i]); if (!(d < slack + tol[i])) g = false; if (v && !(fabs(v[i] - w[i]) < vs)) g = false; }
      *dbest = std::min(*dbest, m); if (g) ok = true;
   }
   return ok;
}
static double jd_of(int y, int m, double d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return (double)((153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045) - .5 + d; }
/* TT - UTC, seconds */
static double tt_utc(double jd) {
   static const int L[][2] = {{48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
   if (jd > 2460676.5) return td_minus_utc(jd); double d = 25; for (auto &l : L) if (jd >= 2400000.5 + l[0]) d = l[1]; return d + 32.184;
}
static string rawlog;
static int go(const vector<string> &args, string *out) {
   int lk = open("/tmp/add_off.vhlock", O_RDWR | O_CREAT, 0600); if (lk >= 0) flock(lk, LOCK_EX);
   vector<string> av = {tools + "/add_off"}; av.insert(av.end(), args.begin(), args.end());
   remove((workdir + "/bin/log").c_str());
   int rv = run(av, out, "", {"PATH=" + workdir + "/bin:" + getenv("PATH"), "VH_CURL=" + workdir + "/bin"});
   remove("/tmp/add_off.txt"); if (lk >= 0) close(lk);
   rawlog = get(workdir + "/bin/log"); return rv;
}
/* every request made: right craft, only times of that craft's observations, within the service's length */
static void check_log(const vector<Ob> &obs) {
   std::set<string> asked;
   for (auto &l : lines(rawlog)) {
      count("requests"); if (l.size() > 8001) bad("url-length", "a request of %zu bytes: %.200s", l.size(), l.c_str());
      int id = 0; size_t p = l.find("COMMAND='"); if (p == string::npos || sscanf(l.c_str() + p, "COMMAND='%d'", &id) != 1) { bad("url-form", "no target in %.300s", l.c_str()); continue; }
      int k = -1; for (int i = 0; i < NX; i++) if (jpl_xrefs[i].jpl_desig == id) k = i;
      if (k < 0) { bad("url-target", "target %d belongs to no spacecraft", id); continue; }
      p = l.find("TLIST="); if (p == string::npos) { bad("url-form", "no TLIST in %.300s", l.c_str()); continue; }
      const char *s = l.c_str() + p + 6; bool first = true;
      while (*s && *s != '&') { double t; int n = 0; if (!first && *s != ',') { bad("url-list", "times not separated by commas: %.60s in %.200s", s, l.c_str()); break; } if (!first) s++; first = false;
         if (*s == '&') break;
         if (sscanf(s, "'%lf'%n", &t, &n) != 1 || !n) { bad("url-list", "a time is garbled: %.60s", s); break; }
         bool ok = false; for (auto &o : obs) if (o.craft == k && fabs(o.mjd - t) < 5.2e-7 + 2e-9) ok = true; if (!ok) bad("url-time", "asks for %.6f of %s, when it has no observation", t, jpl_xrefs[k].mpc_code); s += n; count("asked_times"); }
      if (l.find("TABLE_TYPE='V'") == string::npos || l.find("REF_PLANE='FRAME'") == string::npos || l.find("VEC_TABLE='2'") == string::npos) bad("url-form", "request lacks a parameter: %.400s", l.c_str());
   }
}
static void setup_service() {
   string j;
   for (int k = 0; k < NX; k++) { static const double R[] = {6900, 9500, 42164, 90000, 99990, 100010, 384400, 999000, 1.0005e6, 1.5e6, 9.99e6, 1.0001e7, 5e7, 1.5e8, 1.4e9, 1.48e9, 1.6e9, 6.5e9, 1.3e10};
      Orb &o = orb[k]; o.r = R[rng.below(19)] * rng.uni(.98, 1.02); o.w = 2 * M_PI / (o.r < 1e5 ? rng.uni(.06, 2) : rng.uni(20, 4000)); o.ph = rng.uni(0, 6.28); o.inc = rng.uni(0, 3.1);
      mode_of[k] = rng.chance(.75) ? 0 : (int)rng.range(1, 2); lim[k][0] = 0; lim[k][1] = 1e9; if (rng.chance(.15)) { lim[k][rng.below(2)] = rng.uni(55000, 60000); }
      j += fmt("%d %.17g %.17g %.17g %.17g %d %.6f %.6f\n", jpl_xrefs[k].jpl_desig, o.r, o.w, o.ph, o.inc, mode_of[k], lim[k][0], lim[k][1]); }
   put(workdir + "/bin/cfg", j);
}
static string when80(double mjd_utc_day, int dig, int *yy, int *mm, double *dd) {
   static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; *yy = (int)rng.range(1991, 2035); *mm = (int)rng.range(1, 12); int d = (int)rng.range(1, ML[*mm - 1]); (void)mjd_utc_day;
   double sc = pow(10, dig), fr = floor(rng.uni() * sc); *dd = d + fr / sc; string s = fmt("%04d %02d %02d.%0*.0f", *yy, *mm, d, dig, fr); s.resize(17, ' '); return s;
}
/* ---- 80-column files ---- */
struct In { string text; int kind; Ob ob; bool has_orig; double orig[3]; }; /* kind 0 other, 1 S, 2 s */
static void go_80(bool tiny) {
   setup_service(); vector<In> f; vector<Ob> obs; vector<int> crafts; int nc = (int)rng.range(1, 5); for (int i = 0; i < nc; i++) crafts.push_back((int)rng.below(NX));
   int n = tiny ? (int)rng.range(1, 6) : rng.chance(.12) ? (int)rng.range(500, 1200) : (int)rng.range(1, 60); string txt; bool crlf = rng.chance(.15), verbose = rng.chance(.12), delta = rng.chance(.4);
   if (n > 400 && rng.chance(.7)) crafts.resize(1);
   string pend; string last; double lastd = 0; int ly = 2000, lm = 1;
   for (int i = 0; i < n; i++) {
      double u = rng.uni(); In r; r.kind = 0; r.has_orig = false; r.ob.craft = -1; r.ob.mjd = 0;
      string id = fmt("     %c%07d", "KLX"[rng.below(3)], (int)rng.below(9999999)).substr(0, 12) + (rng.chance(.1) ? "*" : " ") + (rng.chance(.2) ? "G" : " ");
      id.resize(14, ' ');
      int y, m; double d; string w; if (!last.empty() && rng.chance(.12)) { w = last; y = ly; m = lm; d = lastd; } else if (!last.empty() && rng.chance(.15) && lastd + 2e-4 < floor(lastd) + 1) { y = ly; m = lm; w = fmt("%04d %02d %09.6f", y, m, lastd + (double)rng.range(12, 150) * 1e-6); d = atof(w.c_str() + 8); count("close_pairs"); } else w = when80(0, (int)rng.range(4, 6), &y, &m, &d);
      if (n > 400) u = .1;
      if (u < .6) { /* a spacecraft's */
         bool known = rng.chance(.93); static const char *U[] = {"C60", "703", "F51", "Z99", "500"}; int k = crafts[rng.below(crafts.size())]; string code = known ? jpl_xrefs[k].mpc_code : U[rng.below(5)];
         r.kind = 1; r.ob.craft = known ? k : -1; r.ob.code = code; double utc = jd_of(y, m, d); r.ob.mjd = utc + tt_utc(utc) / 86400 - 2400000.5;
         last = w; ly = y; lm = m; lastd = d;
         r.text = id + "S" + w + fmt("%02d %02d %05.2f %c%02d %02d %04.1f ", (int)rng.below(24), (int)rng.below(60), rng.uni(0, 59), "+-"[rng.below(2)], (int)rng.below(90), (int)rng.below(60), rng.uni(0, 59)); r.text.resize(56, ' '); r.text += tail(code.c_str()).substr(0, 16); r.text.resize(72, ' '); r.text += "~5zHC" + code;
         obs.push_back(r.ob);
         bool two = rng.chance(.35), stray = !two && rng.chance(.1); f.push_back(r);
         if (two || stray) { /* an offset given already; or one that belongs to some other observation */
            In s; s.kind = 2; s.ob = r.ob; s.has_orig = false; bool au = rng.chance(.3); int y3, m3; double d3; string w3 = w; while (stray && w3.substr(0, 10) == w.substr(0, 10)) w3 = when80(0, 5, &y3, &m3, &d3); s.text = id + "s" + w3 + (au ? "2" : "1") + " "; 
            for (int q = 0; q < 3; q++) { char sg = "+-"[rng.below(2)]; double v = au ? rng.uni(.01, 40) : rng.logu(1, 9e6); string t = au ? fmt(v > 9.9 ? "%10.7f" : "%10.8f", v) : fmt(v > 999999 ? "%10.2f" : v > 99999 ? "%10.3f" : "%10.4f", v); s.orig[q] = (sg == '-' ? -1 : 1) * atof(t.c_str()) * (au ? AUKM : 1); s.text += sg + t + " "; }
            s.text.resize(72, ' '); s.text += "~5zHC" + code; f.back().has_orig = two; if (stray) count("stray_offsets"); memcpy(f.back().orig, s.orig, sizeof s.orig); f.push_back(s); }
      } else if (u < .8) { r.text = id + "C" + w + fmt("%02d %02d %05.2f %c%02d %02d %04.1f ", (int)rng.below(24), (int)rng.below(60), rng.uni(0, 59), "+-"[rng.below(2)], (int)rng.below(90), (int)rng.below(60), rng.uni(0, 59)); r.text.resize(72, ' '); r.text += string("~5zHC") + (rng.chance(.5) ? "703" : rng.chance(.5) ? "F51" : "C51"); f.push_back(r); }
      else if (u < .95) { static const char *C[] = {"COD C51", "COM a comment", "OBS N. Body", "", "COM Long comment: the quick brown fox jumps over the lazy dog, and then does so over and over again, S or no S", "NET Gaia-DR2"}; r.text = C[rng.below(6)]; f.push_back(r); }
      else { r.text = id + "S" + fmt("20%02d 13 41.5    ", (int)rng.below(30)); r.text.resize(72, ' '); r.text += "~5zHCC51"; f.push_back(r); }  /* no such date */
   }
   for (auto &r : f) { r.text += crlf ? "\r\n" : "\n"; txt += r.text; }
   string in = workdir + "/obs.txt", of = workdir + "/out.txt", out; put(in, txt); remove(of.c_str());
   vector<string> args = {in}; bool tofile = rng.chance(.5) || verbose; if (tofile) args.push_back(of); if (verbose) args.push_back("-v"); if (delta) args.push_back("-d");
   cur("80-column, %d records, %zu of spacecraft, file %s", n, obs.size(), in.c_str());
   int rv = go(args, &out); if (rv) { bad(fmt("exit%d", rv), "add_off ended with %d: %.600s", rv, out.c_str()); return; }
   string res = tofile ? get(of) : out; vector<string> L = lines(res); size_t q = 0; seen(hstr(txt)); count("files_80");
   if (!tofile) { while (q < L.size() && (!L[q].compare(0, 6, "ERROR!") || !L[q].compare(0, 13, "Either it's n") || !L[q].compare(0, 13, "that this sof") || !L[q].compare(0, 13, "code,  and/or") || !L[q].compare(0, 12, "No ephemeris") || !L[q].compare(0, 10, "Error with") || L[q][0] == '\'')) q++; }
   if (q >= L.size() || L[q].compare(0, 15, "COM add_off ver")) { bad("header", "no header: %.300s", res.c_str()); return; }
   q++; check_log(obs); int set = 0, fail = 0;
   for (size_t i = 0; i < f.size(); i++) { In &r = f[i];
      if (r.kind == 2) { continue; }
      if (r.kind == 1 && served(r.ob)) {
         double v[3], p[3], tol[3], db; set++; char code[8] = "", dt[40] = "";
         bool good = q < L.size() && L[q].size() > 60 && !L[q].compare(0, 15, "COM vel (km/s) ");
         if (good) { snprintf(dt, sizeof dt, "%s", L[q].substr(15, 16).c_str()); good = sscanf(L[q].c_str() + 31, "%13lf%13lf%13lf %3s", v, v + 1, v + 2, code) == 4; }
         if (!good || string(dt) != r.text.substr(15, 16) || r.ob.code != code) { bad("velocity-line", "for %.80s there is '%s'", r.text.c_str(), q < L.size() ? L[q].c_str() : "<end>"); return; }
         q++; string dl; int mates = 0; for (auto &x : obs) if (x.craft == r.ob.craft && fabs(x.mjd - r.ob.mjd) < 1.1e-5) mates++;
         if (delta && q < L.size() && !L[q].compare(0, 9, "COM delta")) { dl = L[q++]; if (mates == 1 && !r.has_orig) bad("delta-extra", "no original offsets for %.80s, yet '%s'", r.text.c_str(), dl.c_str()); } else if (delta && r.has_orig && mates == 1) bad("delta-missing", "no comparison with the original offsets for %.80s", r.text.c_str());
         if (q >= L.size() || L[q] != r.text) { bad("observation", "observation altered: '%s' is now '%s'", r.text.c_str(), q < L.size() ? L[q].c_str() : "<end>"); return; }
         q++; string s = q < L.size() ? L[q] : ""; q++;
         bool form = s.size() == r.text.size() && s[14] == 's' && s.substr(0, 14) == r.text.substr(0, 14) && s.substr(15, 17) == r.text.substr(15, 17) && s.substr(72) == r.text.substr(72) && (s[32] == '1' || s[32] == '2') && s[33] == ' ' && s[70] == ' ' && s[71] == ' ';
         bool au = form && s[32] == '2'; double big = 0, tp[3], tv[3]; posn(orb[r.ob.craft], r.ob.mjd, tp, tv); for (int k = 0; k < 3; k++) big = std::max(big, fabs(tp[k]));
         if (form) for (int k = 0; k < 3; k++) { string t = s.substr(34 + 12 * k, 12); if ((t[0] != '+' && t[0] != '-') || t[11] != ' ') { form = false; break; } char *e; p[k] = strtod(t.c_str() + 1, &e); if (e != s.c_str() && *e != ' ') form = false; size_t dp = t.find('.'); if (dp == string::npos) { form = false; break; } size_t nd = t.size() - 1 - dp - 1; tol[k] = .51 * pow(10, -(double)nd) * (au ? AUKM : 1) + 1e-9; if (t[0] == '-') p[k] = -p[k]; if (au) p[k] *= AUKM; if (nd < 2 || (au && nd < 7) || (!au && fabs(p[k]) < 99990 && nd < 4)) { bad("precision", "only %zu digits kept in '%s'", nd, s.c_str()); } }
         if (!form) { bad("offset-form", "for %.80s the offset record is '%s'", r.text.c_str(), s.c_str()); return; }
         if (big < 9.99e6 && au) bad("units", "offsets of %.3f km at most given in AU: %s", big, s.c_str());
         if (!near_posn(r.ob, obs, p, tol, v, 6e-8, &db)) bad("offset", "for %.80s: '%s' and velocity %.7f %.7f %.7f; the craft is at %.4f %.4f %.4f km, %.7f %.7f %.7f km/s", r.text.c_str(), s.c_str(), v[0], v[1], v[2], tp[0], tp[1], tp[2], tv[0], tv[1], tv[2]);
         if (!dl.empty()) { double x[3]; if (sscanf(dl.c_str(), "COM delta from orig offsets (km) %lf %lf %lf", x, x + 1, x + 2) != 3) bad("delta-form", "'%s'", dl.c_str()); else if (r.has_orig) {
               if (mates == 1) for (int k = 0; k < 3; k++) if (!(fabs(x[k] - (p[k] - r.orig[k])) < tol[k] + 1e-3 + 1e-12 * fabs(r.orig[k]))) bad("delta", "'%s'; new %.4f, original %.4f", dl.c_str(), p[k], r.orig[k]); count("deltas"); } }
         count("offsets_80"); if (au) count("offsets_au"); sample("%s", s.c_str());
      } else { if (r.kind == 1) fail += r.ob.craft >= 0; if (q >= L.size() || L[q] != r.text) { bad(r.kind ? "unserved" : "other-line", "line '%s' became '%s'", r.text.c_str(), q < L.size() ? L[q].c_str() : "<end>"); return; } q++; count(r.kind ? "unserved" : "passed_through"); } }
   int a = -1, b = -1; if (q + 1 != L.size() || sscanf(L[q].c_str(), "COM %d positions set by add_off; %d failed", &a, &b) != 2) { bad("trailer", "after the file: '%s'", q < L.size() ? L[q].c_str() : "<end>"); return; }
   if (a != set || b != fail) bad("tally", "says %d positions set, %d failed; %d and %d were", a, b, set, fail);
}
/* ---- ADES XML ---- */
static void go_ades() {
   setup_service(); vector<Ob> obs; struct Rec { Ob ob; vector<string> pre, post; string t; bool sc; }; vector<Rec> recs; int n = (int)rng.range(1, 30); string txt = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ades version=\"2017\">\n  <obsBlock>\n    <obsContext>\n      <observatory>\n        <mpcCode>C51</mpcCode>\n      </observatory>\n    </obsContext>\n    <obsData>\n"; string head = txt;
   int k0 = (int)rng.below(NX); string lastt; double lastm = 0;
   for (int i = 0; i < n; i++) { Rec r; r.sc = rng.chance(.65); r.ob.craft = -1; int y = (int)rng.range(1991, 2035), mo = (int)rng.range(1, 12), d = (int)rng.range(1, 28), h = (int)rng.below(24), mi = (int)rng.below(60); int nd = (int)rng.below(4); double sc = pow(10, nd), s = floor(rng.uni(0, 60) * sc) / sc;
      string t = fmt("%04d-%02d-%02dT%02d:%02d:%0*.*fZ", y, mo, d, h, mi, nd ? nd + 3 : 2, nd, s); double utc = jd_of(y, mo, d + h / 24. + mi / 1440. + s / 86400), mjd = utc + tt_utc(utc) / 86400 - 2400000.5;
      if (!lastt.empty() && rng.chance(.25)) { t = lastt; mjd = lastm; } else if (!lastt.empty() && rng.chance(.2) && atof(lastt.c_str() + 17) < 50) { double q = floor(atof(lastt.c_str() + 17) * 100 + rng.uni(110, 900)) / 100; mjd = lastm + (q - atof(lastt.c_str() + 17)) / 86400; t = lastt.substr(0, 17) + fmt("%05.2fZ", q); count("close_pairs"); } lastt = t; lastm = mjd; r.ob.mjd = mjd; r.t = "        <obsTime>" + t + "</obsTime>\n";
      string code = "703"; if (r.sc) { int k = rng.chance(.6) ? k0 : (int)rng.below(NX); r.ob.craft = k; code = jpl_xrefs[k].mpc_code; } else if (rng.chance(.5)) code = "F51"; r.ob.code = code; if (r.sc) obs.push_back(r.ob);
      r.pre = {"      <optical>\n", fmt("        <trkSub>P%06d</trkSub>\n", (int)rng.below(999999)), "        <mode>CCD</mode>\n", "        <stn>" + code + "</stn>\n"};
      r.post = {fmt("        <ra>%.6f</ra>\n", rng.uni(0, 360)), fmt("        <dec>%.6f</dec>\n", rng.uni(-90, 90)), "        <astCat>Gaia2</astCat>\n", "      </optical>\n"};
      for (auto &l : r.pre) txt += l;
      if (r.sc && rng.chance(.5)) { txt += "        <sys>ICRF_KM</sys>\n        <ctr>399</ctr>\n"; for (int q = 1; q < 4; q++) txt += fmt("        <pos%d>%.4f</pos%d>\n", q, rng.uni(-9e4, 9e4), q); if (rng.chance(.3)) for (int q = 1; q < 4; q++) txt += fmt("        <vel%d>%.6f</vel%d>\n", q, rng.uni(-9, 9), q); }
      txt += r.t; for (auto &l : r.post) txt += l; recs.push_back(r); }
   string foot = "    </obsData>\n  </obsBlock>\n</ades>\n"; txt += foot;
   string in = workdir + "/obs.xml", of = workdir + "/out.xml", out; put(in, txt); remove(of.c_str()); cur("ADES, %d records, %zu of spacecraft, file %s", n, obs.size(), in.c_str());
   int rv = go({in, of}, &out); if (rv) { bad(fmt("ades-exit%d", rv), "add_off ended with %d: %.600s", rv, out.c_str()); return; }
   vector<string> L = lines(get(of)), H = lines(head), F = lines(foot); size_t q = 0; seen(hstr(txt)); count("files_ades"); check_log(obs); int set = 0, fail = 0;
   auto expect = [&](const vector<string> &v) { for (auto &l : v) { if (q >= L.size() || L[q] != l) { bad("ades-line", "expected '%s', found '%s'", l.c_str(), q < L.size() ? L[q].c_str() : "<end>"); return false; } q++; } return true; };
   if (!expect(H)) return;
   for (auto &r : recs) { if (!expect(r.pre)) return;
      if (r.sc && served(r.ob)) { set++; double p[3], v[3], tol[3] = {1e9, 1e9, 1e9}, db; char sys[40]; int c = 0; bool good = q + 8 <= L.size() && sscanf(L[q].c_str(), " <sys>%30[A-Z_]</sys>", sys) == 1 && sscanf(L[q + 1].c_str(), " <ctr>%d</ctr>", &c) == 1 && c == 399; bool au = good && !strcmp(sys, "ICRF_AU"); if (good && !au && strcmp(sys, "ICRF_KM")) good = false;
         double u = au ? AUKM : 1, prec = 0;
         for (int k = 0; good && k < 3; k++) { int a = 0, b = 0; char t[60], x[60]; if (sscanf(L[q + 2 + k].c_str(), " <pos%d>%50[-0-9.]</pos%d>", &a, t, &b) != 3 || a != k + 1 || b != k + 1) { good = false; break; } p[k] = atof(t) * u; const char *dp = strchr(t, '.'); if (!dp || strlen(t) > 13) good = false; else if (strlen(t) < (strlen(dp + 1) == 10 ? 12 : 13)) { bad("ades-precision", "'%s': digits are lost", L[q + 2 + k].c_str()); } else tol[k] = 1.01 * pow(10, -(double)strlen(dp + 1)) * u;
            if (sscanf(L[q + 5 + k].c_str(), " <vel%d>%50[-0-9.]</vel%d>", &a, x, &b) != 3 || a != k + 1 || b != k + 1) { good = false; break; } v[k] = atof(x) * (au ? AUKM / 86400 : 1); dp = strchr(x, '.'); if (!dp || strlen(x) > 13) good = false; else prec = std::max(prec, 1.01 * pow(10, -(double)strlen(dp + 1)) * (au ? AUKM / 86400 : 1)); }
         if (!good) { string o; for (size_t k = q; k < q + 9 && k < L.size(); k++) o += L[k]; bad("ades-form", "the craft's place is not given, or not well: %.700s", o.c_str()); return; }
         double tp[3], tv[3]; posn(orb[r.ob.craft], r.ob.mjd, tp, tv);
         if (!near_posn(r.ob, obs, p, tol, v, prec, &db)) bad("ades-offset", "%s: says %.6f %.6f %.6f km, %.9f %.9f %.9f km/s; craft is at %.6f %.6f %.6f, %.9f %.9f %.9f", r.t.c_str(), p[0], p[1], p[2], v[0], v[1], v[2], tp[0], tp[1], tp[2], tv[0], tv[1], tv[2]);
         q += 8; count("offsets_ades"); if (au) count("offsets_au");
      } else if (r.sc) { fail++; count("unserved"); } else count("ground_ades");
      if (!expect({r.t}) || !expect(r.post)) return; }
   if (!expect(F)) return;
   if (q != L.size()) bad("ades-extra", "lines beyond the file's end: '%s'", L[q].c_str());
   int a = -1, b = -1; size_t e = out.find(" positions set by add_off"); if (e != string::npos) { while (e > 0 && isdigit(out[e - 1])) e--; sscanf(out.c_str() + e, "%d positions set by add_off; %d failed", &a, &b); } if (a != set || b != fail) bad("tally", "says %d positions set, %d failed; %d and %d were", a, b, set, fail);
}
int main(int argc, char **argv) {
   const char *me = strrchr(argv[0], '/'); if (!strcmp(me ? me + 1 : argv[0], "curl")) return service(argc, argv);
   init(argc, argv); string b = workdir + "/bin"; mkdir(b.c_str(), 0700); char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); if (sl < 0) return 5; self[sl] = 0; unlink((b + "/curl").c_str()); if (symlink(self, (b + "/curl").c_str())) return 5;
   long n = mode == "san" ? budget(12, 100) : budget(120, 3000);
   for (long i = 0; i < n; i++) { if (i % 5 < 3) go_80(i % 10 == 0); else go_ades(); }
   if (mode != "san") { need("offsets_80", 200); need("offsets_ades", 100); need("offsets_au", 100); need("unserved", 50); need("passed_through", 100); need("ground_ades", 50); need("deltas", 10); need("close_pairs", 20); }
   for (auto f : {"/bin/curl", "/bin/cfg", "/bin/log", "/obs.txt", "/out.txt", "/obs.xml", "/out.xml"}) unlink((workdir + f).c_str());
   rmdir(b.c_str()); return finish();
}
