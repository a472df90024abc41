/* P41, second part: the smaller test programs - designations over CGI, latitude/longitude, MPCORB offsets, distances, half years, ADES tags, the clock. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include <sys/time.h>
using namespace vh;
using std::string; using std::vector;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[1600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void put(const string &n, const string &s) { FILE *f = fopen((workdir + "/" + n).c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
static string out;
static int go(vector<string> a, const string &in = "", const vector<string> &env = {}) { string c = a[0]; for (size_t i = 1; i < a.size(); i++) c += " '" + a[i] + "'"; for (auto &e : env) c += " " + e; cur("%s", c.c_str()); seen(hstr(c + in)); a[0] = tools + "/" + a[0]; out.clear(); int r = run(a, &out, in, env); if (r < 0) bad("exit", "exit %d: %.300s", r, out.c_str()); return r; }
static long greg(long y, int m, int d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return (153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static const char *B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t p = s.find_first_not_of(' '); return p == string::npos ? "" : s.substr(p); }
/* ------------------------------------------------------------------ designations: a packed form (12 columns) and the full one */
static void desig(string &pk, string &full) {
   switch (rng.below(7)) {
   case 0: { long n = rng.range(10000, 619999); if (rng.chance(.2)) n = rng.range(1, 9999); full = fmt("(%ld)", n); pk = fmt("%c%04ld       ", B62[n / 10000], n % 10000); break; }
   case 1: { long n = rng.range(0, 62L * 62 * 62 * 62 - 1); if (rng.chance(.3)) n = rng.range(0, 100); full = fmt("(%ld)", n + 620000); pk = "~"; for (int k = 3; k >= 0; k--) { long q = n; for (int j = 0; j < k; j++) q /= 62; pk += B62[q % 62]; } pk += "       "; break; }
   case 2: case 3: { static const char *L = "ABCDEFGHJKLMNOPQRSTUVWXY", *M = "ABCDEFGHJKLMNOPQRSTUVWXYZ"; int y = (int)rng.range(1900, 2099), n = rng.chance(.3) ? 0 : (int)rng.range(1, 619); char a = L[rng.below(24)], b = M[rng.below(25)]; full = n ? fmt("%d %c%c%d", y, a, b, n) : fmt("%d %c%c", y, a, b); pk = fmt("     %c%02d%c%c%d%c", B62[y / 100], y % 100, a, B62[n / 10], n % 10, b); break; }
   case 4: { int n = (int)rng.range(1, 9999); static const char *S[4] = {"P-L", "T-1", "T-2", "T-3"}, *P[4] = {"PLS", "T1S", "T2S", "T3S"}; int k = (int)rng.below(4); n = n < 1000 ? n + 1000 : n; full = fmt("%d %s", n, S[k]); pk = fmt("     %s%04d", P[k], n); break; }
   case 5: { int n = (int)rng.range(1, 9999); char t = "PD"[rng.below(2)]; full = fmt("%d%c", n, t); pk = fmt("%04d%c       ", n, t); if (rng.chance(.0)) { char f = (char)('A' + rng.below(26)); full += fmt("-%c", f); pk[11] = (char)(f + 32); } break; }
   default: { static const char *L = "ABCDEFGHJKLMNOPQRSTUVWXY"; int y = (int)rng.range(1900, 2099), n = (int)rng.range(1, 99); char t = "PCDXA"[rng.below(5)], a = L[rng.below(24)]; full = fmt("%c/%d %c%d", t, y, a, n); pk = fmt("    %c%c%02d%c%02d0", t, B62[y / 100], y % 100, a, n); } } }
static string enc(const string &s) { string o; for (unsigned char c : s) if (isalnum(c)) o += (char)c; else if (c == ' ' && rng.chance(.5)) o += '+'; else o += fmt("%%%02X", c); return o; }
static void desigcgi() {
   int n = (int)rng.range(1, 5); string q, want; bool post = rng.chance(.4); for (int i = 0; i < n; i++) { string pk, full; desig(pk, full); if (i) q += '&'; int how = (int)rng.below(10); if (how < 4) { q += "packed=" + enc(trim(pk)); if (trim(pk).size() > 3) want += fmt("'%s' unpacks to '%s'\n", trim(pk).c_str(), full.c_str()); } else if (how < 8) { q += "unpacked=" + enc(full); if (full.size() > 3) want += fmt("'%s' packs to '%s'\n", full.c_str(), pk.c_str()); } else if (how == 8) { string j = "Zzz" + fmt("%d", (int)rng.range(10, 99)); bool u = rng.chance(.5); q += (u ? "unpacked=" : "packed=") + enc(j); want += u ? fmt("'%s' packs to '     %-7s'\n(This was not successfully packed.)\n", j.c_str(), j.c_str()) : ""; if (!u) want += fmt("'%s' unpacks to '%s'\n(This does not appear to be a valid packed designation)\n", j.c_str(), j.c_str()); } else { q += (rng.chance(.5) ? "other=" : "packed=") + string("ab"); } }
   vector<string> env = post ? vector<string>{"CONTENT_TYPE=application/x-www-form-urlencoded", fmt("CONTENT_LENGTH=%zu", q.size())} : vector<string>{"QUERY_STRING=" + q}; if (go({"desigcgi"}, post ? q : "", env)) { bad("desigcgi", "fails: %.300s", out.c_str()); return; }
   string e = "Content-type: text/html\n\n<pre>" + want; if (out != e) bad("desigcgi", "printed '%s', not '%s'", out.c_str(), e.c_str()); count("desigcgi"); }
/* ------------------------------------------------------------------ ll_test */
static bool exact;
static string angle(double v, const char *pos, double *val) { /* v >= 0; text with hemisphere */ static int form; form = (int)rng.below(4); string s; char h = rng.chance(.5) ? pos[0] : pos[1]; if (rng.chance(.3)) h = (char)tolower(h); bool lead = rng.chance(.4); double a; int d = (int)v; if (form == 0) { s = fmt("%.*f", (int)rng.range(1, 7), v); a = atof(s.c_str()); } else if (form == 1) { int m = (int)rng.below(60); if (exact) m -= m % 3; s = fmt("%d %02d", d, m); a = d + m / 60.; double f = floor(rng.uni() * 100) / 100; if (exact) f = .3; s += fmt(".%02d", (int)(f * 100 + .5)); a += f / 60; } else { int m = (int)rng.below(60); double f = floor(rng.uni(0, 59.94) * 10 + .5) / 10; if (exact) { m -= m % 3; f = 3.6 * (int)rng.below(16); } s = fmt("%d %02d %04.1f", d, m, f); a = d + m / 60. + f / 3600; } *val = toupper(h) == pos[0] ? a : -a; return lead ? fmt("%c", h) + s : s + fmt("%c", h); }
static bool spec(string &t, double *lon, double *lat, double *alt, int *rv) {
   string a = angle(floor(rng.uni(0, 179) * 1e7) / 1e7, "EW", lon), b = angle(floor(rng.uni(0, 88) * 1e7) / 1e7, "NS", lat); if (*lon < 0) *lon += 360; bool xxx = rng.chance(.4); *alt = floor(rng.uni(-400, 6000) * 10) / 10; bool ft = !xxx && rng.chance(.3); string h = fmt("%.1f%s", *alt, ft ? "ft" : "m"); if (ft) *alt *= .3048; *rv = 0;
   if (xxx) { t = "COM Long. " + a + ", Lat. " + b + ", Alt. " + h; if (rng.chance(.15)) { t = "COM Long. " + a + ", Lat. " + a + ", Alt. " + h; *rv = -2; } } else { if (rng.chance(.5)) std::swap(a, b); t = a + ", " + b + ", " + h; } return true; }
static string strip(double v, int n) { string t = fmt("%.*f", n, v); while (t.back() == '0') t.pop_back(); if (t.back() == '.') t.pop_back(); return t; }
static void lltest() { exact = false;
   string t; double lo, la, al; int rv; if (rng.chance(.5)) { spec(t, &lo, &la, &al, &rv); go({"ll_test", t}); double x = 0, y = 0, z = 0; if (rv) { if (out != fmt("Failed %d\n", rv)) bad("ll_test", "printed '%s'", out.c_str()); } else if (sscanf(out.c_str(), "Lat %lf\nLon %lf\nAlt %lf metres", &y, &x, &z) != 3 || fabs(y - la) > 1e-6 || fabs(remainder(x - lo, 360)) > 1e-6 || fabs(z - al) > 1e-5) bad("ll_test", "printed '%s', not %.6f %.6f %.6f", out.c_str(), la, lo, al); count("ll_test"); return; }
   string f = "# a comment\n"; vector<string> wrong; exact = true; int n = (int)rng.range(1, 15); for (int i = 0; i < n; i++) { spec(t, &lo, &la, &al, &rv); if (rng.chance(.2)) { f += "# " + t + "\n"; continue; } bool spoil = rng.chance(.25); int w = (int)rng.below(4); if (spoil) { if (rv && w) w = 0; if (!w) { rv -= 1; } else if (w == 1) lo += 3e-7; else if (w == 2) la -= 3e-7; else al += 1e-6; wrong.push_back(t); } string l = fmt("%d %s %s %s", rv, strip(lo, 8).c_str(), strip(la, 8).c_str(), strip(al, 6).c_str()); if (l.size() > 31) { continue; } l.resize(32, ' '); f += l + t + "\n"; }
   put("ll_test.txt", f); go({"ll_test"}); /* what the file holds decides: every line is read again here */
   vector<string> E; for (auto &l : lines(f)) if (l[0] != '#') { int v; double x, y, z; if (sscanf(l.c_str(), "%d %lf %lf %lf", &v, &x, &y, &z) != 4) continue; bool w = false; for (auto &q : wrong) if (l.substr(32) == q) w = true; if (w) E.push_back(l.substr(32)); }
   size_t k = 0; for (auto &l : lines(out)) if (l.compare(0, 17, "Error with string") == 0) { if (k >= E.size() || l.compare(19, E[k].size(), E[k])) { bad("ll_test-file", "'%s' reported (%zu)", l.c_str(), k); return; } k++; } if (k != E.size()) bad("ll_test-file", "%zu errors reported, %zu in the file: %.200s", k, E.size(), out.c_str()); count("ll_test_files"); unlink((workdir + "/ll_test.txt").c_str()); }
/* ------------------------------------------------------------------ mpcorb2 */
static void mpcorb2() {
   bool hdr = rng.chance(.85); string f; if (hdr) { int h = (int)rng.range(1, 45); for (int i = 1; i < h; i++) f += fmt("Header line %d of the file\n", i); f += string(160, '-') + "\n"; } size_t H = f.size(); long n[3] = {rng.range(1, 60), rng.range(1, 40), rng.range(1, 40)}, tot = 0; vector<string> R; for (int g = 0; g < 3; g++) { if (g) f += "\n"; for (int i = 0; i < n[g]; i++) { string l = fmt("%05ld  %c%d", tot, 'A' + g, i); l.resize(202, 'x'); for (int c = 20; c < 202; c++) l[c] = (char)('a' + (c * 7 + tot) % 26); f += l + "\n"; R.push_back(l); tot++; } }
   put("mpcorb.dat", f); vector<string> av = {"mpcorb2"}; long k = rng.range(0, tot - 1); if (rng.chance(.3)) k = rng.chance(.5) ? n[0] - (long)rng.below(2) : n[0] + n[1] - (long)rng.below(2); bool ask = rng.chance(.9); if (ask) av.push_back(fmt("%ld", k)); bool none = rng.chance(.05); if (none) unlink((workdir + "/mpcorb.dat").c_str()); go(av); if (none) { if (out != "mpcorb.dat not opened\n") bad("mpcorb2", "no file: '%s'", out.c_str()); count("mpcorb2_none"); return; }
   string e = fmt("%zu %ld %ld %ld\n", H, n[0], n[0] + n[1], tot); if (ask) e += R[k].substr(0, 79); if (out != e) bad("mpcorb2", "printed '%s', not '%s'", out.c_str(), e.c_str()); unlink((workdir + "/mpcorb.dat").c_str()); count("mpcorb2"); }
/* ------------------------------------------------------------------ disttest */
static void disttest() {
   double a[4] = {floor(rng.uni(0, 360) * 1e4) / 1e4, floor(rng.uni(-90, 90) * 1e4) / 1e4, floor(rng.uni(0, 360) * 1e4) / 1e4, floor(rng.uni(-90, 90) * 1e4) / 1e4}; if (rng.chance(.3)) { a[2] = a[0] + rng.uni(-1e-3, 1e-3); a[3] = std::max(-90., std::min(90., a[1] + rng.uni(-1e-3, 1e-3))); } vector<string> av = {"disttest"}; for (double &x : a) { av.push_back(fmt("%.7f", x)); x = atof(av.back().c_str()) * M_PI / 180; } go(av); vector<string> L = lines(out); if (L.size() != 10000) { bad("disttest", "%zu lines", L.size()); return; }
   long double x = cosl(a[1]) * cosl(a[3]) * powl(sinl((a[0] - a[2]) / 2), 2) + powl(sinl((a[1] - a[3]) / 2), 2), w = 2 * asinl(sqrtl(x)) * 180 / M_PIl; for (size_t i = 0; i < L.size(); i++) { double p = 0, q = 0, d = 0; if (sscanf(L[i].c_str(), "%lf %lf %lf", &p, &q, &d) < 1) { bad("disttest", "'%s'", L[i].c_str()); return; } if (!i && fabs(p - (double)w) > 2e-8) bad("disttest", "'%s', not %.9Lf", L[i].c_str(), w); if (i && (q > .01 && q < 179.99 && fabs(p - q) > 2.1e-8)) { bad("disttest", "line %zu: '%s'", i, L[i].c_str()); return; } } count("disttest"); }
/* ------------------------------------------------------------------ utc_algo */
static void utcalgo() {
   if (rng.chance(.1)) { int a = (int)rng.range(-400000, 100000), b = a + (int)rng.range(1, 20000); go({"utc_algo", fmt("%d", a), fmt("%d", b)}); long o = 0, u = 0; for (int m = a; m < b; m++) { long day = m + 678942L, y = day * 400 / 146097; if (greg(y, 1, 1) - 2400001 > m) o++; if (greg(y + 1, 1, 1) - 2400001 <= m) u++; } string e = fmt("%ld cases went over;  %ld went under\n", o, u); if (out != e) bad("utc_algo-range", "'%s', not '%s'", out.c_str(), e.c_str()); count("utc_ranges"); return; }
   long y = rng.range(5, 6000); int m = (int)rng.range(1, 12); int d = rng.chance(.5) ? (int)rng.range(1, 28) : m == 6 || m == 12 ? (int)rng.range(28, m == 6 ? 30 : 31) : 1; long mjd = greg(y, m, d) - 2400001; go({"utc_algo", fmt("%ld", mjd)}); string e = fmt("In %s half of %ld\n", m < 7 ? "first" : "second", y), j = fmt("MJD 1 Jul %ld = %ld\n", y, greg(y, 7, 1) - 2400001); if (out.size() < e.size() || out.compare(out.size() - e.size(), string::npos, e) || out.find(j) == string::npos) bad("utc_algo", "'%s' for %ld-%02d-%02d", out.c_str(), y, m, d); count("utc_algo"); }
/* ------------------------------------------------------------------ adestags: a sorted table, and numbers in its order */
static void adestags() {
   go({"adestags"}); vector<string> T; size_t k = 0; bool table = true; for (auto &l : lines(out)) { if (l.compare(0, 7, "#define") == 0) { char w[80]; int n; if (sscanf(l.c_str(), "#define ADES_%79s %d", w, &n) != 2 || k >= T.size() || T[k] != w || n != (int)k + 1) { bad("adestags", "'%s' is not number %zu of the table", l.c_str(), k + 1); return; } k++; continue; } if (l.find("NULL };") != string::npos) table = false; size_t p = 0; while (table && (p = l.find('"', p)) != string::npos) { size_t e = l.find('"', p + 1); if (e == string::npos) break; T.push_back(l.substr(p + 1, e - p - 1)); p = e + 1; } if (l.size() > 80) bad("adestags", "a line of %zu", l.size()); }
   for (size_t i = 1; i < T.size(); i++) if (!(T[i - 1] < T[i])) bad("adestags", "%s before %s", T[i - 1].c_str(), T[i].c_str()); if (k != T.size() || k < 140) bad("adestags", "%zu of %zu", k, T.size()); for (auto w : {"obsTime", "ra", "dec", "permID", "provID", "trkSub", "stn", "mag", "band", "rmsTime", "vel3", "ades"}) if (std::find(T.begin(), T.end(), w) == T.end()) bad("adestags", "no %s", w); count("adestags"); }
/* ------------------------------------------------------------------ the clock */
static void clockcheck() { struct timeval a, b; gettimeofday(&a, NULL); int64_t n = nanoseconds_since_1970(); gettimeofday(&b, NULL); int64_t lo = a.tv_sec * 1000000000LL + a.tv_usec * 1000LL, hi = b.tv_sec * 1000000000LL + b.tv_usec * 1000LL; cur("nanoseconds_since_1970"); if (hi >= lo && (n < lo || n > hi)) bad("clock", "%lld ns, between %lld and %lld", (long long)n, (long long)lo, (long long)hi); double j = current_jd(), w = 2440587.5 + (double)hi / 86400e9; if (fabs(j - w) > 2e-4) bad("clock-jd", "%.6f, not %.6f", j, w); count("clock"); }
int main(int argc, char **argv) {
   init(argc, argv); struct P { const char *nm; void (*f)(); int q, t; }; static const P ALL[] = {{"desigcgi", desigcgi, 300, 5000}, {"ll_test", lltest, 400, 6000}, {"mpcorb2", mpcorb2, 200, 3000}, {"disttest", disttest, 30, 400}, {"utc_algo", utcalgo, 300, 5000}, {"adestags", adestags, 1, 1}, {"clock", clockcheck, 200, 2000}};
   for (auto &p : ALL) { long n = mode == "san" ? (p.q + 19) / 20 : budget(p.q, p.t); for (long i = 0; i < n; i++) p.f(); }
   if (mode != "san") { for (auto k : {"desigcgi", "ll_test", "ll_test_files", "mpcorb2", "disttest", "utc_algo", "utc_ranges", "clock"}) need(k, 10); need("adestags", 1); }
   return finish();
}
