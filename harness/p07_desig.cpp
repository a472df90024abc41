/* P07: designations packed and unpacked, against an independent packer written from the MPC's rules. */
#include "vh.h"
#include <regex>
extern "C" {
int create_mpc_packed_desig(char *packed_desig, const char *obj_name);
int unpack_mpc_desig(char *obuff, const char *packed);
int unpack_unaligned_mpc_desig(char *obuff, const char *packed);
}
using namespace vh;
using std::string;
static const char *B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static string f(const char *fmt, ...) { char b[200]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
static string b62(long v, int n) { string s(n, '0'); for (int i = n - 1; i >= 0; i--) s[i] = B62[v % 62], v /= 62; return s; }
static string roman(int n) {
   static const int v[] = {900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1};
   static const char *t[] = {"CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I"};
   string s; for (int i = 0; i < 12; i++) while (n >= v[i]) s += t[i], n -= v[i];
   return s;
}
static const char *planets[] = {"Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto"};
static const char L2[] = "ABCDEFGHJKLMNOPQRSTUVWXYZ";      /* second letters, no I */
struct D { string text, packed; int kind; string canon; std::vector<string> alt; };
static string pad12(string s) { s.resize(12, ' '); return s; }

static D numbered(long n) {
   D d; d.text = d.canon = f("(%ld)", n); d.kind = 1;
   d.packed = pad12(n < 620000 ? string(1, B62[n / 10000]) + f("%04ld", n % 10000) : "~" + b62(n - 620000, 4));
   if (n >= 10000 && n < 1000000) d.alt.push_back(f("%ld", n));
   d.alt.push_back(f("  (%ld)", n));
   return d;
}
static string prov7(int y, char h, int l, long cyc) {      /* l = index in L2, -1 = none */
   if (cyc < 620) return string(1, B62[y / 100]) + f("%02d", y % 100) + h + B62[cyc / 10] + B62[cyc % 10] + (l >= 0 ? L2[l] : '0');
   return string("_") + B62[y - 2000] + h + b62((cyc - 620) * 25 + l, 4);
}
static string provtext(int y, char h, int l, long cyc) { return f("%d %c", y, h) + (l >= 0 ? string(1, L2[l]) : "") + (cyc ? f("%ld", cyc) : ""); }
static D provisional(int y, char h, int l, long cyc) {
   D d; d.text = d.canon = provtext(y, h, l, cyc); d.kind = 0; d.packed = "     " + prov7(y, h, l, cyc);
   if (rng.chance(.2)) { string t = d.text; t.erase(4, 1); d.alt.push_back(t); }
   if (rng.chance(.2)) d.alt.push_back(d.text + "  ");
   return d;
}
static D comet(char pre, int y, char h, int l, long cyc, int frag) {
   D d; d.text = d.canon = string(1, pre) + "/" + provtext(y, h, l, cyc) + (frag ? string("-") + (char)('A' + frag - 1) : "");
   d.kind = pre == 'A' ? 0 : 2; d.packed = "    " + string(1, pre) + prov7(y, h, l, cyc);
   if (frag) d.packed[11] = (char)('a' + frag - 1);
   return d;
}
static D numcomet(int n, char t, int f1, int f2) {
   D d; string fr = f1 ? string("-") + (f2 ? string(1, 'A' + f1 - 1) + (char)('A' + f2 - 1) : string(1, 'A' + f1 - 1)) : "";
   d.text = d.canon = f("%d%c", n, t) + fr; d.kind = 3; d.packed = pad12(f("%04d%c", n, t));
   if (f1 && f2) d.packed[10] = 'a' + f1 - 1, d.packed[11] = 'a' + f2 - 1;
   else if (f1) d.packed[11] = 'a' + f1 - 1;
   if (t == 'P' || t == 'D') d.alt.push_back(string(1, t) + "/" + f("%d", n) + fr);
   return d;
}
static D natsat(int p, int n) {
   D d; d.text = d.canon = string(planets[p]) + " " + roman(n); d.kind = 5; d.packed = pad12(f("%c%03dS", planets[p][0], n));
   d.alt.push_back(string(planets[p]) + f(" %d", n));
   return d;
}
static D natsatp(int y, char p, int n) {
   D d; d.text = d.canon = f("S/%d %c %d", y, p, n); d.kind = 4;
   d.packed = "    S" + string(1, B62[y / 100]) + f("%02d", y % 100) + p + B62[n / 10] + B62[n % 10] + "0";
   return d;
}
static D artsat(int y, int n, int k) {
   D d; d.text = f("%d-%03d", y, n); for (int i = 0; i < k; i++) d.text += (char)('A' + rng.below(26));
   d.canon = d.text; d.kind = 6; d.packed = pad12(d.text);
   return d;
}
static D survey(int n, int s) {
   static const char *t[] = {"P-L", "T-1", "T-2", "T-3"}, *p[] = {"PLS", "T1S", "T2S", "T3S"};
   D d; d.text = d.canon = f("%04d ", n) + t[s]; d.kind = 0; d.packed = string("     ") + p[s] + f("%04d", n);
   return d;
}
static std::map<string, string> owner;      /* packed form -> canonical name, over this shard */
static string guard(const string &s) { return s; }
static void check(const D &d) {
   static const char *kn[] = {"provisional", "numbered", "comet", "numbered comet", "provisional satellite", "numbered satellite", "artsat"};
   cur("%s '%s' <-> '%s'", kn[d.kind], d.text.c_str(), d.packed.c_str());
   char b[200]; memset(b, 'x', sizeof b);
   int rv = create_mpc_packed_desig(b, d.text.c_str());
   if (rv) bad(f("pack-rc-%d", d.kind), "'%s' reported as no designation (%d)", d.text.c_str(), rv);
   if (b[12] || strlen(b) != 12) bad("pack-len", "packed form not 12 characters: '%.30s'", b);
   else if (d.packed != b) bad(f("pack-%d", d.kind), "'%s' packed to '%s', expected '%s'", d.text.c_str(), b, d.packed.c_str());
   auto it = owner.find(b);
   if (it == owner.end()) { if (owner.size() < 400000) owner[b] = d.canon; }
   else if (it->second != d.canon) bad("collision", "'%s' and '%s' both pack to '%s'", it->second.c_str(), d.canon.c_str(), b);
   for (auto &a : d.alt) {
      char c[200]; rv = create_mpc_packed_desig(c, a.c_str());
      if (rv || d.packed != c) bad(f("pack-alt-%d", d.kind), "'%s' packed to '%.12s' (%d), expected '%s'", a.c_str(), c, rv, d.packed.c_str());
      count("alternative spellings");
   }
   char u[200]; memset(u, 'x', sizeof u);
   rv = unpack_mpc_desig(u, d.packed.c_str());
   if (rv != d.kind) bad(f("unpack-kind-%d", d.kind), "'%s' unpacked as kind %d", d.packed.c_str(), rv);
   if (d.canon != u) bad(f("unpack-%d", d.kind), "'%s' unpacked to '%.40s', expected '%s'", d.packed.c_str(), u, d.canon.c_str());
   /* inside a full record, and asking only for the kind */
   string rec = d.packed; while (rec.size() < 80) rec += (char)(rng.chance(.3) ? ' ' : 33 + rng.below(94));
   memset(u, 'x', sizeof u); rv = unpack_mpc_desig(u, rec.c_str());
   if (rv != d.kind || d.canon != u) bad(f("unpack-record-%d", d.kind), "in a record, '%s' unpacked to '%.40s' (%d)", d.packed.c_str(), u, rv);
   rv = unpack_mpc_desig(NULL, rec.c_str());
   if (rv != d.kind) bad("unpack-null", "without a buffer, '%s' is kind %d", d.packed.c_str(), rv);
   size_t a = d.packed.find_first_not_of(' '), z = d.packed.find_last_not_of(' ');
   string tr = d.packed.substr(a, z - a + 1);
   if (tr.find(' ') == string::npos) {
      string un = string(rng.below(4), ' ') + tr + (rng.chance(.5) ? string(rng.range(1, 9), ' ') + "junk" : "");
      memset(u, 'x', sizeof u); rv = unpack_unaligned_mpc_desig(u, un.c_str());
      if (rv != d.kind || d.canon != u) bad(f("unaligned-%d", d.kind), "'%s' unaligned gave '%.40s' (%d)", un.c_str(), u, rv);
      count("unaligned");
   }
   count(kn[d.kind]);
   seen(hstr(d.packed));
   if (evals % 9001 == 1) sample("'%s' = '%s'", d.text.c_str(), d.packed.c_str());
}
static char half() { static const char h[] = "ABCDEFGHJKLMNOPQRSTUVWXY"; return h[rng.below(24)]; }
static int year() { return rng.chance(.5) ? (int)rng.range(1990, 2061) : rng.chance(.3) ? (int)rng.range(1600, 1800) : (int)rng.range(1800, 2099); }
static long cycle(int y, bool ext = true) {
   static const long e[] = {0, 1, 9, 10, 11, 99, 100, 109, 110, 349, 350, 351, 359, 360, 361, 609, 610, 619};
   if (ext && y >= 2000 && y <= 2061 && rng.chance(.4)) { static const long x[] = {620, 621, 644, 645, 6190, 10000, 591672}; return rng.chance(.3) ? x[rng.below(7)] : rng.range(620, 591672); }
   return rng.chance(.4) ? e[rng.below(18)] : rng.range(0, 619);
}
static D any() {
   switch (rng.below(10)) {
   case 0: return numbered(rng.chance(.5) ? rng.range(1, 620100) : (long)rng.logu(1, 15396335.5));
   case 1: case 2: { int y = year(); if (rng.chance(.03)) return provisional((int)rng.range(2000, 2061), half(), (int)rng.below(11), 591673); return provisional(y, half(), (int)rng.below(25), cycle(y)); }
   case 3: { int y = year(); bool sec = rng.chance(.3); long c = cycle(y, sec); if (!sec && !c) c = 1;
      return comet("PCDXA"[rng.below(5)], y, half(), sec ? (int)rng.below(25) : -1, c, sec ? 0 : rng.chance(.4) ? (int)rng.range(1, 26) : 0); }
   case 4: case 5: return numcomet(rng.chance(.5) ? (int)rng.range(1, 500) : (int)rng.range(1, 9999), "PPDI"[rng.below(4)], rng.chance(.4) ? (int)rng.range(1, 26) : 0, (int)rng.range(0, 26));
   case 6: return natsat((int)rng.below(8), (int)rng.range(1, 999));
   case 7: return natsatp((int)rng.range(1901, 2099), "MVEJSUNP"[rng.below(8)], (int)rng.range(1, 619));
   case 8: return artsat((int)rng.range(1957, 2099), (int)rng.range(0, 999), (int)rng.range(1, 3));
   default: return survey((int)rng.range(1000, 9999), (int)rng.below(4));
   }
}
/* every spelling that may reasonably be taken as a designation */
static bool lenient(const string &s0) {
   static const std::regex re(
      "\\(\\d+\\)|\\d{5,}|([PCXDA]/)?\\d+[PDI](-[A-Z]{1,2})?|[PCXDA]/\\d+ ?(-[A-Z]{1,2})?|"
      "([PCXDA]/)?\\d+ ?[A-Z]{1,2}\\d*(-[A-Z])?|([PCXDA]/)?\\d{4} ?(P-L|T-[123])|"
      "(Venus|Earth|Mars|Jupiter|Saturn|Uranus|Neptune|Pluto) (\\d+|[IVXLCDM]+)|S/\\d{4} [MVEJSUNP] \\d+|([PCXDA]/)?\\d{4}-\\d{3}[A-Z].{0,2}");
   string s = s0;
   while (!s.empty() && s[0] == ' ') s.erase(0, 1);
   while (!s.empty() && s.back() == ' ') s.pop_back();
   return std::regex_match(s, re);
}
/* packed forms that may be taken as something (12 characters) */
static bool packed_lenient(const string &p) {
   static const string prov = "(_[0-9A-Za-z][A-Z][0-9A-Za-z]{4}|[G-K]\\d\\d[A-Z][0-9A-Za-z]\\d[A-Za-z0])";
   static const std::regex re("(~[0-9A-Za-z]{4}|[0-9A-Za-z]\\d{4}|[0-9A-Za-z]\\d{3}[PCDXAI])( {5}..|" + prov + ")|~[0-9A-Za-z]{4}[^ ]{5}..|"
      "[MVEJSUNP]\\d{3}S {7}| {4}S[H-Z]\\d\\d[MVEJSUNP][0-9A-Za-z]\\d0| {4}[ PCDXA]" + prov + "| {5}(PL|T[123])S\\d{4}|\\$.*|.*\\d{4}-\\d{3}[A-Z].*");
   return std::regex_match(p, re);
}
static void negative() {
   D d = any(); string t = d.text;
   switch (rng.below(8)) {
   case 7: t.clear(); for (int n = (int)rng.range(5, 9); n > 0; n--) t += B62[rng.below(62)]; break;
   case 0: t += "!x/?-bq."[rng.below(8)]; break;
   case 1: if (t.size() > 1) t.erase(rng.below(t.size()), 1); break;
   case 2: t.insert(rng.below(t.size() + 1), 1, " a-9Z(/"[rng.below(7)]); break;
   case 3: for (auto &c : t) c = (char)tolower(c); break;
   case 4: t += f("%llu", (unsigned long long)rng.next() % 100000000000ull); break;
   case 5: t[rng.below(t.size())] = (char)rng.range(33, 126); break;
   default: t.clear(); for (int n = (int)rng.range(0, 14); n > 0; n--) t += (char)(rng.chance(.7) ? B62[rng.below(62)] : rng.range(32, 126)); break;
   }
   cur("pack text '%s'", t.c_str());
   char b[200]; memset(b, 'x', sizeof b);
   char *exact = strdup(t.c_str());
   int rv = create_mpc_packed_desig(b, exact);
   free(exact);
   if (strlen(b) != 12) bad("pack-len", "packed form of '%s' is not 12 characters", t.c_str());
   b[12] = 0;
   if (!rv && !lenient(t)) bad("accepts", "'%s' was packed as designation '%s'", t.c_str(), b);
   if (rv) {
      count("rejected texts");
      /* kept literally */
      string s = t; while (!s.empty() && s[0] == ' ') s.erase(0, 1);
      if (s.size() >= 2 && s[0] == '(' && s.back() == ')' && s.find_first_not_of("0123456789", 1) == s.size() - 1) { s.erase(0, 1); }
      string w = s; while (!w.empty() && w.back() == ' ') w.pop_back();
      string lit = string(b) == "" ? "" : b;
      string e1 = "     " + w; e1.resize(12, ' ');
      string e2 = "$" + s; e2.resize(12, ' ');
      string w3 = w; if (!w3.empty() && w3.back() == ')') w3.pop_back(); string e3 = "     " + w3; e3.resize(12, ' ');
      if (lit != e1 && lit != e2 && lit != e3) bad("literal", "'%s' is no designation but was stored as '%s'", t.c_str(), b);
      if (t == w && !t.empty() && t.find_first_not_of(B62) == string::npos && lit != (t.size() <= 7 ? e1 : e2)) bad("literal-place", "'%s' (%zu characters) was stored as '%s'", t.c_str(), t.size(), b);
   } else count("accepted texts");
   seen(hstr(t));
   /* damaged packed forms */
   string p = d.packed; int k = (int)rng.range(1, 2);
   while (k--) p[rng.below(12)] = (char)(rng.chance(.6) ? B62[rng.below(62)] : rng.chance(.5) ? ' ' : rng.range(33, 126));
   cur("unpack '%s'", p.c_str());
   char u[200]; memset(u, 'x', sizeof u);
   rv = unpack_mpc_desig(u, p.c_str());
   if (!memchr(u, 0, 60)) bad("unterminated", "unpacking '%s' left no terminator", p.c_str());
   u[199] = 0;
   if (rv < -1 || rv > 6) bad("kind-range", "kind %d", rv);
   if (rv != -1 && !packed_lenient(p)) bad("unpack-accepts", "'%s' was taken as kind %d '%s'", p.c_str(), rv, u);
   if (rv == -1) {
      string s = p; while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back();
      if (s != u) bad("unpack-literal", "'%s' is no packed form but unpacked to '%s'", p.c_str(), u);
      count("rejected packed forms");
   } else count("accepted packed forms");
   int r2 = unpack_mpc_desig(NULL, p.c_str());
   if (r2 != rv) bad("unpack-null", "without a buffer '%s' is kind %d, else %d", p.c_str(), r2, rv);
}
/* a number and a redundant provisional designation */
static void both() {
   long n = rng.chance(.6) ? rng.range(1, 619999) : rng.range(620000, 15396335);
   int y = year(); D p = provisional(y, half(), (int)rng.below(25), cycle(y)), q = numbered(n);
   string s = q.packed.substr(0, 5) + p.packed.substr(5);
   cur("number and provisional '%s'", s.c_str());
   char u[100]; int rv = unpack_mpc_desig(u, s.c_str());
   if (rv != 1) bad("both-kind", "'%s' is kind %d", s.c_str(), rv);
   string e = q.canon + (n < 620000 ? " = " : " ") + p.canon;
   if (e != u) bad("both", "'%s' unpacked to '%s', expected '%s'", s.c_str(), u, e.c_str());
   count("number+provisional"); seen(hstr(s));
}
int main(int argc, char **argv) {
   init(argc, argv);
   /* edges and full ranges of the small families */
   for (int p = 0; p < 8; p++) for (int n = 1; n < 1000; n++) if (mine(n)) check(natsat(p, n));
   for (int n = 1; n < 10000; n++) if (mine(n)) check(numcomet(n, 'P', 0, 0));
   for (int n = 1000; n < 10000; n++) if (mine(n)) for (int s = 0; s < 4; s++) check(survey(n, s));
   for (int n = 1; n < 620; n++) if (mine(n)) for (char p : {'J', 'S', 'U', 'N', 'P', 'M'}) check(natsatp(2003, p, n));
   for (int c = 0; c < 620; c++) if (mine(c)) for (int l = 0; l < 25; l++) check(provisional(2004, 'J', l, c));
   for (int c = 620; c < 1300; c++) if (mine(c)) for (int l = 0; l < 25; l++) check(provisional(2026, 'C', l, c));
   long step = thorough ? 1 : 97;
   for (long n = 1; n <= 15396335; n += step) if (mine(n / step)) check(numbered(n));
   for (long b = 10000; b <= 15396335; b += b < 700000 ? 10000 : 238328) if (mine(b / 1000)) for (long k = -2; k <= 2; k++) if (b + k <= 15396335) check(numbered(b + k));
   if (shard == 0) { for (long n = 619900; n < 620200; n++) check(numbered(n)); for (long n = 15396200; n <= 15396335; n++) check(numbered(n)); }
   for (long k = 0, n = budget(150000, 8000000); k < n; k++) check(any());
   for (long k = 0, n = budget(60000, 2000000); k < n; k++) negative();
   for (long k = 0, n = budget(20000, 500000); k < n; k++) both();
   need("rejected texts", 1000); need("rejected packed forms", 1000); need("unaligned", 1000); need("number+provisional", 1000);
   return finish();
}
