/* P11: generated ADES documents (XML and PSV, mixed with plain lines) through the real translator by all three
   of its interfaces; every record that comes out is compared with the observation it came from. */
#include "vh_trap.h"
#include "watdefs.h"
#include "mpc_func.h"
#include "calref.h"
#include "date.h"
#include "afuncs.h"
using vh::rng;
typedef std::vector<std::pair<std::string, std::string>> Fields;
static std::string S(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string digits(int n) { std::string s; while (n-- > 0) s += (char)('0' + rng.below(10)); return s; }
static std::string alnum(int n) { static const char *c = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; std::string s; while (n-- > 0) s += c[rng.below(62)]; return s; }
static const char *AL = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static std::string b62(unsigned v, int w) { std::string s(w, '0'); while (w--) { s[w] = AL[v % 62]; v /= 62; } return s; }
static std::vector<std::string> nets; static std::vector<char> netc;
struct Obs {
   std::map<std::string, std::string> f;
   std::string line, line2; std::vector<std::string> com;
   bool two_notes = false; char alt13 = 0;
   double mjd = 0; bool rover = false, sat = false;
};
static const char *order_[] = {"permID", "provID", "artSat", "trkSub", "obsID", "trkID", "mode", "stn", "sys", "ctr", "pos1", "pos2", "pos3", "vel1", "vel2", "vel3", "prog", "obsTime", "rmsTime", "ra", "dec", "rmsRA", "rmsDec", "rmsCorr", "astCat", "mag", "rmsMag", "band", "photCat", "photAp", "logSNR", "seeing", "exp", "rmsFit", "nStars", "ref", "disc", "notes", "remarks", "deprecated", NULL};
static std::string text() { static const char *w[] = {"Smith", "Mauna Kea", "J. Doe", "faint", "moon 30 deg", "clouds", "A. B. Cee", "x", "J. Mu\xc3\xb1oz", "\xc3\x89. Doe", "Ond\xc5\x99" "ejov", "10\xb0 up"}; return w[rng.below(12)]; }
static std::string number(long ipart, int dec) { std::string s = S("%ld", ipart); if (dec >= 0) s += "." + digits(dec); return s; }
static bool jdhms(const std::string &t, long double *d)   /* days from J2000 */
{
   int y, m, dd, h, mi; long double s; if (sscanf(t.c_str(), "%d-%d-%dT%d:%d:%Lf", &y, &m, &dd, &h, &mi, &s) != 6) return false;
   *d = (long double)(calref::greg_jd(y, m, dd) - 2451545) - .5L + (h * 3600 + mi * 60 + s) / 86400.L; return true;
}
static Obs make_obs()
{
   Obs o; auto &f = o.f; std::string &L = o.line; L.assign(80, ' ');
   char pk[20]; int k = (int)rng.below(7); bool idset = true;
   auto put = [&](int c, const std::string &s) { L.replace(c, s.size(), s); };
   auto packed = [&](const std::string &s) { memset(pk, 0, sizeof pk); create_mpc_packed_desig(pk, s.c_str()); put(0, std::string(pk, 12)); };
   std::string prov = S("%ld %c%c", rng.range(1925, 2035), "ABCDEFGHJKLMNOPQRSTUVWXY"[rng.below(24)], "ABCDEFGHJKLMNOPQRSTUVWXYZ"[rng.below(25)]); { long n = rng.chance(.3) ? 0 : rng.range(1, 600); if (n) prov += S("%ld", n); }
   if (k == 0 || k == 1) { f["permID"] = S("%ld", rng.chance(.5) ? rng.range(1, 700000) : rng.range(1, 999)); if (k == 1) f["provID"] = prov; packed("(" + f["permID"] + ")"); }
   else if (k == 2 || k == 3) { f["provID"] = prov; packed(prov); }
   else if (k == 4) { f["provID"] = S("%c/%ld %c%ld", "CP"[rng.below(2)], rng.range(1990, 2030), "ABCDEFGHJKLMNOPQRSTUVWXY"[rng.below(24)], rng.range(1, 99)); packed(f["provID"]); }
   else if (k == 5) { idset = false; }
   else { f["artSat"] = S("%ld-%03ld%c", rng.range(1957, 2030), rng.range(1, 200), (char)('A' + rng.below(26))); put(0, f["artSat"]); }
   if (!idset || (k < 5 && rng.chance(.3))) { std::string t = alnum((int)rng.range(1, rng.chance(.1) ? 12 : 8)); f["trkSub"] = t; if (!idset) put(t.size() < 8 ? 5 : 12 - (int)t.size(), t); }
   if (rng.chance(.2)) f["obsID"] = alnum((int)rng.range(1, 25));
   if (rng.chance(.2)) f["trkID"] = alnum((int)rng.range(1, 11));
   static const char *modes[][2] = {{"CCD", "C"}, {"CMO", "B"}, {"VID", "n"}, {"PHO", "P"}, {"ENC", "e"}, {"PMT", "p"}, {"MIC", "M"}, {"MER", "T"}, {"TDI", "C"}, {"OCC", "E"}, {"UNK", "?"}};
   if (rng.chance(.9)) { int m = (int)rng.below(11); f["mode"] = modes[m][0]; put(14, modes[m][1]); }
   std::string stn = rng.chance(.3) ? "247" : S("%c%s", AL[rng.below(36)], digits(2).c_str()); f["stn"] = stn; put(77, stn);
   if (rng.chance(.25)) {
      o.line2.assign(80, ' '); int u = (int)rng.below(3); o.rover = u == 2; o.sat = !o.rover;
      f["sys"] = u == 0 ? "ICRF_KM" : u == 1 ? "ICRF_AU" : "WGS84"; o.line2[32] = u == 1 ? '2' : '1'; L[14] = o.rover ? 'V' : 'S'; o.line2[14] = o.rover ? 'v' : 's';
      if (o.rover) {
         f["pos1"] = number(rng.range(0, 359), (int)rng.range(-1, 6)); f["pos2"] = (rng.chance(.5) ? "-" : rng.chance(.3) ? "+" : "") + number(rng.range(0, 89), (int)rng.range(-1, 6)); f["pos3"] = rng.chance(.3) ? S("%ld", rng.range(-400, 9000)) : number(rng.range(0, 999), 1);
         if (rng.chance(.5)) f["ctr"] = "399";
      } else {
         for (int i = 1; i <= 3; i++) {
            std::string s = rng.chance(.5) ? "-" : rng.chance(.3) ? "+" : "";
            if (u == 0) { static const long mx[] = {9, 99, 999, 9999, 99999, 999999, 9999999}; s += number(rng.range(0, mx[rng.below(7)]), (int)rng.range(-1, 10)); }
            else s += number(rng.range(0, rng.chance(.5) ? 1 : 49), (int)rng.range(1, 12));
            if (rng.chance(.05)) s = S("%.8e", (rng.chance(.5) ? 1 : -1) * (u ? rng.uni(.001, 3) : rng.uni(100, 90000)));
            f[S("pos%d", i)] = s;
         }
         if (rng.chance(.5)) f["ctr"] = rng.pick(std::vector<std::string>{"399", "10", "0", "301"});
         if (rng.chance(.4)) for (int i = 1; i <= 3; i++) f[S("vel%d", i)] = S("%.*f", (int)rng.range(3, 9), rng.uni(-9, 9) * (u ? .001 : 1));
      }
   }
   const int pn = (int)rng.below(4);
   if (pn == 1) { int p = (int)rng.range(0, 34); f["prog"] = S(rng.chance(.5) ? "%02d" : "%d", p); L[13] = "0123456789!\"#$%&'()*+,-./[\\]^_`{|}~"[p]; }
   else if (pn == 2) { f["notes"] = std::string(1, "KICAFSDHWZ"[rng.below(10)]) + (rng.chance(.2) ? alnum((int)rng.range(1, 5)) : ""); L[13] = f["notes"][0]; }
   { int y = (int)rng.range(rng.chance(.2) ? 1850 : 1990, rng.chance(.1) ? 2099 : 2030), m = (int)rng.range(1, 12), nd = (int)rng.below(10);
     std::string t = S("%04d-%02d-%02ldT%02ld:%02ld:%02ld", y, m, rng.range(1, 28), rng.range(0, 23), rng.range(0, 59), rng.range(0, 59)); if (nd) t += "." + digits(nd); f["obsTime"] = t + "Z";
     std::string d = S("%c", y < 1900 ? 'I' : y < 2000 ? 'J' : 'K'); for (size_t i = 2; i < t.size(); i++) { if (isdigit((unsigned char)t[i])) d += t[i]; else if (t[i] == 'T') d += ':'; } put(15, d.substr(0, 17)); }
   { int nd = (int)rng.range(0, rng.chance(.2) ? 13 : 7); f["ra"] = S("%s%s%ld", rng.chance(.05) ? "+" : "", rng.chance(.1) ? "0" : "", rng.range(0, rng.chance(.3) ? 99 : 359)); if (f["ra"].size() > 3 && f["ra"][0] == '0') f["ra"].erase(0, 1); if (nd) f["ra"] += "." + digits(nd);
     if (f["ra"].find("359.99999999") != std::string::npos) f["ra"] = "12.5"; if (f["ra"].size() && f["ra"][0] == '+' && f["ra"].size() > 4 && f["ra"][1] == '0' && isdigit((unsigned char)f["ra"][2]) && isdigit((unsigned char)f["ra"][3]) && isdigit((unsigned char)f["ra"][4])) f["ra"] = "1.25"; }
   { int nd = (int)rng.range(0, rng.chance(.2) ? 13 : 7); f["dec"] = S("%s%ld", rng.chance(.5) ? "-" : rng.chance(.5) ? "+" : "", rng.range(0, 89)); if (nd) f["dec"] += "." + digits(nd); }
   if (rng.chance(.5)) { f["rmsRA"] = S("%.*f", (int)rng.range(1, 4), rng.uni(.01, 2)); f["rmsDec"] = rng.chance(.3) ? f["rmsRA"] : S("%.*f", (int)rng.range(1, 4), rng.uni(.01, 2)); if (rng.chance(.3)) f["rmsCorr"] = S("%.2f", rng.uni(-.99, .99)); if (rng.chance(.3)) f["rmsTime"] = S("%.1f", rng.uni(.1, 9)); if (rng.chance(.4)) f["rmsMag"] = S("%.2f", rng.uni(.01, 1)); }
   if (rng.chance(.8)) { size_t n = rng.below(nets.size()); f["astCat"] = nets[n]; L[71] = netc[n]; }
   if (rng.chance(.8)) { f["mag"] = S("%s%.*f", "", (int)rng.range(0, rng.chance(.1) ? 5 : 3), rng.uni(4, 26)); put(65, f["mag"].substr(0, 5)); static const char *bands[][2] = {{"V", "V"}, {"R", "R"}, {"B", "B"}, {"G", "G"}, {"c", "c"}, {"o", "o"}, {"Pg", "g"}, {"Pr", "r"}, {"Pi", "i"}, {"Pz", "z"}, {"Py", "y"}, {"Pw", "w"}, {"Sg", "g"}, {"Sr", "r"}, {"Ao", "o"}, {"Ac", "c"}, {"Gb", "b"}, {"Gr", "r"}, {"Vj", "V"}, {"Rc", "R"}, {"Ic", "I"}, {"UNK", "U"}}; if (rng.chance(.9)) { int b = (int)rng.below(22); f["band"] = bands[b][0]; put(70, bands[b][1]); } }
   if (rng.chance(.3)) { std::string r, p; switch (rng.below(5)) {
      case 0: { long n = rng.range(1, 999); char h = (char)('A' + rng.below(25)); r = S("MPEC %ld-%c%ld", rng.range(1995, 2030), h, n); p = S("E%c%03ld", h, n); break; }
      case 1: { long n = rng.range(1, 259999); r = S("MPS %ld", n); p = S("%c%04ld", (char)('a' + n / 10000), n % 10000); break; }
      case 2: { long n = rng.range(260000, 3000000); r = S("MPS %ld", n); p = "~" + b62((unsigned)(n - 260000), 4); break; }
      case 3: { long n = rng.range(1, 109999); r = S("MPC %ld", n); p = n < 100000 ? S("%05ld", n) : S("@%04ld", n - 100000); break; }
      default: { long n = rng.range(110000, 900000); r = S("MPC %ld", n); p = "#" + b62((unsigned)(n - 110000), 4); } }
      f["ref"] = r; put(72, p); }
   if (rng.chance(.1)) { f["disc"] = "*"; L[12] = '*'; }
   if (rng.chance(.1) && f["sys"].empty()) { f["deprecated"] = "X"; L[14] = 'X'; }
   if (rng.chance(.2)) f["remarks"] = text();
   if (rng.chance(.2)) f["photCat"] = "Gaia2";
   if (rng.chance(.2)) f["logSNR"] = "1.2";
   if (rng.chance(.1)) f["seeing"] = "2.1";
   if (rng.chance(.1)) f["exp"] = "30";
   for (auto it = f.begin(); it != f.end();) if (it->second.empty()) it = f.erase(it); else ++it;
   /* comment lines that go with it */
   auto G = [&](const char *n) { auto it = f.find(n); return it == f.end() ? std::string() : it->second; };
   if (G("rmsRA").size()) { std::string c = "COM Sigmas " + G("rmsRA"); bool corr = G("rmsCorr").size() && atof(G("rmsCorr").c_str()) != 0; if (G("rmsRA") != G("rmsDec") || corr) c += "x" + G("rmsDec"); if (corr) c += "," + G("rmsCorr"); if (G("rmsMag").size()) c += " m:" + G("rmsMag"); if (G("rmsTime").size()) c += " t:" + G("rmsTime"); o.com.push_back(c); }
   { std::string c; if (G("trkSub").size()) c += " trkSub:" + G("trkSub"); if (G("obsID").size()) c += " obsID:" + G("obsID"); if (G("trkID").size()) c += " trkID:" + G("trkID"); if (c.size()) o.com.push_back("COM IDs" + c); }
   return o;
}
static std::string unplus(const std::string &s) { return s[0] == '+' ? s.substr(1) : s; }
static int decimals(const std::string &s) { size_t p = s.find('.'); return p == std::string::npos ? 0 : (int)(s.size() - p - 1); }
/* one record against its observation */
static void check_record(const Obs &o, const std::string &rec)
{
   if (rec.size() != 80) { vh::bad("record-length", "%zu columns: '%s'", rec.size(), rec.c_str()); return; }
   static const struct { int a, b; const char *n; } R[] = {{0, 12, "designation"}, {12, 13, "discovery asterisk"}, {13, 14, "note 1"}, {14, 15, "mode"}, {15, 32, "time"}, {56, 65, "blank columns"}, {65, 70, "magnitude"}, {70, 71, "band"}, {71, 72, "catalogue"}, {72, 77, "reference"}, {77, 80, "station"}};
   for (auto &r : R) if (rec.compare(r.a, r.b - r.a, o.line, r.a, r.b - r.a)) vh::bad(std::string("record-") + r.n, "'%s' where '%s' belongs", rec.c_str(), o.line.substr(r.a, r.b - r.a).c_str());
   auto num = [&](int a, int n, double *v) { std::string s = rec.substr(a, n); bool neg = s[0] == '-'; if (neg || s[0] == '+') s = s.substr(1); size_t b = s.find_first_not_of(' '); if (b == std::string::npos || !isdigit((unsigned char)s[b])) return false; char *e; *v = strtod(s.c_str(), &e); if (neg) *v = -*v; while (*e == ' ') e++; return !*e; };
   double v; const double ra = atof(o.f.at("ra").c_str()), de = atof(o.f.at("dec").c_str());
   if (!num(32, 12, &v) || fabs(v - ra) > (decimals(o.f.at("ra")) > 7 ? .5001e-8 : 1e-13 * 360)) vh::bad("record-ra", "'%s' for RA %s", rec.c_str(), o.f.at("ra").c_str());
   if (!num(44, 12, &v) || fabs(v - de) > (decimals(o.f.at("dec")) > 7 ? .5001e-8 : 1e-13 * 90) || rec[44] != (o.f.at("dec")[0] == '-' ? '-' : '+')) vh::bad("record-dec", "'%s' for dec %s", rec.c_str(), o.f.at("dec").c_str());
   /* and as the rest of the library will read it */
   unsigned tf; double jd = extract_date_from_mpc_report(rec.c_str(), &tf); long double want; if (jdhms(o.f.at("obsTime"), &want) && !(fabsl((jd - 2451545.0L) - want) < 1.01e-3L / 86400 + 2e-9L)) vh::bad("record-time-read", "'%s' reads as JD %.9f, should be %.9Lf", rec.c_str(), jd, want + 2451545);
   int rf, df; double r, d, rp, dp; get_ra_dec_from_mpc_report(rec.c_str(), &rf, &r, &rp, &df, &d, &dp);
   if (fabs(r * 180 / M_PI - ra) > 1e-8 || fabs(d * 180 / M_PI - de) > 1e-8) vh::bad("record-radec-read", "'%s' reads as %.9f %.9f", rec.c_str(), r * 180 / M_PI, d * 180 / M_PI);
   vh::count("records compared"); vh::seen(vh::hstr(rec));
}
static void check_line2(const Obs &o, const std::string &rec, const std::string &first)
{
   if (rec.size() != 80) { vh::bad("line2-length", "%zu columns: '%s'", rec.size(), rec.c_str()); return; }
   if (rec.compare(0, 12, first, 0, 12) || rec.compare(15, 17, first, 15, 17) || rec.compare(77, 3, first, 77, 3) || rec[14] != o.line2[14] || rec[32] != o.line2[32]) vh::bad("line2-identity", "'%s' does not go with '%s'", rec.c_str(), first.c_str());
   auto G = [&](const char *n) { auto it = o.f.find(n); return it == o.f.end() ? std::string() : it->second; };
   int ctr = G("ctr").size() ? atoi(G("ctr").c_str()) : 399;
   if (ctr != 399 && atoi(rec.substr(69, 8).c_str()) != ctr) vh::bad("line2-centre", "'%s' for centre %d", rec.c_str(), ctr);
   for (int i = 0; i < 3; i++) {
      std::string given = unplus(G(S("pos%d", i + 1).c_str())), s = o.rover ? rec.substr(i == 0 ? 34 : i == 1 ? 45 : 56, i == 2 ? 5 : 10) : rec.substr(34 + 12 * i, ctr != 399 && i == 2 ? 11 : 12);
      if (o.sat) { std::string t = s.substr(1); size_t b = t.find_first_not_of(' '); if (b != std::string::npos) t = t.substr(b); s = std::string(1, s[0]) + t; if (s[0] != '+' && s[0] != '-') { vh::bad("line2-sign", "'%s'", rec.c_str()); return; } }
      else if (i == 1) { std::string t = s.substr(1); size_t b = t.find_first_not_of(' '); if (b != std::string::npos) t = t.substr(b); s = std::string(1, s[0]) + t; }
      char *e; double v = strtod(s.c_str(), &e), want = atof(given.c_str()); while (*e == ' ') e++;
      size_t pt = s.find('.'); int nd = 0; if (pt != std::string::npos) for (size_t j = pt + 1; j < s.size() && isdigit((unsigned char)s[j]); j++) nd++;
      int gd = decimals(given); double ulp = nd < gd || given.find('e') != std::string::npos ? pow(10, -nd) : 0;
      if (*e || fabs(v - want) > 1.000001 * ulp + 1e-12 * fabs(want)) vh::bad(o.rover ? "line2-site" : "line2-position", "coordinate %d is '%s' for %s: '%s'", i + 1, s.c_str(), given.c_str(), rec.c_str());
      int need = o.rover ? gd : std::min(gd, (G("sys") == "ICRF_KM" ? 2 : 6)); if (given.find('e') == std::string::npos && nd < need) vh::bad("line2-precision", "coordinate %d is '%s' for %s", i + 1, s.c_str(), given.c_str());
   }
   vh::count(o.rover ? "roving-observer lines" : "spacecraft lines");
}
struct Item { int kind; std::string text; Obs o; };          /* 0 literal line expected, 1 observation */
static std::string doc; static std::vector<Item> expect_;
static void lit(const std::string &s) { expect_.push_back({0, s, Obs()}); }
static void plain_line()
{
   std::string s; int k = (int)rng.below(4);
   if (k == 0) s = S("     K%02ldA%02ldB  C20%02ld %02ld %02ld.%s %s %s %s -%s %s %s          19.%ld V      %s", rng.range(10, 30), rng.range(0, 99), rng.range(10, 30), rng.range(1, 12), rng.range(1, 28), digits(5).c_str(), "12", "34", "56.78", "12", "34", "56.7", rng.range(0, 9), "568");
   else if (k == 1) s = "COM " + text();
   else if (k == 2) s = "COD " + digits(3);
   else { s = "NET Gaia-DR2 " + alnum((int)rng.range(1, 40)); }
   doc += s + "\n"; lit(s);
}
static bool crlf;
static void psv_block(int n)
{
   if (rng.chance(.8)) {
      if (rng.chance(.7)) { doc += "# version=2017\n"; lit("# version=2017"); }
      doc += "# observatory\n"; std::string c = digits(3); doc += "! mpcCode " + c + "\n"; lit("COD " + c);
      if (rng.chance(.5)) { std::string t = text(); doc += "! name " + t + "\n"; lit("COM Observatory name " + t); }
      if (rng.chance(.5)) { std::string t = text(); doc += "# submitter\n! name " + t + "\n"; lit("CON " + t); }
      if (rng.chance(.5)) { std::string t = text(), u = text(); doc += "# observers\n! name " + t + "\n! name " + u + "\n"; lit("OBS " + t); lit("OBS " + u); }
      if (rng.chance(.5)) { std::string t = text(); doc += "# measurers\n! name " + t + "\n"; lit("MEA " + t); }
   }
   std::vector<Obs> os; std::set<std::string> used;
   for (int i = 0; i < n; i++) { os.push_back(make_obs()); for (auto &p : os.back().f) used.insert(p.first); }
   std::vector<std::string> cols; for (int i = 0; order_[i]; i++) if (used.count(order_[i]) || rng.chance(.1)) cols.push_back(order_[i]);
   if (rng.chance(.5)) {        /* another column order; 'sys' stays before what depends on it */
      for (size_t i = cols.size() - 1; i > 0; i--) std::swap(cols[i], cols[rng.below(i + 1)]);
      auto at = [&](const std::string &c) { return std::find(cols.begin(), cols.end(), c); };
      for (const char *c : {"sys"}) if (at(c) != cols.end()) { cols.erase(at(c)); cols.insert(cols.begin(), c); }
      for (const char *c : {"deprecated"}) if (at(c) != cols.end()) { cols.erase(at(c)); cols.push_back(c); }
      vh::count("column orders shuffled");
   }
   bool pad = rng.chance(.6); std::string h;
   for (size_t i = 0; i < cols.size(); i++) h += (i ? "|" : "") + cols[i] + (pad ? std::string(rng.below(5), ' ') : "");
   doc += h + "\n";
   for (auto &o : os) {
      std::string r; for (size_t i = 0; i < cols.size(); i++) { auto it = o.f.find(cols[i]); r += (i ? "|" : "") + (pad ? std::string(rng.below(3), ' ') : std::string()) + (it == o.f.end() ? (pad ? std::string(rng.below(4), ' ') : "") : it->second) + (pad ? std::string(rng.below(3), ' ') : std::string()); }
      if (r.find_first_not_of(" |") == std::string::npos) continue;
      doc += r + "\n"; expect_.push_back({1, "", o}); vh::count("PSV observations");
   }
}
static void xml_block(int n)
{
   if (rng.chance(.5)) { std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; doc += s + "\n"; lit(s); }
   doc += "<ades version=\"2017\">\n"; int blocks = (int)rng.range(1, 2); double brk = rng.pick(std::vector<double>{0, .02, .3, 1});
   for (int b = 0; b < blocks; b++) {
      doc += "<obsBlock>\n";
      if (rng.chance(.7)) {
         std::string c = digits(3), t = text(); bool nl = rng.chance(.3); auto el = [&](const char *tag, const std::string &v) { doc += S("  <%s>", tag) + (nl ? "\n   " : "") + v + (nl ? "\n" : "") + S("</%s>\n", tag); };
         doc += "<obsContext>\n<observatory>\n"; el("mpcCode", c); lit("COD " + c); if (rng.chance(.5)) { el("name", t); lit("COM Observatory name " + t); } doc += "</observatory>\n";
         if (rng.chance(.5)) { t = text(); doc += "<submitter>\n"; el("name", t); doc += "</submitter>\n"; lit("CON " + t); }
         if (rng.chance(.5)) { t = text(); doc += "<observers>\n"; el("name", t); lit("OBS " + t); t = text(); el("name", t); lit("OBS " + t); doc += "</observers>\n"; }
         if (rng.chance(.5)) { t = text(); doc += "<measurers>\n"; el("name", t); doc += "</measurers>\n"; lit("MEA " + t); }
         doc += "</obsContext>\n";
      }
      doc += "<obsData>\n";
      for (int i = 0; i < n; i++) {
         Obs o = make_obs(); std::vector<std::string> e; for (int j = 0; order_[j]; j++) if (o.f.count(order_[j])) e.push_back(order_[j]);
         if (rng.chance(.3)) { for (size_t q = e.size() - 1; q > 0; q--) std::swap(e[q], e[rng.below(q + 1)]); auto at = [&](const std::string &c) { return std::find(e.begin(), e.end(), c); }; if (at("sys") != e.end()) { e.erase(at("sys")); e.insert(e.begin(), "sys"); } if (at("deprecated") != e.end()) { e.erase(at("deprecated")); e.push_back("deprecated"); } }
         size_t linelen = 0; auto tok = [&](const std::string &s, bool atomic) { if (linelen && (rng.chance(brk) || linelen + s.size() > 180)) { doc += "\n"; linelen = 0; if (rng.chance(.5)) { doc += "      "; linelen = 6; } } (void)atomic; doc += s; linelen += s.size(); };
         tok("<optical>", true);
         for (auto &t : e) { tok("<" + t + ">", true); tok((rng.chance(.1) ? " " : "") + o.f[t] + (rng.chance(.1) ? " " : ""), true); tok("</" + t + ">", true); }
         tok("</optical>", true); doc += "\n"; expect_.push_back({1, "", o}); vh::count("XML observations");
      }
      doc += "</obsData>\n</obsBlock>\n";
   }
   doc += "</ades>\n";
}
static std::vector<std::string> split(const std::string &d) { std::vector<std::string> v; size_t p = 0; while (p < d.size()) { size_t q = d.find('\n', p); v.push_back(d.substr(p, q - p)); p = q + 1; } return v; }
static std::string chomp(std::string s) { while (s.size() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
/* the three ways of driving the translator */
static bool feed(int how, std::vector<std::string> &out, int *left)
{
   out.clear(); void *ctx = init_ades2mpc(); bool ok = true; const size_t limit = doc.size() / 8 + 5000;
   if (how == 0) {
      std::string fn = vh::workdir + "/doc.txt"; FILE *f = fopen(fn.c_str(), "wb"); std::string d; for (char c : doc) { if (c == '\n' && crlf) d += '\r'; d += c; } fwrite(d.data(), 1, d.size(), f); fclose(f);
      f = fopen(fn.c_str(), "rb"); char *b = (char *)malloc(400); int r = 0;
      ok = GUARDED(while (out.size() < limit && (r = fgets_with_ades_xlation(b, 400, ctx, f)) != 0) { if (r < 0) { out.push_back(S("<<error %d>>", r)); break; } out.push_back(chomp(b)); });
      free(b); fclose(f);
   } else for (auto &l : split(doc)) {
      char *ib = (char *)malloc(how == 1 ? l.size() + 2 : 400), *ob = (char *)malloc(221); memcpy(ib, l.c_str(), l.size() + 1); if (rng.chance(.5) ) { ib[l.size()] = '\n'; ib[l.size() + 1] = 0; }
      int r = 0;
      ok = ok && GUARDED(while (out.size() < limit && (r = how == 1 ? xlate_ades2mpc(ctx, ob, ib) : xlate_ades2mpc_in_place(ctx, ib)) != 0) { if (r < 0) { out.push_back(S("<<error %d>>", r)); break; } out.push_back(chomp(how == 1 ? ob : ib)); });
      free(ib); free(ob); if (!ok) break;
   }
   *left = free_ades2mpc_context(ctx);
   if (!ok) { std::string tail = out.size() ? out.back() : ""; vh::bad("stopped", "the program stopped: %s after '%s'", vh::trap_what.c_str(), tail.c_str()); return false; }
   if (out.size() >= limit) { vh::bad("endless", "output never ends; last line '%s'", out.back().c_str()); return false; }
   return true;
}
static void one()
{
   doc.clear(); expect_.clear(); crlf = rng.chance(.2); int nb = (int)rng.range(1, 3); bool last_psv = false;
   for (int i = (int)rng.below(4); i > 0; i--) plain_line();
   for (int b = 0; b < nb; b++) { last_psv = rng.chance(.5); if (last_psv) psv_block((int)rng.range(1, 5)); else xml_block((int)rng.range(1, 4)); for (int i = (int)rng.below(3); i > 0; i--) { plain_line(); last_psv = false; } }
   vh::cur("%s", doc.substr(0, 3900).c_str());
   std::vector<std::string> ref, out; int left = 0;
   for (int how = 0; how < 3; how++) {
      if (!feed(how, out, &left)) return;
      if (!last_psv && left) vh::bad("left-open", "%d tags left open at the end of a well-formed document", left);
      if (!how) ref = out; else if (out != ref) { size_t i = 0; while (i < out.size() && i < ref.size() && out[i] == ref[i]) i++; vh::bad("interfaces-differ", "line %zu: '%s' from a file, '%s' through interface %d", i, i < ref.size() ? ref[i].c_str() : "(none)", i < out.size() ? out[i].c_str() : "(none)", how); return; }
   }
   size_t p = 0; std::vector<std::string> com;
   for (auto &it : expect_) {
      if (it.kind == 0) { if (p >= ref.size() || ref[p] != it.text) { vh::bad("line-order", "'%s' where '%s' belongs", p < ref.size() ? ref[p].c_str() : "(end)", it.text.c_str()); return; } p++; vh::count("lines passed through"); continue; }
      com.clear(); while (p < ref.size() && !ref[p].compare(0, 4, "COM ")) com.push_back(ref[p++]);
      if (p >= ref.size()) { vh::bad("lost", "an observation has no record: %s", it.o.line.c_str()); return; }
      const Obs &o = it.o; check_record(o, ref[p]); size_t first = p++;
      if (o.line2.size()) { if (p >= ref.size()) { vh::bad("lost", "no position line"); return; } check_line2(o, ref[p++], ref[first]); }
      /* its comments, nobody else's */
      auto G = [&](const char *n) { auto i = o.f.find(n); return i == o.f.end() ? std::string() : i->second; };
      std::vector<std::string> want = o.com, full; 
      auto longval = [&](const std::string &s) { std::string t = s[0] == '+' || s[0] == '-' ? s.substr(1) : s; return decimals(t) > 7; };
      std::string tm = G("obsTime"); bool lt = tm.size() - 1 > 23, lr = longval(G("ra")), ld = longval(G("dec"));
      size_t q = 0;
      for (auto &w : want) { if (q >= com.size() || com[q] != w) { vh::bad("comment", "'%s' where '%s' belongs", q < com.size() ? com[q].c_str() : "(none)", w.c_str()); return; } q++; }
      if (lt || lr || ld) {
         char a[60], b[60]; double t = 0; int n = q < com.size() ? sscanf(com[q].c_str(), "COM RA/dec %59s %59s %lf", a, b, &t) : 0; std::string dd = G("dec"); if (dd[0] != '-' && dd[0] != '+') dd = "+" + dd;
         if (n < 2 || (lr ? unplus(G("ra")) : "-") != a || (ld ? dd : "-") != b) { vh::bad("comment-full", "'%s' for RA %s dec %s", q < com.size() ? com[q].c_str() : "(none)", G("ra").c_str(), G("dec").c_str()); return; }
         long double wt = 0; jdhms(tm, &wt); if (lt != (n == 3) || (lt && fabsl(t - wt) > 1e-11L)) vh::bad("comment-time", "'%s' for %s (%.15Lf)", com[q].c_str(), tm.c_str(), wt);
         q++; vh::count("full-precision comments");
      }
      if (G("mag").size() > 5) { if (q >= com.size() || com[q] != "COM full mag " + G("mag")) { vh::bad("comment-mag", "'%s' for magnitude %s", q < com.size() ? com[q].c_str() : "(none)", G("mag").c_str()); return; } q++; }
      { std::string c; if (G("band").size() > 1) c += " band:" + G("band"); if (G("notes").size()) c += " notes:" + G("notes"); if (G("prog").size()) c += " progcode:" + G("prog"); if (c.size()) { if (q >= com.size() || com[q] != "COM ADES tags" + c) { vh::bad("comment-tags", "'%s' where 'COM ADES tags%s' belongs", q < com.size() ? com[q].c_str() : "(none)", c.c_str()); return; } q++; } }
      if (G("vel1").size()) { double v[3] = {9e9, 9e9, 9e9}; char tt[40]; double m = G("sys") == "ICRF_AU" ? AU_IN_KM / 86400 : 1; if (q >= com.size() || sscanf(com[q].c_str(), "COM vel (km/s) %39s %lf %lf %lf", tt, v, v + 1, v + 2) != 4) { vh::bad("comment-vel", "'%s'", q < com.size() ? com[q].c_str() : "(none)"); return; }
         for (int i = 0; i < 3; i++) if (fabs(v[i] - atof(G(S("vel%d", i + 1).c_str()).c_str()) * m) > .51e-7) vh::bad("comment-vel", "'%s'", com[q].c_str());
         if (com[q].size() < 3 || com[q].substr(com[q].size() - 3) != G("stn")) vh::bad("comment-vel", "'%s'", com[q].c_str()); q++; vh::count("velocity comments"); }
      if (q != com.size()) { vh::bad("comment-extra", "'%s' belongs to no field of the observation", com[q].c_str()); return; }
   }
   if (p != ref.size()) vh::bad("extra", "extra output '%s'", ref[p].c_str());
   vh::count("documents"); if (vh::counters["documents"] % 997 == 1) vh::sample("%s", ref.size() > 3 ? ref[3].c_str() : "");
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   for (int c = 1; c < 127; c++) { const char *n = byte_code_to_net_name((char)c); if (n && *n && net_name_to_byte_code(n) == c && strlen(n) < 39 && !strchr(n, '|') && !strchr(n, '<')) { nets.push_back(n); netc.push_back((char)c); } }
   for (long i = vh::budget(vh::mode == "san" ? 20000 : 60000, vh::mode == "san" ? 600000 : 3000000); i > 0; i--) one();
   for (const char *k : {"documents", "records compared", "PSV observations", "XML observations", "spacecraft lines", "roving-observer lines", "velocity comments", "full-precision comments", "column orders shuffled", "lines passed through"}) vh::need(k, 20);
   return vh::finish();
}
