/* P33: every command-line tool, built with sanitizers, under plausible, odd and hostile arguments, with data files present, missing or damaged:
   it must end by itself, without a memory error, undefined behaviour or a fatal signal.
   Everything runs in a scratch directory under CPU and file-size limits. */
#include "vh.h"
#include "vsopgen.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
using namespace vh;
using std::string; using std::vector;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static string slurp(const string &p) { string o; FILE *f = fopen(p.c_str(), "rb"); char b[65536]; size_t n; if (f) { while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); } return o; }
static void put(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (f) { (void)!fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static string W;
static std::map<string, string> data;      /* plausible contents of every data file */
static void at(string &s, size_t p, const string &t) { if (s.size() < p + t.size()) s.resize(p + t.size(), ' '); s.replace(p, t.size(), t); }
static void make_data() {
   for (auto f : {"cospar.txt", "chinese.dat", "gaia.hdr", "get_test.txt", "moidtest.txt", "mpc_hdr.htm", "test_des.txt"}) data[f] = slurp(repo + "/" + f);
   string s = "<pre>\nCode  Long.   cos      sin    Name\n000   0.0000 0.62411 +0.77873 Greenwich\n500   0.000000.000000 0.000000Geocentric\n703 249.267360.845315+0.533213Catalina Sky Survey\n704 253.340870.831869+0.554012Lincoln Laboratory\n250                           Hubble Space Telescope\n247                           Roving Observer\nV03                           Uncertain\n"; for (int k = 0; k < 40; k++) s += fmt("%c%02d %09.5f%8.6f%+9.6f%s\n", 'A' + k % 26, (int)rng.below(100), rng.uni(0, 360), rng.uni(0, .99), rng.uni(-.99, .99), "Somewhere"); data["ObsCodes.htm"] = s + "</pre>\n";
   data["rovers.txt"] = "# 'rovers' y\nXyz!      -69.89999998  44.00999998    64.0          Bowdoinham\nRos!        12.5          -45.5         2500           Far @4\n" + s.substr(60, 90) + "\n@0N44.01 W69.9\n# offset\n";
   string o; for (int k = 0; k < 12; k++) { string l(80, ' '); at(l, 5, fmt("K%02dA%02d%c", (int)rng.below(30), (int)rng.below(100), 'A' + k)); at(l, 14, fmt("C%d %02d %02d.%05d", (int)rng.range(1990, 2030), (int)rng.range(1, 12), (int)rng.range(1, 28), (int)rng.below(100000))); at(l, 32, fmt("%02d %02d %05.2f %c%02d %02d %04.1f", (int)rng.below(24), (int)rng.below(60), rng.uni(0, 59), rng.chance(.5) ? '+' : '-', (int)rng.below(89), (int)rng.below(60), rng.uni(0, 59))); at(l, 65, "18.5 V"); at(l, 77, "703"); o += l + "\n"; if (k % 5 == 0) o += "COM comment\n"; } data["obs.txt"] = o;
   data["ades.psv"] = "# version=2017\n# observatory\n! mpcCode 703\n# submitter\n! name B. Gray\n# observers\n! name B. Gray\n# measurers\n! name B. Gray\n# telescope\n! design reflector\n! aperture 1.0\n! detector CCD\npermID |provID     |trkSub  |mode|stn |obsTime                 |ra         |dec        |rmsRA|rmsDec|astCat|mag  |rmsMag|band|remarks\n433    |           |        |CCD |703 |2020-01-02T03:04:05.678Z|123.456789 |-12.345678 |0.1  |0.1   |Gaia2 |18.5 |0.1   |V   |x\n       |2019 AB12  |abc     |CCD |703 |2020-01-02T03:14:05.678Z|123.456999 |-12.345999 |0.1  |0.1   |Gaia2 |18.5 |0.1   |V   |\n";
   data["ades.xml"] = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ades version=\"2017\">\n<obsBlock>\n<obsContext>\n<observatory><mpcCode>703</mpcCode></observatory>\n<submitter><name>B. Gray</name></submitter>\n</obsContext>\n<obsData>\n<optical>\n<permID>433</permID>\n<mode>CCD</mode>\n<stn>703</stn>\n<obsTime>2020-01-02T03:04:05.678Z</obsTime>\n<ra>123.456789</ra>\n<dec>-12.345678</dec>\n<astCat>Gaia2</astCat>\n<mag>18.5</mag>\n<band>V</band>\n</optical>\n</obsData>\n</obsBlock>\n</ades>\n";
   data["mpcorb.dat"] = "00001    3.34  0.15 K239D  60.07881   73.42179   80.25496   10.58688  0.0789126  0.21411523   2.7672543  0 MPO719049  7258 123 1801-2023 0.65 M-v 30k MPCLINUX   0000      (1) Ceres              20230321\n00002    4.12  0.15 K239D  40.60068  310.87290  172.91657   34.92584  0.2301278  0.21377120   2.7702217  0 MPO719049  8862 121 1804-2023 0.59 M-c 28k MPCLINUX   0000      (2) Pallas             20230603\n";
   string H = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n", r = H; for (int k = 0; k < 30; k++) { string n = k % 7 ? fmt("%7d", k + 1) : fmt("C/20%02d A%d", k, k); n.resize(12, ' '); r += n + fmt(" 2022%02d%02d.1234567 20230225 %11.8f %10.6f %10.6f %10.6f %10.8f 0.50   100 20000101 20240101 M-v 38h %5.2f %5.2f\n", 1 + k % 12, 1 + k % 28, rng.uni(.5, 4), rng.uni(0, 60), rng.uni(0, 360), rng.uni(0, 360), rng.uni(0, .99), rng.uni(8, 20), .15); } data["mpcorb.sof"] = r;
   string a; for (int k = 0; k < 8; k++) { string l(267, ' '); at(l, 0, fmt("%6d", k + 1)); at(l, 7, fmt("Name%d", k)); at(l, 26, "E. Bowell"); at(l, 42, "10.00  0.15"); at(l, 106, "20230225"); at(l, 115, fmt("%10.6f", rng.uni(0, 359))); at(l, 126, fmt("%10.6f", rng.uni(0, 359))); at(l, 137, fmt("%10.6f", rng.uni(0, 359))); at(l, 147, fmt("%10.6f", rng.uni(0, 50))); at(l, 158, fmt("%10.8f", rng.uni(0, .9))); at(l, 168, fmt("%13.8f", rng.uni(1, 40))); l.resize(267, ' '); a += l + "\n"; } data["astorb.dat"] = a;
   data["ELEMENTS.COMET"] = "Num  Name                                   Epoch      q           e        i         w        Node          Tp       Ref\n----\n  1P/Halley                                 49400  0.58597811 0.96714291 162.26269 111.33249  58.42008 19860205.89532 JPL J863/77\n   C/1995 O1 (Hale-Bopp)                    55800  0.91463000 0.99495000  89.43000 130.58000 282.47000 19970401.13000 JPL 1\n";
   string hd = "solution_id,source_id,observation_id,number_mp,epoch,epoch_err,epoch_utc,ra,dec,ra_error_systematic,dec_error_systematic,ra_dec_correlation_systematic,ra_error_random,dec_error_random,ra_dec_correlation_random,g_mag,g_flux,g_flux_error,x_gaia,y_gaia,z_gaia,vx_gaia,vy_gaia,vz_gaia,x_gaia_geocentric,y_gaia_geocentric,z_gaia_geocentric,vx_gaia_geocentric,vy_gaia_geocentric,vz_gaia_geocentric,position_angle_scan,level_of_confidence\n"; for (int k = 0; k < 20; k++) { string c = "# comment\n" + hd; for (int j = 0; j < 4; j++) { c += fmt("1636148068921376768,4123,%d,%d", j, (k + 9) % 20 + 20 * j); for (int i = 0; i < 28; i++) c += fmt(",%.12g", rng.uni(-2, 360)); c += "\n"; } data[fmt("SsoObservation_%02d.csv", k)] = c; }
   VgFile g = vg_make(); data["vsop.bin"] = string(&g.vsop[0], g.vsop.size()); data["big_vsop.bin"] = string(&g.big[0], g.big.size());
   data["zips5.txt"] = "04008 44.040 -69.880 5 1 ME Bowdoinham\n10001 40.750 -74.000 5 1 NY New York\n90210 34.090 -118.410 8 1 CA Beverly Hills\n"; data["geo_rect.txt"] = "-71.1 47.5 -66.9 43.0 Maine\n-180 90 180 -90 Earth\n";
   string th = "CCSDS_OEM_VERS = 2.0\nOBJECT_NAME          = THEMIS_D\nOBJECT_ID            = 30797\nSTART_TIME           = 2019-02-10T00:00:00.000\nSTOP_TIME            = 2019-02-11T00:00:00.000\n"; for (int k = 0; k < 300; k++) th += fmt("2019-02-10T%02d:%02d:00.000 %f %f %f %f %f %f\n", k / 60, k % 60, rng.uni(-9e4, 9e4), rng.uni(-9e4, 9e4), rng.uni(-9e4, 9e4), rng.uni(-3, 3), rng.uni(-3, 3), rng.uni(-3, 3)); data["themis.txt"] = th;
   string mm = "Spacecraft = MMS1\n"; for (int k = 0; k < 300; k++) { string l = fmt("2019-041/%02d:%02d:00  %16.6f", k / 60, k % 60, 22320.5 + k / 720.); for (int j = 0; j < 8; j++) l += fmt(" %18.9f", rng.uni(-9e4, 9e4)); mm += l + "\n"; } data["mms.txt"] = mm;
   string jp = "Horizons\n$$SOE\n"; for (int k = 0; k < 60; k++) jp += fmt("%.9f = A.D. 2018-Jan-%02d 00:00:00.0000 (CT) \n", 2458119.5 + k, k % 28 + 1).replace(17, 0, "") + fmt(" %22.15E %22.15E %22.15E\n", rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)); data["9002.txt"] = jp;
   data["old.tle"] = "# Ephem range: 58000.000000 58018.000000 1.000000\n# Ephemeris end: 2017\n# Last updated with Find_Orb version xxxxxxxxxxxxxx\n# MJD 58017.0\n1 a\n2 b\n\n# MJD 58018.0\n"; data["new.tle"] = "# Ephem range: 58018.000000 58036.000000 1.000000\n# x\n# y\n# Ephemeris end: 2018\n# MJD 58018.0\n1 c\n2 d\n";
   string fin; for (int k = 0; k < 200; k++) { string l(185, ' '); at(l, 0, fmt("%2d%2d%2d %8.2f I %9.6f %8.6f %9.6f %8.6f  I%10.7f%10.7f", 19, 1, 1 + k % 28, 58484. + k, .1, .00001, .3, .00001, -.05, .00001)); fin += l + "\n"; } data["finals.all"] = fin;
}
static const char *files[] = {"cospar.txt", "chinese.dat", "get_test.txt", "moidtest.txt", "ObsCodes.htm", "rovers.txt", "obs.txt", "ades.psv", "ades.xml", "mpcorb.dat", "mpcorb.sof", "astorb.dat", "themis.txt", "mms.txt", "9002.txt", "old.tle", "new.tle", "nosuch", "."};
static string num() { switch (rng.below(9)) { case 0: return fmt("%ld", rng.range(-10, 40)); case 1: return fmt("%ld", rng.range(1500, 2200)); case 2: return fmt("%.5f", rng.uni(2400000, 2500000)); case 3: return fmt("%.3f", rng.uni(-400, 400)); case 4: return fmt("%ld", rng.range(-100000, 100000)); case 5: return fmt("%.4f", rng.uni(0, 2)); case 6: return "0"; case 7: return fmt("%d", (int)rng.range(1, 12)); default: { static const char *b[] = {"1e300", "-1e300", "nan", "inf", "99999999999", "-99999999999", "2147483647", "-2147483648", "1e-300", "1e10"}; return b[rng.below(10)]; } } }
static string word() {
   switch (rng.below(12)) {
   case 0: return string(rng.chance(.5) ? rng.range(1, 90) : rng.range(90, 3000), "A 1-,%"[rng.below(6)]);
   case 1: { string s; int n = (int)rng.range(0, 30); for (int i = 0; i < n; i++) s += (char)rng.range(1, 255); return s; }
   case 2: { static const char *w[] = {"", "-", "--", "%s%n", "abc", "\"", "é", "JD", "now", "today", "+", "1,2", "Halley", "Ceres"}; return w[rng.below(14)]; }
   case 3: { static const char *w[] = {"2024-05-06", "7/4/1776", "2024 May 6.5", "2022apr3.1415", "12:30", "MJD 58000", "2024-12-31T23:59:60", "-4712 jan 1", "1000000 mar 3", "feb 30 2023"}; return w[rng.below(10)]; }
   case 4: { static const char *w[] = {"433", "K08T03D", "2008 TD3", "1P", "C/1995 O1", "P/2010 A2", "~0000", "703", "500", "S/2004 S 1", "J95O010"}; return w[rng.below(11)]; }
   case 5: { static const char *w[] = {"n44.01", "w69.9", "+45.5", "-45 30 20", "44d00'36\"N", "69.9W", "n44.01,w69.9", "44.01 -69.9 100m", "Xyz"}; return w[rng.below(9)]; }
   case 6: return files[rng.below(sizeof files / sizeof *files)];
   default: return num();
   }
}
static string option() { string s = "-"; s += (char)(rng.chance(.85) ? 'a' + rng.below(26) : 'A' + rng.below(26)); if (rng.chance(.6)) s += rng.chance(.7) ? num() : word(); return s; }
struct Tool { const char *name; const char *first; };   /* first: plausible argument list; #=number Y=year M=month D=day J=JD w=word o=option t=time ?=anything; others literal between '|' */
static const Tool T[] = {
   {"adestest", "ades.psv|o|o"}, {"adestest", "ades.xml|o"}, {"adestest", "obs.txt"}, {"astcheck", "obs.txt|-fmpcorb.sof|o"}, {"astcheck", "-c|t|#|#|703|-r9000"}, {"astcheck", "ades.psv|-e1,10"}, {"astephem", "-o1|-tJ|-s#|-n5"}, {"calendar", "Y|M|o"}, {"calendar", "Y|M|M|o"}, {"cgicheck", ""}, {"chinese", "Y"}, {"colors", "#|#"}, {"colors2", "#|#|#"}, {"cosptest", "cospar.txt"}, {"cosptest", ""}, {"csv2ades", "%"}, {"csv2ades", "%,%"}, {"dist", "#|#|#|#"}, {"dist", "w|w"}, {"easter", "Y"}, {"get_test", "get_test.txt"}, {"get_test", ""}, {"gtest", "J"}, {"htc20b", ""}, {"htc20b", "J"}, {"jd", "t"}, {"jd", "Y|M|D"}, {"jd", "J|o"}, {"jevent", "D|M|Y|-s1|-n20"}, {"jpl2b32", "9002.txt"}, {"jsattest", "%"}, {"lun_test", "Y|M|4008"}, {"lun_test", "Y|M|10001"}, {"marstime", "J"}, {"marstime", "t"}, {"mms", "mms.txt"}, {"mms", "mms.txt|out.txt|-f72"}, {"moidtest", "433|moidtest.txt"}, {"moidtest", "o|w"}, {"mpc2sof", ""}, {"mpc2sof", "mpcorb.dat|i"}, {"mpc_code", "ObsCodes.htm|o"}, {"mpc_code", "rovers.txt|o"}, {"mpc_code", "o"}, {"mpc_time", "w"}, {"mpc_time", "t"}, {"oblitest", "#"}, {"oblitest", "1|2|3"}, {"parallax", "n44.01|w69.9|100m"}, {"parallax", "703|o"}, {"parallax", "#|#|#"}, {"parallax.cgi", ""}, {"persian", "Y"}, {"persian", "1390|1400"}, {"phases", "Y|-m%"}, {"prectest", "J|J|#|#"}, {"prectes2", "J|#"}, {"ps_1996", "J"}, {"relativi", "J|#|#|#"}, {"sof", "mpcorb.sof|C/2000"}, {"sof", "mpcorb.sof|1"}, {"solseqn", "Y|o"}, {"spline", "o|o"}, {"ssattest", "J"}, {"ssattest", "J|o"}, {"tables", "Y"}, {"test_des", ""}, {"test_ref", "A|-pP|-tT"}, {"test_ref", "-hH|-lL"}, {"testprec", "J|#|#|J"}, {"test_min", "#"}, {"them_cat", "old.tle|new.tle"}, {"themis", "themis.txt|-f144"}, {"themis", "themis.txt|-oout.txt"}, {"transit", "3|2|Y|-mY|o"}, {"transit", "3|1|Y"}, {"uranus1", "J"}, {"utc_test", "Y,Y"}, {"utc_test", "o"},
};
static const int NT = sizeof T / sizeof *T;
static vector<string> plausible(const Tool &t) {
   vector<string> av; string s = t.first; size_t p = 0;
   while (p <= s.size() && !s.empty()) { size_t e = s.find('|', p); if (e == string::npos) e = s.size(); string w = s.substr(p, e - p); p = e + 1; string o; bool sub = w.find('.') == string::npos && w.find('/') == string::npos;
      if (w == "w") o = word(); else if (w == "o") { if (rng.chance(.5)) continue; o = option(); } else if (w == "t") o = fmt("%ld%s%ld.%ld", rng.range(1600, 2100), "jan\0feb\0mar\0dec" + 4 * rng.below(4), rng.range(1, 28), rng.range(0, 9999));
      else if (sub) for (char c : w) switch (c) { case '#': o += fmt("%.3f", rng.chance(.5) ? rng.uni(0, 90) : rng.uni(-360, 360)); break; case 'Y': o += fmt("%ld", rng.chance(.9) ? rng.range(1600, 2200) : rng.range(-3000, 6000)); break; case 'M': o += fmt("%ld", rng.range(1, 12)); break; case 'D': o += fmt("%ld", rng.range(1, 31)); break; case 'J': o += fmt("%.4f", rng.uni(2300000, 2600000)); break; case '%': o += fmt("%ld", rng.range(1, 120)); break; case 'A': o += fmt("%.3f", rng.uni(.5, 89)); break; case 'P': o += fmt("%.1f", rng.uni(500, 1060)); break; case 'T': o += fmt("%.1f", rng.uni(-40, 45)); break; case 'H': o += fmt("%.2f", rng.uni(0, 1)); break; case 'L': o += fmt("%.1f", rng.uni(350, 1000)); break; default: o += c; }
      else o = w;
      av.push_back(o); }
   return av;
}
static void wipe() { DIR *d = opendir(W.c_str()); if (!d) return; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((W + "/" + e->d_name).c_str()); closedir(d); }
static string damage(string s, bool text) {
   if (s.empty()) return s;
   int n = (int)rng.range(1, 6);
   for (int k = 0; k < n && !s.empty(); k++) switch (rng.below(text ? 8 : 3)) {
      case 0: s.resize(rng.below(s.size()) + 1); break;
      case 1: for (int i = (int)rng.range(1, 10); i; i--) s[rng.below(s.size())] = (char)rng.range(1, 255); break;
      case 2: { size_t p = rng.below(s.size()), l = rng.below(60); s.erase(p, l); break; }
      case 3: s.insert(rng.below(s.size()), string(rng.range(1, 700), "A 9.,|-"[rng.below(7)])); break;
      case 4: { size_t p = rng.below(s.size()), l = std::min<size_t>(rng.below(300), s.size() - p); s.insert(rng.below(s.size()), s.substr(p, l)); break; }
      case 5: s[rng.below(s.size())] = '\n'; break;
      case 6: { size_t p = s.find('\n', rng.below(s.size())); if (p != string::npos) s.erase(p, 1); break; }
      default: s.insert(rng.below(s.size()), num()); }
   return s;
}
static void one(const Tool &t, int kind) {
   bool tame = !strcmp(t.name, "test_ref");   /* its integration only converges for air */
   static string laid; /* state of the scratch directory */
   wipe(); string state = "full";
   bool none = kind == 0 ? rng.chance(.2) : rng.chance(.1), hurt = kind == 2; string hurtname;
   if (none) state = "no data files"; else for (auto &f : data) { if (kind && rng.chance(.04)) { state += " without " + f.first; continue; } bool mention = strstr(t.first, f.first.c_str()) != NULL; bool bin = f.first.find(".bin") != string::npos; if (hurt && (mention ? rng.chance(.8) : rng.chance(.25)) && !bin) { put(W + "/" + f.first, damage(f.second, true)); if (f.first[0] != 'S' || hurtname.find("Sso") == string::npos) hurtname += " " + f.first; } else put(W + "/" + f.first, f.second); }
   if (!hurtname.empty()) state += ", damaged:" + hurtname;
   vector<string> av = {tools + "/" + t.name}, pl; if (tame || kind != 1 || rng.chance(.3)) { pl = plausible(t); if (!tame && kind && rng.chance(.3) && !pl.empty()) pl[rng.below(pl.size())] = rng.chance(.5) ? word() : option(); if (!tame && kind && rng.chance(.2)) pl.push_back(option()); if (!tame && kind && rng.chance(.1) && !pl.empty()) pl.pop_back(); } else { int k = (int)rng.below(7); while (k--) pl.push_back(rng.chance(.6) ? word() : option()); }
   string desc = t.name; for (auto &a : pl) { if (a.find('\0') != string::npos) a = a.c_str(); av.push_back(a); desc += " '" + a.substr(0, 200) + "'"; if (a.size() > 200) desc += fmt("(%zu characters)", a.size()); }
   /* form data for the CGI programs */
   string in; vector<string> env; if (strstr(t.name, "cgi")) { string q; int n = (int)rng.range(0, 6); for (int k = 0; k < n; k++) { static const char *nm[] = {"lat", "lon", "alt", "TextArea", "stations", "radius", "motion", "mag", "xyz"}; q += fmt("%s%s=", k ? "&" : "", nm[rng.below(9)]); string v = rng.chance(.3) ? data["obs.txt"].substr(0, rng.below(800)) : word(); for (char c : v) q += isalnum((unsigned char)c) || rng.chance(.02) ? string(1, c) : fmt("%%%02X", (unsigned char)c); } in = q; if (rng.chance(.9)) env.push_back("REQUEST_METHOD=" + string(rng.chance(.7) ? "POST" : "GET")); env.push_back("CONTENT_LENGTH=" + fmt("%zu", q.size())); if (rng.chance(.8)) env.push_back("CONTENT_TYPE=application/x-www-form-urlencoded"); if (rng.chance(.5)) env.push_back("QUERY_STRING=" + q); }
   cur("%s [%s]%s%.1000s", desc.c_str(), state.c_str(), in.empty() ? "" : " input ", in.c_str());
   put(workdir + "/in", in); string of = workdir + "/out"; pid_t p = fork();
   if (!p) {
      struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL); signal(SIGPROF, SIG_DFL);
      int fo = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), fd = open((workdir + "/in").c_str(), O_RDONLY); dup2(fd, 0); dup2(fo, 1); dup2(fo, 2); if (chdir(W.c_str())) _exit(126);
      struct rlimit r = {25, 27}; setrlimit(RLIMIT_CPU, &r); r.rlim_cur = r.rlim_max = 30 << 20; setrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
      setenv("HOME", W.c_str(), 1); setenv("ASAN_OPTIONS", "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=0:handle_segv=1:symbolize=1", 1); for (auto &e : env) putenv(strdup(e.c_str())); vector<char *> a; for (auto &s : av) a.push_back((char *)s.c_str()); a.push_back(NULL); alarm(200); execv(a[0], a.data()); _exit(127);
   }
   int st = 0; waitpid(p, &st, 0); string o = slurp(of); size_t out = o.size(); if (out > 400000) o = o.substr(0, 200000) + o.substr(out - 200000);
   bool huge = false; for (auto &x : pl) for (const char *q = x.c_str(); *q; q++) if (isdigit((unsigned char)*q) || *q == 'i' || *q == 'n') { double v = strtod(q, NULL); if (!(fabs(v) < 2.6e6)) huge = true; if (isdigit((unsigned char)*q)) while (isdigit((unsigned char)q[1])) q++; }
   auto tail = [&]() { size_t k = o.find("ERROR: AddressSanitizer"); if (k == string::npos) k = o.find("runtime error"); if (k != string::npos) { k = k > 120 ? k - 120 : 0; return o.substr(k, 1200); } return o.size() > 500 ? o.substr(o.size() - 500) : o; };
   count(t.name); count(none ? "without data" : hurtname.empty() ? "with data" : "with damaged data");
   bool big = out > 20 << 20;
   if (WIFEXITED(st)) { int c = WEXITSTATUS(st); if (c == 77 || o.find("runtime error:") != string::npos) bad(fmt("tool-%s", t.name), "sanitizer: %s", tail().c_str()); else if (c == 126 || c == 127) bad("tool-run", "%s can't be run", t.name); else count(c ? "refused" : "accepted"); }
   else { int s = WTERMSIG(st); bool diag = o.find("Assertion") != string::npos || o.find("assertion") != string::npos;
      if (s == SIGXFSZ) count("stopped: much output"); else if ((s == SIGXCPU || s == SIGKILL || s == SIGALRM || s == SIGPROF) && (big || out > 2000)) count("stopped: long output");
      else if ((s == SIGXCPU || s == SIGKILL) && huge) count("stopped: dates or ranges beyond any calendar");
      else if (s == SIGXCPU || s == SIGKILL || s == SIGALRM || s == SIGPROF) bad(fmt("hang-%s", t.name), "didn't end (signal %d), %zu bytes of output: %s", s, out, tail().c_str());
      else if (s == SIGABRT && diag) count("stopped: assertion");
      else bad(fmt("signal-%s", t.name), "signal %d: %s", s, tail().c_str()); }
   seen(mix(hstr(desc), hstr(state)));
   if (!rng.below(97)) sample("%s [%s] -> status %d, %zu bytes", desc.substr(0, 120).c_str(), state.substr(0, 80).c_str(), st, out);
}
int main(int argc, char **argv) {
   init(argc, argv); if (chdir(workdir.c_str())) return 3;
   W = workdir + "/scratch"; mkdir(W.c_str(), 0700); make_data();
   long n = budget(50, 600), only = getenv("TOOL") ? 1 : 0; for (auto r : {"with data", "without data", "with damaged data", "accepted", "refused"}) need(r, 50);
   for (int k = 0; k < NT; k++) need(T[k].name, 2);
   for (long i = 0; i < n; i++) for (int k = 0; k < NT; k++) { if (only && strcmp(T[k].name, getenv("TOOL"))) continue; one(T[k], i == 0 ? 0 : (int)rng.below(3)); }
   wipe(); rmdir(W.c_str()); return finish();
}
