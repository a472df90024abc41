/* P30: the text parsers under coverage-guided hostile input, watched by AddressSanitizer + UndefinedBehaviorSanitizer
   (flavour fuzza) or MemorySanitizer (flavour fuzzm).  The library is compiled with edge coverage; this driver is the
   fuzzing engine.  Inputs sit in exactly sized heap blocks, outputs in blocks of the documented size. */
#include "vh.h"
#include "vh_trap.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "lunar.h"
#include "comets.h"
#include "mpc_func.h"
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
#else
#include <sanitizer/allocator_interface.h>
#endif
double quick_strtod(const char *ibuff, const char **endptr);
double quick_atof(const char *ibuff);
long extract_mpcorb_dat(ELEMENTS *elem, const char *buff);
long extract_astorb_dat(ELEMENTS *elem, const char *buff);
double default_td_minus_ut(const double jd);
void ades_artsat_desigs(void *ades_context, const bool ignore_artsat_desigs);

typedef std::string S;
/* ------------------------------------------------------------ coverage */
static std::vector<uint8_t> cnt, seenb; static uint32_t nguards = 0;
static uint8_t *cntp = NULL;
static bool cov_on = false;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *x = a; x < b; x++) *x = ++nguards; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (cov_on) { uint8_t &c = cntp[*g]; if (c != 255) c++; } }
static uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
/* ------------------------------------------------------------ helpers */
static void *clean(void *p, size_t n) {
#ifdef VH_MSAN
   __msan_unpoison(p, n);
#endif
   (void)n; return p;
}
static void dirty(void *p, size_t n) {   /* outputs start as uninitialised memory */
#ifdef VH_MSAN
   __msan_poison(p, n);
#else
   memset(p, 0xa5, n);
#endif
}
/* every byte of a result must have been computed from initialised data */
static void defined(const void *p, size_t n, const char *what) {
#ifdef VH_MSAN
   intptr_t k = __msan_test_shadow(p, n);
   if (k >= 0) vh::bad(S("uninit:") + what, "%s: byte %ld of the result is uninitialised", what, (long)k);
#endif
   (void)p; (void)n; (void)what;
}
static void defined_str(const char *p, size_t cap, const char *what) {
#ifdef VH_MSAN
   for (size_t i = 0; i < cap; i++) { defined(p + i, 1, what); if (__msan_test_shadow(p + i, 1) >= 0) return; if (!p[i]) return; }
#else
   for (size_t i = 0; i < cap; i++) if (!p[i]) return;
#endif
   vh::bad(S("unterminated:") + what, "%s: result is not terminated within its %zu bytes", what, cap);
}
static int msdepth = 0;
#ifdef VH_MSAN
static void libside(bool in) { if (in) { while (msdepth) { __msan_scoped_enable_interceptor_checks(); msdepth--; } } else if (!msdepth) { __msan_scoped_disable_interceptor_checks(); msdepth++; } }
#else
static void libside(bool) {}
#endif
static std::map<S, long> stops; static long nstops = 0; static bool stopped = false;
/* a call into the library; deliberate stops are counted, not failures */
#define LIB(stmt) do { stopped = false; libside(true); cov_on = true; bool ok_ = GUARDED(stmt); cov_on = false; libside(false); \
      if (!ok_) { stopped = true; stops[vh::trap_what.substr(0, 60)]++; nstops++; } } while (0)
struct Buf {   /* exactly sized heap block */
   char *p; size_t n;
   Buf(size_t k) : p((char *)malloc(k ? k : 1)), n(k) { dirty(p, k); }
   Buf(const S &s) : p((char *)malloc(s.size() + 1)), n(s.size() + 1) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; clean(p, n); }
   ~Buf() { free(p); }
   operator char *() { return p; }
};
static S nozero(const S &s) { size_t z = s.find('\0'); return z == S::npos ? s : s.substr(0, z); }
static uint64_t salt(const S &s) { return vh::mix(vh::hstr(s), 77); }
/* an uninitialised scalar that is returned is reported by MemorySanitizer at the return itself */
static void returned(const char *) { vh::count("results returned", 1); }
static void out_double(double, const char *what) { returned(what); }
static S tmpfile_for(const S &s) { S f = vh::workdir + "/in.txt"; FILE *o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); return f; }

struct Target { const char *name; std::function<void(const S &)> fn; std::vector<S> seeds; std::vector<S> dict; size_t maxlen; double weight; bool file; };
static std::vector<Target> T;
static const double JD0[4] = {2451545., 2460000.123, 0., -700000.};

static void targets() {
   std::vector<S> tdict = {"now", "jd", "mjd", "j", "b", "tle", "gps", " ", ":", "/", "-", ".", "+", "d", "h", "m", "s", "y", "w", "l", "jan", "sep", "may", "am", "pm", "noon", "bc", "bce", "ad", "t", "z", "e300", "1e", "999999999999",
      "-2147483648", "nm", "fm", "1q", "3q", "%", "#", "n", "c", "i", "q", "today", "midnight", "utc", "ut", "td", "gr", "jul", "heb", "isl", "fra", "chi", "1921", "00", "K", "T", "60", "99", "p", "a"};
   T.push_back({"time", [](const S &in) {
      S s = nozero(in).substr(0, 79); uint64_t h = salt(s); Buf b(s); int isut; dirty(&isut, sizeof isut); double r = 0; long double rl = 0; int fl = (int)(h & 0x3ff0f) | (int)((h >> 20) & 3 ? 0 : (h >> 24) & 0x7fffff);
      double i0 = JD0[(h >> 40) % 4]; if ((h >> 45) % 16 == 0) i0 = ldexp(1., (int)((h >> 50) % 40));
      bool wantut = (h >> 44) & 1;
      LIB(rl = get_time_from_stringl((long double)(i0 - 2451545.), b, fl, wantut ? &isut : NULL)); if (!stopped) { returned("get_time_from_stringl"); if (wantut) defined(&isut, sizeof isut, "is_ut"); }
      LIB(r = get_time_from_string(i0, b, fl, wantut ? &isut : NULL)); if (!stopped) out_double(r, "get_time_from_string");
   }, {"2000 jan 1", "2000-03-21.5", "12/31/1999 23:59:59.9", "2451545.5", "jd 2451545", "mjd 51544.25", "y2001.5", "now", "now+3d", "-2h", "+1.5w", "2004 nov 22 10:20pm", "K04BM2", "2004-11-22T10:20:30Z", "gps 1234 3.5", "tle 04327.5",
       "nm-3d", "44 bc mar 15", "20041122.5", "2004 327", "4 jul 1976 noon", "12:34", "j2010.5", "2000-3 may d", "3/4/2005", "1582 oct 15", "B1950", "sun", "fri+2h", "2012-11-22 TD", "12 Tishri 5760"}, tdict, 79, 2, false});
   std::vector<S> ddict = {"C/", "P/", "(", ")", "S/", "1995 ", "2004 ", "-A", "-AZ", " ", "J", "SA", "0", "a", "z", "Z", "~", "_", "$", "S", "XLVIII", "T-2", "P-L", "A", "Comet ", "99999", "123456789012345", "/", "'"};
   T.push_back({"pack_desig", [](const S &in) {
      S s = nozero(in); Buf b(s), o(13); int r = 0; LIB(r = create_mpc_packed_desig(o, b)); if (stopped) return; returned("create_mpc_packed_desig"); defined_str(o, 13, "create_mpc_packed_desig");
   }, {"1995 XA", "2004 JX42", "C/1995 O1", "P/2004 A1", "73P-BB", "145P", "(4179) Toutatis", "(620001)", "S/2004 S 14", "Jupiter XLVIII", "Saturn 12", "2040 P-L", "3138 T-1", "1992 AB123", "2015 OR310", "1997-064B", "A/2017 U1", "2I/Borisov", "C/1947 S1-B", "D/1993 F2-AZ", "(12345) = 2004 JX42", "ATLAS-3", "2023 XY620", "999999999"}, ddict, 60, 1, false});
   T.push_back({"unpack_desig", [](const S &in) {
      S s = nozero(in); while (s.size() < 12) s += ' '; Buf b(s), o(25); int r = 0; LIB(r = unpack_mpc_desig(o, b)); if (!stopped) { returned("unpack_mpc_desig"); defined_str(o, 25, "unpack_mpc_desig"); }
      int r2 = 0; LIB(r2 = unpack_mpc_desig(NULL, b)); if (!stopped) returned("unpack_mpc_desig(NULL)");
      Buf c(nozero(in)), o2(25); LIB(r = unpack_unaligned_mpc_desig(o2, c)); if (!stopped) { returned("unpack_unaligned"); defined_str(o2, 25, "unpack_unaligned"); }
      LIB(r = unpack_unaligned_mpc_desig(NULL, c));
   }, {"     K04J42X", "U4330K06SL7X", "0073P     ab", "~0000       ", "~zzzzK04J42X", "    CJ95O010", "    SK04S140", "J048S       ", "     PLS2040", "     T1S3138", "$Whatever123", "     _QC0aaa", "1997-064B   ", "K04J42X", "00433", "0002I", "    AK17U010", "z9999       ", "    PK04A01a"}, ddict, 30, 1, false});
   T.push_back({"obs80", [](const S &in) {
      S s = nozero(in); if (s.size() < 80) s.resize(80, ' '); s = s.substr(0, 82); Buf b(s); unsigned fmt; dirty(&fmt, sizeof fmt); double d = 0;
      LIB(d = extract_date_from_mpc_report(b, &fmt)); if (!stopped) { out_double(d, "extract_date"); if (d) defined(&fmt, sizeof fmt, "date format"); }
      LIB(d = extract_date_from_mpc_report(b, NULL));
      int rf, df, r; double ra, rp, dec, dp; dirty(&rf, 4); dirty(&df, 4); dirty(&ra, 8); dirty(&dec, 8); dirty(&rp, 8); dirty(&dp, 8);
      LIB(r = get_ra_dec_from_mpc_report(b, &rf, &ra, &rp, &df, &dec, &dp)); if (!stopped) { returned("get_ra_dec"); defined(&rf, 4, "ra format"); defined(&df, 4, "dec format"); if (!r) { defined(&ra, 8, "ra"); defined(&dec, 8, "dec"); defined(&rp, 8, "ra precision"); defined(&dp, 8, "dec precision"); } }
      LIB(r = get_ra_dec_from_mpc_report(b, NULL, &ra, NULL, NULL, &dec, NULL));
      Buf sh(nozero(in)); LIB(d = extract_date_from_mpc_report(sh, &fmt)); if (!stopped) out_double(d, "extract_date(short)");
      bool v = false; Buf c3(S(b.p + 77, 3)); LIB(v = is_valid_mpc_code(c3)); (void)v;
   }, {"     K04J42X  C2004 05 10.12345 12 34 56.78 -12 34 56.7          18.1 V      704", "     K19S03H  C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12", "00433         C2450000.1234567  123.456789  -12.3456789          12.3 R      568",
       "     K04J42X  CK040510:12345678912345678 -12.3456789             18.1 V      704", "     K04J42X  CK0405:10123456   12 34 56.789+12 34 56.78         18.1 V      G96", "I49A00001     A1849 06 05.4     12 34.5     +12 34                           500", "K04J42X       S2004 05 10.12345 1 - 1234.5678 + 2345.6789 -  345.6789        250"},
      {" ", ".", ":", "-", "+", "K", "9", "0", "  ", "60", "24", "360", "2004 05 10"}, 82, 1, false});
   T.push_back({"site", [](const S &in) {
      S s = nozero(in); Buf b(s); mpc_code_t c; int r;
      auto chk = [&](const char *w) { defined(&c.lat, 8, w); defined(&c.lon, 8, w); defined(&c.alt, 8, w); defined(&c.rho_cos_phi, 8, w); defined(&c.rho_sin_phi, 8, w); defined(&c.planet, 4, w); defined(&c.format, 4, w); defined(&c.prec1, 4, w); defined(&c.name, sizeof c.name, w); if (c.name) { if (c.name >= b.p && c.name < b.p + b.n) defined_str(c.name, b.p + b.n - c.name, w); else if (c.name == b.p + b.n) vh::bad(S("name-past-end:") + w, "the name pointer lies beyond the text"); } defined_str(c.code, 5, w); };
      dirty(&c, sizeof c); LIB(r = get_mpc_code_info(&c, b)); if (!stopped) { returned("get_mpc_code_info"); chk("mpc_code_info"); }
      dirty(&c, sizeof c); LIB(r = get_lat_lon_info(&c, b)); if (!stopped) { returned("get_lat_lon_info"); if (!r) chk("lat_lon_info"); }
      LIB(r = get_lat_lon_info(NULL, b));
      dirty(&c, sizeof c); LIB(r = get_xxx_location_info(&c, b)); if (!stopped) { returned("get_xxx_location_info"); if (!r) chk("xxx_location"); }
      LIB(r = is_valid_mpc_code(b));
   }, {"000   0.0000 0.62411 +0.77873 Greenwich", "704 253.3409 0.83366 +0.55062 Lincoln Laboratory ETS, New Mexico", "250                           Hubble Space Telescope", "Abc !  -69.9       44.01      100.     @3         My place", "Xyz ! 2692010.5  +44 0101.2   20  @499", "XYZ !0 0 0 @9999 L2 ", "XYZ !1 2 0 @-7 negative planet here", "n44.01, W69.9", "44 01 13.2 N 69 54 1.7W", "E223.456,s56 20 23.3, Alt. 1700m", "w 69.91, n 44.012, 1700ft",
       "COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth", "COM Long. 1 E Lat. 2 S Alt. 4"}, {"Long.", "Lat.", "Alt.", " ", ".", "@", "!", "N", "W", "ft", "m", "-", "1e308", "99999999999", "COM ", "e", "361", "nan", "inf", ","}, 120, 1, false});
   T.push_back({"angles", [](const S &in) {
      S s = nozero(in); Buf b(s); int n; dirty(&n, sizeof n); double d;
      LIB(d = get_ra_from_string(b, &n)); if (!stopped) { out_double(d, "get_ra_from_string"); defined(&n, 4, "ra bytes"); if (n < 0 || n > (int)s.size()) vh::bad("angles:bytes", "get_ra_from_string read %d of %zu bytes", n, s.size()); }
      dirty(&n, sizeof n); LIB(d = get_dec_from_string(b, &n)); if (!stopped) { out_double(d, "get_dec_from_string"); defined(&n, 4, "dec bytes"); if (n < 0 || n > (int)s.size()) vh::bad("angles:bytes", "get_dec_from_string read %d of %zu bytes", n, s.size()); }
      const char *e = NULL; LIB(d = quick_strtod(b, &e)); if (!stopped) { out_double(d, "quick_strtod"); if (e < b.p || e > b.p + s.size()) vh::bad("angles:end", "quick_strtod's end pointer lies outside the text"); }
      LIB(d = quick_atof(b));
   }, {"12 34 56.789", "123.456", "12h34m", "-12 34 56.78", "+89 59 60", "  7 ", "1.", ".5", "-.5", "12345678901234567890.12345678901234567890", "360.1"}, {" ", ".", "-", "+", "60", "000000000000000000000", "999999999999999999999"}, 60, .6, false});
   T.push_back({"small", [](const S &in) {
      S s = nozero(in); Buf b(s); int r;
      LIB(r = decipher_var_desig(b)); if (!stopped) returned("decipher_var_desig");
      char c; LIB(c = net_name_to_byte_code(b)); if (!stopped) returned("net_name_to_byte_code");
      size_t nd = std::min<size_t>(s.size(), 5); LIB(r = get_mutant_hex_value(b, nd)); if (!stopped) returned("get_mutant_hex_value");
      for (char ch : s.substr(0, 4)) { const char *q; LIB(r = mutant_hex_char_to_int(ch)); LIB(q = byte_code_to_net_name(ch)); (void)q; }
      size_t k = s.find('|'), k2 = k == S::npos ? k : s.find('|', k + 1);
      if (k2 != S::npos && k2 > k + 1) {
         S hay = s.substr(k2 + 1), o = s.substr(0, k), nw = s.substr(k + 1, k2 - k - 1); if (o.size()) {
            size_t cap = hay.size() + 1; for (size_t i = 0; i + o.size() <= hay.size();) if (!hay.compare(i, o.size(), o)) { if (nw.size() > o.size()) cap += nw.size() - o.size(); i += o.size(); } else i++;
            Buf h(cap), ob(o), nb(nw); memcpy(h.p, hay.c_str(), hay.size() + 1); clean(h.p, hay.size() + 1);
            LIB(r = text_search_and_replace(h, ob, nb)); if (!stopped) defined_str(h, cap, "text_search_and_replace"); } }
   }, {"V335", "RR", "qq", "u", "V0", "AA", "UCAC-4", "Gaia DR1.0", "gaia-dr2", "a|bb|aaaaa", "xy|z|axyxyb", "&amp;|&|a &amp; b", "V99999999999"}, {"DR", "-", ".0", "|", "V", " "}, 160, .5, false});
   S sh = "Name        |Tp      .       |Te      |q          |i  .      |O  .      |o  .      |e         |rms |n_o|Tlast   |H .  |G . |C";
   S sl = "1995 O1      19970401.1374   20000101 0.914168    89.43000  282.47000 130.59000 0.99510     0.5  300 20000101 -1.3  0.15 0";
   T.push_back({"sof", [](const S &in) {
      size_t k = in.find('\n'); S h = nozero(in.substr(0, k)), l = k == S::npos ? S() : nozero(in.substr(k + 1)); Buf hb(h), lb(l); ELEMENTS e; dirty(&e, sizeof e); double ex[4]; dirty(ex, sizeof ex); int r;
      LIB(r = extract_sof_data_ex(&e, lb, hb, ex)); if (!stopped) { returned("extract_sof_data_ex"); if (!r) { defined(&e, sizeof e, "SOF elements"); defined(ex, sizeof ex, "SOF extras"); } }
      LIB(r = extract_sof_data(&e, lb, hb)); double d; LIB(d = extract_yyyymmdd_to_jd(lb)); if (!stopped) out_double(d, "extract_yyyymmdd_to_jd");
   }, {sh + "\n" + sl, sh + "|\n" + sl + " ", "q    |e    |i   |O   |o   |Tp        |\n1.0  .1   10. 20. 30. 20000101.5", "\n20001231.25"}, {"|", "Tp", "Te", "q ", "e ", "i ", "Om", "om", "H ", "rms", "C ", "1e300", "nan", "-", "20000101", "99999999", "."}, 400, .8, false});
   S mp = "00001    3.34  0.15 K239D 60.07881   73.42179   80.25496   10.58688  0.0789126  0.21410680   2.7672543  0 E2023-F87  7283 123 1801-2023 0.65 M-v 30k MPCLINUX   0000      (1) Ceres              20230321";
   S as = "     1 Ceres              E. Bowell          3.34  0.15 0.72 913.0 G?      0   0   0   0   0   0 56959 6750 20230225 334.327254  73.470459  80.260215 10.586821 0.07881745  2.76661 20230225 0.0E+00  1E-08 1E-08 2023";
   while (as.size() < 270) as += "0 ";
   T.push_back({"orbrec", [](const S &in) {
      S s = nozero(in); Buf b(s); ELEMENTS e; long r; memset(&e, 0, sizeof e); clean(&e, sizeof e); LIB(r = extract_mpcorb_dat(&e, b)); if (!stopped) { returned("extract_mpcorb_dat"); }
      LIB(r = extract_mpcorb_dat(NULL, b)); LIB(r = extract_astorb_dat(&e, b)); if (!stopped) returned("extract_astorb_dat"); LIB(r = extract_astorb_dat(NULL, b));
   }, {mp, as, mp + "\n"}, {" ", ".", "K239D", "zzzzz", "9999999999", "-", "nan", "1e99"}, 320, .6, false});
   T.push_back({"delta_t", [](const S &in) {
      S s = nozero(in); Buf b(s); double d = 0; LIB(reset_td_minus_dt_string(b)); uint64_t h = salt(s); double ys[] = {-3000, -100, 500, 1600, 1700.5, 1990, 2030, 2500, 1e4, -1e5};
      for (int i = 0; i < 3; i++) { double jd = 2451545. + (ys[(h >> (8 * i)) % 10] - 2000) * 365.25; LIB(d = td_minus_ut(jd)); if (!stopped) out_double(d, "td_minus_ut"); LIB(d = td_minus_utc(jd)); LIB(d = default_td_minus_ut(jd)); }
      LIB(reset_td_minus_dt_string(NULL));
   }, {"-10000,948:2715.6,573.36,46.5;948,1620:50.6,67.5,22.5", "-1e+308,-500:o1820,-20,0,32;-500,500:o0,10583.6,-1014.41,33.78311", "1900,2100:o2000,60,1,2;", "0,3000:5"}, {",", ":", ";", "o", "-1e308", "1e308", "2000", "nan", "-", " ", "x"}, 200, .6, false});
   /* whole documents */
   S psv = "# version=2017\n# observatory\n! mpcCode 704\n# submitter\n! name J. Doe\n# telescope\n! design reflector\npermID |provID     |trkSub  |mode|stn |obsTime                 |ra         |dec        |rmsRA|rmsDec|astCat|mag  |rmsMag|band|photCat|notes|remarks\n433    |           |abc     |CCD |704 |2019-09-26T12:34:56.789Z|123.456789 |-12.345678 |0.1  |0.2   |Gaia2 |18.1 |0.1   |G   |Gaia2  |     |ok\n       |2004 JX42  |        |CCD |704 |2019-09-26T12:34:56Z    |23.4567    |+2.3456    |     |      |Gaia1 |     |      |    |       |     |\n";
   S xml = "<?xml version=\"1.0\"?>\n<ades version=\"2017\">\n<obsBlock>\n<obsContext>\n<observatory><mpcCode>704</mpcCode><name>Site</name></observatory>\n<submitter><name>J. Doe</name></submitter>\n</obsContext>\n<obsData>\n<optical>\n<trkSub>abc</trkSub>\n<provID>2004 JX42</provID>\n<mode>CCD</mode>\n<stn>704</stn>\n<obsTime>2019-09-26T12:34:56.789Z</obsTime>\n<ra>123.456789</ra><dec>-12.345678</dec><rmsRA>0.1</rmsRA><rmsDec>0.2</rmsDec><rmsCorr>0.3</rmsCorr>\n<astCat>Gaia2</astCat><mag>18.12</mag><rmsMag>.1</rmsMag><band>G</band>\n<sys>ICRF_KM</sys><ctr>399</ctr><pos1>1234.5</pos1><pos2>-2345.6</pos2><pos3>3456.7</pos3><vel1>1.2</vel1><vel2>2</vel2><vel3>3</vel3>\n<disc>*</disc><notes>K</notes><ref>MPEC 2021-D85</ref><prog>1</prog><obsID>ABCDEFG</obsID><trkID>xyz</trkID>\n</optical>\n</obsData>\n</obsBlock>\n</ades>\n";
   std::vector<S> adict = {"<optical>", "</optical>", "<provID>", "</provID>", "<permID>", "<ra>", "<dec>", "</ra>", "<mag>", "<obsTime>", "<stn>", "<ades>", "</ades>", "<pos1>", "<trkSub>", "<remarks>", "<ref>", "<rmsTime>", "<precRA>", "<artSat>", "<band>", "|", "# ", "! ", "permID", "provID", "obsTime", "<", ">", "</", "MPS 123456", "MPC 99", "2019-09-26T12:34:56.123456789Z", "99999999999999999999", "\r", "\r\n", "<ades version", "<sys>ICRF_AU</sys>", "<ctr>", "<logSNR>", "<rcv>", "<trx>", "<com>", "<obsCenter>", "<sigRA>"};
   S tholen = "     K04J42X  C2004 05 10.12345 12 34 56.78 -12 34 56.7          18.1 V      704 0.123 0.456\n";
   T.push_back({"ades", [](const S &in) {
      uint64_t h = salt(in); void *ctx = NULL; int r = 0; LIB(ctx = init_ades2mpc());
      if (h & 1) LIB(ades_artsat_desigs(ctx, (h >> 1) & 1));
      bool bad = false;
      if ((h >> 2) % 3 == 0) {
         S f = tmpfile_for(in); FILE *fp = fopen(f.c_str(), "rb"); size_t lens[] = {221, 400, 1000}; size_t len = lens[(h >> 5) % 3]; Buf o(len); o.p[0] = 0; clean(o.p, 1); int n = 0;
         do { LIB(r = fgets_with_ades_xlation(o, len, ctx, fp)); if (stopped) { bad = true; break; } returned("fgets_with_ades_xlation"); if (r > 0) defined_str(o, len, "ADES line"); } while (r && n++ < 4000);
         if (!bad && r > 0) vh::bad("ades:endless", "fgets_with_ades_xlation gave over 4000 lines for %zu bytes of input", in.size());
         fclose(fp);
      } else for (size_t i = 0; i < in.size() && !bad;) {
         size_t e = in.find('\n', i); if (e == S::npos) e = in.size(); S l = nozero(in.substr(i, e - i + ((h >> 6) & 1 && e < in.size() ? 1 : 0))).substr(0, 400); i = e + 1; int n = 0;
         if ((h >> 2) % 3 == 1) { Buf b(l), o(221); do { LIB(r = xlate_ades2mpc(ctx, o, b)); if (stopped) { bad = true; break; } returned("xlate_ades2mpc"); if (r > 0) defined_str(o, 221, "ADES output"); } while (r > 0 && n++ < 60); }
         else { Buf b(401); memcpy(b.p, l.c_str(), l.size() + 1); clean(b.p, l.size() + 1); do { LIB(r = xlate_ades2mpc_in_place(ctx, b)); if (stopped) { bad = true; break; } if (r > 0) defined_str(b, 401, "ADES output in place"); } while (r > 0 && n++ < 60); }
         if (n >= 60) { vh::bad("ades:endless-line", "one ADES line never finished translating"); break; }
      }
      LIB(r = free_ades2mpc_context(ctx));
   }, {psv, xml, tholen, tholen + psv, xml + tholen, "<optical><provID>2004 JX42</provID><obsTime>2019-09-26T12:34:56Z</obsTime><stn>568</stn><ra>1.5</ra><dec>2</dec></optical>\n"}, adict, 3000, 2, true});
   T.push_back({"region", [](const S &in) {
      S f = tmpfile_for(in); FILE *fp = fopen(f.c_str(), "rb"); Buf o(90); int r; uint64_t h = salt(in); double la = (double)(h % 181) - 90, lo = (double)((h >> 10) % 721) - 360;
      LIB(r = extract_region_data_for_lat_lon(fp, o, la, lo)); if (!stopped) { returned("extract_region_data"); defined_str(o, 90, "region name"); } fclose(fp);
   }, {"# comment\n   -120.0      30.0    -100.0      50.0   US  United States\n    -10.0      35.0      40.0      70.0   EU  Europe\n  0 0 0 0\n", "-180       -90       180       90        World\n"}, {"\n", "1e18", "999999999999", "  ", ".", "-", "9", "#"}, 500, .4, true});
   S cosp = "COSPAR test\nPlanet: E Earth\nObj: 3\nr: 6378.14,6378.14,6356.75\na0=0-.641T\nd0=90.-.557T\nW=190.147+360.9856235d\nPlanet: M Mars\nE1= 125.045-0.0529921d\nM1= 169.51-0.4357640d\nM2=192.93+1128.4096700d\nObj: 4\na0=317.681-.106T\nd0=52.886-.061T\nW=176.63+350.89198226d\nObj: 401\na0=317.68-.108T+1.79s1M1\nd0=52.9-.061T-1.08c1M1\nW=35.06+1128.84475928d+8.864d2-1.42s1M1-.78s1M2\nRemap: 3001 10 401 11\nEND\n";
   T.push_back({"cospar", [](const S &in) {
      S fs = tmpfile_for(in); Buf fb(fs); int r; LIB(r = load_cospar_file(fb)); bool st = stopped; uint64_t h = salt(in); int objs[] = {3, 4, 401, 10, 11, 3001, 5, 0, -1, 999, 1000}; double m[9], rad[3], d;
      if (!st) for (int i = 0; i < 4; i++) { int ob = objs[(h >> (5 * i)) % 11], sy = (int)((h >> (40 + i)) & 3); dirty(m, sizeof m);
         LIB(r = calc_planet_orientation(ob, sy, 2451545. + (double)(h % 100000), m)); if (!stopped) { returned("calc_planet_orientation"); defined(m, sizeof m, "orientation"); }
         dirty(rad, sizeof rad); LIB(r = planet_radii(ob, rad)); if (!stopped) { returned("planet_radii"); defined(rad, sizeof rad, "radii"); } LIB(d = planet_rotation_rate(ob, sy)); if (!stopped) out_double(d, "rotation rate"); }
      LIB(load_cospar_file(NULL)); 
   }, {cosp, "Planet: X\nObj: 5\na0=1\nd0=2\nW=3+4d\n"}, {"Planet:", "Obj:", "Remap:", "\n", "=", "+", "-", "d", "d2", "T", "s1M1", "c2M2", "r:", "a0=", "d0=", "W=", "W1=", "END", "(", "#", "9999999999", "\r"}, 1200, 1, true});
   {  S eop; for (int i = 0; i < 40; i++) { char b[300]; int mjd = 41684 + i; snprintf(b, sizeof b, "73 1%2d %5d.00 I  0.120733 0.009786  0.136966 0.015902  I 0.8084178 0.0002710  0.0000 0.1916  P   -18.969     .300     -.299     .300   .143000   .137000   .8075000   -18.637    -3.667  ", i % 30 + 1, mjd); S l = b; l.resize(187, ' '); eop += l + "\n"; }
      T.push_back({"eop", [](const S &in) {
         S fs = tmpfile_for(in); Buf fb(fs); int r, fd[3] = {0, 0, 0}; clean(fd, sizeof fd); LIB(r = load_earth_orientation_params(fb, fd)); if (!stopped) { returned("load_eop"); defined(fd, sizeof fd, "eop dates"); }
         earth_orientation_params p; LIB(r = get_earth_orientation_params(2441684.5 + (double)(salt(in) % 50), &p, 0x1f)); LIB(r = load_earth_orientation_params(NULL, fd)); LIB(r = load_earth_orientation_params(NULL, NULL));
      }, {eop, eop.substr(0, 188 * 3)}, {"\n", " ", "I", "P", ".", "41684.00", "1e300", "\r\n"}, 8000, .3, true});
      /* a file long enough to be accepted, with up to a dozen of its lines replaced */
      static S big; for (int i = 0; i < 16420; i++) { S l = eop.substr(0, 187); char b[10]; snprintf(b, sizeof b, "%5d", 41684 + i); l.replace(7, 5, b, 5); if (i > 16300) l[16] = 'P'; if (i > 16390) l[95] = ' '; big += l + "\n"; }
      T.push_back({"eop-long", [](const S &in) {
         S txt = big; uint64_t h = salt(in); size_t i = 0, k = 0; while (i < in.size() && k < 12) { size_t e = in.find('\n', i); if (e == S::npos) e = in.size(); S l = in.substr(i, e - i); i = e + 1; size_t at = (vh::mix(h, k) % 5 == 0 ? 0 : vh::mix(h, k) % 16420) * 188; k++; if (at < txt.size()) txt.replace(at, std::min<size_t>(188, txt.size() - at), l + "\n"); }
         if (h % 3 == 0) txt.resize(txt.size() - h % 400);
         S fs = tmpfile_for(txt); Buf fb(fs); int r, fd[3] = {0, 0, 0}; clean(fd, sizeof fd); LIB(r = load_earth_orientation_params(fb, (h >> 30) & 1 ? fd : NULL)); if (!stopped) returned("load_eop(long)");
         for (int q = 0; q < 4; q++) { earth_orientation_params p; dirty(&p, sizeof p); double jds[] = {2441684.5, 2441690.25, 2458000.1, 2458104.5, 2458080.7, 1e9, -1e18}; double jd = jds[(h >> (4 * q)) % 7]; LIB(r = get_earth_orientation_params(jd, &p, 0x1f)); if (!stopped) { returned("get_eop"); defined(&p, sizeof p, "eop values"); } double d; LIB(d = td_minus_ut(jd)); if (!stopped) out_double(d, "td_minus_ut(eop)"); }
         LIB(r = load_earth_orientation_params(NULL, fd)); if (!stopped) defined(fd, sizeof fd, "eop dates"); LIB(r = load_earth_orientation_params(NULL, NULL));
      }, {eop.substr(0, 188), eop.substr(0, 188 * 4)}, {"\n", " ", "I", "P", ".", "41684.00", "1e300", "\r\n", "-1e99", "99999"}, 2300, .002, true}); }
}
/* ------------------------------------------------------------ mutation */
static S mutate(const Target &t, const std::vector<S> &corpus, const S &base) {
   vh::Rng &R = vh::rng; S s = base; int n = 1 + (int)R.below(R.chance(.3) ? 8 : 3);
   while (n--) switch (R.below(13)) {
   case 0: if (s.size()) s[R.below(s.size())] = (char)R.below(256); break;
   case 1: if (s.size()) { size_t i = R.below(s.size()); s.erase(i, 1 + R.below(R.chance(.5) ? 3 : s.size() - i)); } break;
   case 2: { static const char cs[] = " 0123456789.-+:/,;|<>()=ETZNKJSabcdzyxAZ_~$@!#%&'\"\t\r\n\x7f\x80\xff"; s.insert(R.below(s.size() + 1), 1, cs[R.below(sizeof cs - 1)]); } break;
   case 3: case 4: s.insert(R.below(s.size() + 1), R.pick(t.dict)); break;
   case 5: if (s.size()) { const S &d = R.pick(t.dict); size_t i = R.below(s.size()); s.replace(i, std::min(d.size(), s.size() - i), d); } break;
   case 6: if (s.size()) { size_t i = R.below(s.size()), k = 1 + R.below(std::min<size_t>(s.size() - i, 20)); S p = s.substr(i, k); int rep = 1 + (int)R.below(R.chance(.1) ? 60 : 3); S q; while (rep--) q += p; s.insert(R.below(s.size() + 1), q); } break;
   case 7: { const S &o = corpus[R.below(corpus.size())]; if (o.size() && s.size()) s = s.substr(0, R.below(s.size() + 1)) + o.substr(R.below(o.size())); } break;
   case 8: { static const char *ex[] = {"2147483648", "-2147483649", "9223372036854775808", "18446744073709551616", "1e308", "1e-320", "nan", "-inf", "0", "-0", "99999999999999999999999999", "1e19", "4294967296"}; size_t i = 0; std::vector<std::pair<size_t, size_t>> nums; while (i < s.size()) if (isdigit((unsigned char)s[i])) { size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) j++; nums.push_back({i, j - i}); i = j; } else i++;
      if (nums.size()) { auto p = nums[R.below(nums.size())]; s.replace(p.first, p.second, ex[R.below(13)]); } } break;
   case 9: { size_t i = 0; std::vector<size_t> dg; for (; i < s.size(); i++) if (isdigit((unsigned char)s[i])) dg.push_back(i); if (dg.size()) for (int k = 0; k < 3; k++) s[dg[R.below(dg.size())]] = (char)('0' + R.below(10)); } break;
   case 10: if (s.size()) s.resize(R.below(s.size() + 1)); break;
   case 11: if (s.size()) { size_t i = R.below(s.size()); s[i] ^= (char)(1 << R.below(8)); } break;
   case 12: if (s.size() > 1) { size_t i = R.below(s.size()), k = 1 + R.below(std::min<size_t>(12, s.size() - i)); S p = s.substr(i, k); s.erase(i, k); s.insert(R.below(s.size() + 1), p); } break;
   }
   if (s.size() > t.maxlen) s.resize(t.maxlen);
   return s;
}
int main(int argc, char **argv) {
   libside(false);
   vh::init(argc, argv); targets();
   cnt.assign(nguards + 2, 0); cntp = cnt.data(); seenb.assign(nguards + 2, 0);
   /* the library prints diagnostics; keep them out of the way */
   { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
   double wsum = 0; for (auto &t : T) wsum += t.weight;
   long total = vh::budget(getenv("FZ_N") ? atol(getenv("FZ_N")) : 4000000, 40000000); S only = getenv("FZ_T") ? getenv("FZ_T") : "";
   long edges = 0, kept = 0; std::map<S, long> te;
   for (auto &t : T) {
      if (only.size() && only != t.name) continue;
      std::vector<S> corpus = t.seeds; long n = (long)(total * t.weight / wsum); if (t.file) n /= 4; size_t fresh = 0; long e0 = edges; std::fill(seenb.begin(), seenb.end(), 0);
      for (long k = 0; k < n + (long)t.seeds.size(); k++) {
         S in = k < (long)t.seeds.size() ? t.seeds[k] : mutate(t, corpus, vh::rng.chance(.4) && corpus.size() > fresh ? corpus[corpus.size() - 1 - vh::rng.below(std::min<size_t>(corpus.size(), 12))] : corpus[vh::rng.below(corpus.size())]);
         if (k < (long)t.seeds.size() && in.size() > t.maxlen) in.resize(t.maxlen);
         vh::cur("%s: %s", t.name, vh::esc(in).substr(0, 3500).c_str());
         std::fill(cnt.begin(), cnt.end(), 0);
         t.fn(in);
         bool nw = false; for (uint32_t g = 1; g <= nguards; g++) if (cnt[g]) { uint8_t b = bucket(cnt[g]); if (!(seenb[g] & b)) { if (!seenb[g]) { edges++; } seenb[g] |= b; nw = true; } }
         if (nw && k >= (long)t.seeds.size()) { corpus.push_back(in); kept++; if (corpus.size() > 4000) corpus.erase(corpus.begin() + (long)t.seeds.size(), corpus.begin() + (long)t.seeds.size() + 500); }
         vh::seen(vh::mix(vh::hstr(in), vh::hstr(S(t.name))));
      }
      vh::count((S("inputs:") + t.name).c_str(), n); vh::count((S("edges:") + t.name).c_str(), edges - e0); vh::count((S("corpus:") + t.name).c_str(), (long)corpus.size());
      vh::sample("%s: %s", t.name, vh::esc(corpus.back()).substr(0, 120).c_str());
#ifndef VH_MSAN
      /* no memory lost: replay what was kept; the second and third rounds must not grow */
      size_t a[4]; std::vector<S> rp; for (size_t i = 0; i < corpus.size() && rp.size() < 600; i++) { nstops = 0; vh::cur("leak replay %s: %s", t.name, vh::esc(corpus[i]).substr(0, 3500).c_str()); t.fn(corpus[i]); if (!nstops) rp.push_back(corpus[i]); }
      for (int r = 0; r < 4; r++) { for (const S &x : rp) { vh::cur("leak replay %s: %s", t.name, vh::esc(x).substr(0, 3500).c_str()); t.fn(x); } a[r] = __sanitizer_get_current_allocated_bytes(); }
      vh::count("inputs replayed for lost memory", (long)rp.size());
      if (a[1] < a[2] && a[2] < a[3]) {
         for (const S &x : rp) { size_t b[3]; for (int r = 0; r < 3; r++) { t.fn(x); b[r] = __sanitizer_get_current_allocated_bytes(); } if (b[0] < b[1] && b[1] < b[2]) { vh::bad(S("leak:") + t.name, "each run of this input keeps %zu more bytes: %s", b[2] - b[1], vh::esc(x).substr(0, 1500).c_str()); break; } }
         vh::bad(S("leak:") + t.name, "replaying %zu inputs keeps %zu bytes more each time", rp.size(), a[3] - a[2]); }
      if (getenv("FZ_N")) fprintf(stderr, "%s: n=%ld edges %ld corpus %zu mem %zu %zu %zu %zu\n", t.name, n, edges - e0, corpus.size(), a[0], a[1], a[2], a[3]);
#endif
   }
   for (auto &s : stops) vh::count(("stop:" + s.first).c_str(), s.second);
   vh::need("edges", 1000); vh::need("kept inputs", 300); vh::need("edges:time", 80); vh::need("edges:ades", 200); vh::need("edges:cospar", 40); vh::need("edges:eop-long", 15);
   vh::count("edges", edges); vh::count("kept inputs", kept);
   return vh::finish();
}
