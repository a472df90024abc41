/* P17: orbit records (Standard Orbit Format, MPC and Lowell catalogues, and their conversion) read with the written values. */
#include "vh.h"
#include "calref.h"
#include "watdefs.h"
#include "comets.h"
long extract_mpcorb_dat(ELEMENTS *elem, const char *buff);
long extract_astorb_dat(ELEMENTS *elem, const char *buff);
using vh::rng; using std::string;
static const double MU = .01720209895 * .01720209895;
static string fmt(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
/* exact heap copy so that a sanitizer sees any over-read */
struct Exact { char *p; explicit Exact(const string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
struct Col { string head, text; char kind; double val; };
static void date_text(bool frac, int width, string &t, double &jd)
{
   long y = rng.chance(.8) ? rng.range(1800, 2200) : rng.range(1000, 9999); int m = (int)rng.range(1, 12), d = (int)rng.range(1, 28);
   if (rng.chance(.2)) { m = 12; d = 31; } else if (rng.chance(.1)) { m = 2; d = 28; }
   jd = (double)calref::greg_jd(y, m, d) - .5;
   t = fmt("%04ld%02d%02d", y, m, d);
   if (frac && width > 10) { int n = std::min(width - 9, (int)rng.range(1, 9)); long k = 1; for (int i = 0; i < n; i++) k *= 10; long f = (long)rng.below((uint64_t)k); t += fmt(".%0*ld", n, f); jd += (double)f / (double)k; }
}
static string num(double lo, double hi, int dec, double &v) { string t = fmt("%.*f", dec, rng.uni(lo, hi)); v = strtod(t.c_str(), NULL); return t; }
static Col make(char kind)
{
   Col c; c.kind = kind; int w = 0; const char *h = "";
   switch (kind) {
      case 'N': h = "Name"; w = 12; c.text = fmt("%ld", rng.range(1, 999999)); c.val = 0; break;
      case 'p': h = "Tp"; w = (int)rng.range(8, 20); date_text(true, w, c.text, c.val); break;
      case 't': h = "Te"; w = rng.chance(.7) ? 8 : 14; date_text(true, w, c.text, c.val); break;
      case 'f': h = "Tfirst"; w = 8; date_text(false, w, c.text, c.val); break;
      case 'l': h = "Tlast"; w = 8; date_text(false, w, c.text, c.val); break;
      case 'w': h = "Tw"; w = 8; date_text(false, w, c.text, c.val); break;
      case 'q': h = "q "; c.text = num(.001, rng.chance(.5) ? 5 : 99, 8, c.val); w = 12; break;
      case 'e': h = "e "; c.text = rng.chance(.1) ? "1.00000000" : num(0, rng.chance(.7) ? 1 : 3, 8, c.val); if (c.text == "1.00000000") c.val = 1; w = 11; break;
      case 'i': h = "i "; c.text = num(0, 180, 6, c.val); w = 10; break;
      case 'O': h = rng.chance(.5) ? "Om" : "O "; c.text = num(0, 360, 6, c.val); w = 10; break;
      case 'o': h = rng.chance(.5) ? "om" : "o "; c.text = num(0, 360, 6, c.val); w = 10; break;
      case 'H': h = "H "; c.text = num(-2, 33, 2, c.val); w = 5; break;
      case 'G': h = "G "; c.text = num(-.2, .6, 2, c.val); w = 5; break;
      case 'r': h = "rms "; c.text = num(0, 9, 2, c.val); w = 4; break;
      case 'n': h = "n_o"; c.text = fmt("%ld", rng.range(1, 9999)); w = 5; break;
      case 'C': h = "C "; c.val = (double)rng.pick(std::vector<long>{0, 0, 3, 5}); c.text = fmt("%.0f", c.val); w = 3; break;
      case 'P': h = "Perts"; c.text = "M-v 38h"; w = 7; break;
   }
   if ((int)c.text.size() > w) w = (int)c.text.size();
   if (rng.chance(.3)) w += (int)rng.range(0, 4);
   if (kind == 'N' && rng.chance(.08)) { w = (int)rng.range(60, 77); vh::count("wide name columns"); }
   c.head = h; while ((int)c.head.size() < w) c.head += rng.chance(.2) && c.head.size() > 2 ? '.' : ' ';
   bool date = strchr("ptflw", kind) != NULL, left = date || kind == 'N' || kind == 'P' || rng.chance(.5);
   c.text = left ? c.text + string(w - c.text.size(), ' ') : string(w - c.text.size(), ' ') + c.text;
   return c;
}
static void check(const ELEMENTS &e, const std::map<char, double> &v, const double *x)
{
   auto near = [](double a, double b, double t) { return fabs(a - b) <= t; };
   auto g = [&](char k, double d) { auto it = v.find(k); return it == v.end() ? d : it->second; };
   const double r = M_PI / 180;
   if (e.q != g('q', 0)) vh::bad("sof-q", "q %.12g, written %.12g", e.q, g('q', 0));
   if (e.ecc != g('e', 0)) vh::bad("sof-e", "e %.12g, written %.12g", e.ecc, g('e', 0));
   if (!near(e.incl, g('i', 0) * r, 1e-14)) vh::bad("sof-i", "i %.12g, written %.12g", e.incl / r, g('i', 0));
   if (!near(e.asc_node, g('O', 0) * r, 1e-14)) vh::bad("sof-node", "node %.12g, written %.12g", e.asc_node / r, g('O', 0));
   if (!near(e.arg_per, g('o', 0) * r, 1e-14)) vh::bad("sof-arg", "argument %.12g, written %.12g", e.arg_per / r, g('o', 0));
   if (!near(e.perih_time, g('p', 0), 1e-9)) vh::bad("sof-tp", "Tp %.9f, written %.9f", e.perih_time, g('p', 0));
   if (!near(e.epoch, g('t', 0), 1e-9)) vh::bad("sof-te", "Te %.9f, written %.9f", e.epoch, g('t', 0));
   if (e.abs_mag != g('H', 0)) vh::bad("sof-H", "H %.12g, written %.12g", e.abs_mag, g('H', 0));
   if (e.slope_param != g('G', .15)) vh::bad("sof-G", "G %.12g, written (or default) %.12g", e.slope_param, g('G', .15));
   if (e.central_obj != (int)g('C', 0)) vh::bad("sof-C", "central object %d, written %g", e.central_obj, g('C', 0));
   double gm = MU * (g('C', 0) == 3 ? 3.003489614792921e-06 : 1.);
   if (!near(e.gm, gm, 1e-14 * gm)) vh::bad("sof-gm", "gm %.15g expected %.15g", e.gm, gm);
   double h = sqrt(gm * e.q * (1 + e.ecc));
   if (!near(e.angular_momentum, h, 1e-13 * h)) vh::bad("sof-derived", "angular momentum %.15g expected %.15g", e.angular_momentum, h);
   if (x) {
      static const char k[4] = {'f', 'l', 'w', 'r'};
      for (int i = 0; i < 4; i++) if (!near(x[i], g(k[i], 0), 1e-9)) vh::bad("sof-extra", "extra[%d] (%c) %.9f, written %.9f", i, k[i], x[i], g(k[i], 0));
   }
}
static void sof_header_case()
{
   string kinds = "pqeiOo"; for (char c : string("NtflwHGrnCP")) if (rng.chance(.6)) kinds += c;
   char missing = 0;
   if (rng.chance(.1)) { size_t k = rng.below(6); missing = kinds[k]; kinds.erase(k, 1); }
   for (size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[rng.below(i)]);
   std::vector<Col> c; string head, e1;
   int nrec = (int)rng.range(1, 4); std::vector<Col> first;
   for (char k : kinds) first.push_back(make(k));
   for (size_t i = 0; i < first.size(); i++) head += (i ? "|" : "") + first[i].head;
   const char *eol = rng.chance(.5) ? "\n" : rng.chance(.3) ? "\r\n" : "";
   if (rng.chance(.4)) head += " ^";
   Exact eh(head + eol);
   ELEMENTS e; memset(&e, (int)rng.below(256), sizeof e);
   for (int rec = 0; rec < nrec; rec++) {
      std::map<char, double> v; string line; size_t cut = string::npos; char sepch = rng.chance(.7) ? ' ' : '|';
      std::vector<size_t> starts;
      for (auto &f : first) {
         Col x = f; if (rec) { for (int tr = 0; tr < 60; tr++) { x = make(f.kind); string t = x.text; while (!t.empty() && t.back() == ' ') t.pop_back(); size_t b = t.find_first_not_of(' '); t = t.substr(b == string::npos ? 0 : b); if (t.size() <= f.head.size()) { x.text = t + string(f.head.size() - t.size(), ' '); break; } if (tr == 59) x = f; } }
         if (!starts.empty()) line += sepch;
         starts.push_back(line.size()); line += x.text; if (x.kind != 'N' && x.kind != 'n' && x.kind != 'P') v[x.kind] = x.val;
      }
      bool shortened = false, lostreq = false;
      if (rng.chance(.25)) {      /* the record ends with (or within the separator after) some column */
         size_t keep = 1 + rng.below(first.size()); cut = keep < first.size() ? starts[keep] - rng.below(2) : line.size();
         if (keep < first.size()) { shortened = true; for (size_t k = keep; k < first.size(); k++) { if (strchr("pqeiOo", first[k].kind)) lostreq = true; v.erase(first[k].kind); } line.resize(cut); }
      } else if (rng.chance(.3)) while (!line.empty() && line.back() == ' ') line.pop_back();
      vh::cur("header [%s] line [%s]", head.c_str(), line.c_str());
      Exact el(line + (rng.chance(.5) ? "\n" : ""));
      double x[5] = {-1, -1, -1, -1, 77.5}; bool ex = rng.chance(.6);
      int rv = ex ? extract_sof_data_ex(&e, el.p, eh.p, x) : extract_sof_data(&e, el.p, eh.p);
      if (x[4] != 77.5) vh::bad("sof-extra", "wrote beyond extra[3]");
      if (missing || lostreq) { if (!rv) vh::bad("sof-accepted", "accepted although a required column is missing from the %s", missing ? "header" : "record"); vh::count(missing ? "headers lacking a column" : "records ending early"); }
      else if (rv) vh::bad("sof-rejected", "valid record refused (%d)", rv);
      else { check(e, v, ex ? x : NULL); vh::count("SOF records"); if (shortened) vh::count("records without trailing columns"); if (v['C'] == 3) vh::count("geocentric orbits"); }
      vh::seen(vh::hstr(line));
      if (vh::nontrivial_total % 4001 == 0) vh::sample("[%s] [%s]", head.c_str(), line.c_str());
   }
}
static void sof_bad_header()
{
   string h; switch (rng.below(4)) { case 0: h = ""; break; case 1: h = "q|e |i "; break; case 2: h = "q " + string(100, ' ') + "|e |i |Om|om|Tp      "; break; default: h = "\n"; }
   Exact a(h), b(string(rng.below(200), '1')); ELEMENTS e; memset(&e, 0, sizeof e);
   vh::cur("bad header [%s]", h.c_str());
   if (!extract_sof_data(&e, b.p, a.p)) vh::bad("sof-accepted", "accepted a header that declares no orbit");
   vh::count("bad headers");
   string wd = "q |e |i |Om|om|Tp      |Name" + string(rng.chance(.5) ? 75 + rng.below(5) : rng.below(120), ' '); Exact c(wd), d(string(20 + rng.below(200), '1'));   /* columns about as wide as the program can take, or wider: taken or refused, never overrun */
   vh::cur("wide header [%s]", wd.c_str()); extract_sof_data(&e, d.p, c.p); vh::count("wide columns");
}
static void yyyymmdd()
{
   string t; double jd; date_text(true, (int)rng.range(8, 20), t, jd); vh::cur("date [%s]", t.c_str()); Exact e(t);
   double got = extract_yyyymmdd_to_jd(e.p);
   if (fabs(got - jd) > 1e-9) vh::bad("date", "%.9f, written %.9f", got, jd);
   vh::count("dates"); vh::seen(vh::hstr(t));
}
struct Ast { double M, w, O, i, e, a, H, G, ep; long jd; bool h, g; string line, epoch, tlast; };
static char mh(int n) { return n < 10 ? '0' + n : n < 36 ? 'A' + n - 10 : 'a' + n - 36; }
static void put(string &s, size_t col, const string &t) { if (s.size() < col + t.size()) s.resize(col + t.size(), ' '); s.replace(col, t.size(), t); }
static double rd(const string &t) { return strtod(t.c_str(), NULL); }
static Ast mpcorb()
{
   Ast a; long y = rng.range(1800, 2199); int m = (int)rng.range(1, 12), d = (int)rng.range(1, calref::greg_jd(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - calref::greg_jd(y, m, 1));
   a.jd = (long)calref::greg_jd(y, m, d); a.ep = a.jd - .5; a.line = string(202, ' ');
   string M = fmt("%9.5f", rng.uni(0, 359.999)), w = fmt("%9.5f", rng.uni(0, 359.999)), O = fmt("%9.5f", rng.uni(0, 359.999)), I = fmt("%9.5f", rng.chance(.3) ? rng.uni(90, 180) : rng.uni(0, 60)), E = fmt("%9.7f", rng.chance(.1) ? 0. : rng.uni(0, .999)), A = fmt("%11.7f", rng.chance(.1) ? rng.uni(100, 999) : rng.uni(.3, 60));
   a.M = rd(M); a.w = rd(w); a.O = rd(O); a.i = rd(I); a.e = rd(E); a.a = rd(A);
   double n = .9856076686 / (a.a * sqrt(a.a)); string N = fmt("%11.8f", n); put(a.line, 80, N);
   put(a.line, 0, fmt("%05ld  ", rng.range(1, 99999))); a.h = rng.chance(.9); a.g = rng.chance(.9);
   string H = fmt("%5.2f", rng.uni(-1.5, 33)), G = fmt("%5.2f", rng.uni(-.2, .6)); a.H = a.h ? rd(H) : 0; a.G = a.g ? rd(G) : 0; if (a.h) put(a.line, 8, H); if (a.g) put(a.line, 14, G);
   a.epoch = fmt("%c%02ld%c%c", mh((int)(y / 100)), y % 100, mh(m), mh(d)); put(a.line, 20, a.epoch);
   put(a.line, 26, M); put(a.line, 37, w); put(a.line, 48, O); put(a.line, 59, I); put(a.line, 70, E); put(a.line, 92, A);
   put(a.line, 105, "0 MPO123456"); put(a.line, 117, fmt("%5ld", rng.range(3, 9999))); put(a.line, 124, fmt("%2ld", rng.range(1, 99)));
   a.tlast = fmt("%04ld%02ld%02ld", rng.range(1950, 2030), rng.range(1, 12), rng.range(1, 28));
   if (rng.chance(.5)) put(a.line, 127, fmt("%4ld-%4ld", rng.range(1801, 1990), rng.range(1990, 2030))); else put(a.line, 127, fmt("%4ld days", rng.range(1, 300)));
   put(a.line, 137, fmt("%4.2f", rng.uni(0, 9.9))); put(a.line, 142, "M-v 38h"); put(a.line, 150, "MPCLINUX  0000");
   if (rng.chance(.5)) put(a.line, 166, fmt("(%6ld) Name", rng.range(1, 999999))); else put(a.line, 175, fmt("%ld AB%ld", rng.range(1990, 2029), rng.range(1, 399)));
   put(a.line, 194, a.tlast); a.line.resize(202, ' ');
   return a;
}
static void cmp(const ELEMENTS &e, const Ast &a, const char *what)
{
   const double r = M_PI / 180; double t0 = a.a * sqrt(a.a) / .01720209895, M = a.M > 180 ? a.M - 360 : a.M, tp = a.ep - M * r * t0;
   if (fabs(e.arg_per - a.w * r) > 1e-13 || fabs(e.asc_node - a.O * r) > 1e-13 || fabs(e.incl - a.i * r) > 1e-13 || fabs(e.ecc - a.e) > 1e-15 || fabs(e.major_axis / a.a - 1) > 1e-14 / (1 - a.e) + 1e-14 || fabs(e.mean_anomaly - a.M * r) > 1e-13 || e.epoch != a.ep)
      vh::bad(string(what) + "-elements", "read M=%.9g w=%.9g node=%.9g i=%.9g e=%.9g a=%.9g epoch %.3f; written %.9g %.9g %.9g %.9g %.9g %.9g %.3f", e.mean_anomaly / r, e.arg_per / r, e.asc_node / r, e.incl / r, e.ecc, e.major_axis, e.epoch, a.M, a.w, a.O, a.i, a.e, a.a, a.ep);
   if (fabs(e.q - a.a * (1 - a.e)) > 1e-13 * a.a) vh::bad(string(what) + "-q", "q %.12g", e.q);
   if (fabs(e.perih_time - tp) > 1e-8 + 1e-12 * t0 * 10 + 1e-14 / (1 - a.e) * t0) vh::bad(string(what) + "-tp", "perihelion %.9f expected %.9f", e.perih_time, tp);
   if (e.abs_mag != a.H || e.slope_param != a.G) vh::bad(string(what) + "-mag", "H %.9g G %.9g, written %.9g %.9g", e.abs_mag, e.slope_param, a.H, a.G);
   if (!e.is_asteroid || e.central_obj || e.gm != MU) vh::bad(string(what) + "-kind", "is_asteroid %d central %d", e.is_asteroid, e.central_obj);
   double h = sqrt(MU * e.q * (1 + e.ecc)); if (fabs(e.angular_momentum / h - 1) > 1e-13) vh::bad(string(what) + "-derived", "angular momentum %.12g", e.angular_momentum);
}
static void catalogue()
{
   ELEMENTS e; memset(&e, (int)rng.below(256), sizeof e);
   Ast a = mpcorb(); string line = a.line + (rng.chance(.5) ? "\n" : "");
   vh::cur("mpcorb [%s]", line.c_str());
   { Exact x(line); long jd = extract_mpcorb_dat(&e, x.p); if (jd != a.jd) vh::bad("mpcorb-epoch", "epoch %ld, written %ld", jd, a.jd); else cmp(e, a, "mpcorb"); if (extract_mpcorb_dat(NULL, x.p) != a.jd) vh::bad("mpcorb-epoch", "format check disagrees"); }
   vh::count("MPC catalogue records"); if (!a.h) vh::count("no magnitude"); vh::seen(vh::hstr(line));
   { string b = line; static const size_t pos[] = {25, 29, 36, 47, 82}; if (rng.chance(.5)) b.resize(rng.below(200)); else b[pos[rng.below(5)]] = 'x'; Exact x(b); vh::cur("damaged mpcorb [%s]", b.c_str()); if (extract_mpcorb_dat(&e, x.p)) vh::bad("mpcorb-accepted", "damaged record accepted"); vh::count("damaged MPC records"); }
   /* Lowell */
   Ast l; string s(267, ' ');
   long y = rng.range(1900, 2100); int m = (int)rng.range(1, 12), d = (int)rng.range(1, 28); l.jd = (long)calref::greg_jd(y, m, d); l.ep = l.jd - .5;
   string M = fmt("%10.6f", rng.uni(0, 359.999)), w = fmt("%10.6f", rng.uni(0, 359.999)), O = fmt("%10.6f", rng.uni(0, 359.999)), I = fmt("%10.6f", rng.chance(.3) ? rng.uni(90, 179.9) : rng.uni(0, 60)), E = fmt("%10.8f", rng.uni(0, .9999)), A = fmt("%13.8f", rng.chance(.1) ? rng.uni(1000, 3000) : rng.uni(.3, 900));
   l.M = rd(M); l.w = rd(w); l.O = rd(O); l.i = rd(I); l.e = rd(E); l.a = rd(A); string H = fmt("%5.2f", rng.uni(-1, 33)), G = fmt("%5.2f", rng.uni(-.2, .6)); l.H = rd(H); l.G = rd(G);
   put(s, 0, fmt("%6ld", rng.range(1, 999999))); put(s, 7, "Name"); put(s, 26, "E. Bowell"); put(s, 42, H); put(s, 48, G); put(s, 106, fmt("%04ld%02d%02d", y, m, d));
   put(s, 115, M); put(s, 126, w); put(s, 137, O); put(s, 147, I); put(s, 158, E); put(s, 168, A); put(s, 182, fmt("%04ld0101", y)); s += " 3.4E-02";
   vh::cur("astorb [%s]", s.c_str());
   { Exact x(s); memset(&e, (int)rng.below(256), sizeof e); long jd = extract_astorb_dat(&e, x.p); if (jd != l.jd) vh::bad("astorb-epoch", "epoch %ld, written %ld", jd, l.jd); else cmp(e, l, "astorb"); if (extract_astorb_dat(NULL, x.p) != l.jd) vh::bad("astorb-epoch", "format check disagrees"); }
   vh::count("Lowell records"); if (l.i >= 100) vh::count("retrograde Lowell records"); vh::seen(vh::hstr(s));
   { string b = s; if (rng.chance(.5)) b.resize(rng.below(267)); else put(b, 41, " xx.xx xx.xx"); Exact x(b); vh::cur("damaged astorb [%s]", b.c_str()); if (extract_astorb_dat(&e, x.p)) vh::bad("astorb-accepted", "damaged record accepted"); }
}
/* mpc2sof: the converted file, read back, has the catalogue's values */
static void convert()
{
   int n = (int)rng.range(0, 9), nc = (int)rng.range(0, 9); if (rng.chance(.2)) nc = (int)rng.range(10, 70); if (!n && !nc) n = 1;
   std::vector<Ast> v; string f = rng.chance(.5) ? "header text\n-----------------\n\n" : "", cf = "Num  Name                                   Epoch      q\n------\n";
   for (int i = 0; i < n; i++) { Ast a; do a = mpcorb(); while (a.a * (1 - a.e) > 99 || a.a > 99); v.push_back(a); f += a.line + "\n"; }
   struct C { string name; double q, e, i, w, O, tp, ep; }; std::vector<C> cs;
   for (int k = 0; k < nc; k++) {
      C c; string l(116, ' '); long mjd = rng.range(40000, 62000); c.ep = mjd + 2400000.5;
      string q = fmt("%12.8f", rng.uni(.005, 30)), e = fmt("%10.8f", rng.uni(.1, 1.1)), I = fmt("%9.5f", rng.uni(0, 180)), w = fmt("%9.5f", rng.uni(0, 360)), O = fmt("%9.5f", rng.uni(0, 360));
      c.q = rd(q); c.e = rd(e); c.i = rd(I); c.w = rd(w); c.O = rd(O);
      long y = rng.range(1900, 2060); int m = (int)rng.range(1, 12), d = (int)rng.range(1, 28); string fr = fmt("%05ld", rng.range(0, 99999)); c.tp = calref::greg_jd(y, m, d) - .5 + rd("." + fr);
      if (rng.chance(.5)) { c.name = fmt("C/%ld A%ld", rng.range(1950, 2029), rng.range(1, 9)); put(l, 3, c.name + " (Name)"); } else { c.name = fmt("%3ldP", rng.range(1, 499)); put(l, 0, c.name + "/Name"); if (rng.chance(.4)) { string sfx = rng.chance(.5) ? "-B" : "-AC"; put(l, 9, sfx); c.name += sfx; } }
      put(l, 44, fmt("%5ld", mjd)); put(l, 51, q); put(l, 64, e); put(l, 75, I); put(l, 85, w); put(l, 95, O); put(l, 105, fmt("%04ld%02d%02d.%s", y, m, d, fr.c_str())); l += " JPL 1"; cf += l + "\n"; cs.push_back(c);
   }
   bool noc = rng.chance(.15);
   string d = vh::workdir + "/"; FILE *o = fopen((d + "mpcorb.dat").c_str(), "wb"); fputs(f.c_str(), o); fclose(o); o = fopen((d + "ELEMENTS.COMET").c_str(), "wb"); fputs(cf.c_str(), o); fclose(o);
   vh::cur("mpc2sof with %d asteroids and %d comets%s", n, nc, noc ? " (ignored)" : "");
   string out; std::vector<string> av = {vh::tools + "/mpc2sof"}; if (noc) { av.push_back("mpcorb.dat"); av.push_back("i"); }
   int rc = vh::run(av, &out);
   if (rc) { vh::bad("mpc2sof-status", "ended with status %d: %s", rc, out.substr(0, 1500).c_str()); return; }
   o = fopen((d + "mpcorb.sof").c_str(), "rb"); std::vector<string> L; char b[500]; while (o && fgets(b, sizeof b, o)) L.push_back(b); if (o) fclose(o);
   size_t want = 1 + n + (noc ? 0 : nc);
   if (L.size() != want) { vh::bad("mpc2sof-count", "%zu lines for %d asteroids and %d comets", L.size(), n, nc); return; }
   for (size_t i = 1; i < L.size(); i++) {
      ELEMENTS e; double x[4]; if (L[i].size() != L[0].size()) vh::bad("mpc2sof-width", "line of %zu characters, header %zu", L[i].size(), L[0].size());
      if (extract_sof_data_ex(&e, L[i].c_str(), L[0].c_str(), x)) { vh::bad("mpc2sof-unreadable", "[%s]", L[i].c_str()); continue; }
      const double r = 180 / M_PI; double q, ec, in, w, O, tp, ep, tol = 1e-6;
      if (i <= (size_t)n) { Ast &a = v[i - 1]; q = a.a * (1 - a.e); ec = a.e; in = a.i; w = a.w; O = a.O; ep = a.ep; double M = a.M > 180 ? a.M - 360 : a.M; tp = ep - M / r * a.a * sqrt(a.a) / .01720209895; if (e.abs_mag != a.H) vh::bad("mpc2sof-H", "H %.3f, written %.3f", e.abs_mag, a.H);
         if (a.g && e.slope_param != a.G) vh::bad("mpc2sof-G", "G %.3f, written %.3f", e.slope_param, a.G); if (fabs(x[3] - rd(a.line.substr(137, 4))) > 1e-9) vh::bad("mpc2sof-rms", "rms %.3f", x[3]);
         double tl = extract_yyyymmdd_to_jd(a.tlast.c_str()); if (x[1] != tl) vh::bad("mpc2sof-tlast", "Tlast %.3f expected %.3f", x[1], tl); }
      else { C &c = cs[i - 1 - n]; q = c.q; ec = c.e; in = c.i; w = c.w; O = c.O; tp = c.tp; ep = c.ep; string nm = L[i].substr(0, 12); while (!nm.empty() && nm.back() == ' ') nm.pop_back(); if (nm != c.name) vh::bad("mpc2sof-name", "comet [%s] came out as [%s]", c.name.c_str(), nm.c_str()); vh::count("comets converted"); }
      if (fabs(e.q - q) > 6e-9 || fabs(e.ecc - ec) > 6e-9 || fabs(e.incl * r - in) > tol || fabs(e.arg_per * r - w) > tol || fabs(e.asc_node * r - O) > tol || fabs(e.epoch - ep) > 1e-9 || fabs(e.perih_time - tp) > 3e-7)
         vh::bad("mpc2sof-elements", "q=%.9g e=%.9g i=%.9g w=%.9g node=%.9g Tp %.7f Te %.3f; catalogue %.9g %.9g %.9g %.9g %.9g %.7f %.3f", e.q, e.ecc, e.incl * r, e.arg_per * r, e.asc_node * r, e.perih_time, e.epoch, q, ec, in, w, O, tp, ep);
   }
   vh::count("catalogues converted"); vh::seen(vh::hstr(f + cf));
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   if (!freopen("/dev/null", "w", stdout)) return 5;
   long n = vh::budget(60000, 3000000); if (vh::mode == "san") n /= 5;
   for (long i = 0; i < n; i++) { sof_header_case(); if (i % 5 == 0) { sof_bad_header(); yyyymmdd(); } catalogue(); }
   long c = vh::budget(vh::mode == "san" ? 160 : 400, 8000); for (long i = 0; i < c; i++) convert();
   for (auto *k : {"SOF records", "headers lacking a column", "records ending early", "records without trailing columns", "geocentric orbits", "bad headers", "wide columns", "wide name columns", "dates", "MPC catalogue records", "no magnitude", "damaged MPC records", "Lowell records", "retrograde Lowell records", "catalogues converted", "comets converted"}) vh::need(k, 20);
   return vh::finish();
}
