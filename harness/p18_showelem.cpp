/* P18: the element listing, read back by an independent reader, states the orbit it was made from. */
#include "vh_trap.h"
#include "watdefs.h"
#include "comets.h"
#include "date.h"
#include "showelem.h"
#include "kepref.h"
#include "calref.h"
using namespace kepref; using calref::jul_jd; using calref::greg_jd;
using vh::rng;
static const L PI_ = acosl(-1.L);
static const double MU = .01720209895 * .01720209895, AU_KM = 1.495978707e+8;
struct Num { bool ok; L val, ulp; int decimals, digits; size_t end; };
/* strict reader: optional blanks, sign, digits [. digits] */
static Num number(const std::string &s, size_t at)
{
   Num n; memset(&n, 0, sizeof n); size_t i = at;
   while (i < s.size() && s[i] == ' ') i++;
   bool neg = false;
   if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
   size_t st = i; L v = 0; bool pt = false; L sc = 1; bool lead = true;
   while (i < s.size() && (isdigit((unsigned char)s[i]) || (s[i] == '.' && !pt))) {
      if (s[i] == '.') pt = true;
      else { v = v * 10 + (s[i] - '0'); if (pt) { sc *= 10; n.decimals++; } if (s[i] != '0') lead = false; if (!lead) n.digits++; }
      i++;
   }
   n.ok = i > st + (pt ? 1 : 0); n.val = (neg ? -v : v) / sc; n.ulp = 1 / sc; n.end = i; return n;
}
static bool has(const std::string &s, const char *t, size_t *p, size_t from = 0) { *p = s.find(t, from); return *p != std::string::npos; }
/* compare a printed number with the truth, to one unit of its last digit; wrap>0: circular quantity */
static void cmp(const char *what, const Num &n, L truth, int min_decimals, int min_digits, L wrap, L noise, const std::string &line)
{
   if (!n.ok) { vh::bad(std::string("unreadable-") + what, "no %s in '%s'", what, line.c_str()); return; }
   L d = n.val - truth; if (wrap > 0) d -= wrap * rintl(d / wrap);
   if (!(fabsl(d) <= 1.001L * n.ulp + noise)) vh::bad(std::string("value-") + what, "%s shown as %.17Lg, is %.17Lg: '%s'", what, n.val, truth, line.c_str());
   if (n.decimals < min_decimals && n.digits < min_digits) vh::bad(std::string("precision-") + what, "%s shown with %d decimals/%d digits: '%s'", what, n.decimals, n.digits, line.c_str());
   if (wrap > 0 && (n.val < 0 || n.val > wrap)) vh::bad(std::string("range-") + what, "%s out of range: '%s'", what, line.c_str());
}
static void dist(const char *what, const std::string &s, size_t at, L truth, int prec, const std::string &line)
{
   size_t i = at; while (i < s.size() && s[i] == ' ') i++;
   if (!s.compare(i, 6, "<HUGE>")) { if (truth < 999998) vh::bad(std::string("huge-") + what, "%Lg AU called huge", truth); vh::count("huge distances"); return; }
   Num n = number(s, at); L t = truth; bool km = n.ok && !s.compare(n.end, 2, "km");
   if (km) { t *= AU_KM; vh::count("distances in km"); }
   cmp(what, n, t, prec, prec, 0, fabsl(t) * (km ? 1e-8L : 4e-15L), line);
   if (km && truth > .0067) vh::bad(std::string("unit-") + what, "%Lg AU shown in km: '%s'", truth, line.c_str());
}
static void date(const char *what, const std::string &s, size_t at, L jd, int prec, const std::string &line)
{
   static const char *mon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
   Num y = number(s, at); if (!y.ok || y.decimals) { vh::bad(std::string("unreadable-") + what, "'%s'", line.c_str()); return; }
   size_t i = y.end; while (i < s.size() && s[i] == ' ') i++;
   int m = -1; for (int k = 0; k < 12; k++) if (!s.compare(i, 3, mon[k])) m = k;
   if (m < 0) { vh::bad(std::string("month-") + what, "'%s'", line.c_str()); return; }
   Num d = number(s, i + 3); if (!d.ok) { vh::bad(std::string("unreadable-") + what, "'%s'", line.c_str()); return; }
   long yr = (long)y.val; long long j = jul_jd(yr, m + 1, 1); if (j >= 2299161 || greg_jd(yr, m + 1, 1) >= 2299161) j = greg_jd(yr, m + 1, 1);
   long long base = j; L dd = d.val;
   if (yr == 1582 && m == 9 && dd >= 15) base -= 10;     /* October 1582 lost ten days */
   L got = base - .5L + dd - 1;
   if (!(fabsl(got - jd) <= 1.001L * d.ulp + 2e-9L)) vh::bad(std::string("value-") + what, "date shown is JD %.12Lf, should be %.12Lf: '%s'", got, jd, line.c_str());
   if (dd < 1 || dd > 32) vh::bad(std::string("range-") + what, "day out of range: '%s'", line.c_str());
   if (d.decimals < prec) vh::bad(std::string("precision-") + what, "'%s'", line.c_str());
   vh::count("dates read back");
}
static void check(const ELEMENTS &e, int cometary, int format, const char *name, size_t size)
{
   const int prec = format & SHOWELEM_PRECISION_MASK; const bool pq = !(format & SHOWELEM_OMIT_PQ_MASK), hyp = cometary || e.ecc >= 1.;
   vh::cur("q %.17g e %.17g i %.17g node %.17g w %.17g T %.17g epoch %.17g gm %.17g mag %g %g ast %d central %d cometary %d format %x size %zu", e.q, e.ecc, e.incl, e.asc_node, e.arg_per, e.perih_time, e.epoch, e.gm, e.abs_mag, e.slope_param, e.is_asteroid, e.central_obj, cometary, format, size);
   char *buf = (char *)malloc(size); memset(buf, 0x7e, size); int n = 0;
   ELEMENTS e2 = e;
   if (!GUARDED(n = elements_in_mpc_format(buf, size, &e2, name, cometary, format))) {
      if (size >= 800) vh::bad("stopped", "the program stopped: %s", vh::trap_what.c_str()); else vh::count("buffer too small: deliberate stop");
      free(buf); return;
   }
   std::vector<std::string> ln; size_t p = 0;
   for (int i = 0; i < n && p < size; i++) { size_t l = strnlen(buf + p, size - p); ln.push_back(std::string(buf + p, l)); p += l + 1; }
   free(buf);
   if ((int)ln.size() != n) { vh::bad("lines", "%d lines promised, %zu in the buffer", n, ln.size()); return; }
   for (auto &x : ln) for (unsigned char c : x) if (c < ' ' || c == 0x7e || c > 126) { vh::bad("garbage", "byte %u in '%s'", c, x.c_str()); return; }
   const bool haveT = e.perih_time > 2. && e.perih_time < 3000000.;
   size_t want = 6 + haveT + (hyp ? 0 : 1);
   if (ln.size() != want) { vh::bad("lines", "%zu lines, expected %zu", ln.size(), want); return; }
   if (ln[0] != name) vh::bad("name", "'%s' for '%s'", ln[0].c_str(), name);
   size_t k = 1, at;
   if (haveT) {
      const std::string &s = ln[k++]; if (!has(s, "Peri", &at)) vh::bad("label", "'%s'", s.c_str());
      static const char *names[12] = {"barion", "helion", "mercury", "venus", "gee", "mars", "jove", "saturn", "uranus", "neptune", "pluto", "lune"};
      std::string pn = e.central_obj >= -1 && e.central_obj < 11 ? names[e.central_obj + 1] : "----";
      size_t sp = s.find_first_of(" ", at + 4); if (sp == std::string::npos) { vh::bad("label", "'%s'", s.c_str()); return; }
      if (s.substr(at + 4, sp - at - 4) != pn) vh::bad("pericenter-name", "'%s' for central object %d", s.c_str(), e.central_obj);
      date("perihelion-date", s, sp, e.perih_time, prec, s);
      if (format & SHOWELEM_PERIH_TIME_MASK) {
         if (!has(s, " = ", &at) || !has(s, "(JD", &sp)) vh::bad("label", "'%s'", s.c_str());
         else {
            Num j = number(s, sp + 3); cmp("perihelion-jd", j, e.perih_time, prec, 99, 0, 1e-9L, s);
            int h = -1, m = -1; double sec = -1;
            if (sscanf(s.c_str() + at + 3, "%d:%d:%lf", &h, &m, &sec) != 3 || h < 0 || h > 23 || m < 0 || m > 59 || sec < 0 || sec >= 60) vh::bad("perihelion-clock", "'%s'", s.c_str());
            else { L f = (L)e.perih_time + .5L; f -= floorl(f); L d = (h * 3600 + m * 60 + sec) / 86400.L - f; d -= rintl(d); L u = powl(10, -(prec > 5 ? prec - 5 : 0)) / 86400;
               if (!(fabsl(d) <= 1.001L * u + 2e-9L)) vh::bad("perihelion-clock", "clock off by %Lg day: '%s'", d, s.c_str()); }
            vh::count("perihelion clock times");
         }
      }
   }
   { const std::string &s = ln[k++];
     if (s.compare(0, 6, "Epoch ")) vh::bad("label", "'%s'", s.c_str());
     else { date("epoch-date", s, 6, e.epoch, 1, s); if (!has(s, "JDT ", &at)) vh::bad("label", "'%s'", s.c_str()); else { Num j = number(s, at + 4); Num j2 = j; j2.ulp = 1e-6L; cmp("epoch-jd", j2, e.epoch, 1, 99, 0, 2e-9L, s);
        if (j.end != s.size()) vh::bad("garbage", "trailing text: '%s'", s.c_str()); } } }
   L P[3], S[3]; axes(e.incl, e.asc_node, e.arg_per, P, S);
   const L ob = 84381.448L / 3600 * PI_ / 180; L PP[3] = {P[0], P[1] * cosl(ob) - P[2] * sinl(ob), P[1] * sinl(ob) + P[2] * cosl(ob)}, SS[3] = {S[0], S[1] * cosl(ob) - S[2] * sinl(ob), S[1] * sinl(ob) + S[2] * cosl(ob)};
   const L a = e.q / fabsl(1 - (L)e.ecc), nmot = sqrtl(e.gm / (a * a * a));
   const L dv = 180 / PI_;
   { const std::string &s = ln[k++];
     if (hyp) { if (s[0] != 'q') vh::bad("label", "'%s'", s.c_str()); else dist("q", s, 1, e.q, prec, s); }
     else { if (s[0] != 'M') vh::bad("label", "'%s'", s.c_str()); else { Num x = number(s, 1); cmp("mean-anomaly", x, fmodl(fmodl(e.mean_anomaly * dv, 360) + 360, 360), prec, 99, 360, 1e-13L * (1 + fabsl(e.mean_anomaly) * dv), s); } }
     if (pq != has(s, "(2000.0)", &at)) vh::bad("label", "'%s'", s.c_str()); }
   static const char *lab[3] = {"Peri.", "Node", "Incl."};
   for (int i = 0; i < 3; i++) {
     const std::string &s = ln[k++];
     if (!has(s, lab[i], &at)) { vh::bad("label", "'%s'", s.c_str()); return; }
     std::string left = s.substr(0, at);
     const double ang[3] = {e.arg_per, e.asc_node, e.incl};
     Num x = number(s, at + strlen(lab[i])); L tr = fmodl(fmodl((L)ang[i] * dv, 360) + 360, 360);
     cmp(i == 0 ? "arg-per" : i == 1 ? "node" : "inclination", x, tr, prec, 99, 360, 1e-13L, s);
     if (pq) { Num p1 = number(s, x.end), p2 = number(s, p1.end); cmp("P-vector", p1, PP[i], prec, 99, 0, 1e-14L, s); cmp("Q-vector", p2, SS[i], prec, 99, 0, 1e-14L, s);
        if (s.find_first_not_of(' ', p2.end) != std::string::npos) vh::bad("garbage", "trailing text: '%s'", s.c_str()); vh::count("vectors read back"); }
     else if (s.find_first_not_of(' ', x.end) != std::string::npos) vh::bad("garbage", "trailing text: '%s'", s.c_str());
     if (i == 0) {
        if (hyp) {
           if (e.abs_mag == 0.) { if (left.find_first_not_of(' ') != std::string::npos) vh::bad("magnitude", "no magnitude was given: '%s'", s.c_str()); }
           else if (e.is_asteroid) { size_t g; if (left[0] != 'H' || !has(left, "G", &g)) vh::bad("label", "'%s'", s.c_str()); else { cmp("H", number(left, 1), e.abs_mag, 2, 99, 0, 1e-13L, s); cmp("G", number(left, g + 1), e.slope_param, 2, 99, 0, 1e-13L, s); } }
           else { size_t g; if (left.compare(0, 4, format & SHOWELEM_COMET_MAGS_NUCLEAR ? "M(N)" : "M(T)") || !has(left, "K", &g)) vh::bad("label", "'%s'", s.c_str()); else { cmp("M", number(left, 4), e.abs_mag, 1, 99, 0, 1e-13L, s); cmp("K", number(left, g + 1), e.slope_param, 1, 99, 0, 1e-13L, s); vh::count("comet magnitudes"); } }
        } else { if (left[0] != 'n') vh::bad("label", "'%s'", s.c_str()); else cmp("motion", number(left, 1), nmot * dv, prec, 99, 0, nmot * dv * 1e-14L, s); }
     } else if (i == 1) {
        if (hyp) { if (left.find_first_not_of(' ') != std::string::npos) { if (left[0] != 'z') vh::bad("label", "'%s'", s.c_str()); else { Num z = number(left, 1); z.val = fabsl(z.val); cmp("1/a", z, 1 / a, prec, 99, 0, 1e-14L / a, s); vh::count("1/a read back"); } } else if (e.major_axis < -.0012 && e.major_axis > -99999) vh::bad("missing-1/a", "'%s'", s.c_str()); }
        else { if (left[0] != 'a') vh::bad("label", "'%s'", s.c_str()); else dist("a", left, 1, a, prec, s); }
     } else {
        if (left[0] != 'e') vh::bad("label", "'%s'", s.c_str());
        else { Num z = number(left, 1); if (cometary) { if (z.val != 1) vh::bad("value-e", "'%s'", s.c_str()); } else cmp("e", z, e.ecc, prec, 99, 0, 1e-15L, s);
           if (left.find_first_not_of(' ', z.end) != std::string::npos) vh::bad("garbage", "'%s'", s.c_str()); }
     }
   }
   if (!hyp) {
     const std::string &s = ln[k++]; const L per = 2 * PI_ / nmot;      /* days */
     if (s[0] != 'P') { vh::bad("label", "'%s'", s.c_str()); return; }
     if (s[1] == '!') { if (per < 1e8L * 365) vh::bad("period", "'%s' for %Lg days", s.c_str(), per); }
     else {
        Num x = number(s, 1); char u = s[x.end]; const L yr = 365.25L; L unit = u == 'm' ? 1 / 1440.L : u == 'd' ? 1 : yr;
        cmp("period", x, per / unit, 0, 0, 0, per / unit * 1e-14L, s);
        if (per < .9 * 365 && unit == yr && s.find('d') == std::string::npos) vh::bad("period-unit", "'%s' for %Lg days", s.c_str(), per);
        if (s[x.end] == '/' || (u == 'm' && s[x.end + 1] == '/')) { Num d = number(s, x.end + 1 + (u == 'm')); if (s[d.end] != 'd') vh::bad("label", "'%s'", s.c_str()); else cmp("period-days", d, per, 0, 0, 0, per * 1e-14L, s); }
        vh::count(unit == yr ? "periods in years" : u == 'm' ? "periods in minutes" : "periods in days");
     }
     size_t q, Q; if (!has(s, "   q ", &q) || !has(s, "  Q ", &Q, q)) vh::bad("label", "'%s'", s.c_str());
     else {
        dist("q", s, q + 5, e.q, prec, s); dist("Q", s, Q + 4, (L)e.q * (1 + (L)e.ecc) / (1 - (L)e.ecc), prec, s);
        size_t h;
        if (e.abs_mag == 0.) { if (s.find(" H ") < q || s.find("M(") < q) vh::bad("magnitude", "no magnitude was given: '%s'", s.c_str()); }
        else if (e.is_asteroid) { size_t g = 0; if (!has(s, " H", &h) || !has(s, "G ", &g, h) || g > q) vh::bad("label", "'%s'", s.c_str()); else { cmp("H", number(s, h + 2), e.abs_mag, 2, 99, 0, 1e-13L, s); cmp("G", number(s, g + 1), e.slope_param, 2, 99, 0, 1e-13L, s); vh::count("asteroid magnitudes"); } }
        else { size_t g = 0; if (!has(s, format & SHOWELEM_COMET_MAGS_NUCLEAR ? " M(N)" : " M(T)", &h) || !has(s, "K ", &g, h) || g > q) vh::bad("label", "'%s'", s.c_str()); else { cmp("M", number(s, h + 5), e.abs_mag, 1, 99, 0, 1e-13L, s); cmp("K", number(s, g + 1), e.slope_param, 1, 99, 0, 1e-13L, s); } }
     }
   }
   vh::count(hyp ? "open orbits listed" : "closed orbits listed"); vh::seen(vh::mix(vh::hdbl(e.q), vh::mix(vh::hdbl(e.ecc), format)));
   vh::sample("%s | %s | %s", ln[1].c_str(), ln[k - 2].c_str(), ln[k - 1].c_str());
}
static double angle(double hi)
{
   switch (rng.below(6)) { case 0: return 0; case 1: return hi * rng.range(0, 8) / 8 * (1 - 1e-16); case 2: return hi * (1 - rng.logu(1e-16, 1e-9)); case 3: return rng.logu(1e-12, 1e-2); default: return rng.uni(0, hi * (1 - 1e-15)); }
}
static void one(bool small)
{
   ELEMENTS e; memset(&e, 0, sizeof e);
   const bool planeto = rng.chance(.3); int cometary = 0;
   e.central_obj = planeto ? (int)rng.range(1, 10) : (int)rng.range(-1, 0); if (rng.chance(.02)) e.central_obj = (int)rng.pick(std::vector<int>{-2, 11, 12, 100});
   e.gm = planeto ? MU * (e.central_obj == 3 ? 3.003489e-6 : e.central_obj == 10 ? 3.694e-8 : rng.logu(1e-7, 1e-3)) : MU;
   e.q = planeto ? rng.logu(4.5e-5, .3) : rng.logu(.002, 3000);
   switch (rng.below(8)) { case 0: e.ecc = 0; break; case 1: e.ecc = 1; cometary = 1; break; case 2: e.ecc = 1 - rng.logu(1e-9, 1e-3); break; case 3: e.ecc = 1 + rng.logu(1e-9, 100); break; case 4: e.ecc = rng.range(0, 99) / 100.; break; default: e.ecc = rng.uni(0, 1); }
   if (rng.chance(.1)) e.q = rng.pick(std::vector<double>{1., 10., 100., 1000., 9999., 9.9999999999, .99999999999, 99.999999999999, .00668, .0067, 12345.678});
   const L a = e.q / fabsl(1 - (L)e.ecc);
   if (planeto && e.ecc < 1 && sqrtl(e.gm / (a * a * a)) * 180 / PI_ > 9999) return;
   e.incl = angle((double)PI_); e.asc_node = angle(2 * (double)PI_); e.arg_per = angle(2 * (double)PI_);
   if (rng.chance(.1)) { e.asc_node -= 2 * (double)PI_; e.arg_per = -e.arg_per; }
   e.epoch = rng.chance(.6) ? 2400000.5 + rng.range(0, 99999) : rng.chance(.5) ? 2400000.5 + rng.range(0, 9999999) / 100. : rng.uni(2.2e6, 2.6e6);
   if (rng.chance(.1)) e.epoch = floor(e.epoch) + rng.pick(std::vector<double>{.5, .4999999, .499999, .49999951, .5000001}) + rng.range(-3, 3) * 1e-7;
   e.perih_time = rng.chance(.8) ? e.epoch + rng.uni(-4000, 4000) : rng.uni(-1e5, 3.2e6);
   if (rng.chance(.1)) e.perih_time = floor(e.perih_time) + .5 + (rng.chance(.5) ? rng.logu(1e-9, 1e-2) : -rng.logu(1e-9, 1e-2));
   derive_quantities(&e, e.gm);
   if (e.ecc > 1 && rng.chance(.7)) { e.major_axis = -e.major_axis; e.t0 = -e.t0; }     /* the sign calc_classical_elements gives */
   if (e.ecc < 1) { const L nm = sqrtl(e.gm / (a * a * a)); L M = nm * ((L)e.epoch - e.perih_time); M -= 2 * PI_ * rintl(M / (2 * PI_)); e.mean_anomaly = (double)M; if (rng.chance(.1)) e.mean_anomaly = rng.pick(std::vector<double>{0., -1e-17, 1e-17, 3.14159265358979, 6.28318530717958, -6.2831853}); }
   e.is_asteroid = (int)rng.below(2);
   if (rng.chance(.8)) { e.abs_mag = e.is_asteroid ? rng.uni(-2, 35) : rng.uni(-3, 25); e.slope_param = e.is_asteroid ? rng.pick(std::vector<double>{.15, .25, -.05, .5}) : rng.uni(2, 20); }
   int format = (int)rng.below(16); if (rng.chance(.5)) format = (int)rng.range(3, 10);
   if (rng.chance(.3)) format |= SHOWELEM_PERIH_TIME_MASK;
   if (rng.chance(.3)) format |= SHOWELEM_OMIT_PQ_MASK;
   if (rng.chance(.2)) format |= SHOWELEM_COMET_MAGS_NUCLEAR;
   static const char *names[] = {"1", "(433) Eros", "C/2019 Q4", "P/2010 A2 (LINEAR)", "2I/Borisov", ""};
   check(e, cometary, format, names[rng.below(6)], small ? (size_t)rng.below(700) : 1000);
}
int main(int argc, char **argv)
{
   vh::init(argc, argv);
   const bool san = vh::mode == "san";
   for (long i = vh::budget(san ? 100000 : 400000, san ? 3000000 : 15000000); i > 0; i--) one(false);
   for (long i = vh::budget(60000, 2000000); i > 0; i--) one(true);
   for (const char *k : {"open orbits listed", "closed orbits listed", "vectors read back", "dates read back", "perihelion clock times", "comet magnitudes", "asteroid magnitudes", "periods in years", "periods in days", "periods in minutes", "distances in km", "1/a read back", "buffer too small: deliberate stop"}) vh::need(k, 10);
   return vh::finish();
}
