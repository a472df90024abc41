/* P12: observing sites. */
#include "vh.h"
#include "mpc_func.h"
#include "lunar.h"
double quick_atof(const char *ibuff);
using namespace vh;
typedef long double LD;
static std::string fmt(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static const LD RAD = M_PIl / 180;
static const double eq[15] = {695700e3, 2440530, 6051800, 6378137, 3396190, 71492e3, 60268e3, 25559e3, 24764e3, 1188300, 1737400, 1821.49e3, 1560.8e3, 2631.2e3, 2410.3e3};
static const double po[9] = {695700e3, 2438260, 6051800, 6356752.314140347, 3376200, 66854e3, 54364e3, 24973e3, 24341e3};
static LD axr(int p) { return p >= 0 && p < 9 ? (LD)po[p] / eq[p] : 1; }
/* exact geodetic -> parallax constants, in units of the equatorial radius */
static void geod(LD lat, LD h, int p, LD *c, LD *s) {
   LD b = axr(p), e2 = 1 - b * b, N = 1 / sqrtl(1 - e2 * sinl(lat) * sinl(lat)); h /= eq[p];
   *c = (N + h) * cosl(lat); *s = (N * b * b + h) * sinl(lat);
}
static double pick_lat() { switch (rng.below(6)) { case 0: return 0; case 1: return (rng.chance(.5) ? 1 : -1) * M_PI / 2; case 2: return (rng.chance(.5) ? 1 : -1) * (M_PI / 2 - rng.logu(1e-9, 1e-2)); case 3: return (rng.chance(.5) ? 1 : -1) * rng.logu(1e-9, 1e-2); default: return rng.uni(-M_PI / 2, M_PI / 2); } }
static void conv_case() {
   int p = (int)rng.below(15); double lat = pick_lat(), alt = rng.chance(.2) ? 0 : rng.chance(.6) ? rng.uni(-500, 9000) : rng.uni(-11000, 500000);
   cur("planet %d lat %.17g alt %.17g", p, lat, alt);
   double a = planet_radius_in_meters(p), r = planet_axis_ratio(p), c, s;
   if (a != eq[p] || fabsl(r - axr(p)) > 1e-15L) bad("body", "radius %.3f ratio %.15f", a, r);
   lat_alt_to_parallax(lat, alt, &c, &s, a, a * r);
   LD ec, es; geod(lat, alt, p, &ec, &es);
   if (fabsl(c - ec) > 1e-15L || fabsl(s - es) > 1e-15L) bad("to-parallax", "rho cos %.17g rho sin %.17g, expected %.17Lg %.17Lg", c, s, ec, es);
   double d = 99, l = point_to_ellipse(1., r, c, s, &d), l2 = point_to_ellipse(1., r, c, s, NULL);
   if (!(fabs(l - lat) < (cos(lat) < 1e-3 ? 5e-8 : 3e-10))) bad("lat-roundtrip", "latitude %.15f came back as %.15f", lat, l);
   if (!(fabs(d - alt / a) < 3e-14)) bad("alt-roundtrip", "altitude %.9f came back as %.9f", alt, d * a);
   if (l != l2) bad("optional-dist", "latitude depends on asking for the distance");
   /* west-side point: same distance, supplementary angle */
   double d3, l3 = point_to_ellipse(1., r, -c, s, &d3); if (c > 0 && (fabs(d3 - d) > 1e-14 || fabs(fabs(l3) - (M_PI - fabs(l))) > 1e-13)) bad("mirror", "(-x,y): %g %g against %g %g", l3, d3, l, d);
   count(fmt("body %d", p).c_str()); seen(mix(hdbl(lat), hdbl(alt))); if (evals % 9001 == 1) sample("planet %d lat %.9f alt %.3f -> %.9f %.9f -> %.9f %.3f", p, lat, alt, c, s, l, d * a);
}
static void ellipse_case() {
   double a = rng.logu(.1, 100), b = a * (rng.chance(.15) ? 1 : rng.uni(.05, 1)), ang = rng.uni(0, 2 * M_PI), R = a * rng.logu(.3, 10);
   double x = R * cos(ang), y = R * sin(ang); if (rng.chance(.1)) y = 0; if (rng.chance(.05)) x = 0;
   cur("ellipse %.17g %.17g point %.17g %.17g", a, b, x, y);
   double d, l = point_to_ellipse(a, b, x, y, &d);
   /* brute force nearest point */
   auto f = [&](LD t) { LD u = a * cosl(t) - x, v = b * sinl(t) - y; return u * u + v * v; };
   LD best = 1e99L, bt = 0; for (int i = 0; i < 256; i++) { LD t = i * 2 * M_PIl / 256, z = f(t); if (z < best) best = z, bt = t; }
   LD h = 2 * M_PIl / 256; for (int i = 0; i < 60; i++, h *= .6L) { for (LD t : {bt - h, bt + h}) { LD z = f(t); if (z < best) best = z, bt = t; } }
   LD tru = sqrtl(best); bool in = (x / a) * (x / a) + (y / b) * (y / b) < 1;
   if (!(fabsl(fabsl((LD)d) - tru) < 2e-7L * a)) bad(in ? "nearest-inside" : "nearest-outside", "distance %.12f, nearest point is at %.12Lf", d, tru);
   else if (tru > 1e-6 * a && (d < 0) != in) bad("nearest-sign", "distance %g for a point %s", d, in ? "inside" : "outside");
   /* the normal direction leads from the ellipse point to the point */
   LD u = atan2l(sinl(l) * b / a, cosl(l)), px = a * cosl(u), py = b * sinl(u);   /* reduced latitude */
   if (!(fabsl(px + d * cosl(l) - x) < 1e-5L * a && fabsl(py + d * sinl(l) - y) < 1e-5L * a)) bad("normal", "stepping %g along the normal at %g gives %Lg %Lg", d, l, px + d * cosl(l), py + d * sinl(l));
   count(in ? "ellipse points inside" : "ellipse points outside"); seen(mix(hdbl(x), hdbl(y)));
}
static bool same(double a, LD b, LD tol) { return fabsl((LD)a - b) <= tol; }
static void std_case() {
   std::string code; for (int i = 0; i < 3; i++) code += "0123456789ABCDEFGHXYZabcz"[rng.below(i ? 10 : 25)];
   int n1 = (int)rng.range(1, 5), n2 = (int)rng.range(3, 6);
   long lon = rng.below(360), lf = 0, m1 = 1; for (int i = 0; i < n1; i++) m1 *= 10; lf = rng.below(m1);
   double lat = pick_lat(), alt = rng.uni(-300, 6000); LD c, s; geod(lat, alt, 3, &c, &s);
   long m2 = 1; for (int i = 0; i < n2; i++) m2 *= 10;
   long ci = lrintl(c * m2), si = lrintl(fabsl(s) * m2);
   std::string lt = fmt("%3ld.%0*ld", lon, n1, lf), ct = fmt("%ld.%0*ld", ci / m2, n2, ci % m2), st = fmt("%c%ld.%0*ld", lat < 0 ? '-' : '+', si / m2, n2, si % m2);
   lt.resize(9, ' '); ct.resize(8, ' '); st.resize(9, ' ');
   std::string name = "Some Observatory", L = code + " " + lt + ct + st + name; if (rng.chance(.5)) L += "\n";
   cur("site line [%s]", L.c_str());
   char *h = strdup(L.c_str()); mpc_code_t g; memset(&g, 0xAA, sizeof g); int rv = get_mpc_code_info(&g, h);
   LD C = (LD)ci / m2, S = (LD)si / m2 * (lat < 0 ? -1 : 1);
   if (rv != 3) bad("std-status", "returned %d", rv);
   else {
      if (!same(g.lon, (lon + (LD)lf / m1) * RAD, 1e-14L)) bad("std-lon", "longitude %.12f", g.lon);
      if (!same(g.rho_cos_phi, C, 1e-15L) || !same(g.rho_sin_phi, S, 1e-15L)) bad("std-rho", "%.9f %.9f", g.rho_cos_phi, g.rho_sin_phi);
      if (C || S) { LD c2, s2; geod(g.lat, g.alt, 3, &c2, &s2); if (!same(C, c2, 1e-9L) || !same(S, s2, 1e-9L)) bad("std-latalt", "lat %.9f alt %.3f give %.12Lf %.12Lf", g.lat, g.alt, c2, s2); }
      if (g.planet != 3 || g.format != MPC_CODE_PARALLAXES || g.prec1 != n1 || g.prec2 != n2) bad("std-prec", "planet %d format %d precisions %d %d, expected %d %d", g.planet, g.format, g.prec1, g.prec2, n1, n2);
      if (g.name != h + 30) bad("std-name", "name pointer is elsewhere");
      if (code != g.code) bad("std-code", "code '%s'", g.code);
   }
   free(h); count("standard lines"); seen(hstr(L)); if (evals % 4001 == 1) sample("%s -> lat %.6f alt %.1f", L.c_str(), g.lat / (double)RAD, g.alt);
   /* a damaged layout is not a standard site */
   std::string q = L; const char *why; int k = (int)rng.below(4);
   if (k == 0) { q = L.substr(0, rng.below(30)); why = "short"; }
   else if (k == 1) { static const int dots[3] = {7, 14, 23}; q[dots[rng.below(3)]] = '5'; why = "no decimal point"; }
   else if (k == 2) { q[1] = ' '; why = "short code"; }
   else { q.insert(0, "toolong"); why = "long code"; }
   cur("damaged (%s) site line [%s]", why, q.c_str()); char *hq = strdup(q.c_str()); mpc_code_t g2; int r2 = get_mpc_code_info(&g2, hq); 
   if (r2 != -1) bad(std::string("damaged-") + why, "accepted, returned %d", r2);
   else if (g2.planet != 3 || g2.lat != 0. || g2.rho_cos_phi != 0. || !g2.name || strcmp(g2.name, "Unkn")) { if (g2.planet != 3 || !g2.name || strcmp(g2.name, "Unkn")) bad("damaged-default", "planet %d", g2.planet); }
   free(hq);
   std::string sl = code + std::string(27, ' ') + "Hubble"; cur("satellite line [%s]", sl.c_str()); char *hs = strdup(sl.c_str());
   int r3 = get_mpc_code_info(&g2, hs); if (r3 != -2 || g2.format != MPC_CODE_SATELLITE || code != g2.code || g2.name != hs + 30) bad("satellite-line", "returned %d format %d", r3, g2.format); free(hs);
}
static void rover_case() {
   std::string code; int cl = rng.chance(.5) ? 4 : 3; for (int i = 0; i < cl; i++) code += "ABCXYZxyz0123"[rng.below(13)];
   int pl = 3; bool atp = rng.chance(.4); if (atp) pl = rng.chance(.1) ? 9001 + (int)rng.below(300) : (int)rng.below(11);
   int style = (int)rng.below(2); LD lon, lat, alt; std::string lt, bt, at;
   double alt_d = rng.chance(.1) ? 0 : rng.uni(-400, 8000); at = fmt("%.1f", alt_d); alt = strtold(at.c_str(), NULL);
   if (style == 0) { double a = rng.chance(.1) ? 0 : rng.uni(-180, 360), b = rng.chance(.1) ? 0 : rng.chance(.1) ? (rng.chance(.5) ? 90 : -90) : rng.uni(-90, 90); int n = (int)rng.range(0, 8); lt = fmt("%.*f", n, a); bt = fmt("%.*f", n, b); lon = strtold(lt.c_str(), NULL); lat = strtold(bt.c_str(), NULL); }
   else {
      int d = rng.chance(.1) ? 0 : (int)rng.range(0, 359), m = rng.chance(.2) ? (int)rng.below(5) : (int)rng.below(60); double sx = rng.below(60000) / 1000.; bool ng = rng.chance(.4) && d <= 180; int d2 = (int)rng.range(0, 89), m2 = (int)rng.below(60); double s2 = rng.below(60000) / 1000.; bool ng2 = rng.chance(.5);
      lt = fmt("%s%d%02d%06.3f", ng ? "-" : "", d, m, sx); bt = fmt("%s%d%02d%06.3f", ng2 ? "-" : "", d2, m2, s2);
      if (d == 0 && d2 == 0) return;                     /* both below one degree: taken as decimal degrees */
      if (d == 0 && m < 4 && d2 == 0) return;
      lon = (d + m / 60.L + (LD)sx / 3600) * (ng ? -1 : 1); lat = (d2 + m2 / 60.L + (LD)s2 / 3600) * (ng2 ? -1 : 1);
   }
   code.resize(4, ' ');
   std::string L = code + "!" + fmt("%*s", (int)rng.range(14, 14), lt.c_str()) + " " + fmt("%13s", bt.c_str()) + " " + fmt("%8s", at.c_str()); L.resize(47, ' ');
   if ((int)L.size() > 47) return;
   L += "Test site"; if (atp) L += fmt(" @%d", pl); 
   cur("rover line [%s]", L.c_str());
   char *h = strdup(L.c_str()); mpc_code_t g; memset(&g, 0xAA, sizeof g); int rv = get_mpc_code_info(&g, h); 
   if (rv != pl || g.planet != pl) bad("rover-planet", "planet %d/%d, expected %d", rv, g.planet, pl);
   else if (pl < 9000) {
      LD el = lon < 0 ? lon + 360 : lon;
      if (!same(g.lon, el * RAD, 1e-13L) || !same(g.lat, lat * RAD, 1e-13L) || !same(g.alt, alt, 1e-9L)) bad(fmt("rover-value%d", style), "lon %.12f lat %.12f alt %.3f, expected %.12Lf %.12Lf %.3Lf", g.lon / (double)RAD, g.lat / (double)RAD, g.alt, el, lat, alt);
      LD c, s; geod(lat * RAD, alt, pl, &c, &s); if (lat != 0 || lon != 0) if (!same(g.rho_cos_phi, c, 1e-13L) || !same(g.rho_sin_phi, s, 1e-13L)) bad("rover-parallax", "%.12f %.12f, expected %.12Lf %.12Lf", g.rho_cos_phi, g.rho_sin_phi, c, s);
   } else if (g.lat || g.lon || g.alt || g.rho_cos_phi || g.rho_sin_phi) bad("rover-dynamical", "dynamical point has lat %g lon %g", g.lat, g.lon);
   std::string ec = code; while (!ec.empty() && ec.back() == ' ') ec.pop_back();
   if (ec != g.code || g.format != MPC_CODE_LAT_LON_ALT || g.name != h + 47) bad("rover-misc", "code '%s' format %d", g.code, g.format);
   free(h); count(style ? "rovers base 60" : "rovers decimal"); seen(hstr(L));
   std::string q = code + "!  12.5  notanumber   100                    junk  "; cur("damaged rover line [%s]", q.c_str()); char *hq = strdup(q.c_str()); if (get_mpc_code_info(&g, hq) != -1) bad("rover-damaged", "accepted"); free(hq);
}
struct Txt { std::string t; LD v; bool open_; };          /* open_: further numbers would be taken as minutes/seconds */
static Txt angle_text(int maxdeg) {
   Txt r; int d = (int)rng.below(maxdeg), m = (int)rng.below(60), s = (int)rng.below(60), n = (int)rng.range(1, 7); if (rng.chance(.1)) m = s = 59; if (rng.chance(.1)) d = 0;
   bool whole = rng.chance(.04); if (whole) { d = maxdeg > 180 ? 180 : maxdeg; m = s = 0; }         /* the pole itself, the far meridian */
   long p = 1; for (int i = 0; i < n; i++) p *= 10; long f = rng.below(p); if (whole) f = 0; LD z = (LD)f / p; r.open_ = false;
   const char *sp = rng.chance(.8) ? " " : "  ";
   switch (rng.below(6)) {
   case 0: r.t = fmt("%d.%0*ld", d, n, f); r.v = d + z; break;
   case 1: r.t = fmt("%d%s%02d.%0*ld", d, sp, m, n, f); r.v = d + (m + z) / 60; break;
   case 2: r.t = fmt("%d%s%02d%s%02d.%0*ld", d, sp, m, sp, s, n, f); r.v = d + m / 60.L + (s + z) / 3600; break;
   case 3: r.t = fmt("%d", d); r.v = d; r.open_ = true; break;
   case 4: r.t = fmt("%d%s%d", d, sp, m); r.v = d + m / 60.L; r.open_ = true; break;
   default: r.t = fmt("%d%s%d%s%d", d, sp, m, sp, s); r.v = d + m / 60.L + s / 3600.L; break;
   }
   return r;
}
static void latlon_case() {
   Txt a = angle_text(90), b = angle_text(rng.chance(.5) ? 180 : 360); bool south = rng.chance(.5), west = rng.chance(.5);
   char cs = south ? 'S' : 'N', cw = west ? 'W' : 'E'; if (rng.chance(.5)) cs = (char)tolower(cs); if (rng.chance(.5)) cw = (char)tolower(cw);
   bool prea = rng.chance(.5), preb = rng.chance(.5), lonfirst = rng.chance(.5);
   auto form = [&](Txt &x, char c, bool pre) { std::string sp = rng.chance(.4) ? " " : ""; return pre ? c + sp + x.t : x.t + sp + c; };
   std::string A = form(a, cs, prea), B = form(b, cw, preb);
   std::string sep1 = rng.chance(.6) ? ", " : rng.chance(.5) ? "," : " "; 
   bool firstopen = lonfirst ? (preb && b.open_) : (prea && a.open_), secondopen = lonfirst ? (prea && a.open_) : (preb && b.open_), secondpre = lonfirst ? prea : preb, firstpre = lonfirst ? preb : prea;
   if (sep1 == " " && firstopen) sep1 = ",";
   if (sep1 == " " && firstpre && !secondpre) sep1 = ", ";     /* 'n44.01 69W' style runs together */
   std::string L = lonfirst ? B + sep1 + A : A + sep1 + B; LD alt = 100; 
   if (rng.chance(.6)) {
      double v = rng.chance(.5) ? (double)rng.below(6000) : rng.below(60000) / 10.; std::string vt = rng.chance(.5) ? fmt("%.0f", floor(v)) : fmt("%.1f", v); bool ft = rng.chance(.4);
      alt = strtold(vt.c_str(), NULL) * (ft ? .3048L : 1);
      std::string sep2 = rng.chance(.6) || secondopen || secondpre ? ", " : " ";
      L += sep2 + (rng.chance(.3) ? "Alt. " : rng.chance(.2) ? "alt " : "") + vt + (rng.chance(.3) ? " " : "") + (ft ? "ft" : "m");
   }
   cur("lat/lon text [%s]", L.c_str()); char *h = strdup(L.c_str()); mpc_code_t g; memset(&g, 0, sizeof g); int rv = get_lat_lon_info(&g, h);
   LD lat = (south ? -a.v : a.v), lon = west ? -b.v : b.v; if (lon < 0) lon += 360;
   if (get_lat_lon_info(NULL, h) != 0) bad("latlon-null", "refused when no result is wanted");
   if (rv) bad("latlon-status", "returned %d", rv);
   else {
      if (!same(g.lat, lat * RAD, 1e-14L) || !same(g.lon, lon * RAD, 2e-14L) || !same(g.alt, alt, 1e-9L)) bad("latlon-value", "lat %.12f lon %.12f alt %.6f, expected %.12Lf %.12Lf %.6Lf", g.lat / (double)RAD, g.lon / (double)RAD, g.alt, lat, lon, alt);
      LD c, s; geod(lat * RAD, alt, 3, &c, &s); if (!same(g.rho_cos_phi, c, 1e-13L) || !same(g.rho_sin_phi, s, 1e-13L)) bad("latlon-parallax", "%.12f %.12f, expected %.12Lf %.12Lf", g.rho_cos_phi, g.rho_sin_phi, c, s);
      if (g.planet != 3 || g.format != MPC_CODE_LAT_LON_ALT || strcmp(g.code, "Rov")) bad("latlon-misc", "planet %d format %d code %s", g.planet, g.format, g.code);
   }
   free(h); count("lat/lon texts"); seen(hstr(L)); if (evals % 4001 == 2) sample("'%s' -> %.9f %.9f %.2f", L.c_str(), g.lat / (double)RAD, g.lon / (double)RAD, g.alt);
   /* texts that describe no site */
   std::string q; switch (rng.below(6)) {
   case 0: q = form(a, cs, prea) + ", " + form(a, cs, prea); break;                    /* two latitudes */
   case 1: q = form(b, cw, preb) + ", " + form(b, cw, preb); break;
   case 2: q = A; break;
   case 3: { q = fmt("%c%d.%d, ", cs, (int)rng.range(91, 400), 5) + form(b, cw, preb); break; }   /* beyond the pole */
   case 4: q = fmt("%c%d %d.5, ", cs, (int)rng.below(80), (int)rng.range(61, 99)) + form(b, cw, preb); break;
   default: q = "Xyzzy " + L; }
   cur("no site [%s]", q.c_str()); char *hq = strdup(q.c_str()); if (!get_lat_lon_info(&g, hq)) bad("latlon-nonsense", "accepted as lat %.6f lon %.6f", g.lat / (double)RAD, g.lon / (double)RAD); free(hq); count("non-sites");
   /* COM Long. line */
   std::string X = "COM Long. " + form(b, cw, preb) + ", Lat. " + form(a, cs, prea) + ", Alt. " + fmt("%.1Lf", alt) + "m, Google Earth"; LD al = strtold(fmt("%.1Lf", alt).c_str(), NULL);
   cur("XXX line [%s]", X.c_str()); char *hx = strdup(X.c_str()); memset(&g, 0, sizeof g); rv = get_xxx_location_info(&g, hx); free(hx);
   if (rv) bad("xxx-status", "returned %d", rv);
   else { LD c, s; geod(lat * RAD, al, 3, &c, &s);
      if (!same(g.lat, lat * RAD, 1e-14L) || !same(g.lon, lon * RAD, 2e-14L) || !same(g.alt, al, 1e-9L) || !same(g.rho_cos_phi, c, 1e-13L) || !same(g.rho_sin_phi, s, 1e-13L) || g.planet != 3 || strcmp(g.code, "XXX")) bad("xxx-value", "lat %.12f lon %.12f alt %.3f", g.lat / (double)RAD, g.lon / (double)RAD, g.alt); }
   std::string y = X; int k = (int)rng.below(4); if (k == 0) y[rng.below(9)] = '#'; else if (k == 1) y.replace(y.find("Lat."), 4, "Lot."); else if (k == 2) y.replace(y.find("Alt."), 4, "Elv."); else y.resize(rng.below(10));
   cur("damaged XXX line [%s]", y.c_str()); char *hy = strdup(y.c_str()); if (!get_xxx_location_info(&g, hy)) bad("xxx-nonsense", "accepted"); free(hy);
   /* RA and dec texts */
   Txt r = angle_text(24); std::string tail = rng.chance(.5) ? "" : rng.chance(.5) ? "  xyz" : "  +12.3"; std::string rt = r.t + tail; int nf = 1; { bool in = false; nf = 0; for (char ch : r.t) { if (ch == ' ') in = false; else if (!in) in = true, nf++; } }
   cur("RA text [%s]", rt.c_str()); int nb = -5; char *hr = strdup(rt.c_str()); double ra = get_ra_from_string(hr, &nb); free(hr);
   size_t eat = r.t.size() + (tail.empty() ? 0 : 2); LD er = r.v * (nf > 1 ? 15 : 1) * RAD;
   if (nb != (int)eat || !same(ra, er, 1e-14L)) bad("ra-text", "read %.12f (%d bytes), expected %.12Lf (%zu bytes)", ra, nb, er, eat);
   Txt dd = angle_text(90); bool ng = rng.chance(.5); std::string dt = (ng ? "-" : "+") + dd.t + tail; if (tail == "  +12.3") dt = (ng ? "-" : "+") + dd.t + "  xyz";
   cur("dec text [%s]", dt.c_str()); char *hd = strdup(dt.c_str()); double de = get_dec_from_string(hd, &nb); free(hd);
   eat = 1 + dd.t.size() + (tail.empty() ? 0 : 2);
   if (nb != (int)eat || !same(de, dd.v * RAD * (ng ? -1 : 1), 1e-14L)) bad("dec-text", "read %.12f (%d bytes), expected %.12Lf (%zu bytes)", de, nb, dd.v * RAD * (ng ? -1 : 1), eat);
   static const std::vector<std::string> nora = {"", "abc", "-12 34 56", "361.5", "24 01 00", "12 61 00", "12 34 61", "   ", "+5"}, nodec = {"", "12 34 56", "+91.2", "-90 00 01", "+12 61", "-", "+x", "+ x"};
   std::string j = rng.pick(nora); cur("no RA [%s]", j.c_str()); hr = strdup(j.c_str()); nb = 7; get_ra_from_string(hr, &nb); free(hr); if (nb) bad("ra-nonsense", "%d bytes read", nb);
   j = rng.pick(nodec); cur("no dec [%s]", j.c_str()); hr = strdup(j.c_str()); nb = 7; get_dec_from_string(hr, &nb); free(hr); if (nb) bad("dec-nonsense", "%d bytes read", nb);
   count("RA/dec texts");
}
static void region_case() {
   int n = (int)rng.range(1, 8); std::string file; struct R { double a, b, c, d; std::string nm; }; std::vector<R> v;
   for (int i = 0; i < n; i++) {
      if (rng.chance(.2)) file += "# comment -180      -90        180        90       no\n";
      R r; r.a = rng.range(-180, 360); r.c = r.a + rng.range(-170, 170); if (r.c > 360) r.c -= 360; if (r.c < -180) r.c += 360; r.b = rng.range(-90, 90); r.d = rng.range(-90, 90); r.nm = fmt("Region %d", i); v.push_back(r);
      file += fmt("%-10.3f%-10.3f%-10.3f%-10.3f%s\n", r.a, r.b, r.c, r.d, r.nm.c_str());
   }
   double lat = rng.uni(-90, 90), lon = rng.uni(-180, 360); std::string e;
   for (auto &r : v) { double w = remainder(r.c - r.a, 360), x = remainder(lon - r.a, 360); if (fabs(fabs(x) - 180) < 1e-6) return; bool inl = w > 0 ? x > 0 && x < w : x < 0 && x > w; if (inl && (lat - r.b) * (lat - r.d) < 0) { e = r.nm; break; } }
   cur("region of %.9f %.9f in %d rectangles", lat, lon, n);
   FILE *f = fmemopen((void *)file.data(), file.size(), "r"); char b[100]; int rv = extract_region_data_for_lat_lon(f, b, lat, lon); fclose(f);
   if (e != b || (rv == 0) != !e.empty()) bad("region", "'%s' (%d), expected '%s' from:\n%s", b, rv, e.c_str(), file.c_str());
   count(e.empty() ? "no region" : "regions"); seen(mix(hdbl(lat), hdbl(lon)));
   std::string t = (rng.chance(.3) ? "-" : rng.chance(.3) ? "+" : "") + fmt("%ld", (long)(rng.chance(.3) ? rng.below(10) : rng.next() >> rng.range(12, 60))) + (rng.chance(.7) ? "." : ""); if (t.back() == '.') for (int i = (int)rng.below(14); i > 0; i--) t += (char)('0' + rng.below(10));
   cur("number [%s]", t.c_str()); double q = quick_atof(t.c_str()), w = strtod(t.c_str(), NULL); if (fabs(q - w) > 3e-16 * fabs(w) + 1e-300) bad("number", "read as %.17g, is %.17g", q, w);
}
int main(int argc, char **argv) {
   init(argc, argv);
   if (shard == 0) { for (int p = -50; p < 200; p++) { cur("planet %d", p); double e = p >= 0 && p < 15 ? eq[p] : 0; if (planet_radius_in_meters(p) != e) bad("radius", "%f expected %f", planet_radius_in_meters(p), e); if (fabsl(planet_axis_ratio(p) - axr(p)) > 1e-15L) bad("ratio", "%f", planet_axis_ratio(p)); } }
   for (long k = 0, m = budget(400000, 15000000); k < m; k++) conv_case();
   for (long k = 0, m = budget(60000, 2000000); k < m; k++) ellipse_case();
   for (long k = 0, m = budget(100000, 4000000); k < m; k++) std_case();
   for (long k = 0, m = budget(100000, 4000000); k < m; k++) rover_case();
   for (long k = 0, m = budget(150000, 6000000); k < m; k++) latlon_case();
   for (long k = 0, m = budget(80000, 2000000); k < m; k++) region_case();
   for (int i = 0; i < 15; i++) need(fmt("body %d", i).c_str(), 100);
   for (auto s : {"standard lines", "rovers base 60", "rovers decimal", "lat/lon texts", "non-sites", "RA/dec texts", "regions", "no region", "ellipse points inside", "ellipse points outside"}) need(s, 100);
   return finish();
}
