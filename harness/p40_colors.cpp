/* P40: star colour indices convert between photometric systems by the published relations (Caldwell et al. 1993; Bessell 2000;
   Hipparcos & Tycho guide), the inverse relations undo them, and colours outside a relation's range are refused. */
#include "vh.h"
using namespace vh;
using std::string; using std::vector;
#include "colors.h"
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) { char b[800]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
/* a frozen copy of the published coefficients: V-I to B-V, V-I to V-R, V-R to B-V, B-V to V-R */
static const double C[4][13] = {{-0.6865072E-01,0.8837997E+00,-0.3889774E+00,-0.4998126E-02,0.3867544E+00,-0.5422331E+00,-0.8926476E-01,0.5194797E+00,-0.2044681E+00,-0.1009025E+00,0.9543256E-01,-0.2567529E-01,0.2393742E-02}, {-0.4708373E+00,0.5920728E+00,-0.1095294E-01,-0.2281118E+00,-0.9372892E-01,0.1931393E+00,0.5077253E-01,-0.9927284E-01,0.8560631E-02,0.1922702E-01,-0.7201880E-02,0.7743020E-03,0.}, {0.4860429E+00,0.6904008E+00,-0.1229411E+01,0.2990030E+01,0.7104513E+01,-0.1637799E+02,-0.2977123E+02,0.4390751E+02,0.6145810E+02,-0.5265358E+02,-0.6135921E+02,0.2297835E+02,0.2385013E+02}, {-0.4140951E+00,0.7357165E+00,-0.5242979E-01,-0.6293304E+00,0.2332871E+01,0.3812365E+01,-0.5082941E+01,-0.6520325E+01,0.4817797E+01,0.5065505E+01,-0.1706011E+01,-0.1568243E+01,0.}};
static const double LO[4] = {-.23, -.30, -.10, -.23}, HI[4] = {3.70, 4.00, 1.75, 1.95};
static const short BES[46][3] = {{38,31,66},{30,21,51},{22,11,36},{15,5,21},{8,2,6},{1,-5,-11},{-5,-10,-25},{-12,-17,-38},{-18,-20,-48},{-24,-21,-58},{-29,-23,-69},{-35,-25,-79},{-40,-25,-87},{-45,-26,-94},{-50,-30,-101},{-54,-35,-108},{-59,-45,-114},{-64,-51,-120},{-68,-60,-127},{-72,-68,-131},{-77,-76,-134},{-81,-85,-137},{-85,-94,-142},{-89,-104,-147},{-93,-113,-151},{-98,-122,-155},{-102,-131,-158},{-106,-142,-157},{-110,-154,-160},{-115,-166,-162},{-119,-178,-164},{-124,-189,-166},{-128,-199,-166},{-133,-210,-165},{-138,-222,-164},{-143,-234,-161},{-148,-245,-157},{-154,-256,-153},{-160,-266,-148},{-165,-277,-143},{-172,-288,-137},{-178,-299,-131},{-185,-309,-125},{-191,-320,-119},{-199,-331,-112},{-206,-342,-106}};
static long double poly(int w, long double x) { long double s = 0; for (int i = 12; i >= 0; i--) s = s * (x - 1) + C[w][i]; return s + 1; }
typedef double (*F)(const double);
static const F FW[4] = {v_minus_i_to_b_minus_v, v_minus_i_to_v_minus_r, v_minus_r_to_b_minus_v, b_minus_v_to_v_minus_r}, INV[2] = {b_minus_v_to_v_minus_i, v_minus_r_to_v_minus_i};
static const char *NM[6] = {"v_minus_i_to_b_minus_v", "v_minus_i_to_v_minus_r", "v_minus_r_to_b_minus_v", "b_minus_v_to_v_minus_r", "b_minus_v_to_v_minus_i", "v_minus_r_to_v_minus_i"};
static bool edge(double x, double a) { return fabs(x - a) < 1e-9; }
static void forward(double x, int w, double got, double tol) { if (edge(x, LO[w]) || edge(x, HI[w])) return; 
   if (x < LO[w] || x > HI[w]) { if (!(got > 98)) bad("out-of-range", "%s(%.9g) is outside the relation but gives %g", NM[w], x, got); count("refused"); return; }
   long double e = poly(w, x); if (!(fabsl(got - e) < tol)) bad(fmt("forward%d", w), "%s(%.12g) = %.12g, the published relation gives %.12Lg", NM[w], x, got, e); count("forward"); }
static void inverse(double y, int w, double got, double tol) { double a = (double)poly(w, LO[w]), b = (double)poly(w, HI[w]); if (fabs(y - a) < 1e-8 || fabs(y - b) < 1e-8) return;
   if (y < a || y > b) { if (!(got > 98)) bad("out-of-range", "%s(%.9g) is outside the relation but gives %g", NM[4 + w], y, got); count("refused"); return; }
   if (!(got >= LO[w] - 1e-9 && got <= HI[w] + 1e-9)) { bad(fmt("inverse%d", w), "%s(%.12g) = %.12g, not a colour of the relation", NM[4 + w], y, got); return; }
   long double d = 1e-4L, slope = fabsl(poly(w, got + d) - poly(w, got - d)) / (2 * d), z = poly(w, got); if (!(fabsl(z - y) < tol * (slope + .1L) + 1e-9L)) bad(fmt("inverse%d", w), "%s(%.12g) = %.12g, whose own index is %.12Lg", NM[4 + w], y, got, z); count("inverse"); }
/* the 0.85 (B-V)T relation of the Hipparcos guide, p 57 */
static double piece(const double (*t)[2], int n, double x) { for (int i = 1; i < n; i++) if (x <= t[i][0]) return t[i - 1][1] + (t[i][1] - t[i - 1][1]) * (x - t[i - 1][0]) / (t[i][0] - t[i - 1][0]); return t[n - 1][1]; }
static const double DBV[5][2] = {{-.2, -.006}, {.1, 0}, {.5, .046}, {1.4, -.008}, {1.8, -.032}}, DV[5][2] = {{-.2, .014}, {.1, 0}, {.5, -.005}, {1.4, -.005}, {1.8, -.015}};
static bool tbv(double x, double *e) { *e = .85 * x + piece(DBV, 5, x); return x >= -.2 && x <= 1.8; }
/* Bessell's table, cubic between the four rows around the colour */
static bool bessell(double x, double tol, const double *r, bool ok, const char *who) {
   if (edge(x, -.25) || edge(x, 2.)) return true; bool in = x > -.25 && x < 2; if (in != ok) { bad("bessell-range", "%s: (B-V)T = %.9g is %s but was %s", who, x, in ? "in the table" : "outside the table", ok ? "accepted" : "refused"); return false; } if (!in) { count("refused"); return true; }
   double u = (x + .25) / .05; int k = (int)floor(u) - 1; double best[3] = {1e9, 1e9, 1e9}; 
   for (int q = -1; q <= 1; q++) { int i0 = std::max(0, std::min(42, k + (fabs(u - rint(u)) < 1e-7 ? q : 0))); long double d = u - i0, c[4] = {(d - 1) * (d - 2) * (d - 3) / -6, d * (d - 2) * (d - 3) / 2, d * (d - 1) * (d - 3) / -2, d * (d - 1) * (d - 2) / 6};
      for (int j = 0; j < 3; j++) { long double s = 0; for (int m = 0; m < 4; m++) s += c[m] * BES[i0 + m][j]; double e = (double)(s / 1000) + (j == 1 ? x : 0); best[j] = std::min(best[j], fabs(e - r[j])); } }
   for (int j = 0; j < 3; j++) if (!(best[j] < tol)) { bad(fmt("bessell%d", j), "%s: (B-V)T = %.9g: %s = %.6f, off by %.2g", who, x, j == 0 ? "V-VT" : j == 1 ? "B-V" : "V-Hp", r[j], best[j]); return false; }
   count(fabs(u - rint(u)) < 1e-7 ? "rows" : "interpolated"); return true; }
static double pick() { int k = (int)rng.below(8); if (k < 5) return rng.uni(-.5, 4.5); if (k == 5) return rng.uni(-.3, 2.1); if (k == 6) return rng.range(-10, 90) * .05; return rng.chance(.5) ? rng.uni(-1, 1) * pow(10, rng.uni(0, 8)) : LO[rng.below(4)] + rng.uni(-1e-3, 1e-3); }
static void lib() { double x = pick(); cur("colour %.17g", x); seen(hdbl(x)); for (int w = 0; w < 4; w++) forward(x, w, FW[w](x), 1e-9 * (1 + fabs(x))); for (int w = 0; w < 2; w++) { double b = (double)poly(w, HI[w]), y = rng.chance(.5) ? x : rng.uni(-.25, b + .1); cur("index %.17g", y); inverse(y, w, INV[w](y), 3e-6); 
      double v = rng.uni(LO[w], HI[w]), i = FW[w](v), back = INV[w](i); long double sl = (poly(w, v + 1e-5L) - poly(w, v - 1e-5L)) / 2e-5L; if (fabsl(poly(w, back) - poly(w, v)) > 3e-6L * (fabsl(sl) + 1)) bad("round-trip", "%s(%s(%.9g)) = %.9g", NM[4 + w], NM[w], v, back); count("round_trips"); }
   double r[3] = {-7, -7, -7}; cur("Tycho colour %.17g", x); int rv = tycho_to_johnson_colors(x, r); if (rv != 0 && rv != -1) bad("bessell-rv", "%d", rv); bessell(x, 1e-9, r, !rv, "tycho_to_johnson_colors");
   double e; bool in = tbv(x, &e); if (!edge(x, -.2) && !edge(x, 1.8)) { double g = johnson_b_minus_v_from_tycho_b_minus_v(x), vt = rng.uni(-2, 14), h = johnson_v_from_tycho_b_minus_v(x, vt); if (!in) { if (g < 98 || h < 98) bad("out-of-range", "Tycho colour %.9g gives %g and %g", x, g, h); } else { if (!(fabs(g - e) < 1e-9)) bad("tycho-bv", "(B-V)T = %.9g: B-V = %.9g, not %.9g", x, g, e); double ev = vt - .09 * x + piece(DV, 5, x); if (!(fabs(h - ev) < 1e-9)) bad("tycho-v", "VT = %.6f, (B-V)T = %.9g: V = %.9g, not %.9g", vt, x, h, ev); count("tycho"); } } }
static void edges() { double r[3]; for (int i = 0; i < 46; i++) { double x = -.25 + .05 * i; if (i == 0) x = -.25; if (i == 45) x = 2; if (i == 0 || i == 45) { cur("Tycho colour %.17g", x); if (tycho_to_johnson_colors(x, r)) bad("bessell-range", "the table's own end %g is refused", x); else for (int j = 0; j < 3; j++) if (fabs(r[j] - BES[i][j] * .001 - (j == 1 ? x : 0)) > 1e-9) bad(fmt("bessell%d", j), "%g: %g", x, r[j]); } }
   double g = johnson_b_minus_v_from_tycho_b_minus_v(1.8), h = johnson_v_from_tycho_b_minus_v(1.8, 5.); cur("Tycho colour 1.8"); if (fabs(g - 1.498) > 1e-9) bad("tycho-bv", "(B-V)T = 1.8: B-V = %.9g, not 1.498", g); if (fabs(h - (5 - .162 - .015)) > 1e-9) bad("tycho-v", "(B-V)T = 1.8: V-VT %.9g", h - 5);
   if (!(tycho_to_johnson_colors(NAN, r))) bad("bessell-range", "a NaN colour is accepted"); 
   for (int w = 0; w < 2; w++) for (int k = 0; k < 2; k++) { double end = k ? HI[w] : LO[w], y = FW[w](end); cur("%s(%.17g)", NM[4 + w], y); double b = INV[w](y); if (fabs(b - end) > 1e-5) bad("inverse-end", "%s(%.9g) = %.9g, not %g", NM[4 + w], y, b, end); } }
static void progs() { double x = rng.chance(.8) ? rng.uni(-.3, 2.2) : pick(); string a = fmt("%.*f", (int)rng.range(0, 7), x), out; x = atof(a.c_str()); cur("colors %s", a.c_str()); seen(hstr(a));
   int rv = run({tools + "/colors", a}, &out); double v[6]; char n[6][40]; double in[6]; if (rv || sscanf(out.c_str(), "%39[a-z_]( %lf) = %lf %39[a-z_]( %lf) = %lf %39[a-z_]( %lf) = %lf %39[a-z_]( %lf) = %lf %39[a-z_]( %lf) = %lf %39[a-z_]( %lf) = %lf", n[0], in, v, n[1], in + 1, v + 1, n[2], in + 2, v + 2, n[3], in + 3, v + 3, n[4], in + 4, v + 4, n[5], in + 5, v + 5) != 18) { bad("colors-form", "%.500s", out.c_str()); return; }
   for (int i = 0; i < 6; i++) { int k = 0; while (k < 6 && strcmp(NM[k], n[i])) k++; if (k == 6 || fabs(in[i] - x) > 6e-7 + 1e-14 * fabs(x)) { bad("colors-form", "%.500s", out.c_str()); return; } if (k < 4) forward(x, k, v[i], 6e-7 * (1 + fabs(x))); else inverse(x, k - 4, v[i], 4e-6); } count("colors_runs");
   cur("colors2 %s", a.c_str()); rv = run({tools + "/colors2", a}, &out); double vv = 0, bv = 0, bo = 0, vh = 0; int g = sscanf(out.c_str(), "V-VT = %lf B-V = %lf B-V = %lf (from original formula) V-Hp = %lf", &vv, &bv, &bo, &vh); if (g != 4 && !out.empty()) { bad("colors2-form", "%.400s", out.c_str()); return; } double r[3] = {vv, bv, vh}; if (!bessell(x, 6e-5, r, g == 4, "colors2") || g != 4) return; 
   double e; bool t = tbv(x, &e); if (!edge(x, -.2) && !edge(x, 1.8) && (t ? fabs(bo - e) > 6e-5 : bo < 98)) bad("colors2-original", "(B-V)T = %.9g: original formula %.4f, not %.6f", x, bo, t ? e : 99.); count("colors2_runs"); sample("%s: V-VT %.4f B-V %.4f V-Hp %.4f", a.c_str(), vv, bv, vh); }
int main(int argc, char **argv) {
   init(argc, argv); edges(); long n = mode == "san" ? budget(2000, 20000) : budget(300000, 6000000); for (long i = 0; i < n; i++) lib(); n = mode == "san" ? budget(20, 200) : budget(1500, 20000); for (long i = 0; i < n; i++) progs();
   if (mode != "san") for (auto k : {"forward", "inverse", "round_trips", "refused", "tycho", "rows", "interpolated", "colors_runs", "colors2_runs"}) need(k, 50); return finish();
}
