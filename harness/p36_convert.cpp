/* P36: programs that rewrite observation and ephemeris data: one record out per record in, in order, same values.
   Every run is on generated data; what comes out is compared with what went in. */
#include "vh.h"
#include "calref.h"
using namespace vh;
typedef std::vector<std::string> SV;
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static SV lines(const std::string &s) { SV v; std::string c; for (char ch : s) if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; if (!c.empty()) v.push_back(c); return v; }
static void put(const std::string &n, const std::string &t) { FILE *f = fopen((workdir + "/" + n).c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static bool get(const std::string &n, std::string &t) { t.clear(); FILE *f = fopen((workdir + "/" + n).c_str(), "rb"); if (!f) return false; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); return true; }
static const char *mon3[12] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
static void ymd(long j, int *y, int *m, int *d) { calref::I yy; calref::to_dmy(6, j, d, m, &yy); *y = (int)yy; }
static std::string trim(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\r' || s.back() == '\n')) s.pop_back(); return s; }

/* ---- adestest: plain, -m (classic columns), -d, -c ---- */
struct O { long j; long ms; double ra, dec; bool sat, rover; double pos[3]; std::string stn, num, mag; bool com; };
static std::string num3(double v, int dec) { return fmt("%+.*f", dec, v); }
static void do_ades(long n) {
   need("ades-records", 500); need("ades-second-lines", 50); need("ades-classic", 300);
   for (long k = 0; k < n; k++) {
      std::vector<O> v; int cnt = 1 + (int)rng.below(12); bool xml = rng.chance(.5);
      for (int i = 0; i < cnt; i++) {
         O o; o.j = (long)rng.uni(2447892, 2466000); o.ms = rng.chance(.15) ? 86399999 - (long)rng.below(2) * 30 : (long)rng.below(86400000);
         o.ra = rng.chance(.1) ? 359.999999 : floor(rng.uni(0, 360e6)) / 1e6; o.dec = rng.chance(.1) ? -89.999999 : floor(rng.uni(-90e6, 90e6)) / 1e6; if (rng.chance(.1)) o.dec = -floor(rng.uni(0, 9e5)) / 1e6;
         o.sat = rng.chance(.2); o.rover = !o.sat && rng.chance(.15); for (int q = 0; q < 3; q++) o.pos[q] = floor(rng.uni(-9e9, 9e9)) / 1e4;
         if (o.rover) { o.pos[0] = floor(rng.uni(0, 359e4)) / 1e4; o.pos[1] = floor(rng.uni(-89e4, 89e4)) / 1e4; o.pos[2] = floor(rng.uni(0, 3000)); }
         o.stn = o.sat ? "C57" : o.rover ? "247" : rng.pick(SV{"703", "F51", "G96", "W84"}); o.num = fmt("%ld", (long)rng.below(90000) + 1); o.mag = fmt("%.1f", rng.uni(10, 25)); o.com = rng.chance(.5);
         v.push_back(o);
      }
      std::string t;
      if (xml) t = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ades version=\"2017\">\n<obsBlock>\n<obsData>\n"; else t = "# version=2017\npermID |mode|stn |sys    |ctr|pos1 |pos2 |pos3 |obsTime |ra |dec |rmsRA|rmsDec|astCat|mag|band\n";
      for (auto &o : v) {
         int y, m, d; ymd(o.j, &y, &m, &d); std::string tm = fmt("%04d-%02d-%02dT%02ld:%02ld:%02ld.%03ldZ", y, m, d, o.ms / 3600000, o.ms / 60000 % 60, o.ms / 1000 % 60, o.ms % 1000);
         std::string ra = fmt("%.6f", o.ra), de = fmt("%+.6f", o.dec), p[3], sys = o.sat ? "ICRF_KM" : "WGS84", ctr = "399", mode = "CCD";
         for (int q = 0; q < 3; q++) p[q] = o.sat ? num3(o.pos[q], 4) : q == 0 ? fmt("%.4f", o.pos[0]) : q == 1 ? num3(o.pos[1], 4) : fmt("%.0f", o.pos[2]);
         bool two = o.sat || o.rover;
         if (xml) {
            t += "<optical>\n<permID>" + o.num + "</permID>\n<mode>CCD</mode>\n<stn>" + o.stn + "</stn>\n";
            if (two) { t += "<sys>" + sys + "</sys>\n<ctr>399</ctr>\n"; for (int q = 0; q < 3; q++) t += fmt("<pos%d>", q + 1) + p[q] + fmt("</pos%d>\n", q + 1); }
            t += "<obsTime>" + tm + "</obsTime>\n<ra>" + ra + "</ra>\n<dec>" + de + "</dec>\n";
            if (o.com) t += "<rmsRA>0.1</rmsRA>\n<rmsDec>0.2</rmsDec>\n";
            t += "<astCat>Gaia2</astCat>\n<mag>" + o.mag + "</mag>\n<band>G</band>\n</optical>\n";
         } else {
            t += o.num + "|CCD|" + o.stn + "|"; if (two) t += sys + "|399|" + p[0] + "|" + p[1] + "|" + p[2] + "|"; else t += " | | | | |";
            t += tm + "|" + ra + "|" + de + "|" + (o.com ? "0.1|0.2|" : " | |") + "Gaia2|" + o.mag + "|G\n";
         }
      }
      if (xml) t += "</obsData>\n</obsBlock>\n</ades>\n";
      put("in.ades", t);
      std::string plain, classic, shown, nocom;
      cur("adestest %s, %d observations, %.60s", xml ? "XML" : "PSV", cnt, t.c_str() + (xml ? 110 : 130));
      int r1 = run({tools + "/adestest", "in.ades"}, &plain), r2 = run({tools + "/adestest", "in.ades", "-m"}, &classic), r3 = run({tools + "/adestest", "in.ades", "-d"}, &shown), r4 = run({tools + "/adestest", "in.ades", "-c"}, &nocom);
      if (r1 || r2 || r3 || r4) { bad("ades-run", "exit codes %d %d %d %d", r1, r2, r3, r4); continue; }
      SV P = lines(plain), C = lines(classic), D = lines(shown), N = lines(nocom);
      if (P.size() != C.size()) { bad("ades-lines", "%zu lines plain, %zu with -m", P.size(), C.size()); continue; }
      /* -c drops exactly the comment lines */
      { SV e; for (auto &l : P) if (l.compare(0, 4, "COM ")) e.push_back(l); if (e != N) bad("ades-nocom", "-c: %zu lines, %zu expected", N.size(), e.size()); }
      /* records in order */
      size_t at = 0; int dl = 0;
      for (size_t i = 0; i < P.size(); i++) {
         const std::string &p = P[i], &c = C[i];
         bool rec = p.size() >= 80 && p[15] >= 'I' && p[15] <= 'K' && p.compare(0, 4, "COM ");
         if (!rec) { if (p != c) bad("ades-other", "-m changed '%s' to '%s'", p.c_str(), c.c_str()); continue; }
         if (at / 2 >= v.size()) { bad("ades-extra", "more records than observations: '%s'", p.c_str()); break; }
         O &o = v[at / 2]; bool second = at & 1;
         if (!second && !(o.sat || o.rover)) at++;
         at++;
         if (c.size() != p.size() || c.compare(0, 15, p, 0, 15) || c.compare(second ? 32 : 56, std::string::npos, p, second ? 32 : 56, std::string::npos)) bad(second ? "ades-second" : "ades-kept", "-m changed columns it has no business with: '%s' became '%s'", p.c_str(), c.c_str());
         int y, m, d; ymd(o.j, &y, &m, &d); double frac = o.ms / 86400000., day; int py, pm; long rest;
         if (p.compare(77, 3, o.stn)) bad("ades-stn", "'%s' is not from %s", p.c_str(), o.stn.c_str());
         if (sscanf(c.substr(15, 17).c_str(), "%d %d %lf", &py, &pm, &day) != 3) { bad("ades-date", "'%s'", c.c_str()); continue; }
         long jj = calref::greg_jd(py, pm, 1) - 1; rest = (long)(jj - o.j); if ((double)rest + day - frac > 6e-7 || (double)rest + day - frac < -1.06e-6) bad("ades-date", "'%s' should be %d %02d %.6f", c.substr(15, 17).c_str(), y, m, d + frac);
         if (second) { count("ades-second-lines"); continue; }
         int h, mi, dd, dm; double s, ds; char sg;
         if (sscanf(c.substr(32, 12).c_str(), "%d %d %lf", &h, &mi, &s) != 3 || sscanf(c.substr(44, 12).c_str(), "%c%d %d %lf", &sg, &dd, &dm, &ds) != 4) { bad("ades-angle", "'%s'", c.c_str()); continue; }
         double e = fabs(h * 3600 + mi * 60 + s - o.ra * 240); if (e > 43200) e = fabs(e - 86400);
         if (e > .00052 || mi > 59 || s >= 60 || h > 23) bad("ades-ra", "RA '%s' is %.4f s off %.6f degrees", c.substr(32, 12).c_str(), e, o.ra);
         double v2 = (dd * 3600 + dm * 60 + ds) * (sg == '-' ? -1 : 1); if (fabs(v2 - o.dec * 3600) > .0052 || dm > 59 || ds >= 60 || (sg != '+' && sg != '-')) bad("ades-dec", "declination '%s' is not %.6f degrees", c.substr(44, 12).c_str(), o.dec);
         count("ades-classic");
      }
      if (at != 2 * v.size()) bad("ades-count", "%.1f records for %zu observations", at / 2., v.size());
      at = 0;
      for (size_t i = 0; i < D.size(); i++) { double mj, ra, de; if (sscanf(D[i].c_str(), "MJD %lf RA %lf dec %lf", &mj, &ra, &de) == 3) { if (at >= v.size()) { dl++; continue; } O &o = v[at++]; double em = (double)(o.j - 2400001) + o.ms / 86400000.;
         if (fabs(mj - em) > 2e-6 || fabs(ra - o.ra * M_PI / 180) > 1.1e-6 || fabs(de - o.dec * M_PI / 180) > 1.1e-6) bad("ades-show", "'%s', expected MJD %.6f RA %.6f dec %.6f", D[i].c_str(), em, o.ra * M_PI / 180, o.dec * M_PI / 180); } }
      if (at != v.size() || dl) bad("ades-show-count", "%zu + %d positions shown for %zu observations", at, dl, v.size());
      count("ades-records", cnt); seen(hstr(t)); if (k % 50 == 0) sample("adestest on %d observations, %zu lines", cnt, P.size());
   }
}
/* ---- csv2ades ---- */
static void do_csv(long n) {
   need("csv-records", 300); need("csv-mags", 50);
   static const char *col[] = {"solution_id","source_id","denomination","transit_id","observation_id","number_mp","epoch","epoch_err","epoch_utc","ra","dec","ra_error_systematic","dec_error_systematic","ra_dec_correlation_systematic","ra_error_random","dec_error_random","ra_dec_correlation_random","g_mag","g_flux","g_flux_error","x_gaia","y_gaia","z_gaia","vx_gaia","vy_gaia","vz_gaia","x_gaia_geocentric","y_gaia_geocentric","z_gaia_geocentric","vx_gaia_geocentric","vy_gaia_geocentric","vz_gaia_geocentric","position_angle_scan","astrometric_outcome_ccd"};
   put("gaia.hdr", "<?xml version='1.0' encoding='utf-8'?>\n<ades version='2022'>\n <obsData>\n*\n </obsData>\n</ades>\n");
   for (long k = 0; k < n; k++) {
      bool mags = rng.chance(.6); SV c; for (auto q : col) if (mags || strncmp(q, "g_", 2)) c.push_back(q);
      if (rng.chance(.5)) { size_t a = rng.below(c.size() - 20), b = 20 + rng.below(c.size() - 20); if (c[a] != "denomination" && b < c.size() - 1) { /* columns elsewhere, the rest in order */ std::string x = c[a]; if (x == "solution_id") x = ""; if (!x.empty() && x.size() > 8) { c.erase(c.begin() + a); c.insert(c.begin() + b - 1, x); } } }
      int base = 1 + (int)rng.below(600000), span = rng.chance(.5) ? 0 : (int)rng.below(25); std::map<int, SV> rows; SV expect[20]; int total = 0;
      std::string head; for (size_t i = 0; i < c.size(); i++) head += (i ? "," : "") + c[i];
      SV files(20); std::vector<std::vector<std::string>> exp(20);
      for (int f = 0; f < 20; f++) files[f] = "# Gaia\n" + head + "\n";
      int nrec = 1 + (int)rng.below(15);
      for (int q = 0; q < nrec; q++) {
         int num = base + (int)rng.below(span + 1); if (rng.chance(.2)) num = base + 20 * (int)rng.range(-3, 3); if (num < 1) num = base;
         int f = (num + 11) % 20; bool wanted = num >= base && num <= base + span;
         double epoch = floor(rng.uni(1500, 3500) * 1e9) / 1e9, ra = rng.uni(0, 360), dec = rng.uni(-90, 90), er = rng.logu(.01, 900), ed = rng.logu(.01, 900), cor = rng.chance(.3) ? rng.uni(-1, 1) * pow(10, -(double)rng.below(6)) : rng.uni(-1, 1), mag = rng.uni(8, 21.5), fl = rng.logu(100, 1e7), fe = fl * rng.uni(1e-3, .2), x[6];
         for (int i = 0; i < 6; i++) x[i] = i < 3 ? rng.uni(-.01, .01) : rng.uni(-.0002, .0002);
         bool hasmag = mags && rng.chance(.8); std::string line, rec; std::map<std::string, std::string> fv; auto g = [&](double z) { return rng.chance(.5) ? fmt("%.15g", z) : fmt("%.12E", z); };
         fv["number_mp"] = fmt("%d", num); fv["epoch_utc"] = fmt("%.9f", epoch); fv["ra"] = g(ra); fv["dec"] = g(dec); fv["ra_error_random"] = g(er); fv["dec_error_random"] = g(ed); fv["ra_dec_correlation_random"] = g(cor); std::string ms = fmt("%.6f", mag); fv["g_mag"] = hasmag ? ms : ""; fv["g_flux"] = hasmag ? fmt("%.4f", fl) : ""; fv["g_flux_error"] = hasmag ? fmt("%.5f", fe) : "";
         static const char *ax[6] = {"x_gaia_geocentric","y_gaia_geocentric","z_gaia_geocentric","vx_gaia_geocentric","vy_gaia_geocentric","vz_gaia_geocentric"}; for (int i = 0; i < 6; i++) fv[ax[i]] = fmt("%.15f", x[i]);
         for (size_t i = 0; i < c.size(); i++) { auto it = fv.find(c[i]); line += (i ? "," : "") + (it == fv.end() ? fmt("%ld", (long)rng.below(100000)) : it->second); }
         files[f] += line + "\n"; if (!wanted) continue;
         total++;
         char pk[800]; snprintf(pk, sizeof pk, "%d|%.12g|%.12g|%.12g|%.12g|%.12g|%.12g|%d|%s|%.12g|%.12g|%.12g|%.12g|%.12g|%.12g|%.12g", num, epoch, atof(fv["ra"].c_str()), atof(fv["dec"].c_str()), er, ed, cor, hasmag, hasmag ? ms.substr(0, 9).c_str() : "-", hasmag ? fe / fl : 0., x[0], x[1], x[2], x[3], x[4], x[5]);
         exp[f].push_back(pk); (void)rows; (void)expect;
      }
      for (int f = 0; f < 20; f++) { std::string nm = fmt("SsoObservation_%02d.csv", f); bool needed = false; for (int i = base; i <= base + span; i++) if ((i + 11) % 20 == f) needed = true; if (needed || rng.chance(.5)) put(nm, files[f]); else unlink((workdir + "/" + nm).c_str()); }
      std::string a = span || rng.chance(.3) ? fmt("%d,%d", base, base + span) : fmt("%d", base), o; cur("csv2ades %s, %d rows, %s magnitudes", a.c_str(), nrec, mags ? "with" : "without");
      int rc = run({tools + "/csv2ades", a}, &o); if (rc) { bad("csv-run", "exit %d: %.200s", rc, o.c_str()); continue; }
      SV got; size_t p = 0; while ((p = o.find("<optical>", p)) != std::string::npos) { size_t e = o.find("</optical>", p); if (e == std::string::npos) { bad("csv-xml", "unclosed record"); break; } got.push_back(o.substr(p, e - p)); p = e; }
      SV want; for (int f = 0; f < 20; f++) for (auto &w : exp[f]) want.push_back(w);
      if (o.find("<ades version='2022'>") == std::string::npos || o.find("</ades>") == std::string::npos || o.find("*") != std::string::npos) bad("csv-frame", "the header file's frame is not round the records");
      if ((int)got.size() != total) { bad("csv-count", "%zu records for %d rows wanted", got.size(), total); continue; }
      for (size_t i = 0; i < got.size(); i++) {
         auto el = [&](const char *t) -> std::string { std::string b = fmt("<%s>", t); size_t q = got[i].find(b); if (q == std::string::npos) return "?"; q += b.size(); return got[i].substr(q, got[i].find('<', q) - q); };
         int num, hm; double ep, ra, de, er, ed, co, ff, x[6]; char ms[20];
         if (sscanf(want[i].c_str(), "%d|%lf|%lf|%lf|%lf|%lf|%lf|%d|%19[^|]|%lf|%lf|%lf|%lf|%lf|%lf|%lf", &num, &ep, &ra, &de, &er, &ed, &co, &hm, ms, &ff, x, x + 1, x + 2, x + 3, x + 4, x + 5) != 16) { bad("csv-internal", "%s", want[i].c_str()); break; }
         if (atoi(el("permID").c_str()) != num) { bad("csv-order", "record %zu is of object %s, not %d", i, el("permID").c_str(), num); break; }
         if (fabs(atof(el("ra").c_str()) - ra) > 6e-10 * 1.2 || fabs(atof(el("dec").c_str()) - de) > 6e-10 * 1.2) bad("csv-radec", "%s %s, the row has %.12f %.12f", el("ra").c_str(), el("dec").c_str(), ra, de);
         if (fabs(atof(el("rmsRA").c_str()) - er / 1000) > 6e-6 || fabs(atof(el("rmsDec").c_str()) - ed / 1000) > 6e-6) bad("csv-rms", "uncertainties %s %s, the row has %.6f %.6f mas", el("rmsRA").c_str(), el("rmsDec").c_str(), er, ed);
         if (fabs(atof(el("rmsCorr").c_str()) - co) > 2e-7) bad("csv-corr", "correlation %s, the row has %.10g", el("rmsCorr").c_str(), co);
         for (int q = 0; q < 6; q++) { double g = atof(el(fmt(q < 3 ? "pos%d" : "vel%d", q % 3 + 1).c_str()).c_str()), w = q < 3 ? x[q] * 149597870.7 * (1 - 1.550519768e-8) : x[q] * 149597870.7 / 86400; if (fabs(g - w) > (q < 3 ? 6e-5 + fabs(w) * 1e-9 : 6e-11 + fabs(w) * 1e-9) + 1e-12 * 149597870.7 * (q < 3)) bad("csv-state", "component %d is %.6f, the row gives %.6f", q, g, w); }
         int y, m, d, h, mi; double s; if (sscanf(el("obsTime").c_str(), "%d-%d-%dT%d:%d:%lfZ", &y, &m, &d, &h, &mi, &s) != 6) bad("csv-time", "'%s'", el("obsTime").c_str());
         else { double t = (double)(calref::greg_jd(y, m, d) - 2455198) + (h * 3600 + mi * 60 + s) / 86400.; if (t - ep > 7.1e-9 || t - ep < -2e-8 || s >= 60 || mi > 59 || h > 23 || el("obsTime").size() != 24) bad("csv-time", "%s is %.9f days from 2010, the row has %.9f", el("obsTime").c_str(), t, ep); }
         bool gm = got[i].find("<mag>") != std::string::npos; if (gm != (bool)hm) bad("csv-mag", "magnitude %s, the row %s one", gm ? "given" : "missing", hm ? "has" : "lacks");
         if (gm && hm) { if (fabs(atof(el("mag").c_str()) - atof(ms)) > 1e-6 || el("band") != "G") bad("csv-mag", "magnitude %s, the row has %s", el("mag").c_str(), ms); if (fabs(atof(el("rmsMag").c_str()) - 1.0857 * ff) > 6e-4 + .001 * ff) bad("csv-rmsmag", "%s for a relative flux error of %.5f", el("rmsMag").c_str(), ff); count("csv-mags"); }
         if (el("stn") != "258" || el("ctr") != "399" || el("sys") != "ICRF_KM") bad("csv-site", "%s %s %s", el("stn").c_str(), el("sys").c_str(), el("ctr").c_str());
         count("csv-records");
      }
      seen(hstr(o)); if (k % 50 == 0) sample("csv2ades %s: %d records", a.c_str(), total);
   }
   for (int f = 0; f < 20; f++) unlink((workdir + fmt("/SsoObservation_%02d.csv", f)).c_str());
}
/* ---- them_cat ---- */
static void do_themcat(long n) {
   need("themcat", 30);
   for (long k = 0; k < n; k++) {
      int a = 54200 + (int)rng.below(3000), len = 3 + (int)rng.below(20), b = a + len, c = a + 1 + (int)rng.below(len), e = c + 2 + (int)rng.below(20);   /* old covers [a,b), new [c,e) */
      auto mk = [&](int lo, int hi, const char *tag) { std::string h = fmt("# Ephem range: %d.000000 %d.000000 1.000000\n# Ephemeris start: %s\n# source\n# Ephemeris end:   %s %d\n", lo, hi, tag, tag, hi), t; if (rng.chance(.5)) h = fmt("# %s made by eph2tle\n", tag) + h; for (int d = lo; d < hi; d++) t += fmt("# MJD %d.000000 = day\n%s %d\n1 30580U %s line one of %d\n2 30580 %s line two of %d\n", d, tag, d, tag, d, tag, d); return std::make_pair(h, t); };
      auto od = mk(a, b, "OLD"), nw = mk(c, e, "NEW"); std::string oldt = od.first + "# Last updated with a newer file called X, Mon Jan  1 00:00:00 2007\n" + od.second, newt = nw.first + nw.second;
      put("old.tle", oldt); put("new.tle", newt); cur("them_cat old [%d,%d) new [%d,%d)", a, b, c, e); std::string o, g; int rc = run({tools + "/them_cat", "old.tle", "new.tle"}, &o);
      if (rc) { bad("themcat-run", "exit %d: %.200s", rc, o.c_str()); continue; }
      if (!get("old.tle", g)) { bad("themcat-file", "the file is gone"); continue; }
      std::string kept; if (!get("new.tle", kept) || kept != newt) bad("themcat-new", "the new file was changed"); if (!access((workdir + "/ickywax.ugh").c_str(), F_OK)) bad("themcat-temp", "temporary file left behind");
      SV L = lines(g); size_t i = 0; double r0 = 0, r1 = 0; int day = a, stage = 0, ends = 0;
      for (i = 0; i < L.size(); i++) { int q; if (sscanf(L[i].c_str(), "# Ephem range: %lf %lf", &r0, &r1) == 2) stage |= 1; if (!L[i].compare(0, 16, "# Ephemeris end:")) { ends++; if (L[i] != fmt("# Ephemeris end:   NEW %d", e)) bad("themcat-end", "'%s'", L[i].c_str()); }
         if (sscanf(L[i].c_str(), "# MJD %d", &q) == 1) { const char *tag = day < c ? "OLD" : "NEW"; if (q != day) { bad("themcat-day", "day %d where %d was due", q, day); break; }
            if (i + 3 >= L.size() || L[i + 1] != fmt("%s %d", tag, day) || L[i + 2] != fmt("1 30580U %s line one of %d", tag, day) || L[i + 3] != fmt("2 30580 %s line two of %d", tag, day)) { bad("themcat-block", "the elements of day %d are not those of the %s file", day, tag); break; } i += 3; day++; } }
      if (day != e) bad("themcat-last", "ends at day %d, not %d", day, e); if (r0 != a || r1 != e) bad("themcat-range", "range given as %.1f to %.1f, is %d to %d", r0, r1, a, e); if (ends != 1) bad("themcat-end", "%d end lines", ends);
      count("themcat"); seen(mix(mix(a, len), mix(c, e)));
   }
   unlink((workdir + "/old.tle").c_str()); unlink((workdir + "/new.tle").c_str());
}
/* ---- themis and mms ---- */
static void do_themis(long n) {
   need("themis", 20); need("mms", 20);
   for (long k = 0; k < n; k++) {
      int ids[] = {30580, 30581, 30582, 30797, 30798}, w = (int)rng.below(5), days = 1 + (int)rng.below(3), freqs[] = {144, 60, 10, 720, 1440, 288, 1}, f = freqs[rng.below(7)]; long j0 = (long)rng.uni(2454200, 2461000); int st = (int)rng.below(1440);
      int y, m, d; SV data; std::string t = "CCSDS_OEM_VERS = 1.0\nOBJECT_NAME          = THEMIS\n" + fmt("OBJECT_ID            = %d\n", ids[w]);
      auto iso = [&](long j, int mn) { j += mn / 1440; mn %= 1440; ymd(j, &y, &m, &d); return fmt("%04d-%02d-%02dT%02d:%02d:00.000", y, m, d, mn / 60, mn % 60); };
      t += "START_TIME           = " + iso(j0, st) + "\nSTOP_TIME            = " + iso(j0, st + days * 1440) + "\nMETA_STOP\n\n";
      for (int i = 0; i <= days * 1440; i++) { std::string v; for (int q = 0; q < 6; q++) v += fmt(" %18.9f", rng.uni(-2e5, 2e5)); data.push_back(v); t += iso(j0, st + i) + v + "\n"; }
      put("themis.txt", t); cur("themis %d, %d days from %ld, every %d minutes", ids[w], days, j0, f);
      SV av = {tools + "/themis", "themis.txt"}; if (f != 144 || rng.chance(.5)) { if (rng.chance(.5)) av.push_back(fmt("-f%d", f)); else { av.push_back("-f"); av.push_back(fmt("%d", f)); } }
      bool of = rng.chance(.5); if (of) av.push_back("-othemis.out"); std::string o, g; int rc = run(av, &o); if (rc) { bad("themis-run", "exit %d: %.200s", rc, o.c_str()); continue; } if (of && !get("themis.out", o)) { bad("themis-file", "no output"); continue; }
      SV L = lines(o); double jd, step; int ns, nn = 0; char a1, a2; double start = (double)j0 - .5 + st / 1440.;
      if (L.empty() || sscanf(L[0].c_str(), "%lf %lf %d -1,149597870.7,86400 (500) Geocentric: NORAD %d = 2007-004%c = THEMIS %c", &jd, &step, &ns, &nn, &a1, &a2) != 6) { bad("themis-head", "'%s'", L.empty() ? "" : L[0].c_str()); continue; }
      if (fabs(jd - start) > 1e-6 || fabs(step - f / 1440.) > 1e-6 || nn != ids[w] || a1 != "ABCDE"[w] || a2 != "ABCDE"[w] || ns != days * 1440 / f) bad("themis-head", "'%s' for %d from %.6f, every %d minutes of %d days", L[0].c_str(), ids[w], start, f, days);
      size_t li = 1; for (int i = 0; i <= days * 1440; i += f, li++) { if (li >= L.size()) { bad("themis-rows", "stops after %zu rows", li - 1); break; } double q; int used; if (sscanf(L[li].c_str(), "%lf%n", &q, &used) != 1 || fabs(q - (start + i / 1440.)) > 1.01e-6) { bad("themis-time", "row '%.40s' should be at %.6f", L[li].c_str(), start + i / 1440.); break; } std::string v = trim(L[li].substr(used)); size_t z = v.find_first_not_of(' '); size_t z2 = data[i].find_first_not_of(' '); if (v.substr(z == std::string::npos ? 0 : z) != data[i].substr(z2)) { bad("themis-values", "row at minute %d is '%s', the input '%s'", i, v.c_str(), data[i].c_str()); break; } }
      if (li < L.size() && !L[li].empty()) bad("themis-rows", "unexpected '%s' after the last row", L[li].c_str());
      count("themis"); seen(hstr(t));
   }
   for (long k = 0; k < n; k++) {
      int num = 1 + (int)rng.below(4), rows = 80 + (int)rng.below(900), freqs[] = {72, 10, 720, 6, 1, 144}, f = freqs[rng.below(6)]; double t0 = floor(rng.uni(21000, 25000)) + rng.below(720) / 720.; SV data; std::string t = fmt("Spacecraft = MMS%d\nUTC   TAI\n", num);
      for (int i = 0; i < rows; i++) { double tai = t0 + i / 720.; std::string v; for (int q = 0; q < 7; q++) v += fmt(" %19.9f", rng.uni(-2e5, 2e5)); v = v.substr(0, 139) + ' '; long j = (long)floor(2436204.5 + tai + .5); int y, m, d; ymd(j, &y, &m, &d); double fr = 2436204.5 + tai + .5 - (double)j; int sec = (int)(fr * 86400); std::string l = fmt("%04d-%03d/%02d:%02d:%02d.000", y, (int)(j - calref::greg_jd(y, 1, 1) + 1), sec / 3600, sec / 60 % 60, sec % 60); l.resize(23, ' '); l += fmt("%20.12f", tai); l.resize(44, ' '); l += v; l.resize(190, ' '); data.push_back(v.substr(0, 140)); t += l + "\n"; }
      put("mms.txt", t); cur("mms %d, %d rows, every %d", num, rows, f); SV av = {tools + "/mms", "mms.txt"}; bool of = rng.chance(.5); if (of) av.push_back("mms.eph"); if (f != 72 || rng.chance(.5)) av.push_back(fmt("-f%d", f));
      std::string o; int rc = run(av, &o); if (rc) { bad("mms-run", "exit %d: %.200s", rc, o.c_str()); continue; } if (of && !get("mms.eph", o)) { bad("mms-file", "no output"); continue; }
      SV L = lines(o); double jd, step; int ns; char nm, a; if (L.empty() || sscanf(L[0].c_str(), "%lf %lf %d 0,149597870.7,86400 (500) Geocentric: MMS%c = 2015-011%c", &jd, &step, &ns, &nm, &a) != 5) { bad("mms-head", "'%s'", L.empty() ? "" : L[0].c_str()); continue; }
      double base = 2436204.5 + 32.184 / 86400; if (fabs(jd - base - t0) > 2e-6 || fabs(step - f / 720.) > 1e-6 || nm != '0' + num || a != "ABCD"[num - 1] || ns != rows / f) bad("mms-head", "'%s' for MMS%d from %.6f, %d rows by %d", L[0].c_str(), num, base + t0, rows, f);
      size_t li = 1; for (int i = 0; i < rows; i += f, li++) { if (li >= L.size()) { bad("mms-rows", "stops after %zu rows", li - 1); break; } double q; int used; if (sscanf(L[li].c_str(), "%lf%n", &q, &used) != 1 || fabs(q - base - t0 - i / 720.) > 2e-6 || used + 1 > (int)L[li].size() || trim(L[li].substr(used + 1)) != trim(data[i])) { bad("mms-rows", "row %d is '%s', the input '%s'", i, L[li].c_str(), data[i].c_str()); break; } }
      if (li < L.size() && !L[li].empty()) bad("mms-rows", "unexpected '%s' after the last row", L[li].c_str());
      count("mms"); seen(hstr(t));
   }
}
/* ---- jpl2b32 ---- */
static void do_b32(long n) {
   need("b32", 30);
   for (long k = 0; k < n; k++) {
      int id = 1 + (int)rng.below(9999), rows = 2 + (int)rng.below(200), step = 1 + (int)rng.below(10); long j0 = (long)rng.uni(2400001, 2480000); double sc = rng.logu(1e-4, 50); std::vector<double> v; std::string t = "Horizons\n$$SOE\n";
      for (int i = 0; i < rows; i++) { long j = j0 + (long)i * step; int y, m, d; ymd(j, &y, &m, &d); t += fmt("%ld.500000000 = A.D. %04d-%s-%02d 00:00:00.0000 (CT)\n", j - 1, y, mon3[m - 1], d); std::string l; for (int q = 0; q < 3; q++) { double x = rng.uni(-sc, sc); std::string s = fmt("%23.15E", x); v.push_back(atof(s.c_str())); l += s; } t += l + "\n"; if (rng.chance(.5)) t += "  1.2E-03  2.0E-04  3.0E-05\n"; }
      t += "$$EOE\n"; std::string nm = fmt("%d.txt", id), on = fmt("%d.b32", id), o, g; put(nm, t); cur("jpl2b32 %s, %d rows from %ld by %d", nm.c_str(), rows, j0, step); int rc = run({tools + "/jpl2b32", nm}, &o);
      unlink((workdir + "/" + nm).c_str()); if (rc || !get(on, g)) { bad("b32-run", "exit %d: %.200s", rc, o.c_str()); continue; } unlink((workdir + "/" + on).c_str());
      int hs, gi, ne, bits, zz; double gj, gs, gsc; long gn; if (g.size() < 128 || sscanf(g.c_str(), "%d %d %lf %lf %ld %d %lf %d %d", &hs, &gi, &gj, &gs, &gn, &ne, &gsc, &bits, &zz) != 9) { bad("b32-head", "'%.100s'", g.c_str()); continue; }
      double mx = 0; for (double x : v) mx = std::max(mx, fabs(x));
      if (hs != 128 || gi != id || gj != (double)j0 - .5 || gs != step || gn != rows || bits != 32 || fabs(gsc / (mx / 1.5e9) - 1) > 1e-5) bad("b32-head", "'%.100s' for body %d, %d rows from %.1f by %d, scale %g", g.c_str(), id, rows, (double)j0 - .5, step, mx / 1.5e9);
      if (g.size() < 128 + 12 * (size_t)rows) { bad("b32-size", "%zu bytes for %d rows", g.size(), rows); continue; }
      for (size_t i = 0; i < v.size(); i++) { int32_t q; memcpy(&q, &g[128 + 4 * i], 4); if (fabs((double)q - v[i] * 1.5e9 / mx) > 1.01) { bad("b32-value", "row %zu, coordinate %zu is %d units, the ephemeris has %.3f", i / 3, i % 3, q, v[i] * 1.5e9 / mx); break; } }
      if (g.compare(128 + 12 * rows, 35, "Ephemeris from JPL Horizons output\n")) bad("b32-tail", "the description does not follow the last row");
      count("b32"); seen(hstr(t));
   }
}
/* ---- xxx2rov ---- */
static void do_rov(long n) {
   need("rover-lines", 100);
   for (long k = 0; k < n; k++) {
      std::string t, e; SV want; double lat = 0, lon = 0, alt = 0; bool have = false;
      auto loc = [&]() { lat = floor(rng.uni(-89e5, 89e5)) / 1e5; lon = floor(rng.uni(0, 180e5)) / 1e5; alt = floor(rng.uni(0, 5000)); bool s = lat < 0, w = rng.chance(.5); std::string l = fmt("COM Long. %.5f %c, Lat. %.5f %c, Alt. %.0fm, unspecified\n", lon, w ? 'W' : 'E', fabs(lat), s ? 'S' : 'N', alt); t += l; want.push_back("=" + trim(l)); if (w) lon = 360 - lon; have = true; };
      int ln = 5 + (int)rng.below(20); t += "COD XXX\n"; want.push_back("=COD 247"); loc();
      for (int i = 0; i < ln; i++) {
         switch (rng.below(5)) {
         case 0: loc(); break;
         case 1: { std::string l = fmt("OBS Observer %ld", (long)rng.below(1000)); t += l + "\n"; want.push_back("=" + l); break; }
         case 2: { std::string l = fmt("     K%02dA%02dB  C2020 01 %02d.%05ld 12 34 56.78 -12 34 56.7          18.1 V      703", (int)rng.below(20), (int)rng.below(99), 1 + (int)rng.below(28), (long)rng.below(100000)); t += l + "\n"; want.push_back("=" + l); break; }
         default: { std::string l = fmt("     K%02dA%02dB  C2020 01 %02d.%05ld 12 34 56.78 -12 34 56.7          18.1 V      XXX", (int)rng.below(20), (int)rng.below(99), 1 + (int)rng.below(28), (long)rng.below(100000)); t += l + "\n"; std::string a = l; a[14] = 'V'; a.replace(77, 3, "247"); want.push_back("=" + a); std::string b = a.substr(0, 32); b[14] = 'v'; want.push_back(fmt("~%.5f %.5f %.0f|", lon, lat, alt) + b); break; }
         }
      }
      put("xxx.txt", t); cur("xxx2rov %d lines", ln + 2); std::string o; int rc = run({tools + "/xxx2rov", "xxx.txt"}, &o); if (rc) { bad("rov-run", "exit %d: %.200s", rc, o.c_str()); continue; }
      SV L = lines(o); if (L.size() != want.size()) { bad("rov-lines", "%zu lines, %zu expected", L.size(), want.size()); continue; }
      for (size_t i = 0; i < L.size(); i++) if (want[i][0] == '=') { if (trim(L[i]) != trim(want[i].substr(1))) { bad("rov-copy", "'%s' should be '%s'", L[i].c_str(), want[i].c_str() + 1); break; } count("copied"); }
         else { double x, y, z, gx, gy, gz; int used, u2 = 0; sscanf(want[i].c_str() + 1, "%lf %lf %lf|%n", &x, &y, &z, &used); std::string b = want[i].substr(1 + used); if (L[i].compare(0, 32, b) || L[i].size() != 80 || L[i].compare(77, 3, "247") || L[i][32] != '1' || sscanf(L[i].substr(33, 28).c_str(), "%lf %lf %lf%n", &gx, &gy, &gz, &u2) != 3 || fabs(gx - x) > 6e-6 || fabs(gy - y) > 6e-6 || fabs(gz - z) > .6) { bad("rov-second", "'%s' for %.5f %.5f %.0f", L[i].c_str(), x, y, z); break; } count("rover-lines"); }
      (void)have; (void)e; seen(hstr(t));
   }
}
int main(int argc, char **argv) {
   init(argc, argv);
   bool san = mode == "san";
   do_ades(san ? budget(160, 1600) : budget(1600, 16000)); do_csv(san ? budget(160, 1600) : budget(1600, 16000)); do_themcat(san ? budget(120, 1200) : budget(1200, 12000));
   do_themis(san ? budget(64, 400) : budget(320, 4000)); do_b32(san ? budget(120, 1200) : budget(1200, 12000)); do_rov(san ? budget(120, 1200) : budget(1200, 12000));
   return finish();
}
