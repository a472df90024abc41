/* P29: bounded string operations. */
#include "vh_trap.h"
#include "stringex.h"
int snprintf_append_trunc(char *string, const size_t max_len, const char *format, ...);
using namespace vh;
static std::string rs(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)rng.range(1, 255); return s; }
/* exact-size destination so that the sanitizer sees any byte outside; guards catch it in the plain build too */
struct Buf { char *m; size_t n; Buf(size_t k) : n(k) { m = (char *)malloc(k + 16); memset(m, 0x5A, k + 16); }
   bool intact() { for (size_t i = n; i < n + 16; i++) if (m[i] != 0x5A) return false; return true; } ~Buf() { free(m); } };
static long stops = 0;
static void one() {
   size_t L = rng.chance(.1) ? 0 : rng.chance(.7) ? rng.below(20) : rng.below(300), S = rng.chance(.2) ? 0 : rng.chance(.5) ? L + rng.below(5) : rng.below(40); if (rng.chance(.2)) S = L ? L - 1 : 0;
   std::string src = rs(S); int op = (int)rng.below(8); bool exact = rng.chance(.5);
   size_t I = L ? rng.below(L) : 0; std::string ini = rs(I); bool full = op == 1 && L && rng.chance(.1);
   char *hs = strdup(src.c_str());
   Buf b(L ? L : 1); char *raw = NULL; char *dst = b.m; if (exact) { raw = (char *)malloc(L); memset(raw, 0x5A, L); dst = raw; }
   auto done = [&]() { free(hs); free(raw); };
   cur("op %d size %zu source length %zu initial %zu%s", op, L, S, I, full ? " unterminated" : "");
   if (op == 0) {                                                /* strlcpy */
      size_t r = strlcpy(dst, hs, L); if (r != S) bad("strlcpy-return", "%zu, source has %zu", r, S);
      if (L) { std::string e = src.substr(0, std::min(S, L - 1)); if (e != std::string(dst, strnlen(dst, L)) || strnlen(dst, L) == L) bad("strlcpy-result", "wrong or unterminated text"); }
      else if (!exact && dst[0] != 0x5A) bad("strlcpy-zero", "wrote to a buffer of size zero");
      count("strlcpy");
   } else if (op == 1) {                                         /* strlcat */
      if (!L) { size_t r = strlcat(dst, hs, 0); if (r != S || (!exact && dst[0] != 0x5A)) bad("strlcat-zero", "returned %zu", r); done(); return; }
      if (full) { memset(dst, 'f', L); size_t r = strlcat(dst, hs, L); if (r != L + S) bad("strlcat-unterminated", "returned %zu, expected %zu", r, L + S); for (size_t i = 0; i < L; i++) if (dst[i] != 'f') { bad("strlcat-unterminated", "changed a full buffer"); break; } }
      else { memcpy(dst, ini.c_str(), I + 1); size_t r = strlcat(dst, hs, L); if (r != I + S) bad("strlcat-return", "%zu, expected %zu", r, I + S); std::string e = (ini + src).substr(0, L - 1); if (strnlen(dst, L) == L || e != dst) bad("strlcat-result", "wrong or unterminated text"); }
      count("strlcat");
   } else if (op == 2 || op == 3) {                              /* checked copies */
      bool cat = op == 3; if (cat && L) memcpy(dst, ini.c_str(), I + 1); size_t tot = S + (cat ? I : 0); bool fits = tot < L;
      if (!fits && ++stops > 1500) { done(); return; }
      size_t r = 0; bool ok = GUARDED(r = cat ? strlcat_err(dst, hs, L) : strlcpy_err(dst, hs, L));
      if (ok != fits) bad(fits ? "checked-false-stop" : "checked-truncation", "%s %s", cat ? "strlcat_err" : "strlcpy_err", ok ? "carried on" : trap_what.c_str());
      if (ok && fits && (r != tot || (cat ? ini + src : src) != dst)) bad("checked-result", "returned %zu", r);
      count(fits ? "checked copies that fit" : "checked copies that stop");
   } else {                                                      /* formatted */
      if (!L) { done(); return; }
      int v = (int)rng.range(-99999, 99999); double d = rng.uni(-1000, 1000); std::string text; int form = (int)rng.below(4);
      std::string plain; for (size_t i = 0; i < S; i++) plain += (char)('a' + rng.below(26));
      char big[900]; switch (form) { case 0: snprintf(big, sizeof big, "%s", plain.c_str()); break; case 1: snprintf(big, sizeof big, "%d/%s", v, plain.c_str()); break; case 2: snprintf(big, sizeof big, "%.3f %d", d, v); break; default: snprintf(big, sizeof big, "%s%5d%%", plain.c_str(), v); }
      text = big; bool app = op >= 5, trunc = op >= 6; if (app) { for (auto &c : ini) if (!isprint((unsigned char)c)) c = '.'; memcpy(dst, ini.c_str(), I + 1); } else I = 0;
      if (trunc && rng.chance(.03)) { }
      bool fits = I + text.size() < L; if (!fits && !trunc && ++stops > 1500) { done(); return; }
      int r = 0; const char *p = plain.c_str();
#define CALL(F) switch (form) { case 0: r = F(dst, L, "%s", p); break; case 1: r = F(dst, L, "%d/%s", v, p); break; case 2: r = F(dst, L, "%.3f %d", d, v); break; default: r = F(dst, L, "%s%5d%%", p, v); }
      bool ok = GUARDED(if (trunc) { CALL(snprintf_append_trunc) } else if (app) { CALL(snprintf_append) } else { CALL(snprintf_err) });
      if (!trunc && ok != fits) bad(fits ? "format-false-stop" : "format-truncation", "%s", ok ? "carried on" : trap_what.c_str());
      if (trunc && !ok) bad("trunc-stop", "%s", trap_what.c_str());
      if (ok) { std::string e = (app ? ini : std::string()) + text; if (r != (int)e.size()) bad("format-return", "%d, full length is %zu", r, e.size()); if (strnlen(dst, L) == L || e.substr(0, L - 1) != dst) bad("format-result", "'%s', expected '%s'", strnlen(dst, L) == L ? "(unterminated)" : dst, e.substr(0, L - 1).c_str()); }
      count(trunc ? "append, truncating" : app ? (fits ? "append that fits" : "append that stops") : fits ? "format that fits" : "format that stops");
   }
   if (!b.intact()) bad("overrun", "bytes past the destination changed");
   seen(mix(mix(op, L), mix(S, I))); if (evals % 20011 == 1) sample("op %d size %zu source %zu initial %zu", op, L, S, I);
   done();
}
int main(int argc, char **argv) {
   init(argc, argv);
   /* every small combination of sizes for the four copying functions */
   for (size_t L = 0; L <= 12; L++) for (size_t S = 0; S <= 14; S++) for (size_t I = 0; I < (L ? L : 1); I++) {
      if (!mine((long)(L * 200 + S * 13 + I))) continue;
      std::string s(S, 's'), i(I, 'i'); cur("sizes %zu %zu %zu", L, S, I); char *d = (char *)malloc(L ? L : 1); if (L) strcpy(d, i.c_str()); else d[0] = 'x';
      size_t r = strlcat(d, s.c_str(), L); if (r != (L ? I : 0) + S) bad("strlcat-return", "%zu", r); if (L && (i + s).substr(0, L - 1) != d) bad("strlcat-result", "'%s'", d);
      if (!L && d[0] != 'x') bad("strlcat-zero", "wrote"); r = strlcpy(d, s.c_str(), L); if (r != S) bad("strlcpy-return", "%zu", r); if (L && s.substr(0, L - 1) != d) bad("strlcpy-result", "'%s'", d); free(d); count("small sizes");
   }
   for (long k = 0, m = budget(600000, 15000000); k < m; k++) one();
   for (auto s : {"strlcpy", "strlcat", "checked copies that fit", "checked copies that stop", "append, truncating", "append that fits", "append that stops", "format that fits", "format that stops"}) need(s, 100);
   return finish();
}
