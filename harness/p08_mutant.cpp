/* P08: base-62 codes and catalogue codes. */
#include "vh.h"
extern "C" {
int mutant_hex_char_to_int(const char c);
char int_to_mutant_hex_char(const int ival);
int get_mutant_hex_value(const char *buff, size_t n_digits);
int encode_value_in_mutant_hex(char *buff, size_t n_digits, int value);
char net_name_to_byte_code(const char *net_name);
const char *byte_code_to_net_name(const char byte_code);
}
using namespace vh;
static const char *B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static long p62(int n) { long r = 1; while (n--) r *= 62; return r; }
static void val(int n, long v) {
   cur("encode %ld in %d digits", v, n);
   char b[16]; memset(b, '#', sizeof b);
   int left = encode_value_in_mutant_hex(b + 4, n, (int)v);
   for (int i = 0; i < 16; i++) if ((i < 4 || i >= 4 + n) && b[i] != '#') { bad("outside", "byte %d outside the field changed", i - 4); break; }
   char w[8]; long t = v; for (int i = n - 1; i >= 0; i--) w[i] = B62[t % 62], t /= 62;
   if (memcmp(b + 4, w, n)) bad("encode", "encoded as '%.*s', expected '%.*s'", n, b + 4, n, w);
   if ((v < p62(n)) != (left == 0)) bad("overflow-flag", "remainder %d", left);
   if (v < p62(n)) {
      int g = get_mutant_hex_value(w, n);
      if (g != v) bad("decode", "'%.*s' decoded as %d", n, w, g);
      if (n == 1) { if (int_to_mutant_hex_char((int)v) != w[0] || mutant_hex_char_to_int(w[0]) != v) bad("char", "single-character code disagrees"); }
      /* a foreign character anywhere is refused */
      int pos = (int)rng.below(n); char x = (char)rng.range(1, 255);
      char w2[8]; memcpy(w2, w, n); w2[pos] = x;
      bool ok = strchr(B62, x) != NULL;
      int g2 = get_mutant_hex_value(w2, n);
      if (!ok && g2 != -1) bad("refuse", "code with byte 0x%02x at %d decoded as %d", (unsigned char)x, pos, g2);
      if (ok) { long e = 0; for (int i = 0; i < n; i++) e = e * 62 + (strchr(B62, w2[i]) - B62); if (g2 != e) bad("decode", "'%.*s' decoded as %d expected %ld", n, w2, g2, e); }
      /* order: next value's code sorts after this one */
      if (v + 1 < p62(n)) { char c[8]; encode_value_in_mutant_hex(c, n, (int)v + 1); if (memcmp(c, b + 4, n) <= 0) bad("order", "code of %ld does not sort after %ld", v + 1, v); }
      count("values");
   } else count("overflows");
   seen(mix(n, v));
   if (evals % 20011 == 1) sample("%ld in %d digits: %.*s", v, n, n, b + 4);
}
static const char *nets[] = {"aUSNO-A1","bUSNO-SA1","cUSNO-A2","dUSNO-SA2","eUCAC-1","fTycho-1","gTycho-2","hGSC-1.0","iGSC-1.1","jGSC-1.2","kGSC-2.2","lACT","mGSC-ACT",
 "nSDSS-DR8","oUSNO-B1","pPPM","qUCAC-4","rUCAC-2","sUSNO-B2","tPPMXL","uUCAC-3","vNOMAD","wCMC-14","xHIP-2","yHIP-1","zGSC-?","AAC","BSAO 1984","CSAO","DAGK 3","EFK4","FACRS",
 "GLick Gaspra Catalogue","HIda93 Catalogue","IPerth 70","JCOSMOS/UKST Southern Sky Catalogue","KYale","L2MASS","MGSC-2.3","NSDSS-DR7","OSST-RC1","PMPOSC3","QCMC-15","RSST-RC4",
 "SURAT-1","TURAT-2","UGaia-DR1","VGaia-DR2","WGaia-DR3","XGaia-EDR3","YUCAC-5","ZATLAS-2"};
int main(int argc, char **argv) {
   init(argc, argv);
   if (shard == 0) {
      for (int c = 0; c < 256; c++) {
         cur("byte 0x%02x", c);
         const char *p = c ? strchr(B62, c) : NULL; int e = p ? (int)(p - B62) : -1;
         if (mutant_hex_char_to_int((char)c) != e) bad("char-decode", "0x%02x decoded as %d", c, mutant_hex_char_to_int((char)c));
      }
      for (int i = -1000; i < 2000; i++) {
         cur("value %d", i);
         char e = i >= 0 && i < 62 ? B62[i] : 0;
         if (int_to_mutant_hex_char(i) != e) bad("char-encode", "%d encoded as 0x%02x", i, (unsigned char)int_to_mutant_hex_char(i));
      }
      for (int c = 0; c < 256; c++) {
         cur("catalogue code 0x%02x", c);
         const char *n = byte_code_to_net_name((char)c), *e = NULL;
         for (auto x : nets) if ((unsigned char)x[0] == c) e = x + 1;
         if (!n != !e) bad("net-known", "code '%c' %s", c, n ? n : "unknown");
         else if (n && strcmp(n, e)) bad("net-name", "code '%c' is '%s', expected '%s'", c, n, e);
         if (n && net_name_to_byte_code(n) != c) bad("net-roundtrip", "'%s' maps to '%c'", n, net_name_to_byte_code(n));
         if (n) count("catalogues");
      }
      for (auto x : nets) for (auto y : nets) if (x != y && net_name_to_byte_code(x + 1) == net_name_to_byte_code(y + 1)) bad("net-clash", "%s / %s", x + 1, y + 1);
   }
   for (int n = 1; n <= 3; n++) for (long v = 0; v < p62(n) + 50; v++) if (mine(v)) val(n, v);
   for (long k = 0, m = budget(400000, 30000000); k < m; k++) {
      int n = (int)rng.range(3, 5); long top = n == 5 ? p62(5) : p62(n) + p62(n) / 3;
      long v = rng.chance(.1) ? p62(n) - 1 - rng.below(3) : rng.chance(.1) ? p62((int)rng.range(1, n - 1)) + rng.range(-2, 2) : (long)rng.below(top);
      if (v < 0) v = 0;
      val(n, v);
   }
   /* spelling variants of catalogue names: case, blanks, dashes, ".0", "DR" */
   for (long k = 0, m = budget(40000, 1000000); k < m; k++) {
      const char *x = nets[rng.below(sizeof nets / sizeof nets[0])];
      std::string s, b = x + 1;
      if (rng.chance(.2) && b.find("DR") == std::string::npos && b.size() > 3 && isdigit(b.back()) && b.compare(0, 4, "Gaia") == 0) continue;
      int up = (int)rng.below(3);
      for (size_t i = 0; i < b.size(); i++) {
         char c = b[i];
         if (c == '-' || c == ' ') { int q = (int)rng.below(3); if (q == 0) s += '-'; else if (q == 1) s += ' '; continue; }
         if ((c == 'D') && i + 1 < b.size() && b[i + 1] == 'R' && rng.chance(.4)) { i++; continue; }
         s += up == 0 ? c : up == 1 ? (char)toupper(c) : (char)tolower(c);
      }
      if (rng.chance(.2) && isdigit(s.back()) && b != "GSC-1.0") s += ".0";
      if (rng.chance(.1)) s += " ";
      cur("catalogue name '%s'", s.c_str());
      char g = net_name_to_byte_code(s.c_str());
      if (g != x[0]) bad("net-variant", "'%s' gives '%c', expected '%c' (%s)", s.c_str(), g, x[0], x + 1);
      /* and damaged names are unknown, never another catalogue silently */
      std::string t = s; t.insert(rng.below(t.size() + 1), 1, "qj#&"[rng.below(4)]);
      cur("catalogue name '%s'", t.c_str());
      if (net_name_to_byte_code(t.c_str()) != '?') bad("net-unknown", "'%s' gives '%c'", t.c_str(), net_name_to_byte_code(t.c_str()));
      count("catalogue variants"); seen(hstr(s));
   }
   need("catalogues", 50); need("catalogue variants", 100);
   return finish();
}
