/* P13: variable-star designations. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
using namespace vh;
static std::vector<std::string> V;
int main(int argc, char **argv) {
   init(argc, argv);
   V.push_back("");
   for (char c = 'R'; c <= 'Z'; c++) V.push_back(std::string(1, c));
   for (char c = 'R'; c <= 'Z'; c++) for (char d = c; d <= 'Z'; d++) V.push_back(std::string(1, c) + d);
   for (char c = 'A'; c <= 'Q'; c++) if (c != 'J') for (char d = c; d <= 'Z'; d++) if (d != 'J') V.push_back(std::string(1, c) + d);
   for (int i = 335; i <= 9999; i++) V.push_back("V" + std::to_string(i));
   std::map<std::string, int> idx; for (size_t i = 1; i < V.size(); i++) idx[V[i]] = (int)i;
   long reps = thorough ? 40 : 2;
   for (long r = 0; r < reps; r++) for (size_t i = 1; i < V.size(); i++) if (mine((long)i)) {
      cur("variable number %zu", i);
      char b[24]; memset(b, '#', sizeof b); make_var_desig(b + 4, (int)i);
      if (strncmp(b, "####", 4)) bad("outside", "byte before the buffer changed");
      for (size_t k = 4 + strnlen(b + 4, 19) + 1; k < 24; k++) if (b[k] != '#') { bad("outside", "wrote past the designation"); break; }
      if (V[i] != b + 4) bad("make", "number %zu is '%.16s', expected '%s'", i, b + 4, V[i].c_str());
      std::string s = V[i]; if (rng.chance(.3)) for (auto &c : s) c = (char)tolower(c);
      bool onelow = s.size() == 1 && islower((unsigned char)s[0]);
      if (onelow && s[0] == 'u') s = "U";           /* lower-case u is a Bayer letter */
      if (rng.chance(.3)) s += rng.chance(.5) ? " Sgr" : "  ";
      cur("designation '%s'", s.c_str()); char *h = strdup(s.c_str()); int n = decipher_var_desig(h); free(h);
      if (n != (int)i) bad("decipher", "'%s' is number %d, expected %zu", s.c_str(), n, i);
      count(i < 10 ? "one letter" : i < 335 ? "two letters" : "numbers"); seen(hstr(s)); if (evals % 2003 == 1) sample("%zu <-> '%s'", i, b + 4);
   }
   /* all one- and two-byte texts */
   if (shard == 0) {
      std::map<int, std::string> back;
      for (int a = 1; a < 256; a++) {
         if (a == ' ') continue;
         std::string s(1, (char)a); cur("text '%s'", esc(s).c_str()); int n = decipher_var_desig(s.c_str());
         std::string u(1, (char)(a < 128 ? toupper(a) : a)); int e = -1;
         if (a >= 'A' && a <= 'Q') e = 9201 + a - 'A';
         else if ((a >= 'a' && a <= 'q') || a == 'u') e = 9101 + a - 'a';
         else if (idx.count(u)) e = idx[u];
         if (n != e) bad("one-letter", "'%s' is %d, expected %d", esc(s).c_str(), n, e);
         for (int b = 1; b < 256; b++) {
            if (b == ' ') continue;
            std::string t = s + (char)b; cur("text '%s'", esc(t).c_str()); n = decipher_var_desig(t.c_str());
            std::string w; for (unsigned char c : t) w += (char)(c < 128 ? toupper(c) : c);
            e = idx.count(w) ? idx[w] : -1;
            if (n != e) bad("two-letter", "'%s' is %d, expected %d", esc(t).c_str(), n, e);
            count("two-byte texts"); seen(hstr(t));
         }
      }
      cur("empty text"); if (decipher_var_desig("") != -1) bad("empty", "accepted");
   }
   for (long k = 0, m = budget(50000, 1000000); k < m; k++) {
      std::string s; for (int i = (int)rng.range(3, 8); i > 0; i--) s += "ABCRSTUXYZabc123"[rng.below(16)];
      cur("text '%s'", s.c_str()); int n = decipher_var_desig(s.c_str()); if (n > 0) bad("long-text", "'%s' accepted as %d", s.c_str(), n); count("long texts"); seen(hstr(s));
   }
   need("one letter", 2); need("two letters", 100); need("numbers", 1000); need("two-byte texts", 64000); need("long texts", 100);
   return finish();
}
