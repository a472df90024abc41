/* P32: CGI form decoding.  Forms with known names and values are encoded (URL style or multipart) by an encoder written
   from RFC 3986 / RFC 7578, handed to cgi_func.cpp through the environment and stdin, and what comes back is compared
   byte for byte.  Damaged submissions must end within their length, in terminated text (AddressSanitizer watches). */
#include "vh.h"
#include "cgi_func.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#ifndef VH_MSAN
#include <sanitizer/allocator_interface.h>
#endif
typedef std::string S;
static S infile;
static void set_stdin(const S &s) { FILE *f = fopen(infile.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); if (!freopen(infile.c_str(), "rb", stdin)) abort(); }
struct Field { S name, value, filename; bool file = false; S ctype; };
static S rand_value(int maxlen, bool multi) {
   vh::Rng &R = vh::rng; S v; int n = (int)R.below((uint64_t)maxlen + 1); int mode = (int)R.below(5);
   while ((int)v.size() < n) {
      if (mode == 0) v += (char)('a' + R.below(26));
      else if (mode == 1) v += (char)(32 + R.below(95));
      else if (mode == 2) v += (char)(1 + R.below(255));
      else if (mode == 3) { static const char *w[] = {"+", "%", "&", "=", "%2", "%zz", "\r\n", "\n", "?", "#", ";", "--", "a b", "\"", "name=\"x\"", "Content-Type: x"}; v += w[R.below(16)]; }
      else { static const char *w[] = {"     K04J42X  C2004 05 10.12345 12 34 56.78 -12 34 56.7          18.1 V      704", "\r\n", "\n", "COM test"}; v += w[R.below(4)]; }
   }
   v.resize(n);
   if (multi) while (v.size() && (v.back() == '\n' || v.back() == '\r')) v.pop_back();   /* final line ends belong to the framing */
   return v;
}
static S urlenc(const S &s) {
   vh::Rng &R = vh::rng; S o; bool up = R.chance(.5); int style = (int)R.below(3);
   for (unsigned char c : s) {
      bool safe = isalnum(c) || strchr("-_.~", c) ? true : false; if (c > 126) safe = false;
      bool lax = !safe && c > 32 && c < 127 && !strchr("%&+=", c);
      if (c == ' ' && R.chance(.5)) o += '+';
      else if ((safe && !(style == 2 && R.chance(.3))) || (lax && style == 1)) o += (char)c;
      else { char b[4]; snprintf(b, sizeof b, (style == 2 ? R.chance(.5) : up) ? "%%%02X" : "%%%02x", c); o += b; }
   }
   return o;
}
static S rand_name(int maxlen) { S n; int k = 1 + (int)vh::rng.below((uint64_t)maxlen); while ((int)n.size() < k) { static const char cs[] = "abcXYZ019_-. []+%&="; n += cs[vh::rng.below(sizeof cs - 1)]; } return n; }
struct Cap { char *p; size_t n; Cap(size_t k) : p((char *)malloc(k)), n(k) { memset(p, 0x5a, k); } ~Cap() { free(p); } bool term() const { return memchr(p, 0, n) != NULL; } S str() const { return S(p); } };

static void check_field(const char *how, size_t i, const Field &w, const Cap &f, const Cap &d, size_t cap, int rc) {
   if (!f.term() || !d.term()) { vh::bad(S("unterminated:") + how, "field %zu: text not terminated within its buffer", i); return; }
   if (f.str() != w.name) vh::bad(S("name:") + how, "field %zu is called '%s', expected '%s'", i, vh::esc(f.str()).c_str(), vh::esc(w.name).c_str());
   S v = w.value; bool cut = v.size() > cap - 1; if (cut) v.resize(cap - 1);
   if (d.str() != v) vh::bad(S("value:") + how, "field '%s' has value '%s', expected '%s'", vh::esc(w.name).c_str(), vh::esc(d.str()).substr(0, 300).c_str(), vh::esc(v).substr(0, 300).c_str());
   (void)rc;
}
static void clear_env() { unsetenv("QUERY_STRING"); unsetenv("CONTENT_TYPE"); unsetenv("CONTENT_LENGTH"); }
static std::vector<Field> form(bool multi) {
   std::vector<Field> v; size_t n = vh::rng.below(7) + 1;
   for (size_t i = 0; i < n; i++) { Field f; f.name = rand_name(multi || vh::rng.chance(.8) ? 29 : 12); if (multi) for (char &c : f.name) if (c == '"') c = '_'; f.value = rand_value(vh::rng.chance(.7) ? 40 : 900, multi); v.push_back(f); }
   return v;
}
static S encode_url(const std::vector<Field> &v) { S s; for (auto &f : v) { if (s.size()) s += '&'; s += urlenc(f.name) + "=" + urlenc(f.value); } return s; }
/* a boundary that occurs at no line start of any value (but near misses of it may) */
static S encode_multi(std::vector<Field> &v, S &bline, const char *eol) {
   vh::Rng &R = vh::rng; S b = "--"; int dashes = (int)R.below(28); b += S(dashes, '-'); int k = 4 + (int)R.below(25); while (k--) b += "0123456789abcdefABCDEF"[R.below(22)];
   for (auto &f : v) {
      if (R.chance(.35)) {   /* boundary-like text inside the value */
         S near = b; switch (R.below(4)) { case 0: near.pop_back(); break; case 1: near = " " + b; break; case 2: near = "x" + b + "--"; break; case 3: near[near.size() - 1] = near.back() == 'q' ? 'r' : 'q'; break; }
         S add = (R.chance(.5) ? "\r\n" : "\n") + near; f.value += add + (R.chance(.5) ? "\nmore" : ""); }
      S chk = "\n" + f.value; if (chk.find("\n" + b) != S::npos) f.value = "plain";
      f.file = R.chance(.3); if (f.file) { f.filename = R.chance(.2) ? "" : rand_name(40); for (char &c : f.filename) if (c == '"') c = '_'; if (R.chance(.9)) f.ctype = R.chance(.5) ? "text/plain" : "application/octet-stream"; }
   }
   S s = b + eol;
   for (size_t i = 0; i < v.size(); i++) {
      s += "Content-Disposition: form-data; name=\"" + v[i].name + "\""; if (v[i].file) s += "; filename=\"" + v[i].filename + "\""; s += eol;
      if (v[i].ctype.size()) { s += "Content-Type: " + v[i].ctype + eol; if (R.chance(.1)) s += S("Content-Transfer-Encoding: binary") + eol; }
      s += eol; s += v[i].value + eol + b + (i + 1 == v.size() ? "--" : "") + eol;
   }
   bline = b; return s;
}
static void one_url() {
   vh::Rng &R = vh::rng; auto v = form(false); S enc = encode_url(v); vh::cur("url: %s", vh::esc(enc).c_str()); vh::seen(vh::hstr(enc));
   int how = (int)R.below(3); size_t cap = R.chance(.6) ? 1000 : 2 + R.below(60);
   if (how == 0) {   /* the piecewise function, with an exactly sized copy */
      char *in = (char *)malloc(enc.size() + 1); memcpy(in, enc.c_str(), enc.size() + 1); const char *p = in; size_t fc = 30; vh::count("URL forms, direct", 1);
      for (size_t i = 0; i < v.size(); i++) { Cap f(fc), d(cap); int rc = get_urlencoded_form_data(&p, f.p, fc, d.p, cap); bool cut = v[i].value.size() > cap - 1;
         if (rc != (cut ? 1 : 0)) { vh::bad("rc:url", "field %zu of %zu: return %d, expected %d", i, v.size(), rc, cut); break; }
         check_field("url", i, v[i], f, d, cap, rc); vh::count("fields checked", 1); if (cut) break;
         if (i + 1 == v.size()) { Cap f2(fc), d2(cap); rc = get_urlencoded_form_data(&p, f2.p, fc, d2.p, cap); if (rc != -1) vh::bad("end:url", "after the last field: return %d, expected -1", rc); if (p != in + enc.size()) vh::bad("end:url", "the text pointer ended %ld bytes from the end", (long)(in + enc.size() - p)); } }
      free(in);
   } else {
      clear_env(); int rc;
      if (how == 1) { setenv("QUERY_STRING", enc.c_str(), 1); if (R.chance(.3)) setenv("CONTENT_TYPE", "text/plain", 1); vh::count("URL forms, GET", 1); }
      else { if (R.chance(.3)) setenv("QUERY_STRING", "", 1); setenv("CONTENT_TYPE", R.chance(.5) ? "application/x-www-form-urlencoded" : "application/x-www-form-urlencoded; charset=UTF-8", 1); setenv("CONTENT_LENGTH", std::to_string(enc.size()).c_str(), 1); set_stdin(R.chance(.3) ? enc + "&junk=after+the+end" : enc); vh::count("URL forms, POST", 1); }
      rc = initialize_cgi_reading(); if (rc != how) vh::bad("init", "initialize_cgi_reading gave %d, expected %d", rc, how);
      for (size_t i = 0; rc > 0 && i < v.size(); i++) { Cap f(30), d(cap), fn(cap); bool wf = R.chance(.5); int r = get_cgi_data(f.p, d.p, wf ? fn.p : NULL, cap); bool cut = v[i].value.size() > cap - 1;
         if (r != (cut ? 1 : 0)) { vh::bad("rc:cgi-url", "field %zu: return %d, expected %d", i, r, cut); break; }
         if (wf && fn.p[0]) vh::bad("filename:url", "a file name for an URL-encoded field");
         check_field("cgi-url", i, v[i], f, d, cap, r); vh::count("fields checked", 1); if (cut) break;
         if (i + 1 == v.size()) { Cap f2(30), d2(cap); if (get_cgi_data(f2.p, d2.p, NULL, cap) == 0) vh::bad("end:cgi-url", "a field after the last one"); } }
      free_cgi_data();
   }
}
static void one_multi() {
   vh::Rng &R = vh::rng; auto v = form(true); S b; const char *eol = R.chance(.8) ? "\r\n" : "\n"; S enc = encode_multi(v, b, eol); vh::cur("multipart: %s", vh::esc(enc).c_str()); vh::seen(vh::hstr(enc));
   size_t cap = R.chance(.7) ? 6000 : 200 + R.below(300); bool direct = R.chance(.5); set_stdin(enc); int rc = 3; Cap bl(b.size() + 3);
   if (direct) { if (!fgets(bl.p, (int)bl.n, stdin)) abort(); vh::count("multipart forms, direct", 1); if (R.chance(.3)) bl.p[b.size()] = 0; }
   else { clear_env(); setenv("CONTENT_TYPE", ("multipart/form-data; boundary=" + b.substr(2)).c_str(), 1); setenv("CONTENT_LENGTH", std::to_string(enc.size()).c_str(), 1); rc = initialize_cgi_reading(); vh::count("multipart forms, POST", 1); if (rc != 3) vh::bad("init", "initialize_cgi_reading gave %d, expected 3", rc); }
   for (size_t i = 0; rc > 0 && i < v.size(); i++) { Cap f(30), d(cap), fn(cap); bool wf = R.chance(.6);
      int r = direct ? get_multipart_form_data(bl.p, f.p, d.p, wf ? fn.p : NULL, cap) : get_cgi_data(f.p, d.p, wf ? fn.p : NULL, cap);
      S tail = v[i].value + eol + b + "--" + eol; bool cut = tail.size() > cap - 1;   /* the caller's buffer has to take the boundary line, too */
      if (cut) { if (r < 0) vh::bad("rc:multipart", "field %zu, longer than the buffer: return %d", i, r); if (!f.term() || !d.term()) vh::bad("unterminated:multipart", "a truncated value is not terminated"); else if (tail.compare(0, d.str().size(), d.str())) vh::bad("value:multipart", "a truncated value is not a prefix of what was sent"); else if (d.str().size() + 80 < std::min(cap, v[i].value.size())) vh::bad("value:multipart", "a value of %zu bytes was cut to %zu in a buffer of %zu", v[i].value.size(), d.str().size(), cap); vh::count("values cut to the buffer", 1); break; }
      int want = direct ? (int)v[i].value.size() : 0;
      if (r != want) { vh::bad("rc:multipart", "field %zu: return %d, expected %d", i, r, want); break; }
      check_field("multipart", i, v[i], f, d, cap, r); vh::count("fields checked", 1);
      if (wf && S(fn.p) != v[i].filename) vh::bad("filename", "file name '%s', expected '%s'", vh::esc(fn.p).c_str(), vh::esc(v[i].filename).c_str());
      if (i + 1 == v.size()) { Cap f2(30), d2(cap); int r2 = direct ? get_multipart_form_data(bl.p, f2.p, d2.p, NULL, cap) : get_cgi_data(f2.p, d2.p, NULL, cap); if (r2 >= 0) vh::bad("end:multipart", "a field after the last one (return %d)", r2); } }
   if (!direct) free_cgi_data();
}
static S damage(S s) { vh::Rng &R = vh::rng; int n = 1 + (int)R.below(4); while (n--) switch (R.below(7)) {
   case 0: if (s.size()) s.resize(R.below(s.size() + 1)); break;
   case 1: if (s.size()) s[R.below(s.size())] = (char)R.below(256); break;
   case 2: { static const char *w[] = {"%", "%%", "%4", "&", "=", "\r\n", "\n", "name=\"", "\"", "filename=\"", "--", "\0", "&&", "==", "%0"}; s.insert(R.below(s.size() + 1), w[R.below(15)]); } break;
   case 3: if (s.size()) s.erase(R.below(s.size()), 1 + R.below(8)); break;
   case 4: s.insert(R.below(s.size() + 1), S(R.below(900), (char)('A' + R.below(26)))); break;
   case 5: if (s.size()) { size_t i = R.below(s.size()), k = 1 + R.below(std::min<size_t>(60, s.size() - i)); s.insert(R.below(s.size() + 1), s.substr(i, k)); } break;
   case 6: if (s.size()) { size_t k = R.below(s.size()); s.insert(k, S(1, '\0')); } break; }
   return s; }
static void hostile() {
   vh::Rng &R = vh::rng; bool multi = R.chance(.5); S b, enc; std::vector<Field> v = form(multi); if (multi) { enc = encode_multi(v, b, R.chance(.7) ? "\r\n" : "\n"); } else enc = encode_url(v);
   S bad = damage(enc); vh::cur("damaged %s: %s", multi ? "multipart" : "url", vh::esc(bad).c_str()); vh::seen(vh::hstr(bad)); size_t cap = R.chance(.5) ? 2 + R.below(40) : 1000; long lim = (long)bad.size() + 4, n = 0; int r; vh::count("damaged forms", 1);
   if (!multi && R.chance(.5)) { S z = bad.substr(0, bad.find('\0')); char *in = (char *)malloc(z.size() + 1); memcpy(in, z.c_str(), z.size() + 1); const char *p = in; size_t fc = R.chance(.5) ? 30 : 2 + R.below(10);
      do { Cap f(fc), d(cap); r = get_urlencoded_form_data(&p, f.p, fc, d.p, cap); if (p < in || p > in + z.size()) { vh::bad("pointer:url", "the text pointer left the text"); break; } if (r >= 0 && (!f.term() || !d.term())) vh::bad("unterminated:damaged-url", "text not terminated"); } while (r >= 0 && ++n < lim); free(in); }
   else {
      clear_env(); const char *types[] = {"application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "m", "", "text/plain", "multipart/form-data", "application/x-www-form-urlencode"};
      int t = R.chance(.8) ? multi : (int)R.below(7); if (!multi && R.chance(.3)) setenv("QUERY_STRING", bad.substr(0, bad.find('\0')).c_str(), 1); else { char *ty = strdup(types[t]); setenv("CONTENT_TYPE", ty, 1); free(ty); }
      const char *lens[] = {"0", "-5", "1", "7", "100000", "abc", "", "2147483647", "99999999999", "-2147483648"}; if (R.chance(.8)) setenv("CONTENT_LENGTH", R.chance(.8) ? std::to_string(bad.size()).c_str() : lens[R.below(10)], 1);
      set_stdin(bad); int rc = initialize_cgi_reading(); vh::count(rc > 0 ? "damaged forms accepted for reading" : "damaged forms refused at once", 1);
      if (rc > 0 || R.chance(.3)) do { Cap f(30), d(cap), fn(cap); r = get_cgi_data(f.p, d.p, R.chance(.5) ? fn.p : NULL, cap); if (r >= 0 && (!f.term() || !d.term())) vh::bad("unterminated:damaged-form", "text not terminated"); } while (r >= 0 && ++n < lim);
      else r = -1;
      if (rc <= 0 && r >= 0 && n) vh::bad("refused", "fields delivered although initialize_cgi_reading failed");
      free_cgi_data(); if (R.chance(.3)) free_cgi_data();
   }
   if (n >= lim) vh::bad("endless", "more fields than bytes: reading never ends");
}
static void runaway() {   /* a run-away process is stopped, with a message, soon after its allotted CPU time */
   for (int lim = 1; lim <= 1; lim++) {
      fflush(NULL); int fd[2]; if (pipe(fd)) return; pid_t pid = fork();
      if (!pid) { struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, NULL); signal(SIGPROF, SIG_IGN); dup2(fd[1], 1); close(fd[0]); struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &r); avoid_runaway_process(lim); getrlimit(RLIMIT_CPU, &r); if ((int)r.rlim_cur != lim) _exit(61); struct rusage u; do { for (volatile int k = 0; k < 1000000; k++); getrusage(RUSAGE_SELF, &u); } while (u.ru_utime.tv_sec + u.ru_stime.tv_sec < lim + 9); _exit(62); }
      close(fd[1]); S out; char b[500]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, (size_t)k); close(fd[0]); int st = 0; waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) vh::bad("runaway", "a process limited to %d s of CPU ended with status 0x%x", lim, st); else if (out.find("time") == S::npos) vh::bad("runaway", "no message from a process that ran out of time"); else vh::count("run-away processes stopped with a message", 1);
   }
}
int main(int argc, char **argv) {
   vh::init(argc, argv); infile = vh::workdir + "/stdin.txt";
   if (vh::shard == 0) runaway();
   long n = vh::budget(160000, 4000000);
   for (long i = 0; i < n; i++) switch (vh::rng.below(3)) { case 0: one_url(); break; case 1: one_multi(); break; default: hostile(); }
   /* nothing is lost over many submissions */
   size_t a[4]; auto save = vh::rng; for (int r = 0; r < 4; r++) { vh::rng = save; for (int i = 0; i < 400; i++) { switch (vh::rng.below(3)) { case 0: one_url(); break; case 1: one_multi(); break; default: hostile(); } } clear_env(); a[r] = __sanitizer_get_current_allocated_bytes(); }
   if (a[1] < a[2] && a[2] < a[3]) vh::bad("leak", "repeating 400 submissions keeps %zu bytes more each time", a[3] - a[2]);
   vh::count("submissions replayed for lost memory", 1600);
   vh::need("fields checked", 1000); vh::need("damaged forms", 500); vh::need("values cut to the buffer", 10);
   return vh::finish();
}
