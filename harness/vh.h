/* Common monitor runtime for the /verif drivers.
   A driver exercises the real library, records what it observed and reports
   every violated oracle through vh::bad().  All random choices come from
   --seed; work is bounded by case counts, never by time. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <array>

namespace vh {
static uint64_t seed = 1;
static int shard = 0, nshards = 1;
static bool thorough = false;
static std::string tier = "quick", outpath = "vh_out.json", repo = "/repo", workdir = ".", mode = "", tools = "";
static char *curbuf = NULL;
static char curfallback[4096];
static const size_t CURLEN = 4096;
static volatile unsigned long progress = 0;
static std::map<std::string, long> counters;
static std::unordered_set<uint64_t> hashes;
static std::vector<std::string> samples;
static std::map<std::string, int> vioseen;
static FILE *viofile = NULL;
static long evals = 0, nontrivial_total = 0;
static long nvio = 0;
static std::vector<std::pair<std::string, long>> required;

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t x = 1) : s(x) {}
   uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
   double uni() { return (double)(next() >> 11) * (1. / 9007199254740992.); }
   double uni(double a, double b) { return a + (b - a) * uni(); }
   bool chance(double p) { return uni() < p; }
   double logu(double a, double b) { return exp(uni(log(a), log(b))); }
   double normal() { double u = uni() + 1e-300, v = uni(); return sqrt(-2 * log(u)) * cos(2 * M_PI * v); }
   template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static Rng rng;

static inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static inline uint64_t hstr(const char *s, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; } return h; }
static inline uint64_t hstr(const std::string &s) { return hstr(s.data(), s.size()); }
static inline uint64_t hdbl(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }

/* Record a distinct, non-trivial case. */
static inline void seen(uint64_t h) { nontrivial_total++; if (hashes.size() < 300000) hashes.insert(h); }
static inline void count(const char *k, long n = 1) { counters[k] += n; }
static inline void need(const char *k, long n = 1) { required.push_back({k, n}); }

static inline void cur(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void cur(const char *fmt, ...) {
   va_list ap; va_start(ap, fmt);
   vsnprintf(curbuf ? curbuf : curfallback, CURLEN, fmt, ap);
   va_end(ap);
   progress++;
   evals++;
}
static inline std::string esc(const std::string &s) {
   std::string o;
   for (unsigned char c : s) {
      char b[10];
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
   }
   return o;
}
static inline void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void sample(const char *fmt, ...) {
   if (samples.size() >= 24) return;
   char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
   samples.push_back(b);
}
/* Report a violated oracle.  'key' identifies the kind of failure. */
static inline void bad(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static inline void bad(const std::string &key, const char *fmt, ...) {
   char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
   nvio++;
   int &n = vioseen[key];
   if (n++ < 3 && viofile) {
      fprintf(viofile, "{\"key\":\"%s\",\"detail\":\"%s\",\"case\":\"%s\"}\n", esc(key).c_str(), esc(b).c_str(), esc(curbuf ? curbuf : curfallback).c_str());
      fflush(viofile);
   }
}
static inline void on_prof(int) {
   static unsigned long last = (unsigned long)-1; static int same = 0;
   if (progress == last) same++; else { same = 0; last = progress; }
   if (same >= 30) { const char m[] = "VH-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }
}
static inline void init(int argc, char **argv) {
   for (int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed") seed = strtoull(v.c_str(), NULL, 10);
      else if (k == "--shard") { shard = atoi(v.c_str()); const char *p = strchr(v.c_str(), '/'); if (p) nshards = atoi(p + 1); }
      else if (k == "--tier") { tier = v; thorough = (v == "thorough"); }
      else if (k == "--out") outpath = v;
      else if (k == "--repo") repo = v;
      else if (k == "--work") workdir = v;
      else if (k == "--mode") mode = v;
      else if (k == "--tools") tools = v;
   }
   rng = Rng(mix(mix(0x1234567, seed), (uint64_t)shard * 7919 + 13));
   for (int i = 0; i < 4; i++) rng.next();
   viofile = fopen((outpath + ".vio").c_str(), "w");
   int fd = open((outpath + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
   if (fd >= 0 && !ftruncate(fd, CURLEN)) {
      void *p = mmap(NULL, CURLEN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) curbuf = (char *)p;
   }
   if (fd >= 0) close(fd);
   signal(SIGPROF, on_prof);
   struct itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
   setitimer(ITIMER_PROF, &tv, NULL);
}
/* how many cases of a quick-tier budget fall to this shard */
static inline long budget(long quick, long thor) { long n = thorough ? thor : quick; return n / nshards + (shard < n % nshards); }
static inline bool mine(long i) { return ((i % nshards) + nshards) % nshards == shard; }
static inline int finish() {
   FILE *f = fopen(outpath.c_str(), "w");
   if (!f) return 5;
   fprintf(f, "{\"evals\":%ld,\"nontrivial\":%ld,\"distinct\":%zu,\"nvio\":%ld,\n\"counters\":{", evals, nontrivial_total, hashes.size(), nvio);
   bool first = true;
   for (auto &c : counters) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
   fprintf(f, "},\n\"required\":{");
   first = true;
   for (auto &c : required) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
   fprintf(f, "},\n\"vio\":{");
   first = true;
   for (auto &c : vioseen) { fprintf(f, "%s\"%s\":%d", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
   fprintf(f, "},\n\"samples\":[");
   first = true;
   for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n", esc(s).c_str()); first = false; }
   fprintf(f, "]}\n");
   fclose(f);
   FILE *h = fopen((outpath + ".hash").c_str(), "wb");
   if (h) { for (uint64_t x : hashes) fwrite(&x, 8, 1, h); fclose(h); }
   if (viofile) fclose(viofile);
   return 0;
}
/* run a program (argv, no shell), stdout+stderr captured; returns exit status or -signal */
static inline int run(const std::vector<std::string> &av, std::string *out, const std::string &in = "", const std::vector<std::string> &env = {}) {
   static int serial = 0;
   std::string of = workdir + "/run.out", inf = workdir + "/run.in";
   serial++;
   FILE *fi = fopen(inf.c_str(), "wb"); if (fi) { fwrite(in.data(), 1, in.size(), fi); fclose(fi); }
   pid_t p = fork();
   if (!p) {
      struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL);
      int fo = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), fd = open(inf.c_str(), O_RDONLY);
      dup2(fd, 0); dup2(fo, 1); dup2(fo, 2);
      if (chdir(workdir.c_str())) _exit(126);
      for (auto &e : env) putenv(strdup(e.c_str()));
      std::vector<char *> a; for (auto &s : av) a.push_back((char *)s.c_str()); a.push_back(NULL);
      alarm(60);
      execv(a[0], a.data()); _exit(127);
   }
   int st = 0; waitpid(p, &st, 0);
   if (out) { out->clear(); FILE *f = fopen(of.c_str(), "rb"); if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) out->append(b, n); fclose(f); } }
   return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
} // namespace vh
#endif
