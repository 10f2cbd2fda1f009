// Shared harness: deterministic cases, event/violation log, case loop.
#ifndef VERIF_H_H_
#define VERIF_H_H_
#include <fcntl.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed)) {}
  uint64_t Next() { s += 0x9e3779b97f4a7c15ull; return Mix(s); }
  // inclusive
  int Int(int a, int b) {
    return a + static_cast<int>(Next() % static_cast<uint64_t>((int64_t)b - a + 1));
  }
  bool P(double p) { return Uni() < p; }
  double Uni() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Uni(double a, double b) { return a + (b - a) * Uni(); }
  double Gauss() {
    double u = Uni(), v = Uni();
    if (u < 1e-300) u = 1e-300;
    return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
  }
  // log-uniform integer in [a, b]
  int LogInt(int a, int b) {
    double x = exp(Uni(log((double)a), log((double)b + 1)));
    int r = (int)x; return r < a ? a : r > b ? b : r;
  }
  template <class T> const T &Pick(const std::vector<T> &v) {
    return v[Next() % v.size()];
  }
  template <class T> void Shuffle(std::vector<T> *v) {
    for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[Next() % i]);
  }
};

inline long OpenFiles() { long n = 0; for (int i = 0; i < 1024; ++i) n += fcntl(i, F_GETFD) != -1; return n; }

struct Ctx {
  std::string prop, mode, tmp, flavor;
  bool thorough;
  uint64_t seed;
  int fd;
  long cur;
  std::map<std::string, long long> counters;
  int samples_left;
  uint64_t sig;
  bool nontrivial;
  long violations;

  void Raw(const std::string &s) {
    size_t off = 0;
    while (off < s.size()) {
      ssize_t n = write(fd, s.data() + off, s.size() - off);
      if (n <= 0) _exit(97);
      off += n;
    }
  }
  static std::string Clean(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size() && r.size() < 4000; ++i) {
      unsigned char c = s[i];
      if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
      else r += c;
    }
    return r;
  }
  // key: stable short identifier of what failed
  void Violation(const std::string &key, const char *fmt, ...)
      __attribute__((format(printf, 3, 4))) {
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    ++violations;
    Raw("V " + std::to_string(cur) + " " + key + " " + Clean(buf) + "\n");
  }
  void Count(const std::string &k, long long n = 1) { counters[k] += n; }
  void Max(const std::string &k, long long n) {
    long long &c = counters["max_" + k]; if (n > c) c = n;
  }
  void Sample(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (samples_left <= 0) return;
    --samples_left;
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    Raw("S " + std::to_string(cur) + " " + Clean(buf) + "\n");
  }
  // Fold an observation into the case's signature.
  void Sig(uint64_t x) { sig = Mix(sig ^ x); }
  void SigD(double d) { uint64_t u; memcpy(&u, &d, 8); Sig(u); }
  void SigS(const std::string &s) { for (size_t i = 0; i < s.size(); ++i) Sig(s[i] + 1000); Sig(s.size()); }
  // every flavour explores its own cases
  Rng R(uint64_t salt = 0) const { return Rng(Mix(seed * 1000003ull + salt + (flavor.empty() ? 0 : 7000001ull * flavor[0])) ^ Mix((uint64_t)cur * 7919 + 13)); }
  std::string Path(const std::string &name) const { return tmp + "/" + name; }
};

inline void WriteFile(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); _exit(98); }
  if (data.size() && fwrite(data.data(), data.size(), 1, f) != 1) _exit(98);
  if (fclose(f) != 0) _exit(98);
}
inline std::string ReadFile(const std::string &path) {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return "";
  std::string s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
inline std::string Str(const char *fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}

typedef void (*CaseFn)(Ctx *);

// main loop: --from A --to B --step K ...
inline int Main(int argc, char **argv,
                const std::map<std::string, CaseFn> &modes) {
  Ctx c;
  c.thorough = false; c.seed = 1; c.samples_left = 2; c.violations = 0;
  c.fd = 1; long from = 0, to = 0, step = 1;
  std::string out;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--mode") c.mode = v;
    else if (a == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--from") from = atol(v.c_str());
    else if (a == "--to") to = atol(v.c_str());
    else if (a == "--step") step = atol(v.c_str());
    else if (a == "--tier") c.thorough = v == "thorough";
    else if (a == "--out") out = v;
    else if (a == "--tmp") c.tmp = v;
    else if (a == "--prop") c.prop = v;
    else if (a == "--flavor") c.flavor = v;
  }
  c.fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (c.fd < 0) { perror("out"); return 98; }
  std::map<std::string, CaseFn>::const_iterator it = modes.find(c.mode);
  if (it == modes.end()) { fprintf(stderr, "no mode %s\n", c.mode.c_str()); return 98; }
  for (long i = from; i < to; i += step) {
    c.cur = i; c.sig = 0; c.nontrivial = false;
    c.Raw("B " + std::to_string(i) + "\n");
    it->second(&c);
    char b[96];
    snprintf(b, sizeof b, "E %ld %016llx %d\n", i, (unsigned long long)c.sig, c.nontrivial ? 1 : 0);
    c.Raw(b);
    if (c.violations > 20) break;
  }
  for (std::map<std::string, long long>::iterator k = c.counters.begin(); k != c.counters.end(); ++k)
    c.Raw("C " + k->first + " " + std::to_string(k->second) + "\n");
  c.Raw("D\n");
  return 0;
}

// |a-b| <= abs + rel*max
inline bool Near(double a, double b, double rel, double abst) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return false;
  return fabs(a - b) <= abst + rel * std::max(fabs(a), fabs(b));
}

}  // namespace vf
#endif
