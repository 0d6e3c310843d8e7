// Shared harness support: scenario loop with crash isolation, JSON events,
// deterministic pseudo-random numbers, quantisation and bit fingerprints.
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

namespace vh {
using json = nlohmann::json;

// ---------------------------------------------------------------- events
struct Out {
  FILE *f = nullptr;
  long  sid = 0;
  void ev(json e) {
    e["sid"] = sid;
    std::string s = e.dump();
    s.push_back('\n');
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
  }
};

// 64-bit splitmix: the concretisation of an abstract scenario is a pure
// function of its (family, size, seed)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return in(1, 100) <= pct; }
};

// ---------------------------------------------------------------- quantise
// TLC has 32-bit integers: a real v is observed as round(v * 2^20), saturated
// at +-2^29; NaN and infinities become the sentinel 2000000000.
static const int QBAD = 2000000000;
inline int q(long double v, int bits = 20) {
  if (!(v == v) || std::isinf((double)v)) return QBAD;
  const long double lim = 536870912.0L;
  long double       w   = v * (long double)(1ll << bits);
  if (w > lim) w = lim;
  if (w < -lim) w = -lim;
  return (int)std::llround(w);
}
template <class V>
struct Traits {
  static const bool cplx = false;
  typedef V real;
  static void push(json &a, const V &v, int bits = 20) { a.push_back(q(v, bits)); }
  static V mk(int re, int) { return V(re); }
  static V conj(const V &v) { return v; }
  static long double re(const V &v) { return v; }
  static long double im(const V &) { return 0; }
};
template <class R>
struct Traits<std::complex<R>> {
  static const bool cplx = true;
  typedef R real;
  static void push(json &a, const std::complex<R> &v, int bits = 20) {
    a.push_back(q(v.real(), bits));
    a.push_back(q(v.imag(), bits));
  }
  static std::complex<R> mk(int re, int im) { return std::complex<R>(re, im); }
  static std::complex<R> conj(const std::complex<R> &v) { return std::conj(v); }
  static long double re(const std::complex<R> &v) { return v.real(); }
  static long double im(const std::complex<R> &v) { return v.imag(); }
};
template <class Vec>
json qvec(const Vec &v, size_t n, int bits = 20) {
  json a = json::array();
  for (size_t i = 0; i < n; ++i)
    Traits<typename std::decay<decltype(v[i])>::type>::push(a, v[i], bits);
  return a;
}
template <class Vec>
json ivec(const Vec &v, size_t n) {
  json a = json::array();
  for (size_t i = 0; i < n; ++i) a.push_back((long long)v[i]);
  return a;
}

// bit fingerprint of raw memory (equality of observed bit patterns)
inline std::string bits(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  char buf[40];
  snprintf(buf, sizeof buf, "%016llx:%zu", (unsigned long long)h, n);
  return buf;
}
// fingerprint of a numeric vector by value: -0 and +0 coincide, every NaN is one
template <class V>
std::string fpv(const V *p, size_t n) {
  std::vector<typename Traits<V>::real> w;
  w.reserve(2 * n);
  auto norm = [](typename Traits<V>::real r) {
    if (!(r == r)) return std::numeric_limits<typename Traits<V>::real>::quiet_NaN();
    return r == 0 ? (typename Traits<V>::real)0 : r;
  };
  for (size_t i = 0; i < n; ++i) {
    w.push_back(norm((typename Traits<V>::real)Traits<V>::re(p[i])));
    if (Traits<V>::cplx) w.push_back(norm((typename Traits<V>::real)Traits<V>::im(p[i])));
  }
  return bits(w.data(), w.size() * sizeof(w[0]));
}
template <class Arr>
std::string fpa(const Arr &a) { return fpv(a.data(), a.size()); }

// the library's exceptions carry a stack trace: keep the message only
inline std::string what(const std::exception &e) {
  std::string w = e.what();
  size_t      k = w.find("message:");
  if (k != std::string::npos) w = w.substr(k + 8);
  k = w.find('\n');
  if (k != std::string::npos && k > 0) w = w.substr(0, k);
  for (char &c : w)
    if ((unsigned char)c < 32 || (unsigned char)c > 126 || c == '"' || c == '\\') c = '.';
  return w.substr(0, 160);
}

// ---------------------------------------------------------------- main loop
// usage: driver SCENARIOS OUT ; scenarios are ndjson records with "sid".  The
// scenarios run in a child process; when it dies the parent records a Crash
// event for the scenario and goes on with the next one.
typedef std::function<void(const json &, Out &)> Handler;
inline int run(int argc, char **argv, Handler h, int per_scn_s = 60) {
  if (argc < 3) { fprintf(stderr, "usage: %s SCN OUT\n", argv[0]); return 2; }
  std::vector<json> scns;
  {
    std::ifstream in(argv[1]);
    std::string   line;
    while (std::getline(in, line))
      if (!line.empty()) scns.push_back(json::parse(line));
  }
  FILE *f = fopen(argv[2], "w");
  if (!f) return 2;
  fclose(f);
  std::string prog = std::string(argv[2]) + ".progress";
  size_t      start = 0;
  int         crashes = 0;
  while (start < scns.size()) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      Out o;
      o.f = fopen(argv[2], "a");
      for (size_t i = start; i < scns.size(); ++i) {
        FILE *p = fopen(prog.c_str(), "w");
        fprintf(p, "%zu", i);
        fclose(p);
        o.sid = scns[i]["sid"].get<long>();
        alarm(per_scn_s);
        o.ev({{"ev", "Begin"}, {"scn", scns[i]}});
        try {
          h(scns[i], o);
          o.ev({{"ev", "End"}});
        } catch (std::exception &e) {
          o.ev({{"ev", "Crash"}, {"what", "uncaught: " + what(e)}});
        }
        alarm(0);
      }
      fclose(o.f);
      fflush(nullptr);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    size_t        at = start;
    std::ifstream p(prog);
    p >> at;
    // drop a torn last line, then record the crash
    {
      std::ifstream in(argv[2]);
      std::string   all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      size_t        k = all.rfind('\n');
      all.resize(k == std::string::npos ? 0 : k + 1);
      std::ofstream(argv[2], std::ios::trunc) << all;
    }
    Out o;
    o.f   = fopen(argv[2], "a");
    o.sid = scns[at]["sid"].get<long>();
    o.ev({{"ev", "Crash"},
          {"what", WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang")
                                                             : "signal " + std::to_string(WTERMSIG(st)))
                                   : "exit " + std::to_string(WEXITSTATUS(st))}});
    fclose(o.f);
    start = at + 1;
    crashes += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 4 : 1;
    if (crashes >= 12) break;  // enough evidence; do not spend the budget on more
  }
  unlink(prog.c_str());
  return 0;
}
}  // namespace vh
