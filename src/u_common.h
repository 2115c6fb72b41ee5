// Shared pieces of the unit monitors: seeded libsodium randomness, violation
// log, statistics, and "must this call fail-stop" probes.
#ifndef U_COMMON_H_
#define U_COMMON_H_
#include <setjmp.h>
#include <signal.h>
#include <sodium.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace u {
inline uint64_t st[4];
inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
inline uint64_t next64() {
  uint64_t r = rotl(st[1] * 5, 7) * 9, t = st[1] << 17;
  st[2] ^= st[0]; st[3] ^= st[1]; st[1] ^= st[2]; st[0] ^= st[3]; st[2] ^= t; st[3] = rotl(st[3], 45);
  return r;
}
inline void seed(uint64_t s) {
  for (int i = 0; i < 4; i++) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; st[i] = z ^ (z >> 31); }
}
// harness randomness (independent of what the tree draws)
inline uint64_t hst = 88172645463325252ull;
inline uint64_t h64() { hst ^= hst << 13; hst ^= hst >> 7; hst ^= hst << 17; return hst * 0x2545F4914F6CDD1Dull; }
inline uint64_t below(uint64_t n) { return n ? h64() % n : 0; }

inline const char* rn_name() { return "verif"; }
inline bool rn_edge = false;  // raw draws are often extreme
inline uint32_t rn_random() {
  static const uint32_t ends[] = {0, 1, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
  if (rn_edge && next64() % 3 == 0) return ends[next64() % 8];
  return uint32_t(next64() >> 32);
}
inline void rn_buf(void* const b, const size_t n) { if (rn_edge && next64() % 4 == 0) { memset(b, next64() % 2 ? 0xff : 0, n); return; } for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = next64() >> 37; }
inline randombytes_implementation impl;
inline void init(uint64_t s) {
  seed(s); hst ^= s * 0x9e3779b97f4a7c15ull; for (int i = 0; i < 10; i++) h64();
  impl.implementation_name = rn_name; impl.random = rn_random; impl.stir = nullptr; impl.uniform = nullptr; impl.buf = rn_buf; impl.close = nullptr;
  randombytes_set_implementation(&impl);
  if (sodium_init() < 0) exit(3);
}
inline std::vector<std::string> viols;
inline std::map<std::string, int> vc;
inline std::map<std::string, double> stats;
template <typename... A>
inline std::string F(const char* f, A... a) { char b[1024]; snprintf(b, sizeof b, f, a...); return b; }
inline void V(const std::string& kind, const std::string& m) { if (vc[kind]++ < 3) viols.push_back(kind + ": " + m); }
inline int finish() {
  printf("\n@@JSON{\"viol\":[");
  for (size_t i = 0; i < viols.size(); i++) { std::string m = viols[i]; for (auto& c : m) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = '\''; printf("%s\"%s\"", i ? "," : "", m.c_str()); }
  printf("],\"stats\":{");
  bool f = true; for (auto& k : stats) { printf("%s\"%s\":%.17g", f ? "" : ",", k.first.c_str(), k.second); f = false; }
  printf("}}\n"); fflush(stdout);
  return 0;
}
// chi-square -> approximate standard normal deviate (Wilson-Hilferty)
inline double chi_z(double chi, double dof) { double t = std::cbrt(chi / dof); double m = 1 - 2 / (9 * dof), s = std::sqrt(2 / (9 * dof)); return (t - m) / s; }
inline double chi_uniform(const std::vector<double>& h) { double n = 0; for (double x : h) n += x; double e = n / h.size(), c = 0; for (double x : h) c += (x - e) * (x - e) / e; return chi_z(c, h.size() - 1.0); }

// Runs f in a child; returns 0 when it returned, 1 when it stopped by
// SIGABRT (assertion) or a clean non-zero exit, 2 on any memory / UB fault.
inline int probe(const std::function<void()>& f) {
  static sigjmp_buf jb; static volatile sig_atomic_t armed;
  struct sigaction sa, old; memset(&sa, 0, sizeof sa);
  sa.sa_handler = [](int) { if (armed) { armed = 0; siglongjmp(jb, 1); } };
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, &old);
  int r;
  if (sigsetjmp(jb, 1) == 0) { armed = 1; try { f(); r = 0; } catch (...) { r = 1; } armed = 0; } else r = 1;
  sigaction(SIGABRT, &old, nullptr);
  return r;
}
}  // namespace u
#endif
