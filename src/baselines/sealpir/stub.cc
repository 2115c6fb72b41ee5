// Virtual time: only calls of the stand-in take time, so reported times are exact.
#include <sys/time.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include "pir.hpp"
static uint64_t now_us = 1000000000ull;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(microseconds(now_us))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(microseconds(now_us))); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept {
  t->tv_sec = now_us / 1000000;
  t->tv_nsec = now_us % 1000000 * 1000;
  return 0;
}
extern "C" int gettimeofday(struct timeval *t, void *) noexcept {
  t->tv_sec = now_us / 1000000;
  t->tv_usec = now_us % 1000000;
  return 0;
}
namespace vb {
static FILE *log() {
  static FILE *f = fopen(getenv("VB_LOG") ? getenv("VB_LOG") : "/dev/null", "a");
  return f;
}
uint64_t charge(const char *what, uint64_t a, uint64_t b) {
  static uint64_t s = strtoull(getenv("VB_SEED") ? getenv("VB_SEED") : "1", nullptr, 10) * 2654435761u + 12345;
  static uint64_t lo = strtoull(getenv("VB_LO") ? getenv("VB_LO") : "1", nullptr, 10);
  static uint64_t hi = strtoull(getenv("VB_HI") ? getenv("VB_HI") : "3000", nullptr, 10);
  s = s * 6364136223846793005ull + 1442695040888963407ull;
  uint64_t c = lo + (s >> 33) % (hi - lo + 1);
  now_us += c;
  fprintf(log(), "%s %llu %llu %llu\n", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
  fflush(log());
  return c;
}
}  // namespace vb
void gen_encryption_params(uint32_t n, uint32_t logt, seal::EncryptionParameters &p) { p.n = n; p.logt = logt; vb::charge("encparams", n, logt); }
void verify_encryption_params(const seal::EncryptionParameters &) {}
void gen_pir_params(uint64_t ele_num, uint64_t ele_size, uint32_t d, const seal::EncryptionParameters &, PirParams &p, bool a, bool b, bool c) {
  p.ele_num = ele_num; p.ele_size = ele_size; p.d = d;
  p.enable_symmetric = a; p.enable_batching = b; p.enable_mswitching = c;
  vb::charge("pirparams", ele_num, ele_size);
}
