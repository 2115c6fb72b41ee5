// C03 / C04: noise ranges and noise amounts.
#include "u_common.h"
#include "DPPIR/noise/noise.h"
#include <algorithm>
using namespace DPPIR;
using namespace u;
static double F_(double x, double b) { return x < 0 ? 0.5 * std::exp(x / b) : 1 - 0.5 * std::exp(-x / b); }
int main(int argc, char** argv) {
  std::string mode = argv[1]; uint64_t sd = strtoull(argv[2], 0, 10); double scale = atof(argv[3]);
  init(sd);
  if (mode == "range") {
    auto part = [](int S, index_t D) {
      index_t at = 0;
      for (int s = 0; s < S; s++) {
        auto r = noise::FindRange(s, S, D);
        if (r.first != at || r.second < r.first || r.second > D) { V("range", F("%u rows over %d servers: server %d covers [%u,%u), expected to start at %u", D, S, s, r.first, r.second, at)); return; }
        at = r.second;
      }
      if (at != D) V("range", F("%u rows over %d servers: rows from %u on get no noise", D, S, at));
      stats["partitions"]++;
    };
    for (int S = 1; S <= 40; S++) for (index_t D = S; D <= index_t(S + 130); D++) part(S, D);
    for (int S = 41; S <= 255; S += 3) for (index_t D = S; D <= index_t(S + 300); D += 1 + below(9)) part(S, D);
    for (int i = 0; i < 20000 * scale; i++) { int S = 1 + below(255); part(S, S + below(1ull << (4 + below(27)))); }
  } else if (mode == "fixed") {
    for (int i = 0; i < 4000 * scale; i++) {
      double eps = std::pow(10, -3 + 4.0 * below(1000000) / 1e6), del = std::pow(10, -12.0 * below(1000000) / 1e6);
      double c = 2 / eps * std::log(1 / del);
      // 1 - delta is rounded to double: the amount is only exact up to that
      if (std::fabs(c - std::round(c)) < 1e-4 + 2 / eps * 1e-15 / del || c > 1e8) continue;
      noise::NoiseDistribution d(eps, del);
      for (int k = 0; k < 3; k++) { uint32_t s = d.Sample(); if (s != uint32_t(std::floor(c))) V("amount", F("epsilon=%g delta=%g: %u noise queries per row instead of %.0f", eps, del, s, std::floor(c))); }
      stats["distributions"]++;
    }
    const double off[][2] = {{0, 0}, {0, 1e-6}, {0.1, 0}, {0, 1}};
    for (auto& o : off) { noise::NoiseDistribution d(o[0], o[1]); if (d.Sample() != 0) V("amount", F("noise switched off by epsilon=%g delta=%g adds %u", o[0], o[1], d.Sample())); stats["distributions"]++; }
    const double known[][3] = {{0.1, 0.000001, 276}, {0.1, 0.0000001, 322}, {0.01, 0.000001, 2763}, {0.01, 0.0000001, 3223}};
    for (auto& o : known) { noise::NoiseDistribution d(o[0], o[1]); if (d.Sample() != o[2]) V("amount", F("epsilon=%g delta=%g adds %u", o[0], o[1], d.Sample())); stats["distributions"]++; }
  } else if (mode == "sampled") {
    const double cs[][2] = {{0.1, 1e-6}, {1.0, 1e-6}, {0.5, 1e-3}, {2.0, 1e-9}, {4.0, 0.1}, {0.3, 0.01}, {0.05, 1e-10}, {10, 1e-6}, {1, 0.4}};
    for (auto& o : cs) {
      double eps = o[0], del = o[1], b = 2 / eps, c = b * std::log(1 / del);
      long top = std::floor(2 * c);
      noise::NoiseDistribution d(eps, del);
      long T = (&o == &cs[6] ? 12000000 : 400000) * scale;  // one with enough draws to see the far tails
      std::vector<double> h(top + 2);
      double sum = 0, s01 = 0, prev = 0;
      for (long i = 0; i < T; i++) { uint32_t v = d.Sample(); if (v > top) { V("bounds", F("epsilon=%g delta=%g: sample %u above %ld", eps, del, v, top)); v = top + 1; } h[v]++; sum += v; if (i) s01 += (v - std::floor(c)) * (prev - std::floor(c)); prev = v; }
      // expected, merged to cells of >= 50
      std::vector<double> obs, ex; double eo = 0, ee = 0, mean = 0, m2 = 0;
      for (long k = 0; k <= top; k++) { double lo = k == 0 ? 0 : F_(k - c, b), hi = k == top ? 1 : F_(k + 1 - c, b); double p = hi - lo; mean += k * p; m2 += double(k) * k * p; ee += p * T; eo += h[k]; if (ee >= 50) { obs.push_back(eo); ex.push_back(ee); eo = ee = 0; } }
      if (!ex.empty()) { ex.back() += ee; obs.back() += eo; }
      double chi = 0; for (size_t i = 0; i < ex.size(); i++) chi += (obs[i] - ex[i]) * (obs[i] - ex[i]) / ex[i];
      if (ex.size() >= 2) { double z = chi_z(chi, ex.size() - 1.0); stats["max_z"] = std::max(stats["max_z"], z); if (z > 9) V("distribution", F("epsilon=%g delta=%g: samples are not the truncated discretised Laplace (z=%.1f over %zu cells)", eps, del, z, ex.size())); }
      double sd1 = std::sqrt((m2 - mean * mean) / T), z = std::fabs(sum / T - mean) / sd1;
      stats["max_z"] = std::max(stats["max_z"], z);
      if (z > 7) V("distribution", F("epsilon=%g delta=%g: mean %.3f instead of %.3f", eps, del, sum / T, mean));
      double var = m2 - mean * mean, cc = (s01 / T - (mean - std::floor(c)) * (mean - std::floor(c))) / var * std::sqrt(double(T));
      if (std::fabs(cc) > 8) V("distribution", F("epsilon=%g delta=%g: consecutive samples are correlated (z=%.1f)", eps, del, cc));
      stats["distributions"]++; stats["samples"] += T;
    }
    for (auto& o : {std::pair<double, double>{0, 0}, {0, 1e-6}, {0.1, 0}}) { noise::NoiseDistribution d(o.first, o.second); for (int i = 0; i < 1000; i++) if (d.Sample() != 0) { V("bounds", "noise switched off still adds queries"); break; } }
  } else if (mode == "draw") {  // one server's noise for 64 rows, printed
    noise::NoiseDistribution d(0.1, 1e-6);
    printf("\nDRAW"); for (int i = 0; i < 64; i++) printf(" %u", d.Sample()); printf("\n");
  } else if (mode == "domain") {  // parameters whose noise does not fit must be rejected
    for (double eps : {1e-9, 1e-12, 1e-300}) { bool ok = false; int r = probe([&] { noise::NoiseDistribution d(eps, 1e-6); ok = true; }); if (r == 0 && ok) V("domain", F("epsilon=%g needs more noise than can be represented but is accepted", eps)); stats["rejected"] += r == 1; }
    // negative or undefined amounts
    { double nan = std::nan(""), inf = HUGE_VAL; double bad[][2] = {{-1, .1}, {-1e-3, 1e-6}, {-50, .9}, {1, 1.5}, {.1, 1.0001}, {1, 3}, {.1, 2.5}, {1, -.5}, {1, -3}, {nan, .1}, {1, nan}, {nan, nan}, {-1, 3}, {1, inf}};
      for (auto& o : bad) { bool ok = false; uint32_t s = 0; int r = probe([&] { noise::NoiseDistribution d(o[0], o[1]); s = d.Sample(); ok = true; }); if (r == 0) V("domain", F("epsilon=%g delta=%g give no valid noise amount but are accepted", o[0], o[1])); stats["rejected"] += r == 1; } }
    for (double eps : {1e-7, 1e-6}) { double c = 2 / eps * std::log(1e6); if (2 * c < 4294967295.0) { uint32_t s = 0; int r = probe([&] { noise::NoiseDistribution d(eps, 1e-6); s = d.Sample(); }); if (r != 0) V("domain", F("epsilon=%g is rejected although its noise fits", eps)); stats["accepted"]++; } }
  }
  return finish();
}
