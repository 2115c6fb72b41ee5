// C08 / C09: sharing primitives against independent arithmetic.
#include "u_common.h"
#include "DPPIR/sharing/additive.h"
#include "DPPIR/sharing/incremental.h"
using namespace DPPIR;
using namespace u;
static const uint64_t PR = 2147483647ull;
static uint64_t pw(uint64_t b, uint64_t e) { uint64_t r = 1; b %= PR; while (e) { if (e & 1) r = r * b % PR; b = b * b % PR; e >>= 1; } return r; }
static uint32_t edge_field(bool nz) {
  uint64_t v;
  switch (below(7)) {
    case 0: v = 0; break; case 1: v = 1; break; case 2: v = PR - 1; break; case 3: v = PR - 2; break;
    case 4: v = (1ull << below(31)); break; case 5: v = (1ull << below(31)) - 1; break;
    default: v = below(PR);
  }
  v %= PR;
  if (nz && v == 0) v = 1 + below(PR - 1);
  return v;
}
static void one(uint32_t q, const std::vector<incremental_share_t>& sh, const char* what) {
  uint32_t tally = sharing::GenerateIncrementalTally(q, sh);
  if (tally >= PR) V("share", F("%s: tally %u outside the field", what, tally));
  uint64_t ref = q;
  for (size_t i = sh.size(); i-- > 0;) ref = (ref + PR - sh[i].x) % PR * pw(sh[i].y, PR - 2) % PR;
  if (ref != tally) V("share", F("%s: sharing row %u over %zu parties gives %u, the model %llu", what, q, sh.size(), tally, (unsigned long long)ref));
  uint32_t cur = tally;
  for (size_t i = 0; i < sh.size(); i++) {
    uint32_t nx = sharing::IncrementalReconstruct(cur, sh[i]);
    uint64_t e = ((unsigned __int128)cur * sh[i].y + sh[i].x) % PR;
    if (nx != e) V("share", F("%s: step %zu turns %u into %u instead of %llu", what, i, cur, nx, (unsigned long long)e));
    cur = nx;
  }
  if (cur != q) V("share", F("%s: %zu parties reconstruct row %u as %u", what, sh.size(), q, cur));
  stats["incremental_cases"]++;

}
int main(int argc, char** argv) {
  std::string mode = argv[1]; uint64_t sd = strtoull(argv[2], 0, 10); double scale = atof(argv[3]);
  init(sd);
  if (mode == "incremental") {
    long N = 60000 * scale;
    for (long i = 0; i < N; i++) {
      size_t n = 1 + below(i % 50 == 0 ? 40 : 9); if (i % 500 == 3) n = i % 1000 < 500 ? 250 + below(7) : 41 + below(216);
      rn_edge = i % 2;
      auto sh = sharing::PreIncrementalSecretShares(n);
      if (sh.size() != n) V("share", F("%zu shares instead of %zu", sh.size(), n));
      for (auto& s : sh) { uint32_t x = s.x, y = s.y; if (x >= PR || y == 0 || y >= PR) V("share", F("share (%u,%u) outside the field", x, y)); }
      one(edge_field(false), sh, "generated shares");
      std::vector<incremental_share_t> es(n);
      for (auto& s : es) { s.x = edge_field(false); s.y = edge_field(true); }
      one(edge_field(false), es, "edge shares");
    }
    rn_edge = false;
    // secrecy: for fixed rows, the client tally and every partial tally is uniform;
    // so is each component of every share
    long M = 120000 * scale;
    for (uint32_t q : {0u, 1u, 12345u, uint32_t(PR - 1)}) {
      size_t n = 2 + below(3);
      std::vector<std::vector<double>> h(n, std::vector<double>(256)), hl(n, std::vector<double>(256)), hx(n, std::vector<double>(256)), hy(n, std::vector<double>(256)), hyl(n, std::vector<double>(256)), hxl(n, std::vector<double>(256));
      for (long i = 0; i < M; i++) {
        auto sh = sharing::PreIncrementalSecretShares(n);
        if (sh.size() != n) break;
        uint32_t t = sharing::GenerateIncrementalTally(q, sh);
        for (size_t k = 0; k < n; k++) {
          h[k][(t >> 23) & 255]++; hl[k][t & 255]++;
          hx[k][(sh[k].x >> 23) & 255]++; hy[k][(sh[k].y >> 23) & 255]++; hxl[k][sh[k].x & 255]++; hyl[k][sh[k].y & 255]++;
          t = sharing::IncrementalReconstruct(t, sh[k]);
        }
      }
      for (size_t k = 0; k < n; k++) {
        const char* nm[6] = {"tally (high)", "tally (low)", "additive part (high)", "additive part (low)", "multiplier (high)", "multiplier (low)"};
        std::vector<double>* hh[6] = {&h[k], &hl[k], &hx[k], &hxl[k], &hy[k], &hyl[k]};
        for (int j = 0; j < 6; j++) { double z = chi_uniform(*hh[j]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z); if (z > 8) V("secrecy", F("row %u, step %zu: %s is not uniform (z=%.1f)", q, k, nm[j], z)); }
      }
      stats["secrecy_samples"] += M;
    }
    // the parts of one deal, and of one deal and the next, are jointly independent
    {
      size_t n = 4; long N2 = 150000 * scale; size_t m = 2 * n;
      std::vector<std::vector<double>> jh(4 * m * m, std::vector<double>(256));
      std::vector<uint32_t> last(m), cur(m);
      for (long i = 0; i < N2; i++) {
        auto sh = sharing::PreIncrementalSecretShares(n);
        if (sh.size() != n) break;
        for (size_t k = 0; k < n; k++) { cur[2 * k] = sh[k].x; cur[2 * k + 1] = sh[k].y; }
        for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) {
          if (a < b) { jh[a * m + b][((cur[a] >> 27) & 15) * 16 + ((cur[b] >> 27) & 15)]++; jh[m * m + a * m + b][(cur[a] & 15) * 16 + (cur[b] & 15)]++; }
          if (i) { jh[2 * m * m + a * m + b][((last[a] >> 27) & 15) * 16 + ((cur[b] >> 27) & 15)]++; jh[3 * m * m + a * m + b][(last[a] & 15) * 16 + (cur[b] & 15)]++; }
        }
        last = cur;
      }
      for (size_t k = 0; k < jh.size(); k++) {
        double tot = 0; for (double x : jh[k]) tot += x;
        if (tot == 0) continue;
        double z = chi_uniform(jh[k]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z);
        size_t a = k % (m * m) / m, b = k % m;
        if (z > 8) V("secrecy", F("the %s of share %zu and the %s of share %zu of %s are related (z=%.1f)", a % 2 ? "multiplier" : "additive part", a / 2, b % 2 ? "multiplier" : "additive part", b / 2, k >= 2 * m * m ? "the next query" : "the same query", z));
      }
      stats["secrecy_samples"] += N2;
    }
    // shares of different parties and queries are not related
    long eq = 0, eqy = 0; uint32_t lx = 0, ly = 0;
    for (long i = 0; i < 2000; i++) { auto sh = sharing::PreIncrementalSecretShares(5); for (auto& s : sh) { if (s.x == lx) eq++; if (s.y == ly) eqy++; lx = s.x; ly = s.y; } }
    if (eq > 3 || eqy > 3) V("secrecy", F("successive shares repeat (%ld,%ld)", eq, eqy));
  } else {
    long N = 20000 * scale;
    for (long i = 0; i < N; i++) {
      size_t n = 1 + below(i % 50 == 0 ? 40 : 9); if (i % 500 == 3) n = i % 1000 < 500 ? 250 + below(7) : 41 + below(216);
      auto sh = sharing::GenerateAdditiveSecretShares(n);
      if (sh.size() != n) { V("mask", F("%zu masks instead of %zu", sh.size(), n)); continue; }
      Response v, cur, ref; rn_buf(&v, sizeof v);
      if (i % 3 == 0) memset(&v, i % 2 ? 0xff : 0, sizeof v);
      cur = v;
      for (size_t k = 0; k < n; k++) {
        Response before = cur, out; memset(&out, 0xA5, sizeof out);
        for (size_t b = 0; b < sizeof(Response); b++) ((char*)&ref)[b] = ((char*)&before)[b] ^ sh[k][b];
        if (k % 2) { sharing::AdditiveReconstruct(before, sh[k], &out); cur = out; } else { sharing::AdditiveReconstruct(cur, sh[k], &cur); }
        if (memcmp(&cur, &ref, sizeof ref)) { V("mask", F("applying mask %zu of %zu gives wrong bytes", k, n)); break; }
        if (n >= 3 && k + 1 < n && !memcmp(&cur, &v, sizeof v)) V("mask", F("after %zu of %zu masks the answer is in clear", k + 1, n));
      }
      if (memcmp(&cur, &v, sizeof v)) V("mask", F("%zu masks do not cancel", n));
      // any n-1 of them must not cancel
      if (n >= 2) { size_t skip = below(n); unsigned char a[52] = {0}; for (size_t k = 0; k < n; k++) if (k != skip) for (int b = 0; b < 52; b++) a[b] ^= sh[k][b]; bool z = true; for (int b = 0; b < 52; b++) z = z && !a[b]; if (z) V("mask", F("%zu masks cancel without mask %zu", n, skip)); }
      stats["mask_cases"]++;
    }
    long M = 60000 * scale;
    for (size_t n : {2, 3, 5}) {
      std::vector<std::vector<double>> h(52 * n, std::vector<double>(256)), adj(52 * n, std::vector<double>(256));
      for (long i = 0; i < M; i++) { auto sh = sharing::GenerateAdditiveSecretShares(n); if (sh.size() != n) break; for (size_t k = 0; k < n; k++) for (int b = 0; b < 52; b++) { h[k * 52 + b][(unsigned char)sh[k][b]]++; adj[k * 52 + b][(unsigned char)(sh[k][b] ^ sh[k][(b + 1) % 52])]++; } }
      for (size_t k = 0; k < 52 * n; k++) {
        double z = chi_uniform(h[k]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z);
        if (z > 8) V("secrecy", F("byte %zu of mask %zu of %zu is not uniform (z=%.1f)", k % 52, k / 52, n, z));
        z = chi_uniform(adj[k]); if (z > 8) V("secrecy", F("bytes %zu and its neighbour of mask %zu of %zu are related (z=%.1f)", k % 52, k / 52, n, z));
      }
      stats["secrecy_samples"] += M;
    }
    // what any proper subset of the masks, or two queries' masks, add up to is uniform
    for (size_t n : {3, 4, 6}) {
      std::vector<std::vector<double>> h(size_t(1) << n, std::vector<double>(256)), hn(n * n, std::vector<double>(256));
      std::vector<preshare_t> last;
      for (long i = 0; i < 40000 * scale; i++) {
        auto sh = sharing::GenerateAdditiveSecretShares(n);
        if (sh.size() != n) break;
        size_t b = below(52);
        for (size_t m = 1; m + 1 < (size_t(1) << n); m++) { unsigned char x = 0; for (size_t k = 0; k < n; k++) if (m >> k & 1) x ^= sh[k][b]; h[m][x]++; }
        if (i) for (size_t k = 0; k < n; k++) for (size_t l = 0; l < n; l++) hn[k * n + l][(unsigned char)(last[k][b] ^ sh[l][b])]++;
        last = sh;
      }
      for (size_t m = 1; m + 1 < h.size(); m++) { double z = chi_uniform(h[m]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z); if (z > 8) V("secrecy", F("the sum of some (set %zx) of %zu masks is not uniform (z=%.1f)", m, n, z)); }
      for (size_t k = 0; k < hn.size(); k++) { double z = chi_uniform(hn[k]); stats["uniformity_tests"]++; if (z > 8) V("secrecy", F("mask %zu of one query and mask %zu of the next are related (z=%.1f)", k / n, k % n, z)); }
    }
  }
  return finish();
}
