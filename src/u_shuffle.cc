// C05 / C06: shufflers, driven the way a party drives them.
#include "u_common.h"
#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/shuffle/parallel_shuffle.h"
#include <algorithm>
#include <memory>
#include <set>
using namespace DPPIR;
using namespace u;

static void local_case(int seed, index_t n) {
  shuffle::LocalShuffler a(seed);
  for (int round = 0; round < 2; round++) {  // offline, then online
    index_t m = round ? n : (n + below(3));
    a.Initialize(m);
    std::vector<char> seen(m);
    for (index_t i = 0; i < m; i++) {
      index_t j = a.Shuffle(i);
      if (j >= m || seen[j]) { V("local", F("seed %d, %u items: position %u is used %s", seed, m, j, j >= m ? "out of range" : "twice")); break; }
      seen[j] = 1;
      if (a.Deshuffle(j) != i) { V("local", F("seed %d, %u items: undoing the shuffle of %u gives %u", seed, m, i, a.Deshuffle(j))); break; }
    }
    if (round == 0) a.FinishForward();
    stats["local_items"] += m;
  }
  stats["local_cases"]++;
}

static void parallel_case(int seed, int S, std::vector<index_t> cnt, std::vector<index_t> noise) {
  index_t total = 0;
  for (auto c : cnt) total += c;
  std::vector<std::unique_ptr<shuffle::ParallelShuffler>> sh;
  for (int s = 0; s < S; s++) {
    sh.emplace_back(new shuffle::ParallelShuffler(s, S, seed));
    if (below(3) == 0) { std::vector<index_t> other(cnt); other[below(S)] += 3; sh[s]->Initialize(other.data(), 0); }  // earlier stage
    sh[s]->Initialize(cnt.data(), noise[s]);
  }
  std::string id = F("seed %d, %d servers, %u messages", seed, S, total);
  index_t sum = 0;
  for (int s = 0; s < S; s++) {
    index_t want = s + 1 < S ? total / S : total - total / S * (S - 1);
    if (sh[s]->GetServerSliceSize() != want) V("balance", F("%s: server %d is to forward %u instead of %u", id.c_str(), s, sh[s]->GetServerSliceSize(), want));
    sum += sh[s]->GetServerSliceSize();
  }
  if (sum != total) V("balance", F("%s: slices add up to %u", id.c_str(), sum));
  // route
  std::vector<std::vector<std::pair<int, index_t>>> inbox(S);  // in arrival order grouped by source
  std::vector<std::vector<index_t>> to(S, std::vector<index_t>(S)), ton(S, std::vector<index_t>(S));
  std::vector<std::vector<std::vector<index_t>>> sent(S, std::vector<std::vector<index_t>>(S));
  for (int s = 0; s < S; s++) for (index_t i = 0; i < cnt[s]; i++) {
    int t = sh[s]->ShuffleOne();
    if (t < 0 || t >= S) { V("route", id + ": message routed to a server that does not exist"); return; }
    to[s][t]++; if (i < noise[s]) ton[s][t]++;
    sent[s][t].push_back(i);
  }
  for (int s = 0; s < S; s++) {
    index_t got = 0;
    for (int t = 0; t < S; t++) {
      if (sh[s]->CountToServer(t) != to[s][t]) V("agree", F("%s: server %d announces %u messages to %d but routes %u", id.c_str(), s, sh[s]->CountToServer(t), t, to[s][t]));
      if (sh[s]->CountNoiseToServer(t) != ton[s][t]) V("agree", F("%s: server %d announces %u noise messages to %d but routes %u", id.c_str(), s, sh[s]->CountNoiseToServer(t), t, ton[s][t]));
      if (sh[t]->CountFromServer(s) != to[s][t]) V("agree", F("%s: server %d expects %u messages from %d which sends %u", id.c_str(), t, sh[t]->CountFromServer(s), s, to[s][t]));
      got += to[t][s];
    }
    if (got != sh[s]->GetServerSliceSize()) V("agree", F("%s: server %d receives %u messages for a slice of %u", id.c_str(), s, got, sh[s]->GetServerSliceSize()));
    // sources by position
    index_t pre = 0;
    for (int t = 0; t < S; t++) {
      if (sh[s]->PrefixSumCountFromServer(t) != pre) V("agree", F("%s: server %d expects messages of %d at %u instead of %u", id.c_str(), s, t, sh[s]->PrefixSumCountFromServer(t), pre));
      for (index_t k : {index_t(0), to[t][s] / 2, to[t][s] ? to[t][s] - 1 : 0}) if (k < to[t][s] && sh[s]->FindSourceOf(pre + k) != t) V("agree", F("%s: server %d attributes slot %u to server %d instead of %d", id.c_str(), s, pre + k, sh[s]->FindSourceOf(pre + k), t));
      pre += to[t][s];
    }
    sh[s]->FinishForward();
  }
  // way back: replies from t arrive in the order the messages were sent to t
  for (int s = 0; s < S; s++) {
    std::vector<char> seen(cnt[s]);
    // interleave the sources arbitrarily
    std::vector<index_t> k(S);
    index_t left = cnt[s];
    while (left) {
      int t = below(S);
      if (k[t] >= sent[s][t].size()) continue;
      index_t i = sh[s]->DeshuffleOne(t);
      if (i >= cnt[s] || i != sent[s][t][k[t]]) { V("inverse", F("%s: reply %u from %d is put at %u instead of %u", id.c_str(), k[t], t, i, sent[s][t][k[t]])); return; }
      k[t]++; left--;
    }
    sh[s]->FinishBackward();
  }
  stats["parallel_cases"]++;
  stats["parallel_items"] += total;
}

int main(int argc, char** argv) {
  std::string mode = argv[1]; uint64_t sd = strtoull(argv[2], 0, 10); double scale = atof(argv[3]);
  init(sd);
  auto anyseed = [] { switch (below(5)) { case 0: return int(below(64)); case 1: return int(1000 + below(8)); case 2: return int(0x7fffffff); case 3: return -int(below(1000)); default: return int(h64()); } };
  if (mode == "biject") {
    for (index_t n = 0; n < 70; n++) for (int k = 0; k < 3; k++) local_case(anyseed(), n);
    for (int i = 0; i < 150 * scale; i++) local_case(anyseed(), below(3000));
    for (int i = 0; i < 4 * scale; i++) local_case(anyseed(), 20000 + below(200000));
    for (int i = 0; i < 1500 * scale; i++) {
      int S = 2 + below(i % 25 == 0 ? 30 : 6);
      std::vector<index_t> c(S), n(S);
      index_t lim = i % 40 == 0 ? 4000 : i % 3 ? 40 : 5;
      for (int s = 0; s < S; s++) { c[s] = below(5) == 0 ? 0 : below(lim); n[s] = below(4) == 0 ? (below(2) ? 0 : c[s]) : below(c[s] + 1); }
      parallel_case(anyseed(), S, c, n);
    }
    // more than 2^16 messages: at one server, at all of them, in total only
    for (int i = 0; i < 6 * scale; i++) {
      int S = 2 + below(3); std::vector<index_t> c(S), n(S);
      for (int s = 0; s < S; s++) { c[s] = i % 3 == 0 ? (s == int(i / 3) % S ? 65536 + below(9000) : below(50)) : i % 3 == 1 ? 65530 + below(5000) : 65536 / S + below(200); n[s] = i % 2 ? c[s] - below(3) % (c[s] + 1) : below(c[s] + 1); }
      parallel_case(anyseed(), S, c, n);
    }
    for (int S : {2, 3, 200, 255}) { std::vector<index_t> c(S, 3), n(S, 1); parallel_case(anyseed(), S, c, n); }
  } else {  // uniformity over seeds
    for (int kind = 0; kind < 2; kind++) {  // consecutive small seeds (as generated), random seeds
      // all permutations of 4 and of 5
      for (int n : {2, 3, 4, 5}) {
        int f = 1; for (int k = 2; k <= n; k++) f *= k;
        std::vector<double> h(f); long T = 400L * f * scale;
        for (long i = 0; i < T; i++) {
          shuffle::LocalShuffler a(kind ? int(h64()) : int(i)); a.Initialize(n);
          int code = 0; std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = a.Shuffle(k);
          for (int k = 0; k < n; k++) { int r = 0; for (int m = k + 1; m < n; m++) r += p[m] < p[k]; code = code * (n - k) + r; }
          if (code < 0 || code >= f) { V("uniform", "not a permutation"); break; }
          h[code]++;
        }
        double z = n == 2 ? std::fabs(h[0] - h[1]) / std::sqrt(h[0] + h[1]) : chi_uniform(h);
        stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z);
        double lim = kind ? 8 : 8;
        if (z > lim) V("uniform", F("orders of %d messages over %s seeds are not equally likely (z=%.1f)", n, kind ? "random" : "consecutive", z));
        for (int k = 0; k < f; k++) if (h[k] == 0) V("uniform", F("some order of %d messages never occurs", n));
      }
      // position matrix of 24 items
      { int n = 24; std::vector<std::vector<double>> m(n, std::vector<double>(n)), g(n, std::vector<double>(n)); long T = 12000 * scale;
        for (long i = 0; i < T; i++) { shuffle::LocalShuffler a(kind ? int(h64()) : int(i)); a.Initialize(n); for (int k = 0; k < n; k++) { m[k][a.Shuffle(k)]++; g[k][(a.Shuffle((k + 1) % n) + n - a.Shuffle(k)) % n]++; } }
        for (int k = 0; k < n; k++) { double z = chi_uniform(m[k]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z); if (z > 8) V("uniform", F("message %d of %d does not reach all positions equally (z=%.1f)", k, n, z));
          std::vector<double> gg(g[k].begin() + 1, g[k].end()); z = chi_uniform(gg); stats["max_z"] = std::max(stats["max_z"], z); if (g[k][0] > 0) V("uniform", "two messages at one position"); if (z > 8) V("uniform", F("messages %d and next keep a preferred distance (z=%.1f)", k, z)); }
      }
      // parallel: destination of every message
      for (int S : {2, 3, 5}) { index_t per = 12; std::vector<index_t> c(S, per), nz(S, 4); std::vector<std::vector<double>> m(S * per, std::vector<double>(S)); long T = 4000 * scale;
        for (long i = 0; i < T; i++) { int seed = kind ? int(h64()) : int(i); for (int s = 0; s < S; s++) { shuffle::ParallelShuffler p(s, S, seed); p.Initialize(c.data(), 4); for (index_t k = 0; k < per; k++) m[s * per + k][p.ShuffleOne() % S]++; } }
        for (size_t k = 0; k < m.size(); k++) { double z = m[k].size() == 2 ? std::fabs(m[k][0] - m[k][1]) / std::sqrt(m[k][0] + m[k][1]) : chi_uniform(m[k]); stats["uniformity_tests"]++; stats["max_z"] = std::max(stats["max_z"], z); if (z > 8) V("uniform", F("message %zu does not reach all %d servers equally (z=%.1f)", k, S, z)); } }
    }
    // every bit of the seed matters: two parties whose seeds differ do not shuffle alike
    for (int b = 0; b < 31; b++) {
      int same = 0, psame = 0, T = 16;
      for (int t = 0; t < T; t++) {
        int s0 = int((h64() & 0x7fffffff) | (b == 20 ? 1u << 21 : 1u << 20)), s1 = s0 ^ int(1u << b);
        shuffle::LocalShuffler x(s0), y(s1); x.Initialize(64); y.Initialize(64);
        bool e = true; for (int k = 0; k < 64; k++) e &= x.Shuffle(k) == y.Shuffle(k);
        same += e;
        index_t c[2] = {64, 64}; shuffle::ParallelShuffler p(0, 2, s0), q(0, 2, s1); p.Initialize(c, 4); q.Initialize(c, 4);
        e = true; for (int k = 0; k < 64; k++) e &= p.ShuffleOne() == q.ShuffleOne();
        psame += e;
      }
      stats["seed_bits"]++;
      if (same == T || psame == T) V("uniform", F("the order of messages does not depend on bit %d of the seed (%s shuffle)", b, same == T ? "local" : "parallel"));
    }
    // large single permutations
    for (int i = 0; i < 12 * scale; i++) {
      index_t n = i % 4 == 3 ? 65537 + below(200000) : 2000 + below(20000); shuffle::LocalShuffler a(anyseed()); a.Initialize(n);
      double fix = 0, adj = 0, sxy = 0, inv = 0; std::vector<double> disp(16), block(16);
      for (index_t k = 0; k < n; k++) { index_t j = a.Shuffle(k); fix += j == k; if (k) { index_t q = a.Shuffle(k - 1); adj += j == q + 1 || q == j + 1; inv += q > j; } sxy += (double(k) - (n - 1) / 2.0) * (double(j) - (n - 1) / 2.0); disp[(uint64_t(j + n - k) % n) * 16 / n]++; if (k < n / 4) block[uint64_t(j) * 16 / n]++; }
      double var = (double(n) * n - 1) / 12 * n; double r = sxy / var * std::sqrt(double(n - 1));
      if (fix > 20 || adj > 24) V("uniform", F("%u messages: %.0f stay in place, %.0f neighbours stay together", n, fix, adj));
      if (std::fabs(r) > 8) V("uniform", F("%u messages: order in and order out correlate (z=%.1f)", n, r));
      double zi = (inv - (n - 1) / 2.0) / std::sqrt((n + 1) / 12.0); if (std::fabs(zi) > 8) V("uniform", F("%u messages: descents z=%.1f", n, zi));
      double zb = chi_uniform(block), zd = chi_uniform(disp); if (zb > 8 || zd > 8) V("uniform", F("%u messages: first quarter / displacement spread unevenly (z=%.1f, %.1f)", n, zb, zd));
      stats["large_perms"]++;
    }
  }
  return finish();
}
