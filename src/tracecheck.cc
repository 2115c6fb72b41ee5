// Offline trace checker: replays the recorded byte streams of one deployment
// against an independent executable model of the protocol (own arithmetic, own
// onion peeling through libsodium, no code of the tree) and reports every
// disagreement under a category.
//
// usage: tracecheck SPEC   (text, see deploy.py:write_trace_spec)
#include <sodium.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace std;
typedef uint64_t u64;
typedef uint32_t u32;
static const u64 PR = 2147483647ull;
static const size_t SEC = 76, LAYER = 124, QSZ = 12, RSZ = 52;

struct __attribute__((packed)) Rec {
  uint8_t type, role;
  uint16_t conn;
  u32 len;
  u64 t0, t1;
  u32 a, b;
};
struct Chunk { u64 end, t0, t1; };
struct Stream {
  string data;
  vector<Chunk> ch;
  void add(const char* p, size_t n, u64 t0, u64 t1) {
    data.append(p, n);
    ch.push_back({data.size(), t0, t1});
  }
  // time the byte at offset off had been transferred / was about to be
  u64 done(u64 off) const {
    for (auto& c : ch) if (c.end > off) return c.t1;
    return 0;
  }
  u64 start(u64 off) const {
    u64 prev = 0;
    auto it = lower_bound(ch.begin(), ch.end(), off, [](const Chunk& c, u64 o) { return c.end <= o; });
    (void)prev;
    return it == ch.end() ? 0 : it->t0;
  }
  u64 donefast(u64 off) const {
    auto it = lower_bound(ch.begin(), ch.end(), off, [](const Chunk& c, u64 o) { return c.end <= o; });
    return it == ch.end() ? 0 : it->t1;
  }
};
struct Conn { char role = 0; Stream in, out; int port = 0, peer = 0; bool accepted = false; string ip; };
struct Proc { map<int, Conn> conns; bool ok = false, exited = false, tampered = false, killed = false; size_t events = 0, recvs = 0, sends = 0; u64 polls = 0, texit = 0;
  Conn* by(char r) { for (auto& c : conns) if (c.second.role == r) return &c.second; return nullptr; } };

static vector<pair<string, string>> viol;
static map<string, size_t> vcount;
static void V(const string& cat, const string& msg) {
  if (vcount[cat]++ < 5) viol.push_back({cat, msg});
}
template <typename... A>
static string F(const char* f, A... a) { char b[1024]; snprintf(b, sizeof b, f, a...); return b; }

static map<string, double> stats;

struct Secret { u64 tag, next; u32 x, y; array<unsigned char, 52> pre; };
static Secret parse_secret(const unsigned char* p) {
  Secret s;
  memcpy(&s.tag, p, 8); memcpy(&s.next, p + 8, 8); memcpy(&s.x, p + 16, 4); memcpy(&s.y, p + 20, 4);
  memcpy(s.pre.data(), p + 24, 52);
  return s;
}
static array<unsigned char, 52> row(u32 key) {
  array<unsigned char, 52> r;
  u32 v = 2 * key;
  memcpy(r.data(), &v, 4);
  memset(r.data() + 4, key % 128, 48);
  return r;
}
static bool load(const string& path, Proc* p) {
  ifstream f(path, ios::binary);
  if (!f) return false;
  string s((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
  size_t i = 0;
  while (i + sizeof(Rec) <= s.size()) {
    Rec r; memcpy(&r, &s[i], sizeof r); i += sizeof r;
    if (i + r.len > s.size()) break;
    const char* d = s.data() + i; i += r.len;
    p->events++;
    Conn& c = p->conns[r.conn];
    switch (r.type) {
      case 2: c.role = r.role; c.port = r.a; c.ip = string(d, r.len); break;
      case 3: c.role = r.role; c.port = r.a; c.peer = r.b; c.accepted = true; break;
      case 4: c.in.add(d, r.len, r.t0, r.t1); p->recvs++; break;
      case 5: c.out.add(d, r.len, r.t0, r.t1); p->sends++; break;
      case 9: p->killed = true; break;
      case 11: p->tampered = true; break;
      case 12: p->exited = true; p->polls = r.a; p->texit = r.t1; break;
    }
  }
  p->conns.erase(0);
  return true;
}

struct H16 { u64 a, b; bool operator==(const H16& o) const { return a == o.a && b == o.b; } };
struct H16h { size_t operator()(const H16& h) const { return h.a ^ (h.b * 3); } };
static H16 hash_of(const unsigned char* p, size_t n) {
  unsigned char o[16]; crypto_generichash(o, 16, p, n, nullptr, 0);
  H16 h; memcpy(&h, o, 16); return h;
}

int P, S; u64 D; long c_noise; string stage, rng, mode, noise_mode; long maxnoise;
vector<u32> N; vector<array<unsigned char, 32>> pk, sk; vector<int> cok, pok; string dir;
static string noise_vecs, times;
static map<string, vector<string>> secret_ids;   // kind -> fingerprints, to compare runs
static void sid(const char* k, const void* d, size_t n);
vector<Proc> clients; vector<vector<Proc>> parties;

// ---- shuffling statistics --------------------------------------------------
// src index i (order in the input) -> position in the output of n items.
static void perm_stats(const string& what, const vector<u64>& pos, u64 n, const vector<char>& isreal, bool full) {
  // pos: output positions of the inputs in input order
  size_t m = pos.size();
  if (m >= 64) {
    size_t adj = 0, fix = 0;
    for (size_t i = 0; i + 1 < m; i++) if (pos[i + 1] == pos[i] + 1) adj++;
    for (size_t i = 0; i < m; i++) if (pos[i] == n - m + i || pos[i] == i) fix++;
    // E[adj] ~ m/n <= 1, E[fix] <= 2; Poisson tails: P(>=20) < 1e-18
    if (adj >= 20) V("MIX", F("%s: %zu of %zu consecutive inputs leave consecutively", what.c_str(), adj, m));
    if (fix >= 24) V("MIX", F("%s: %zu of %zu inputs leave at their arrival position", what.c_str(), fix, m));
    double sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0;
    for (size_t i = 0; i < m; i++) { double x = i, y = pos[i]; sx += x; sy += y; sxx += x * x; syy += y * y; sxy += x * y; }
    double cov = sxy - sx * sy / m, vx = sxx - sx * sx / m, vy = syy - sy * sy / m;
    double corr = cov / sqrt(vx * vy);
    stats["mix_perms"]++;
    stats["mix_items"] += m;
    if (fabs(corr) * sqrt(double(m - 1)) > 6.5)
      V("MIX", F("%s: arrival order and departure order correlate: r=%.4f over %zu", what.c_str(), corr, m));
    if (full && m >= 64 && n - m >= 64) {  // real vs noise interleaving
      // mean rank of real items (Wilcoxon)
      double W = 0; for (u64 p : pos) W += p;
      double mu = double(m) * (n - 1) / 2.0, sd = sqrt(double(m) * (n - m) * (n + 1) / 12.0);
      if (fabs(W - mu) / sd > 6.5)
        V("MIX", F("%s: real items are not spread among the noise (z=%.1f, %zu real of %llu)", what.c_str(), (W - mu) / sd, m, (unsigned long long)n));
      stats["mix_interleave"]++;
    }
  }
}

static bool frame_up(int p, int s, const Stream& st, u64 n) {
  u64 csz = LAYER * (P - p);
  u64 want = 4 + (stage != "online" ? n * csz : 0) + (stage != "offline" ? n * QSZ : 0);
  if (st.data.size() != want) {
    V("FRAME", F("link into party %d server %d: %zu bytes travelled, a batch of %llu needs %llu", p, s, st.data.size(), (unsigned long long)n, (unsigned long long)want));
    return false;
  }
  return true;
}
static bool frame_down(int p, int s, const Stream& st, u64 n) {
  u64 rd = stage == "all" || stage == "offline" ? 2 : 1;
  u64 want = rd + (stage != "offline" ? n * RSZ : 0);
  if (st.data.size() != want) {
    V("FRAME", F("replies of party %d server %d: %zu bytes travelled, a batch of %llu needs %llu", p, s, st.data.size(), (unsigned long long)n, (unsigned long long)want));
    return false;
  }
  for (u64 i = 0; i < rd; i++) if (st.data[i] != 1) V("FRAME", F("party %d server %d: ready signal %d != 1", p, s, st.data[i]));
  return true;
}

struct QI { u32 tally; u32 key; array<unsigned char, 52> mask; int s; u64 pos; bool ref; };

// client-only oracle (used after faults): a client that reports success must
// have received every one of its rows.
static set<u32> rows_hit;
static void party_complete() {
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) {
    if (!pok[p * S + s]) continue;
    Conn* b = parties[p][s].by('b');
    if (!b || b->in.data.size() < 4) { V("RET", F("party %d server %d exits successfully without having served a batch", p, s)); continue; }
    u32 n; memcpy(&n, b->in.data.data(), 4);
    u64 rd = stage == "online" ? 1 : 2;
    u64 wi = 4 + (stage != "online" ? u64(n) * LAYER * (P - p) : 0) + (stage != "offline" ? u64(n) * QSZ : 0), wo = rd + (stage != "offline" ? u64(n) * RSZ : 0);
    if (b->in.data.size() != wi || b->out.data.size() != wo) V("RET", F("party %d server %d exits successfully after an incomplete batch (%zu of %llu bytes in, %zu of %llu out)", p, s, b->in.data.size(), (unsigned long long)wi, b->out.data.size(), (unsigned long long)wo));
    stats["party_successes"]++;
  }
}
static void client_only() {
  for (int s = 0; s < S; s++) {
    if (!cok[s]) continue;
    Conn* c = clients[s].by('n');
    if (!c) { V("RET", F("client %d exits successfully without a connection", s)); continue; }
    u64 n = N[s], rd = stage == "online" ? 1 : 2, csz = LAYER * P;
    u64 qoff = 4 + (stage != "online" ? n * csz : 0);
    if (stage == "offline") {
      if (c->in.data.size() != 2 || c->out.data.size() != 4 + n * csz) V("RET", F("client %d reports success of an incomplete offline stage", s));
      continue;
    }
    if (c->out.data.size() != qoff + n * QSZ || c->in.data.size() != rd + n * RSZ) {
      V("RET", F("client %d reports success with an incomplete conversation (%zu/%zu bytes)", s, c->out.data.size(), c->in.data.size()));
      continue;
    }
    for (u64 i = 0; i < n; i++) {
      const unsigned char* q = (const unsigned char*)c->out.data.data() + qoff + i * QSZ;
      u64 tag; u32 tally; memcpy(&tag, q, 8); memcpy(&tally, q + 8, 4);
      array<unsigned char, 52> mask{};
      u64 t = tally;
      if (stage == "all") {
        vector<unsigned char> cur((const unsigned char*)c->out.data.data() + 4 + i * csz, (const unsigned char*)c->out.data.data() + 4 + (i + 1) * csz);
        bool bad = false;
        for (int p = 0; p < P && !bad; p++) {
          vector<unsigned char> pl(cur.size() - 48);
          if (crypto_box_seal_open(pl.data(), cur.data(), cur.size(), pk[p].data(), sk[p].data()) != 0) { V("ONION", F("client %d cipher %llu layer %d does not open", s, (unsigned long long)i, p)); bad = true; break; }
          Secret sc = parse_secret(pl.data());
          t = (t * sc.y + sc.x) % PR;
          for (int k = 0; k < 52; k++) mask[k] ^= sc.pre[k];
          cur.assign(pl.begin() + SEC, pl.end());
        }
        if (bad) continue;
      }
      if (t >= D) { V("RET", F("client %d query %llu asks for row %llu of %llu", s, (unsigned long long)i, (unsigned long long)t, (unsigned long long)D)); continue; }
      rows_hit.insert(t);
      auto r = row(t);
      const unsigned char* rp = (const unsigned char*)c->in.data.data() + rd + i * RSZ;
      for (int k = 0; k < 52; k++) if ((rp[k] ^ mask[k]) != r[k]) { V("RET", F("client %d reports success but the answer to query %llu (row %llu) is wrong at byte %d", s, (unsigned long long)i, (unsigned long long)t, k)); break; }
      stats["client_answers"]++;
    }
  }
}

static void chi_bits(const char* cat, const char* what, const vector<u32>& v, int bits_from) {
  if (v.size() < 2000) return;
  vector<double> h(16);
  for (u32 x : v) h[(x >> bits_from) & 15]++;
  double e = v.size() / 16.0, chi = 0;
  for (double x : h) chi += (x - e) * (x - e) / e;
  if (chi > 90) V(cat, F("%s: bits %d..%d are not uniform (chi2=%.1f over %zu values)", what, bits_from, bits_from + 3, chi, v.size()));
  stats["uniformity_tests"]++;
}

static void full_check() {
  bool offl = stage != "online", onl = stage != "offline";
  u64 rd = stage == "online" ? 1 : 2;
  // links[p][s]: stream into party p server s, as received by p, and replies as sent by p
  vector<vector<Conn*>> back(P, vector<Conn*>(S)), nxt(P, vector<Conn*>(S));
  vector<Conn*> cl(S);
  for (int s = 0; s < S; s++) cl[s] = clients[s].by('n');
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) {
    back[p][s] = parties[p][s].by('b');
    nxt[p][s] = p + 1 < P ? parties[p][s].by('n') : nullptr;
    if (!back[p][s] || (p + 1 < P && !nxt[p][s])) { V("FRAME", F("party %d server %d never connected", p, s)); return; }
  }
  for (int s = 0; s < S; s++) if (!cl[s]) { V("FRAME", F("client %d never connected", s)); return; }
  // counts
  vector<vector<u64>> cnt(P, vector<u64>(S));
  bool ok = true;
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) {
    const Stream& up = back[p][s]->in; const Stream& dn = back[p][s]->out;
    const Stream& upS = p ? nxt[p - 1][s]->out : cl[s]->out; const Stream& dnR = p ? nxt[p - 1][s]->in : cl[s]->in;
    if (up.data != upS.data) { V("FRAME", F("link into party %d server %d: received bytes differ from sent bytes (%zu vs %zu)", p, s, up.data.size(), upS.data.size())); ok = false; }
    if (dn.data != dnR.data) { V("FRAME", F("replies of party %d server %d: received bytes differ from sent bytes (%zu vs %zu)", p, s, dn.data.size(), dnR.data.size())); ok = false; }
    if (up.data.size() < 4) { V("FRAME", F("link into party %d server %d: no count", p, s)); return; }
    u32 n; memcpy(&n, up.data.data(), 4);
    cnt[p][s] = n;
    ok = frame_up(p, s, up, n) && ok;
    ok = frame_down(p, s, dn, n) && ok;
    stats["link_bytes"] += up.data.size() + dn.data.size();
    stats["link_msgs"] += n;
  }
  for (int s = 0; s < S; s++) if (cnt[0][s] != N[s]) V("CONS", F("client %d announced %llu queries instead of %u", s, (unsigned long long)cnt[0][s], N[s]));
  // totals and balance
  for (int p = 0; p + 1 < P; p++) {
    u64 in = 0, out = 0;
    for (int s = 0; s < S; s++) in += cnt[p][s], out += cnt[p + 1][s];
    if (noise_mode == "fixed" && out != in + D * c_noise)
      V("NOISE", F("party %d forwards %llu messages for %llu inputs; %llu noise messages were due", p, (unsigned long long)out, (unsigned long long)in, (unsigned long long)(D * c_noise)));
    if (out < in) V("CONS", F("party %d forwards only %llu of %llu messages", p, (unsigned long long)out, (unsigned long long)in));
    for (int s = 0; s < S; s++) {
      u64 want = s + 1 < S ? out / S : out - (out / S) * (S - 1);
      if (cnt[p + 1][s] != want) V("BAL", F("party %d server %d forwards %llu of %llu messages, its share is %llu", p, s, (unsigned long long)cnt[p + 1][s], (unsigned long long)out, (unsigned long long)want));
    }
  }
  if (!ok) return;

  vector<unordered_map<u64, Secret>> secs(P);
  vector<u32> xs, ys;
  unordered_set<H16, H16h> presh, xy, eph;
  if (offl) {
    // peel
    unordered_map<H16, vector<pair<int, u64>>, H16h> prev_out;  // hash -> (server,pos) for the next link
    for (int p = 0; p < P; p++) {
      u64 csz = LAYER * (P - p);
      // positions of ciphers on this link
      vector<vector<H16>> hh(S);
      unordered_map<H16, vector<pair<int, u64>>, H16h> next_expected;
      for (int s = 0; s < S; s++) {
        const unsigned char* base = (const unsigned char*)back[p][s]->in.data.data() + 4;
        for (u64 i = 0; i < cnt[p][s]; i++) {
          const unsigned char* ct = base + i * csz;
          vector<unsigned char> pl(csz - 48);
          H16 e; memcpy(&e, ct, 16);
          if (rng != "edge" && !eph.insert(e).second) V("SECR", F("link into party %d: encryption randomness reused", p));
          if (crypto_box_seal_open(pl.data(), ct, csz, pk[p].data(), sk[p].data()) != 0) {
            V("ONION", F("cipher %llu into party %d server %d does not open with that party's key", (unsigned long long)i, p, s));
            continue;
          }
          stats["ciphers_opened"]++;
          if (rng == "real") sid("encryption randomness", ct, 32);
          // nothing of the secret may be visible in the cipher
          for (size_t k = 0; k + 16 <= csz && i < 64; k++) if (!memcmp(ct + k, pl.data() + 24, 16)) { V("SECR", F("cipher into party %d shows its secret in clear", p)); break; }
          Secret sc = parse_secret(pl.data());
          if (sc.x >= PR || sc.y == 0 || sc.y >= PR) V("SHARE", F("secret of party %d has share (%u,%u) outside the field", p, sc.x, sc.y));
          if (!secs[p].emplace(sc.tag, sc).second) V("TAG", F("party %d is given two secrets under tag %llu", p, (unsigned long long)sc.tag));
          if (rng != "edge") {
            H16 h = hash_of(sc.pre.data(), 52);
            if (!presh.insert(h).second) V("SECR", F("response mask of party %d reused", p));
            bool z = true; for (auto b : sc.pre) z = z && !b;
            if (z) V("SECR", F("response mask of party %d is zero", p));
            H16 g{(u64(sc.x) << 32) | sc.y, 1};
            if (!xy.insert(g).second) V("SECR", F("query share (%u,%u) reused (party %d)", sc.x, sc.y, p));
            xs.push_back(sc.x); ys.push_back(sc.y);
            if (rng == "real") { sid("response mask", sc.pre.data(), 52); u64 g2 = (u64(sc.x) << 32) | sc.y; sid("query share", &g2, 8); }
          }
          if (p + 1 < P) next_expected[hash_of(pl.data() + SEC, csz - LAYER)].push_back({s, i});
        }
      }
      if (p + 1 < P) {
        // conservation of ciphers between this link and the next one
        u64 nsz = LAYER * (P - p - 1);
        u64 noise = 0;
        vector<vector<pair<u64, pair<int, u64>>>> from(S);  // per source server: (input pos, (server, out pos))
        for (int s = 0; s < S; s++) {
          const unsigned char* base = (const unsigned char*)back[p + 1][s]->in.data.data() + 4;
          for (u64 i = 0; i < cnt[p + 1][s]; i++) {
            auto it = next_expected.find(hash_of(base + i * nsz, nsz));
            if (it == next_expected.end()) { noise++; continue; }
            if (it->second.empty()) { V("CONS", F("party %d forwards the same offline message twice", p)); continue; }
            auto src = it->second.back(); it->second.pop_back();
            from[src.first].push_back({src.second, {s, i}});
          }
        }
        u64 lost = 0;
        for (auto& kv : next_expected) lost += kv.second.size();
        if (lost) V("CONS", F("party %d lost or altered %llu offline messages", p, (unsigned long long)lost));
        u64 in = 0, out = 0; for (int s = 0; s < S; s++) in += cnt[p][s], out += cnt[p + 1][s];
        if (!lost && noise != out - in) V("CONS", F("party %d: %llu unaccounted offline messages instead of %llu", p, (unsigned long long)noise, (unsigned long long)(out - in)));
        stats["cipher_transfers"] += in;

          // real messages among noise, per leaving server
          if (S > 1) for (int d = 0; d < S; d++) {
            double m = 0, W = 0, n = cnt[p + 1][d];
            for (int s = 0; s < S; s++) for (auto& f : from[s]) if (f.second.first == d) m++, W += f.second.second;
            if (m >= 64 && n - m >= 64) { double mu = m * (n - 1) / 2, sd = sqrt(m * (n - m) * (n + 1) / 12); stats["mix_interleave"]++;
              if (fabs(W - mu) / sd > 6.5) V("MIX", F("party %d, leaving by server %d: real messages are not spread among the noise (z=%.1f)", p, d, (W - mu) / sd)); }
          }
        // mixing
        for (int s = 0; s < S; s++) {
          sort(from[s].begin(), from[s].end());
          vector<vector<u64>> per(S);
          for (auto& f : from[s]) per[f.second.first].push_back(f.second.second);
          for (int d = 0; d < S; d++)
            perm_stats(F("offline messages of party %d from server %d leaving by server %d", p, s, d), per[d], cnt[p + 1][d], {}, S == 1);
          if (S > 1 && from[s].size() >= 200) {
            double tot = from[s].size();
            for (int d = 0; d < S; d++) {
              double q = double(cnt[p + 1][d]) / max<u64>(1, out), e = tot * q, sd = sqrt(tot * q * (1 - q) + 1);
              if (fabs(per[d].size() - e) / sd > 7) V("MIX", F("party %d server %d sends %zu of %.0f offline messages to server %d", p, s, per[d].size(), tot, d));
            }
          }
        }
      }
    }
    // onward tag chain: every secret's next tag must have a secret at the next party
    for (int p = 0; p + 1 < P; p++) for (auto& kv : secs[p]) if (!secs[p + 1].count(kv.second.next)) { V("CONS", F("party %d: next tag %llu has no secret at the next party", p, (unsigned long long)kv.second.next)); }
    chi_bits("SECR", "additive part of query shares", xs, 27); chi_bits("SECR", "additive part of query shares", xs, 4); chi_bits("SECR", "additive part of query shares", xs, 14);
    chi_bits("SECR", "multiplicative part of query shares", ys, 27); chi_bits("SECR", "multiplicative part of query shares", ys, 4); chi_bits("SECR", "multiplicative part of query shares", ys, 14);
    if (stage == "all" && rng != "edge" && xs.size()) {
      u32 mx = *max_element(xs.begin(), xs.end());
      if (xs.size() > 200 && mx < (1u << 29)) V("SECR", "query shares do not span the field");
    }
  }
  if (onl) {
    u64 in_total_masked_equal = 0, nq_total = 0;
    unordered_map<u64, QI> below;       // queries on link p+1 by tag (stage all)
    vector<vector<u32>> keys(P);        // unused
    vector<map<u32, long>> tallies(P);  // simulated: multiset
    for (int p = P - 1; p >= 0; p--) {
      unordered_map<u64, QI> here;
      here.reserve(2 * (cnt[p][0] * S + 16));
      vector<vector<pair<u64, pair<int, u64>>>> from(S);
      for (int s = 0; s < S; s++) {
        u64 qoff = 4 + (offl ? cnt[p][s] * LAYER * (P - p) : 0);
        const unsigned char* qb = (const unsigned char*)back[p][s]->in.data.data() + qoff;
        const unsigned char* rb = (const unsigned char*)back[p][s]->out.data.data() + rd;
        for (u64 i = 0; i < cnt[p][s]; i++) {
          u64 tag; u32 tally; memcpy(&tag, qb + i * QSZ, 8); memcpy(&tally, qb + i * QSZ + 8, 4);
          u32 key; array<unsigned char, 52> mask{};
          nq_total++;
          if (stage == "all") {
            auto it = secs[p].find(tag);
            if (it == secs[p].end()) { V("CONS", F("query %llu into party %d server %d carries unknown tag %llu", (unsigned long long)i, p, s, (unsigned long long)tag)); continue; }
            const Secret& sc = it->second;
            u32 nt = (u64(tally) * sc.y + sc.x) % PR;
            if (tally >= PR) V("SHARE", F("query into party %d carries tally %u outside the field", p, tally));
            mask = sc.pre;
            if (p + 1 < P) {
              auto b = below.find(sc.next);
              if (b == below.end()) { V("CONS", F("query %llu of party %d server %d was not forwarded", (unsigned long long)i, p, s)); continue; }
              if (b->second.ref) { V("CONS", F("two queries of party %d share the forwarded query with tag %llu", p, (unsigned long long)sc.next)); continue; }
              b->second.ref = true;
              if (b->second.tally != nt) { V("CONS", F("party %d forwards tally %u for query %llu of server %d, expected %u", p, b->second.tally, (unsigned long long)i, s, nt)); continue; }
              key = b->second.key;
              for (int k = 0; k < 52; k++) mask[k] ^= b->second.mask[k];
              from[s].push_back({i, {b->second.s, b->second.pos}});
            } else key = nt;
            if (here.count(tag)) { V("CONS", F("tag %llu is queried twice at party %d", (unsigned long long)tag, p)); continue; }
            here[tag] = QI{tally, key, mask, s, i, false};
            if (tally == key) in_total_masked_equal++;
          } else {
            key = tally;
            tallies[p][key]++;
          }
          if (key >= D) { V("RET", F("query %llu into party %d server %d resolves to row %u of %llu", (unsigned long long)i, p, s, key, (unsigned long long)D)); continue; }
          auto r = row(key);
          const unsigned char* rp = rb + i * RSZ;
          bool same = true, plain = true;
          for (int k = 0; k < 52; k++) { if (rp[k] != (r[k] ^ mask[k])) same = false; if (rp[k] != r[k]) plain = false; }
          if (!same) V("RESP", F("party %d server %d answers query %llu (row %u) with wrong bytes", p, s, (unsigned long long)i, key));
          if (stage == "all" && plain && rng != "edge") V("SECR", F("party %d server %d answers query %llu in clear", p, s, (unsigned long long)i));
          if (p == 0) {
            stats["answers"]++;
            // reconstructed by the client with the xor of all masks
            if (key < D) stats["keyhit_q" + to_string(key * 4 / D)]++;
          }
          stats["responses_checked"]++;
        }
      }
      if (p + 1 < P) {
        // what is left below is this party's noise
        u64 unref = 0;
        vector<long> per(D, 0);
        if (stage == "all") {
          for (auto& kv : below) if (!kv.second.ref) { unref++; if (kv.second.key < D) per[kv.second.key]++; }
        } else {
          map<u32, long> d = tallies[p + 1];
          for (auto& kv : tallies[p]) { long& x = d[kv.first]; x -= kv.second; if (x < 0) { V("CONS", F("party %d lost %ld queries for row %u", p, -x, kv.first)); } }
          for (auto& kv : d) if (kv.first < D) per[kv.first] = kv.second, unref += kv.second;
        }
        stats["noise_queries"] += unref;
        for (u64 k = 0; k < D; k++) {
          if (noise_mode == "fixed" && per[k] != c_noise) V("NOISE", F("party %d adds %ld noise queries for row %llu instead of %ld", p, per[k], (unsigned long long)k, c_noise));
          if (noise_mode == "sample" && (per[k] < 0 || per[k] > maxnoise)) V("NOISE", F("party %d adds %ld noise queries for row %llu, outside [0,%ld]", p, per[k], (unsigned long long)k, maxnoise));
          stats["noise_rows_checked"]++;
          if (noise_mode == "sample") { stats["noise_sum"] += per[k]; stats["noise_sumsq"] += double(per[k]) * per[k]; }
        }
        if (noise_mode == "sample" && D <= 4096) { noise_vecs += noise_vecs.empty() ? "[" : ",["; for (u64 k = 0; k < D; k++) noise_vecs += (k ? "," : "") + to_string(per[k]); noise_vecs += "]"; }
        stats["query_transfers"] += stage == "all" ? from[0].size() : 0;
        if (stage == "all") {
          // real messages among noise, per leaving server
          if (S > 1) for (int d = 0; d < S; d++) {
            double m = 0, W = 0, n = cnt[p + 1][d];
            for (int s = 0; s < S; s++) for (auto& f : from[s]) if (f.second.first == d) m++, W += f.second.second;
            if (m >= 64 && n - m >= 64) { double mu = m * (n - 1) / 2, sd = sqrt(m * (n - m) * (n + 1) / 12); stats["mix_interleave"]++;
              if (fabs(W - mu) / sd > 6.5) V("MIX", F("party %d, leaving by server %d: real messages are not spread among the noise (z=%.1f)", p, d, (W - mu) / sd)); }
          }
        }
        // mixing of queries
        if (stage == "all") for (int s = 0; s < S; s++) {
          sort(from[s].begin(), from[s].end());
          vector<vector<u64>> pp(S);
          for (auto& f : from[s]) pp[f.second.first].push_back(f.second.second);
          for (int d2 = 0; d2 < S; d2++) perm_stats(F("queries of party %d from server %d leaving by server %d", p, s, d2), pp[d2], cnt[p + 1][d2], {}, S == 1);
          u64 out = 0; for (int q = 0; q < S; q++) out += cnt[p + 1][q];
          if (S > 1 && from[s].size() >= 200) {
            double tot = from[s].size();
            for (int d2 = 0; d2 < S; d2++) {
              double q = double(cnt[p + 1][d2]) / max<u64>(1, out), e = tot * q, sd = sqrt(tot * q * (1 - q) + 1);
              if (fabs(pp[d2].size() - e) / sd > 7) V("MIX", F("party %d server %d sends %zu of %.0f queries to server %d", p, s, pp[d2].size(), tot, d2));
            }
          }
        }
      }
      below.swap(here);
    }
    if (stage == "all" && rng != "edge" && in_total_masked_equal > 2 + nq_total / 1000) V("SECR", F("%llu of %llu queries travel unmasked", (unsigned long long)in_total_masked_equal, (unsigned long long)nq_total));
    // tally uniformity per link (all but tiny)
    if (stage == "all" && rng != "edge") for (int p = 0; p < P; p++) {
      vector<u32> t;
      for (int s = 0; s < S; s++) { u64 qoff = 4 + cnt[p][s] * LAYER * (P - p); const unsigned char* qb = (const unsigned char*)back[p][s]->in.data.data() + qoff; for (u64 i = 0; i < cnt[p][s]; i++) { u32 y; memcpy(&y, qb + i * QSZ + 8, 4); t.push_back(y); } }
      chi_bits("SECR", F("tallies into party %d", p).c_str(), t, 27); chi_bits("SECR", F("tallies into party %d", p).c_str(), t, 3);
      vector<u32> w;
      for (int s = 0; s < S; s++) { const unsigned char* rb = (const unsigned char*)back[p][s]->out.data.data() + rd; for (u64 i = 0; i < cnt[p][s]; i++) { u32 y; memcpy(&y, rb + i * RSZ + 4 * (i % 13), 4); w.push_back(y); } }
      chi_bits("SECR", F("answers of party %d", p).c_str(), w, 27); chi_bits("SECR", F("answers of party %d", p).c_str(), w, 3);
    }
  }
  // ---- ordering -----------------------------------------------------------
  auto up_end_c = [&](int p, int s) { return 4 + cnt[p][s] * LAYER * (P - p); };
  vector<u64> all_in_c(P, 0), all_in_q(P, 0), rdy1(P, 0), rdy2(P, 0), all_resp(P, 0);
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) {
    const Stream& in = back[p][s]->in;
    if (offl && cnt[p][s]) all_in_c[p] = max(all_in_c[p], in.donefast(up_end_c(p, s) - 1));
    if (onl && cnt[p][s]) all_in_q[p] = max(all_in_q[p], in.donefast(in.data.size() - 1));
    if (p + 1 < P) {
      const Stream& ni = nxt[p][s]->in;
      rdy1[p] = max(rdy1[p], ni.donefast(0));
      if (rd == 2) rdy2[p] = max(rdy2[p], ni.donefast(1));
      if (onl && cnt[p + 1][s]) all_resp[p] = max(all_resp[p], ni.donefast(ni.data.size() - 1));
    }
  }
  size_t ord = 0;
  auto before = [&](u64 a, u64 b, const string& msg) { if (!a || !b) return; ord++; if (a > b) V("ORDER", msg + F(" (%.3f ms early)", (a - b) / 1e6)); };
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) {
    const Stream& dn = back[p][s]->out; const Stream& in = back[p][s]->in;
    if (p + 1 < P) {
      const Stream& no = nxt[p][s]->out;
      if (offl && cnt[p + 1][s]) before(all_in_c[p], no.start(4), F("party %d server %d forwards offline messages before the party has its whole batch", p, s));
      if (onl && cnt[p + 1][s]) { u64 off = 4 + (offl ? cnt[p + 1][s] * LAYER * (P - p - 1) : 0); before(all_in_q[p], no.start(off), F("party %d server %d forwards queries before the party has its whole batch", p, s)); }
      before(rdy1[p], dn.start(0), F("party %d server %d announces readiness before the next party is ready", p, s));
      if (rd == 2) before(rdy2[p], dn.start(1), F("party %d server %d announces the end of the offline stage before the next party did", p, s));
      if (onl && cnt[p][s]) before(all_resp[p], dn.start(rd), F("party %d server %d answers before all responses of the party came back", p, s));
    } else if (onl && cnt[p][s]) {
      before(in.donefast(in.data.size() - 1), dn.start(rd), F("backend server %d answers before it has its whole batch", s));
    }
    if (rd == 2) before(all_in_c[p], dn.start(1), F("party %d server %d announces the end of the offline stage before the party installed its batch", p, s));
    if (rd == 2 && onl && cnt[p][s]) { // previous hop sends queries only after ready 2
      const Stream& us = p ? nxt[p - 1][s]->out : cl[s]->out; const Stream& ur = p ? nxt[p - 1][s]->in : cl[s]->in;
      before(ur.donefast(1), us.start(up_end_c(p, s)), F("queries are sent to party %d server %d before it is ready", p, s));
    }
    { const Stream& us = p ? nxt[p - 1][s]->out : cl[s]->out; const Stream& ur = p ? nxt[p - 1][s]->in : cl[s]->in;
      if (us.data.size() > 4) before(ur.donefast(0), us.start(4), F("messages are sent to party %d server %d before it is ready", p, s)); }
  }
  // secrets are installed everywhere before any client may query
  if (rd == 2) { u64 inst = 0; for (int p = 0; p < P; p++) inst = max(inst, all_in_c[p]); for (int s = 0; s < S; s++) before(inst, cl[s]->in.donefast(1), F("client %d is told the offline stage is over before every party has its secrets", s)); }
  stats["order_facts"] += ord;
  // ---- bounds on the times a party may report ------------------------------
  for (int p = 0; p + 1 < P; p++) for (int s = 0; s < S; s++) {
    const Stream& dn = back[p][s]->out; const Stream& in = back[p][s]->in; const Stream& no = nxt[p][s]->out; const Stream& ni = nxt[p][s]->in;
    // call entry of the read that brought byte off, only when that read brought nothing before it
    auto entry = [&](const Stream& st, u64 off) -> u64 {
      u64 prev = 0;
      for (auto& c : st.ch) { if (c.end > off) return prev == off ? c.t0 : 0; prev = c.end; }
      return 0;
    };
    double on_lo = 0, on_hi = 1e18, of_lo = 0, of_hi = 1e18;
    auto span = [](u64 a, u64 b) { return b > a ? (b - a) / 1e6 : 0.0; };
    u64 ex = parties[p][s].texit;
    if (onl) {
      u64 qoff = 4 + (offl ? cnt[p + 1][s] * LAYER * (P - p - 1) : 0);
      u64 e_hi = cnt[p][s] ? dn.start(rd) : ex;
      if (all_in_q[p] && e_hi) on_hi = span(all_in_q[p], e_hi);
      if (cnt[p + 1][s] && all_resp[p]) on_lo = span(no.start(qoff), all_resp[p]);
    }
    if (offl) {
      u64 s1 = no.donefast(3), e1 = cnt[p][s] ? entry(in, 4) : 0, s2 = all_in_c[p];
      u64 e2 = onl && cnt[p][s] ? entry(in, up_end_c(p, s)) : (!onl ? ex : 0);
      if (s1 && e1 && s2 && e2) of_hi = span(s1, e1) + span(s2, e2);
      u64 a = entry(ni, 0);
      if (a) of_lo += span(a, dn.donefast(0));
      if (cnt[p + 1][s] && rd == 2) of_lo += span(no.start(4), ni.donefast(1));
    }
    times += F("%s[%d,%d,%.4f,%.4f,%.4f,%.4f,%llu,%llu]", times.empty() ? "" : ",", p, s, on_lo, on_hi, of_lo, of_hi, (unsigned long long)cnt[p][s], (unsigned long long)cnt[p + 1][s]);
  }
  client_only();
  // every masked answer differs on both sides of a party (S mixing aside): covered by RESP
}

static void sid(const char* k, const void* d, size_t n) {
  auto& v = secret_ids[k];
  if (v.size() >= 3000) return;
  H16 h = hash_of((const unsigned char*)d, n);
  char b[20]; u64 x; memcpy(&x, &h, 8); snprintf(b, sizeof b, "%016llx", (unsigned long long)x);
  v.push_back(b);
}

int main(int argc, char** argv) {
  if (sodium_init() < 0) return 3;
  ifstream f(argv[1]);
  f >> P >> S >> D >> c_noise >> stage >> rng >> mode >> noise_mode >> maxnoise >> dir;
  N.resize(S); for (auto& n : N) f >> n;
  cok.resize(S); for (auto& c : cok) f >> c;
  pok.resize(P * S); for (auto& c : pok) f >> c;
  auto hex = [&](array<unsigned char, 32>* a) { string h; f >> h; for (int i = 0; i < 32; i++) (*a)[i] = strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16); };
  pk.resize(P); sk.resize(P);
  for (int p = 0; p < P; p++) hex(&pk[p]), hex(&sk[p]);
  if (!f) { fprintf(stderr, "bad spec\n"); return 3; }
  clients.resize(S); parties.assign(P, vector<Proc>(S));
  for (int s = 0; s < S; s++) if (!load(dir + "/c" + to_string(s) + ".log", &clients[s])) return 3;
  for (int p = 0; p < P; p++) for (int s = 0; s < S; s++) if (!load(dir + "/p" + to_string(p) + "s" + to_string(s) + ".log", &parties[p][s])) return 3;
  for (auto& c : clients) stats["events"] += c.events, stats["recvs"] += c.recvs, stats["sends"] += c.sends;
  for (auto& v : parties) for (auto& c : v) stats["events"] += c.events, stats["recvs"] += c.recvs, stats["sends"] += c.sends, stats["polls"] += c.polls;
  // interleaving fingerprint: order of the events of all processes in time
  {
    vector<pair<u64, u32>> ev; int id = 0;
    auto addp = [&](Proc& p) { id++; for (auto& c : p.conns) { for (auto& x : c.second.in.ch) ev.push_back({x.t1, u32(id * 4096 + c.first * 2)}); for (auto& x : c.second.out.ch) ev.push_back({x.t1, u32(id * 4096 + c.first * 2 + 1)}); } };
    for (auto& c : clients) addp(c);
    for (auto& v : parties) for (auto& c : v) addp(c);
    sort(ev.begin(), ev.end());
    u64 h = 1469598103934665603ull; for (auto& e : ev) { h ^= e.second; h *= 1099511628211ull; }
    printf("{\"fingerprint\":\"%016llx\",", (unsigned long long)h);
  }
  if (mode == "full") full_check(); else { client_only(); party_complete(); }
  stats["rows_hit"] = rows_hit.size();
  { set<u64> b, m; for (u64 r : rows_hit) { b.insert(r * 64 / D); m.insert(r % 64); } stats["rows_hit_bins"] = b.size(); stats["rows_hit_residues"] = m.size(); }
  printf("\"viol\":[");
  for (size_t i = 0; i < viol.size(); i++) { string m = viol[i].second; for (auto& ch : m) if (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ch = '\''; printf("%s[\"%s\",\"%s\"]", i ? "," : "", viol[i].first.c_str(), m.c_str()); }
  printf("],\"noise\":[%s],\"times\":[%s],\"secrets\":{", noise_vecs.c_str(), times.c_str());
  { bool f1 = true; for (auto& kv : secret_ids) { printf("%s\"%s\":[", f1 ? "" : ",", kv.first.c_str()); f1 = false; bool f2 = true; for (auto& h : kv.second) { printf("%s\"%s\"", f2 ? "" : ",", h.c_str()); f2 = false; } printf("]"); } }
  printf("},\"stats\":{");
  bool first = true;
  for (auto& kv : stats) { printf("%s\"%s\":%.17g", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
  printf("}}\n");
  return 0;
}
