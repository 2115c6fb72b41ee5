// C12: configuration codec.
#include "u_common.h"
#include "DPPIR/config/config.h"
#include <fstream>
#include <limits>
using namespace DPPIR;
using namespace u;
using config::Config; using config::PartyConfig; using config::ServerConfig;
static int eint() { switch (below(6)) { case 0: return 0; case 1: return -1; case 2: return std::numeric_limits<int>::max(); case 3: return std::numeric_limits<int>::min(); case 4: return below(70000); default: return int(h64()); } }
static double edbl() { switch (below(9)) { case 0: return 0; case 1: return -0.0; case 2: return std::numeric_limits<double>::denorm_min(); case 3: return std::numeric_limits<double>::infinity(); case 4: return 0.1; case 5: return 1e-6; case 6: return std::numeric_limits<double>::max(); case 7: return std::numeric_limits<double>::quiet_NaN(); default: return below(1000000) / 7.0; } }
static Config rnd(int maxP, int maxS) {
  Config c; int P = below(maxP + 1), S = below(maxS + 1);
  c.db_size = below(3) ? below(1u << 20) : uint32_t(h64()); c.epsilon = edbl(); c.delta = edbl(); c.party_count = P; c.server_count = S;
  for (int p = 0; p < P; p++) { PartyConfig pc; pc.shared_seed = eint(); rn_buf(pc.onion_pkey.data(), 32); rn_buf(pc.onion_skey.data(), 32);
    if (below(4) == 0) { pc.onion_pkey.fill(below(3) == 0 ? 0 : below(2) ? 0xff : '\n'); }
    for (int s = 0; s < S; s++) { ServerConfig sc; sc.local_seed = eint(); sc.port = eint(); sc.parallel_port = eint();
      switch (below(6)) { case 0: sc.ip = ""; break; case 1: sc.ip = "127.0.0.1"; break; case 2: sc.ip = "255.255.255.255"; break; case 3: sc.ip = std::string(1 + below(300), 'a' + below(26)); break; case 4: sc.ip = "host with spaces\n\r\x1a\xff\x80"; break; default: sc.ip = "10." + std::to_string(below(256)) + ".0." + std::to_string(below(256)); }
      pc.servers.push_back(sc); }
    c.parties.push_back(pc); }
  return c;
}
static bool eqd(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool eq(const Config& a, const Config& b) {
  if (a.db_size != b.db_size || !eqd(a.epsilon, b.epsilon) || !eqd(a.delta, b.delta) || a.party_count != b.party_count || a.server_count != b.server_count || a.parties.size() != b.parties.size()) return false;
  for (size_t p = 0; p < a.parties.size(); p++) { auto& x = a.parties[p]; auto& y = b.parties[p];
    if (x.shared_seed != y.shared_seed || x.onion_pkey != y.onion_pkey || x.onion_skey != y.onion_skey || x.servers.size() != y.servers.size()) return false;
    for (size_t s = 0; s < x.servers.size(); s++) { auto& m = x.servers[s]; auto& n = y.servers[s]; if (m.local_seed != n.local_seed || m.port != n.port || m.parallel_port != n.parallel_port || m.ip != n.ip) return false; } }
  return true;
}
// decodes from an exact-size heap copy so that ASan sees the first overread
static int dec(const std::string& d, Config* out) { char* h = (char*)malloc(d.size() ? d.size() : 1); memcpy(h, d.data(), d.size()); char* base = d.size() ? h : h + 1; int r = probe([&] { *out = config::Deserialize(base, d.size()); }); free(h); return r; }
int main(int argc, char** argv) {
  uint64_t sd = strtoull(argv[1], 0, 10); double scale = atof(argv[2]); std::string dir = argv[3];
  init(sd);
  for (int i = 0; i < 1200 * scale; i++) {
    Config c = i % 60 == 0 ? rnd(255, 6) : i % 60 == 30 ? rnd(4, 255) : rnd(6, 6);
    std::string s = config::Serialize(c); Config d;
    if (dec(s, &d) != 0) { V("roundtrip", "a configuration that was just written is rejected"); continue; }
    if (!eq(c, d)) V("roundtrip", F("configuration with %d parties x %d servers reads back differently", int(c.party_count), int(c.server_count)));
    if (config::Serialize(d) != s) V("roundtrip", "writing the configuration that was read gives another file");
    stats["roundtrips"]++;
    if (i % 12 == 0) {
      std::string f = dir + "/c"; bool good = true; Config e;
      if (below(2)) { std::ofstream o(f, std::ios::binary); o << std::string(5000, 'x'); }  // an older, longer file
      int r = probe([&] { config::WriteToFile(c, f); e = config::ReadFile(f); });
      if (r != 0 || !eq(c, e)) V("file", "configuration written to a file reads back differently");
      unlink(f.c_str()); stats["file_roundtrips"]++;
    }
  }
  // malformed: every truncation, trailing bytes, missing file
  for (int i = 0; i < 14 * scale; i++) {
    Config c = rnd(3, 3); std::string s = config::Serialize(c); Config d;
    for (size_t n = 0; n < s.size(); n++) { if (dec(s.substr(0, n), &d) == 0) V("truncated", F("a file cut from %zu to %zu bytes is accepted", s.size(), n)); stats["truncations"]++; }
    for (size_t n = 1; n < 40; n++) { std::string t = s; for (size_t k = 0; k < n; k++) t.push_back(below(2) ? 0 : h64()); if (dec(t, &d) == 0) V("trailing", F("a file with %zu extra bytes is accepted", n)); stats["trailing"]++; }
    for (int k = 0; k < 300; k++) { std::string t = s; int m = 1 + below(4); for (int j = 0; j < m && !t.empty(); j++) t[below(t.size())] = h64(); Config e; if (dec(t, &e) == 0) { stats["mutants_accepted"]++; } stats["mutants"]++; }
  }
  { Config d; int r = probe([&] { d = config::ReadFile(dir + "/does-not-exist"); }); if (r == 0) V("file", "a missing file is accepted as a configuration"); }
  return finish();
}
