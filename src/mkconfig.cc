// Writes a deployment configuration with the tree's own config writer.
// stdin: db eps delta P S ; per party: shared_seed pk_hex sk_hex ; per server:
// local_seed port parallel_port ip
#include <cstdlib>
#include <iostream>
#include <string>

#include "DPPIR/config/config.h"

template <typename A>
static void hex(const std::string& h, A* a) {
  for (size_t i = 0; i < a->size(); i++)
    (*a)[i] = strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16);
}

int main(int argc, char** argv) {
  DPPIR::config::Config c;
  long db;
  std::string eps, delta;
  int P, S;
  std::cin >> db >> eps >> delta >> P >> S;
  c.db_size = db;
  c.epsilon = strtod(eps.c_str(), nullptr);
  c.delta = strtod(delta.c_str(), nullptr);
  c.party_count = P;
  c.server_count = S;
  for (int p = 0; p < P; p++) {
    DPPIR::config::PartyConfig pc;
    std::string pk, sk;
    std::cin >> pc.shared_seed >> pk >> sk;
    hex(pk, &pc.onion_pkey);
    hex(sk, &pc.onion_skey);
    for (int s = 0; s < S; s++) {
      DPPIR::config::ServerConfig sc;
      std::cin >> sc.local_seed >> sc.port >> sc.parallel_port >> sc.ip;
      pc.servers.push_back(sc);
    }
    c.parties.push_back(pc);
  }
  if (!std::cin) return 3;
  DPPIR::config::WriteToFile(c, argv[1]);
  return 0;
}
