// Prints a configuration file as the tree reads it.
#include <cstdio>
#include "DPPIR/config/config.h"
int main(int argc, char** argv) {
  DPPIR::config::Config c = DPPIR::config::ReadFile(argv[1]);
  printf("@@JSON{\"viol\":[],\"stats\":{},\"db\":%u,\"eps\":\"%a\",\"delta\":\"%a\",\"P\":%d,\"S\":%d,\"parties\":[", unsigned(c.db_size), c.epsilon, c.delta, int(c.party_count), int(c.server_count));
  auto hex = [](const auto& k) { for (unsigned char b : k) printf("%02x", b); };
  for (size_t p = 0; p < c.parties.size(); p++) {
    auto& pc = c.parties[p];
    printf("%s{\"seed\":%d,\"pk\":\"", p ? "," : "", int(pc.shared_seed)); hex(pc.onion_pkey); printf("\",\"sk\":\""); hex(pc.onion_skey); printf("\",\"servers\":[");
    for (size_t s = 0; s < pc.servers.size(); s++) printf("%s[%d,%d,%d,\"%s\"]", s ? "," : "", int(pc.servers[s].local_seed), pc.servers[s].port, pc.servers[s].parallel_port, pc.servers[s].ip.c_str());
    printf("]}");
  }
  printf("]}\n");
  return 0;
}
