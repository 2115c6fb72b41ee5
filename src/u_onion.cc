// C10: onion encryption against libsodium used directly.
#include "u_common.h"
#include "DPPIR/onion/onion.h"
using namespace DPPIR;
using namespace u;
int main(int argc, char** argv) {
  uint64_t sd = strtoull(argv[1], 0, 10); double scale = atof(argv[2]);
  init(sd);
  const size_t L = 124;
  int iters = 120 * scale;
  for (int it = 0; it < iters; it++) {
    int P = 2 + below(it % 10 == 0 ? 14 : 5), first = below(P);
    if (it % 40 == 7) { P = 20 + below(40); first = below(3); }
    if (it == 11) P = 255, first = 0;  // as many parties as there can be
    if (it == 12) P = 255, first = 128 + below(126);
    if (it == 13) P = 129 + below(126), first = below(3);
    std::vector<pkey_t> pk(P); std::vector<skey_t> sk(P);
    for (int p = 0; p < P; p++) {
      onion::GenerateKeyPair(&pk[p], &sk[p]);
      unsigned char d[32]; crypto_scalarmult_base(d, sk[p].data());
      if (memcmp(d, pk[p].data(), 32)) V("key", "public key does not belong to secret key");
      for (int q = 0; q < p; q++) if (pk[q] == pk[p] || sk[q] == sk[p]) V("key", "key pair repeated");
    }
    int n = P - first;
    std::vector<OfflineSecret> ms(n);
    for (auto& m : ms) { rn_buf(&m, sizeof m); if (below(8) == 0) memset(&m, below(2) ? 255 : 0, sizeof m); }
    if (onion::CipherSize(n) != L * n) V("size", F("%d layers take %zu bytes instead of %zu", n, onion::CipherSize(n), L * n));
    auto c1 = onion::OnionEncrypt(ms.data(), first, P, pk);
    auto c2 = onion::OnionEncrypt(ms.data(), first, P, pk);
    std::vector<char> cur(c1.get(), c1.get() + L * n), cur2(c2.get(), c2.get() + L * n);
    for (int p = first; p < P; p++) {
      size_t sz = L * (P - p);
      // oracle: libsodium directly
      std::vector<unsigned char> pl(sz - 48);
      if (crypto_box_seal_open(pl.data(), (unsigned char*)cur.data(), sz, pk[p].data(), sk[p].data()) != 0) { V("open", F("layer %d of %d does not open with the key of party %d", p - first, n, p)); break; }
      if (memcmp(pl.data(), &ms[p - first], sizeof(OfflineSecret))) V("open", F("party %d of [%d,%d) finds another secret than was encrypted for it", p, first, P));
      // the tree's own decryption
      std::vector<char> exact(cur);  // exact-size heap buffer: ASan sees overreads
      onion::OnionLayer layer = onion::OnionDecrypt(exact.data(), P - p, pk[p], sk[p]);
      if (memcmp(&layer.Msg(), pl.data(), sizeof(OfflineSecret))) V("open", F("decryption at party %d returns another secret", p));
      if (p + 1 < P && memcmp(layer.NextLayer(), pl.data() + 76, sz - L)) V("open", F("decryption at party %d returns another inner onion", p));
      stats["layers"]++;
      // nobody else can open it
      for (int q = P > 60 ? below(64) : 0; q < P; q += P > 60 ? 64 : 1) if (q != p && crypto_box_seal_open(pl.data(), (unsigned char*)cur.data(), sz, pk[q].data(), sk[q].data()) == 0) V("secrecy", F("layer for party %d opens with the key of party %d", p, q));
      // inner layers are not visible from outside, secrets neither
      for (int q = p; q < P; q++) { unsigned char* m = (unsigned char*)&ms[q - first]; bool flat = true; for (int k = 1; k < 76; k++) flat = flat && m[k] == m[0]; if (!flat && memmem(cur.data(), sz, m + 8, 24)) V("secrecy", F("secret of party %d visible in the onion entering party %d", q, p)); }
      // same secrets, fresh ciphertexts at every depth
      size_t same = 0; for (size_t k = 0; k < sz; k++) same += cur[k] == cur2[k];
      if (same > sz / 8 + 24) V("secrecy", F("two encryptions of the same secrets agree on %zu of %zu bytes at layer %d", same, sz, p - first));
      crypto_box_seal_open(pl.data(), (unsigned char*)cur.data(), sz, pk[p].data(), sk[p].data());
      std::vector<unsigned char> pl2(sz - 48);
      if (crypto_box_seal_open(pl2.data(), (unsigned char*)cur2.data(), sz, pk[p].data(), sk[p].data()) != 0) { V("open", "second encryption does not open"); break; }
      // tampering with any byte is detected by the tree's decryption
      for (int t = 0; t < (P > 60 && p % 16 ? 0 : 6); t++) {
        std::vector<char> bad(cur); size_t at = t == 0 ? 0 : t == 1 ? sz - 1 : below(sz); if (t == 2) at = sz > L ? 76 + 48 + below(sz - L) : below(sz);
        bad[at] ^= 1 << below(8);
        bool accepted = false;
        int r = probe([&] { onion::OnionLayer l2 = onion::OnionDecrypt(bad.data(), P - p, pk[p], sk[p]); accepted = true; });
        if (r == 0 && accepted) V("tamper", F("party %d accepts an onion with byte %zu of %zu flipped", p, at, sz));
        stats["tampered"]++;
      }
      if (P <= 60 || p % 16 == 0) { int q = p; while (q == p) q = below(P);
        int r = probe([&] { onion::OnionDecrypt(exact.data(), P - p, pk[q], sk[q]); });
        if (r == 0) V("tamper", F("decryption with the keys of party %d accepts an onion for party %d", q, p)); stats["wrongkey"]++; }
      cur.assign(pl.begin() + 76, pl.end()); cur2.assign(pl2.begin() + 76, pl2.end());
    }
    stats["onions"]++;
  }
  return finish();
}
