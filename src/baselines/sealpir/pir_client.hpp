#pragma once
#include "pir.hpp"
class PIRClient {
 public:
  PIRClient(const seal::EncryptionParameters &, const PirParams &p) : p_(p) {}
  seal::GaloisKeys generate_galois_keys() {
    seal::GaloisKeys k;
    k.valid = true;
    vb::charge("galois", 0, 0);
    return k;
  }
  uint64_t get_fv_index(uint64_t row) { return row / vb::PER; }
  uint64_t get_fv_offset(uint64_t row) { return row % vb::PER; }
  PirQuery generate_query(uint64_t fv) {
    PirQuery q;
    q.fv = fv;
    q.serial = n_++;
    vb::charge("query", q.serial, fv);
    return q;
  }
  vector<uint8_t> decode_reply(PirReply &r, uint64_t offset) {
    vb::charge("decode", r.serial, offset);
    vector<uint8_t> v;
    for (uint64_t i = 0; i < p_.ele_size; i++) {
      uint64_t at = offset * p_.ele_size + i;
      v.push_back(at < r.data.size() ? r.data[at] : 0);
    }
    return v;
  }

 private:
  PirParams p_;
  uint64_t n_ = 0;
};
