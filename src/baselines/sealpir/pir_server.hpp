#pragma once
#include "pir.hpp"
#include "pir_client.hpp"
class PIRServer {
 public:
  PIRServer(const seal::EncryptionParameters &, const PirParams &p) : p_(p) {}
  void set_galois_key(uint32_t, seal::GaloisKeys k) { keys_ = k.valid; }
  void set_database(const std::unique_ptr<const uint8_t[]> &bytes, uint64_t ele_num, uint64_t ele_size) {
    vb::charge("database", ele_num, ele_size);
    db_.assign(bytes.get(), bytes.get() + ele_num * ele_size);
  }
  void preprocess_database() { vb::charge("preprocess", db_.size(), 0); pre_ = true; }
  PirReply generate_reply(PirQuery &q, uint32_t) {
    vb::charge(keys_ && pre_ ? "reply" : "unready", q.serial, q.fv);
    PirReply r;
    r.serial = q.serial;
    uint64_t from = q.fv * vb::PER * p_.ele_size, to = from + vb::PER * p_.ele_size;
    for (; from < to; from++) r.data.push_back(from < db_.size() ? db_[from] : 0);
    return r;
  }

 private:
  PirParams p_;
  bool keys_ = false, pre_ = false;
  vector<uint8_t> db_;
};
