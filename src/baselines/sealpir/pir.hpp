// Stand-in for SealPIR: same interface, serves rows in clear, records every call and
// charges a known cost to a virtual clock.
#ifndef VB_PIR_H_
#define VB_PIR_H_
#include <cassert>
#include <chrono>
#include <cstdint>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include "seal/seal.h"
using namespace std;
struct PirParams {
  bool enable_symmetric, enable_batching, enable_mswitching;
  uint64_t ele_num = 0, ele_size = 0;
  uint32_t d = 0;
};
struct PirQuery {
  uint64_t fv = ~0ull, serial = ~0ull;
};
struct PirReply {
  vector<uint8_t> data;
  uint64_t serial = ~0ull;
};
void gen_encryption_params(uint32_t n, uint32_t logt, seal::EncryptionParameters &p);
void verify_encryption_params(const seal::EncryptionParameters &p);
void gen_pir_params(uint64_t ele_num, uint64_t ele_size, uint32_t d, const seal::EncryptionParameters &e, PirParams &p,
                    bool symmetric = false, bool batching = true, bool mswitch = true);
namespace vb {
constexpr uint64_t PER = 16;  // elements per plaintext
uint64_t charge(const char *what, uint64_t a, uint64_t b);
}
#endif
