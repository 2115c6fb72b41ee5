// Stand-in for Microsoft SEAL (not installable offline): only what the driver names.
#ifndef VB_SEAL_H_
#define VB_SEAL_H_
#include <cstddef>
#include <cstdint>
namespace seal {
enum class scheme_type : uint8_t { none, bfv, ckks, bgv };
class EncryptionParameters {
 public:
  EncryptionParameters(scheme_type t = scheme_type::none) : type(t) {}
  scheme_type type;
  uint32_t n = 0, logt = 0;
};
class GaloisKeys {
 public:
  bool valid = false;
};
}  // namespace seal
#endif
