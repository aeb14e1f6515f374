// Stand-in: the HE layer (SEAL) is not available here; only the names the
// remaining Cheetah code mentions are declared. See shim/src/cheetah_he.cc.
#pragma once
#include <array>
#include <cstdint>
#include <iosfwd>
namespace seal {
class SEALContext {};
class Plaintext {};
class Ciphertext {};
class SecretKey {};
class PublicKey {};
class KSwitchKeys {};
class GaloisKeys {};
using parms_id_type = std::array<uint64_t, 4>;
inline const parms_id_type parms_id_zero{};
}  // namespace seal
namespace spu::mpc::cheetah {
using RLWESecretKey = seal::SecretKey;
using RLWEPublicKey = seal::PublicKey;
using KSwitchKeys = seal::KSwitchKeys;
using GaloisKeys = seal::GaloisKeys;
using RLWECt = seal::Ciphertext;
using RLWEPt = seal::Plaintext;
class LWECt;
class PhantomLWECt;
}  // namespace spu::mpc::cheetah
