// Back ends that are not built here (SEAL/APSI based PIR, the AVX-512 crypto
// library, the elligator2 map): calling one is an error of the harness.
#include <cstdlib>
#include "psi/cryptor/hash_to_curve_elligator2.h"
#include "psi/cryptor/ipp_ecc_cryptor.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace psi {
std::vector<yacl::crypto::EcPoint> IppEccCryptor::EccMask(const std::vector<yacl::crypto::EcPoint>&) const { abort(); }
yacl::crypto::EcPoint IppEccCryptor::HashToCurve(absl::Span<const char>) const { abort(); }
yacl::Buffer IppEccCryptor::SerializeEcPoint(const yacl::crypto::EcPoint&) const { abort(); }
yacl::crypto::EcPoint IppEccCryptor::DeserializeEcPoint(yacl::ByteContainerView) const { abort(); }
yacl::crypto::EcPoint IppElligator2Cryptor::HashToCurve(absl::Span<const char>) const { abort(); }
yacl::crypto::Array32 HashToCurveElligator2(yacl::ByteContainerView b, const std::string& dst) {
  std::string s = dst + std::string((const char*)b.data(), b.size());
  return yacl::crypto::EcGroup("Curve25519").GetCurveName().empty() ? yacl::crypto::Array32{} : std::get<yacl::crypto::Array32>(yacl::crypto::EcGroup("Curve25519").HashToCurve(yacl::crypto::HashToCurveStrategy::Autonomous, s));
}
}  // namespace psi
#include "psi/wrapper/apsi/cli/entry.h"
namespace psi::apsi_wrapper::cli {
int RunReceiver(const ReceiverOptions&, const std::shared_ptr<yacl::link::Context>&, int*) { abort(); }
int RunSender(const SenderOptions&, const std::shared_ptr<yacl::link::Context>&) { abort(); }
}  // namespace psi::apsi_wrapper::cli

namespace sim {
static struct { const char* name; size_t v; } g_sizes[32];
size_t SizeOf(const char* name, size_t shipped) {
  for (auto& e : g_sizes) if (e.name && !strcmp(e.name, name)) return e.v ? e.v : shipped;
  return shipped;
}
void SetSize(const char* name, size_t v) {
  for (auto& e : g_sizes) if (!e.name || !strcmp(e.name, name)) { e.name = name; e.v = v; return; }
}
}  // namespace sim
