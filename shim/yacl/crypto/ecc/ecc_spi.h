#pragma once
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/buffer.h"
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/math/mpint/mp_int.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
enum class HashToCurveStrategy { Autonomous, SHA512_SSWU_RO_, TryAndIncrement_SHA2, TryAndIncrement_SM, TryAndRehash_SHA2, TryAndRehash_SM, HashAsPointX_SHA2, HashAsPointX_SM };
enum class PointOctetFormat { Autonomous, Uncompressed, X962Compressed };
// Stand-in: an ideal commutative group (see DESIGN.md), one instance per
// curve name; serialised points have the real lengths (32, or 33 for sm2).
class EcGroup {
 public:
  explicit EcGroup(std::string curve);
  EcPoint HashToCurve(HashToCurveStrategy s, std::string_view str) const;
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const;
  void MulInplace(EcPoint* p, const math::MPInt& k) const { *p = Mul(*p, k); }
  EcPoint MulBase(const math::MPInt& k) const;
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const;
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat = PointOctetFormat::Autonomous) const;
  uint64_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const { return len_; }
  std::string GetCurveName() const { return curve_; }
  bool PointEqual(const EcPoint& a, const EcPoint& b) const { return std::get<Array32>(a) == std::get<Array32>(b); }
 private:
  std::string curve_; size_t len_; bool raw_;
};
struct EcGroupFactory {
  static EcGroupFactory& Instance();
  template <class... A> std::unique_ptr<EcGroup> Create(const std::string& n, A&&...) { return std::make_unique<EcGroup>(n); }
};
}  // namespace yacl::crypto
