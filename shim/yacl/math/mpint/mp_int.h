#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
namespace yacl {
enum class Endian { native, little, big };
namespace math {
// Stand-in: an unsigned magnitude (scalars of the simulated groups).
class MPInt {
 public:
  MPInt() = default;
  template <class T, class = std::enable_if_t<std::is_integral_v<T>>> explicit MPInt(T v) : MPInt(v, 64) {}
  template <class T> MPInt(T v, size_t) { uint64_t x = v; while (x) { le_.push_back(x & 255); x >>= 8; } }
  void FromMagBytes(ByteContainerView b, Endian e = Endian::native) { le_.assign(b.begin(), b.end()); if (e == Endian::big) std::reverse(le_.begin(), le_.end()); Trim(); }
  Buffer ToMagBytes(Endian e = Endian::native) const { auto v = le_; if (e == Endian::big) std::reverse(v.begin(), v.end()); return Buffer(v.data(), v.size()); }
  const std::vector<uint8_t>& Le() const { return le_; }
  bool operator==(const MPInt& o) const { return le_ == o.le_; }
 private:
  void Trim() { while (!le_.empty() && le_.back() == 0) le_.pop_back(); }
  std::vector<uint8_t> le_;
};
}  // namespace math
}  // namespace yacl
