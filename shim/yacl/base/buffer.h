#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl {
class Buffer {
 public:
  Buffer() = default;
  explicit Buffer(int64_t n) { Alloc(n); }
  explicit Buffer(size_t n) { Alloc(n); }
  explicit Buffer(int n) { Alloc(n); }
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const char* s) : Buffer(s, std::strlen(s)) {}
  explicit Buffer(ByteContainerView v) : Buffer(v.data(), v.size()) {}
  Buffer(const void* p, size_t n) { Alloc(n); if (n) std::memcpy(p_, p, n); }
  Buffer(void* p, size_t n, const std::function<void(void*)>& d) { Alloc(n); if (n) std::memcpy(p_, p, n); d(p); }
  Buffer(const Buffer& o) : Buffer(o.p_, o.n_) {}
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(const Buffer& o) { if (this != &o) { Buffer t(o); swap(t); } return *this; }
  Buffer& operator=(Buffer&& o) noexcept { if (this != &o) { Buffer t(std::move(o)); swap(t); } return *this; }
  ~Buffer() { reset(); }
  template <class T = void> T* data() { return reinterpret_cast<T*>(p_); }
  template <class T = void> const T* data() const { return reinterpret_cast<const T*>(p_); }
  int64_t size() const { return n_; }
  int64_t capacity() const { return cap_; }
  void reserve(int64_t c) { if (c > cap_) { char* q = new char[c]; if (n_) std::memcpy(q, p_, n_); delete[] p_; p_ = q; cap_ = c; } }
  void resize(int64_t n) { reserve(n); n_ = n; }
  void reset() { delete[] p_; p_ = nullptr; n_ = cap_ = 0; }
  template <class T = void> T* release() { T* r = reinterpret_cast<T*>(p_); p_ = nullptr; n_ = cap_ = 0; return r; }
  operator std::string_view() const { return std::string_view(p_, n_); }
  bool operator==(const Buffer& o) const { return n_ == o.n_ && (n_ == 0 || !std::memcmp(p_, o.p_, n_)); }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
 private:
  void Alloc(int64_t n) { if (n > 0) { p_ = new char[n]; n_ = cap_ = n; } }
  void swap(Buffer& o) noexcept { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); }
  char* p_ = nullptr;
  int64_t n_ = 0, cap_ = 0;
};
inline std::ostream& operator<<(std::ostream& os, const Buffer& b) { return os << "Buffer(" << b.size() << ")"; }
}  // namespace yacl
