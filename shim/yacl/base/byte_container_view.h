#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/types/span.h"
namespace yacl {
class ByteContainerView {
 public:
  using value_type = uint8_t; using const_pointer = const uint8_t*; using size_type = size_t;
  constexpr ByteContainerView() noexcept = default;
  ByteContainerView(const char* s) noexcept : p_((const uint8_t*)s), n_(std::strlen(s)) {}
  template <class T, std::enable_if_t<sizeof(T) == 1, int> = 0>
  ByteContainerView(const T* p, size_t n) noexcept : p_((const uint8_t*)p), n_(n) {}
  ByteContainerView(const void* p, size_t n) noexcept : p_((const uint8_t*)p), n_(n) {}
  template <class C, class E = std::remove_pointer_t<decltype(std::declval<const C&>().data())>,
            class = decltype(std::declval<const C&>().size()),
            std::enable_if_t<!std::is_same_v<std::decay_t<C>, ByteContainerView>, int> = 0>
  ByteContainerView(const C& c) noexcept : p_((const uint8_t*)c.data()), n_(c.size() * SizeOf<E>()) {}
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  const uint8_t* cbegin() const { return p_; }
  const uint8_t* cend() const { return p_ + n_; }
  uint8_t operator[](size_t i) const { return p_[i]; }
  uint8_t at(size_t i) const { return p_[i]; }
  ByteContainerView subspan(size_t pos, size_t len = size_t(-1)) const {
    if (pos > n_) pos = n_;
    return ByteContainerView(p_ + pos, len < n_ - pos ? len : n_ - pos);
  }
  template <class C = char> explicit operator std::string() const { return std::string((const char*)p_, n_); }
  operator std::string_view() const { return std::string_view((const char*)p_, n_); }
  template <class T, std::enable_if_t<sizeof(T) == 1, int> = 0>
  operator absl::Span<const T>() const { return absl::Span<const T>((const T*)p_, n_); }
  bool operator==(const ByteContainerView& o) const { return n_ == o.n_ && (n_ == 0 || !memcmp(p_, o.p_, n_)); }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }
 private:
  template <class E> static constexpr size_t SizeOf() { if constexpr (std::is_void_v<E>) return 1; else return sizeof(E); }
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
}  // namespace yacl
