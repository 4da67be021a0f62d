#pragma once
#include <immintrin.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <type_traits>
#include "yacl/base/int128.h"
namespace yacl {
// 128-bit block on SSE (the operations the OKVS code uses).
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block(uint64_t hi, uint64_t lo) : mData(_mm_set_epi64x(hi, lo)) {}
  block(uint64_t x) : block(0, x) {}
  block(uint128_t v) : mData(_mm_set_epi64x((uint64_t)(v >> 64), (uint64_t)v)) {}
  block(int x) : block(0, (uint64_t)x) {}
  block(const __m128i& v) : mData(v) {}
  block(char e15, char e14, char e13, char e12, char e11, char e10, char e9, char e8, char e7, char e6, char e5, char e4, char e3, char e2, char e1, char e0)
      : mData(_mm_set_epi8(e15, e14, e13, e12, e11, e10, e9, e8, e7, e6, e5, e4, e3, e2, e1, e0)) {}
  block& operator=(const block&) = default;
  operator const __m128i&() const { return mData; }
  operator __m128i&() { return mData; }
  operator uint128_t() const { uint128_t r; std::memcpy(&r, &mData, 16); return r; }
  __m128i& m128i() { return mData; }
  const __m128i& m128i() const { return mData; }
  template <class T> std::array<T, 16 / sizeof(T)> as() const { std::array<T, 16 / sizeof(T)> r; std::memcpy(r.data(), &mData, 16); return r; }
  template <class T, std::enable_if_t<!std::is_same_v<std::remove_cv_t<T>, block>, int> = 0>
  void set(size_t i, T v) { std::memcpy((char*)&mData + i * sizeof(T), &v, sizeof(T)); }
  template <class T> T get(size_t i) const { T v; std::memcpy(&v, (const char*)&mData + i * sizeof(T), sizeof(T)); return v; }
  block operator^(const block& o) const { return _mm_xor_si128(mData, o.mData); }
  block operator^(uint128_t o) const { return *this ^ block(o); }
  block& operator^=(const block& o) { mData = _mm_xor_si128(mData, o.mData); return *this; }
  block operator&(const block& o) const { return _mm_and_si128(mData, o.mData); }
  block& operator&=(const block& o) { mData = _mm_and_si128(mData, o.mData); return *this; }
  block operator|(const block& o) const { return _mm_or_si128(mData, o.mData); }
  block& operator|=(const block& o) { mData = _mm_or_si128(mData, o.mData); return *this; }
  block operator~() const { return _mm_xor_si128(mData, _mm_set1_epi32(-1)); }
  block operator<<(uint8_t s) const { return block(uint128_t(*this) << s); }
  block operator>>(uint8_t s) const { return block(uint128_t(*this) >> s); }
  block operator+(const block& o) const { return _mm_add_epi64(mData, o.mData); }
  block operator-(const block& o) const { return _mm_sub_epi64(mData, o.mData); }
  bool operator==(const block& o) const { __m128i n = _mm_xor_si128(mData, o.mData); return _mm_test_all_zeros(n, n); }
  bool operator!=(const block& o) const { return !(*this == o); }
  bool operator<(const block& o) const { return uint128_t(*this) < uint128_t(o); }
  template <int S> block mm_slli_epi64() const { return _mm_slli_epi64(mData, S); }
  block slli_epi64(int s) const { return _mm_slli_epi64(mData, s); }
  block srai_epi16(int s) const { return _mm_srai_epi16(mData, s); }
  int movemask_epi8() const { return _mm_movemask_epi8(mData); }
  int testc(const block& o) const { return _mm_testc_si128(mData, o.mData); }
  void gf128Mul(const block& y, block& lo, block& hi) const {
    block t1 = _mm_clmulepi64_si128(mData, y.mData, 0x00), t2 = _mm_clmulepi64_si128(mData, y.mData, 0x10);
    block t3 = _mm_clmulepi64_si128(mData, y.mData, 0x01), t4 = _mm_clmulepi64_si128(mData, y.mData, 0x11);
    t2 = t2 ^ t3; t3 = _mm_slli_si128(t2.mData, 8); t2 = _mm_srli_si128(t2.mData, 8);
    lo = t1 ^ t3; hi = t4 ^ t2;
  }
};
inline std::ostream& operator<<(std::ostream& os, const block& b) { return ::operator<<(os, uint128_t(b)); }
}  // namespace yacl
