#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>
#include <vector>
#include "yacl/base/int128.h"
namespace yacl {
template <class Block = uint128_t, class A = std::allocator<Block>>
class dynamic_bitset {
 public:
  using size_type = size_t; using block_type = Block;
  static constexpr size_t bits_per_block = sizeof(Block) * 8;
  class reference {
   public:
    reference(Block& b, size_t i) : b_(b), m_(Block(1) << i) {}
    reference& operator=(bool v) { if (v) b_ |= m_; else b_ &= ~m_; return *this; }
    reference& operator=(const reference& o) { return *this = bool(o); }
    reference& operator^=(bool v) { if (v) b_ ^= m_; return *this; }
    reference& operator|=(bool v) { if (v) b_ |= m_; return *this; }
    reference& operator&=(bool v) { if (!v) b_ &= ~m_; return *this; }
    reference& flip() { b_ ^= m_; return *this; }
    operator bool() const { return (b_ & m_) != 0; }
    bool operator~() const { return !bool(*this); }
   private:
    Block& b_; Block m_;
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, uint64_t v = 0) : n_(n), b_((n + bits_per_block - 1) / bits_per_block) { if (n && v) { b_[0] = Block(v); Trim(); } }
  template <class S, class = std::enable_if_t<std::is_constructible_v<std::string, S> && !std::is_arithmetic_v<S>>>
  explicit dynamic_bitset(const S& in) { std::string s(in); resize(s.size()); for (size_t i = 0; i < s.size(); ++i) set(i, s[s.size() - 1 - i] == '1'); }
  void resize(size_t n, bool v = false) { size_t o = n_; b_.resize((n + bits_per_block - 1) / bits_per_block, Block(0)); n_ = n; if (v) for (size_t i = o; i < n; ++i) set(i); Trim(); }
  void clear() { n_ = 0; b_.clear(); }
  void push_back(bool v) { resize(n_ + 1); set(n_ - 1, v); }
  void append(Block v) { size_t o = n_; resize(n_ + bits_per_block); for (size_t i = 0; i < bits_per_block; ++i) set(o + i, (v >> i) & 1); }
  reference operator[](size_t i) { return reference(b_[i / bits_per_block], i % bits_per_block); }
  bool operator[](size_t i) const { return (b_[i / bits_per_block] >> (i % bits_per_block)) & 1; }
  bool test(size_t i) const { return (*this)[i]; }
  dynamic_bitset& set(size_t i, bool v = true) { (*this)[i] = v; return *this; }
  dynamic_bitset& reset(size_t i) { return set(i, false); }
  dynamic_bitset& reset() { for (auto& x : b_) x = 0; return *this; }
  dynamic_bitset& flip(size_t i) { (*this)[i].flip(); return *this; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return b_.size(); }
  Block* data() { return b_.data(); }
  const Block* data() const { return b_.data(); }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; ++i) c += (*this)[i]; return c; }
  bool any() const { return count() != 0; }
  bool none() const { return !any(); }
  std::string to_string(char z = '0', char o = '1') const { std::string s(n_, z); for (size_t i = 0; i < n_; ++i) if ((*this)[i]) s[n_ - 1 - i] = o; return s; }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size() && i < o.b_.size(); ++i) b_[i] ^= o.b_[i]; return *this; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && b_ == o.b_; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
 private:
  void Trim() { size_t r = n_ % bits_per_block; if (r && !b_.empty()) b_.back() &= (Block(1) << r) - 1; }
  size_t n_ = 0;
  std::vector<Block, A> b_;
};
}  // namespace yacl
