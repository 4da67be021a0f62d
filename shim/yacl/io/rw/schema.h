#pragma once
#include <cstdint>
#include <string>
#include <variant>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl::io {
struct Schema {
  enum Type { STRING, FLOAT, DOUBLE };
  std::vector<Type> feature_types;
  std::vector<std::string> feature_names;
};
template <class T> using ColumnVector = std::vector<T>;
using FloatColumnVector = ColumnVector<float>;
using DoubleColumnVector = ColumnVector<double>;
using StringColumnVector = ColumnVector<std::string>;
using ColumnType = std::variant<FloatColumnVector, DoubleColumnVector, StringColumnVector>;
class ColumnVectorBatch {
 public:
  struct S { size_t rows, cols; };
  void Clear() { cols_.clear(); }
  S Shape() const { return {cols_.empty() ? 0 : std::visit([](auto& v) { return v.size(); }, cols_[0]), cols_.size()}; }
  template <class T> void AppendCol(ColumnVector<T>&& c) { cols_.emplace_back(std::move(c)); }
  template <class T> void AppendCol(const ColumnVector<T>& c) { cols_.emplace_back(c); }
  template <class T> const T& At(size_t r, size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)).at(r); }
  template <class T> const ColumnVector<T>& Col(size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)); }
 private:
  std::vector<ColumnType> cols_;
};
}  // namespace yacl::io
