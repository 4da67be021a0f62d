#pragma once
#include <algorithm>
#include "absl/strings/str_split.h"
#include "yacl/io/rw/reader.h"
namespace yacl::io {
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> is, char fd = ',', char ld = '\n') : o_(std::move(o)), is_(std::move(is)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string line;
    if (!is_->GetLine(&line, ld_)) YACL_THROW_INVALID_FORMAT("csv: no header in {}", is_->GetName());
    Strip(&line);
    if (line.size() >= 3 && line.compare(0, 3, "\xEF\xBB\xBF") == 0) line.erase(0, 3);
    headers_ = absl::StrSplit(line, fd_);
    for (auto& n : o_.file_schema.feature_names) {
      auto it = std::find(headers_.begin(), headers_.end(), n);
      if (it == headers_.end()) YACL_THROW_INVALID_FORMAT("csv: column {} not found in {}", n, is_->GetName());
      cols_.push_back(it - headers_.begin());
    }
  }
  bool Next(ColumnVectorBatch* d) override { return Next(o_.batch_size, d); }
  bool Next(size_t n, ColumnVectorBatch* d) override {
    std::vector<StringColumnVector> c(cols_.size());
    std::string line; size_t rows = 0;
    while (rows < n && is_->GetLine(&line, ld_)) {
      Strip(&line);
      if (line.empty()) continue;
      std::vector<std::string> f = absl::StrSplit(line, fd_);
      if (f.size() != headers_.size()) YACL_THROW_INVALID_FORMAT("csv: field count mismatch in {}: {}", is_->GetName(), line);
      for (size_t i = 0; i < cols_.size(); ++i) c[i].push_back(f[cols_[i]]);
      ++rows;
    }
    d->Clear();
    if (rows == 0) return false;
    for (auto& x : c) d->AppendCol<std::string>(std::move(x));
    return true;
  }
  const std::vector<std::string>& Headers() const override { return headers_; }
 private:
  static void Strip(std::string* s) { if (!s->empty() && s->back() == '\r') s->pop_back(); }
  ReaderOptions o_; std::unique_ptr<InputStream> is_; char fd_, ld_;
  std::vector<std::string> headers_; std::vector<size_t> cols_;
};
}  // namespace yacl::io
