#pragma once
#include "yacl/io/rw/writer.h"
namespace yacl::io {
class CsvWriter : public Writer {
 public:
  CsvWriter(WriterOptions o, std::unique_ptr<OutputStream> os, char fd = ',', char ld = '\n') : o_(std::move(o)), os_(std::move(os)), fd_(fd), ld_(ld) {}
  void Init() override { std::string s; for (auto& n : o_.file_schema.feature_names) { if (!s.empty()) s += fd_; s += n; } s += ld_; os_->Write(s); }
  bool Add(const ColumnVectorBatch& d) override {
    auto sh = d.Shape();
    for (size_t r = 0; r < sh.rows; ++r) { std::string s; for (size_t c = 0; c < sh.cols; ++c) { if (c) s += fd_; s += d.At<std::string>(r, c); } s += ld_; os_->Write(s); }
    return true;
  }
  void Flush() override { os_->Flush(); }
  void Close() override { os_->Close(); }
 private:
  WriterOptions o_; std::unique_ptr<OutputStream> os_; char fd_, ld_;
};
}  // namespace yacl::io
