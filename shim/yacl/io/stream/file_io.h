#pragma once
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
void ExitForFail(const std::string& name);
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string f) : name_(std::move(f)) {
    in_.open(name_, std::ios::binary | std::ios::in | std::ios::ate);
    if (!in_) YACL_THROW_IO_ERROR("open file {} failed", name_);
    len_ = in_.tellg(); in_.seekg(0);
  }
  operator bool() const override { return static_cast<bool>(in_); }
  bool Eof() const override { return in_.eof(); }
  FileInputStream& Read(void* b, size_t n) override { in_.read((char*)b, n); Check(); return *this; }
  FileInputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); Check(); return *this; }
  FileInputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); Check(); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  const std::string& GetName() const override { return name_; }
  void Close() override { in_.close(); }
 private:
  void Check() { if (in_.bad()) YACL_THROW_IO_ERROR("read file {} failed", name_); }
  std::string name_; std::ifstream in_; size_t len_ = 0;
};
size_t IoBuffer();  // buffer size the run gives output streams (0: the library's own)
class FileOutputStream : public OutputStream {
 public:
  explicit FileOutputStream(std::string f, bool trunc = true, bool exit_for_fail = true) : name_(std::move(f)), exit_(exit_for_fail) {
    std::error_code ec;
    auto dir = std::filesystem::path(name_).parent_path();
    if (!dir.empty() && !std::filesystem::exists(dir, ec)) std::filesystem::create_directories(dir, ec);
    if (size_t n = IoBuffer()) { buf_.resize(n); out_.rdbuf()->pubsetbuf(buf_.data(), n); }
    out_.open(name_, std::ios::binary | std::ios::out | (trunc ? std::ios::trunc : std::ios::app));
    if (!out_) YACL_THROW_IO_ERROR("open file {} failed", name_);
    open_ = true;
  }
  ~FileOutputStream() override {
    try { Close(); } catch (const std::exception& e) { if (exit_) yacl::io::ExitForFail(name_); }
  }
  using OutputStream::Write;
  void Write(const void* b, size_t n) override { out_.write((const char*)b, n); Check("write"); }
  size_t Tellp() override { return out_.tellp(); }
  void Flush() override { out_.flush(); Check("flush"); }
  const std::string& GetName() const override { return name_; }
  void Close() override { if (!open_) return; open_ = false; out_.close(); Check("close"); }
 private:
  void Check(const char* w) { if (!out_) YACL_THROW_IO_ERROR("{} file {} failed", w, name_); }
  std::vector<char> buf_; std::string name_; bool exit_, open_ = false; std::ofstream out_;
};
}  // namespace yacl::io
