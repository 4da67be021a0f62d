#pragma once
#include <sstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(const std::string& s) : in_(s), len_(s.size()) {}
  operator bool() const override { return static_cast<bool>(in_); }
  bool Eof() const override { return in_.eof(); }
  MemInputStream& Read(void* b, size_t n) override { in_.read((char*)b, n); return *this; }
  MemInputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); return *this; }
  MemInputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  const std::string& GetName() const override { return name_; }
  void Close() override {}
 private:
  std::string name_ = "mem"; std::istringstream in_; size_t len_;
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* s) : s_(s) {}
  ~MemOutputStream() override { Close(); }
  using OutputStream::Write;
  void Write(const void* b, size_t n) override { buf_.append((const char*)b, n); }
  void Flush() override { *s_ = buf_; }
  const std::string& GetName() const override { return name_; }
  void Close() override { if (s_) { *s_ = buf_; s_ = nullptr; } }
 private:
  std::string name_ = "mem", buf_; std::string* s_;
};
}  // namespace yacl::io
