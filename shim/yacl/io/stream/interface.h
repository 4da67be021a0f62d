// Stand-ins for yacl/io: plain std::fstream underneath, errors thrown.
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include "yacl/base/exception.h"
namespace yacl::io {
class Stream { public: virtual ~Stream() = default; virtual const std::string& GetName() const = 0; };
class InputStream : public Stream {
 public:
  virtual operator bool() const = 0;
  virtual bool operator!() const { return !static_cast<bool>(*this); }
  virtual bool Eof() const = 0;
  virtual InputStream& Read(void* buf, size_t n) = 0;
  virtual InputStream& GetLine(std::string* ret, char delim = '\n') = 0;
  virtual InputStream& Seekg(size_t pos) = 0;
  virtual size_t Tellg() = 0;
  virtual size_t GetLength() const = 0;
  virtual void Close() = 0;
  virtual std::unique_ptr<InputStream> Spawn() { return nullptr; }
};
class OutputStream : public Stream {
 public:
  virtual void Write(const void* buf, size_t n) = 0;
  virtual void Write(std::string_view s) { Write(s.data(), s.size()); }
  virtual size_t Tellp() { return 0; }
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
}  // namespace yacl::io
