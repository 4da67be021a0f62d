// Stand-in for the subset of Apache Arrow the code uses: a streaming CSV reader
// and writer over plain file descriptors (so that the simulated disk sees every
// operation), with Arrow's rules for headers, quoting, nulls, type inference,
// included columns and error statuses.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
namespace sim { void SetProcMsg(const std::string& m); }
namespace arrow {
class Status {
 public:
  Status() = default;
  static Status OK() { return {}; }
  static Status Invalid(std::string m) { Status s; s.bad_ = true; s.m_ = "Invalid: " + m; return s; }
  static Status IOError(std::string m) { Status s; s.bad_ = true; s.m_ = "IOError: " + m; return s; }
  bool ok() const { return !bad_; }
  const std::string& message() const { return m_; }
  std::string ToString() const { return bad_ ? m_ : "OK"; }
 private:
  bool bad_ = false; std::string m_;
};
[[noreturn]] inline void DieWith(const Status& s) { fprintf(stderr, "ValueOrDie called on an error: %s\n", s.ToString().c_str()); sim::SetProcMsg("arrow ValueOrDie: " + s.ToString()); std::abort(); }
template <class T> class Result {
 public:
  Result(Status s) : s_(std::move(s)) {}
  Result(T v) : v_(std::move(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& operator*() & { return v_; }
  T&& operator*() && { return std::move(v_); }
  T ValueOrDie() && { if (!s_.ok()) DieWith(s_); return std::move(v_); }
  T& ValueOrDie() & { if (!s_.ok()) DieWith(s_); return v_; }
  T MoveValueUnsafe() { return std::move(v_); }
 private:
  Status s_; T v_{};
};
enum class TypeId { NA, INT64, UINT64, DOUBLE, STRING };
class DataType { public: explicit DataType(TypeId i) : id_(i) {} TypeId id() const { return id_; } std::string ToString() const; private: TypeId id_; };
std::shared_ptr<DataType> null();
std::shared_ptr<DataType> utf8();
std::shared_ptr<DataType> int64();
std::shared_ptr<DataType> uint64();
std::shared_ptr<DataType> float64();
class Field { public: Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {} const std::string& name() const { return n_; } const std::shared_ptr<DataType>& type() const { return t_; } private: std::string n_; std::shared_ptr<DataType> t_; };
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(std::vector<std::shared_ptr<Field>> f) : f_(std::move(f)) {}
  const std::vector<std::shared_ptr<Field>>& fields() const { return f_; }
  const std::shared_ptr<Field>& field(int i) const { return f_[i]; }
  int num_fields() const { return (int)f_.size(); }
  std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& x : f_) r.push_back(x->name()); return r; }
  int GetFieldIndex(const std::string& n) const { int r = -1; for (size_t i = 0; i < f_.size(); ++i) if (f_[i]->name() == n) { if (r >= 0) return -1; r = (int)i; } return r; }
  std::string ToString() const { std::string s; for (auto& x : f_) s += x->name() + ": " + x->type()->ToString() + "\n"; return s; }
 private:
  std::vector<std::shared_ptr<Field>> f_;
};
inline std::shared_ptr<Schema> schema(std::vector<std::shared_ptr<Field>> f) { return std::make_shared<Schema>(std::move(f)); }
class Array {
 public:
  explicit Array(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  virtual ~Array() = default;
  virtual int64_t length() const = 0;
  const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::shared_ptr<DataType> t_;
};
class StringArray : public Array {
 public:
  explicit StringArray(std::vector<std::string> v) : Array(utf8()), v_(std::move(v)) {}
  int64_t length() const override { return (int64_t)v_.size(); }
  std::string_view Value(int64_t i) const { return v_[i]; }
  std::string_view GetView(int64_t i) const { return v_[i]; }
  std::string GetString(int64_t i) const { return v_[i]; }
  bool IsNull(int64_t) const { return false; }
 private:
  std::vector<std::string> v_;
};
// Same layout for every 64-bit array: callers cast between them.
class WordArray : public Array {
 public:
  WordArray(std::shared_ptr<DataType> t, std::vector<uint64_t> v) : Array(std::move(t)), v_(std::move(v)) {}
  int64_t length() const override { return (int64_t)v_.size(); }
 protected:
  std::vector<uint64_t> v_;
};
class Int64Array : public WordArray { public: using WordArray::WordArray; int64_t Value(int64_t i) const { return (int64_t)v_[i]; } };
class UInt64Array : public WordArray { public: using WordArray::WordArray; uint64_t Value(int64_t i) const { return v_[i]; } };
class DoubleArray : public WordArray { public: using WordArray::WordArray; double Value(int64_t i) const { double d; __builtin_memcpy(&d, &v_[i], 8); return d; } };
class RecordBatch {
 public:
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) { auto r = std::make_shared<RecordBatch>(); r->s_ = std::move(s); r->n_ = n; r->c_ = std::move(c); return r; }
  int64_t num_rows() const { return n_; }
  int num_columns() const { return (int)c_.size(); }
  const std::shared_ptr<Array>& column(int i) const { return c_[i]; }
  const std::vector<std::shared_ptr<Array>>& columns() const { return c_; }
  const std::shared_ptr<Schema>& schema() const { return s_; }
 private:
  std::shared_ptr<Schema> s_; int64_t n_ = 0; std::vector<std::shared_ptr<Array>> c_;
};
struct UInt64Scalar { explicit UInt64Scalar(uint64_t v) : value(v) {} uint64_t value; };
class ArrayBuilder {
 public:
  Status Resize(int64_t n) { v_.reserve(n > (1 << 16) ? (1 << 16) : n); return {}; }
  Status AppendScalar(const UInt64Scalar& s) { v_.push_back(s.value); return {}; }
  Result<std::shared_ptr<Array>> Finish() { auto v = std::move(v_); v_.clear(); return std::shared_ptr<Array>(std::make_shared<UInt64Array>(uint64(), std::move(v))); }
  void Reset() { v_.clear(); }
  int64_t length() const { return v_.size(); }
 private:
  std::vector<uint64_t> v_;
};
class MemoryPool {};
MemoryPool* default_memory_pool();
inline Result<std::shared_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr) { return std::make_shared<ArrayBuilder>(); }
class Buffer {
 public:
  static std::shared_ptr<Buffer> FromString(std::string s) { auto b = std::make_shared<Buffer>(); b->s_ = std::move(s); return b; }
  const char* data() const { return s_.data(); }
  int64_t size() const { return (int64_t)s_.size(); }
 private:
  std::string s_;
};
namespace io {
struct IOContext {};
inline IOContext default_io_context() { return {}; }
class InputStream { public: virtual ~InputStream() = default; virtual Result<int64_t> Read(int64_t n, void* out) = 0; virtual Status Close() = 0; };
class ReadableFile : public InputStream {
 public:
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& path, MemoryPool* = nullptr);
  ~ReadableFile() override;
  Result<int64_t> Read(int64_t n, void* out) override;
  Status Close() override;
 private:
  int fd_ = -1; std::string path_;
};
class BufferReader : public InputStream {
 public:
  explicit BufferReader(std::shared_ptr<Buffer> b) : b_(std::move(b)) {}
  Result<int64_t> Read(int64_t n, void* out) override { int64_t k = b_->size() - at_; if (k > n) k = n; __builtin_memcpy(out, b_->data() + at_, k); at_ += k; return k; }
  Status Close() override { return {}; }
 private:
  std::shared_ptr<Buffer> b_; int64_t at_ = 0;
};
class OutputStream { public: virtual ~OutputStream() = default; virtual Status Write(const void* p, int64_t n) = 0; virtual Status Flush() = 0; virtual Status Close() = 0; virtual bool closed() const = 0; };
class FileOutputStream : public OutputStream {
 public:
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& path, bool append = false);
  ~FileOutputStream() override;
  Status Write(const void* p, int64_t n) override;
  Status Flush() override { return {}; }
  Status Close() override;
  bool closed() const override { return fd_ < 0; }
 private:
  int fd_ = -1; std::string path_;
};
}  // namespace io
class RecordBatchReader {
 public:
  virtual ~RecordBatchReader() = default;
  virtual std::shared_ptr<Schema> schema() const = 0;
  virtual Status ReadNext(std::shared_ptr<RecordBatch>* b) = 0;
  virtual Status Close() { return {}; }
};
namespace ipc {
using RecordBatchReader = arrow::RecordBatchReader;
class RecordBatchWriter { public: virtual ~RecordBatchWriter() = default; virtual Status WriteRecordBatch(const RecordBatch& b) = 0; virtual Status Close() { return {}; } };
}  // namespace ipc
namespace csv {
struct ReadOptions { static ReadOptions Defaults() { return {}; } bool use_threads = true; int32_t block_size = 1 << 20; int32_t skip_rows = 0; std::vector<std::string> column_names; };
struct ParseOptions { static ParseOptions Defaults() { return {}; } char delimiter = ','; bool quoting = true; char quote_char = '"'; bool double_quote = true; bool escaping = false; bool newlines_in_values = false; bool ignore_empty_lines = true; };
struct ConvertOptions { static ConvertOptions Defaults() { return {}; } std::unordered_map<std::string, std::shared_ptr<DataType>> column_types; std::vector<std::string> include_columns; bool include_missing_columns = false; bool strings_can_be_null = false; };
struct WriteOptions { static WriteOptions Defaults() { return {}; } bool include_header = true; };
class StreamingReader : public RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::InputStream> in, const ReadOptions&, const ParseOptions&, const ConvertOptions&);
};
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> out, const std::shared_ptr<Schema>& s, const WriteOptions& o = {});
}  // namespace csv
}  // namespace arrow
