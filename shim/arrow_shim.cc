#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <charconv>
#include "arrow/shim.h"
#include "sim/sim.h"
namespace arrow {
std::string DataType::ToString() const {
  switch (id_) { case TypeId::NA: return "null"; case TypeId::INT64: return "int64"; case TypeId::UINT64: return "uint64"; case TypeId::DOUBLE: return "double"; default: return "string"; }
}
std::shared_ptr<DataType> null() { static auto t = std::make_shared<DataType>(TypeId::NA); return t; }
std::shared_ptr<DataType> utf8() { static auto t = std::make_shared<DataType>(TypeId::STRING); return t; }
std::shared_ptr<DataType> int64() { static auto t = std::make_shared<DataType>(TypeId::INT64); return t; }
std::shared_ptr<DataType> uint64() { static auto t = std::make_shared<DataType>(TypeId::UINT64); return t; }
std::shared_ptr<DataType> float64() { static auto t = std::make_shared<DataType>(TypeId::DOUBLE); return t; }
MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }
namespace io {
Result<std::shared_ptr<ReadableFile>> ReadableFile::Open(const std::string& path, MemoryPool*) {
  auto f = std::make_shared<ReadableFile>();
  f->path_ = path;
  do f->fd_ = ::open(path.c_str(), O_RDONLY | O_CLOEXEC); while (f->fd_ < 0 && errno == EINTR);
  if (f->fd_ < 0) return Status::IOError("Failed to open local file '" + path + "': " + strerror(errno));
  return f;
}
ReadableFile::~ReadableFile() { Close(); }
Result<int64_t> ReadableFile::Read(int64_t n, void* out) {
  int64_t got = 0;
  while (got < n) {
    ssize_t r = ::read(fd_, (char*)out + got, n - got);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return Status::IOError("Error reading bytes from file '" + path_ + "': " + strerror(errno));
    if (r == 0) break;
    got += r;
  }
  return got;
}
Status ReadableFile::Close() { if (fd_ >= 0) { int f = fd_; fd_ = -1; if (::close(f) != 0) return Status::IOError("close"); } return {}; }
Result<std::shared_ptr<FileOutputStream>> FileOutputStream::Open(const std::string& path, bool append) {
  auto f = std::make_shared<FileOutputStream>();
  f->path_ = path;
  do f->fd_ = ::open(path.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | (append ? O_APPEND : O_TRUNC), 0666); while (f->fd_ < 0 && errno == EINTR);
  if (f->fd_ < 0) return Status::IOError("Failed to open local file '" + path + "': " + strerror(errno));
  return f;
}
FileOutputStream::~FileOutputStream() { Close(); }
Status FileOutputStream::Write(const void* p, int64_t n) {
  if (fd_ < 0) return Status::Invalid("closed");
  int64_t done = 0;
  while (done < n) {
    ssize_t r = ::write(fd_, (const char*)p + done, n - done);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return Status::IOError("Error writing bytes to file: " + std::string(strerror(errno)));
    done += r;
  }
  return {};
}
Status FileOutputStream::Close() { if (fd_ >= 0) { int f = fd_; fd_ = -1; if (::close(f) != 0) return Status::IOError("Error closing file"); } return {}; }
}  // namespace io
namespace csv {
namespace {
bool Utf8(const std::string& s) {
  size_t i = 0, n = s.size();
  while (i < n) {
    unsigned char c = s[i];
    int k = c < 0x80 ? 0 : (c >> 5) == 6 && c >= 0xC2 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 && c <= 0xF4 ? 3 : -1;
    if (k < 0 || i + k >= n + 0u + (k == 0 ? 1 : 0)) return false;
    for (int j = 1; j <= k; ++j) if (i + j >= n || ((unsigned char)s[i + j] >> 6) != 2) return false;
    i += k + 1;
  }
  return true;
}
bool IsNull(const std::string& s) {
  static const char* kN[] = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"};
  for (auto k : kN) if (s == k) return true;
  return false;
}
struct Line { std::vector<std::string> f; };
class Impl : public StreamingReader {
 public:
  std::shared_ptr<io::InputStream> in; ReadOptions ro; ParseOptions po; ConvertOptions co;
  std::string rest; bool eof = false, first = true;
  std::vector<std::string> header; std::vector<int> cols; std::vector<TypeId> types;
  std::shared_ptr<Schema> schema_; std::shared_ptr<RecordBatch> head; Status dead; bool closed = false;
  // next block that ends at a line boundary
  Status Block(std::string* out) {
    for (;;) {
      size_t nl = eof ? rest.size() : rest.find_last_of("\n");
      if (eof || (nl != std::string::npos && rest.size() >= (size_t)ro.block_size)) {
        size_t n = eof ? rest.size() : nl + 1;
        out->assign(rest, 0, n); rest.erase(0, n); return {};
      }
      std::string b(ro.block_size, 0);
      auto r = in->Read(b.size(), b.data());
      if (!r.ok()) return r.status();
      if (*r < (int64_t)b.size()) eof = true;
      rest.append(b, 0, *r);
      if (!eof && rest.find('\n') != std::string::npos) { size_t n = rest.find_last_of('\n') + 1; out->assign(rest, 0, n); rest.erase(0, n); return {}; }
    }
  }
  Status Parse(const std::string& b, std::vector<Line>* out) {
    size_t i = 0, n = b.size();
    while (i < n) {
      if (b[i] == '\n' || b[i] == '\r') { ++i; continue; }
      Line l;
      for (;;) {
        std::string v;
        if (i < n && po.quoting && b[i] == po.quote_char) {
          ++i; bool ok = false;
          while (i < n) {
            if (b[i] == po.quote_char) { if (po.double_quote && i + 1 < n && b[i + 1] == po.quote_char) { v += po.quote_char; i += 2; continue; } ++i; ok = true; break; }
            if (b[i] == '\n') break;
            v += b[i++];
          }
          if (!ok) return Status::Invalid("CSV parser got out of sync with chunker");
          while (i < n && b[i] != po.delimiter && b[i] != '\n' && b[i] != '\r') v += b[i++];
        } else {
          while (i < n && b[i] != po.delimiter && b[i] != '\n' && b[i] != '\r') v += b[i++];
        }
        l.f.push_back(std::move(v));
        if (i < n && b[i] == po.delimiter) { ++i; if (i >= n || b[i] == '\n' || b[i] == '\r') { l.f.emplace_back(); break; } continue; }
        break;
      }
      if (i < n && b[i] == '\r') ++i;
      if (i < n && b[i] == '\n') ++i;
      out->push_back(std::move(l));
    }
    return {};
  }
  static bool Int(const std::string& s, uint64_t* v) {
    size_t a = s.find_first_not_of(" \t"); if (a == std::string::npos) return false;
    size_t e = s.find_last_not_of(" \t") + 1; int64_t x;
    auto r = std::from_chars(s.data() + a, s.data() + e, x);
    if (r.ec != std::errc() || r.ptr != s.data() + e) return false;
    *v = (uint64_t)x; return true;
  }
  static bool Dbl(const std::string& s, uint64_t* v) { char* e; if (s.empty()) return false; double d = strtod(s.c_str(), &e); if (*e) return false; memcpy(v, &d, 8); return true; }
  Status Convert(const std::vector<Line>& ls, std::shared_ptr<RecordBatch>* out) {
    std::vector<std::shared_ptr<Array>> arr;
    for (auto& l : ls) if (l.f.size() != header.size()) {
      std::string t; for (auto& x : l.f) t += (t.empty() ? "" : ",") + x;
      return Status::Invalid("CSV parse error: Expected " + std::to_string(header.size()) + " columns, got " + std::to_string(l.f.size()) + ": " + t);
    }
    for (size_t c = 0; c < cols.size(); ++c) {
      int k = cols[c];
      if (first && types[c] == TypeId::NA && co.column_types.find(header[k]) == co.column_types.end()) {
        bool all_null = true, all_int = true, all_dbl = true; uint64_t t;
        for (auto& l : ls) { if (IsNull(l.f[k])) continue; all_null = false; if (!Int(l.f[k], &t)) all_int = false; if (!Dbl(l.f[k], &t)) all_dbl = false; }
        types[c] = all_null ? TypeId::NA : all_int ? TypeId::INT64 : all_dbl ? TypeId::DOUBLE : TypeId::STRING;
      }
      if (types[c] == TypeId::STRING) {
        std::vector<std::string> v; v.reserve(ls.size());
        for (auto& l : ls) { if (!Utf8(l.f[k])) return Status::Invalid("In CSV column #" + std::to_string(k) + ": CSV conversion error to string: invalid UTF8 data"); v.push_back(l.f[k]); }
        arr.push_back(std::make_shared<StringArray>(std::move(v)));
      } else {
        std::vector<uint64_t> v; v.reserve(ls.size());
        for (auto& l : ls) {
          uint64_t x = 0;
          if (IsNull(l.f[k])) { v.push_back(0); continue; }
          bool ok = types[c] == TypeId::NA ? false : types[c] == TypeId::DOUBLE ? Dbl(l.f[k], &x) : Int(l.f[k], &x);
          if (!ok) return Status::Invalid("In CSV column #" + std::to_string(k) + ": CSV conversion error: invalid value '" + l.f[k] + "'");
          v.push_back(x);
        }
        if (types[c] == TypeId::UINT64) arr.push_back(std::make_shared<UInt64Array>(uint64(), std::move(v)));
        else if (types[c] == TypeId::DOUBLE) arr.push_back(std::make_shared<DoubleArray>(float64(), std::move(v)));
        else arr.push_back(std::make_shared<Int64Array>(types[c] == TypeId::NA ? null() : int64(), std::move(v)));
      }
    }
    if (first) {
      first = false;
      std::vector<std::shared_ptr<Field>> fs;
      for (size_t c = 0; c < cols.size(); ++c)
        fs.push_back(field(header[cols[c]], types[c] == TypeId::NA ? null() : types[c] == TypeId::INT64 ? int64() : types[c] == TypeId::UINT64 ? uint64() : types[c] == TypeId::DOUBLE ? float64() : utf8()));
      schema_ = arrow::schema(std::move(fs));
    }
    *out = RecordBatch::Make(schema_, (int64_t)ls.size(), std::move(arr));
    return {};
  }
  Status Init() {
    std::string b; std::vector<Line> ls;
    while (ls.empty()) {
      Status s = Block(&b); if (!s.ok()) return s;
      if (b.empty() && eof) return Status::Invalid("Empty CSV file");
      if (header.empty() && b.compare(0, 3, "\xEF\xBB\xBF") == 0) b.erase(0, 3);
      s = Parse(b, &ls); if (!s.ok()) return s;
      if (ls.empty() && eof) return Status::Invalid("Empty CSV file");
    }
    header = ls[0].f; ls.erase(ls.begin());
    if (co.include_columns.empty()) for (size_t i = 0; i < header.size(); ++i) cols.push_back((int)i);
    else for (auto& n : co.include_columns) {
      auto it = std::find(header.begin(), header.end(), n);
      if (it == header.end()) return Status::Invalid("Key Error: Column '" + n + "' in include_columns does not exist in CSV file");
      cols.push_back(int(it - header.begin()));
    }
    for (int k : cols) { auto it = co.column_types.find(header[k]); types.push_back(it == co.column_types.end() ? TypeId::NA : it->second->id()); }
    while (ls.empty()) {   // types are inferred from the first block with data
      Status s = Block(&b); if (!s.ok()) return s;
      if (b.empty() && eof) break;
      s = Parse(b, &ls); if (!s.ok()) return s;
    }
    Status s = Convert(ls, &head);
    if (ls.empty()) head = nullptr;
    return s;
  }
  std::shared_ptr<Schema> schema() const override { return schema_; }
  Status Close() override { closed = true; return in->Close(); }
  Status ReadNext(std::shared_ptr<RecordBatch>* out) override {
    out->reset();
    if (!dead.ok()) return dead;
    if (closed) return Status::Invalid("closed");
    if (head) { *out = std::move(head); head = nullptr; return {}; }
    std::string b; std::vector<Line> ls;
    while (ls.empty()) {
      Status s = Block(&b); if (!s.ok()) return dead = s;
      if (b.empty() && eof) return {};
      s = Parse(b, &ls); if (!s.ok()) return dead = s;
    }
    Status s = Convert(ls, out); if (!s.ok()) { out->reset(); return dead = s; }
    return {};
  }
};
class Writer : public ipc::RecordBatchWriter {
 public:
  Writer(std::shared_ptr<io::OutputStream> o) : o_(std::move(o)) {}
  Status WriteRecordBatch(const RecordBatch& b) override {
    std::string s;
    for (int64_t r = 0; r < b.num_rows(); ++r) {
      for (int c = 0; c < b.num_columns(); ++c) {
        if (c) s += ',';
        if (auto* u = dynamic_cast<UInt64Array*>(b.column(c).get())) s += std::to_string(u->Value(r));
        else if (auto* t = dynamic_cast<StringArray*>(b.column(c).get())) s += "\"" + t->GetString(r) + "\"";
        else return Status::Invalid("type");
      }
      s += '\n';
    }
    return o_->Write(s.data(), s.size());
  }
 private:
  std::shared_ptr<io::OutputStream> o_;
};
}  // namespace
Result<std::shared_ptr<StreamingReader>> StreamingReader::Make(io::IOContext, std::shared_ptr<io::InputStream> in, const ReadOptions& r, const ParseOptions& p, const ConvertOptions& c) {
  auto i = std::make_shared<Impl>();
  i->in = std::move(in); i->ro = r; i->po = p; i->co = c;
  if (sim::Active() && sim::K().io_chunk) i->ro.block_size = sim::K().io_chunk;
  Status s = i->Init();
  if (!s.ok()) return s;
  return std::shared_ptr<StreamingReader>(i);
}
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> out, const std::shared_ptr<Schema>&, const WriteOptions&) {
  return std::shared_ptr<ipc::RecordBatchWriter>(std::make_shared<Writer>(std::move(out)));
}
}  // namespace csv
}  // namespace arrow
