#pragma once
#include <memory>
#include "yacl/io/rw/schema.h"
#include "yacl/io/stream/interface.h"
namespace yacl::io {
struct ReaderOptions { Schema file_schema; bool use_header_order = false; size_t batch_size = 50; size_t column_reader = 0; };
class Reader {
 public:
  virtual ~Reader() = default;
  virtual void Init() = 0;
  virtual bool Next(ColumnVectorBatch* data) = 0;
  virtual bool Next(size_t n, ColumnVectorBatch* data) = 0;
  virtual const std::vector<std::string>& Headers() const = 0;
};
}  // namespace yacl::io
