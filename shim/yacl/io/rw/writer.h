#pragma once
#include <memory>
#include "yacl/io/rw/schema.h"
#include "yacl/io/stream/interface.h"
namespace yacl::io {
struct WriterOptions { Schema file_schema; char float_precision = 6; };
class Writer {
 public:
  virtual ~Writer() = default;
  virtual void Init() = 0;
  virtual bool Add(const ColumnVectorBatch& data) = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
}  // namespace yacl::io
