#pragma once
#include "yacl/io/rw/reader.h"
namespace yacl::io {
struct WriterOptions { Schema file_schema; int float_precision = -1; };
class Writer {
 public:
  virtual ~Writer() = default;
  virtual void Init() = 0;
  virtual bool Add(const ColumnVectorBatch& b) = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
}  // namespace yacl::io
