#pragma once
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
namespace yacl::io {
inline constexpr char kFileRead = 'r';
class InputStream {
 public:
  virtual ~InputStream() = default;
  virtual InputStream& GetLine(std::string* ret, char delim) = 0;
  InputStream& GetLine(std::string* ret) { return GetLine(ret, '\n'); }
  virtual InputStream& Read(void* buf, size_t n) = 0;
  virtual bool Eof() const = 0;
  virtual operator bool() const = 0;
  virtual InputStream& Seekg(size_t pos) = 0;
  virtual size_t Tellg() = 0;
  virtual size_t GetLength() const = 0;
  virtual void Close() = 0;
  virtual const std::string& GetName() const = 0;
};
class OutputStream {
 public:
  virtual ~OutputStream() = default;
  virtual void Write(const void* buf, size_t n) = 0;
  virtual void Write(std::string_view s) { Write(s.data(), s.size()); }
  virtual size_t Tellp() = 0;
  virtual void Close() = 0;
  virtual void Flush() = 0;
  virtual const std::string& GetName() const = 0;
};
}  // namespace yacl::io
