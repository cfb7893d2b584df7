#pragma once
#include <sstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(const std::string& s) : in_(s), len_(s.size()) {}
  InputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); return *this; }
  using InputStream::GetLine;
  InputStream& Read(void* b, size_t n) override { in_.read((char*)b, n); return *this; }
  bool Eof() const override { return in_.eof(); }
  operator bool() const override { return !in_.fail(); }
  InputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  void Close() override {}
  const std::string& GetName() const override { return n_; }
 private:
  mutable std::istringstream in_;
  size_t len_;
  std::string n_ = "MemInputStream";
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* o) : o_(o) {}
  ~MemOutputStream() override { Close(); }
  void Write(const void* b, size_t n) override { s_.append((const char*)b, n); }
  using OutputStream::Write;
  size_t Tellp() override { return s_.size(); }
  void Close() override { if (o_) { *o_ = s_; o_ = nullptr; } }
  void Flush() override {}
  const std::string& GetName() const override { return n_; }
 private:
  std::string* o_;
  std::string s_, n_ = "MemOutputStream";
};
}  // namespace yacl::io
