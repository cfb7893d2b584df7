#pragma once
#include <filesystem>
#include <fstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string f) : n_(std::move(f)), in_(n_, std::ios::binary | std::ios::ate) {
    if (!in_.is_open()) throw IoError("Open file " + n_ + " failed");
    len_ = in_.tellg();
    in_.seekg(0);
  }
  InputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); return *this; }
  using InputStream::GetLine;
  InputStream& Read(void* b, size_t n) override { in_.read((char*)b, n); return *this; }
  bool Eof() const override { return in_.eof(); }
  operator bool() const override { return !in_.fail(); }
  InputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  void Close() override { in_.close(); }
  const std::string& GetName() const override { return n_; }
 private:
  std::string n_;
  mutable std::ifstream in_;
  size_t len_;
};
class FileOutputStream : public OutputStream {
  // yacl creates the folder a new file goes into.
  static const std::string& MakeParent(const std::string& n) {
    auto p = std::filesystem::path(n).parent_path();
    std::error_code ec;
    if (!p.empty()) std::filesystem::create_directories(p, ec);
    return n;
  }
 public:
  explicit FileOutputStream(std::string f, bool trunc = true, bool = true)
      : n_(std::move(f)), out_(MakeParent(n_), std::ios::binary | (trunc ? std::ios::trunc : std::ios::app)) {
    if (!out_.is_open()) throw IoError("Open file " + n_ + " failed");
  }
  ~FileOutputStream() override { Close(); }
  void Write(const void* b, size_t n) override { out_.write((const char*)b, n); if (!out_.good()) throw IoError("write"); }
  using OutputStream::Write;
  size_t Tellp() override { return out_.tellp(); }
  void Close() override { if (out_.is_open()) out_.close(); }
  void Flush() override { out_.flush(); }
  const std::string& GetName() const override { return n_; }
 private:
  std::string n_;
  std::ofstream out_;
};
}  // namespace yacl::io
