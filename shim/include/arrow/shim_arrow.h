// Minimal Arrow stand-in covering the API surface psi uses: CSV streaming
// reader (RFC4180 quoting as Arrow's parser does it, BOM skipped, blank lines
// ignored, ragged rows rejected, utf8 validated), CSV batch writer, arrays.
#pragma once
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace arrow {
namespace shim {
// rows per record batch produced by csv::StreamingReader (Arrow: whatever fits
// in a 1 MiB block). Harness varies it to place batch boundaries anywhere.
extern int64_t csv_rows_per_batch;
}
enum class StatusCode : char { OK = 0, KeyError = 3, Invalid = 4, IOError = 5 };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  static Status OK() { return {}; }
  static Status Invalid(const std::string& m) { return {StatusCode::Invalid, m}; }
  static Status KeyError(const std::string& m) { return {StatusCode::KeyError, m}; }
  static Status IOError(const std::string& m) { return {StatusCode::IOError, m}; }
  bool ok() const { return c_ == StatusCode::OK; }
  std::string ToString() const { return ok() ? "OK" : m_; }
  std::string message() const { return m_; }
  StatusCode code() const { return c_; }
 private:
  StatusCode c_ = StatusCode::OK;
  std::string m_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
template <typename T>
class Result {
 public:
  Result(T v) : v_(std::move(v)) {}
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, T>>>
  Result(U v) : v_(std::move(v)) {}
  Result(Status s) : s_(std::move(s)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  const T& ValueOrDie() const& { Check(); return v_; }
  T ValueOrDie() && { Check(); return std::move(v_); }
  T ValueUnsafe() && { return std::move(v_); }
  T MoveValueUnsafe() { return std::move(v_); }
  const T& operator*() const& { Check(); return v_; }
  T operator*() && { Check(); return std::move(v_); }
 private:
  // Real Arrow aborts; the double throws so that one process can explore many cases.
  void Check() const { if (!s_.ok()) throw std::runtime_error("arrow ValueOrDie called on an error: " + s_.ToString()); }
  Status s_;
  T v_{};
};
enum class TypeId { NA, STRING, INT64, UINT64, DOUBLE };
class DataType {
 public:
  explicit DataType(TypeId i) : id_(i) {}
  TypeId id() const { return id_; }
  std::string ToString() const {
    switch (id_) { case TypeId::STRING: return "string"; case TypeId::INT64: return "int64"; case TypeId::UINT64: return "uint64"; case TypeId::DOUBLE: return "double"; default: return "null"; }
  }
  bool Equals(const DataType& o) const { return id_ == o.id_; }
 private:
  TypeId id_;
};
std::shared_ptr<DataType> utf8();
std::shared_ptr<DataType> int64();
std::shared_ptr<DataType> uint64();
std::shared_ptr<DataType> float64();
std::shared_ptr<DataType> null();
class Field {
 public:
  Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {}
  const std::string& name() const { return n_; }
  const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::string n_;
  std::shared_ptr<DataType> t_;
};
using FieldVector = std::vector<std::shared_ptr<Field>>;
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(FieldVector f) : f_(std::move(f)) {}
  const FieldVector& fields() const { return f_; }
  const std::shared_ptr<Field>& field(int i) const { return f_.at(i); }
  int num_fields() const { return static_cast<int>(f_.size()); }
  std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& x : f_) r.push_back(x->name()); return r; }
  int GetFieldIndex(const std::string& n) const { for (size_t i = 0; i < f_.size(); ++i) if (f_[i]->name() == n) return i; return -1; }
 private:
  FieldVector f_;
};
inline std::shared_ptr<Schema> schema(FieldVector f) { return std::make_shared<Schema>(std::move(f)); }

class Array {
 public:
  virtual ~Array() = default;
  virtual int64_t length() const = 0;
  const std::shared_ptr<DataType>& type() const { return t_; }
  bool IsNull(int64_t) const { return false; }
 protected:
  explicit Array(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  std::shared_ptr<DataType> t_;
};
class StringArray : public Array {
 public:
  explicit StringArray(std::vector<std::string> v) : Array(utf8()), v_(std::move(v)) {}
  int64_t length() const override { return v_.size(); }
  std::string_view Value(int64_t i) const { return v_.at(i); }
  std::string_view GetView(int64_t i) const { return v_.at(i); }
  std::string GetString(int64_t i) const { return v_.at(i); }
 private:
  std::vector<std::string> v_;
};
// Int64Array / UInt64Array share one layout: psi static_casts between them
// (as Arrow's raw_values buffers permit).
class Int64Array : public Array {
 public:
  explicit Int64Array(std::vector<int64_t> v) : Array(int64()), v_(std::move(v)) {}
  int64_t length() const override { return v_.size(); }
  int64_t Value(int64_t i) const { return v_.at(i); }
 private:
  std::vector<int64_t> v_;
};
class UInt64Array : public Array {
 public:
  explicit UInt64Array(std::vector<uint64_t> v) : Array(uint64()), v_(std::move(v)) {}
  int64_t length() const override { return v_.size(); }
  uint64_t Value(int64_t i) const { return v_.at(i); }
 private:
  std::vector<uint64_t> v_;
};
class OtherArray : public Array {
 public:
  OtherArray(std::shared_ptr<DataType> t, int64_t n) : Array(std::move(t)), n_(n) {}
  int64_t length() const override { return n_; }
 private:
  int64_t n_;
};
using ArrayVector = std::vector<std::shared_ptr<Array>>;
class RecordBatch {
 public:
  RecordBatch(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) : s_(std::move(s)), n_(n), c_(std::move(c)) {}
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) { return std::make_shared<RecordBatch>(std::move(s), n, std::move(c)); }
  const std::shared_ptr<Array>& column(int i) const { return c_.at(i); }
  const ArrayVector& columns() const { return c_; }
  std::shared_ptr<Array> GetColumnByName(const std::string& n) const {
    for (int i = 0; i < s_->num_fields(); ++i) if (s_->field(i)->name() == n) return c_.at(i);
    return nullptr;
  }
  int num_columns() const { return c_.size(); }
  int64_t num_rows() const { return n_; }
  const std::shared_ptr<Schema>& schema() const { return s_; }
 private:
  std::shared_ptr<Schema> s_;
  int64_t n_;
  ArrayVector c_;
};
struct Scalar {
  virtual ~Scalar() = default;
};
struct UInt64Scalar : Scalar { uint64_t value; explicit UInt64Scalar(uint64_t v) : value(v) {} };
struct Int64Scalar : Scalar { int64_t value; explicit Int64Scalar(int64_t v) : value(v) {} };
struct StringScalar : Scalar { std::string value; explicit StringScalar(std::string v) : value(std::move(v)) {} };
class ArrayBuilder {
 public:
  explicit ArrayBuilder(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  Status AppendScalar(const Scalar& s);
  Status Resize(int64_t n) { if (n < 0) return Status::Invalid("resize"); return Status::OK(); }
  Status Reserve(int64_t) { return Status::OK(); }
  Result<std::shared_ptr<Array>> Finish();
  void Reset() { u_.clear(); s_.clear(); }
  int64_t length() const { return t_->id() == TypeId::STRING ? s_.size() : u_.size(); }
 private:
  std::shared_ptr<DataType> t_;
  std::vector<uint64_t> u_;
  std::vector<std::string> s_;
};
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t) { return std::make_unique<ArrayBuilder>(t); }
class MemoryPool {};
inline MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }
class RecordBatchReader {
 public:
  virtual ~RecordBatchReader() = default;
  virtual std::shared_ptr<Schema> schema() const = 0;
  virtual Status ReadNext(std::shared_ptr<RecordBatch>* b) = 0;
  virtual Status Close() { return Status::OK(); }
};
namespace ipc {
using RecordBatchReader = arrow::RecordBatchReader;
class RecordBatchWriter {
 public:
  virtual ~RecordBatchWriter() = default;
  virtual Status WriteRecordBatch(const RecordBatch& b) = 0;
  virtual Status Close() = 0;
};
}  // namespace ipc
class Buffer {
 public:
  explicit Buffer(std::string s) : s_(std::move(s)) {}
  Buffer(const uint8_t* p, int64_t n) : s_((const char*)p, (size_t)n) {}
  static std::shared_ptr<Buffer> FromString(std::string s) { return std::make_shared<Buffer>(std::move(s)); }
  static std::shared_ptr<Buffer> Wrap(const void* p, int64_t n) { return std::make_shared<Buffer>((const uint8_t*)p, n); }
  const uint8_t* data() const { return (const uint8_t*)s_.data(); }
  int64_t size() const { return (int64_t)s_.size(); }
  std::string ToString() const { return s_; }
 private:
  std::string s_;
};
namespace io {
struct IOContext {};
inline const IOContext& default_io_context() { static IOContext c; return c; }
class InputStream { public: virtual ~InputStream() = default; };
class OutputStream { public: virtual ~OutputStream() = default; virtual Status Write(const void* p, int64_t n) = 0; };
class ReadableFile : public InputStream {
 public:
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& path, MemoryPool* = nullptr);
  std::ifstream in;
};
class BufferReader : public InputStream {
 public:
  explicit BufferReader(std::shared_ptr<Buffer> b) : buf(std::move(b)) {}
  explicit BufferReader(const Buffer& b) : buf(std::make_shared<Buffer>(b)) {}
  explicit BufferReader(std::string_view v) : buf(Buffer::FromString(std::string(v))) {}
  static std::unique_ptr<BufferReader> FromString(std::string s) { return std::make_unique<BufferReader>(Buffer::FromString(std::move(s))); }
  std::shared_ptr<Buffer> buf;
};
class FileOutputStream : public OutputStream {
 public:
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& path, bool append = false);
  Status Write(const void* p, int64_t n) override;
  Status Flush();
  Status Close();
  bool closed() const { return closed_; }
  ~FileOutputStream() override { if (!closed_) (void)Close(); }
 private:
  std::ofstream out_;
  bool closed_ = false;
};
}  // namespace io
namespace csv {
struct ReadOptions {
  bool use_threads = true;
  int32_t block_size = 1 << 20;
  int32_t skip_rows = 0;
  std::vector<std::string> column_names;
  bool autogenerate_column_names = false;
  static ReadOptions Defaults() { return {}; }
};
struct ParseOptions {
  char delimiter = ',';
  bool quoting = true;
  char quote_char = '"';
  bool double_quote = true;
  bool escaping = false;
  bool newlines_in_values = false;
  bool ignore_empty_lines = true;
  static ParseOptions Defaults() { return {}; }
};
struct ConvertOptions {
  bool check_utf8 = true;
  std::unordered_map<std::string, std::shared_ptr<DataType>> column_types;
  std::vector<std::string> include_columns;
  std::vector<std::string> null_values;
  bool include_missing_columns = false;
  bool strings_can_be_null = false;
  static ConvertOptions Defaults() { return {}; }
};
struct WriteOptions {
  bool include_header = true;
  int32_t batch_size = 1024;
  char delimiter = ',';
  static WriteOptions Defaults() { return {}; }
};
class StreamingReader : public RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::InputStream>, const ReadOptions&, const ParseOptions&, const ConvertOptions&);
};
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> s, const std::shared_ptr<Schema>& sc, const WriteOptions& o = WriteOptions::Defaults());
}  // namespace csv
}  // namespace arrow
