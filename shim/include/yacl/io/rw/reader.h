#pragma once
#include <memory>
#include <string>
#include <variant>
#include <vector>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
template <class S> using ColumnVector = std::vector<S>;
using FloatColumnVector = ColumnVector<float>;
using DoubleColumnVector = ColumnVector<double>;
using StringColumnVector = ColumnVector<std::string>;
struct Schema {
  enum Type { STRING, FLOAT, DOUBLE };
  std::vector<Type> feature_types;
  std::vector<std::string> feature_names;
};
class ColumnVectorBatch {
 public:
  struct S { size_t rows, cols; };

  template <class T> const T& At(size_t row, size_t col) const { return std::get<ColumnVector<T>>(c_.at(col)).at(row); }
  template <class T> const ColumnVector<T>& Col_(size_t col) const { return std::get<ColumnVector<T>>(c_.at(col)); }
  
  template <class T> void AppendCol(ColumnVector<T> v) { c_.emplace_back(std::move(v)); }
  void Clear() { c_.clear(); }
  void Reserve(size_t) {}
  S Shape() const { return {c_.empty() ? 0 : std::visit([](auto& v) { return v.size(); }, c_[0]), c_.size()}; }
 private:
  std::vector<std::variant<FloatColumnVector, DoubleColumnVector, StringColumnVector>> c_;
};
struct ReaderOptions {
  size_t batch_size = 100000;
  bool column_reader = false;
  size_t row_reader_count = 0;
  Schema file_schema;
  bool use_header_order = false;
};
class Reader {
 public:
  virtual ~Reader() = default;
  virtual void Init() = 0;
  virtual bool Next(size_t n, ColumnVectorBatch* b) = 0;
  virtual bool Next(ColumnVectorBatch* b) = 0;
  virtual const std::vector<std::string>& Headers() const = 0;
};
}  // namespace yacl::io
