// yacl CSV reader: plain split on the delimiter (no quoting), header lookup by
// stripped name, ragged rows rejected.
#pragma once
#include "absl/strings/ascii.h"
#include "absl/strings/str_split.h"
#include "yacl/io/rw/reader.h"
namespace yacl::io {
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> in, char fd = ',', char ld = '\n') : o_(std::move(o)), in_(std::move(in)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string line;
    YACL_ENFORCE(NextLine(&line), "Get header line failed");
    for (auto t : absl::StrSplit(line, fd_)) h_.emplace_back(absl::StripAsciiWhitespace(t));
    for (auto& n : o_.file_schema.feature_names) {
      size_t i = 0;
      for (; i < h_.size(); ++i) if (h_[i] == n) break;
      YACL_ENFORCE(i < h_.size(), "can not find feature {} in csv header", n);
      sel_.push_back(i);
    }
  }
  bool Next(size_t n, ColumnVectorBatch* b) override {
    b->Clear();
    std::vector<StringColumnVector> cols(sel_.size());
    std::string line;
    size_t k = 0;
    while (k < n && NextLine(&line)) {
      std::vector<std::string> t = absl::StrSplit(line, fd_);
      YACL_ENFORCE(t.size() == h_.size(), "csv line field count mismatch");
      for (size_t i = 0; i < sel_.size(); ++i) cols[i].push_back(std::string(absl::StripAsciiWhitespace(t[sel_[i]])));
      ++k;
    }
    if (k == 0) return false;
    for (size_t i = 0; i < sel_.size(); ++i) {
      if (o_.file_schema.feature_types.at(i) == Schema::STRING) b->AppendCol<std::string>(std::move(cols[i]));
      else if (o_.file_schema.feature_types[i] == Schema::FLOAT) { FloatColumnVector v; for (auto& s : cols[i]) v.push_back(std::stof(s)); b->AppendCol<float>(std::move(v)); }
      else { DoubleColumnVector v; for (auto& s : cols[i]) v.push_back(std::stod(s)); b->AppendCol<double>(std::move(v)); }
    }
    return true;
  }
  bool Next(ColumnVectorBatch* b) override { return Next(o_.batch_size, b); }
  const std::vector<std::string>& Headers() const override { return h_; }
 private:
  bool NextLine(std::string* l) {
    if (!in_->GetLine(l, ld_)) return false;
    if (!l->empty() && l->back() == '\r') l->pop_back();
    return true;
  }
  ReaderOptions o_;
  std::unique_ptr<InputStream> in_;
  char fd_, ld_;
  std::vector<std::string> h_;
  std::vector<size_t> sel_;
};
}  // namespace yacl::io
