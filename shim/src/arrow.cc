#include <mutex>
#include "arrow/shim_arrow.h"
#include <charconv>
namespace arrow {
namespace shim { int64_t csv_rows_per_batch = 8192; }
#define T_(n, id) std::shared_ptr<DataType> n() { static auto t = std::make_shared<DataType>(TypeId::id); return t; }
T_(utf8, STRING) T_(int64, INT64) T_(uint64, UINT64) T_(float64, DOUBLE) T_(null, NA)
Status ArrayBuilder::AppendScalar(const Scalar& s) {
  if (auto* u = dynamic_cast<const UInt64Scalar*>(&s); u && t_->id() == TypeId::UINT64) { u_.push_back(u->value); return Status::OK(); }
  if (auto* u = dynamic_cast<const Int64Scalar*>(&s); u && t_->id() == TypeId::INT64) { u_.push_back(u->value); return Status::OK(); }
  if (auto* u = dynamic_cast<const StringScalar*>(&s); u && t_->id() == TypeId::STRING) { s_.push_back(u->value); return Status::OK(); }
  return Status::Invalid("Cannot append scalar of other type");
}
Result<std::shared_ptr<Array>> ArrayBuilder::Finish() {
  std::shared_ptr<Array> a;
  if (t_->id() == TypeId::UINT64) a = std::make_shared<UInt64Array>(std::move(u_));
  else if (t_->id() == TypeId::INT64) a = std::make_shared<Int64Array>(std::vector<int64_t>(u_.begin(), u_.end()));
  else a = std::make_shared<StringArray>(std::move(s_));
  u_.clear(); s_.clear();
  return a;
}
namespace io {
Result<std::shared_ptr<ReadableFile>> ReadableFile::Open(const std::string& path, MemoryPool*) {
  auto f = std::make_shared<ReadableFile>();
  f->in.open(path, std::ios::binary);
  if (!f->in.is_open()) return Status::IOError("Failed to open local file '" + path + "'");
  return f;
}
Result<std::shared_ptr<FileOutputStream>> FileOutputStream::Open(const std::string& path, bool append) {
  auto f = std::make_shared<FileOutputStream>();
  f->out_.open(path, std::ios::binary | (append ? std::ios::app : std::ios::trunc));
  if (!f->out_.is_open()) return Status::IOError("Failed to open local file '" + path + "'");
  return f;
}
Status FileOutputStream::Write(const void* p, int64_t n) {
  if (closed_) return Status::Invalid("write on closed file");
  out_.write((const char*)p, n);
  // Arrow's FileOutputStream is unbuffered: bytes are in the file at once.
  out_.flush();
  return out_.good() ? Status::OK() : Status::IOError("write");
}
Status FileOutputStream::Flush() { if (closed_) return Status::Invalid("flush on closed file"); out_.flush(); return Status::OK(); }
Status FileOutputStream::Close() { if (!closed_) { closed_ = true; out_.close(); } return Status::OK(); }
}  // namespace io
namespace csv {
namespace {
bool Utf8Ok(const std::string& s) {
  size_t i = 0, n = s.size();
  auto c = [&](size_t k) { return (unsigned char)s[k]; };
  while (i < n) {
    if (c(i) < 0x80) { ++i; continue; }
    int len; uint32_t cp;
    if ((c(i) & 0xE0) == 0xC0) { len = 2; cp = c(i) & 0x1F; }
    else if ((c(i) & 0xF0) == 0xE0) { len = 3; cp = c(i) & 0x0F; }
    else if ((c(i) & 0xF8) == 0xF0) { len = 4; cp = c(i) & 0x07; }
    else return false;
    if (i + len > n) return false;
    for (int k = 1; k < len; ++k) { if ((c(i + k) & 0xC0) != 0x80) return false; cp = (cp << 6) | (c(i + k) & 0x3F); }
    if ((len == 2 && cp < 0x80) || (len == 3 && cp < 0x800) || (len == 4 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) return false;
    i += len;
  }
  return true;
}
struct Cell { std::string v; bool quoted = false; };
// Parses one record starting at pos; returns false at end of input.
class Parser {
 public:
  Parser(std::string d, ParseOptions o) : d_(std::move(d)), o_(o) {
    if (d_.size() >= 3 && (unsigned char)d_[0] == 0xEF && (unsigned char)d_[1] == 0xBB && (unsigned char)d_[2] == 0xBF) p_ = 3;
  }
  bool Next(std::vector<Cell>* row) {
    if (o_.ignore_empty_lines)
      while (p_ < d_.size() && (d_[p_] == '\n' || d_[p_] == '\r')) ++p_;
    if (p_ >= d_.size()) return false;
    row->clear();
    row->emplace_back();
    bool start = true, inq = false;
    while (p_ < d_.size()) {
      char c = d_[p_++];
      if (inq) {
        if (c == o_.quote_char) {
          if (o_.double_quote && p_ < d_.size() && d_[p_] == o_.quote_char) { row->back().v.push_back(c); ++p_; }
          else inq = false;
        } else row->back().v.push_back(c);
        continue;
      }
      if (start && o_.quoting && c == o_.quote_char) { inq = true; row->back().quoted = true; start = false; continue; }
      start = false;
      if (c == o_.delimiter) { row->emplace_back(); start = true; continue; }
      if (c == '\r') { if (p_ < d_.size() && d_[p_] == '\n') ++p_; return true; }
      if (c == '\n') return true;
      row->back().v.push_back(c);
    }
    return true;
  }
 private:
  std::string d_;
  ParseOptions o_;
  size_t p_ = 0;
};
bool IsNullLit(const Cell& c) {
  static const char* k[] = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"};
  for (auto* x : k) if (c.v == x) return true;
  return false;
}
std::string Trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
template <typename T> bool ParseInt(const std::string& s0, T* o) {
  auto s = Trim(s0);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *o);
  return !s.empty() && r.ec == std::errc() && r.ptr == s.data() + s.size();
}
class Impl : public StreamingReader {
 public:
  Impl(std::string data, ParseOptions po, ConvertOptions co) : p_(std::move(data), po), co_(std::move(co)) {}
  Status Init() {
    std::vector<Cell> h;
    if (!p_.Next(&h)) return Status::Invalid("Empty CSV file");
    for (auto& c : h) names_.push_back(c.v);
    if (co_.include_columns.empty()) for (size_t i = 0; i < names_.size(); ++i) sel_.push_back(i);
    else for (auto& n : co_.include_columns) {
      size_t i = 0;
      for (; i < names_.size(); ++i) if (names_[i] == n) break;
      if (i == names_.size()) return Status::KeyError("Column '" + n + "' in include_columns does not exist in CSV file");
      sel_.push_back(i);
    }
    types_.resize(sel_.size());
    for (size_t k = 0; k < sel_.size(); ++k) { auto it = co_.column_types.find(names_[sel_[k]]); if (it != co_.column_types.end()) types_[k] = it->second; }
    // Arrow decodes the first block in Make, to infer types.
    auto st = Decode(&first_);
    if (!st.ok()) return st;
    have_first_ = true;
    return Status::OK();
  }
  // One Schema per reader: callers keep references into it.
  std::shared_ptr<Schema> schema() const override {
    std::lock_guard<std::mutex> g(schema_mu_);
    if (schema_) return schema_;
    FieldVector f;
    for (size_t k = 0; k < sel_.size(); ++k) f.push_back(field(names_[sel_[k]], types_[k] ? types_[k] : null()));
    return schema_ = std::make_shared<Schema>(f);
  }
  Status ReadNext(std::shared_ptr<RecordBatch>* b) override {
    if (closed_) return Status::Invalid("reader closed");
    if (have_first_) { have_first_ = false; *b = std::move(first_); return Status::OK(); }
    return Decode(b);
  }
  Status Close() override { closed_ = true; return Status::OK(); }
 private:
  Status Decode(std::shared_ptr<RecordBatch>* b) {
    *b = nullptr;
    std::vector<std::vector<Cell>> rows;
    std::vector<Cell> r;
    while ((int64_t)rows.size() < shim::csv_rows_per_batch && p_.Next(&r)) {
      if (r.size() != names_.size()) return Status::Invalid("CSV parse error: Expected " + std::to_string(names_.size()) + " columns, got " + std::to_string(r.size()));
      rows.push_back(r);
    }
    if (rows.empty()) return Status::OK();
    ArrayVector cols;
    for (size_t k = 0; k < sel_.size(); ++k) {
      size_t c = sel_[k];
      if (!types_[k]) {
        bool alln = true, alli = true;
        for (auto& x : rows) { if (IsNullLit(x[c])) continue; alln = false; int64_t v; if (!ParseInt(x[c].v, &v)) { alli = false; break; } }
        types_[k] = alln ? null() : alli ? int64() : utf8();
      }
      switch (types_[k]->id()) {
        case TypeId::INT64: case TypeId::UINT64: {
          std::vector<int64_t> vi; std::vector<uint64_t> vu;
          for (auto& x : rows) {
            int64_t a = 0; uint64_t u = 0;
            if (!IsNullLit(x[c])) {
              bool ok = types_[k]->id() == TypeId::INT64 ? ParseInt(x[c].v, &a) : ParseInt(x[c].v, &u);
              if (!ok) return Status::Invalid("CSV conversion error to " + types_[k]->ToString() + ": invalid value '" + x[c].v + "'");
            }
            vi.push_back(a); vu.push_back(u);
          }
          if (types_[k]->id() == TypeId::INT64) cols.push_back(std::make_shared<Int64Array>(vi)); else cols.push_back(std::make_shared<UInt64Array>(vu));
          break;
        }
        case TypeId::STRING: {
          std::vector<std::string> v;
          for (auto& x : rows) { if (co_.check_utf8 && !Utf8Ok(x[c].v)) return Status::Invalid("CSV conversion error to string: invalid UTF8 data"); v.push_back(x[c].v); }
          cols.push_back(std::make_shared<StringArray>(std::move(v)));
          break;
        }
        default: cols.push_back(std::make_shared<OtherArray>(types_[k], rows.size()));
      }
    }
    *b = RecordBatch::Make(schema(), rows.size(), cols);
    return Status::OK();
  }
  Parser p_;
  ConvertOptions co_;
  std::vector<std::string> names_;
  std::vector<size_t> sel_;
  std::vector<std::shared_ptr<DataType>> types_;
  mutable std::mutex schema_mu_;
  mutable std::shared_ptr<Schema> schema_;
  std::shared_ptr<RecordBatch> first_;
  bool have_first_ = false, closed_ = false;
};
class Writer : public ipc::RecordBatchWriter {
 public:
  Writer(std::shared_ptr<io::OutputStream> o, WriteOptions w) : o_(std::move(o)), w_(w) {}
  Status WriteRecordBatch(const RecordBatch& b) override {
    std::string s;
    for (int64_t i = 0; i < b.num_rows(); ++i)
      for (int c = 0; c < b.num_columns(); ++c) {
        if (auto* u = dynamic_cast<UInt64Array*>(b.column(c).get())) s += std::to_string(u->Value(i));
        else if (auto* u = dynamic_cast<Int64Array*>(b.column(c).get())) s += std::to_string(u->Value(i));
        else if (auto* u = dynamic_cast<StringArray*>(b.column(c).get())) { s += '"'; for (char ch : u->Value(i)) { if (ch == '"') s += '"'; s += ch; } s += '"'; }
        s += c + 1 == b.num_columns() ? '\n' : w_.delimiter;
      }
    return o_->Write(s.data(), s.size());
  }
  Status Close() override { return Status::OK(); }
 private:
  std::shared_ptr<io::OutputStream> o_;
  WriteOptions w_;
};
}  // namespace
Result<std::shared_ptr<StreamingReader>> StreamingReader::Make(io::IOContext, std::shared_ptr<io::InputStream> in, const ReadOptions&, const ParseOptions& po, const ConvertOptions& co) {
  std::string data;
  if (auto f = std::dynamic_pointer_cast<io::ReadableFile>(in))
    data.assign((std::istreambuf_iterator<char>(f->in)), std::istreambuf_iterator<char>());
  else if (auto b = std::dynamic_pointer_cast<io::BufferReader>(in))
    data = b->buf->ToString();
  auto r = std::make_shared<Impl>(std::move(data), po, co);
  auto st = r->Init();
  if (!st.ok()) return st;
  return std::static_pointer_cast<StreamingReader>(r);
}
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> s, const std::shared_ptr<Schema>& sc, const WriteOptions& o) {
  if (o.include_header) {
    std::string h;
    for (int i = 0; i < sc->num_fields(); ++i) h += (i ? ",\"" : "\"") + sc->field(i)->name() + "\"";
    h += "\n";
    (void)s->Write(h.data(), h.size());
  }
  return std::static_pointer_cast<ipc::RecordBatchWriter>(std::make_shared<Writer>(std::move(s), o));
}
}  // namespace csv
}  // namespace arrow
