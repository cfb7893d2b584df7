// Batch providers, sorted key tables, csv checking and APSI csv conversion,
// each against a plain in-memory model.
#include <filesystem>
#include <numeric>
#include <set>
#include <unordered_map>
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/csv_checker.h"
#include "psi/utils/csv_converter.h"
#include "psi/utils/index_store.h"
#include "psi/utils/key.h"
#include "psi/utils/table_utils.h"
#include "arrow/shim_arrow.h"
#include "parties.h"
#include "tables.h"
using namespace pbt;
using tables::Row;
namespace fs = std::filesystem;



namespace {
struct Init { Init() { parties::Quiet(); } } init;
template <class F>
bool Throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
std::string Join(const Row& r, char sep = ',') {
  std::string o;
  for (size_t i = 0; i < r.size(); ++i) { if (i) o += sep; o += r[i]; }
  return o;
}
std::string Sv(const Row& r) { return "[" + Join(r, ' ') + "]"; }
std::string Sv(const std::vector<Row>& v) {
  std::string o;
  for (auto& r : v) { o += show(Join(r, '|')) + " "; if (o.size() > 2000) break; }
  return "[" + o + "]";
}
tables::Spelling GenSpelling(Ctx& c) {
  tables::Spelling s;
  s.quote = c.below(3);
  s.crlf = c.chance(1, 5);
  s.blank_lines = c.chance(1, 5);
  s.no_final_newline = c.chance(1, 5);
  return s;
}
// batch sizes next to the number of rows, its divisors, and 1
size_t GenBatch(Ctx& c, size_t n) {
  switch (c.below(5)) {
    case 0: return 1 + c.below(7);
    case 1: return std::max<size_t>(1, n);
    case 2: return std::max<size_t>(1, n / 2);
    case 3: return n + 1 + c.below(5);
    default: return 1 + c.below(n + 2);
  }
}
void GenChunk(Ctx& c, size_t n) {
  arrow::shim::csv_rows_per_batch = c.flip() ? (int64_t)(1 + c.below(n + 2)) : (int64_t)1 << 20;
}
// a table with nk key columns (a column order of its own) and one label pair
struct Gen1 {
  tables::Table t;
  Row keys, labels;
  std::vector<std::string> joined;
};
Gen1 GenTable(Ctx& c, int64_t max_rows, bool dups, bool comma_free) {
  Gen1 g;
  size_t n = 1 + c.skewed(0, max_rows - 1);
  size_t nk = 1 + c.below(3), nl = c.below(3);
  Row cols;
  for (size_t i = 0; i < nk; ++i) { cols.push_back("k" + std::to_string(i)); g.keys.push_back(cols.back()); }
  for (size_t i = 0; i < nl; ++i) { cols.push_back("l" + std::to_string(i)); g.labels.push_back(cols.back()); }
  std::vector<size_t> order(cols.size());
  std::iota(order.begin(), order.end(), 0);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
  if (nk > 1 && c.flip()) std::swap(g.keys[0], g.keys[nk - 1]);
  for (auto o : order) g.t.cols.push_back(cols[o]);
  std::vector<int> style(nk);
  for (auto& s : style) do s = c.below(tables::kStyles); while ((s == tables::kCommaStyle && (nk > 1 || comma_free)));
  uint64_t dom = dups ? 1 + c.below(2 * n) : 0;
  uint64_t off = c.below(50);
  std::set<std::string> seen;
  for (size_t r = 0; r < n; ++r) {
    Row row(cols.size());
    uint64_t id = dups ? c.below(dom) : r;
    for (size_t j = 0; j < cols.size(); ++j) {
      auto& cell = row[std::find(g.t.cols.begin(), g.t.cols.end(), cols[j]) - g.t.cols.begin()];
      if (j < nk) cell = tables::KeyVal(style[j], j == 0 ? id + off : mix(id * 31 + j) % 3 + off);
      else cell = (j % 2 ? "v" : "w ") + std::to_string(c.below(9));
    }
    g.t.rows.push_back(row);
  }
  for (auto& r : g.t.rows) g.joined.push_back(Join(tables::KeyOf(g.t, r, g.keys)));
  return g;
}

// Reads to the end, checking the size of each batch.
template <class Read>
std::vector<std::string> Drain(Read read, size_t bs, const char* what) {
  std::vector<std::string> out;
  bool last = false;
  for (;;) {
    auto b = read();
    if (b.empty()) break;
    REQUIRE(!last, std::string(what) + ": a batch follows a short batch");
    REQUIRE(b.size() <= bs, std::string(what) + ": batch of " << b.size() << " exceeds the batch size " << bs);
    last = b.size() < bs;
    out.insert(out.end(), b.begin(), b.end());
    REQUIRE(out.size() < 10000000, "endless stream");
  }
  return out;
}
std::string Diff(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  std::ostringstream o;
  o << "got " << got.size() << " items, expected " << want.size();
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    std::string a = i < got.size() ? got[i] : "<none>", b = i < want.size() ? want[i] : "<none>";
    if (a != b) { o << "; item " << i << ": got " << show(a) << ", expected " << show(b); break; }
  }
  return o.str();
}
}  // namespace

PROP(csv_provider, 20) {
  auto g = GenTable(c, c.thorough ? 3000 : 300, true, false);
  auto sp = GenSpelling(c);
  std::string path = c.scratch + "/t.csv";
  tables::WriteCsv(path, g.t, sp);
  size_t n = g.t.rows.size(), bs = GenBatch(c, n);
  GenChunk(c, n);
  char delim = c.flip() ? ',' : "|;\t-"[c.below(4)];
  bool labels = !g.labels.empty() && c.flip();
  c.note() << n << " rows, " << g.keys.size() << " keys, batch " << bs << ", chunk " << arrow::shim::csv_rows_per_batch << ", labels " << labels;
  c.nontrivial(n > bs || n > (size_t)arrow::shim::csv_rows_per_batch);
  std::vector<std::string> want, wantl;
  for (auto& r : g.t.rows) {
    want.push_back(Join(tables::KeyOf(g.t, r, g.keys), delim));
    wantl.push_back(Join(tables::KeyOf(g.t, r, g.labels), delim));
  }
  psi::ArrowCsvBatchProvider p(path, g.keys, bs, labels ? g.labels : Row{}, delim);
  REQUIRE(p.batch_size() == bs, "batch_size() is wrong");
  std::vector<std::string> gotl;
  auto got = Drain([&] {
    if (!labels && c.flip()) return p.ReadNextBatch();
    auto [k, l] = p.ReadNextLabeledBatch();
    if (labels) REQUIRE(l.size() == k.size(), "a labeled batch has " << k.size() << " keys and " << l.size() << " labels");
    else REQUIRE(l.empty(), "labels without label columns");
    gotl.insert(gotl.end(), l.begin(), l.end());
    return k;
  }, bs, "csv provider");
  REQUIRE(got == want, "keys: " << Diff(got, want));
  if (labels) REQUIRE(gotl == wantl, "labels: " << Diff(gotl, wantl));
  REQUIRE(p.row_cnt() == n, "row_cnt() is " << p.row_cnt() << " after " << n << " rows");
  REQUIRE(p.ReadNextBatch().empty() && p.ReadNextBatch().empty(), "data after the end of the stream");
}

PROP(memory_provider, 10) {
  size_t n = c.skewed(0, 200), bs = GenBatch(c, n);
  std::vector<std::string> items, labels;
  bool lab = c.flip(), shuf = c.flip();
  for (size_t i = 0; i < n; ++i) { items.push_back(c.flip() ? std::to_string(c.below(n)) : c.bytes(c.below(40))); labels.push_back("label" + std::to_string(i)); }
  int kind = c.below(5);
  c.note() << n << " items, batch " << bs << ", kind " << kind << (lab ? ", labels" : "") << (shuf ? ", shuffled" : "");
  c.nontrivial(n > bs);
  auto p = lab ? std::make_unique<psi::MemoryBatchProvider>(items, bs, labels, shuf)
               : shuf ? std::make_unique<psi::MemoryBatchProvider>(items, bs, std::vector<std::string>{}, true)
                      : std::make_unique<psi::MemoryBatchProvider>(items, bs);
  REQUIRE(p->batch_size() == bs && p->items() == items, "batch_size() or items() is wrong");
  if (lab && n) REQUIRE(p->labels() == labels, "labels() is wrong");
  else REQUIRE(Throws([&] { p->labels(); }), "labels() answered without labels");
  if (shuf && n) {
    auto s = p->shuffled_indices();
    REQUIRE(std::set<size_t>(s.begin(), s.end()).size() == n && s.size() == n && *std::max_element(s.begin(), s.end()) == n - 1, "shuffled_indices() is no permutation");
    if (n >= 30) REQUIRE(!std::is_sorted(s.begin(), s.end()), "shuffled_indices() is the identity on " << n << " items");
  } else REQUIRE(Throws([&] { p->shuffled_indices(); }), "shuffled_indices() answered without shuffling");
  std::vector<std::string> got;
  if (kind == 0) {
    got = Drain([&] { return p->ReadNextBatch(); }, bs, "memory provider");
  } else if (kind == 1) {
    if (!lab || !n) { REQUIRE(Throws([&] { p->ReadNextLabeledBatch(); }), "a labeled batch without labels"); return; }
    std::vector<std::string> gl;
    got = Drain([&] { auto [k, l] = p->ReadNextLabeledBatch(); gl.insert(gl.end(), l.begin(), l.end()); return k; }, bs, "memory provider");
    REQUIRE(gl == labels, "labels: " << Diff(gl, labels));
  } else if (kind == 2) {
    if (!shuf || !n) { REQUIRE(Throws([&] { p->ReadNextShuffledBatch(); }), "a shuffled batch without shuffling"); return; }
    std::set<size_t> seen;
    size_t next = 0;
    Drain([&] {
      auto b = p->ReadNextShuffledBatch();
      REQUIRE(b.batch_items.size() == b.batch_indices.size() && b.batch_items.size() == b.shuffled_indices.size(), "sizes differ in a shuffled batch");
      for (size_t i = 0; i < b.batch_items.size(); ++i) {
        REQUIRE(b.batch_indices[i] == next++, "batch indices are not consecutive");
        REQUIRE(b.shuffled_indices[i] < n && seen.insert(b.shuffled_indices[i]).second, "index " << b.shuffled_indices[i] << " given twice or out of range");
        REQUIRE(b.batch_items[i] == items[b.shuffled_indices[i]], "item does not match its index");
      }
      return b.batch_items;
    }, bs, "memory provider");
    REQUIRE(seen.size() == n, "only " << seen.size() << " of " << n << " items given");
    return;
  } else if (kind == 3) {
    std::vector<psi::PsiItemData> all;
    while (all.size() < n) {
      size_t k = 1 + c.below(n);
      auto b = p->ReadNext(k);
      REQUIRE(b.size() == std::min(k, n - all.size()), "ReadNext(" << k << ") gave " << b.size() << " with " << n - all.size() << " left");
      all.insert(all.end(), b.begin(), b.end());
    }
    REQUIRE(p->ReadNext(3).empty(), "data after the end");
    for (auto& d : all) { got.push_back(d.buf); REQUIRE(d.cnt == psi::PsiItemData().cnt, "count of an item without duplicates changed"); }
  } else {
    // ReadAll gives everything, whatever was read before, and does not consume
    if (c.flip() && n) p->ReadNext(1 + c.below(n));
    for (auto& d : p->ReadAll()) got.push_back(d.buf);
  }
  REQUIRE(got == items, "items: " << Diff(got, items));
  if (kind == 0 && c.flip()) {
    psi::MemoryDataStore st(items);
    REQUIRE(st.GetBucketNum() == 1, "bucket number");
    std::vector<std::string> g2;
    for (auto& d : st.Load(0)->ReadAll()) g2.push_back(d.buf);
    REQUIRE(g2 == items, "memory data store: " << Diff(g2, items));
  }
}

namespace {
// A provider of items with duplicate counts in batches of any sizes.
struct DupProvider : psi::IBasicBatchProvider {
  std::vector<std::string> items;
  std::vector<uint32_t> dups;
  std::vector<size_t> cuts;  // sizes of the batches
  size_t pos = 0, k = 0, bs = 0;
  size_t batch_size() const override { return bs; }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
    size_t n = std::min(items.size() - pos, k < cuts.size() ? cuts[k++] : bs);
    for (size_t i = 0; i < n; ++i) {
      r.first.push_back(items[pos + i]);
      if (dups[pos + i]) r.second[i] = dups[pos + i];
    }
    pos += n;
    return r;
  }
};
}  // namespace

PROP(shuffled_provider, 10) {
  size_t n = c.skewed(0, 400);
  auto base = std::make_shared<DupProvider>();
  base->bs = GenBatch(c, n);
  for (size_t i = 0; i < n; ++i) { base->items.push_back("it" + std::to_string(i)); base->dups.push_back(c.chance(1, 3) ? 1 + c.below(5) : 0); }
  size_t bs = GenBatch(c, n);
  bool csv = c.chance(1, 4);
  c.note() << n << " items, inner batch " << base->bs << ", batch " << bs << (csv ? ", csv" : "");
  c.nontrivial(n > bs && n > base->bs);
  auto items = base->items;
  auto dups = base->dups;
  std::unique_ptr<psi::SimpleShuffledBatchProvider> p;
  if (csv) {
    tables::Table t{{"x", "id"}, {}};
    for (auto& i : items) t.rows.push_back({"0", i});
    tables::WriteCsv(c.scratch + "/t.csv", t);
    GenChunk(c, n);
    dups.assign(n, 0);
    p = std::make_unique<psi::SimpleShuffledBatchProvider>(c.scratch + "/t.csv", Row{"id"}, bs);
  } else {
    p = std::make_unique<psi::SimpleShuffledBatchProvider>(base, bs);
  }
  REQUIRE(p->batch_size() == bs, "batch_size()");
  std::vector<size_t> perm;
  Drain([&] {
    auto b = p->ReadNextShuffledBatch();
    size_t m = b.batch_items.size();
    REQUIRE(b.batch_indices.size() == m && b.shuffled_indices.size() == m && b.dup_cnts.size() == m, "the parts of a shuffled batch have sizes " << m << " " << b.batch_indices.size() << " " << b.shuffled_indices.size() << " " << b.dup_cnts.size());
    for (size_t i = 0; i < m; ++i) {
      REQUIRE(b.batch_indices[i] == perm.size(), "batch index " << b.batch_indices[i] << " at position " << perm.size());
      size_t s = b.shuffled_indices[i];
      perm.push_back(s);
      REQUIRE(s < n, "shuffled index " << s << " of " << n);
      REQUIRE(b.batch_items[i] == items[s], "item " << show(b.batch_items[i]) << " is given as index " << s << " (" << show(items[s]) << ")");
      REQUIRE(b.dup_cnts[i] == dups[s], "duplicate count " << b.dup_cnts[i] << " of index " << s << ", expected " << dups[s]);
    }
    return b.batch_items;
  }, bs, "shuffled provider");
  REQUIRE(perm.size() == n && std::set<size_t>(perm.begin(), perm.end()).size() == n, perm.size() << " items given, of " << n);
  if (n >= 40 && (csv || base->bs >= 20)) REQUIRE(!std::is_sorted(perm.begin(), perm.end()), n << " items came in their order");
  REQUIRE(p->ReadNextShuffledBatch().batch_items.empty(), "data after the end");
}

// ---- sorting and key tables ------------------------------------------------
PROP(sort_csv, 20) {
  auto g = GenTable(c, c.thorough ? 800 : 120, true, true);
  auto sp = GenSpelling(c);
  std::string name = c.chance(1, 4) ? "t 'x" : "t";
  std::string in = c.scratch + "/" + name + ".csv", out = c.scratch + "/" + name + ".out.csv";
  bool numeric = c.chance(1, 4), unique = c.chance(1, 4);
  if (numeric) {
    auto ki = [&](const std::string& k) { return std::find(g.t.cols.begin(), g.t.cols.end(), k) - g.t.cols.begin(); };
    for (auto& r : g.t.rows) for (auto& k : g.keys) r[ki(k)] = std::to_string((int64_t)c.below(300) - 100);
  }
  tables::WriteCsv(in, g.t, sp);
  c.note() << g.t.rows.size() << " rows, " << g.keys.size() << " keys" << (numeric ? ", numeric" : "") << (unique ? ", unique" : "");
  c.nontrivial(g.t.rows.size() > 1);
  auto before = tables::Slurp(in);
  if (c.chance(1, 4)) { std::ofstream f(out); f << "stale\n1\n2\n"; }
  psi::MultiKeySort(in, out, g.keys, numeric, unique);
  REQUIRE(tables::Slurp(in) == before, "the input file changed");
  auto t = tables::ReadCsv(out);
  REQUIRE(t, "no output");
  REQUIRE(t->cols == g.t.cols, "the header is " << Sv(t->cols));
  auto key = [&](const Row& r) { return tables::KeyOf(g.t, r, g.keys); };
  auto num = [&](const Row& r) { std::vector<int64_t> v; for (auto& x : key(r)) v.push_back(std::stoll(x)); return v; };
  auto less = [&](const Row& a, const Row& b) { return numeric ? num(a) < num(b) : key(a) < key(b); };
  auto want = g.t.rows;
  std::stable_sort(want.begin(), want.end(), less);
  if (unique) {
    // repeated lines that are neighbours after sorting are given once
    REQUIRE(std::is_sorted(t->rows.begin(), t->rows.end(), less), "the output is not sorted");
    REQUIRE(std::set<Row>(want.begin(), want.end()) == std::set<Row>(t->rows.begin(), t->rows.end()), "unique sorting loses or invents rows");
    if (sp.quote != 2 && !(sp.crlf && sp.no_final_newline)) {
      want.erase(std::unique(want.begin(), want.end()), want.end());
      REQUIRE(t->rows.size() == want.size(), t->rows.size() << " rows after unique sorting, expected " << want.size());
    }
  } else {
    REQUIRE(t->rows == want, "rows: got " << Sv(t->rows).substr(0, 600) << ", expected " << Sv(want).substr(0, 600));
  }
  for (auto& e : fs::directory_iterator(c.scratch)) REQUIRE(e.path() == in || e.path() == out, "file left behind: " << e.path().filename().string());
}

PROP(key_info, 20) {
  auto g = GenTable(c, c.thorough ? 1500 : 200, true, false);
  bool sorted = c.chance(2, 3);
  if (!sorted) {  // unique keys
    std::set<std::string> seen;
    std::vector<Row> rows;
    std::vector<std::string> j;
    for (size_t i = 0; i < g.t.rows.size(); ++i)
      if (seen.insert(g.joined[i]).second) { rows.push_back(g.t.rows[i]); j.push_back(g.joined[i]); }
    g.t.rows = rows;
    g.joined = j;
  }
  size_t n = g.t.rows.size();
  GenChunk(c, n);
  std::string in = c.scratch + "/t.csv";
  tables::WriteCsv(in, g.t, GenSpelling(c));
  // model: distinct keys in file order (sorted for a sorted table)
  std::vector<size_t> ord(n);
  std::iota(ord.begin(), ord.end(), 0);
  auto key = [&](size_t i) { return tables::KeyOf(g.t, g.t.rows[i], g.keys); };
  if (sorted) std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return key(a) < key(b); });
  std::vector<std::string> keys;
  std::vector<uint32_t> start, dup;
  for (size_t i = 0; i < n; ++i) {
    auto& k = g.joined[ord[i]];
    if (sorted && !keys.empty() && keys.back() == k) ++dup.back();
    else { keys.push_back(k); start.push_back(i); dup.push_back(0); }
  }
  size_t m = keys.size(), bs = GenBatch(c, m);
  c.note() << (sorted ? "sorted" : "unique") << ", " << n << " rows, " << m << " keys, batch " << bs;
  c.nontrivial(m > bs);
  std::shared_ptr<psi::KeyInfo> ki;
  std::string spath = c.scratch + "/sorted.csv", kpath = c.scratch + "/keys.csv";
  auto table = psi::Table::MakeFromCsv(in);
  REQUIRE(table->Columns() == g.t.cols, "columns are " << Sv(table->Columns()));
  if (sorted && c.chance(1, 4)) {  // a key table of another sorted table is in the way
    tables::Table o = g.t;
    for (size_t i = 1 + c.below(6); i > 0 && !o.rows.empty(); --i) {
      if (c.flip()) o.rows.push_back(o.rows[c.below(o.rows.size())]);
      else o.rows.erase(o.rows.begin() + c.below(o.rows.size()));
    }
    if (!o.rows.empty()) {
      std::string a = c.scratch + "/older.csv";
      tables::WriteCsv(a, o, GenSpelling(c));
      psi::KeyInfo::Make(psi::SortedTable::Make(psi::Table::MakeFromCsv(a), a + ".s", g.keys), kpath);
      // it is told apart by the size of its source
      psi::SortedTable::Make(table, spath, g.keys);
      if (std::filesystem::file_size(a + ".s") == std::filesystem::file_size(spath)) {
        std::filesystem::remove(kpath);
        std::filesystem::remove(kpath + ".meta");
      } else c.label("older key table");
    }
  }
  auto make = [&] {
    if (sorted) ki = psi::KeyInfo::Make(psi::SortedTable::Make(table, spath, g.keys), kpath);
    else ki = psi::KeyInfo::Make(psi::UniqueKeyTable::Make(in, "csv", g.keys));
  };
  make();
  bool again = c.chance(1, 4);
  if (again) make();  // from the files of the first
  uint32_t dupkeys = std::count_if(dup.begin(), dup.end(), [](uint32_t d) { return d > 0; });
  REQUIRE(ki->KeyCnt() == m && ki->OriginCnt() == n && ki->DupKeyCnt() == dupkeys, "counts are " << ki->KeyCnt() << " keys, " << ki->OriginCnt() << " rows, " << ki->DupKeyCnt() << " repeated keys; expected " << m << ", " << n << ", " << dupkeys);
  REQUIRE(ki->SourceFileColumns() == g.t.cols, "source columns");
  // reading
  {
    auto p = ki->GetBatchProvider(bs);
    REQUIRE(p->batch_size() == bs, "batch size");
    size_t pos = 0;
    Drain([&] {
      auto b = p->ReadBatchWithInfo();
      REQUIRE(b.keys.size() == b.start_indexes.size() && b.keys.size() == b.dup_cnts.size(), "sizes differ in a batch");
      for (size_t i = 0; i < b.keys.size(); ++i, ++pos) {
        REQUIRE(pos < m && b.keys[i] == keys[pos], "key " << pos << " is " << show(b.keys[i]) << ", expected " << (pos < m ? show(keys[pos]) : "none"));
        REQUIRE(b.start_indexes[i] == start[pos] && b.dup_cnts[i] == dup[pos], "key " << pos << ": start " << b.start_indexes[i] << " duplicates " << b.dup_cnts[i] << ", expected " << start[pos] << " and " << dup[pos]);
      }
      return b.keys;
    }, bs, "key info");
    REQUIRE(pos == m, pos << " keys of " << m);
  }
  {
    auto p = ki->GetKeysProviderWithDupCnt(bs);
    size_t pos = 0;
    Drain([&] {
      if (c.flip()) {
        auto b = p->ReadNextBatch();
        for (auto& k : b) { REQUIRE(pos < m && k == keys[pos], "key " << pos << " is " << show(k)); ++pos; }
        return b;
      }
      auto [b, d] = p->ReadNextBatchWithDupCnt();
      for (size_t i = 0; i < b.size(); ++i, ++pos) {
        REQUIRE(pos < m && b[i] == keys[pos], "key " << pos << " is " << show(b[i]));
        auto it = d.find(i);
        REQUIRE((it == d.end() ? 0 : it->second) == dup[pos], "duplicates of key " << pos << ": " << (it == d.end() ? 0 : it->second) << ", expected " << dup[pos]);
      }
      for (auto& [i, v] : d) REQUIRE(i < b.size(), "a duplicate count for index " << i << " of a batch of " << b.size());
      return b;
    }, bs, "key provider");
    REQUIRE(pos == m, pos << " keys of " << m);
  }
  // a random intersection
  std::vector<uint32_t> idx, pc;
  int dens = c.below(4);
  for (uint32_t i = 0; i < m; ++i)
    if (dens == 3 || (dens && c.below(3) < (unsigned)dens)) { idx.push_back(i); pc.push_back(c.chance(1, 3) ? 1 + c.below(4) : 0); }
  std::vector<size_t> sh(idx.size());
  std::iota(sh.begin(), sh.end(), 0);
  for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[c.below(i)]);
  std::vector<uint32_t> si, spc;
  for (auto i : sh) { si.push_back(idx[i]); spc.push_back(pc[i]); }
  {
    psi::MemoryIndexReader rd(si, spc);
    psi::InterIndexProcessor ip(rd, ki->GetBatchProvider(bs));
    size_t pos = 0;
    for (;;) {
      auto b = ip.GetBatchInfo();
      if (b.empty()) break;
      for (auto& x : b) {
        REQUIRE(pos < idx.size(), "more intersection entries than given");
        REQUIRE(x.start_index == start[idx[pos]] && x.self_dup_cnt == dup[idx[pos]] && x.peer_dup_cnt == pc[pos],
                "entry " << pos << " is (" << x.start_index << "," << x.self_dup_cnt << "," << x.peer_dup_cnt << "), expected (" << start[idx[pos]] << "," << dup[idx[pos]] << "," << pc[pos] << ")");
        ++pos;
      }
    }
    REQUIRE(pos == idx.size(), pos << " intersection entries of " << idx.size());
    REQUIRE(ip.IsFinish() || idx.empty() || idx.back() + 1 == m, "not finished after all entries");
  }
  {
    // outputs: intersection rows repeated by the peer, the rest once, all in the order of the sorted file
    bool wi = c.chance(3, 4), we = c.chance(3, 4);
    std::string ip = wi ? c.scratch + "/inter.csv" : "", ep = we ? c.scratch + "/except.csv" : "";
    psi::KeyInfo::StatInfo st;
    int64_t icnt, ecnt;
    {
      psi::MemoryIndexReader rd(si, spc);
      psi::ResultDumper d(ip, ep);
      st = ki->ApplyPeerDupCnt(rd, d);
      d.Flush();
      icnt = d.intersect_cnt();
      ecnt = d.except_cnt();
    }
    std::vector<Row> wantI, wantE;
    uint32_t self = 0, peer = 0;
    for (size_t k = 0, q = 0; k < m; ++k) {
      bool in_ = q < idx.size() && idx[q] == k;
      for (uint32_t i = 0; i <= dup[k]; ++i) {
        auto& row = g.t.rows[ord[start[k] + i]];
        if (in_) for (uint32_t r = 0; r <= pc[q]; ++r) wantI.push_back(row);
        else wantE.push_back(row);
      }
      if (in_) { self += dup[k] + 1; peer += pc[q] + 1; ++q; }
    }
    REQUIRE(st.self_intersection_count == self && st.peer_intersection_count == peer && st.original_count == n && st.join_intersection_count == wantI.size() && st.inter_unique_cnt == idx.size(),
            "statistics are " << st.ToString() << ", expected self " << self << " peer " << peer << " original " << n << " unique " << idx.size() << " join " << wantI.size());
    REQUIRE((size_t)icnt == wantI.size() + 1 && (size_t)ecnt == wantE.size() + 1, "line counts " << icnt << " and " << ecnt);
    auto check = [&](const std::string& p, const std::vector<Row>& want, const char* what) {
      if (p.empty()) return;
      auto t = tables::ReadCsv(p);
      REQUIRE(t && t->cols == g.t.cols, what << ": bad header");
      REQUIRE(t->rows == want, what << " rows: " << Sv(t->rows).substr(0, 500) << ", expected " << Sv(want).substr(0, 500));
    };
    check(ip, wantI, "intersection");
    check(ep, wantE, "difference");
  }
  // the digest tells key sets apart, and nothing else
  if (sorted) {
    auto h2 = [&](const std::vector<Row>& rows, const char* nm) {
      tables::Table t{g.t.cols, rows};
      std::string a = c.scratch + "/" + nm + ".csv";
      tables::WriteCsv(a, t, GenSpelling(c));
      return psi::KeyInfo::Make(psi::SortedTable::Make(psi::Table::MakeFromCsv(a), a + ".s", g.keys), a + ".k")->KeysHash();
    };
    auto rows = g.t.rows;
    for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[c.below(i)]);
    for (size_t i = c.below(3); i > 0; --i) rows.push_back(rows[c.below(rows.size())]);
    for (auto& r : rows) for (auto& l : g.labels) r[std::find(g.t.cols.begin(), g.t.cols.end(), l) - g.t.cols.begin()] = "other";
    REQUIRE(h2(rows, "same") == ki->KeysHash(), "two tables of the same keys have different digests");
    if (m > 1) {
      auto drop = keys[c.below(m)];
      std::vector<Row> fewer;
      for (auto& r : rows) if (Join(tables::KeyOf(g.t, r, g.keys)) != drop) fewer.push_back(r);
      REQUIRE(h2(fewer, "fewer") != ki->KeysHash(), "tables of different keys have the same digest");
    }
  }
}

// ---- checking of csv files -------------------------------------------------
PROP(csv_checker, 20) {
  bool dups = c.chance(1, 2);
  size_t n = 1 + c.skewed(0, c.thorough ? 1000 : 150), nc = 1 + c.below(4);
  tables::Table t;
  for (size_t i = 0; i < nc; ++i) t.cols.push_back("c" + std::to_string(i));
  uint64_t dom = dups ? 1 + c.below(3 * n) : 0;
  static const int styles[] = {0, 1, 2, 3, 5, 8, 12, 15};
  int st = styles[c.below(8)];
  for (size_t i = 0; i < n; ++i) {
    Row r;
    for (size_t j = 0; j < nc; ++j) r.push_back(tables::KeyVal(st, dups ? c.below(dom) % (j ? 3 : dom) : j ? c.below(3) : i));
    t.rows.push_back(r);
  }
  Row fields;
  if (dups) { for (auto& x : t.cols) if (c.flip()) fields.push_back(x); if (fields.empty()) fields = {t.cols[c.below(nc)]}; }
  else { fields = {"c0"}; for (size_t i = 1; i < nc; ++i) if (c.flip()) fields.push_back(t.cols[i]); }
  if (fields.size() > 1 && c.flip()) std::swap(fields[0], fields.back());
  bool bom = c.chance(1, 10), empty = c.chance(1, 6), skip = c.chance(1, 3);
  size_t ei = 0;
  if (empty) { ei = c.below(n); t.rows[ei][std::find(t.cols.begin(), t.cols.end(), fields[c.below(fields.size())]) - t.cols.begin()] = ""; if (nc == 1) empty = false, t.rows[ei][0] = "only"; }
  auto cnt = tables::Counts(t, fields);
  bool has_dup = cnt.size() < n;
  std::string path = c.scratch + "/t.csv";
  {
    std::ofstream f(path, std::ios::binary);
    if (bom) f << "\xEF\xBB\xBF";
    f << Join(t.cols) << "\n";
    for (auto& r : t.rows) f << Join(r) << "\n";
  }
  c.note() << n << " rows, fields " << Sv(fields) << (bom ? ", BOM" : "") << (empty ? ", empty token" : "") << (has_dup ? ", duplicates" : "") << (skip ? ", skip" : "");
  c.nontrivial(n > 1 && (bom || empty || has_dup || fields.size() > 1));
  bool refuse = bom || empty || (has_dup && !skip);
  std::unique_ptr<psi::CsvChecker> ck;
  std::string err;
  try { ck = std::make_unique<psi::CsvChecker>(path, fields, skip); } catch (const std::exception& e) { err = e.what(); }
  for (auto& e : fs::directory_iterator(c.scratch)) REQUIRE(e.path() == path, "file left behind: " << e.path().filename().string());
  REQUIRE((ck == nullptr) == refuse, (refuse ? "the file was accepted" : "the file was refused: " + err.substr(0, 200)));
  if (!ck) return;
  REQUIRE(ck->data_count() == n, "data_count() is " << ck->data_count() << " for " << n << " rows");
  // the digest depends on the selected values in order, and on nothing else
  auto digest = [&](const tables::Table& x, const Row& fl) {
    std::string p = c.scratch + "/u.csv";
    { std::ofstream f(p, std::ios::binary); f << Join(x.cols) << "\n"; for (auto& r : x.rows) f << Join(r) << "\n"; }
    return psi::CsvChecker(p, fl, true).hash_digest();
  };
  REQUIRE(ck->hash_digest().size() == 64, "digest " << ck->hash_digest());
  auto u = t;
  for (auto& r : u.rows) for (size_t j = 0; j < nc; ++j) if (std::find(fields.begin(), fields.end(), t.cols[j]) == fields.end()) r[j] += "x";
  REQUIRE(digest(u, fields) == ck->hash_digest(), "columns that are not selected change the digest");
  u = t;
  size_t ri = c.below(n), col = std::find(t.cols.begin(), t.cols.end(), fields[c.below(fields.size())]) - t.cols.begin();
  u.rows[ri][col] += "1";
  REQUIRE(digest(u, fields) != ck->hash_digest(), "a changed value keeps the digest");
  if (n > 1) {
    u = t;
    u.rows.pop_back();
    REQUIRE(digest(u, fields) != ck->hash_digest(), "a missing row keeps the digest");
  }
}

// ---- APSI conversion -------------------------------------------------------
PROP(apsi_converter, 20) {
  size_t n = 1 + c.skewed(0, c.thorough ? 1000 : 150), nl = 1 + c.below(3);
  tables::Table t;
  t.cols = {"id"};
  for (size_t i = 0; i < nl; ++i) t.cols.push_back("v" + std::to_string(i));
  t.cols.push_back("other");
  static const int styles[] = {0, 1, 2, 3, 4, 5, 8, 9, 11, 14};
  int st = styles[c.below(10)], sv = styles[c.below(10)];
  uint64_t dom = 1 + c.below(2 * n);
  for (size_t i = 0; i < n; ++i) {
    Row r{tables::KeyVal(st, c.below(dom))};
    for (size_t j = 0; j < nl; ++j) r.push_back(c.chance(1, 8) ? "" : tables::KeyVal(sv, c.below(20)));
    if (i && c.chance(1, 6)) r = t.rows[c.below(i)], r.pop_back();  // a row repeated in full
    r.push_back("z");
    t.rows.push_back(r);
  }
  // any column order in the file
  tables::Table f;
  std::vector<size_t> ord(t.cols.size());
  std::iota(ord.begin(), ord.end(), 0);
  for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[c.below(i)]);
  for (auto o : ord) f.cols.push_back(t.cols[o]);
  for (auto& r : t.rows) { Row x; for (auto o : ord) x.push_back(r[o]); f.rows.push_back(x); }
  std::string in = c.scratch + "/in.csv", kv = c.scratch + "/kv.csv", kc = c.scratch + "/kc.csv", q = c.scratch + "/q.csv", out = c.scratch + "/out.csv";
  tables::WriteCsv(in, f, (int)c.below(3) == 1);
  GenChunk(c, n);
  Row labels;
  for (size_t i = 0; i < nl; ++i) labels.push_back(t.cols[1 + i]);
  if (nl > 1 && c.flip()) std::swap(labels[0], labels.back());
  bool wc = c.flip();
  std::map<std::string, std::vector<Row>> model;
  for (auto& r : t.rows) model[r[0]].push_back(tables::KeyOf(t, r, labels));
  c.note() << n << " rows, " << model.size() << " keys, " << nl << " labels";
  c.nontrivial(n > 1 && model.size() < n && nl > 1);
  psi::ApsiCsvConverter(in, "id", labels).MergeColumnAndRow(kv, wc ? kc : "");
  auto x = tables::ReadCsv(kv);
  REQUIRE(x && x->cols == (Row{"key", "value"}), "header of the key-value file");
  std::set<std::string> seen;
  for (auto& r : x->rows) {
    REQUIRE(r.size() == 2 && seen.insert(r[0]).second, "a key is given twice: " << show(r[0]));
    auto it = model.find(r[0]);
    REQUIRE(it != model.end(), "unknown key " << show(r[0]));
    std::string want;
    for (size_t i = 0; i < it->second.size(); ++i) { if (i) want += '\x1f'; want += Join(it->second[i], '\x1e'); }
    REQUIRE(r[1] == want, "value of " << show(r[0]) << " is " << show(r[1]) << ", expected " << show(want));
  }
  REQUIRE(seen.size() == model.size(), seen.size() << " keys, expected " << model.size());
  REQUIRE(fs::exists(kc) == wc, "count file");
  if (wc) {
    auto y = tables::ReadCsv(kc);
    REQUIRE(y && y->rows.size() == model.size(), "size of the count file");
    for (auto& r : y->rows) REQUIRE(r.size() == 2 && model.count(r[0]) && r[1] == std::to_string(model[r[0]].size()), "count of " << show(r[0]) << " is " << r[1]);
  }
  // the answer of a query, taken apart again, is the rows of its keys
  tables::Table ans{{"key", "value"}, {}};
  std::multiset<Row> want;
  for (auto& r : x->rows) if (c.chance(3, 4)) {
    ans.rows.push_back(r);
    for (auto& l : model[r[0]]) { Row w{r[0]}; w.insert(w.end(), l.begin(), l.end()); want.insert(w); }
  }
  if (!ans.rows.empty()) {
    tables::WriteCsv(c.scratch + "/ans.csv", ans);
    Row names;
    for (size_t i = 0; i < nl; ++i) names.push_back("out" + std::to_string(i));
    int cnt = psi::ApsiCsvConverter(c.scratch + "/ans.csv", "key", {"value"}).ExtractResult(out, "the_key", names);
    auto y = tables::ReadCsv(out);
    Row head{"the_key"};
    head.insert(head.end(), names.begin(), names.end());
    REQUIRE(y && y->cols == head, "header of the result");
    REQUIRE(std::multiset<Row>(y->rows.begin(), y->rows.end()) == want, "rows of the result: " << Sv(y->rows).substr(0, 400));
    REQUIRE((size_t)cnt == want.size(), "row count " << cnt << ", expected " << want.size());
    if (nl > 1) REQUIRE(Throws([&] { psi::ApsiCsvConverter(c.scratch + "/ans.csv", "key", {"value"}).ExtractResult(out, "k", {"one"}); }), "a result with the wrong number of labels was accepted");
  }
  psi::ApsiCsvConverter(in, "id").ExtractQueryTo(q);
  auto y = tables::ReadCsv(q);
  std::vector<Row> wq;
  for (auto& r : t.rows) wq.push_back({r[0]});
  REQUIRE(y && y->cols == Row{"key"} && y->rows == wq, "queries: " << (y ? Sv(y->rows).substr(0, 300) : "none"));
}
