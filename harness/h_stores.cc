// Disk and memory stores of points, caches and indexes, against plain models.
#include <filesystem>
#include <numeric>
#include <set>
#include <unordered_map>
#include "arrow/shim_arrow.h"
#include "experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.h"
#include "parties.h"
#include "psi/algorithm/ecdh/ub_psi/ub_psi_cache.h"
#include "psi/utils/bucket.h"
#include "psi/utils/ec_point_store.h"
#include "psi/utils/hash_bucket_cache.h"
#include "psi/utils/index_store.h"
#include "psi/utils/multiplex_disk_cache.h"
#include "tables.h"
using namespace pbt;
using tables::Row;
namespace fs = std::filesystem;

namespace {
struct Init { Init() { parties::Quiet(); } } init;
template <class F>
bool Throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
size_t Files(const std::string& d) {
  size_t n = 0;
  if (fs::exists(d)) for (auto& e : fs::recursive_directory_iterator(d)) n += e.is_regular_file();
  return n;
}
std::string B64(const std::string& s) {
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    for (int j = 0; j < 3; ++j) v = v << 8 | (i + j < s.size() ? (unsigned char)s[i + j] : 0);
    for (int j = 0; j < 4; ++j) r += i + j - 0 <= i + 3 && (j == 0 || i + j - 1 < s.size()) ? a[v >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
struct It { std::string data; uint32_t dup; };
std::string GenData(Ctx& c) {
  switch (c.below(4)) {
    case 0: return "key" + std::to_string(c.below(60));
    case 1: return c.bytes(c.below(6));
    case 2: return std::string(1 + c.below(3), "\n,\"\0"[c.below(4)]) + std::to_string(c.below(20));
    default: return c.bulk(32);
  }
}
}  // namespace

// A cache of buckets: every item goes to exactly one bucket decided by its
// value alone, keeps its index and duplicate count, and survives flushing,
// truncation and reopening.
PROP(bucket_cache, 20) {
  uint32_t nb = 1 + c.skewed(0, 40);
  bool scoped = c.chance(1, 3), store = c.flip();
  std::string dir = c.scratch + "/cache";
  if (c.flip()) fs::create_directories(dir);
  std::unique_ptr<psi::HashBucketCache> h;
  std::unique_ptr<psi::HashBucketEcPointStore> e;
  auto open = [&] { if (store) e = std::make_unique<psi::HashBucketEcPointStore>(dir, nb, scoped); else h = std::make_unique<psi::HashBucketCache>(dir, nb, scoped); };
  auto close = [&] { h.reset(); e.reset(); };
  auto flush = [&] { store ? e->Flush() : h->Flush(); };
  std::vector<It> model;
  std::map<std::string, uint32_t> home;  // bucket of a value, over the whole history
  auto check = [&] {
    flush();
    size_t total = 0;
    std::set<uint64_t> seen;
    for (uint32_t b = 0; b < nb; ++b) {
      auto v = store ? e->LoadBucketItems(b) : h->LoadBucketItems(b);
      total += v.size();
      for (size_t i = 0; i < v.size(); ++i) {
        REQUIRE(v[i].index < model.size(), "bucket " << b << " has index " << v[i].index << " of " << model.size());
        REQUIRE(seen.insert(v[i].index).second, "index " << v[i].index << " is stored twice");
        auto& m = model[v[i].index];
        REQUIRE(v[i].base64_data == B64(m.data), "index " << v[i].index << " has data " << v[i].base64_data << ", expected " << B64(m.data));
        REQUIRE(v[i].extra_dup_cnt == m.dup, "index " << v[i].index << " has duplicate count " << v[i].extra_dup_cnt << ", expected " << m.dup);
        auto it = home.emplace(m.data, b).first;
        REQUIRE(it->second == b, "equal items are in buckets " << it->second << " and " << b);
        if (i) REQUIRE(v[i - 1].index < v[i].index, "a bucket is not in the order of indexes");
      }
    }
    REQUIRE(total == model.size(), total << " items stored, of " << model.size() << " written");
    REQUIRE((store ? e->ItemCount() : h->ItemCount()) == model.size(), "ItemCount() is wrong");
  };
  open();
  REQUIRE((store ? e->num_bins() : h->BucketNum()) == nb, "number of buckets");
  size_t ops = 1 + c.below(c.thorough ? 40 : 12);
  bool reop = false, trunc = false;
  for (size_t o = 0; o < ops; ++o) {
    switch (c.below(8)) {
      default: {
        size_t k = c.skewed(1, 60);
        for (size_t i = 0; i < k; ++i) {
          It it{GenData(c), c.chance(1, 3) ? (uint32_t)(c.chance(1, 10) ? 0xffffffffu : c.below(1000)) : 0};
          model.push_back(it);
          if (store) e->Save(it.data, it.dup); else h->WriteItem(it.data, it.dup);
        }
        break;
      }
      case 4: flush(); break;
      case 5: check(); break;
      case 6: {
        size_t k = c.below(model.size() + 1);
        if (store) e->Truncate(k); else h->Truncate(k);
        model.resize(k);
        trunc = true;
        break;
      }
      case 7:
        if (scoped) break;
        // another process continues after a known number of items; a crash may have left a partial line
        flush();
        if (c.flip() && !model.empty()) {
          uint32_t b = c.below(nb);
          auto v = store ? e->LoadBucketItems(b) : h->LoadBucketItems(b);
          close();
          std::string p = psi::MultiplexDiskCache(dir, false).GetPath(b);
          std::string s = tables::Slurp(p);
          if (!v.empty() && s.size() > 1) {  // its last item is cut
            size_t last = s.rfind('\n', s.size() - 2);
            last = last == std::string::npos ? 0 : last + 1;
            fs::resize_file(p, last + c.below(s.size() - last));
            model.resize(v.back().index);
          }
        } else {
          close();
        }
        open();
        { size_t k = c.chance(1, 3) ? c.below(model.size() + 1) : model.size(); if (store) e->Truncate(k); else h->Truncate(k); model.resize(k); }
        reop = true;
        break;
    }
  }
  c.note() << nb << " buckets, " << ops << " steps, " << model.size() << " items" << (scoped ? ", scoped" : "") << (reop ? ", reopened" : "") << (trunc ? ", truncated" : "");
  c.nontrivial(nb > 1 && model.size() > 2);
  check();
  close();
  if (scoped) REQUIRE(Files(dir) == 0, "a scoped cache leaves files behind");
}

// Caches made from providers and csv files hold their items.
PROP(bucket_cache_sources, 10) {
  size_t n = c.skewed(0, 200);
  uint32_t nb = 1 + c.below(9);
  tables::Table t{{"a", "id", "b"}, {}};
  for (size_t i = 0; i < n; ++i) t.rows.push_back({"x" + std::to_string(c.below(3)), "i" + std::to_string(i), "q"});
  Row keys = c.flip() ? Row{"id"} : Row{"a", "id"};
  std::string p = c.scratch + "/t.csv";
  tables::WriteCsv(p, t);
  arrow::shim::csv_rows_per_batch = 1 + c.below(n + 3);
  c.note() << n << " rows, " << nb << " buckets";
  c.nontrivial(n > nb);
  auto cache = psi::CreateCacheFromCsv(p, keys, c.scratch + "/c", nb, 1 + c.below(n + 3), c.flip());
  size_t total = 0;
  for (uint32_t b = 0; b < nb; ++b)
    for (auto& it : cache->LoadBucketItems(b)) {
      REQUIRE(it.index < n, "index " << it.index);
      auto k = tables::KeyOf(t, t.rows[it.index], keys);
      std::string want = k[0];
      if (k.size() > 1) want += "," + k[1];
      REQUIRE(it.base64_data == B64(want), "row " << it.index << " is stored as " << it.base64_data);
      ++total;
    }
  REQUIRE(total == n && cache->ItemCount() == n, total << " items of " << n);
}

// Intersecting two stores of unique items.
PROP(store_intersection, 20) {
  size_t ns = c.skewed(0, 150), np = c.skewed(0, 150);
  uint32_t nb = 1 + c.skewed(0, 20);
  uint64_t dom = 1 + c.below(2 * (ns + np) + 1);
  auto gen = [&](size_t n) {
    std::vector<It> v;
    std::set<uint64_t> seen;
    for (size_t i = 0; i < n; ++i) {
      uint64_t k = c.below(dom);
      if (!seen.insert(k).second) continue;
      v.push_back({"p" + std::to_string(k) + std::string(k % 5, '\0'), c.chance(1, 3) ? 1 + (uint32_t)c.below(9) : 0});
    }
    return v;
  };
  auto s = gen(ns), p = gen(np);
  auto S = std::make_shared<psi::HashBucketEcPointStore>(c.scratch + "/s", nb, c.flip());
  auto P = std::make_shared<psi::HashBucketEcPointStore>(c.scratch + "/p", nb, c.flip());
  for (auto* x : {&s, &p}) {
    auto& st = x == &s ? S : P;
    std::vector<std::string> batch;
    std::unordered_map<uint32_t, uint32_t> d;
    for (auto& i : *x) {
      if (i.dup || c.flip()) d[batch.size()] = i.dup;
      batch.push_back(i.data);
      if (c.chance(1, 10)) { ((psi::IEcPointStore&)*st).Save(batch, d); batch.clear(); d.clear(); }
    }
    ((psi::IEcPointStore&)*st).Save(batch, d);
    REQUIRE(st->ItemCount() == x->size(), "item count");
  }
  std::map<std::string, uint32_t> pm;
  uint32_t ptotal = 0, pinter = 0;
  for (auto& i : p) { pm[i.data] = i.dup; ptotal += i.dup + 1; }
  std::vector<uint64_t> want;
  std::map<uint64_t, uint64_t> wantc;
  for (size_t i = 0; i < s.size(); ++i)
    if (pm.count(s[i].data)) { want.push_back(i); wantc[i] = pm[s[i].data]; pinter += pm[s[i].data] + 1; }
  c.note() << s.size() << " and " << p.size() << " items, " << want.size() << " common, " << nb << " buckets";
  c.nontrivial(want.size() > 0 && want.size() < s.size());
  if (c.flip()) {
    auto got = psi::FinalizeAndComputeIndices(S, P);
    REQUIRE(got == want, "indices " << showv(got) << ", expected " << showv(want));
  } else {
    std::string f = c.scratch + "/idx.csv";
    {
      psi::IndexWriter w(f, 1 + c.below(50));
      auto [t, i] = psi::FinalizeAndComputeIndices(S, P, &w);
      REQUIRE(t == ptotal && i == pinter, "peer counts are " << t << " and " << i << ", expected " << ptotal << " and " << pinter);
      w.Close();
    }
    std::map<uint64_t, uint64_t> got;
    psi::FileIndexReader r(f);
    while (auto x = r.GetNextWithPeerCnt()) REQUIRE(got.insert(*x).second, "index " << x->first << " is written twice");
    REQUIRE(got == wantc, got.size() << " indices written, expected " << wantc.size() << ", or a wrong duplicate count");
  }
  if (c.chance(1, 6)) {
    auto other = std::make_shared<psi::HashBucketEcPointStore>(c.scratch + "/o", nb + 1);
    REQUIRE(Throws([&] { psi::FinalizeAndComputeIndices(S, other); }), "stores of different bucket numbers were intersected");
  }
}

// The client's cache of server points over a history of runs.
PROP(client_cache_store, 20) {
  size_t len = 1 + c.below(32), ops = 1 + c.below(c.thorough ? 30 : 10);
  std::string path = c.scratch + "/sub/dir/cache.bin";
  auto st = std::make_shared<psi::UbPsiClientCacheFileStore>(path, len);
  std::vector<It> model;
  uint64_t peer = 0;
  bool reop = false;
  auto fresh = [&] { std::string d = c.bytes(std::min<size_t>(len, 4)); d.resize(len, 'x'); return d; };
  auto check = [&] {
    st->Flush();
    REQUIRE(st->ItemCount() == model.size(), "ItemCount() is " << st->ItemCount() << ", expected " << model.size());
    REQUIRE(st->PeerCount() == peer, "PeerCount() is " << st->PeerCount() << ", expected " << peer);
    size_t bs = 1 + c.below(model.size() + 3), pos = 0;
    auto p = st->GetBatchProvider(bs);
    REQUIRE(p->batch_size() == bs, "batch size");
    for (;;) {
      auto [items, d] = p->ReadNextBatchWithDupCnt();
      if (items.empty()) break;
      REQUIRE(items.size() == std::min(bs, model.size() - pos), "batch of " << items.size() << " with " << model.size() - pos << " left and batch size " << bs);
      for (size_t i = 0; i < items.size(); ++i, ++pos) {
        REQUIRE(items[i] == model[pos].data, "item " << pos << " is " << show(items[i]) << ", expected " << show(model[pos].data));
        auto it = d.find(i);
        REQUIRE((it == d.end() ? 0 : it->second) == model[pos].dup, "duplicate count of item " << pos);
      }
    }
    REQUIRE(pos == model.size(), pos << " items of " << model.size());
  };
  for (size_t o = 0; o < ops; ++o) {
    switch (c.below(6)) {
      default: {
        std::vector<std::string> b;
        std::unordered_map<uint32_t, uint32_t> d;
        size_t k = c.skewed(1, 50);
        for (size_t i = 0; i < k; ++i) {
          It it{fresh(), c.chance(1, 3) ? 1 + (uint32_t)c.below(9) : 0};
          if (it.dup) d[i] = it.dup;
          b.push_back(it.data);
          model.push_back(it);
          peer += it.dup + 1;
        }
        ((psi::IEcPointStore&)*st).Save(b, d);
        break;
      }
      case 3: check(); break;
      case 4: st.reset(); st = std::make_shared<psi::UbPsiClientCacheFileStore>(path, len); reop = true; break;
      case 5:
        st.reset();
        REQUIRE(Throws([&] { psi::UbPsiClientCacheFileStore(path, len % 32 + 1); }), "opened with another item length");
        st = std::make_shared<psi::UbPsiClientCacheFileStore>(path, len);
        break;
    }
  }
  if (c.chance(1, 4)) REQUIRE(Throws([&] { st->Save(std::string(len + 1, 'a'), 0); }) && (len == 1 || Throws([&] { st->Save(std::string(len - 1, 'a'), 0); })), "an item of the wrong length was accepted");
  c.note() << model.size() << " items of " << len << " bytes, " << ops << " steps" << (reop ? ", reopened" : "");
  c.nontrivial(model.size() > 2);
  check();
  // the client's own items, matched against the cache
  auto self = std::make_shared<psi::UbPsiClientCacheMemoryStore>();
  std::map<std::string, std::pair<uint32_t, uint32_t>> own;
  size_t k = c.skewed(0, 60), ins = 0;
  for (size_t i = 0; i < k; ++i) {
    std::string d = !model.empty() && c.flip() ? model[c.below(model.size())].data : fresh();
    if (own.count(d)) continue;
    uint32_t dup = c.chance(1, 3) ? c.below(5) : 0;
    own[d] = {ins++, dup};
    self->Save(d, dup);
  }
  REQUIRE(self->ItemCount() == ins, "item count of the memory store");
  for (auto& [d, v] : own) { auto f = self->Find(d); REQUIRE(f && f->index == v.first && f->duplicate_cnt == v.second, "Find() of a stored item"); }
  for (int i = 0; i < 3; ++i) { auto d = fresh(); REQUIRE(self->Find(d).has_value() == (own.count(d) > 0), "Find() of a missing item"); }
  std::multiset<std::array<uint64_t, 4>> want, got;
  for (size_t i = 0; i < model.size(); ++i)
    if (own.count(model[i].data)) want.insert({own[model[i].data].first, i, own[model[i].data].second, model[i].dup});
  auto r = psi::ComputeIndicesWithDupCnt(self, st, 1 + c.below(model.size() + 3));
  size_t m = r.self_indices.size();
  REQUIRE(r.peer_indices.size() == m && r.self_dup_cnt.size() == m && r.peer_dup_cnt.size() == m, "sizes differ in the intersection");
  for (size_t i = 0; i < m; ++i) got.insert({r.self_indices[i], r.peer_indices[i], r.self_dup_cnt[i], r.peer_dup_cnt[i]});
  REQUIRE(got == want, m << " matches (self, peer, self duplicates, peer duplicates), expected " << want.size() << " or other values");
}

PROP(indices_by_items, 10) {
  size_t n = c.skewed(0, 300);
  tables::Table t{{"a", "id"}, {}};
  uint64_t dom = 1 + c.below(n + 2);
  for (size_t i = 0; i < n; ++i) t.rows.push_back({std::to_string(c.below(3)), tables::KeyVal(c.below(2) ? 0 : 5, c.below(dom))});
  Row keys = c.flip() ? Row{"id"} : Row{"id", "a"};
  std::string p = c.scratch + "/t.csv";
  tables::WriteCsv(p, t);
  arrow::shim::csv_rows_per_batch = 1 + c.below(n + 3);
  std::set<std::string> items;
  std::vector<std::string> list;
  for (auto& r : t.rows) if (c.chance(1, 3)) { auto k = tables::KeyOf(t, r, keys); list.push_back(k.size() > 1 ? k[0] + "," + k[1] : k[0]); }
  for (int i = c.below(4); i > 0; --i) list.push_back("none" + std::to_string(i));
  items.insert(list.begin(), list.end());
  std::vector<uint64_t> want;
  for (size_t i = 0; i < n; ++i) { auto k = tables::KeyOf(t, t.rows[i], keys); if (items.count(k.size() > 1 ? k[0] + "," + k[1] : k[0])) want.push_back(i); }
  size_t bs = 1 + c.below(n + 3);
  c.note() << n << " rows, " << items.size() << " items, batch " << bs;
  c.nontrivial(!want.empty() && want.size() < n && bs < n);
  auto got = psi::GetIndicesByItems(p, keys, list, bs);
  REQUIRE(got == want, "indices " << showv(got) << ", expected " << showv(want));
}

// The server's cache file and the threshold cache file.
PROP(ub_cache, 10) {
  bool thr = c.chance(1, 3);
  size_t n = c.skewed(0, 200), len = 1 + c.below(31), bs = 1 + c.below(n + 3);
  struct X { std::string d; uint32_t i, s, dup; };
  std::vector<X> m;
  for (size_t i = 0; i < n; ++i) m.push_back({c.bulk(len), (uint32_t)c.below(1u << 31), (uint32_t)c.below(1u << 31), c.chance(1, 3) ? (uint32_t)c.below(10) : 0});
  c.note() << n << " items of " << len << " bytes, batch " << bs << (thr ? ", threshold cache" : "");
  c.nontrivial(n > bs);
  auto dup = [&](auto&& save) { for (size_t i = 0; i < n; ++i) save(m[i]); };
  auto same = [&](auto&& b, size_t pos, bool data) {
    size_t k = b.batch_indices.size();
    REQUIRE(b.shuffled_indices.size() == k && b.dup_cnts.size() == k && (!data || b.batch_items.size() == k), "sizes differ");
    REQUIRE(k == std::min(bs, n - pos), "batch of " << k << " at " << pos << " of " << n << ", batch size " << bs);
    for (size_t i = 0; i < k; ++i) {
      auto& x = m[pos + i];
      REQUIRE(b.batch_indices[i] == x.i && b.shuffled_indices[i] == x.s && b.dup_cnts[i] == x.dup, "item " << pos + i << " is (" << b.batch_indices[i] << "," << b.shuffled_indices[i] << "," << b.dup_cnts[i] << "), expected (" << x.i << "," << x.s << "," << x.dup << ")");
      if (data) REQUIRE(b.batch_items[i] == x.d, "data of item " << pos + i);
    }
    return k;
  };
  std::string dir = c.scratch + "/c";
  fs::create_directories(dir);
  if (thr) {
    {
      psi::ecdh::ThresholdEcdhPsiCache w(dir);
      dup([&](const X& x) { if (c.chance(1, 30)) w.Flush(); x.dup || c.flip() ? w.SaveData(x.i, x.s, x.dup) : w.SaveData(x.i, x.s); });
    }
    psi::ecdh::ThresholdEcdhPsiCacheProvider p(dir, bs);
    REQUIRE(p.batch_size() == bs, "batch size");
    size_t pos = 0;
    for (;;) { auto b = p.ReadNextShuffledBatch(); if (b.batch_indices.empty()) break; pos += same(b, pos, false); }
    REQUIRE(pos == n, pos << " items of " << n);
    auto f = dir + "/threshold_ecdh_psi_cache.bin";
    if (n && fs::exists(f) && c.flip()) { fs::resize_file(f, fs::file_size(f) - 12); REQUIRE(Throws([&] { psi::ecdh::ThresholdEcdhPsiCacheProvider(dir, bs); }), "a truncated cache was accepted"); }
    return;
  }
  Row fields;
  for (size_t i = 1 + c.below(3); i > 0; --i) fields.push_back("f" + std::to_string(c.below(9)));
  std::string pk = c.bytes(32);
  std::vector<uint8_t> key(pk.begin(), pk.end());
  {
    psi::UbPsiCache w(dir, len, fields, key);
    dup([&](const X& x) { if (c.chance(1, 30)) w.Flush(); if (x.dup || c.flip()) w.SaveData(x.d, x.i, x.s, x.dup); else w.SaveData(x.d, x.i, x.s); });
    if (c.chance(1, 4)) REQUIRE(Throws([&] { w.SaveData(std::string(len + 1, 'a'), 1, 1, 0); }), "an item of the wrong length was accepted");
  }
  for (int round = 0; round < 2; ++round) {
    psi::UbPsiCacheProvider p(dir, bs);
    REQUIRE(p.batch_size() == bs, "batch size");
    REQUIRE(p.GetSelectedFields() == fields, "selected fields");
    REQUIRE(p.GetCachePrivateKey() == key, "private key of the cache");
    size_t pos = 0;
    for (;;) {
      size_t k = 0;
      switch (round ? 0 : c.below(3)) {
        case 0: { auto b = p.ReadNextShuffledBatch(); k = b.batch_items.size(); if (k) same(b, pos, true); break; }
        case 1: { auto b = p.ReadNextBatch(); k = b.size(); for (size_t i = 0; i < k; ++i) REQUIRE(pos + i < n && b[i] == m[pos + i].d, "data of item " << pos + i); break; }
        default: {
          auto [b, d] = p.ReadNextBatchWithDupCnt();
          k = b.size();
          for (size_t i = 0; i < k; ++i) {
            REQUIRE(pos + i < n && b[i] == m[pos + i].d, "data of item " << pos + i);
            auto it = d.find(i);
            REQUIRE((it == d.end() ? 0 : it->second) == m[pos + i].dup, "duplicates of item " << pos + i);
          }
        }
      }
      if (!k) break;
      pos += k;
    }
    REQUIRE(pos == n, pos << " items of " << n);
  }
  auto f = dir + "/ub_psi_cache.bin";
  if (n && fs::exists(f) && c.flip()) { fs::resize_file(f, fs::file_size(f) - sizeof(psi::UbPsiCacheItem)); REQUIRE(Throws([&] { psi::UbPsiCacheProvider(dir, bs); }), "a truncated cache was accepted"); }
}

// Histories of index files: what was committed is there once, in order.
PROP(index_store, 20) {
  std::string f = c.scratch + "/i.csv";
  std::vector<std::pair<uint64_t, uint64_t>> pend, done;
  std::set<uint64_t> committed;  // at the last opening
  std::unique_ptr<psi::IndexWriter> w;
  size_t cache = 1 + c.below(20), written = 0, unc = 0;
  bool reop = false, crash = false;
  auto open = [&](bool tr) {
    w = std::make_unique<psi::IndexWriter>(f, cache, tr);
    committed.clear();
    if (tr) done.clear();
    for (auto& x : done) committed.insert(x.first);
    written = unc = 0;
    REQUIRE(w->cache_size() == cache && w->path() == f && w->write_cnt() == 0, "state of a fresh writer");
  };
  auto check = [&] {
    arrow::shim::csv_rows_per_batch = 1 + c.below(done.size() + 3);
    psi::FileIndexReader r(f);
    for (size_t i = 0; i < done.size(); ++i) {
      if (c.flip()) REQUIRE(r.HasNext(), "no entry " << i << " of " << done.size());
      if (c.flip()) {
        auto x = r.GetNextWithPeerCnt();
        REQUIRE(x && *x == done[i], "entry " << i << " is " << (x ? std::to_string(x->first) + "," + std::to_string(x->second) : "missing") << ", expected " << done[i].first << "," << done[i].second);
      } else {
        auto x = r.GetNext();
        REQUIRE(x && *x == done[i].first, "entry " << i << " is " << (x ? std::to_string(*x) : "missing") << ", expected " << done[i].first);
      }
      REQUIRE(r.read_cnt() == i + 1, "read_cnt()");
    }
    REQUIRE(!r.HasNext() && !r.GetNext() && !r.GetNextWithPeerCnt() && r.read_cnt() == done.size(), "entries after the last one");
  };
  auto put = [&](uint64_t i, uint64_t k) {
    if (committed.count(i)) return;
    pend.push_back({i, k});
    ++written;
    ++unc;
  };
  auto commit = [&] { done.insert(done.end(), pend.begin(), pend.end()); pend.clear(); unc = 0; };
  open(c.flip());
  uint64_t next = 0;
  size_t ops = 1 + c.below(c.thorough ? 40 : 14);
  for (size_t o = 0; o < ops; ++o) {
    switch (c.below(9)) {
      case 0: {
        std::vector<uint64_t> v;
        for (size_t k = c.below(12); k > 0; --k) v.push_back(next += 1 + c.below(3));
        for (auto i : v) put(i, 0);
        REQUIRE(w->WriteCache(v) == written, "count returned by WriteCache");
        break;
      }
      case 1: {
        std::vector<uint64_t> v, d;
        for (size_t k = c.below(12); k > 0; --k) { v.push_back(next += 1 + c.below(3)); d.push_back(c.below(4) ? c.below(9) : c.below(1ull << 40)); put(v.back(), d.back()); }
        REQUIRE(w->WriteCache(v, d) == written, "count returned by WriteCache");
        break;
      }
      case 2: case 3: {
        // an index of an earlier run may be written again by a repeated batch
        uint64_t i = !committed.empty() && c.flip() ? *std::next(committed.begin(), c.below(committed.size())) : (next += 1 + c.below(1ull << c.below(40)));
        uint64_t k = c.below(5);
        put(i, k);
        REQUIRE(w->WriteCache(i, k) == written, "count returned by WriteCache");
        break;
      }
      case 4: w->Commit(); commit(); break;
      case 5: w->Commit(); commit(); check(); break;
      case 6: w->Close(); commit(); w->Close(); check(); REQUIRE(Throws([&] { w->WriteCache(1, 1); }), "a closed writer accepts data"); open(false); reop = true; break;
      case 7:
        w.reset(); commit();
        if (c.flip() && !done.empty()) {  // cut inside the last line
          auto s = tables::Slurp(f);
          size_t last = s.rfind('\n', s.size() - 2) + 1;
          fs::resize_file(f, last + c.below(s.size() - last));
          done.pop_back();
          crash = true;
        }
        open(c.chance(1, 6)); reop = true; break;
      default: REQUIRE(w->write_cnt() == written && w->cache_cnt() == unc, "write_cnt() or cache_cnt() is wrong"); break;
    }
  }
  w.reset();
  commit();
  c.note() << ops << " steps, " << done.size() << " entries" << (reop ? ", reopened" : "") << (crash ? ", cut" : "");
  c.nontrivial(done.size() > 2 && ops > 3);
  check();
  // the reader over memory gives them in the order of the indexes
  std::vector<uint32_t> a, b;
  std::map<uint32_t, uint32_t> mm;
  for (size_t k = c.skewed(0, 60); k > 0; --k) { uint32_t i = c.below(1u << 31), d = c.below(5); if (mm.emplace(i, d).second) { a.push_back(i); b.push_back(d); } }
  psi::MemoryIndexReader r(a, b);
  size_t got = 0;
  for (auto& [i, d] : mm) {
    REQUIRE(r.HasNext(), "memory reader ends after " << got);
    if (c.flip()) { auto x = r.GetNext(); REQUIRE(x && *x == i, "memory reader: entry " << got); }
    else { auto x = r.GetNextWithPeerCnt(); REQUIRE(x && x->first == i && x->second == d, "memory reader: entry " << got); }
    REQUIRE(r.read_cnt() == ++got, "read_cnt()");
  }
  REQUIRE(!r.HasNext() && !r.GetNext() && !r.GetNextWithPeerCnt(), "memory reader goes on after the end");
  a.push_back(5);
  REQUIRE(Throws([&] { psi::MemoryIndexReader(a, b); }), "memory reader accepts lists of different sizes");
}

// Result files of a bucket: receiver and sender sides over one link.
PROP(bucket_results, 15) {
  size_t na = c.skewed(0, 80), nbb = c.skewed(0, 80), bsize = 1 + c.below(30);
  uint64_t dom = 1 + c.below(2 * (na + nbb) + 1);
  auto gen = [&](size_t n) {
    std::vector<It> v;
    std::set<uint64_t> seen;
    for (size_t i = 0; i < n; ++i) { uint64_t k = c.below(dom); if (seen.insert(k).second) v.push_back({"k" + std::to_string(k), c.chance(1, 3) ? 1 + (uint32_t)c.below(5) : 0}); }
    return v;
  };
  std::vector<It> in[2] = {gen(na), gen(nbb)};
  bool bcast = c.flip();
  c.note() << in[0].size() << " and " << in[1].size() << " items, bucket size " << bsize << (bcast ? ", broadcast" : "");
  std::map<std::string, uint32_t> pm;
  for (auto& x : in[1]) pm[x.data] = x.dup;
  std::map<uint64_t, uint64_t> want[2];
  for (size_t i = 0; i < in[0].size(); ++i) if (pm.count(in[0][i].data)) want[0][i] = pm[in[0][i].data];
  std::map<std::string, uint32_t> om;
  for (auto& x : in[0]) om[x.data] = x.dup;
  for (size_t i = 0; i < in[1].size(); ++i) if (om.count(in[1][i].data) && bcast) want[1][i] = om[in[1][i].data];
  c.nontrivial(!want[0].empty() && want[0].size() < in[0].size());
  auto w = parties::World(2);
  size_t nb[2] = {0, 0};
  uint64_t cuts = c.u64();
  auto party = [&](int me) {
    return [&, me](parties::Link l) {
      nb[me] = psi::NegotiateBucketNum(l, in[me].size(), bsize, 1);
      psi::IndexWriter wr(c.scratch + "/i" + std::to_string(me), 1 + cuts % 9, true);
      if (nb[me]) {
        psi::HashBucketCache cache(c.scratch + "/c" + std::to_string(me), nb[me]);
        for (auto& x : in[me]) cache.WriteItem(x.data, x.dup);
        cache.Flush();
        for (size_t b = 0; b < nb[me]; ++b) {
          auto items = psi::PrepareBucketData(psi::v2::PROTOCOL_KKRT, b, l, &cache);
          if (!items) continue;
          psi::CalcBucketItemSecHash(*items);
          for (size_t i = 1; i < items->size(); ++i)
            for (size_t j = 0; j < i; ++j) if ((*items)[i].sec_hash == (*items)[j].sec_hash) throw Violation("two items have the same hash");
          if (me == 0) {
            // an ideal intersection
            std::vector<psi::HashBucketCache::BucketItem> res;
            std::vector<uint32_t> pd;
            for (auto& x : *items) { auto& d = in[0][x.index]; if (pm.count(d.data)) { res.push_back(x); pd.push_back(pm[d.data]); } }
            psi::HandleBucketResultByReceiver(bcast, l, res, pd, &wr);
          } else {
            psi::HandleBucketResultBySender(bcast, l, *items, &wr);
          }
        }
      }
      wr.Close();
    };
  };
  auto r = parties::Run(w, {party(0), party(1)});
  REQUIRE(r.ok(), "a party failed: " << r.all());
  REQUIRE(nb[0] == nb[1], "the parties use " << nb[0] << " and " << nb[1] << " buckets");
  size_t mx = std::max(in[0].size(), in[1].size()), mn = std::min(in[0].size(), in[1].size());
  REQUIRE(nb[0] == (mn ? (mx + bsize - 1) / bsize : 0), nb[0] << " buckets for " << mx << " items, bucket size " << bsize);
  for (int me = 0; me < 2; ++me) {
    std::map<uint64_t, uint64_t> got;
    psi::FileIndexReader r(c.scratch + "/i" + std::to_string(me));
    while (auto x = r.GetNextWithPeerCnt()) REQUIRE(got.insert(*x).second, "index written twice");
    REQUIRE(got == want[me], "party " << me << " writes " << got.size() << " indices, expected " << want[me].size() << ", or wrong counts");
  }
}

PROP(disk_cache, 10) {
  bool scoped = c.flip();
  std::string dir = c.scratch + "/d", prefix = c.flip() ? "p-" : "";
  fs::create_directories(dir);
  size_t nb = 1 + c.below(12), runs = 1 + (scoped ? 0 : c.below(3));
  std::vector<std::vector<std::string>> m(nb);
  c.note() << nb << " files, " << runs << " openings" << (scoped ? ", scoped" : "");
  c.nontrivial(nb > 1);
  std::string at;
  for (size_t k = 0; k < runs; ++k) {
    psi::MultiplexDiskCache d(dir, scoped, prefix);
    at = d.cache_dir();
    REQUIRE(scoped ? fs::path(at).parent_path() == fs::path(dir) : at == dir, "cache folder " << at);
    if (scoped) { psi::MultiplexDiskCache d2(dir, true, prefix); REQUIRE(d2.cache_dir() != d.cache_dir(), "two scoped caches share a folder"); }
    std::vector<std::unique_ptr<psi::io::OutputStream>> os;
    d.CreateOutputStreams(nb, &os);
    REQUIRE(os.size() == nb, os.size() << " streams");
    for (size_t i = c.skewed(0, 100); i > 0; --i) {
      size_t b = c.below(nb);
      m[b].push_back(std::to_string(c.below(1000)));
      os[b]->Write(m[b].back() + "\n");
    }
    for (auto& o : os) o->Close();
    for (size_t b = 0; b < nb; ++b) {
      auto in = d.CreateInputStream(b);
      std::vector<std::string> got;
      std::string line;
      while (in->GetLine(&line)) got.push_back(line);
      REQUIRE(got == m[b], "file " << b << ": " << showv(got) << ", expected " << showv(m[b]));
      REQUIRE(fs::exists(d.GetPath(b)), "no file at GetPath()");
    }
    REQUIRE(Throws([&] { std::vector<std::unique_ptr<psi::io::OutputStream>> o2; d.CreateOutputStreams(0, &o2); }), "zero streams");
  }
  if (scoped) REQUIRE(!fs::exists(at) && fs::exists(dir), "the scoped folder is left behind, or too much removed");
}
