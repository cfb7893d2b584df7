// Messages between parties: the encodings round-trip, and a message damaged on
// its way makes a run fail or finish, but never reach outside its buffers.
#include "e2e.h"
#include "psi/utils/communication.h"
#include "psi/utils/serialize.h"
#include "psi/utils/sync.h"
#include "wire.h"
using namespace e2e;
namespace u = psi::utils;


namespace {
std::string Str(const yacl::Buffer& b) { return {b.data<char>(), (size_t)b.size()}; }
yacl::Buffer Buf(const std::string& s) { return yacl::Buffer(s.data(), s.size()); }
uint64_t Num(pbt::Ctx& c, bool wide = true) {
  uint64_t v = c.below(4) ? c.below(200) : c.u64() >> c.below(64);
  if (c.chance(1, 8)) v = c.pick(std::vector<uint64_t>{0, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, uint64_t(-1) >> 1, uint64_t(-1)});
  return wide ? v : uint32_t(v);
}
std::string Raw(pbt::Ctx& c) {
  switch (c.below(6)) {
    case 0: return "";
    case 1: return c.bulk(c.below(3000));
    case 2: return std::string(c.below(5), '\0');
    case 3: return c.pick(std::vector<std::string>{"\xff\xfe", "\xc3", "\xe4\xbd\xa0\xe5\xa5\xbd", "a,b", "\n", std::string("\0x", 2)});
    default: return c.bulk(c.below(20));
  }
}
template <class K>
std::unordered_map<K, uint32_t> Counts(pbt::Ctx& c, size_t n) {
  std::unordered_map<K, uint32_t> m;
  for (size_t i = 0; i < n; ++i) m[(K)Num(c, sizeof(K) == 8)] = (uint32_t)Num(c, false);
  return m;
}
bool SameBatch(const psi::PsiDataBatch& a, const psi::PsiDataBatch& b) {
  return a.item_num == b.item_num && a.flatten_bytes == b.flatten_bytes && a.batch_index == b.batch_index && a.is_last_batch == b.is_last_batch && a.type == b.type && a.duplicate_item_cnt == b.duplicate_item_cnt;
}
template <class F>
bool Refuses(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
}  // namespace

PROP(encodings, 20) {
  int kind = c.below(5);
  size_t n = c.chance(1, 20) ? c.below(3000) : c.skewed(0, 30), dups = c.chance(1, 3) ? 0 : c.skewed(0, 20);
  static const char* names[] = {"size", "indexes", "items", "counts", "batch"};
  c.label(names[kind]);
  c.note() << names[kind] << " of " << n << " entries, " << dups << " counts";
  std::string bytes;
  if (kind == 0) {
    auto v = Num(c);
    bytes = Str(u::SerializeSize(v));
    auto g = u::DeserializeSize(Buf(bytes));
    REQUIRE(g == v, "size " << v << " arrives as " << g);
    c.nontrivial(v > 127);
  } else if (kind == 1) {
    std::vector<uint64_t> v(n);
    bool wide = c.flip();
    for (auto& x : v) x = Num(c, wide);
    std::vector<uint32_t> v32(v.begin(), v.end());
    bytes = Str(wide ? u::SerializeIndexes(v) : u::SerializeIndexes(v32));
    REQUIRE(u::DeserializeIndexes<uint64_t>(Buf(bytes)) == v, "indexes differ");
    REQUIRE(u::DeserializeIndexes<uint32_t>(Buf(bytes)) == v32, "32-bit indexes differ");
    c.nontrivial(n > 1);
  } else if (kind == 2) {
    std::vector<std::string> v(n), g;
    for (auto& x : v) x = Raw(c);
    auto d = Counts<uint64_t>(c, dups);
    decltype(d) gd;
    bytes = Str(u::SerializeStrItems(v, d));
    u::DeserializeStrItems(Buf(bytes), &g, &gd);
    REQUIRE(g == v, g.size() << " items arrive, " << v.size() << " were sent, or they differ");
    REQUIRE(gd == d, "duplicate counts differ");
    g.clear();
    u::DeserializeStrItems(Buf(bytes), &g);
    REQUIRE(g == v, "items differ when counts are not asked for");
    c.nontrivial(n > 1);
  } else if (kind == 3) {
    auto d = Counts<uint64_t>(c, dups);
    bytes = Str(u::SerializeItemsCnt(d));
    REQUIRE(u::DeserializeItemsCnt(Buf(bytes)) == d, "counts differ");
    c.nontrivial(dups > 1);
  } else {
    psi::PsiDataBatch b;
    b.item_num = (uint32_t)Num(c, false);
    b.flatten_bytes = c.chance(1, 4) ? c.bulk(c.below(40000)) : Raw(c);
    b.batch_index = (int32_t)(Num(c, false) & 0x7fffffff);
    b.is_last_batch = c.flip();
    b.type = c.pick(std::vector<std::string>{"", "enc", "dual.enc"});
    b.duplicate_item_cnt = Counts<uint32_t>(c, dups);
    bytes = Str(b.Serialize());
    REQUIRE(SameBatch(b, psi::PsiDataBatch::Deserialize(Buf(bytes))), "batch differs");
    c.nontrivial(!b.flatten_bytes.empty());
  }
  // What is no encoding is refused; what is one has a meaning that survives.
  std::string bad = bytes;
  wire::Apply({0, c.below(8), c.u64(), c.u64()}, bad);
  auto buf = Buf(bad);
  namespace pb = psi::proto;
  auto parses = [&](auto m) { return m.ParseFromArray(bad.data(), (int)bad.size()); };
  bool ok = false, refused = false;
  if (kind == 0) {
    ok = parses(pb::SizeProto());
    size_t x = 0;
    refused = Refuses([&] { x = u::DeserializeSize(buf); });
    if (!refused) REQUIRE(u::DeserializeSize(u::SerializeSize(x)) == x, "size");
  } else if (kind == 1) {
    ok = parses(pb::IndexesProto());
    std::vector<uint64_t> x;
    refused = Refuses([&] { x = u::DeserializeIndexes<uint64_t>(buf); });
    if (!refused) REQUIRE(u::DeserializeIndexes<uint64_t>(u::SerializeIndexes(x)) == x, "indexes");
  } else if (kind == 2) {
    ok = parses(pb::StrItemsProto());
    std::vector<std::string> x, y;
    refused = Refuses([&] { u::DeserializeStrItems(buf, &x); });
    if (!refused) { u::DeserializeStrItems(u::SerializeStrItems(x), &y); REQUIRE(x == y, "items"); }
  } else if (kind == 3) {
    ok = parses(pb::ItemsCntProto());
    std::unordered_map<uint64_t, uint32_t> x;
    refused = Refuses([&] { x = u::DeserializeItemsCnt(buf); });
    if (!refused) REQUIRE(u::DeserializeItemsCnt(u::SerializeItemsCnt(x)) == x, "counts");
  } else {
    ok = parses(pb::PsiDataBatchProto());
    psi::PsiDataBatch x;
    refused = Refuses([&] { x = psi::PsiDataBatch::Deserialize(buf); });
    if (!refused) REQUIRE(SameBatch(psi::PsiDataBatch::Deserialize(x.Serialize()), x), "batch");
  }
  c.label(refused ? "damage refused" : "damage decodes");
  REQUIRE(refused == !ok, (ok ? "a well-formed message was refused" : "a malformed message was accepted"));
}

// What parties tell each other collectively arrives as it was said.
PROP(collectives, 40) {
  parties::Quiet();
  size_t n = 2 + c.below(c.chance(1, 6) ? 12 : 4);
  auto w = parties::World(n, 15000);
  std::vector<size_t> sizes;
  std::vector<int> flags, delay;
  for (size_t p = 0; p < n; ++p) { sizes.push_back(Num(c)); flags.push_back(c.flip()); delay.push_back(c.chance(1, 3) ? c.below(20) : 0); }
  size_t holder = c.below(n), k = c.skewed(0, 20);
  std::vector<std::string> items(k);
  for (auto& x : items) x = Raw(c);
  auto counts = k ? Counts<uint64_t>(c, c.below(6)) : std::unordered_map<uint64_t, uint32_t>{};
  bool with_counts = c.flip();
  bool failing = c.chance(1, 6);
  size_t bad = c.below(n);
  c.note() << n << " parties, " << k << " items at " << holder << (with_counts ? " with counts" : "") << (failing ? ", one fails" : "");
  c.nontrivial(k > 0);
  auto r = parties::Run(w, std::vector<std::function<void(parties::Link)>>(n, [&](parties::Link l) {
    size_t me = l->Rank();
    auto g = psi::AllGatherItemsSize(l, sizes[me]);
    REQUIRE(g == sizes, "party " << me << " sees sizes " << pbt::showv(g) << ", said " << pbt::showv(sizes));
    auto f = psi::AllGatherFlag(l, flags[me]);
    REQUIRE(f.size() == n, "party " << me << " sees " << f.size() << " flags");
    for (size_t p = 0; p < n; ++p) REQUIRE(f[p] == (flags[p] == 1), "party " << me << " sees another flag of " << p);
    std::vector<std::string> mine;
    std::unordered_map<uint64_t, uint32_t> mc;
    if (me == holder) { mine = items; mc = counts; }
    if (with_counts) psi::BroadcastResult(l, &mine, &mc);
    else psi::BroadcastResult(l, &mine);
    REQUIRE(mine == items, "party " << me << " has " << mine.size() << " items, " << items.size() << " were broadcast, or they differ");
    if (with_counts) REQUIRE(mc == counts, "party " << me << " has other counts");
    // Every pair has a channel of its own.
    if (n > 2)
      for (size_t p = 0; p < n; ++p) {
        if (p == me) continue;
        auto x = psi::CreateP2PLinkCtx("p2p", l, p);
        REQUIRE(x->WorldSize() == 2 && x->Rank() < 2, "pair channel of " << x->WorldSize());
        x->SendAsync(x->NextRank(), fmt::format("{}>{}", me, p), "hello");
        auto b = x->Recv(x->NextRank(), "hello");
        auto s = std::string(b.data<char>(), b.size());
        REQUIRE(s == fmt::format("{}>{}", p, me), "party " << me << " receives \"" << s << "\" on the channel with " << p);
      }
    auto v = psi::SyncWait(l, [&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(delay[me]));
      if (failing && me == bad) throw std::runtime_error("own failure");
      return me + 100;
    });
    REQUIRE(v == me + 100, "SyncWait returns " << v);
  }));
  if (failing) {
    for (size_t p = 0; p < n; ++p) REQUIRE(!r.err[p].empty(), "party " << p << " does not notice that " << bad << " failed");
    REQUIRE(r.err[bad].find("own failure") != std::string::npos, "the failure is reported as " << r.err[bad]);
  } else REQUIRE(r.ok(), r.all());
}

static void prop_psi(pbt::Ctx& c) {
  Profile p;
  p.max_rows = 12;
  p.max_rows_thorough = 30;
  auto x = Gen(c, p);
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  auto r = RunOnce(x, Config(x, 0, c.scratch), Config(x, 1, c.scratch));
  REQUIRE(r.r.ok(), r.r.all());
}
DAMAGED(psi, 8)
