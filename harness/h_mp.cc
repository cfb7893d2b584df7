// KKRT, the operator interface, multi-party PSI and the legacy file/memory API.
#include <algorithm>
#include <filesystem>
#include <map>
#include <mutex>
#include <set>

#include "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.h"
#include "parties.h"
#include "wire.h"
#include "pbt.h"
#include "psi/algorithm/ecdh/ecdh_operator.h"
#include "psi/algorithm/kkrt/kkrt_operator.h"
#include "psi/algorithm/kkrt/kkrt_psi.h"
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/algorithm/rr22/rr22_operator.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/legacy/bucket_psi.h"
#include "psi/legacy/ecdh_3party_psi.h"
#include "psi/legacy/kkrt_2party_psi.h"
#include "psi/legacy/memory_psi.h"
#include "psi/legacy/nparty_psi.h"
#include "tables.h"

using namespace pbt;
using u128 = uint128_t;
namespace {
struct Init {
  Init() {
    parties::Quiet();
  }
} init;
// links the files which register the operators
[[gnu::used]] void* const kKeep[] = {(void*)&psi::Ecdh3PartyPsiOperator::ParseConfig, (void*)&psi::NpartyPsiOperator::ParseConfig, (void*)&psi::KkrtPsiOperator::ParseConfig};
using Str = std::string;
using Strs = std::vector<Str>;

// Style 12 is not injective; one more style has items of arbitrary bytes.
constexpr int kItemStyles = tables::kStyles + 1;
std::string Item(int style, uint64_t i) {
  if (style == tables::kStyles) return std::string("\xff\x00\xc3", 3) + std::to_string(i) + char(128 + i % 128);
  return tables::KeyVal(style == 12 ? 3 : style, i);
}
// n parties' sets over one pool of numbered items; `sizes` many of them.
std::vector<std::vector<uint64_t>> Sets(Ctx& c, size_t n, uint64_t top, bool allow_empty) {
  // How sets overlap: 0 random subsets, 1 a common core plus own items,
  // 2 pairwise overlaps without a common core, 3 equal sets
  int how = c.below(4);
  std::vector<std::set<uint64_t>> s(n);
  uint64_t pool = 2 + c.skewed(0, top * 2), core = c.skewed(0, top);
  uint64_t seed = c.u64();
  for (size_t p = 0; p < n; ++p) {
    uint64_t sz = c.skewed(allow_empty ? 0 : 1, top);
    if (allow_empty && c.chance(1, 12)) sz = 0;
    if (how == 0) for (uint64_t k = 0; k < sz; ++k) s[p].insert(mix(seed + p * 1000003 + k) % pool);
    else if (how == 1) {
      if (sz || !allow_empty) {
        for (uint64_t k = 0; k < core; ++k) s[p].insert(k);
        for (uint64_t k = 0; k < sz; ++k) s[p].insert(100000 * (p + 1) + k);
      }
    } else if (how == 2) {
      for (uint64_t k = 0; k < sz; ++k) { s[p].insert(100000 * (p + 1) + k); s[p].insert(100000 * ((p + 1) % n + 1) + k); }
      for (uint64_t k = 0; k < core % 7 && sz; ++k) if (mix(seed + k) % n != p) s[p].insert(k);
    } else for (uint64_t k = 0; k < core + !allow_empty; ++k) s[p].insert(k);
    if (!allow_empty && s[p].empty()) s[p].insert(mix(seed + p) % pool);
  }
  std::map<uint64_t, uint64_t> dense;  // small numbers, so that key values stay short and distinct
  for (auto& x : s) for (auto i : x) dense.emplace(i, 0);
  uint64_t next = 0;
  for (auto& [i, d] : dense) d = next++;
  std::vector<std::vector<uint64_t>> r;
  for (auto& x : s) {
    std::vector<uint64_t> v;
    for (auto i : x) v.push_back(dense[i]);
    for (size_t i = v.size(); i > 1; --i) { seed = mix(seed); std::swap(v[i - 1], v[seed % i]); }
    r.push_back(v);
  }
  return r;
}
std::set<uint64_t> Common(const std::vector<std::vector<uint64_t>>& s) {
  std::set<uint64_t> r(s[0].begin(), s[0].end());
  for (size_t p = 1; p < s.size(); ++p) {
    std::set<uint64_t> o(s[p].begin(), s[p].end()), k;
    for (auto x : r) if (o.count(x)) k.insert(x);
    r = k;
  }
  return r;
}
std::string Sizes(const std::vector<std::vector<uint64_t>>& s) {
  std::string o;
  for (auto& x : s) o += (o.empty() ? "" : "/") + std::to_string(x.size());
  return o;
}
bool Partial(const std::vector<std::vector<uint64_t>>& s) {
  auto k = Common(s).size();
  size_t m = s[0].size();
  for (auto& x : s) m = std::max(m, x.size());
  return k > 0 && k < m;
}
u128 Hash(uint64_t seed, uint64_t i) { return (u128(mix(seed ^ mix(i))) << 64) | mix(seed + i + 77); }
}  // namespace

// ---------------------------------------------------------------- KKRT
PROP(kkrt, 60) {
  auto w = parties::World(2, 60000);
  yacl::shim::SeedRand(c.u64());
  auto s = Sets(c, 2, c.thorough && c.chance(1, 20) ? 6000 : c.chance(1, 40) ? 3000 : 300, true);
  uint64_t seed = c.u64();
  auto val = [&](uint64_t i) { return Hash(seed, i); };
  std::vector<u128> rx;
  for (auto i : s[0]) rx.push_back(val(i));
  std::vector<psi::PsiItemHash> sx;
  std::map<uint64_t, uint32_t> cnt;
  for (auto i : s[1]) {
    uint32_t k = mix(seed + i) % 4 == 0 ? 1 + mix(seed + i + 1) % 5 : 1;
    cnt[i] = k;
    sx.push_back({val(i), k});
  }
  auto o = psi::kkrt::GetDefaultKkrtPsiOptions();
  o.psi_batch_size = c.pick(std::vector<size_t>{1024, 1, 7, 128, std::max<size_t>(1, sx.size())});
  int api = c.below(3);
  std::vector<psi::PsiResultIndex> res;
  std::pair<std::vector<size_t>, std::vector<uint32_t>> pr;
  auto r = parties::Run(w, {[&](parties::Link l) {
                              auto ot = psi::kkrt::GetKkrtOtReceiverOptions(l, 512);
                              if (api == 0) res = psi::kkrt::KkrtPsiRecvIndices(l, o, ot, rx);
                              else if (api == 1) pr = psi::kkrt::KkrtPsiRecv(l, o, ot, rx);
                              else pr = psi::kkrt::KkrtPsiRecv(l, ot, rx);
                            },
                            [&](parties::Link l) {
                              auto ot = psi::kkrt::GetKkrtOtSenderOptions(l, 512);
                              if (api == 2) psi::kkrt::KkrtPsiSend(l, ot, sx);
                              else psi::kkrt::KkrtPsiSend(l, o, ot, sx);
                            }});
  c.note() << Sizes(s) << " batch " << o.psi_batch_size << " api " << api;
  if (rx.empty() || sx.empty()) {
    c.label("empty");
    REQUIRE(!r.err[0].empty() && !r.err[1].empty(), "an empty set is accepted: " << r.all());
    return;
  }
  if (!r.ok() && r.all().find("empty bin in stash") != Str::npos) throw Discard{};
  REQUIRE(r.ok(), r.all());
  c.nontrivial(Partial(s));
  if (api == 0)
    for (auto& x : res) {
      REQUIRE(x.peer_item_cnt > 0, "item " << x.data << " with a peer count of 0");
      pr.first.push_back(x.data); pr.second.push_back(x.peer_item_cnt - 1);
    }
  REQUIRE(pr.first.size() == pr.second.size(), "indexes and duplicate counts");
  std::map<size_t, uint32_t> got;
  for (size_t i = 0; i < pr.first.size(); ++i) {
    REQUIRE(pr.first[i] < rx.size(), "index out of range");
    REQUIRE(got.emplace(pr.first[i], pr.second[i]).second, "item " << pr.first[i] << " is reported twice");
  }
  for (size_t i = 0; i < rx.size(); ++i) {
    auto it = cnt.find(s[0][i]);
    if (it == cnt.end()) REQUIRE(!got.count(i), "item " << i << " is not the sender's");
    else {
      REQUIRE(got.count(i), "common item " << i << " is missing");
      REQUIRE(got[i] == it->second - 1, "item " << i << " has " << got[i] << " extra duplicates, the sender's item has " << it->second - 1);
    }
  }
}

// ---------------------------------------------------------------- operators
namespace {
struct Provider : psi::IDataProvider {
  std::vector<psi::PsiItemData> d;
  size_t at = 0;
  explicit Provider(std::vector<psi::PsiItemData> x) : d(std::move(x)) {}
  std::vector<psi::PsiItemData> ReadNext(size_t n) override {
    n = std::min(n, d.size() - at);
    std::vector<psi::PsiItemData> r(d.begin() + at, d.begin() + at + n);
    at += n;
    return r;
  }
  std::vector<psi::PsiItemData> ReadAll() override { return ReadNext(d.size()); }
};
struct Store : psi::IDataStore {
  std::vector<std::vector<psi::PsiItemData>> b;
  [[nodiscard]] size_t GetBucketNum() const override { return b.size(); }
  std::shared_ptr<psi::IDataProvider> Load(size_t t) override { return std::make_shared<Provider>(b.at(t)); }
};
struct Receiver : psi::IResultReceiver {
  std::mutex mu;
  std::vector<psi::PsiResultIndex> got;
  int finished = 0, late = 0;
  void Add(psi::PsiResultIndex i) override { std::lock_guard<std::mutex> g(mu); late += finished; got.push_back(i); }
  void Add(std::vector<psi::PsiResultIndex> v) override { std::lock_guard<std::mutex> g(mu); late += finished; for (auto& i : v) got.push_back(i); }
  void Finish() override { std::lock_guard<std::mutex> g(mu); ++finished; }
};
struct Results : psi::IResultStore {
  std::vector<std::shared_ptr<Receiver>> r;
  explicit Results(size_t n) { for (size_t i = 0; i < n; ++i) r.push_back(std::make_shared<Receiver>()); }
  [[nodiscard]] size_t GetBucketNum() const override { return r.size(); }
  std::shared_ptr<psi::IResultReceiver> GetReceiver(size_t t) override { return r.at(t); }
};
}  // namespace

PROP(operators, 90) {
  auto w = parties::World(2, 60000);
  yacl::shim::SeedRand(c.u64());
  int proto = c.below(3);  // ECDH, KKRT, RR22
  size_t buckets = proto == 0 ? 1 : 1 + c.below(4);
  size_t rank = c.below(2);
  bool bcast = c.flip();
  int style = c.below(kItemStyles);
  std::vector<std::vector<std::vector<uint64_t>>> sets;
  std::shared_ptr<Store> in[2] = {std::make_shared<Store>(), std::make_shared<Store>()};
  std::map<uint64_t, uint32_t> cnt[2];
  uint64_t seed = c.u64();
  bool partial = false, anyempty = false;
  for (size_t b = 0; b < buckets; ++b) {
    auto s = Sets(c, 2, c.thorough ? 600 : 120, proto == 2 || c.chance(1, 10));
    for (auto& v : s) for (auto& x : v) x = x * buckets + b;
    partial |= Partial(s);
    anyempty |= s[0].empty() || s[1].empty();
    for (int p = 0; p < 2; ++p) {
      std::vector<psi::PsiItemData> d;
      for (auto i : s[p]) {
        uint32_t k = mix(seed + i * 2 + p) % 4 == 0 ? 1 + mix(seed + i) % 4 : 1;
        cnt[p][i] = k;
        d.push_back({Item(style, i), k});
      }
      in[p]->b.push_back(d);
    }
    sets.push_back(s);
  }
  std::shared_ptr<Results> out[2] = {std::make_shared<Results>(buckets), std::make_shared<Results>(buckets)};
  size_t batch = c.pick(std::vector<size_t>{4096, 1, 3, 50});
  size_t bin = c.flip() ? 64 : c.below(2);
  int how = c.below(2), lvl = 1 + c.below(6);
  auto mode = c.flip() ? psi::rr22::Rr22PsiMode::FastMode : psi::rr22::Rr22PsiMode::LowCommMode;
  bool receives[2];
  std::filesystem::create_directories(c.scratch + "/0");
  std::filesystem::create_directories(c.scratch + "/1");
  bool ecbcast = bcast;
  auto go = [&](parties::Link l) {
    size_t me = l->Rank();
    std::unique_ptr<psi::PsiOperator> op;
    if (proto == 0) {
      psi::ecdh::EcdhPsiOptions o;
      o.link_ctx = l;
      o.ecc_cryptor = psi::CreateEccCryptor(psi::CurveType::CURVE_25519);
      o.target_rank = ecbcast ? yacl::link::kAllRank : rank;
      o.batch_size = batch;
      op = std::make_unique<psi::ecdh::EcdhOperator>(o, in[me], out[me], bin, c.scratch + "/" + std::to_string(me));
    } else if (proto == 1) {
      psi::kkrt::KkrtOperator::Options o;
      o.link_ctx = l;
      o.receiver_rank = rank;
      o.broadcast_result = bcast;
      op = std::make_unique<psi::kkrt::KkrtOperator>(o, in[me], out[me]);
    } else {
      psi::rr22::Rr22Operator::Options o{psi::rr22::Rr22PsiOptions(40, 2, true, false)};
      o.rr22_opts.mode = mode;
      o.receiver_rank = rank;
      o.lctx = l;
      o.broadcast_result = bcast;
      o.pipeline_mode = how == 0;
      o.parallel_level = lvl;
      op = std::make_unique<psi::rr22::Rr22Operator>(o, in[me], out[me]);
    }
    receives[me] = op->ReceiveResult();
    op->Init();
    op->Run();
    op->End();
  };
  auto r = parties::Run(w, {go, go});
  static const char* name[] = {"ecdh", "kkrt", "rr22"};
  c.label(name[proto]);
  c.note() << name[proto] << " buckets " << buckets << " receiver " << rank << (bcast ? " broadcast" : "");
  if (proto == 1 && anyempty) {
    c.label("kkrt with an empty bucket");
    REQUIRE(!r.ok(), "KKRT accepts an empty bucket");
    return;
  }
  if (!r.ok() && r.all().find("empty bin in stash") != Str::npos) throw Discard{};
  REQUIRE(r.ok(), r.all());
  c.nontrivial(partial);
  for (size_t p = 0; p < 2; ++p) {
    bool entitled = bcast || p == rank;
    Str who = p == rank ? "receiver: " : "other party: ";
    REQUIRE(receives[p] == entitled, who << "ReceiveResult is " << receives[p]);
    for (size_t b = 0; b < buckets; ++b) {
      auto& rec = *out[p]->r[b];
      REQUIRE(rec.late == 0 && rec.finished <= 1, who << "results after Finish");
      if (!entitled) { REQUIRE(rec.got.empty(), who << "gets results"); continue; }
      std::map<uint64_t, uint32_t> want, got;
      std::set<uint64_t> theirs(sets[b][1 - p].begin(), sets[b][1 - p].end());
      for (size_t i = 0; i < sets[b][p].size(); ++i)
        if (theirs.count(sets[b][p][i])) want[i] = cnt[1 - p][sets[b][p][i]];
      for (auto& x : rec.got) REQUIRE(got.emplace(x.data, x.peer_item_cnt).second, who << "index " << x.data << " twice in bucket " << b);
      for (auto& [i, k] : want) {
        REQUIRE(got.count(i), who << "common item " << i << " of bucket " << b << " is missing");
        REQUIRE(got[i] == k, who << "item " << i << " of bucket " << b << ": the peer holds it " << k << " times, reported " << got[i]);
      }
      REQUIRE(got.size() == want.size(), who << got.size() << " results, " << want.size() << " expected");
    }
  }
}

// ---------------------------------------------------------------- memory PSI of 2..n parties
PROP(mem_psi, 90) {
  using psi::PsiType;
  auto type = c.pick(std::vector<PsiType>{PsiType::ECDH_PSI_3PC, PsiType::ECDH_PSI_NPC, PsiType::ECDH_PSI_NPC, PsiType::KKRT_PSI_NPC, PsiType::KKRT_PSI_2PC});
  size_t n = type == PsiType::ECDH_PSI_3PC ? 3 : type == PsiType::KKRT_PSI_2PC ? 2 : 2 + c.below(c.thorough ? 6 : 4);
  auto w = parties::World(n, 60000);
  yacl::shim::SeedRand(c.u64());
  auto s = Sets(c, n, c.chance(1, 8) ? 400 : 40, true);
  int style = c.below(kItemStyles);
  size_t recv = c.below(n);
  bool bcast = c.flip();
  auto curve = c.pick(std::vector<psi::CurveType>{psi::CurveType::CURVE_25519, psi::CurveType::CURVE_INVALID_TYPE, psi::CurveType::CURVE_FOURQ, psi::CurveType::CURVE_SM2, psi::CurveType::CURVE_25519_ELLIGATOR2});
  std::vector<Strs> in(n), out(n);
  for (size_t p = 0; p < n; ++p) for (auto i : s[p]) in[p].push_back(Item(style, i));
  auto go = [&](parties::Link l) {
    psi::MemoryPsiConfig cfg;
    cfg.set_psi_type(type);
    cfg.set_receiver_rank(recv);
    cfg.set_broadcast_result(bcast);
    cfg.set_curve_type(curve);
    psi::MemoryPsi m(cfg, l);
    out[l->Rank()] = m.Run(in[l->Rank()]);
  };
  auto r = parties::Run(w, std::vector<std::function<void(parties::Link)>>(n, go));
  auto name = psi::PsiType_Name(type);
  c.label(name);
  c.note() << name << " " << Sizes(s) << " receiver " << recv << (bcast ? " broadcast" : "") << " curve " << curve;
  if (!r.ok() && r.all().find("empty bin in stash") != Str::npos) throw Discard{};
  REQUIRE(r.ok(), r.all());
  c.nontrivial(Partial(s));
  std::set<Str> want;
  for (auto i : Common(s)) want.insert(Item(style, i));
  for (size_t p = 0; p < n; ++p) {
    std::set<Str> got(out[p].begin(), out[p].end());
    if (p != recv && !bcast) { REQUIRE(out[p].empty(), "party " << p << " is not the receiver and gets " << out[p].size() << " items"); continue; }
    REQUIRE(got.size() == out[p].size(), "party " << p << " gets an item twice");
    REQUIRE(got == want, "party " << p << " gets " << got.size() << " items, the intersection has " << want.size());
  }
}

// ---------------------------------------------------------------- NTY
PROP(nty, 90) {
  size_t n = 3 + c.below(c.thorough ? 5 : 3);
  auto w = parties::World(n, 60000);
  yacl::shim::SeedRand(c.u64());
  auto s = Sets(c, n, c.chance(1, 8) ? (c.thorough ? 5000 : 1500) : 60, true);
  uint64_t seed = c.u64();
  std::vector<size_t> rk(n);
  for (size_t i = 0; i < n; ++i) rk[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(rk[i - 1], rk[c.below(i)]);
  bool bcast = c.flip();
  size_t threads = c.below(4);
  std::vector<std::vector<u128>> in(n), out(n);
  for (size_t p = 0; p < n; ++p) for (auto i : s[p]) in[p].push_back(Hash(seed, i));
  auto go = [&](parties::Link l) {
    psi::nty::NtyMPsiOptions o(threads, rk[0], rk[1], rk[2], bcast, false);
    o.link_ctx = l;
    psi::nty::NtyMPsi m(o);
    out[l->Rank()] = m.Run(in[l->Rank()]);
  };
  auto r = parties::Run(w, std::vector<std::function<void(parties::Link)>>(n, go));
  c.label(n == 3 ? "3 parties" : "more parties");
  c.note() << n << " parties " << Sizes(s) << " server " << rk[0] << " helper " << rk[1] << " receiver " << rk[2] << (bcast ? " broadcast" : "");
  REQUIRE(r.ok(), r.all());
  c.nontrivial(Partial(s));
  std::set<u128> want;
  for (auto i : Common(s)) want.insert(Hash(seed, i));
  for (size_t p = 0; p < n; ++p) {
    std::set<u128> got(out[p].begin(), out[p].end());
    if (p != rk[2] && !bcast) { REQUIRE(out[p].empty(), "party " << p << " is not the receiver and gets " << out[p].size() << " items"); continue; }
    REQUIRE(got.size() == out[p].size(), "party " << p << " gets an item twice");
    REQUIRE(got == want, "party " << p << " gets " << got.size() << " items, the intersection has " << want.size());
  }
}

// ---------------------------------------------------------------- KMPRT17
PROP(kmprt, 90) {
  size_t n = 2 + c.below(c.thorough ? 5 : 3);
  auto w = parties::World(n, 60000);
  yacl::shim::SeedRand(c.u64());
  auto s = Sets(c, n, c.chance(1, 8) ? 300 : 30, true);
  int style = c.below(kItemStyles);
  size_t leader = c.below(n);
  std::vector<Strs> in(n), out(n);
  for (size_t p = 0; p < n; ++p) for (auto i : s[p]) in[p].push_back(Item(style, i));
  auto go = [&](parties::Link l) {
    psi::psi::KmprtParty::Options o;
    o.link_ctx = l;
    o.leader_rank = leader;
    psi::psi::KmprtParty party(o);
    out[l->Rank()] = party.Run(in[l->Rank()]);
  };
  auto r = parties::Run(w, std::vector<std::function<void(parties::Link)>>(n, go));
  c.note() << n << " parties " << Sizes(s) << " leader " << leader;
  // the cuckoo table of a small set fails with a noticeable probability
  if (!r.ok() && r.all().find("Failed to insert element") != Str::npos) { c.label("cuckoo failure"); throw Discard{}; }
  REQUIRE(r.ok(), r.all());
  c.nontrivial(Partial(s));
  std::set<Str> want;
  for (auto i : Common(s)) want.insert(Item(style, i));
  for (size_t p = 0; p < n; ++p) {
    std::set<Str> got(out[p].begin(), out[p].end());
    if (p != leader) { REQUIRE(out[p].empty(), "party " << p << " is not the leader and gets " << out[p].size() << " items"); continue; }
    REQUIRE(got.size() == out[p].size(), "the leader gets an item twice");
    REQUIRE(got == want, "the leader gets " << got.size() << " items, the intersection has " << want.size());
  }
}

// ---------------------------------------------------------------- legacy bucket PSI on files
PROP(bucket_psi, 120) {
  using psi::PsiType;
  auto type = c.pick(std::vector<PsiType>{PsiType::ECDH_PSI_3PC, PsiType::ECDH_PSI_NPC, PsiType::ECDH_PSI_NPC, PsiType::KKRT_PSI_NPC, PsiType::KKRT_PSI_2PC});
  size_t n = type == PsiType::ECDH_PSI_3PC ? 3 : type == PsiType::KKRT_PSI_2PC ? 2 : 2 + c.below(3);
  auto w = parties::World(n, 60000);
  yacl::shim::SeedRand(c.u64());
  auto s = Sets(c, n, c.chance(1, 8) ? 200 : 30, true);
  // The checker of the legacy interface reads plain csv: no quotes, no empty
  // lines, no empty keys.
  int style = c.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 15});
  size_t nk = 1 + c.below(3);
  size_t recv = c.below(n);
  bool bcast = c.flip(), sort = c.flip();
  size_t bucket = c.pick(std::vector<size_t>{0, 1, 3, 20, 1000});
  std::vector<tables::Table> t(n);
  std::vector<tables::Row> keys(n);
  std::vector<tables::Spelling> sp(n);
  for (size_t p = 0; p < n; ++p) {
    size_t np = c.below(3);
    tables::Row cols;
    for (size_t k = 0; k < nk; ++k) { keys[p].push_back("id" + std::to_string(k) + (p % 2 ? "_b" : "")); cols.push_back(keys[p].back()); }
    for (size_t k = 0; k < np; ++k) cols.push_back("p" + std::to_string(k));
    for (size_t i = cols.size(); i > 1; --i) std::swap(cols[i - 1], cols[c.below(i)]);
    t[p].cols = cols;
    for (auto i : s[p]) {
      tables::Row row;
      for (auto& col : cols) {
        auto at = std::find(keys[p].begin(), keys[p].end(), col) - keys[p].begin();
        if (size_t(at) < nk) row.push_back(Item(style, nk == 1 ? i : at == 0 ? i / 5 : at == 1 ? i % 5 : i % 2));
        else row.push_back("v" + std::to_string(p) + "-" + std::to_string(mix(i) % 1000));
      }
      t[p].rows.push_back(row);
    }
    sp[p].crlf = c.chance(1, 5);
    sp[p].no_final_newline = c.chance(1, 4);
    std::filesystem::create_directories(c.scratch + "/" + std::to_string(p));
    tables::WriteCsv(c.scratch + "/" + std::to_string(p) + "/in.csv", t[p], sp[p]);
  }
  std::vector<psi::PsiResultReport> rep(n);
  std::vector<std::vector<int>> prog(n);
  std::vector<Str> progbad(n);
  bool cb = c.flip(), pre = c.flip();
  auto go = [&](parties::Link l) {
    size_t p = l->Rank();
    psi::BucketPsiConfig cfg;
    cfg.set_psi_type(type);
    cfg.set_receiver_rank(recv);
    cfg.set_broadcast_result(bcast);
    cfg.set_bucket_size(bucket);
    cfg.set_curve_type(psi::CurveType::CURVE_25519);
    auto d = c.scratch + "/" + std::to_string(p);
    cfg.mutable_input_params()->set_path(d + "/in.csv");
    for (auto& k : keys[p]) cfg.mutable_input_params()->add_select_fields(k);
    cfg.mutable_input_params()->set_precheck(pre);
    cfg.mutable_output_params()->set_path(d + "/out.csv");
    cfg.mutable_output_params()->set_need_sort(sort);
    psi::BucketPsi b(cfg, l);
    if (cb)
      rep[p] = b.Run([&, p](const psi::Progress::Data& x) {
        if (!prog[p].empty() && int(x.percentage) < prog[p].back()) progbad[p] = "progress goes back";
        if (x.percentage > 100 || x.finished > x.total || x.total != 3) progbad[p] = "progress out of range";
        prog[p].push_back(x.percentage);
      }, 1);
    else rep[p] = b.Run();
  };
  auto r = parties::Run(w, std::vector<std::function<void(parties::Link)>>(n, go));
  auto name = psi::PsiType_Name(type);
  c.label(name);
  c.note() << name << " " << Sizes(s) << " receiver " << recv << (bcast ? " broadcast" : "") << (sort ? " sorted" : "") << " bucket " << bucket << " style " << style << " keys " << nk;
  if (!r.ok() && r.all().find("empty bin in stash") != Str::npos) throw Discard{};
  REQUIRE(r.ok(), r.all());
  c.nontrivial(Partial(s));
  auto common = Common(s);
  bool equal = true;
  for (size_t p = 1; p < n; ++p) equal &= s[p] == s[0];
  std::vector<std::vector<tables::Row>> order(n);
  for (size_t p = 0; p < n; ++p) {
    auto who = "party " + std::to_string(p) + ": ";
    auto d = c.scratch + "/" + std::to_string(p);
    REQUIRE(rep[p].original_count() == int64_t(s[p].size()), who << "original count " << rep[p].original_count());
    REQUIRE(progbad[p].empty(), who << progbad[p]);
    if (cb) REQUIRE(!prog[p].empty() && prog[p].back() == 100, who << "the last progress is " << (prog[p].empty() ? -1 : prog[p].back()));
    std::set<Str> files;
    for (auto& e : std::filesystem::directory_iterator(d)) files.insert(e.path().filename());
    bool entitled = bcast || p == recv;
    if (!entitled) {
      REQUIRE(rep[p].intersection_count() == -1, who << "intersection count " << rep[p].intersection_count());
      REQUIRE(files == (std::set<Str>{"in.csv"}), who << files.size() << " files left");
      continue;
    }
    REQUIRE(files == (std::set<Str>{"in.csv", "out.csv"}), who << files.size() << " files left");
    REQUIRE(rep[p].intersection_count() == int64_t(common.size()), who << "intersection count " << rep[p].intersection_count() << ", not " << common.size());
    auto o = tables::ReadCsv(d + "/out.csv");
    REQUIRE(o && o->cols == t[p].cols, who << "output header");
    std::vector<tables::Row> want;
    for (size_t i = 0; i < s[p].size(); ++i) if (common.count(s[p][i])) want.push_back(t[p].rows[i]);
    auto a = want, b = o->rows;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    REQUIRE(a == b, who << "output has " << b.size() << " rows, expected " << a.size() << (a.size() == b.size() ? " (other rows)" : ""));
    if (!sort) REQUIRE(o->rows == want, who << "unsorted output is not in input order");
    for (auto& row : o->rows) order[p].push_back(tables::KeyOf(*o, row, keys[p]));
    if (sort && !equal) {
      auto x = order[p];
      std::sort(x.begin(), x.end());
      REQUIRE(x == order[p], who << "sorted output is not ordered by its keys");
    }
    if (sort && p > 0 && !order[0].empty() && !order[p].empty()) REQUIRE(order[p] == order[0], who << "rows of the outputs do not correspond");
  }
}

// ---------------------------------------------------------------- damaged messages
DAMAGED(kkrt, 8)
DAMAGED(operators, 8)
DAMAGED(mem_psi, 8)
DAMAGED(nty, 8, 4)
DAMAGED(kmprt, 8, 4)
DAMAGED(bucket_psi, 8)
