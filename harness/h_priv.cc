// What the peer can read off the wire.
#include "e2e.h"
#include "leak.h"
#include "psi/algorithm/kkrt/kkrt_psi.h"
#include "psi/utils/communication.h"
using namespace e2e;

namespace {
// Turns every value of both tables into a long token, the same for the same value.
std::string Token(const std::string& v, uint64_t salt, const std::string& prefix) {
  uint64_t h = salt ^ 0x9e3779b97f4a7c15ull;
  for (unsigned char ch : v) h = pbt::mix(h ^ ch);
  std::string s = prefix;
  for (int i = 0; i < 20; ++i) {
    h = pbt::mix(h + i);
    s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[h % 62];
  }
  return s;
}
bool IsKey(const Side& s, const std::string& col) { return std::find(s.keys.begin(), s.keys.end(), col) != s.keys.end(); }
void Tokens(Scenario& x, uint64_t salt) {
  for (int i = 0; i < 2; ++i) {
    Side& s = x.s[i];
    for (size_t r = 0; r < s.t.rows.size(); ++r)
      for (size_t k = 0; k < s.t.cols.size(); ++k) {
        bool key = IsKey(s, s.t.cols[k]);
        auto& f = s.t.rows[r][k];
        if (key) {
          size_t pos = std::find(s.keys.begin(), s.keys.end(), s.t.cols[k]) - s.keys.begin();
          f = Token(f, salt + pos, "");
        } else {
          f = Token(f, salt + 100 + i * 50 + k + r * 1000, i ? "s" : "r");
        }
      }
  }
}
leak::Log Record(const std::vector<parties::Link>& links) {
  auto& w = links[0]->ShimWorld();
  std::lock_guard<std::mutex> g(w.mu);
  return w.log;
}
struct Traffic {
  Ran ran;
  leak::Log log;
};
Traffic Go(const Scenario& x, const std::string& dir) {
  Traffic t;
  std::vector<parties::Link> keep;
  t.ran = Run(x, Config(x, 0, dir), Config(x, 1, dir), [&](const std::vector<parties::Link>& l) {
    keep = l;
    l[0]->ShimWorld().record = true;
  });
  t.log = Record(keep);
  return t;
}
}  // namespace

// C05a: nothing outside the intersection (and no payload column at all) is readable or guessable from the traffic
PROP(wire_secrets, 60) {
  Profile p;
  auto x = Gen(c, p);
  Tokens(x, c.u64());
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  auto t = Go(x, c.scratch);
  REQUIRE(t.ran.r.ok(), "PSI failed on valid inputs: " << t.ran.r.all());
  REQUIRE(t.log.size() > 2, "no traffic recorded");
  leak::Finder f;
  for (int i = 0; i < 2; ++i) {
    auto mine = tables::Counts(x.s[i].t, x.s[i].keys), other = tables::Counts(x.s[1 - i].t, x.s[1 - i].keys);
    for (auto& [key, n] : mine) {
      if (x.broadcast && other.count(key)) continue;
      std::string joined;
      for (auto& k : key) {
        bool shared = false;  // one column of a composite key may be common
        for (auto& [ok, on] : other) for (auto& v : ok) shared |= v == k;
        if (!(shared && x.broadcast)) f.Add(k, i ? "sender key" : "receiver key");
        joined += (joined.empty() ? "" : ",") + k;
      }
      f.Add(joined, i ? "sender key" : "receiver key");
    }
    for (auto& row : x.s[i].t.rows)
      for (size_t k = 0; k < row.size(); ++k)
        if (!IsKey(x.s[i], x.s[i].t.cols[k])) f.Add(row[k], i ? "sender payload" : "receiver payload");
  }
  for (auto& [src, dst, m] : t.log) {
    auto hit = f.Find(m);
    REQUIRE(hit.empty(), hit << " was sent from rank " << src << " to " << dst << " in a message of " << m.size() << " bytes");
  }
}

// C05b: every run blinds afresh, and the two parties blind differently
PROP(fresh_blinding, 60) {
  Profile p;
  auto x = Gen(c, p);
  x.digest = false;
  x.broadcast = false;
  x.recovery = false;
  Tokens(x, c.u64());
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  auto a = Go(x, c.scratch);
  REQUIRE(a.ran.r.ok(), "PSI failed on valid inputs: " << a.ran.r.all());
  auto y = x;
  y.seed = x.seed + 7777777;
  auto b = Go(y, c.scratch);
  REQUIRE(b.ran.r.ok(), "PSI failed on valid inputs: " << b.ran.r.all());
  auto wa = leak::Windows(a.log), wb = leak::Windows(b.log);
  auto both = leak::Common(wa, wb);
  REQUIRE(both.empty(), "two runs over the same tables send the same bytes " << both);
  auto cross = leak::Common(leak::Windows(a.log, 0, 12), leak::Windows(a.log, 1, 12));
  REQUIRE(cross.empty(), "both parties send the bytes " << cross);
  c.metric("windows", (double)wa.size());
}

// Repeats some rows of the receiver's table; what it sends must not tell how often, as the sender gets no result.
std::function<void(Table&)> Repeater(pbt::Ctx& c) {
  uint64_t n = c.flip() ? 1 + c.skewed(0, 30) : 0, seed = c.u64();
  return [n, seed](Table& t) {
    uint64_t s = seed, m = t.rows.size();
    for (uint64_t i = 0; i < n; ++i, s = s * 6364136223846793005ULL + 1442695040888963407ULL) t.rows.push_back(t.rows[(s >> 33) % m]);
  };
}

// C05c: without broadcast, the amount of traffic depends on set sizes only
PROP(size_only, 60) {
  Scenario x;
  static const std::vector<v2::Protocol> protos = {v2::PROTOCOL_ECDH, v2::PROTOCOL_KKRT, v2::PROTOCOL_RR22};
  x.proto = c.pick(protos);
  uint64_t n[2] = {1 + (uint64_t)c.skewed(0, 60), 1 + (uint64_t)c.skewed(0, 60)};
  x.curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1});
  x.batch = c.pick(std::vector<uint64_t>{0, 1, 2, 3, 7, 16, 64});
  x.low_comm = c.flip();
  x.broadcast = false;
  x.digest = false;
  x.receiver_rank = (int)c.below(2);
  x.seed = c.below(1 << 20);
  int joins = (int)c.below(3);
  x.join = joins == 0 ? v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED : joins == 1 ? v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN : v2::PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN;
  x.left = 0;
  for (int i = 0; i < 2; ++i) {
    x.s[i].keys = {"id"};
    x.s[i].t.cols = {"id"};
    x.s[i].keys_unique = c.flip();
  }
  uint64_t salt = c.u64();
  std::vector<size_t> sizes[2];  // messages from the receiver to the sender
  uint64_t overlaps[2] = {0, 1 + c.below(std::min(n[0], n[1]))};
  auto repeat = Repeater(c);
  for (int run = 0; run < 2; ++run) {
    for (int i = 0; i < 2; ++i) {
      x.s[i].t.rows.clear();
      for (uint64_t r = 0; r < n[i]; ++r) {
        uint64_t id = r < overlaps[run] ? r : (i + 1) * 1000000 + r;
        x.s[i].t.rows.push_back({Token(std::to_string(id), salt, "")});
      }
    }
    if (run && !x.s[0].keys_unique) repeat(x.s[0].t);
    Place(x, c.scratch);
    if (!run) Describe(c, x), Classify(c, x);
    auto t = Go(x, c.scratch);
    REQUIRE(t.ran.r.ok(), "PSI failed on valid inputs: " << t.ran.r.all());
    for (auto& [src, dst, m] : t.log)
      if ((int)src == x.receiver_rank) sizes[run].push_back(m.size());
    std::sort(sizes[run].begin(), sizes[run].end());
  }
  c.note() << " overlaps 0 and " << overlaps[1];
  REQUIRE(sizes[0] == sizes[1], "the receiver's messages tell the overlap: sizes " << pbt::showv(sizes[0]) << " without and " << pbt::showv(sizes[1]) << " with common items");
  c.nontrivial();
}

// C05d: what the receiver sends under ECDH does not even depend on the sender's
// number of items (no dual masked items go back without broadcast) nor on how
// often its own keys occur
PROP(ecdh_one_way, 60) {
  Scenario x;
  x.proto = v2::PROTOCOL_ECDH;
  x.curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1});
  x.batch = c.pick(std::vector<uint64_t>{0, 1, 2, 3, 7, 16, 64});
  x.broadcast = false;
  x.digest = false;
  x.receiver_rank = (int)c.below(2);
  x.seed = c.below(1 << 20);
  uint64_t n0 = 1 + c.skewed(0, 60), salt = c.u64();
  uint64_t n1[2] = {1 + (uint64_t)c.skewed(0, 20), 1 + (uint64_t)c.skewed(0, 60)};
  for (int i = 0; i < 2; ++i) x.s[i].keys = x.s[i].t.cols = {"id"};
  size_t bytes[2] = {0, 0};
  auto repeat = Repeater(c);
  for (int run = 0; run < 2; ++run) {
    for (int i = 0; i < 2; ++i) {
      x.s[i].t.rows.clear();
      for (uint64_t r = 0; r < (i ? n1[run] : n0); ++r) x.s[i].t.rows.push_back({Token(std::to_string(r), salt, "")});
    }
    if (run) repeat(x.s[0].t);
    Place(x, c.scratch);
    if (!run) Describe(c, x);
    auto t = Go(x, c.scratch);
    REQUIRE(t.ran.r.ok(), "PSI failed on valid inputs: " << t.ran.r.all());
    for (auto& [src, dst, m] : t.log)
      if ((int)src == x.receiver_rank) bytes[run] += m.size();
  }
  c.note() << " sender items " << n1[0] << " and " << n1[1];
  REQUIRE(bytes[0] == bytes[1], "the receiver sends " << bytes[0] << " bytes to a sender of " << n1[0] << " items and " << bytes[1] << " bytes to a sender of " << n1[1]);
  c.nontrivial(n1[0] != n1[1]);
}

// C05f: an item of the sender has one encoding per hash function; where two functions choose the same bin the second
// one is filled with random bytes, as equal encodings would tell the receiver something about an item it does not have
PROP(kkrt_encodings, 60) {
  auto w = parties::World(2, 30000);
  yacl::shim::SeedRand(c.u64());
  size_t n = 1 + c.skewed(0, 40), m = 1 + c.skewed(0, 200);
  uint64_t seed = c.u64();
  auto val = [&](uint64_t i) { uint128_t x[2] = {(uint128_t)seed << 64 | i, 0}; return yacl::crypto::Blake3_128(yacl::ByteContainerView(x, 16)); };
  size_t common = c.below(std::min(n, m) + 1);
  std::vector<uint128_t> rx;
  std::vector<psi::PsiItemHash> sx;
  for (size_t i = 0; i < n; ++i) rx.push_back(val(i < common ? i : 1000 + i));
  for (size_t i = 0; i < m; ++i) sx.push_back({val(i < common ? i : 5000 + i), 1});
  auto o = psi::kkrt::GetDefaultKkrtPsiOptions();
  o.psi_batch_size = c.pick(std::vector<size_t>{1024, 1, 7, 64});
  c.note() << n << " and " << m << " items, " << common << " common, batch " << o.psi_batch_size;
  leak::Log log;
  std::vector<psi::PsiResultIndex> res;
  auto r = parties::Run(w, {[&](parties::Link l) {
                              auto ot = psi::kkrt::GetKkrtOtReceiverOptions(l, 512);
                              res = psi::kkrt::KkrtPsiRecvIndices(l, o, ot, rx);
                            },
                            [&](parties::Link l) {
                              auto ot = psi::kkrt::GetKkrtOtSenderOptions(l, 512);
                              l->ShimWorld().record = true;
                              psi::kkrt::KkrtPsiSend(l, o, ot, sx);
                            }});
  if (!r.ok() && r.all().find("empty bin in stash") != std::string::npos) throw pbt::Discard{};
  REQUIRE(r.ok(), r.all());
  std::map<std::string, size_t> seen;
  size_t items = 0;
  for (auto& [src, dst, msg] : Record(w)) {
    if (src != 1 || msg.size() < 18) continue;
    psi::PsiDataBatch b;
    try { b = psi::PsiDataBatch::Deserialize(yacl::Buffer(msg.data(), msg.size())); } catch (...) { continue; }
    if (!b.item_num || b.flatten_bytes.size() % (3 * b.item_num)) continue;
    size_t e = b.flatten_bytes.size() / (3 * b.item_num);
    REQUIRE(e >= 5, "encodings of " << e << " bytes");
    for (size_t k = 0; k < 3 * b.item_num; ++k, ++items)
      REQUIRE(seen.emplace(b.flatten_bytes.substr(k * e, e), items).second, "the sender's encodings " << items << " and " << seen[b.flatten_bytes.substr(k * e, e)] << " are equal (" << b.item_num << " items, three encodings each)");
  }
  REQUIRE(items == 3 * m, "found " << items << " encodings of " << m << " items");
  c.nontrivial(common < m);
}
