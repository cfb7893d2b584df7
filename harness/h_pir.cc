// The experimental single-server and two-server PIR schemes: SimplePIR, Piano, PPS.
#include <cmath>
#include <map>
#include <set>

#include "experiment/pir/piano/client.h"
#include "experiment/pir/piano/serialize.h"
#include "experiment/pir/piano/server.h"
#include "experiment/pir/pps/client.h"
#include "experiment/pir/pps/receiver.h"
#include "experiment/pir/pps/sender.h"
#include "experiment/pir/pps/server.h"
#include "experiment/pir/simplepir/client.h"
#include "experiment/pir/simplepir/network_util.h"
#include "experiment/pir/simplepir/server.h"
#include "parties.h"
#include "wire.h"
#include "pbt.h"

using namespace pbt;
using U64s = std::vector<uint64_t>;
using Bytes = std::vector<uint8_t>;
using u128 = unsigned __int128;
namespace sp = pir::simple;
namespace pi = pir::piano;
namespace pp = pir::pps;

namespace {
struct Init {
  Init() { parties::Quiet(); }
} init;

template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
std::string show(T v) {
  std::ostringstream o;
  o << v;
  return o.str();
}

template <class F>
bool Throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

U64s Pass(Ctx& c, const U64s& v, bool link) {
  if (!link) return sp::DeserializeVector(sp::SerializeVector(v));
  auto w = parties::World(2, 20000);
  U64s got;
  auto r = parties::Run(w, {[&](parties::Link l) { sp::SendVector(v, l); }, [&](parties::Link l) { sp::RecvVector(got, l); }});
  REQUIRE(r.ok(), r.all());
  return got;
}

// modulus, plaintext modulus, noise and size for which the worst noise is decodable
struct SpParams {
  size_t dim, r;
  uint64_t q, p;
  int radius;
  double sigma;
  uint64_t max_k() const { return (uint64_t)std::floor(radius * sigma); }
};
SpParams DrawSp(Ctx& c) {
  SpParams s;
  for (int tries = 0;; ++tries) {
    if (tries > 300) throw Discard{};
    s.r = 1 + c.skewed(0, c.thorough ? 60 : 30);
    s.dim = 1 + c.skewed(0, c.thorough ? 200 : 40);
    int qb = (int)c.range(8, 58);
    s.q = uint64_t{1} << qb;
    if (c.chance(2, 3)) s.q = s.q / 2 + 1 + c.u64() % (s.q / 2);
    int pb = (int)c.range(1, qb - 2);
    s.p = uint64_t{1} << pb;
    if (c.chance(2, 3)) s.p = std::max<uint64_t>(2, s.p / 2 + 1 + c.u64() % (s.p / 2));
    s.radius = (int)c.range(1, 5);
    s.sigma = 0.3 + (double)c.below(700) / 100.0;
    uint64_t delta = s.q / s.p;
    u128 worst = (u128)s.max_k() * (s.p - 1) * s.r + s.q % s.p + 64;
    if (worst * 2 < delta && (u128)s.dim * s.q < ((u128)1 << 126) / s.q && (u128)s.r * s.p < ((u128)1 << 126) / s.q) break;
  }
  return s;
}
}  // namespace

PROP(simplepir, 60) {
  SpParams s = DrawSp(c);
  yacl::shim::SeedRand(c.u64());
  size_t n = s.r * s.r;
  std::vector<U64s> db(s.r, U64s(s.r));
  int mode = (int)c.below(4);
  for (auto& row : db)
    for (auto& v : row) v = mode == 0 ? s.p - 1 : mode == 1 ? c.below(2) * (s.p - 1) : mode == 2 ? c.below(std::min<uint64_t>(s.p, 3)) : c.u64() % s.p;
  c.note() << "dim=" + show(s.dim) + " r=" + show(s.r) + " q=" + show(s.q) + " p=" + show(s.p) + " radius=" + show(s.radius) + " sigma=" + show(s.sigma);
  sp::SimplePirServer server(s.dim, s.q, n, s.p);
  server.SetDatabase(db);
  server.GenerateLweMatrix();
  bool link = c.chance(1, 6);
  auto hint = Pass(c, server.GetHint(), link);
  REQUIRE(hint.size() == s.r * s.dim, "hint size " + show(hint.size()));
  for (uint64_t h : hint) REQUIRE(h < s.q, "hint value not reduced");
  auto seed = sp::DeserializeUint128(sp::SerializeUint128(server.GetSeed()));
  REQUIRE(seed == server.GetSeed(), "seed changed on the wire");
  int clients = 1 + (int)c.below(2);
  for (int k = 0; k < clients; ++k) {
    sp::SimplePirClient client(s.dim, s.q, n, s.p, s.radius, s.sigma);
    client.Setup(seed, hint);
    int queries = 1 + (int)c.below(6);
    std::set<U64s> sent;
    for (int t = 0; t < queries; ++t) {
      size_t idx = c.chance(1, 4) ? (c.flip() ? n - 1 : 0) : c.below(n);
      auto qu = client.Query(idx);
      REQUIRE(qu.size() == s.r, "query size");
      for (uint64_t v : qu) REQUIRE(v < s.q, "query value not reduced: " + show(v));
      if (std::min((double)s.dim, (double)s.r) * std::log2((double)s.q) > 64) {
        bool fresh = sent.insert(qu).second;
        REQUIRE(fresh, "query repeats an earlier one");
      }
      auto ans = Pass(c, server.Answer(Pass(c, qu, link)), link);
      REQUIRE(ans.size() == s.r, "answer size");
      uint64_t got = client.Recover(ans), want = db[idx / s.r][idx % s.r];
      REQUIRE(got == want, "index " + show(idx) + ": got " + show(got) + ", database has " + show(want));
      REQUIRE(server.GetValue(idx) == want, "GetValue");
    }
    REQUIRE(Throws([&] { client.Query(n + c.below(3)); }), "index out of range accepted");
  }
  REQUIRE(Throws([&] { server.GetValue(n); }), "GetValue out of range accepted");
  REQUIRE(Throws([&] { sp::SimplePirServer(s.dim, s.q, n + 1, s.p); }) || (n + 1) == 1, "non-square size accepted");
  REQUIRE(Throws([&] { auto d2 = db; d2.push_back(db[0]); server.SetDatabase(d2); }), "wrong number of rows accepted");
  if (n > 1 && s.p > 2) c.nontrivial();
  c.label(s.q & (s.q - 1) ? "general q" : "power of two q");
}

// With p = q the scaling is 1, so Recover exposes the noise of the query.
PROP(simplepir_noise, 60) {
  size_t r = 2 + c.below(3), dim = 1 + c.below(4);
  uint64_t q = (uint64_t{1} << 20) + (c.flip() ? 0 : c.below(1000));
  int radius = (int)c.range(1, 5);
  double sigma = 0.5 + (double)c.below(800) / 100.0;
  yacl::shim::SeedRand(c.u64());
  int max_k = (int)std::floor(radius * sigma);
  c.note() << "q=" + show(q) + " radius=" + show(radius) + " sigma=" + show(sigma);
  sp::SimplePirServer server(dim, q, r * r, q);
  std::vector<U64s> db(r, U64s(r, 0));
  for (size_t i = 0; i < r; ++i) db[i][i] = 1;
  server.SetDatabase(db);
  server.GenerateLweMatrix();
  sp::SimplePirClient client(dim, q, r * r, q, radius, sigma);
  client.Setup(server.GetSeed(), server.GetHint());
  const int kN = 4000;
  double s1 = 0, s2 = 0;
  std::map<int, int> hist;
  for (int t = 0; t < kN; ++t) {
    auto qu = client.Query(0 * r + 1);  // row 0, column 1: entry 0 is noise only
    int64_t v = (int64_t)client.Recover(server.Answer(qu)) - 1;  // rounding adds one at scale 1
    if (v > (int64_t)q / 2) v -= (int64_t)q;
    REQUIRE(std::abs(v) <= max_k + 1, "noise " + show(v) + " beyond " + show(max_k));
    ++hist[(int)v];
    s1 += (double)v;
    s2 += (double)(v * v);
  }
  double z = 0, m2 = 0, m4 = 0;
  std::map<int, double> pr;
  for (int k = -max_k; k <= max_k; ++k) z += pr[k] = std::exp(-(double)k * k / (2 * sigma * sigma));
  for (auto& [k, p] : pr) p /= z, m2 += p * k * k, m4 += p * k * k * k * (double)k;
  double sd1 = std::sqrt(m2 / kN), sd2 = std::sqrt(std::max(1e-12, (m4 - m2 * m2) / kN));
  REQUIRE(std::abs(s1 / kN) <= 7 * sd1 + 0.01, "mean of the noise " + show(s1 / kN));
  REQUIRE(std::abs(s2 / kN - m2) <= 8 * sd2 + 0.02, "variance of the noise " + show(s2 / kN) + ", expected " + show(m2));
  for (auto& [k, p] : pr) {
    double sd = std::sqrt(kN * p * (1 - p));
    REQUIRE(std::abs(hist[k] - kN * p) <= 8 * sd + 8, "frequency of noise " + show(k) + ": " + show(hist[k]) + ", expected " + show(kN * p));
  }
  if (max_k > 0) c.nontrivial();
}

PROP(piano, 120) {
  uint64_t n = c.chance(1, 3) ? 1 + c.below(20) : 1 + c.skewed(0, c.thorough ? 3000 : 500);
  if (c.chance(1, 8)) n = std::max<int64_t>(1, (int64_t)(uint64_t{1} << c.below(9)) - 1 + (int64_t)c.below(3));
  uint64_t es = 1 + c.skewed(0, 20), threads = c.below(5);
  yacl::shim::SeedRand(c.u64());
  Bytes db(n * es, 0xff);
  if (c.flip()) {
    auto b = c.bulk(n * es);
    db.assign(b.begin(), b.end());
  }
  c.note() << "n=" + show(n) + " entry=" + show(es) + " threads=" + show(threads);
  Bytes copy = db;
  pi::QueryServiceServer server(copy, n, es);
  pi::QueryServiceClient client(n, threads, es);
  auto [chunk, sets] = pi::GenChunkParams(n);
  REQUIRE(chunk > 0 && (chunk & (chunk - 1)) == 0 && sets == (n + chunk - 1) / chunk && (double)chunk >= 2 * std::sqrt((double)n) && ((double)chunk / 2 < 2 * std::sqrt((double)n)), "chunk parameters " + show(chunk) + "/" + show(sets));
  REQUIRE(client.GetChunkNumber() == sets, "chunk number");
  for (uint64_t i = 0; i < sets; ++i) {
    auto buf = server.GetDBChunk(i);
    auto [ci, data] = pi::DeserializeDBChunk(buf);
    REQUIRE(ci == i && data.size() == chunk * es, "chunk " + show(i) + ": index " + show(ci) + ", " + show(data.size()) + " bytes");
    uint64_t from = i * chunk, to = std::min(n, from + chunk);
    REQUIRE(std::equal(db.begin() + from * es, db.begin() + to * es, data.begin()), "chunk " + show(i) + " differs from the database");
    client.PreprocessDBChunk(buf);
  }
  // plan: a mixture of random, repeated, neighbouring and complete orders
  uint64_t limit = std::min<uint64_t>(client.GetTotalQueryNumber(), c.thorough ? 1200 : 250);
  uint64_t queries = 1 + c.below(limit ? limit : 1);
  uint64_t order = c.below(4), hot = c.below(n), hits = 0, same_repl = 0, pairs = 0;
  std::map<uint64_t, uint64_t> last_repl;  // per chunk, of first-time queries
  std::set<uint64_t> asked;
  for (uint64_t t = 0; t < queries; ++t) {
    uint64_t idx;
    switch (order) {
      case 0: idx = t % n; break;
      case 1: idx = n - 1 - t % n; break;
      case 2: idx = c.below(n); break;
      default: idx = (hot / chunk) * chunk + c.below(chunk); if (idx >= n) idx = hot;
    }
    auto q = client.GenerateIndexQuery(idx);
    auto set = pi::DeserializeSetParityQuery(q);
    REQUIRE(set.size() == sets, "query has " + show(set.size()) + " indexes instead of " + show(sets));
    for (uint64_t i = 0; i < sets; ++i) REQUIRE(set[i] / chunk == i, "index " + show(set[i]) + " is not in chunk " + show(i));
    uint64_t mine = set[idx / chunk];
    if (mine == idx) ++hits;
    if (asked.insert(idx).second) {
      auto it = last_repl.find(idx / chunk);
      if (it != last_repl.end()) ++pairs, same_repl += it->second == mine;
      last_repl[idx / chunk] = mine;
    }
    auto reply = server.GenerateIndexReply(q);
    auto got = client.RecoverIndexReply(reply).GetData();
    Bytes want(db.begin() + idx * es, db.begin() + (idx + 1) * es);
    REQUIRE(got == want, "query " + show(t) + " for " + show(idx) + ": got " + showv(std::vector<int>(got.begin(), got.end())) + ", database has " + showv(std::vector<int>(want.begin(), want.end())));
  }
  // hiding: the element sent for the queried chunk is uniform and fresh
  auto bound = [&](uint64_t trials) {  // Chernoff bound for a chance below 1e-12
    double mu = (double)trials / (double)chunk, x = mu + 10;
    while (true) {
      double lp = x > mu ? x - mu - x * std::log(x / std::max(mu, 1e-300)) : 0;
      if (lp < std::log(1e-12)) return x;
      x += 1;
    }
  };
  if (chunk > 2) {
    REQUIRE((double)hits <= bound(queries) || chunk <= 4, "the queried index was sent in " + show(hits) + " of " + show(queries) + " queries, chunk size " + show(chunk));
    REQUIRE((double)same_repl <= bound(pairs) || chunk <= 4, "the replacement repeats in " + show(same_repl) + " of " + show(pairs) + " successive queries");
  }
  if (sets > 1 && queries > 3) c.nontrivial();
  c.metric("queries", (double)queries);
}

namespace {
struct PpsDims {
  uint64_t n, s;
};
PpsDims DrawPps(Ctx& c, bool multi) {
  for (int t = 0; t < 200; ++t) {
    uint64_t n = 4 + c.skewed(0, multi ? (c.thorough ? 1000 : 250) : (c.thorough ? 4000 : 1500));
    if (c.chance(1, 3)) n = uint64_t{1} << (2 + c.below(multi ? 7 : 10));
    uint64_t lo = (uint64_t)std::ceil(std::sqrt((double)(n / 2))), hi = (uint64_t)std::floor(std::sqrt(2.0 * (double)n));
    uint64_t s = lo + c.below(hi - lo + 1);
    if (s < 2 || s * s < n / 2 || s * s > 2 * n) continue;
    if (!multi) {
      uint64_t m = (n + s - 1) / s * (uint64_t)std::ceil(std::log((double)n));
      if (m > n) continue;
      if ((double)n < 60 && m > n * 3 / 4) continue;  // may run out of tries
    }
    return {n, s};
  }
  throw Discard{};
}
yacl::dynamic_bitset<> Bits(Ctx& c, uint64_t n, std::vector<bool>& model) {
  yacl::dynamic_bitset<> b;
  b.resize(n);
  model.assign(n, false);
  int mode = (int)c.below(3);
  for (uint64_t i = 0; i < n; ++i) {
    bool v = mode == 0 ? c.flip() : mode == 1 ? true : c.chance(1, 16);
    b[i] = v;
    model[i] = v;
  }
  return b;
}
std::set<uint64_t> Shift(const std::set<uint64_t>& s, uint64_t d, uint64_t n) {
  std::set<uint64_t> r;
  for (uint64_t v : s) r.insert((v + d) % n);
  return r;
}
std::string Show(const std::set<uint64_t>& s) { return showv(std::vector<uint64_t>(s.begin(), s.end())); }
void Trip(Ctx& c, bool link, const std::function<void(parties::Link)>& a, const std::function<void(parties::Link)>& b) {
  auto w = parties::World(2, 20000);
  if (link) {
    auto r = parties::Run(w, {a, b});
    REQUIRE(r.ok(), r.all());
  } else {
    a(w[0]);
    b(w[1]);
  }
}
}  // namespace

// the pseudorandom sets: agreement of all forms, puncturing removes exactly one element
PROP(pps_set, 30) {
  auto [n, s] = DrawPps(c, true);
  yacl::shim::SeedRand(c.u64());
  c.note() << "n=" + show(n) + " s=" + show(s);
  pp::PPS pps(n, s), other(n, s);
  auto k = pps.Gen(1000);
  auto map = pps.getMap();
  REQUIRE(map.size() == s, "set of " + show(map.size()));
  std::set<uint64_t> set;
  std::unordered_set<uint64_t> uset;
  other.Eval(k, set);
  other.Eval(k, uset);
  REQUIRE(set.size() == s && uset.size() == s, "sizes differ");
  for (uint64_t v : set) REQUIRE(v < n && map.count(v) && uset.count(v), "element " + show(v));
  uint64_t at = c.below(s);
  auto it = set.begin();
  std::advance(it, at);
  pp::PIRPuncKey pk;
  pps.Punc(*it, k, pk);
  pk.delta_ = c.u64();
  pp::PIRPuncKey rk;
  Trip(c, c.chance(1, 10), [&](parties::Link l) { pp::ClientSendToOnlineServer(pk, l); }, [&](parties::Link l) { pp::OnlineServerRecvFromClient(rk, l); });
  REQUIRE(rk.k_ == pk.k_ && rk.pos_ == pk.pos_ && rk.delta_ == pk.delta_, "punctured key changed on the wire");
  std::set<uint64_t> left, want = set;
  want.erase(*it);
  other.Eval(rk, left);
  REQUIRE(left == want, "punctured set " + Show(left) + " instead of " + Show(want));
  c.nontrivial();
}

PROP(pps_single, 60) {
  auto [n, s] = DrawPps(c, false);
  yacl::shim::SeedRand(c.u64());
  c.note() << "n=" + show(n) + " s=" + show(s);
  std::vector<bool> model;
  auto bits = Bits(c, n, model);
  pp::PpsPirClient client(1000, n, s);
  pp::PpsPirServer off(n, s), on(n, s);
  pp::PPS ref(n, s);
  bool link = c.chance(1, 8);
  pp::PIRKey sk, sk2;
  std::set<uint64_t> deltas, deltas2;
  client.Setup(sk, deltas);
  REQUIRE(deltas.size() == client.M(), "number of shifts");
  for (uint64_t d : deltas) REQUIRE(d < n, "shift out of range");
  Trip(c, link, [&](parties::Link l) { pp::ClientSendToOfflineServer(sk, deltas, l); }, [&](parties::Link l) { pp::OfflineServerRecvFromClient(sk2, deltas2, l); });
  REQUIRE(sk == sk2 && deltas == deltas2, "setup message changed on the wire");
  yacl::dynamic_bitset<> h, h2;
  off.Hint(sk2, deltas2, bits, h);
  Trip(c, link, [&](parties::Link l) { pp::OfflineServerSendToClient(h, l); }, [&](parties::Link l) { pp::ClientRecvFromOfflineServer(h2, l); });
  REQUIRE(h2.size() == deltas.size() && h == h2, "hint changed on the wire");
  std::set<uint64_t> full;
  ref.Eval(sk, full);
  int queries = 1 + (int)c.below(30), answered = 0;
  for (int t = 0; t < queries; ++t) {
    uint64_t i = c.chance(1, 5) ? (c.flip() ? 0 : n - 1) : c.below(n);
    pp::PIRQueryParam param;
    pp::PIRPuncKey pk, pk2;
    client.Query(i, sk, deltas, param, pk);
    Trip(c, link, [&](parties::Link l) { pp::ClientSendToOnlineServer(pk, l); }, [&](parties::Link l) { pp::OnlineServerRecvFromClient(pk2, l); });
    std::set<uint64_t> seen;
    ref.Eval(pk2, seen);
    REQUIRE(seen.size() == s - 1, "the online server sees " + show(seen.size()) + " elements instead of " + show(s - 1));
    auto shifted = Shift(seen, pk2.delta_, n), all = Shift(full, pk2.delta_, n);
    REQUIRE(all.count(i), "the set in use does not hold the queried index");
    if (!param.b_) REQUIRE(!shifted.count(i), "the queried index is visible to the online server");
    bool covered = false;
    for (uint64_t d : deltas) covered |= full.count((i + n - d) % n) > 0;
    REQUIRE(covered == (param.j_ != PIR_ABORT), "set for the index " + std::string(covered ? "missed" : "invented"));
    bool a = on.Answer(pk2, bits), a2;
    Trip(c, link, [&](parties::Link l) { pp::OnlineServerSendToClient(a, l); }, [&](parties::Link l) { pp::ClientRecvFromOnlineServer(a2, l); });
    bool r = !model[i];
    uint64_t rc = client.Reconstruct(param, h2, a2, r);
    if (param.b_ || param.j_ == PIR_ABORT) {
      REQUIRE(rc == PIR_ABORT, "a failed query reported success");
      continue;
    }
    REQUIRE(rc == PIR_OK, "a good query was aborted");
    REQUIRE(r == model[i], "bit " + show(i) + " is " << model[i]);
    ++answered;
  }
  c.metric("answered", answered);
  c.metric("asked", queries);
  if (answered > 0) c.nontrivial();
}

PROP(pps_multi, 60) {
  auto [n, s] = DrawPps(c, true);
  yacl::shim::SeedRand(c.u64());
  c.note() << "n=" + show(n) + " s=" + show(s);
  std::vector<bool> model;
  auto bits = Bits(c, n, model);
  pp::PpsPirClient client(1000, n, s);
  pp::PpsPirServer off(n, s), on(n, s);
  pp::PPS ref(n, s);
  bool link = c.chance(1, 12);
  std::vector<pp::PIRKeyUnion> ck, ck2;
  std::vector<std::unordered_set<uint64_t>> v;
  client.Setup(ck, v);
  REQUIRE(ck.size() == client.MM() && v.size() == ck.size(), "number of sets");
  Trip(c, link, [&](parties::Link l) { pp::ClientSendToOfflineServerM(ck, l); }, [&](parties::Link l) { pp::OfflineServerRecvFromClientM(ck2, l); });
  REQUIRE(ck2.size() == ck.size(), "setup message changed on the wire");
  for (size_t i = 0; i < ck.size(); ++i) REQUIRE(ck[i].k_ == ck2[i].k_ && ck[i].delta_ == ck2[i].delta_, "setup message changed on the wire");
  yacl::dynamic_bitset<> h, h2;
  off.Hint(ck2, bits, h);
  Trip(c, link, [&](parties::Link l) { pp::OfflineServerSendToClient(h, l); }, [&](parties::Link l) { pp::ClientRecvFromOfflineServer(h2, l); });
  REQUIRE(h2.size() == ck.size(), "hint size");
  int queries = 1 + (int)c.below(c.thorough ? 300 : 80), answered = 0;
  uint64_t order = c.below(3), hot = c.below(n);
  for (int t = 0; t < queries; ++t) {
    uint64_t i = order == 0 ? t % n : order == 1 ? c.below(n) : (c.flip() ? hot : c.below(n));
    pp::PIRQueryParam param;
    pp::PIRPuncKey l, r, l2, r2;
    client.Query(i, ck, v, param, l, r);
    Trip(c, link, [&](parties::Link k) { pp::ClientSendToOnlineServer(l, k); }, [&](parties::Link k) { pp::OnlineServerRecvFromClient(l2, k); });
    Trip(c, link, [&](parties::Link k) { pp::ClientSendToOnlineServer(r, k); }, [&](parties::Link k) { pp::OnlineServerRecvFromClient(r2, k); });
    for (auto* k : {&l2, &r2}) {
      std::set<uint64_t> seen;
      ref.Eval(*k, seen);
      REQUIRE(seen.size() == s - 1, "the online server sees " + show(seen.size()) + " elements instead of " + show(s - 1));
      if (!param.b_) REQUIRE(!Shift(seen, k->delta_, n).count(i), "the queried index is visible to the online server");
    }
    bool al, ar;
    on.AnswerMulti(l2, r2, al, ar, bits);
    bool res = !model[i];
    uint64_t rc = client.Reconstruct(param, h2, al, ar, res);
    if (rc != PIR_OK) {
      REQUIRE(param.j_ == PIR_ABORT, "a good query was aborted");
      continue;
    }
    REQUIRE(res == model[i], "query " + show(t) + ": bit " + show(i) + " is " << model[i]);
    ++answered;
    // the client's table stays consistent: each set has s elements
    REQUIRE(v[param.j_].size() == s, "refreshed set has " + show(v[param.j_].size()) + " elements");
  }
  c.metric("answered", answered);
  c.metric("asked", queries);
  if (answered > 1) c.nontrivial();
}

// the coin that hides which element was punctured
PROP(pps_coin, 30) {
  auto [n, s] = DrawPps(c, true);
  pp::PpsPirClient client(1000, n, s);
  const int kN = 2000;
  int ones = 0;
  for (int i = 0; i < kN; ++i) ones += client.Bernoulli();
  double p = (double)(s - 1) / (double)n, sd = std::sqrt(kN * p * (1 - p));
  c.note() << "n=" + show(n) + " s=" + show(s);
  REQUIRE(std::abs(ones - kN * p) <= 8 * sd + 5, "coin came up " + show(ones) + " times, expected " + show(kN * p));
  yacl::shim::SeedRand(c.u64());
  std::vector<int> hist(s, 0);
  for (int i = 0; i < kN; ++i) {
    uint64_t r = client.GetRandomU64Less();
    REQUIRE(r < s, "random position " + show(r) + " of " + show(s));
    ++hist[r];
  }
  for (uint64_t k = 0; k < s; ++k) {
    double e = (double)kN / (double)s;
    REQUIRE(std::abs(hist[k] - e) <= 8 * std::sqrt(e) + 8, "position " + show(k) + " drawn " + show(hist[k]) + " times, expected " + show(e));
  }
  c.nontrivial();
}

// ---------------------------------------------------------------- damaged messages
DAMAGED(simplepir, 8, 2, 6)
DAMAGED(pps_set, 8, 2, 3)
DAMAGED(pps_single, 8)
DAMAGED(pps_multi, 8)

static void damaged_piano(pbt::Ctx& c) {
  uint64_t n = 1 + c.skewed(0, 100), es = 1 + c.below(12), threads = c.below(5);
  yacl::shim::SeedRand(c.u64());
  auto b = c.bulk(n * es);
  Bytes db(b.begin(), b.end());
  pi::QueryServiceServer server(db, n, es);
  pi::QueryServiceClient client(n, threads, es);
  auto sets = client.GetChunkNumber();
  auto damage = [&](yacl::Buffer& buf) {
    std::string s(buf.data<char>(), buf.size());
    wire::Apply({0, c.below(8), c.u64(), c.u64()}, s);
    buf = yacl::Buffer(s.data(), s.size());
  };
  int what = c.below(3);
  uint64_t at = c.below(what ? 3 : sets);
  c.note() << "n=" << n << " entry=" << es << " damaged: " << (what == 0 ? "chunk " : what == 1 ? "query " : "reply ") << at;
  c.label(what == 0 ? "chunk" : what == 1 ? "query" : "reply");
  c.nontrivial(true);
  std::string how = "some result";
  try {
    for (uint64_t i = 0; i < sets; ++i) {
      auto buf = server.GetDBChunk(i);
      if (what == 0 && i == at) damage(buf);
      client.PreprocessDBChunk(buf);
    }
    for (uint64_t t = 0; t < 3; ++t) {
      auto q = client.GenerateIndexQuery(c.below(n));
      if (what == 1 && t == at) damage(q);
      auto reply = server.GenerateIndexReply(q);
      if (what == 2 && t == at) damage(reply);
      client.RecoverIndexReply(reply);
    }
  } catch (const std::exception& e) {
    how = std::string("refused: ") + e.what();
  }
  c.note() << ": " << how.substr(0, 200);
  c.label(how.substr(0, 7));
}
static pbt::Reg reg_damaged_piano("piano_damaged", damaged_piano, 20, /*slow_ok=*/true);
