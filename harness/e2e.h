// Two-party PSI scenarios through the public factory (createPsiParty): the
// generator, the runner and the relational reference model.
#pragma once
#include <filesystem>
#include "parties.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/proto/psi_v2.pb.h"
#include "psi/utils/resource_manager.h"
#include "tables.h"


namespace e2e {
namespace v2 = psi::v2;
using tables::Row;
using tables::Table;
namespace fs = std::filesystem;

struct Side {
  Table t;
  Row keys;
  bool keys_unique = false, disable_align = false;
  tables::Spelling sp;
  std::string null_rep;
  std::string in, out, count;
};
struct Scenario {
  Side s[2];  // 0 = receiver, 1 = sender
  v2::Protocol proto;
  psi::CurveType curve = psi::CURVE_25519;
  uint64_t batch = 0, bucket = 0;
  bool low_comm = false, broadcast = true, digest = false, recovery = false;
  v2::PsiConfig::AdvancedJoinType join = v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED;
  int left = -1;  // 0 receiver 1 sender
  int receiver_rank = 0;
  uint32_t threshold = 0;
  uint64_t seed = 0;
  size_t arrow_rows = 1000;
};

struct Profile {
  bool inner_only = false, force_join = false, broadcast_only = false;
  int max_rows = 40;
  int max_rows_thorough = 250;
  bool allow_unique_flag = true;
  int proto = -1;
  bool always_broadcast_pair = false;
};

inline void GenSide(pbt::Ctx& c, Side& s, const char* who, int nkeys, const std::vector<int>& styles, uint64_t universe, uint64_t fan, int max_rows, bool want_unique, int64_t lo) {
  int nextra = (int)c.below(3);
  std::vector<std::string> cols;
  for (int k = 0; k < nkeys; ++k) cols.push_back(std::string(c.flip() ? who : "") + "k" + std::to_string(k));
  s.keys = cols;
  for (int e = 0; e < nextra; ++e) cols.push_back(std::string(who) + "_v" + std::to_string(e));
  // column order
  std::vector<std::string> order = cols;
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
  s.t.cols = order;
  int64_t n = c.skewed(1, max_rows);
  uint64_t u = universe;
  std::set<uint64_t> used;
  if (want_unique && (uint64_t)n > u) n = (int64_t)u;
  for (int64_t r = 0; r < n; ++r) {
    uint64_t id = lo + c.below(u);
    if (want_unique)
      while (used.count(id)) id = lo + (id - lo + 1) % u;
    used.insert(id);
    Row row(order.size());
    uint64_t v = id;
    for (size_t i = 0; i < order.size(); ++i) {
      for (int k = 0; k < nkeys; ++k)
        if (order[i] == s.keys[k]) {
          uint64_t part = k + 1 == nkeys ? v : v;
          uint64_t val = nkeys == 1 ? id : k == 0 ? id % fan : k == 1 ? (nkeys == 2 ? id / fan : (id / fan) % 3) : id / fan / 3;
          (void)part;
          row[i] = tables::KeyVal(styles[k], val);
        }
      if (order[i].find("_v") != std::string::npos) {
        switch (c.below(4)) {
          case 0: row[i] = std::string(who) + std::to_string(r); break;
          case 1: row[i] = std::to_string(c.below(1000)) + "." + std::to_string(r); break;
          case 2: row[i] = c.pick(std::vector<std::string>{"", "x", "a,b", "say \"hi\"", ",", "\"\""}); break;
          default: row[i] = "val " + std::to_string(r); break;
        }
      }
    }
    bool empty = true;
    for (auto& f : row) if (!f.empty()) empty = false;
    (void)empty;
    s.t.rows.push_back(row);
  }
  // repeat some rows exactly
  if (!want_unique && s.t.rows.size() > 1 && c.chance(1, 3)) {
    size_t k = c.below(3);
    for (size_t i = 0; i < k; ++i) s.t.rows.push_back(s.t.rows[c.below(s.t.rows.size())]);
  }
}

inline bool Unique(const Side& s) {
  for (auto& kv : tables::Counts(s.t, s.keys)) if (kv.second > 1) return false;
  return true;
}

inline Scenario Gen(pbt::Ctx& c, const Profile& p) {
  Scenario x;
  static const std::vector<v2::Protocol> protos = {v2::PROTOCOL_ECDH, v2::PROTOCOL_KKRT, v2::PROTOCOL_RR22};
  x.proto = p.proto >= 0 ? protos[p.proto] : protos[c.below(3)];
  int nkeys = 1 + (int)c.below(3);
  if (nkeys == 3 && c.flip()) nkeys = 1;
  std::vector<int> styles;
  for (int k = 0; k < nkeys; ++k) {
    int st = (int)c.below(tables::kStyles);
    // a comma inside a composite key is a known finding (KF-COMPOSITE)
    if (nkeys > 1 && st == tables::kCommaStyle) st = 0;
    styles.push_back(st);
  }
  uint64_t universe = (uint64_t)c.pick(std::vector<int>{4, 10, 30, 80, 200});
  uint64_t fan = 2 + c.below(5);
  int mr = c.thorough ? p.max_rows_thorough : p.max_rows;
  bool u0 = c.chance(1, 3), u1 = c.chance(1, 3);
  // overlap: same window, shifted window, disjoint windows
  int64_t lo1 = 0;
  switch (c.below(5)) { case 4: lo1 = (int64_t)universe; break; case 3: lo1 = (int64_t)universe / 2; break; default: break; }
  GenSide(c, x.s[0], "r", nkeys, styles, universe, fan, mr, u0, 0);
  if (c.chance(1, 8)) {
    // identical key sets (the digest short cut), rows permuted
    Side& a = x.s[0]; Side& b = x.s[1];
    b.keys = a.keys; b.t = a.t;
    for (size_t i = b.t.rows.size(); i > 1; --i) std::swap(b.t.rows[i - 1], b.t.rows[c.below(i)]);
  } else {
    GenSide(c, x.s[1], "s", nkeys, styles, universe, fan, mr, u1, lo1);
  }
  for (auto& s : x.s) {
    if (p.allow_unique_flag && Unique(s) && c.flip()) s.keys_unique = true;
    if (s.keys_unique) s.disable_align = c.chance(1, 4);
    s.sp.quote = c.chance(1, 3) ? 1 + (int)c.below(2) : 0;
    s.sp.crlf = c.chance(1, 8);
    s.sp.blank_lines = c.chance(1, 8);
    s.sp.no_final_newline = c.chance(1, 8);
  }
  // the parties must agree on it
  if (c.chance(1, 3)) x.s[0].null_rep = x.s[1].null_rep = c.pick(std::vector<std::string>{"n/a", "-", "nil", "<null>"});
  switch (x.proto) {
    case v2::PROTOCOL_ECDH:
      x.curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1, psi::CURVE_25519_ELLIGATOR2});
      x.batch = c.pick(std::vector<uint64_t>{0, 1, 2, 3, 7, 16, 64});
      break;
    default:
      x.bucket = c.pick(std::vector<uint64_t>{0, 1000, 50, 20, 10, 5});
      x.low_comm = c.flip();
  }
  x.broadcast = p.broadcast_only ? true : !c.chance(1, 3);
  x.digest = c.flip();
  x.recovery = c.chance(1, 6);
  if (!p.inner_only) {
    static const std::vector<v2::PsiConfig::AdvancedJoinType> js = {v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN, v2::PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN, v2::PsiConfig::ADVANCED_JOIN_TYPE_RIGHT_JOIN, v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN, v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE};
    x.join = p.force_join ? js[1 + c.below(4)] : js[c.below(5)];
    x.left = (int)c.below(2);
  } else if (c.flip()) {
    x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
  }
  x.receiver_rank = (int)c.below(2);
  x.seed = c.below(1 << 20);
  x.arrow_rows = c.pick(std::vector<size_t>{1000, 1, 2, 3, 7, 16});
  return x;
}

inline void Describe(pbt::Ctx& c, const Scenario& x) {
  auto& o = c.note();
  o << v2::Protocol_Name(x.proto) << " join=" << v2::PsiConfig::AdvancedJoinType_Name(x.join) << " left=" << x.left << " broadcast=" << x.broadcast << " digest=" << x.digest << " recovery=" << x.recovery
    << " rrank=" << x.receiver_rank;
  if (x.proto == v2::PROTOCOL_ECDH) o << " curve=" << psi::CurveType_Name(x.curve) << " batch=" << x.batch; else o << " bucket=" << x.bucket << " low_comm=" << x.low_comm;
  if (x.threshold) o << " threshold=" << x.threshold;
  o << " arrow_rows=" << x.arrow_rows;
  for (int i = 0; i < 2; ++i) {
    auto& s = x.s[i];
    o << "\n" << (i ? "sender" : "receiver") << " keys=" << pbt::showv(s.keys) << (s.keys_unique ? " keys_unique" : "") << (s.disable_align ? " no_align" : "") << " quote=" << s.sp.quote << (s.sp.crlf ? " crlf" : "") << (s.sp.blank_lines ? " blank lines" : "") << (s.sp.no_final_newline ? " no final newline" : "") << " cols=" << pbt::showv(s.t.cols) << " rows(" << s.t.rows.size() << "):";
    size_t n = 0;
    for (auto& r : s.t.rows) { if (n++ >= 12) { o << " ..."; break; } o << " " << pbt::showv(r); }
  }
}

inline v2::PsiConfig Config(const Scenario& x, int side, const std::string& dir) {
  const Side& s = x.s[side];
  v2::PsiConfig cfg;
  auto* pc = cfg.mutable_protocol_config();
  pc->set_protocol(x.proto);
  pc->set_role(side == 0 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  pc->set_broadcast_result(x.broadcast);
  if (x.proto == v2::PROTOCOL_ECDH) {
    pc->mutable_ecdh_config()->set_curve(x.curve);
    if (x.batch) pc->mutable_ecdh_config()->set_batch_size(x.batch);
  } else if (x.proto == v2::PROTOCOL_KKRT) {
    if (x.bucket) pc->mutable_kkrt_config()->set_bucket_size(x.bucket);
  } else {
    if (x.bucket) pc->mutable_rr22_config()->set_bucket_size(x.bucket);
    pc->mutable_rr22_config()->set_low_comm_mode(x.low_comm);
  }
  cfg.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  cfg.mutable_input_config()->set_path(s.in);
  cfg.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  cfg.mutable_output_config()->set_path(s.out);
  for (auto& k : s.keys) cfg.add_keys(k);
  cfg.mutable_debug_options()->set_trace_path(dir + "/trace" + std::to_string(side));
  cfg.set_disable_alignment(s.disable_align);
  if (x.recovery) {
    cfg.mutable_recovery_config()->set_enabled(true);
    cfg.mutable_recovery_config()->set_folder(dir + "/recovery" + std::to_string(side));
  }
  cfg.set_advanced_join_type(x.join);
  if (x.left >= 0) cfg.set_left_side(x.left == 0 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  cfg.set_check_hash_digest(x.digest);
  if (s.keys_unique) cfg.mutable_input_attr()->set_keys_unique(true);
  if (!s.null_rep.empty()) cfg.mutable_output_attr()->set_csv_null_rep(s.null_rep);
  if (x.threshold) { cfg.set_intersection_threshold(x.threshold); }
  if (!s.count.empty()) cfg.set_count_path(s.count);
  return cfg;
}

struct Ran {
  parties::Result r;  // indexed by side (0 receiver, 1 sender)
  psi::PsiResultReport rep[2];
  std::optional<Table> out[2];
  size_t sent_bytes[2] = {0, 0};
};

inline void Place(Scenario& x, const std::string& dir) {
  for (int i = 0; i < 2; ++i) {
    // odd but legal path
    auto d = dir + (x.seed % 4 == 3 ? "/it's a $HOME;p" : "/p") + std::to_string(i);
    fs::create_directories(d);
    x.s[i].in = d + "/in.csv";
    x.s[i].out = d + "/out.csv";
    tables::WriteCsv(x.s[i].in, x.s[i].t, x.s[i].sp);
  }
}

// Known finding (known_findings.txt, KKRT cuckoo table): a small receiver set
// cannot be placed with a probability of about 1e-4, and never can with the same
// keys and bucket size.
inline bool CuckooMiss(const parties::Result& r) { return !r.ok() && r.all().find("empty bin in stash") != std::string::npos; }

inline Ran RunOnce(const Scenario& x, const v2::PsiConfig& c0, const v2::PsiConfig& c1, std::function<void(const std::vector<parties::Link>&)> prep = {}) {
  parties::Quiet();
  Ran out;
  arrow::shim::csv_rows_per_batch = x.arrow_rows;
  yacl::shim::SeedRand(x.seed + 1);
  auto links = parties::World(2);
  if (prep) prep(links);
  const v2::PsiConfig* cfg[2] = {&c0, &c1};
  std::vector<std::function<void(parties::Link)>> fns(2);
  for (int side = 0; side < 2; ++side) {
    int rank = side == 0 ? x.receiver_rank : 1 - x.receiver_rank;
    fns[rank] = [&, side](parties::Link l) {
      auto p = psi::createPsiParty(*cfg[side], l);
      out.rep[side] = p->Run();
    };
  }
  auto r = parties::Run(links, fns);
  out.r.err.resize(2);
  for (int side = 0; side < 2; ++side) {
    int rank = side == 0 ? x.receiver_rank : 1 - x.receiver_rank;
    out.r.err[side] = r.err[rank];
    out.sent_bytes[side] = links[rank]->GetStats()->sent_bytes;
    out.out[side] = tables::ReadCsv(cfg[side]->output_config().path());
  }
  return out;
}

// ... so such a run is repeated with other bucket sizes, which place the keys
// differently; a build whose tables overflow generally still fails.
inline Ran Run(const Scenario& x, const v2::PsiConfig& c0, const v2::PsiConfig& c1, std::function<void(const std::vector<parties::Link>&)> prep = {}) {
  auto r = RunOnce(x, c0, c1, prep);
  if (x.proto != v2::PROTOCOL_KKRT) return r;
  uint64_t orig = c0.protocol_config().kkrt_config().bucket_size();
  for (uint64_t b : {orig ? orig + 3 : 7, orig ? 2 * orig + 1 : 4, (uint64_t)1 << 20}) {
    if (!CuckooMiss(r.r)) break;
    auto d0 = c0, d1 = c1;
    for (auto* d : {&d0, &d1}) {
      d->mutable_protocol_config()->mutable_kkrt_config()->set_bucket_size(b);
      std::error_code ec;
      if (d->recovery_config().enabled()) fs::remove_all(d->recovery_config().folder(), ec);
      fs::remove(d->output_config().path(), ec);
    }
    r = RunOnce(x, d0, d1, prep);
  }
  return r;
}

// ---- reference model -------------------------------------------------------
struct Expect {
  std::vector<Row> rows;  // as a multiset; null rows are all null_rep
  int64_t original = 0, original_keys = 0, inter = 0, inter_keys = 0;
};
inline std::string NullRep(const Side& s) { return s.null_rep.empty() ? "NULL" : s.null_rep; }

inline Expect Model(const Scenario& x, int me) {
  using J = v2::PsiConfig;
  Expect e;
  const Side& a = x.s[me];
  const Side& b = x.s[1 - me];
  auto ca = tables::Counts(a.t, a.keys), cb = tables::Counts(b.t, b.keys);
  e.original = (int64_t)a.t.rows.size();
  e.original_keys = (int64_t)ca.size();
  auto j = x.join == J::ADVANCED_JOIN_TYPE_UNSPECIFIED ? J::ADVANCED_JOIN_TYPE_INNER_JOIN : x.join;
  bool left = x.left == me;
  bool keep_inter = j != J::ADVANCED_JOIN_TYPE_DIFFERENCE;
  bool both = j == J::ADVANCED_JOIN_TYPE_FULL_JOIN || j == J::ADVANCED_JOIN_TYPE_DIFFERENCE;
  bool keep_mine = both || (j == J::ADVANCED_JOIN_TYPE_LEFT_JOIN && left) || (j == J::ADVANCED_JOIN_TYPE_RIGHT_JOIN && !left);
  bool keep_peer = both || (j == J::ADVANCED_JOIN_TYPE_LEFT_JOIN && !left) || (j == J::ADVANCED_JOIN_TYPE_RIGHT_JOIN && left);
  for (auto& r : a.t.rows) {
    auto it = cb.find(tables::KeyOf(a.t, r, a.keys));
    if (it != cb.end()) {
      ++e.inter;
      if (keep_inter) for (uint64_t i = 0; i < it->second; ++i) e.rows.push_back(r);
    } else if (keep_mine) {
      e.rows.push_back(r);
    }
  }
  for (auto& kv : ca) if (cb.count(kv.first)) ++e.inter_keys;
  if (keep_peer && x.broadcast)
    for (auto& kv : cb) if (!ca.count(kv.first)) for (uint64_t i = 0; i < kv.second; ++i) e.rows.push_back(Row(a.t.cols.size(), NullRep(a)));
  return e;
}

inline std::string DiffRows(std::vector<Row> got, std::vector<Row> want) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (got == want) return "";
  std::vector<Row> extra, miss;
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
  std::ostringstream o;
  o << "got " << got.size() << " rows, expected " << want.size() << "; extra:";
  for (size_t i = 0; i < extra.size() && i < 5; ++i) o << pbt::showv(extra[i]);
  o << " missing:";
  for (size_t i = 0; i < miss.size() && i < 5; ++i) o << pbt::showv(miss[i]);
  return o.str();
}

inline bool HasResult(const Scenario& x, int side) { return side == 0 || x.broadcast; }

inline void CheckRows(const Scenario& x, const Ran& r, int only = -1) {
  for (int i = 0; i < 2; ++i) {
    if (only >= 0 && i != only) continue;
    const char* who = i ? "sender" : "receiver";
    if (!HasResult(x, i)) {
      REQUIRE(!r.out[i].has_value(), who << " was not to learn the result but has an output file");
      continue;
    }
    REQUIRE(r.out[i].has_value(), who << " has no output file");
    REQUIRE(r.out[i]->cols == x.s[i].t.cols, who << " output header " << pbt::showv(r.out[i]->cols));
    auto e = Model(x, i);
    auto d = DiffRows(r.out[i]->rows, e.rows);
    REQUIRE(d.empty(), who << " output differs from the relational model: " << d);
  }
}
inline void CheckReports(const Scenario& x, const Ran& r, int only = -1) {
  for (int i = 0; i < 2; ++i) {
    if (only >= 0 && i != only) continue;
    const char* who = i ? "sender" : "receiver";
    auto e = Model(x, i);
    REQUIRE(r.rep[i].original_count() == e.original, who << " original_count " << r.rep[i].original_count() << " expected " << e.original);
    REQUIRE(r.rep[i].original_key_count() == e.original_keys, who << " original_key_count " << r.rep[i].original_key_count() << " expected " << e.original_keys);
    if (HasResult(x, i)) {
      REQUIRE(r.rep[i].intersection_count() == e.inter, who << " intersection_count " << r.rep[i].intersection_count() << " expected " << e.inter);
      REQUIRE(r.rep[i].intersection_key_count() == e.inter_keys, who << " intersection_key_count " << r.rep[i].intersection_key_count() << " expected " << e.inter_keys);
    } else {
      REQUIRE(r.rep[i].intersection_count() == -1, who << " intersection_count " << r.rep[i].intersection_count() << " expected -1");
      REQUIRE(r.rep[i].intersection_key_count() == 0, who << " reports intersection_key_count " << r.rep[i].intersection_key_count() << " although it must not learn the result");
    }
  }
}
// Line i of one output belongs to line i of the other: same key, or one of the
// two is a null row.
inline void CheckAligned(const Scenario& x, const Ran& r) {
  if (!x.broadcast) return;
  auto &a = *r.out[0], &b = *r.out[1];
  REQUIRE(a.rows.size() == b.rows.size(), "outputs have " << a.rows.size() << " and " << b.rows.size() << " rows");
  for (size_t i = 0; i < a.rows.size(); ++i) {
    bool na = a.rows[i] == Row(a.cols.size(), NullRep(x.s[0])), nb = b.rows[i] == Row(b.cols.size(), NullRep(x.s[1]));
    if (na || nb) {
      REQUIRE(!(na && nb), "line " << i << " is null on both sides");
      continue;
    }
    auto ka = tables::KeyOf(a, a.rows[i], x.s[0].keys), kb = tables::KeyOf(b, b.rows[i], x.s[1].keys);
    REQUIRE(ka == kb, "line " << i << ": receiver has key " << pbt::showv(ka) << " and sender has key " << pbt::showv(kb));
  }
}
inline bool AlignmentPromised(const Scenario& x) { return !x.s[0].disable_align && !x.s[1].disable_align; }

inline void Classify(pbt::Ctx& c, const Scenario& x) {
  auto ca = tables::Counts(x.s[0].t, x.s[0].keys), cb = tables::Counts(x.s[1].t, x.s[1].keys);
  size_t common = 0, dupcommon = 0;
  for (auto& kv : ca) { auto it = cb.find(kv.first); if (it != cb.end()) { ++common; if (it->second > 1 || kv.second > 1) ++dupcommon; } }
  c.label(v2::Protocol_Name(x.proto));
  if (!common) c.label("disjoint");
  else if (common == ca.size() && common == cb.size()) c.label("same key set");
  else c.label("partial overlap");
  if (dupcommon) c.label("duplicated common key");
  if (x.s[0].keys.size() > 1) c.label("composite key");
  if (x.s[0].keys_unique || x.s[1].keys_unique) c.label("keys_unique");
  if (x.s[0].keys_unique && x.s[1].keys_unique) c.label("keys_unique both");
  if (!x.broadcast) c.label("no broadcast");
  if (x.recovery) c.label("recovery on");
  if (x.digest) c.label("digest on");
  if (x.proto != v2::PROTOCOL_ECDH && x.bucket && std::max(ca.size(), cb.size()) > x.bucket) c.label("several buckets");
  if (x.join > 1) c.label(v2::PsiConfig::AdvancedJoinType_Name(x.join));
  c.nontrivial(common > 0 && common < ca.size() + cb.size() - common);
}
}  // namespace e2e
