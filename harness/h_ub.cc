// Unbalanced PSI: histories of cache generation, transfer and online runs.
#include "leak.h"
#include "threshold.h"
#include "wire.h"
using namespace e2e;
using UB = v2::UbPsiConfig;

namespace {
// side 0 = server, side 1 = client
struct World2 {
  std::string dir, key_path;
  UB::Mode mode;
  bool server_result, client_result, server_reads_input;
  bool no_align;
  uint32_t threshold = 0;
  mutable uint64_t runs = 0;
  leak::Log* traffic = nullptr;
};

UB UbConfig(const Scenario& x, const World2& w, int side, UB::Mode mode) {
  const Side& s = x.s[side];
  UB cfg;
  cfg.set_mode(mode);
  cfg.set_role(side == 0 ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
  bool online = mode == UB::MODE_ONLINE || mode == UB::MODE_FULL;
  bool need_in = side == 0 ? (mode != UB::MODE_ONLINE && mode != UB::MODE_OFFLINE_TRANSFER_CACHE) || w.server_reads_input : online;
  if (need_in) {
    cfg.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    cfg.mutable_input_config()->set_path(s.in);
    for (auto& k : s.keys) cfg.add_keys(k);
  } else if (online) {
    for (auto& k : s.keys) cfg.add_keys(k);
  }
  if (online) {
    cfg.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    cfg.mutable_output_config()->set_path(s.out);
    cfg.set_advanced_join_type(x.join);
    if (x.left >= 0) cfg.set_left_side(x.left == 0 ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
    cfg.set_intersection_threshold(w.threshold);
    if (!s.count.empty()) cfg.set_count_path(s.count);
  }
  cfg.set_cache_path(w.dir + (side == 0 ? "/server_cache_dir" : "/client_cache_dir"));
  if (side == 0 && !w.key_path.empty()) cfg.set_server_secret_key_path(w.key_path);
  cfg.set_server_get_result(w.server_result);
  cfg.set_client_get_result(w.client_result);
  cfg.set_disable_alignment(w.no_align);
  if (!s.null_rep.empty()) cfg.mutable_output_attr()->set_csv_null_rep(s.null_rep);
  cfg.mutable_debug_options()->set_trace_path(w.dir + "/trace" + std::to_string(side));
  return cfg;
}

Ran UbRun(const Scenario& x, const World2& w, UB::Mode smode, UB::Mode cmode, bool server_only) {
  parties::Quiet();
  Ran out;
  arrow::shim::csv_rows_per_batch = x.arrow_rows;
  yacl::shim::SeedRand(x.seed * 64 + 17 + ++w.runs);  // names of temporary folders are random
  out.r.err.resize(2);
  for (int i = 0; i < 2; ++i) fs::remove(x.s[i].out);
  if (server_only) {
    try {
      out.rep[0] = psi::createUbPsiParty(UbConfig(x, w, 0, smode), nullptr)->Run();
    } catch (const std::exception& e) { out.r.err[0] = e.what(); }
    return out;
  }
  auto links = parties::World(2);
  links[0]->ShimWorld().record = w.traffic != nullptr;
  std::vector<std::function<void(parties::Link)>> fns(2);
  for (int side = 0; side < 2; ++side) {
    int rank = side == 0 ? x.receiver_rank : 1 - x.receiver_rank;
    fns[rank] = [&, side](parties::Link l) { out.rep[side] = psi::createUbPsiParty(UbConfig(x, w, side, side == 0 ? smode : cmode), l)->Run(); };
  }
  auto r = parties::Run(links, fns);
  if (w.traffic) *w.traffic = links[0]->ShimWorld().log;
  for (int side = 0; side < 2; ++side) {
    out.r.err[side] = r.err[side == 0 ? x.receiver_rank : 1 - x.receiver_rank];
    out.out[side] = tables::ReadCsv(x.s[side].out);
  }
  return out;
}

void CheckOnline(const Scenario& x, const World2& w, const Ran& r) {
  const char* names[2] = {"server", "client"};
  for (int i = 0; i < 2; ++i) {
    bool has = i == 0 ? w.server_result : w.client_result;
    if (!has) {
      REQUIRE(!r.out[i].has_value(), names[i] << " was not to learn the result but has an output file");
      continue;
    }
    REQUIRE(r.out[i].has_value(), names[i] << " has no output file");
    REQUIRE(r.out[i]->cols == x.s[i].t.cols, names[i] << " output header " << pbt::showv(r.out[i]->cols));
    auto e = Model(x, i);
    auto d = DiffRows(r.out[i]->rows, e.rows);
    REQUIRE(d.empty(), names[i] << " output differs from the relational model: " << d);
    REQUIRE(r.rep[i].original_count() == e.original && r.rep[i].original_key_count() == e.original_keys, names[i] << " reports " << r.rep[i].original_count() << " rows, " << r.rep[i].original_key_count() << " keys; expected " << e.original << ", " << e.original_keys);
    REQUIRE(r.rep[i].intersection_count() == e.inter && r.rep[i].intersection_key_count() == e.inter_keys, names[i] << " reports intersection " << r.rep[i].intersection_count() << " rows, " << r.rep[i].intersection_key_count() << " keys; expected " << e.inter << ", " << e.inter_keys);
  }
  if (w.server_result && w.client_result && !w.no_align) CheckAligned(x, r);
}

// another client table over the same kind of keys
void NewClient(pbt::Ctx& c, Scenario& x, const Scenario& y) {
  x.s[1] = y.s[1];
  x.join = y.join;
  x.left = y.left;
}
}  // namespace

PROP(ub_history, 60) {
  Profile p;
  p.proto = 0;
  p.broadcast_only = true;
  p.allow_unique_flag = false;
  auto x = Gen(c, p);
  x.recovery = false;
  x.curve = psi::CURVE_FOURQ;
  World2 w;
  w.dir = c.scratch;
  for (auto& s : x.s) s.disable_align = false;
  if (c.flip()) {
    w.key_path = c.scratch + "/server.key";
    auto k = c.bulk(32);
    std::ofstream(w.key_path, std::ios::binary).write(reinterpret_cast<const char*>(k.data()), 32);
  }
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  bool have_server_cache = false, have_client_cache = false, ran = false;
  auto flags = [&] {
    int f = (int)c.below(5);
    w.server_result = f != 1;
    w.client_result = f != 2;
    w.no_align = c.chance(1, 4);
    w.server_reads_input = c.flip();
    c.note() << " server_result=" << w.server_result << " client_result=" << w.client_result << (w.no_align ? " no_align" : "") << (w.server_reads_input ? "" : " server without input");
  };
  c.note() << "\n" << (w.key_path.empty() ? "random key" : "key file") << ":";
  size_t rounds = 1 + c.below(3);
  for (size_t round = 0; round < rounds; ++round) {
    if (round) {
      if (c.chance(1, 3)) {  // the server renews its data
        Scenario y = Gen(c, p);
        if (y.s[0].keys.size() == x.s[1].keys.size()) {
          x.s[0] = y.s[0];
          x.s[0].null_rep = x.s[1].null_rep;
          x.s[0].disable_align = false;
          Place(x, c.scratch);
          Describe(c, x);
          have_server_cache = have_client_cache = false;
          c.label("cache renewed");
        }
      } else {  // another client table
        Scenario y = Gen(c, p);
        if (y.s[1].keys.size() == x.s[0].keys.size()) {
          auto null_rep = x.s[1].null_rep;
          NewClient(c, x, y);
          x.s[1].null_rep = null_rep;
          x.s[1].disable_align = false;
          auto in0 = x.s[0].in;
          bool had = fs::exists(in0);
          Place(x, c.scratch);
          if (!had) fs::remove(in0);
          Describe(c, x);
          c.label("second client table");
        }
      }
    }
    if (!have_client_cache && c.chance(1, 4)) {
      c.note() << " full";
      flags();
      w.server_reads_input = true;
      auto r = UbRun(x, w, UB::MODE_FULL, UB::MODE_FULL, false);
      REQUIRE(r.r.ok(), "full run failed: " << r.r.all());
      CheckOnline(x, w, r);
      have_server_cache = have_client_cache = ran = true;
      c.label("full");
      continue;
    }
    w.server_result = c.flip();
    w.client_result = !w.server_result || c.flip();
    w.server_reads_input = c.flip();
    if (!have_client_cache) {
      if (!have_server_cache && c.flip()) {
        c.note() << " offline";
        w.server_reads_input = true;
        auto r = UbRun(x, w, UB::MODE_OFFLINE, UB::MODE_OFFLINE, false);
        REQUIRE(r.r.ok(), "offline run failed: " << r.r.all());
        REQUIRE(!r.out[0] && !r.out[1], "the offline stage wrote an output");
        c.label("offline");
      } else {
        c.note() << " gen";
        w.server_reads_input = true;
        auto r = UbRun(x, w, UB::MODE_OFFLINE_GEN_CACHE, UB::MODE_UNSPECIFIED, true);
        REQUIRE(r.r.err[0].empty(), "cache generation failed: " << r.r.all());
        c.note() << " transfer";
        r = UbRun(x, w, UB::MODE_OFFLINE_TRANSFER_CACHE, UB::MODE_OFFLINE_TRANSFER_CACHE, false);
        REQUIRE(r.r.ok(), "cache transfer failed: " << r.r.all());
        REQUIRE(r.rep[1].original_count() == (int64_t)tables::Counts(x.s[0].t, x.s[0].keys).size(), "the client received " << r.rep[1].original_count() << " items of " << tables::Counts(x.s[0].t, x.s[0].keys).size());
        c.label("gen + transfer");
      }
      have_server_cache = have_client_cache = true;
      if (c.chance(1, 3)) {  // the input is not needed any more
        fs::remove(x.s[0].in);
        c.note() << " rm";
        c.label("input removed");
      }
    }
    size_t k = 1 + c.below(2);
    for (size_t i = 0; i < k; ++i) {
      c.note() << " online";
      flags();
      auto r = UbRun(x, w, UB::MODE_ONLINE, UB::MODE_ONLINE, false);
      REQUIRE(r.r.ok(), "online run failed: " << r.r.all());
      CheckOnline(x, w, r);
      ran = true;
      c.label(w.server_result && w.client_result ? "both get the result" : w.server_result ? "server only" : "client only");
    }
  }
  (void)ran;
}

// ---- intersection threshold -------------------------------------------------
// left/right/full/difference without inner rows cannot tell the released keys
PROP(threshold_psi, 60) {
  Profile p;
  p.proto = 0;
  auto x = Gen(c, p);
  if (c.chance(2, 3)) x.join = c.flip() ? v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED : v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
  if (x.join == v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN;
  if (x.curve == psi::CURVE_25519_ELLIGATOR2) x.curve = psi::CURVE_25519;
  Place(x, c.scratch);
  for (int i = 0; i < 2; ++i) if (c.chance(2, 3)) x.s[i].count = c.scratch + "/count" + std::to_string(i) + ".csv";
  Classify(c, x);
  c.nontrivial(false);
  x.threshold = PickThreshold(c, x);
  Describe(c, x);
  auto r = Run(x, Config(x, 0, c.scratch), Config(x, 1, c.scratch));
  REQUIRE(r.r.ok(), "threshold PSI failed: " << r.r.all());
  bool has[2] = {true, x.broadcast};
  const char* names[2] = {"receiver", "sender"};
  CheckThreshold(x, r, has, x.threshold, AlignmentPromised(x), names);
}

PROP(threshold_ub, 60) {
  Profile p;
  p.proto = 0;
  p.broadcast_only = true;
  p.allow_unique_flag = false;
  auto x = Gen(c, p);
  if (c.chance(2, 3)) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
  if (x.join == v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN;
  x.recovery = false;
  World2 w;
  w.dir = c.scratch;
  Place(x, c.scratch);
  int f = (int)c.below(4);
  w.server_result = f != 1;
  w.client_result = f != 2;
  w.no_align = c.chance(1, 4);
  w.server_reads_input = c.flip();
  for (int i = 0; i < 2; ++i) if (c.chance(2, 3)) x.s[i].count = c.scratch + "/count" + std::to_string(i) + ".csv";
  Classify(c, x);
  c.nontrivial(false);
  w.threshold = PickThreshold(c, x);
  Describe(c, x);
  bool full = c.flip();
  c.note() << " threshold=" << w.threshold << " server_result=" << w.server_result << " client_result=" << w.client_result << (full ? " full" : " offline+online");
  Ran r;
  if (!full) {
    r = UbRun(x, w, UB::MODE_OFFLINE, UB::MODE_OFFLINE, false);
    REQUIRE(r.r.ok(), "offline run failed: " << r.r.all());
  }
  r = UbRun(x, w, full ? UB::MODE_FULL : UB::MODE_ONLINE, full ? UB::MODE_FULL : UB::MODE_ONLINE, false);
  REQUIRE(r.r.ok(), "threshold run failed: " << r.r.all());
  bool has[2] = {w.server_result, w.client_result};
  const char* names[2] = {"server", "client"};
  CheckThreshold(x, r, has, w.threshold, !w.no_align, names);
}

// ---- secrecy ----------------------------------------------------------------
namespace {
std::string Token(uint64_t id, uint64_t salt) {
  uint64_t h = salt ^ pbt::mix(id + 1);
  std::string s;
  for (int i = 0; i < 20; ++i) {
    h = pbt::mix(h + i);
    s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[h % 62];
  }
  return s;
}
Scenario Plain(pbt::Ctx& c, uint64_t n0, uint64_t n1, uint64_t overlap, uint64_t salt) {
  Scenario x;
  x.proto = v2::PROTOCOL_ECDH;
  x.curve = psi::CURVE_FOURQ;
  for (int i = 0; i < 2; ++i) {
    x.s[i].keys = {"id"};
    x.s[i].t.cols = {"id", i ? "pc" : "ps"};
    uint64_t n = i ? n1 : n0;
    for (uint64_t r = 0; r < n; ++r) x.s[i].t.rows.push_back({Token(r < overlap ? r : (i + 1) * 1000000 + r, salt), (i ? "c" : "s") + Token(77 * r + i, salt)});
  }
  return x;
}
}  // namespace

// Nothing a party holds outside the common items can be read or guessed from
// the traffic of any stage, and a party without result sees traffic that does
// not depend on the overlap.
PROP(ub_secrets, 60) {
  uint64_t n0 = 1 + c.skewed(0, 40), n1 = 1 + c.skewed(0, 40), salt = c.u64();
  uint64_t overlap = 1 + c.below(std::min(n0, n1));
  World2 w;
  int f = (int)c.below(3);
  w.server_result = f != 1;
  w.client_result = f != 2;
  w.no_align = c.chance(1, 4);
  w.server_reads_input = c.flip();
  bool full = c.flip();
  uint64_t seed = c.below(1 << 20);
  int rr = (int)c.below(2);
  bool left_join = c.chance(1, 3);
  c.note() << "server " << n0 << " client " << n1 << " common " << overlap << " server_result=" << w.server_result << " client_result=" << w.client_result << (full ? " full" : " offline+online") << (left_join ? " left join" : "");
  std::vector<size_t> sizes[2][2];  // run, destination side
  for (int run = 0; run < 2; ++run) {
    auto x = Plain(c, n0, n1, run ? overlap : 0, salt);
    x.seed = seed;
    x.receiver_rank = rr;
    if (left_join) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN, x.left = w.server_result ? 0 : 1;
    w.dir = c.scratch + "/run" + std::to_string(run);
    fs::create_directories(w.dir);
    Place(x, w.dir);
    leak::Finder find;
    for (int i = 0; i < 2; ++i)
      for (uint64_t r = 0; r < x.s[i].t.rows.size(); ++r) {
        bool common = run && r < overlap;
        if (!common) find.Add(x.s[i].t.rows[r][0], i ? "client key" : "server key");
        find.Add(x.s[i].t.rows[r][1], i ? "client payload" : "server payload");
      }
    std::vector<UB::Mode> stages = full ? std::vector<UB::Mode>{UB::MODE_FULL} : std::vector<UB::Mode>{UB::MODE_OFFLINE, UB::MODE_ONLINE};
    for (auto m : stages) {
      leak::Log log;
      w.traffic = &log;
      auto r = UbRun(x, w, m, m, false);
      REQUIRE(r.r.ok(), "run failed: " << r.r.all());
      REQUIRE(!log.empty(), "no traffic recorded");
      if (m != UB::MODE_OFFLINE) CheckOnline(x, w, r);
      for (auto& [src, dst, msg] : log) {
        auto hit = find.Find(msg);
        REQUIRE(hit.empty(), hit << " was sent from rank " << src << " in a message of " << msg.size() << " bytes");
        sizes[run][dst == (size_t)rr ? 0 : 1].push_back(msg.size());
      }
    }
    for (auto& s : sizes[run]) std::sort(s.begin(), s.end());
  }
  if (!w.server_result) REQUIRE(sizes[0][0] == sizes[1][0], "what the server receives tells the overlap: sizes " << pbt::showv(sizes[0][0]) << " and " << pbt::showv(sizes[1][0]));
  if (!w.client_result) REQUIRE(sizes[0][1] == sizes[1][1], "what the client receives tells the overlap: sizes " << pbt::showv(sizes[0][1]) << " and " << pbt::showv(sizes[1][1]));
  c.nontrivial();
}

DAMAGED(ub_history, 8, 2, 60)
DAMAGED(threshold_psi, 8)
DAMAGED(threshold_ub, 8)
