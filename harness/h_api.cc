// Whole runs started through the C++ API (psi::api::PsiExecute, UbPsiExecute):
// the outputs and the report equal the relational model for the task the
// caller described in API terms (ranks rather than roles, and so on).
#include <fstream>
#include "e2e.h"
#include "psi/algorithm/dkpir/entry.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/wrapper/apsi/cli/entry.h"
using namespace e2e;
namespace api = psi::api;

// keyword PIR is not linked here
namespace psi {
namespace apsi_wrapper::cli {
int RunReceiver(const ReceiverOptions&, const std::shared_ptr<yacl::link::Context>&, int*) { return 1; }
int RunSender(const SenderOptions&, const std::shared_ptr<yacl::link::Context>&) { return 1; }
}  // namespace apsi_wrapper::cli
namespace dkpir {
int SenderOffline(const DkPirSenderOptions&) { return 1; }
int SenderOnline(const DkPirSenderOptions&, std::shared_ptr<yacl::link::Context>) { return 1; }
int ReceiverOnline(const DkPirReceiverOptions&, std::shared_ptr<yacl::link::Context>) { return 1; }
}  // namespace dkpir
}  // namespace psi

namespace {
void SweepTraces() {
  std::error_code ec;
  for (auto& e : fs::directory_iterator("/tmp", ec)) {
    auto n = e.path().filename().string();
    if (n.rfind("psi_", 0) != 0 || e.path().extension() != ".trace") continue;
    std::ifstream f(e.path());
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s == "shim-trace") fs::remove(e.path(), ec);
  }
}
api::ResultJoinType Join(v2::PsiConfig::AdvancedJoinType j) {
  switch (j) {
    case v2::PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN: return api::ResultJoinType::JOIN_TYPE_LEFT_JOIN;
    case v2::PsiConfig::ADVANCED_JOIN_TYPE_RIGHT_JOIN: return api::ResultJoinType::JOIN_TYPE_RIGHT_JOIN;
    case v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN: return api::ResultJoinType::JOIN_TYPE_FULL_JOIN;
    case v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE: return api::ResultJoinType::JOIN_TYPE_DIFFERENCE;
    default: return api::ResultJoinType::JOIN_TYPE_INNER_JOIN;
  }
}
void Common(const Scenario& x, int side, api::InputParams& in, api::OutputParams& out, api::ResultJoinConfig& join) {
  const Side& s = x.s[side];
  in.path = s.in;
  in.selected_keys = s.keys;
  in.keys_unique = s.keys_unique;
  out.path = s.out;
  out.disable_alignment = s.disable_align;
  if (!s.null_rep.empty()) out.csv_null_rep = s.null_rep;
  join.type = Join(x.join);
  // side 0 sits at receiver_rank
  join.left_side_rank = (uint32_t)(x.left == 0 ? x.receiver_rank : 1 - x.receiver_rank);
}
psi::PsiResultReport ToProto(const api::PsiExecuteReport& r) {
  psi::PsiResultReport p;
  p.set_original_count(r.original_count);
  p.set_original_key_count(r.original_unique_count);
  p.set_intersection_count(r.intersection_count);
  p.set_intersection_key_count(r.intersection_unique_count);
  return p;
}
template <class F>
Ran Run2(const Scenario& x, F f) {
  Ran out;
  parties::Quiet();
  arrow::shim::csv_rows_per_batch = x.arrow_rows;
  yacl::shim::SeedRand(x.seed + 1);
  auto links = parties::World(2);
  std::vector<std::function<void(parties::Link)>> fns(2);
  for (int side = 0; side < 2; ++side) {
    int rank = side == 0 ? x.receiver_rank : 1 - x.receiver_rank;
    fns[rank] = [&, side](parties::Link l) { out.rep[side] = ToProto(f(side, l)); };
  }
  auto r = parties::Run(links, fns);
  SweepTraces();
  parties::Quiet();
  out.r.err.resize(2);
  for (int side = 0; side < 2; ++side) {
    out.r.err[side] = r.err[side == 0 ? x.receiver_rank : 1 - x.receiver_rank];
    out.out[side] = tables::ReadCsv(x.s[side].out);
  }
  return out;
}
}  // namespace

PROP(psi_api, 60) {
  Profile p;
  p.max_rows = 25;
  auto x = Gen(c, p);
  if (x.left < 0) x.left = 0;
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  auto r = Run2(x, [&](int side, parties::Link l) {
    api::PsiExecuteConfig cfg;
    Common(x, side, cfg.input_params, cfg.output_params, cfg.join_conf);
    auto& pc = cfg.protocol_conf;
    pc.protocol = x.proto == v2::PROTOCOL_ECDH ? api::PsiProtocol::PROTOCOL_ECDH : x.proto == v2::PROTOCOL_KKRT ? api::PsiProtocol::PROTOCOL_KKRT : api::PsiProtocol::PROTOCOL_RR22;
    pc.receiver_rank = (uint32_t)x.receiver_rank;
    pc.broadcast_result = x.broadcast;
    if (x.proto == v2::PROTOCOL_ECDH) {
      pc.ecdh_params.curve = (api::EllipticCurveType)(int)x.curve;
      if (x.batch) pc.ecdh_params.batch_size = (uint32_t)x.batch;
    }
    if (x.bucket) pc.bucket_size = x.bucket;
    pc.rr22_params.low_comm_mode = x.low_comm;
    if (x.recovery) {
      cfg.checkpoint_conf.enable = true;
      cfg.checkpoint_conf.path = c.scratch + "/recovery" + std::to_string(side);
    }
    return api::PsiExecute(cfg, l);
  });
  if (CuckooMiss(r.r)) throw pbt::Discard{};  // known finding
  REQUIRE(r.r.ok(), "run failed: " << r.r.all());
  CheckRows(x, r);
  CheckReports(x, r);
  if (AlignmentPromised(x)) CheckAligned(x, r);
}

PROP(ub_api, 60) {
  using U = api::ub::UbPsiExecuteConfig;
  Profile p;
  p.proto = 0;
  p.broadcast_only = true;
  p.allow_unique_flag = false;
  p.max_rows = 25;
  auto x = Gen(c, p);
  x.recovery = false;
  if (x.left < 0) x.left = 1;
  for (auto& s : x.s) s.disable_align = false;
  int f = (int)c.below(4);
  bool sr = f != 1, cr = f != 2, no_align = c.chance(1, 4);
  bool staged = c.flip();
  std::string key = c.scratch + "/server.key";
  auto k = c.bulk(32);
  std::ofstream(key, std::ios::binary).write(k.data(), 32);
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  c.note() << "\nserver result " << sr << " client result " << cr << (staged ? " staged" : " full");
  c.label(staged ? "gen cache, transfer, online" : "full");
  auto run = [&](U::Mode mode) {
    auto r = Run2(x, [&](int side, parties::Link l) {
      U cfg;
      Common(x, side, cfg.input_params, cfg.output_params, cfg.join_conf);
      cfg.output_params.disable_alignment = no_align;
      cfg.mode = mode;
      cfg.role = side == 0 ? api::ub::UbPsiRole::ROLE_SERVER : api::ub::UbPsiRole::ROLE_CLIENT;
      cfg.server_receive_result = sr;
      cfg.client_receive_result = cr;
      cfg.cache_path = c.scratch + "/cache" + std::to_string(side);
      if (side == 0) cfg.server_params.secret_key_path = key;
      if (mode == U::Mode::MODE_OFFLINE_TRANSFER_CACHE) cfg.input_params = api::InputParams{};
      return api::UbPsiExecute(cfg, l);
    });
    REQUIRE(r.r.ok(), "run in mode " << (int)mode << " failed: " << r.r.all());
    return r;
  };
  Ran r;
  if (staged) {
    run(U::Mode::MODE_OFFLINE);
    r = run(U::Mode::MODE_ONLINE);
  } else {
    r = run(U::Mode::MODE_FULL);
  }
  const char* names[2] = {"server", "client"};
  for (int i = 0; i < 2; ++i) {
    if (!(i == 0 ? sr : cr)) {
      REQUIRE(!r.out[i].has_value(), names[i] << " was not to learn the result but has an output file");
      continue;
    }
    REQUIRE(r.out[i].has_value(), names[i] << " has no output file");
    auto e = Model(x, i);
    auto d = DiffRows(r.out[i]->rows, e.rows);
    REQUIRE(d.empty(), names[i] << " output differs from the relational model: " << d);
    REQUIRE(r.rep[i].original_count() == e.original && r.rep[i].original_key_count() == e.original_keys && r.rep[i].intersection_count() == e.inter && r.rep[i].intersection_key_count() == e.inter_keys,
            names[i] << " reports " << r.rep[i].ShortDebugString() << ", expected " << e.original << " " << e.original_keys << " " << e.inter << " " << e.inter_keys);
  }
  if (sr && cr && !no_align) CheckAligned(x, r);
}
