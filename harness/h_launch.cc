// The launcher: how a task description given through the C++ API or a Kuscia
// task turns into the protocol run.  The protocol parties, the bucket PSI
// driver and the keyword-PIR entry points are replaced by recorders defined in
// this file, so each property compares what the run would be started with to
// what the caller asked for, field by field.
#include <filesystem>
#include <fstream>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>
#include <mutex>
#include "parties.h"
#include "pbt.h"
#include "psi/algorithm/dkpir/entry.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/apps/psi_launcher/kuscia_adapter.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/proto/kuscia.pb.h"
#include "psi/wrapper/apsi/cli/entry.h"

namespace fs = std::filesystem;
namespace v2 = psi::v2;

// ---- recorders --------------------------------------------------------------
namespace rec {
struct State {
  int psi = 0, ub = 0, legacy = 0, recv = 0, send = 0, dk_recv = 0, dk_off = 0, dk_on = 0;
  v2::PsiConfig psi_cfg;
  v2::UbPsiConfig ub_cfg;
  psi::BucketPsiConfig bucket;
  int64_t interval = 0;
  bool has_cb = false;
  int cb_calls = 0;
  psi::apsi_wrapper::cli::ReceiverOptions ro;
  psi::apsi_wrapper::cli::SenderOptions so;
  psi::dkpir::DkPirReceiverOptions dro;
  psi::dkpir::DkPirSenderOptions dso;
  yacl::link::Context* link = nullptr;
  psi::PsiResultReport reply;
  bool throws = false;
  int rc = 0, matches = 0;
};
State s;
struct Party : psi::AbstractPsiParty {
  using psi::AbstractPsiParty::AbstractPsiParty;
  void Init() override { if (s.throws) throw std::runtime_error("party failed"); digest_equal_ = true; }
  void PreProcess() override {}
  void Online() override {}
  void PostProcess() override {}
  psi::PsiResultReport Finalize() override { return s.reply; }
};
struct UbParty : psi::AbstractUbPsiParty {
  using psi::AbstractUbPsiParty::AbstractUbPsiParty;
  void Done() { if (s.throws) throw std::runtime_error("party failed"); report_ = s.reply; }
  void Init() override { Done(); }
  void OfflineGenCache() override {}
  void Offline() override {}
  void OfflineTransferCache() override {}
  void Online() override {}
};
}  // namespace rec

namespace psi {
std::unique_ptr<AbstractPsiParty> createPsiParty(const v2::PsiConfig& config, std::shared_ptr<yacl::link::Context> lctx) {
  ++rec::s.psi;
  rec::s.psi_cfg = config;
  rec::s.link = lctx.get();
  return std::make_unique<rec::Party>(config, config.protocol_config().role(), lctx);
}
std::unique_ptr<AbstractUbPsiParty> createUbPsiParty(const v2::UbPsiConfig& config, std::shared_ptr<yacl::link::Context> lctx) {
  ++rec::s.ub;
  rec::s.ub_cfg = config;
  rec::s.link = lctx.get();
  return std::make_unique<rec::UbParty>(config, config.role(), lctx);
}
BucketPsi::BucketPsi(BucketPsiConfig config, std::shared_ptr<yacl::link::Context> lctx) {
  ++rec::s.legacy;
  rec::s.bucket = config;
  rec::s.link = lctx.get();
}
PsiResultReport BucketPsi::Run(ProgressCallbacks cb, int64_t interval) {
  rec::s.interval = interval;
  rec::s.has_cb = (bool)cb;
  if (cb) cb({});
  if (rec::s.throws) throw std::runtime_error("bucket psi failed");
  return rec::s.reply;
}
namespace apsi_wrapper::cli {
int RunReceiver(const ReceiverOptions& o, const std::shared_ptr<yacl::link::Context>& l, int* m) {
  ++rec::s.recv;
  rec::s.ro = o;
  rec::s.link = l.get();
  if (m) *m = rec::s.matches;
  return rec::s.rc;
}
int RunSender(const SenderOptions& o, const std::shared_ptr<yacl::link::Context>& l) {
  ++rec::s.send;
  rec::s.so = o;
  rec::s.link = l.get();
  return rec::s.rc;
}
}  // namespace apsi_wrapper::cli
namespace dkpir {
int SenderOffline(const DkPirSenderOptions& o) { ++rec::s.dk_off; rec::s.dso = o; return rec::s.rc; }
int SenderOnline(const DkPirSenderOptions& o, std::shared_ptr<yacl::link::Context> l) { ++rec::s.dk_on; rec::s.dso = o; rec::s.link = l.get(); return rec::s.rc; }
int ReceiverOnline(const DkPirReceiverOptions& o, std::shared_ptr<yacl::link::Context> l) { ++rec::s.dk_recv; rec::s.dro = o; rec::s.link = l.get(); return rec::s.rc; }
}  // namespace dkpir
}  // namespace psi

namespace {
namespace api = psi::api;

void Reset(pbt::Ctx& c) {
  rec::s = rec::State{};
  auto n = [&] { return (int64_t)(c.chance(1, 6) ? -1 : (int64_t)(c.u64() >> (1 + c.below(50)))); };
  rec::s.reply.set_original_count(n());
  rec::s.reply.set_original_key_count(n());
  rec::s.reply.set_intersection_count(n());
  rec::s.reply.set_intersection_key_count(n());
  rec::s.throws = c.chance(1, 10);
}
std::string Str(pbt::Ctx& c, const char* what) {
  switch (c.below(5)) {
    case 0: return "";
    case 1: return std::string("/data/") + what + std::to_string(c.below(100)) + ".csv";
    case 2: return std::string(what) + " with space '\"" + std::to_string(c.below(10));
    case 3: return std::string("\xE6\x95\xB0\xE6\x8D\xAE_") + what;
    default: return what + std::to_string(c.u64());
  }
}
std::vector<std::string> Keys(pbt::Ctx& c) {
  std::vector<std::string> k;
  for (uint64_t i = 0, n = 1 + c.below(4); i < n; ++i) k.push_back(Str(c, "key") + std::to_string(i));
  if (c.flip()) std::reverse(k.begin(), k.end());
  return k;
}
// The default trace of RunPsi lands in /tmp; the stand-in tracer writes a
// recognisable marker, and only such files are removed.
void SweepTraces() {
  std::error_code ec;
  for (auto& e : fs::directory_iterator("/tmp", ec)) {
    auto n = e.path().filename().string();
    if (n.rfind("psi_", 0) != 0 || e.path().extension() != ".trace") continue;
    std::ifstream f(e.path());
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s == "t" || s == "shim-trace") fs::remove(e.path(), ec);
  }
}
std::vector<parties::Link> Links(pbt::Ctx& c, int n) { (void)c; parties::Quiet(); return parties::World(n, 1000); }

v2::PsiConfig::AdvancedJoinType Join(api::ResultJoinType t) {
  switch (t) {
    case api::ResultJoinType::JOIN_TYPE_INNER_JOIN: return v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
    case api::ResultJoinType::JOIN_TYPE_LEFT_JOIN: return v2::PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN;
    case api::ResultJoinType::JOIN_TYPE_RIGHT_JOIN: return v2::PsiConfig::ADVANCED_JOIN_TYPE_RIGHT_JOIN;
    case api::ResultJoinType::JOIN_TYPE_FULL_JOIN: return v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN;
    case api::ResultJoinType::JOIN_TYPE_DIFFERENCE: return v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE;
    default: return v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED;
  }
}
psi::CurveType Curve(api::EllipticCurveType t) {
  switch (t) {
    case api::EllipticCurveType::CURVE_25519: return psi::CURVE_25519;
    case api::EllipticCurveType::CURVE_FOURQ: return psi::CURVE_FOURQ;
    case api::EllipticCurveType::CURVE_SM2: return psi::CURVE_SM2;
    case api::EllipticCurveType::CURVE_SECP256K1: return psi::CURVE_SECP256K1;
    case api::EllipticCurveType::CURVE_25519_ELLIGATOR2: return psi::CURVE_25519_ELLIGATOR2;
    default: return psi::CURVE_INVALID_TYPE;
  }
}
api::ResultJoinType GenJoin(pbt::Ctx& c) { return (api::ResultJoinType)c.below(6); }
void GenIo(pbt::Ctx& c, api::InputParams& in, api::OutputParams& out) {
  in.path = Str(c, "in");
  in.selected_keys = Keys(c);
  in.keys_unique = c.flip();
  if (c.chance(1, 6)) in.type = api::SourceType::SOURCE_TYPE_UNSPECIFIED;
  out.path = Str(c, "out");
  out.disable_alignment = c.flip();
  if (c.flip()) out.csv_null_rep = Str(c, "null");
  if (c.chance(1, 6)) out.type = api::SourceType::SOURCE_TYPE_UNSPECIFIED;
}
v2::IoType Io(api::SourceType t) { return t == api::SourceType::SOURCE_TYPE_FILE_CSV ? v2::IO_TYPE_FILE_CSV : v2::IO_TYPE_UNSPECIFIED; }

#define SAME(got, want, what) do { auto g_ = (got); decltype(g_) w_ = (want); REQUIRE(g_ == w_, what << ": the run is started with " << g_ << ", the caller asked for " << w_); } while (0)

void CheckApiReport(const api::PsiExecuteReport& r) {
  SAME(r.original_count, rec::s.reply.original_count(), "original_count");
  SAME(r.intersection_count, rec::s.reply.intersection_count(), "intersection_count");
  SAME(r.original_unique_count, rec::s.reply.original_key_count(), "original_unique_count");
  SAME(r.intersection_unique_count, rec::s.reply.intersection_key_count(), "intersection_unique_count");
}

template <class F>
bool Threw(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
}  // namespace

PROP(psi_execute, 60) {
  Reset(c);
  api::PsiExecuteConfig x;
  auto& p = x.protocol_conf;
  p.protocol = (api::PsiProtocol)(c.chance(1, 12) ? 0 : 1 + c.below(7));
  int world = p.protocol == api::PsiProtocol::PROTOCOL_ECDH_3PC ? 3 : (p.protocol == api::PsiProtocol::PROTOCOL_ECDH_NPC || p.protocol == api::PsiProtocol::PROTOCOL_KKRT_NPC) ? 2 + (int)c.below(4) : 2;
  p.receiver_rank = (uint32_t)c.below(world);
  if (c.flip()) p.bucket_size = 1 + (c.u64() >> (34 + c.below(20)));
  p.broadcast_result = c.flip();
  p.ecdh_params.curve = (api::EllipticCurveType)c.below(6);
  if (c.flip()) p.ecdh_params.batch_size = (uint32_t)(1 + c.below(100000));
  p.rr22_params.low_comm_mode = c.flip();
  if (c.flip()) p.dp_params.bob_sub_sampling = (double)(1 + c.below(1000)) / 1000;
  if (c.flip()) p.dp_params.epsilon = (double)(1 + c.below(1000)) / 97;
  GenIo(c, x.input_params, x.output_params);
  x.join_conf.type = GenJoin(c);
  x.join_conf.left_side_rank = (uint32_t)c.below(world);
  x.checkpoint_conf.enable = c.flip();
  x.checkpoint_conf.path = Str(c, "recovery");
  auto links = Links(c, world);
  int me = (int)c.below(world);
  bool legacy = p.protocol >= api::PsiProtocol::PROTOCOL_ECDH_3PC;
  uint32_t interval = (uint32_t)c.below(9000);
  bool with_cb = c.flip();
  c.note() << "protocol " << (int)p.protocol << " rank " << me << " of " << world << " receiver_rank " << p.receiver_rank << " left_side_rank " << x.join_conf.left_side_rank << " join " << (int)x.join_conf.type << " curve "
           << (int)p.ecdh_params.curve << " keys " << pbt::showv(x.input_params.selected_keys);
  c.label(legacy ? "bucket PSI" : "two-party PSI");
  c.nontrivial(p.protocol != api::PsiProtocol::PROTOCOL_UNSPECIFIED && !rec::s.throws);
  api::PsiExecuteReport r;
  bool threw = Threw([&] {
    api::ProgressParams pp;
    if (with_cb) pp.hook = [](const psi::Progress::Data&) { ++rec::s.cb_calls; };
    pp.interval_ms = interval;
    r = api::PsiExecute(x, links[me], pp);
  });
  SweepTraces();
  if (p.protocol == api::PsiProtocol::PROTOCOL_UNSPECIFIED) {
    c.label("no protocol");
    REQUIRE(threw && !rec::s.psi && !rec::s.legacy, "a task without a protocol was started");
    return;
  }
  REQUIRE(rec::s.psi == (legacy ? 0 : 1) && rec::s.legacy == (legacy ? 1 : 0) && rec::s.ub == 0, "wrong driver: psi " << rec::s.psi << " bucket psi " << rec::s.legacy);
  REQUIRE(rec::s.link == links[me].get(), "the run uses another link");
  REQUIRE(threw == rec::s.throws, "a failing run " << (threw ? "is invented" : "is reported as success"));
  if (!threw) CheckApiReport(r);
  std::vector<std::string> want_keys = x.input_params.selected_keys;
  if (legacy) {
    auto& b = rec::s.bucket;
    auto pt = p.protocol == api::PsiProtocol::PROTOCOL_ECDH_3PC ? psi::ECDH_PSI_3PC : p.protocol == api::PsiProtocol::PROTOCOL_ECDH_NPC ? psi::ECDH_PSI_NPC : p.protocol == api::PsiProtocol::PROTOCOL_KKRT_NPC ? psi::KKRT_PSI_NPC : psi::DP_PSI_2PC;
    SAME((int)b.psi_type(), (int)pt, "psi_type");
    SAME(b.receiver_rank(), p.receiver_rank, "receiver_rank");
    SAME(b.broadcast_result(), p.broadcast_result, "broadcast_result");
    SAME(b.input_params().path(), x.input_params.path, "input path");
    SAME(pbt::showv(std::vector<std::string>(b.input_params().select_fields().begin(), b.input_params().select_fields().end())), pbt::showv(want_keys), "keys");
    SAME(b.input_params().precheck(), !x.input_params.keys_unique, "precheck");
    SAME(b.output_params().path(), x.output_params.path, "output path");
    SAME(b.output_params().need_sort(), !x.output_params.disable_alignment, "need_sort");
    if (p.protocol != api::PsiProtocol::PROTOCOL_KKRT_NPC) SAME((int)b.curve_type(), (int)Curve(p.ecdh_params.curve), "curve");
    SAME((uint64_t)b.bucket_size(), p.bucket_size, "bucket_size");
    if (p.protocol == api::PsiProtocol::PROTOCOL_DP) {
      SAME(b.dppsi_params().bob_sub_sampling(), p.dp_params.bob_sub_sampling, "bob_sub_sampling");
      SAME(b.dppsi_params().epsilon(), p.dp_params.epsilon, "epsilon");
    }
    REQUIRE(rec::s.has_cb == with_cb && rec::s.cb_calls == (with_cb ? 1 : 0), "the progress callback is not the caller's");
    if (with_cb) SAME(rec::s.interval, (int64_t)interval, "progress interval");
    return;
  }
  auto& v = rec::s.psi_cfg;
  auto& pc = v.protocol_config();
  auto want = p.protocol == api::PsiProtocol::PROTOCOL_ECDH ? v2::PROTOCOL_ECDH : p.protocol == api::PsiProtocol::PROTOCOL_KKRT ? v2::PROTOCOL_KKRT : v2::PROTOCOL_RR22;
  SAME((int)pc.protocol(), (int)want, "protocol");
  SAME((int)pc.role(), (int)(p.receiver_rank == (uint32_t)me ? v2::ROLE_RECEIVER : v2::ROLE_SENDER), "role");
  SAME(pc.broadcast_result(), p.broadcast_result, "broadcast_result");
  if (want == v2::PROTOCOL_ECDH) {
    SAME((int)pc.ecdh_config().curve(), (int)Curve(p.ecdh_params.curve), "curve");
    SAME((uint64_t)pc.ecdh_config().batch_size(), (uint64_t)p.ecdh_params.batch_size, "batch_size");
  } else if (want == v2::PROTOCOL_KKRT) {
    SAME((uint64_t)pc.kkrt_config().bucket_size(), p.bucket_size, "bucket_size");
  } else {
    SAME((uint64_t)pc.rr22_config().bucket_size(), p.bucket_size, "bucket_size");
    SAME(pc.rr22_config().low_comm_mode(), p.rr22_params.low_comm_mode, "low_comm_mode");
  }
  SAME((int)v.input_config().type(), (int)Io(x.input_params.type), "input type");
  SAME(v.input_config().path(), x.input_params.path, "input path");
  SAME(v.input_attr().keys_unique(), x.input_params.keys_unique, "keys_unique");
  SAME(v.output_attr().csv_null_rep(), x.output_params.csv_null_rep, "csv_null_rep");
  SAME((int)v.output_config().type(), (int)Io(x.output_params.type), "output type");
  SAME(v.output_config().path(), x.output_params.path, "output path");
  SAME(pbt::showv(std::vector<std::string>(v.keys().begin(), v.keys().end())), pbt::showv(want_keys), "keys");
  SAME(v.disable_alignment(), x.output_params.disable_alignment, "disable_alignment");
  SAME(v.recovery_config().enabled(), x.checkpoint_conf.enable, "recovery enabled");
  if (x.checkpoint_conf.enable) SAME(v.recovery_config().folder(), x.checkpoint_conf.path, "recovery folder");
  SAME((int)v.advanced_join_type(), (int)Join(x.join_conf.type), "join type");
  SAME((int)v.left_side(), (int)(x.join_conf.left_side_rank == p.receiver_rank ? v2::ROLE_RECEIVER : v2::ROLE_SENDER), "left side");
  SAME(v.intersection_threshold(), 0u, "intersection threshold");
}

PROP(ub_execute, 60) {
  Reset(c);
  using U = api::ub::UbPsiExecuteConfig;
  U x;
  x.mode = (U::Mode)(1 + c.below(5));
  bool server = c.flip();
  bool norole = c.chance(1, 12);
  x.role = norole ? api::ub::UbPsiRole::ROLE_UNSPECIFIED : server ? api::ub::UbPsiRole::ROLE_SERVER : api::ub::UbPsiRole::ROLE_CLIENT;
  x.server_receive_result = c.flip();
  x.client_receive_result = c.flip();
  x.cache_path = Str(c, "cache");
  GenIo(c, x.input_params, x.output_params);
  x.server_params.secret_key_path = Str(c, "sk");
  x.join_conf.type = GenJoin(c);
  x.join_conf.left_side_rank = (uint32_t)c.below(2);
  auto links = Links(c, 2);
  int me = (int)c.below(2);
  c.note() << "role " << (int)x.role << " rank " << me << " mode " << (int)x.mode << " left_side_rank " << x.join_conf.left_side_rank << " join " << (int)x.join_conf.type;
  c.nontrivial(!norole && !rec::s.throws);
  c.label(server ? "server" : "client");
  api::PsiExecuteReport r;
  bool threw = Threw([&] { r = api::UbPsiExecute(x, links[me]); });
  if (norole) {
    c.label("no role");
    REQUIRE(threw && !rec::s.ub, "a task without a role was started");
    return;
  }
  REQUIRE(rec::s.ub == 1 && !rec::s.psi && !rec::s.legacy, "wrong driver");
  REQUIRE(rec::s.link == links[me].get(), "the run uses another link");
  if (rec::s.throws) { REQUIRE(threw, "a failing run is reported as success"); return; }
  // the recorder's Run() executes no stage that produces output; it may only
  // fail where the recorder was told to
  REQUIRE(!threw, "a well-formed task is refused");
  auto& v = rec::s.ub_cfg;
  static const v2::UbPsiConfig::Mode modes[] = {v2::UbPsiConfig::MODE_UNSPECIFIED, v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE, v2::UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, v2::UbPsiConfig::MODE_OFFLINE, v2::UbPsiConfig::MODE_ONLINE, v2::UbPsiConfig::MODE_FULL};
  SAME((int)v.mode(), (int)modes[(int)x.mode], "mode");
  SAME((int)v.role(), (int)(server ? v2::ROLE_SERVER : v2::ROLE_CLIENT), "role");
  SAME(v.server_secret_key_path(), x.server_params.secret_key_path, "secret key path");
  SAME(v.cache_path(), x.cache_path, "cache path");
  SAME(v.server_get_result(), x.server_receive_result, "server_get_result");
  SAME(v.client_get_result(), x.client_receive_result, "client_get_result");
  SAME((int)v.input_config().type(), (int)Io(x.input_params.type), "input type");
  SAME(v.input_config().path(), x.input_params.path, "input path");
  SAME(v.input_attr().keys_unique(), x.input_params.keys_unique, "keys_unique");
  SAME(v.output_attr().csv_null_rep(), x.output_params.csv_null_rep, "csv_null_rep");
  SAME((int)v.output_config().type(), (int)Io(x.output_params.type), "output type");
  SAME(v.output_config().path(), x.output_params.path, "output path");
  SAME(pbt::showv(std::vector<std::string>(v.keys().begin(), v.keys().end())), pbt::showv(x.input_params.selected_keys), "keys");
  SAME(v.disable_alignment(), x.output_params.disable_alignment, "disable_alignment");
  SAME((int)v.advanced_join_type(), (int)Join(x.join_conf.type), "join type");
  bool mine = x.join_conf.left_side_rank == (uint32_t)me;
  SAME((int)v.left_side(), (int)(mine == server ? v2::ROLE_SERVER : v2::ROLE_CLIENT), "left side");
  CheckApiReport(r);
}

// The protobuf entry points hand over exactly what they were given.
PROP(direct, 60) {
  Reset(c);
  auto links = Links(c, 2);
  int me = (int)c.below(2);
  static const std::vector<std::string> levels = {"", "info", "WARN", "Err", "off", "critical", "OFF", "debugging", "warning!", "none"};
  auto level = c.pick(levels);
  bool bad = level == "debugging" || level == "warning!" || level == "none";
  int kind = (int)c.below(3);
  psi::PsiResultReport r;
  bool threw;
  std::string trace;
  if (kind == 0) {
    v2::PsiConfig v;
    v.mutable_protocol_config()->set_protocol((v2::Protocol)(1 + c.below(3)));
    v.mutable_protocol_config()->set_role(c.flip() ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    v.mutable_protocol_config()->set_broadcast_result(c.flip());
    v.mutable_input_config()->set_path(Str(c, "in"));
    v.mutable_output_config()->set_path(Str(c, "out"));
    for (auto& k : Keys(c)) v.add_keys(k);
    v.set_intersection_threshold((uint32_t)c.below(3));
    v.set_count_path(Str(c, "count"));
    v.mutable_debug_options()->set_logging_level(level);
    if (c.flip()) { trace = c.scratch + "/dir with space/trace" + std::to_string(c.below(3)); fs::create_directories(c.scratch + "/dir with space"); v.mutable_debug_options()->set_trace_path(trace); }
    c.note() << "RunPsi " << v.ShortDebugString();
    threw = Threw([&] { r = psi::RunPsi(v, links[me]); });
    SweepTraces();
    if (!bad) {
      REQUIRE(rec::s.psi == 1, "the party was not created");
      REQUIRE(google::protobuf::util::MessageDifferencer::Equals(rec::s.psi_cfg, v), "the party gets " << rec::s.psi_cfg.ShortDebugString());
      if (!trace.empty() && !threw) REQUIRE(fs::exists(trace), "no trace at the path asked for");
    }
    c.label("RunPsi");
  } else if (kind == 1) {
    v2::UbPsiConfig v;
    v.set_mode((v2::UbPsiConfig::Mode)(1 + c.below(5)));
    v.set_role(c.flip() ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
    v.set_cache_path(Str(c, "cache"));
    v.mutable_input_config()->set_path(Str(c, "in"));
    for (auto& k : Keys(c)) v.add_keys(k);
    v.set_server_get_result(c.flip());
    v.set_client_get_result(c.flip());
    v.mutable_debug_options()->set_logging_level(level);
    c.note() << "RunUbPsi " << v.ShortDebugString();
    threw = Threw([&] { r = psi::RunUbPsi(v, links[me]); });
    if (!bad) {
      REQUIRE(rec::s.ub == 1, "the party was not created");
      REQUIRE(google::protobuf::util::MessageDifferencer::Equals(rec::s.ub_cfg, v), "the party gets " << rec::s.ub_cfg.ShortDebugString());
    }
    c.label("RunUbPsi");
  } else {
    psi::BucketPsiConfig b;
    b.set_psi_type((psi::PsiType)(1 + c.below(8)));
    b.set_receiver_rank((uint32_t)c.below(5));
    b.set_bucket_size((uint32_t)c.u64());
    b.mutable_input_params()->set_path(Str(c, "in"));
    bad = false;
    int64_t iv = (int64_t)c.below(100000);
    c.note() << "RunLegacyPsi " << b.ShortDebugString();
    threw = Threw([&] { r = psi::RunLegacyPsi(b, links[me], [](const psi::Progress::Data&) { ++rec::s.cb_calls; }, iv); });
    REQUIRE(rec::s.legacy == 1 && google::protobuf::util::MessageDifferencer::Equals(rec::s.bucket, b), "bucket PSI gets " << rec::s.bucket.ShortDebugString());
    REQUIRE(rec::s.has_cb && rec::s.cb_calls == 1 && rec::s.interval == iv, "progress callback or interval lost");
    c.label("RunLegacyPsi");
  }
  parties::Quiet();
  c.nontrivial(!bad);
  if (bad) {
    c.label("unknown logging level");
    REQUIRE(threw && !rec::s.psi && !rec::s.ub, "an unknown logging level is accepted");
    return;
  }
  REQUIRE(rec::s.link == links[me].get(), "the run uses another link");
  REQUIRE(threw == rec::s.throws, "a failing run " << (threw ? "is invented" : "is reported as success"));
  if (!threw) REQUIRE(google::protobuf::util::MessageDifferencer::Equals(r, rec::s.reply), "the report is changed: " << r.ShortDebugString() << " from " << rec::s.reply.ShortDebugString());
}

PROP(pir_options, 60) {
  Reset(c);
  auto links = Links(c, 2);
  int me = (int)c.below(2);
  static const std::vector<std::string> levels = {"all", "debug", "info", "warning", "error", "off", "", "Info", "trace"};
  auto level = c.pick(levels);
  auto want_level = std::find(levels.begin(), levels.begin() + 6, level) != levels.begin() + 6 ? level : std::string("all");
  rec::s.rc = c.chance(1, 6) ? (int)(c.flip() ? -1 : 1 + c.below(255)) : 0;
  rec::s.matches = (int)c.below(100000);
  auto n = [&](uint64_t m) { return (uint32_t)(c.chance(1, 4) ? 0 : 1 + c.below(m)); };
  int kind = (int)c.below(4);
  bool threw = false;
  if (kind == 0) {
    psi::ApsiReceiverConfig x;
    x.set_threads(n(128)); x.set_log_level(level); x.set_log_file(Str(c, "log")); x.set_silent(c.flip());
    x.set_query_file(Str(c, "q")); x.set_output_file(Str(c, "o")); x.set_params_file(Str(c, "p"));
    x.set_experimental_enable_bucketize(c.flip()); x.set_experimental_bucket_cnt(n(1 << 20)); x.set_query_batch_size(n(100));
    c.note() << "receiver " << x.ShortDebugString() << " rc " << rec::s.rc;
    psi::PirResultReport r;
    threw = Threw([&] { r = psi::RunPir(x, links[me]); });
    REQUIRE(rec::s.recv == 1, "receiver not run");
    auto& o = rec::s.ro;
    SAME(o.threads, (size_t)x.threads(), "threads");
    SAME(o.log_level, want_level, "log level");
    SAME(o.log_file, x.log_file(), "log file");
    SAME(o.silent, x.silent(), "silent");
    SAME(o.query_file, x.query_file(), "query file");
    SAME(o.output_file, x.output_file(), "output file");
    SAME(o.params_file, x.params_file(), "params file");
    SAME(o.channel, std::string("yacl"), "channel");
    SAME(o.experimental_enable_bucketize, x.experimental_enable_bucketize(), "bucketize");
    SAME(o.experimental_bucket_cnt, (size_t)x.experimental_bucket_cnt(), "bucket count");
    SAME(o.query_batch_size, (size_t)(x.query_batch_size() ? x.query_batch_size() : 1), "query batch size");
    if (!threw) SAME(r.match_cnt(), (int64_t)rec::s.matches, "match count");
    c.label("keyword PIR receiver");
  } else if (kind == 1) {
    psi::ApsiSenderConfig x;
    x.set_threads(n(128)); x.set_log_level(level); x.set_log_file(Str(c, "log")); x.set_silent(c.flip());
    x.set_db_file(Str(c, "db")); x.set_source_file(Str(c, "src")); x.set_params_file(Str(c, "p")); x.set_sdb_out_file(Str(c, "sdb"));
    x.set_nonce_byte_count(n(16)); x.set_compress(c.flip()); x.set_save_db_only(c.flip());
    x.set_experimental_enable_bucketize(c.flip()); x.set_experimental_bucket_cnt(n(1 << 20)); x.set_experimental_bucket_folder(Str(c, "bf"));
    x.set_experimental_db_generating_process_num((int)n(64)); x.set_experimental_bucket_group_cnt((int)n(4096));
    c.note() << "sender " << x.ShortDebugString() << " rc " << rec::s.rc;
    threw = Threw([&] { psi::RunPir(x, links[me]); });
    REQUIRE(rec::s.send == 1, "sender not run");
    auto& o = rec::s.so;
    psi::apsi_wrapper::cli::SenderOptions dflt;
    SAME(o.threads, (size_t)x.threads(), "threads");
    SAME(o.log_level, want_level, "log level");
    SAME(o.log_file, x.log_file(), "log file");
    SAME(o.silent, x.silent(), "silent");
    SAME(o.db_file, x.db_file(), "db file");
    SAME(o.source_file, x.source_file(), "source file");
    SAME(o.params_file, x.params_file(), "params file");
    SAME(o.sdb_out_file, x.sdb_out_file(), "sdb out file");
    SAME(o.channel, std::string("yacl"), "channel");
    SAME(o.compress, x.compress(), "compress");
    SAME(o.save_db_only, x.save_db_only(), "save_db_only");
    SAME(o.nonce_byte_count, x.nonce_byte_count() ? (size_t)x.nonce_byte_count() : dflt.nonce_byte_count, "nonce byte count");
    SAME(o.experimental_enable_bucketize, x.experimental_enable_bucketize(), "bucketize");
    SAME(o.experimental_bucket_cnt, (size_t)x.experimental_bucket_cnt(), "bucket count");
    SAME(o.experimental_bucket_folder, x.experimental_bucket_folder(), "bucket folder");
    SAME(o.experimental_db_generating_process_num, x.experimental_db_generating_process_num() ? x.experimental_db_generating_process_num() : dflt.experimental_db_generating_process_num, "process num");
    SAME(o.experimental_bucket_group_cnt, x.experimental_bucket_group_cnt() ? x.experimental_bucket_group_cnt() : dflt.experimental_bucket_group_cnt, "group count");
    c.label("keyword PIR sender");
  } else if (kind == 2) {
    psi::DkPirReceiverConfig x;
    x.set_threads(n(128)); x.set_log_level(level); x.set_log_file(Str(c, "log")); x.set_params_file(Str(c, "p")); x.set_query_file(Str(c, "q"));
    x.set_result_file(Str(c, "r")); x.set_tmp_folder(Str(c, "tmp")); x.set_key(Str(c, "key")); for (auto& k : Keys(c)) x.add_labels(k);
    x.set_curve_type((psi::CurveType)c.below(6)); x.set_skip_count_check(c.flip());
    c.note() << "dk receiver " << x.ShortDebugString() << " rc " << rec::s.rc;
    threw = Threw([&] { psi::RunDkPir(x, links[me]); });
    REQUIRE(rec::s.dk_recv == 1, "receiver not run");
    auto& o = rec::s.dro;
    SAME(o.threads, (size_t)x.threads(), "threads");
    SAME((int)o.curve_type, (int)x.curve_type(), "curve");
    SAME(o.skip_count_check, x.skip_count_check(), "skip_count_check");
    SAME(o.log_level, want_level, "log level");
    SAME(o.log_file, x.log_file(), "log file");
    SAME(o.params_file, x.params_file(), "params file");
    SAME(o.query_file, x.query_file(), "query file");
    SAME(o.result_file, x.result_file(), "result file");
    SAME(o.tmp_folder, x.tmp_folder(), "tmp folder");
    SAME(o.key, x.key(), "key");
    SAME(pbt::showv(o.labels), pbt::showv(std::vector<std::string>(x.labels().begin(), x.labels().end())), "labels");
    c.label("DkPIR receiver");
  } else {
    psi::DkPirSenderConfig x;
    int mode = c.chance(1, 8) ? 0 : 1 + (int)c.below(2);
    x.set_mode((psi::DkPirSenderConfig::Mode)mode);
    x.set_threads(n(128)); x.set_log_level(level); x.set_log_file(Str(c, "log")); x.set_params_file(Str(c, "p")); x.set_source_file(Str(c, "s"));
    x.set_value_sdb_out_file(Str(c, "v")); x.set_count_sdb_out_file(Str(c, "c")); x.set_secret_key_file(Str(c, "sk")); x.set_result_file(Str(c, "r"));
    x.set_tmp_folder(Str(c, "tmp")); x.set_key(Str(c, "key")); for (auto& k : Keys(c)) x.add_labels(k);
    x.set_curve_type((psi::CurveType)c.below(6)); x.set_skip_count_check(c.flip());
    c.note() << "dk sender " << x.ShortDebugString() << " rc " << rec::s.rc;
    threw = Threw([&] { psi::RunDkPir(x, links[me]); });
    c.label("DkPIR sender");
    REQUIRE(rec::s.dk_off == (mode == 1) && rec::s.dk_on == (mode == 2), "mode " << mode << " ran offline " << rec::s.dk_off << " online " << rec::s.dk_on);
    if (!mode) { REQUIRE(threw, "an unset mode is accepted"); return; }
    auto& o = rec::s.dso;
    SAME(o.threads, (size_t)x.threads(), "threads");
    SAME((int)o.curve_type, (int)x.curve_type(), "curve");
    SAME(o.skip_count_check, x.skip_count_check(), "skip_count_check");
    SAME(o.log_level, want_level, "log level");
    SAME(o.log_file, x.log_file(), "log file");
    SAME(o.params_file, x.params_file(), "params file");
    SAME(o.source_file, x.source_file(), "source file");
    SAME(o.value_sdb_out_file, x.value_sdb_out_file(), "value sdb");
    SAME(o.count_sdb_out_file, x.count_sdb_out_file(), "count sdb");
    SAME(o.secret_key_file, x.secret_key_file(), "secret key file");
    SAME(o.result_file, x.result_file(), "result file");
    SAME(o.tmp_folder, x.tmp_folder(), "tmp folder");
    SAME(o.key, x.key(), "key");
    SAME(pbt::showv(o.labels), pbt::showv(std::vector<std::string>(x.labels().begin(), x.labels().end())), "labels");
  }
  c.nontrivial(rec::s.rc == 0);
  if (rec::s.rc) c.label("failing run");
  REQUIRE(threw == (rec::s.rc != 0), "return code " << rec::s.rc << (threw ? " is reported as a failure" : " is reported as success"));
}

// A Kuscia task: every party derives the same parties in the same order, binds
// its own allocated port and reaches the others at their first endpoint.
PROP(kuscia, 60) {
  using google::protobuf::util::MessageToJsonString;
  int n = 2 + (int)c.below(4);
  kuscia::ClusterDefine def;
  std::vector<std::string> names;
  static const std::vector<std::string> pool = {"alice", "bob", "carol", "Alice", "party-10", "party-9", "p \"q\"", "\xE7\x94\xB2", "a\\b", "z", "0", "dave/eve"};
  auto order = pool;
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
  for (int i = 0; i < n; ++i) {
    names.push_back(order[i]);
    auto* p = def.add_parties();
    p->set_name(order[i]);
    p->set_role(c.flip() ? "host" : "");
    int ns = 1 + (int)c.below(3);
    for (int s = 0; s < ns; ++s) {
      auto* svc = p->add_services();
      svc->set_port_name(s ? "other" : "psi");
      int ne = 1 + (int)c.below(2);
      for (int e = 0; e < ne; ++e) svc->add_endpoints("h" + std::to_string(i) + "-" + std::to_string(s) + "-" + std::to_string(e) + ".svc:" + std::to_string(1 + c.below(65535)));
    }
  }
  kuscia::TaskInputConfig tic;
  std::map<std::string, psi::LaunchConfig> confs;
  for (auto& nm : names) {
    psi::LaunchConfig l;
    switch (c.below(4)) {
      case 0: l.mutable_psi_config()->mutable_input_config()->set_path("/in/" + nm); break;
      case 1: l.mutable_ub_psi_config()->set_cache_path("/c/" + nm); break;
      case 2: l.mutable_apsi_sender_config()->set_source_file("/s/" + nm); break;
      default: l.mutable_dk_pir_receiver_config()->set_query_file("/q/" + nm); break;
    }
    if (c.flip()) l.mutable_link_config()->set_recv_timeout_ms(1 + c.below(100000));
    if (c.flip()) l.mutable_link_config()->set_connect_retry_times((uint32_t)(1 + c.below(100)));
    if (c.flip()) l.set_self_link_party("somebody");
    confs[nm] = l;
    (*tic.mutable_sf_psi_config_map())[nm] = l;
  }
  auto esc = [](const std::string& s) {
    std::string o = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if (ch == '\n') { o += "\\n"; continue; } o += ch; }
    return o + "\"";
  };
  google::protobuf::util::JsonPrintOptions jo;
  jo.preserve_proto_field_names = c.flip();
  jo.add_whitespace = c.flip();
  std::string ref;
  auto task_id = Str(c, "task");
  c.note() << n << " parties " << pbt::showv(names);
  c.nontrivial(n > 2);
  for (int me = 0; me < n; ++me) {
    def.set_self_party_idx(me);
    kuscia::AllocatedPorts ports;
    int np = 1 + (int)c.below(3);
    for (int i = 0; i < np; ++i) { auto* p = ports.add_ports(); p->set_name(i ? "other" : "psi"); p->set_port(1 + (int)c.below(65535)); }
    std::string a, b, d;
    REQUIRE(MessageToJsonString(def, &a, jo).ok() && MessageToJsonString(tic, &b, jo).ok() && MessageToJsonString(ports, &d, jo).ok(), "json");
    auto json = "{\"task_id\": " + esc(task_id) + ", \"task_cluster_def\": " + esc(a) + ", \"task_input_config\": " + esc(b) + ",\n \"allocated_ports\": " + esc(d) + "}";
    auto t = psi::FromKusciaConfig(json);
    SAME(t.task_id, task_id, "task id");
    auto& l = t.launch_config;
    SAME(l.self_link_party(), names[me], "self party");
    SAME(l.link_config().brpc_channel_protocol(), std::string("http"), "channel protocol");
    SAME(l.link_config().brpc_channel_connection_type(), std::string("pooled"), "connection type");
    SAME(l.link_config().parties_size(), n, "parties");
    std::string ids;
    std::map<std::string, std::string> host;
    for (auto& p : l.link_config().parties()) { ids += p.id() + "|"; host[p.id()] = p.host(); }
    if (!me) ref = ids; else REQUIRE(ids == ref, "party order differs between parties: " << ids << " and " << ref);
    for (int i = 0; i < n; ++i) {
      REQUIRE(host.count(names[i]), "party " << names[i] << " missing");
      SAME(host[names[i]], i == me ? "0.0.0.0:" + std::to_string(ports.ports(0).port()) : "http://" + def.parties(i).services(0).endpoints(0), "host of " << names[i] << " at " << names[me]);
    }
    // everything else is the party's own configuration
    auto got = l, want = confs[names[me]];
    for (auto* p : {&got, &want}) { p->clear_self_link_party(); p->mutable_link_config()->clear_parties(); p->mutable_link_config()->clear_brpc_channel_protocol(); p->mutable_link_config()->clear_brpc_channel_connection_type(); }
    REQUIRE(google::protobuf::util::MessageDifferencer::Equals(got, want), "task of " << names[me] << " is " << got.ShortDebugString() << ", configured " << want.ShortDebugString());
  }
}
