// Crash recovery of two-party PSI: interrupt runs at generated points, rerun
// with the same configuration, and compare the final outcome with the model.
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "threshold.h"
#include "fsops.h"
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "experiment/psi/threshold_ecdh_psi/receiver.h"
#include "experiment/psi/threshold_ecdh_psi/sender.h"
using namespace e2e;

namespace {
// The recovery code works per batch; the built-in batch is 65536 rows, so the
// parties are given a provider with a small one.
template <class Base>
struct SmallBatch : Base {
  SmallBatch(const v2::PsiConfig& c, parties::Link l, size_t b) : Base(c, std::move(l)), b_(b) {}
  void Init() override {
    Base::Init();
    if (b_) this->batch_provider_ = this->keys_info_->GetBatchProvider(b_);
  }
  size_t b_;
};
std::unique_ptr<psi::AbstractPsiParty> Make(const v2::PsiConfig& c, parties::Link l, size_t batch) {
  if (c.protocol_config().protocol() == v2::PROTOCOL_ECDH && batch) {
    bool recv = c.protocol_config().role() == v2::ROLE_RECEIVER;
    if (c.intersection_threshold()) {
      if (recv) return std::make_unique<SmallBatch<psi::ecdh::ThresholdEcdhPsiReceiver>>(c, l, batch);
      return std::make_unique<SmallBatch<psi::ecdh::ThresholdEcdhPsiSender>>(c, l, batch);
    }
    if (recv) return std::make_unique<SmallBatch<psi::ecdh::EcdhPsiReceiver>>(c, l, batch);
    return std::make_unique<SmallBatch<psi::ecdh::EcdhPsiSender>>(c, l, batch);
  }
  return psi::createPsiParty(c, l);
}

struct Fault {
  int kind = 0;  // 0 none; 1 graceful failure of `who` at link op n; 2 whole host dies at link op n; 3 whole host dies at fs op n; 4 hard kill of `who` at link op n
  int who = 0;
  long n = 0;
  int torn = 0;
};
struct Outcome {
  int status = 0;  // 0 ran to an end, 1 the host died, 2 it hung
  std::string err[2];
  psi::PsiResultReport rep[2];
  long link_ops = 0, fs_ops = 0;
  bool hit = false;
};

// One run of both parties in a process of its own.
Outcome RunOnce(const Scenario& x, const v2::PsiConfig cfg[2], const std::string& dir, size_t batch, const Fault& f, uint64_t salt) {
  std::string res = dir + "/outcome";
  fs::remove(res);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(20);
    parties::Quiet();
    arrow::shim::csv_rows_per_batch = x.arrow_rows;
    yacl::shim::SeedRand(x.seed + 1 + salt * 7919);
    auto links = parties::World(2);
    std::atomic<long> ops{0}, mine{0};
    std::atomic<bool> hit{false};
    int rank[2] = {x.receiver_rank, 1 - x.receiver_rank};
    std::string snap = dir + "/snapshot";
    fs::remove_all(snap);
    std::string folder = f.kind == 4 ? cfg[f.who].recovery_config().folder() : "";
    links[0]->ShimWorld().hook = [&](size_t r, const char*) {
      long k = ops++;
      if (f.kind == 2 && k == f.n) _exit(42);
      if ((f.kind == 1 || f.kind == 4) && (int)r == rank[f.who]) {
        if (mine++ == f.n && !hit.exchange(true)) {
          if (f.kind == 4) {
            std::unique_lock<std::shared_mutex> lk(fsops::freeze);
            if (fs::exists(folder)) fs::copy(folder, snap, fs::copy_options::recursive);
            else fs::create_directories(snap);
          }
          links[0]->ShimWorld().Kill(r);
          throw std::runtime_error("injected failure");
        }
      }
    };
    fsops::count = 0;
    fsops::exit_at = f.kind == 3 ? f.n : -1;
    fsops::torn = f.torn;
    fsops::armed = true;
    psi::PsiResultReport rep[2];
    std::vector<std::function<void(parties::Link)>> fns(2);
    for (int s = 0; s < 2; ++s) fns[rank[s]] = [&, s](parties::Link l) { rep[s] = Make(cfg[s], l, batch)->Run(); };
    auto r = parties::Run(links, fns);
    fsops::armed = false;
    if (f.kind == 4 && hit) {
      fs::remove_all(folder);
      fs::copy(snap, folder, fs::copy_options::recursive);
    }
    std::ofstream o(res + ".tmp", std::ios::binary);
    o << ops << " " << fsops::count << " " << hit << "\n";
    for (int s = 0; s < 2; ++s) {
      std::string e = r.err[rank[s]], b = rep[s].SerializeAsString();
      o << e.size() << " " << b.size() << "\n" << e << b;
    }
    o.close();
    fs::rename(res + ".tmp", res);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome out;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { out.status = 1; out.hit = true; return out; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { out.status = 2; return out; }
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process of both parties died by itself (wait status " << st << ")");
  std::ifstream in(res, std::ios::binary);
  in >> out.link_ops >> out.fs_ops >> out.hit;
  in.get();
  for (int s = 0; s < 2; ++s) {
    size_t a, b;
    in >> a >> b;
    in.get();
    out.err[s].resize(a);
    in.read(out.err[s].data(), a);
    std::string t(b, 0);
    in.read(t.data(), b);
    out.rep[s].ParseFromString(t);
  }
  return out;
}

Scenario GenCrash(pbt::Ctx& c, size_t* batch, bool threshold = false) {
  Profile p;
  if (threshold) p.proto = 0;
  p.inner_only = c.flip();
  p.max_rows = 30;
  auto x = Gen(c, p);
  x.recovery = true;
  if (threshold) {
    if (c.chance(2, 3)) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
    if (x.join == v2::PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE) x.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN;
    if (x.curve == psi::CURVE_25519_ELLIGATOR2) x.curve = psi::CURVE_25519;
  }
  *batch = c.pick(std::vector<size_t>{3, 1, 2, 5, 8, 0});
  if (x.proto != v2::PROTOCOL_ECDH) x.bucket = c.pick(std::vector<uint64_t>{4, 2, 8, 16, 1000});
  return x;
}
const char* kKind[] = {"none", "error return", "host dies at link op", "host dies at file op", "one party killed"};
}  // namespace

// C07: whatever interrupts the earlier runs, rerunning gives the exact result.
static void CrashRecovery(pbt::Ctx& c, bool threshold) {
  size_t batch;
  auto x = GenCrash(c, &batch, threshold);
  Place(x, c.scratch);
  if (threshold) for (int i = 0; i < 2; ++i) if (c.chance(2, 3)) x.s[i].count = c.scratch + "/count" + std::to_string(i) + ".csv";
  Classify(c, x);
  if (threshold) { c.nontrivial(false); x.threshold = PickThreshold(c, x); }
  Describe(c, x);
  bool trivial = !c.nontrivial_;
  v2::PsiConfig cfg[2] = {Config(x, 0, c.scratch), Config(x, 1, c.scratch)};
  int rounds = 1 + (int)c.below(3);
  c.note() << "\nprovider batch=" << batch;
  bool hit = false;
  // how many link and file operations does an undisturbed run have?
  v2::PsiConfig dry[2] = {cfg[0], cfg[1]};
  for (int s = 0; s < 2; ++s) {
    dry[s].mutable_recovery_config()->set_folder(c.scratch + "/dry" + std::to_string(s));
    if (!dry[s].count_path().empty()) dry[s].set_count_path(c.scratch + "/drycount" + std::to_string(s) + ".csv");
    dry[s].mutable_output_config()->set_path(c.scratch + "/dryout" + std::to_string(s) + ".csv");
  }
  auto d = RunOnce(x, dry, c.scratch, batch, Fault{}, 98);
  if ((d.err[0] + d.err[1]).find("empty bin in stash") != std::string::npos) throw pbt::Discard{};  // known finding, see e2e.h
  REQUIRE(d.status == 0 && d.err[0].empty() && d.err[1].empty(), "a run without faults failed: " << d.err[0] << " | " << d.err[1]);
  for (int i = 0; i < rounds; ++i) {
    Fault f;
    f.kind = 1 + (int)c.below(4);
    f.who = (int)c.below(2);
    long total = f.kind == 3 ? d.fs_ops : f.kind == 2 ? d.link_ops : d.link_ops / 2;
    f.n = total * (long)c.below(1001) / 1000;
    f.torn = c.flip() ? 0 : (int)c.below(100);
    c.note() << "\nrun " << i << ": " << kKind[f.kind] << " n=" << f.n << " who=" << (f.who ? "sender" : "receiver") << " torn=" << f.torn;
    auto o = RunOnce(x, cfg, c.scratch, batch, f, i);
    REQUIRE(o.status != 2, "a party hangs after its peer failed (run " << i << ")");
    c.note() << (o.hit ? " [hit]" : " [not reached]") << (o.status == 0 ? " " + o.err[0].substr(0, 120) + "|" + o.err[1].substr(0, 120) : "");
    hit |= o.hit;
    if (o.hit) c.label(kKind[f.kind]);
    if (!o.hit) {
      c.label("run completed before the fault");
  if ((o.err[0] + o.err[1]).find("empty bin in stash") != std::string::npos) throw pbt::Discard{};
      REQUIRE(o.err[0].empty() && o.err[1].empty(), "an undisturbed run " << i << " failed: " << o.err[0] << " | " << o.err[1]);
    }
  }
  auto o = RunOnce(x, cfg, c.scratch, batch, Fault{}, 99);
  REQUIRE(o.status == 0, "the final run hangs");
  if ((o.err[0] + o.err[1]).find("empty bin in stash") != std::string::npos) throw pbt::Discard{};
  REQUIRE(o.err[0].empty() && o.err[1].empty(), "the final run failed: " << o.err[0] << " | " << o.err[1]);
  Ran r;
  for (int s = 0; s < 2; ++s) { r.rep[s] = o.rep[s]; r.out[s] = tables::ReadCsv(cfg[s].output_config().path()); }
  bool has[2] = {true, x.broadcast};
  const char* names[2] = {"receiver", "sender"};
  if (threshold) CheckThreshold(x, r, has, x.threshold, AlignmentPromised(x), names);
  else { CheckRows(x, r); CheckReports(x, r); if (AlignmentPromised(x)) CheckAligned(x, r); }
  c.nontrivial(hit && !trivial);
}
PROP(crash_recovery, 200) { CrashRecovery(c, false); }
PROP(crash_recovery_threshold, 200) { CrashRecovery(c, true); }

static Fault GenFault(pbt::Ctx& c, const Outcome& d, bool killonly) {
  Fault f;
  f.kind = killonly ? 1 : 1 + (int)c.below(4);
  f.who = (int)c.below(2);
  long total = f.kind == 3 ? d.fs_ops : f.kind == 2 ? d.link_ops : d.link_ops / 2;
  f.n = total * (long)c.below(1001) / 1000;
  f.torn = c.flip() ? 0 : (int)c.below(100);
  return f;
}
static bool HasRecord(const v2::PsiConfig& cfg) {
  auto t = tables::Slurp(cfg.recovery_config().folder() + "/checkpoint.json");
  return t.find("STAGE_") != std::string::npos && t.find("STAGE_UNSPECIFIED") == std::string::npos;
}

// C08: a recovery folder of another input or configuration is never resumed.
PROP(resume_mismatch, 200) {
  size_t batch;
  auto x = GenCrash(c, &batch);
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  v2::PsiConfig cfg[2] = {Config(x, 0, c.scratch), Config(x, 1, c.scratch)};
  auto d = Outcome{};
  d.link_ops = 150; d.fs_ops = 150;
  Fault f = GenFault(c, d, false);
  c.note() << "\nrun 0: " << kKind[f.kind] << " n=" << f.n << " who=" << f.who;
  auto o = RunOnce(x, cfg, c.scratch, batch, f, 0);
  REQUIRE(o.status != 2, "a party hangs after its peer failed");
  bool rec[2] = {HasRecord(cfg[0]), HasRecord(cfg[1])};
  // now something changes
  auto y = x;
  bool changed[2] = {false, false};
  int who = (int)c.below(2);
  auto& s = y.s[who];
  std::string what;
  auto before = tables::Counts(s.t, s.keys);
  switch (c.below(6)) {
    case 0: {  // a row with a new key / one row less
      if (s.t.rows.size() > 1 && c.flip()) s.t.rows.erase(s.t.rows.begin() + c.below(s.t.rows.size()));
      else { auto r = s.t.rows[c.below(s.t.rows.size())]; size_t k = std::find(s.t.cols.begin(), s.t.cols.end(), s.keys[0]) - s.t.cols.begin(); r[k] += "z"; s.t.rows.push_back(r); }
      what = "rows of one input";
      break;
    }
    case 1: {  // one key value changes
      auto& r = s.t.rows[c.below(s.t.rows.size())];
      size_t k = std::find(s.t.cols.begin(), s.t.cols.end(), s.keys.back()) - s.t.cols.begin();
      r[k] += "z";
      what = "a key value";
      break;
    }
    case 2: y.broadcast = !y.broadcast; what = "broadcast"; break;
    case 3:
      if (y.proto == v2::PROTOCOL_ECDH) y.curve = y.curve == psi::CURVE_25519 ? psi::CURVE_FOURQ : psi::CURVE_25519;
      else y.bucket = y.bucket == 4 ? 3 : 4;
      what = "curve or bucket size";
      break;
    case 4: y.proto = y.proto == v2::PROTOCOL_ECDH ? v2::PROTOCOL_RR22 : v2::PROTOCOL_ECDH; y.curve = psi::CURVE_25519; y.bucket = 4; what = "protocol"; break;
    default: y.join = y.join == v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN ? v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN : v2::PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN; if (y.left < 0) y.left = 0; what = "join type";
  }
  auto keyset = [](const std::map<Row, uint64_t>& m) { std::set<Row> k; for (auto& e : m) k.insert(e.first); return k; };
  if (keyset(tables::Counts(s.t, s.keys)) == keyset(before) && tables::Counts(s.t, s.keys) != before) throw pbt::Discard{};  // how often a key occurs is not part of the record
  for (auto& t : y.s) if (t.keys_unique && !Unique(t)) t.keys_unique = false;
  c.note() << "\nchanged: " << what << " (" << (who ? "sender" : "receiver") << ")";
  c.label("changed " + what);
  for (int i = 0; i < 2; ++i) tables::WriteCsv(y.s[i].in, y.s[i].t, y.s[i].sp);
  v2::PsiConfig cfg2[2] = {Config(y, 0, c.scratch), Config(y, 1, c.scratch)};
  for (int i = 0; i < 2; ++i)
    changed[i] = cfg2[i].SerializeAsString() != cfg[i].SerializeAsString() || (i == who && tables::Counts(y.s[i].t, y.s[i].keys) != before);
  for (int i = 0; i < 2; ++i) fs::remove(cfg2[i].output_config().path());
  auto p = RunOnce(y, cfg2, c.scratch, batch, Fault{}, 1);
  if ((p.err[0] + p.err[1]).find("empty bin in stash") != std::string::npos) throw pbt::Discard{};
  REQUIRE(p.status == 0, "the run with the changed task hangs");
  for (int i = 0; i < 2; ++i) {
    const char* w = i ? "sender" : "receiver";
    if (p.err[i].empty()) {
      REQUIRE(!(rec[i] && changed[i]), w << " resumed from the record of another task (changed: " << what << ")");
      Ran r;
      r.rep[i] = p.rep[i];
      r.out[i] = tables::ReadCsv(cfg2[i].output_config().path());
      CheckRows(y, r, i);
      CheckReports(y, r, i);
    }
  }
  c.nontrivial((rec[0] && changed[0]) || (rec[1] && changed[1]));
}

// C34: when a party fails, its peer does not hang and never ends with a wrong result.
PROP(peer_failure, 120) {
  Profile p;
  p.inner_only = c.flip();
  p.max_rows = 30;
  auto x = Gen(c, p);
  size_t batch = c.pick(std::vector<size_t>{3, 1, 2, 5, 8, 0});
  if (x.proto != v2::PROTOCOL_ECDH) x.bucket = c.pick(std::vector<uint64_t>{4, 2, 8, 16, 1000});
  x.recovery = false;
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  v2::PsiConfig cfg[2] = {Config(x, 0, c.scratch), Config(x, 1, c.scratch)};
  auto d = RunOnce(x, cfg, c.scratch, batch, Fault{}, 98);
  if ((d.err[0] + d.err[1]).find("empty bin in stash") != std::string::npos) throw pbt::Discard{};  // known finding, see e2e.h
  REQUIRE(d.status == 0 && d.err[0].empty() && d.err[1].empty(), "a run without faults failed: " << d.err[0] << " | " << d.err[1]);
  for (int i = 0; i < 2; ++i) fs::remove(cfg[i].output_config().path());
  Fault f = GenFault(c, d, true);
  c.note() << "\nfault: n=" << f.n << " who=" << (f.who ? "sender" : "receiver");
  auto o = RunOnce(x, cfg, c.scratch, batch, f, 1);
  REQUIRE(o.status == 0, "a party hangs after its peer failed");
  c.note() << " -> " << o.err[0].substr(0, 150) << "|" << o.err[1].substr(0, 150);
  if (o.hit) REQUIRE(!o.err[f.who].empty(), "the failed party reports success");
  for (int i = 0; i < 2; ++i)
    if (o.err[i].empty()) {
      if (o.hit) c.label("peer finished all the same");
      Ran r;
      r.rep[i] = o.rep[i];
      r.out[i] = tables::ReadCsv(cfg[i].output_config().path());
      CheckRows(x, r, i);
      CheckReports(x, r, i);
    }
  c.nontrivial(o.hit);
}
