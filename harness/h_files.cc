// What runs do to the file system, and runs beside each other.
#include <map>

#include "e2e.h"
#include "psi/utils/resource_manager.h"
using namespace e2e;

namespace {
std::map<std::string, std::string> Snapshot(const std::string& dir) {
  std::map<std::string, std::string> m;
  for (auto& e : fs::recursive_directory_iterator(dir)) {
    auto p = e.path().string();
    if (e.is_directory()) {
      m[p + "/"] = "";
      continue;
    }
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    m[p] = s.str();
  }
  return m;
}
void Put(const std::string& p, const std::string& text) { std::ofstream(p, std::ios::binary) << text; }
}  // namespace

// Inputs and bystanders stay as they are, temporary data disappears, only the named outputs appear.
PROP(footprint, 60) {
  Profile p;
  auto x = Gen(c, p);
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  bool fail = c.chance(1, 3);
  size_t at = c.below(60), victim = c.below(2);
  if (fail) c.note() << " rank " << victim << " dies at step " << at;
  for (int i = 0; i < 2; ++i) {
    auto dir = fs::path(x.s[i].in).parent_path().string();
    for (const char* n : {"/in.csv.temp.csv", "/in.csv.tmp", "/in.csv.sorted", "/in.csv.keyinfo", "/in.temp.csv", "/other.csv", "/out.csv.tmp", "/out.csv.temp.csv", "/checkpoint", "/indices"})
      if (c.chance(2, 3)) Put(dir + n, std::string("bystander,") + n + "\n1,2\n");
    if (c.flip()) x.s[i].count = dir + "/count.json";
    if (c.chance(1, 3)) Put(x.s[i].out, "old result\n");
  }
  auto before = Snapshot(c.scratch);
  std::atomic<size_t> steps{0};
  auto r = Run(x, Config(x, 0, c.scratch), Config(x, 1, c.scratch), [&](const std::vector<parties::Link>& l) {
    if (!fail) return;
    auto* w = &l[0]->ShimWorld();
    w->hook = [&, w](size_t rank, const char*) {
      if (rank == victim && steps++ == at) {
        w->Kill(rank);
        w->Kill(1 - rank);
        throw std::runtime_error("injected crash");
      }
    };
  });
  bool failed = !r.r.ok();
  REQUIRE(fail || !failed, "PSI failed on valid inputs: " << r.r.all());
  psi::ResourceManager::GetInstance().RemoveAllResource();
  auto after = Snapshot(c.scratch);
  auto own = [&](const std::string& f) {
    for (int i = 0; i < 2; ++i) {
      if (f == x.s[i].out || f == x.s[i].count) return true;
      if (f.rfind(c.scratch + "/trace", 0) == 0) return true;
      if (x.recovery && f.rfind(c.scratch + "/recovery" + std::to_string(i), 0) == 0) return true;
    }
    return false;
  };
  for (auto& [f, text] : before) {
    if (own(f)) continue;
    auto it = after.find(f);
    REQUIRE(it != after.end(), "the run removed " << f);
    REQUIRE(it->second == text, "the run changed " << f << " to " << pbt::show(it->second));
  }
  for (auto& [f, text] : after) REQUIRE(before.count(f) || own(f), "the run left " << f << " behind, " << text.size() << " bytes");
  c.label(failed ? "failed run" : "finished run");
  c.nontrivial();
}

// Several pairs at once in one process, some over the same input files
PROP(side_by_side, 120) {
  size_t n = 2 + c.below(3);
  std::vector<Scenario> xs;
  Profile p;
  p.max_rows = 20;
  p.max_rows_thorough = 80;
  for (size_t i = 0; i < n; ++i) {
    bool again = i > 0 && c.flip();
    Scenario x = again ? xs[c.below(i)] : Gen(c, p);
    if (again) {
      x.broadcast = c.flip();
      x.digest = c.flip();
      x.proto = c.pick(std::vector<v2::Protocol>{v2::PROTOCOL_ECDH, v2::PROTOCOL_KKRT, v2::PROTOCOL_RR22});
      x.curve = psi::CURVE_25519;
      x.recovery = false;
      c.label("shared input");
    }
    auto dir = c.scratch + "/t" + std::to_string(i);
    if (!again) {
      Place(x, dir);
    } else {
      for (int k = 0; k < 2; ++k) {
        fs::create_directories(dir + "/p" + std::to_string(k));
        x.s[k].out = dir + "/p" + std::to_string(k) + "/out.csv";
      }
    }
    xs.push_back(x);
    c.note() << "\n#" << i << ": ";
    Describe(c, xs.back());
  }
  arrow::shim::csv_rows_per_batch = xs[0].arrow_rows;
  yacl::shim::SeedRand(xs[0].seed + 1);
  std::vector<Ran> res(n);
  std::vector<std::vector<parties::Link>> worlds;
  for (size_t i = 0; i < n; ++i) worlds.push_back(parties::World(2, 60000));
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      auto& x = xs[i];
      auto& out = res[i];
      auto dir = c.scratch + "/t" + std::to_string(i);
      v2::PsiConfig cfg[2] = {Config(x, 0, dir), Config(x, 1, dir)};
      std::vector<std::function<void(parties::Link)>> fns(2);
      for (int side = 0; side < 2; ++side) {
        int rank = side == 0 ? x.receiver_rank : 1 - x.receiver_rank;
        fns[rank] = [&, side](parties::Link l) { out.rep[side] = psi::createPsiParty(cfg[side], l)->Run(); };
      }
      auto r = parties::Run(worlds[i], fns);
      out.r.err.resize(2);
      for (int side = 0; side < 2; ++side) {
        out.r.err[side] = r.err[side == 0 ? x.receiver_rank : 1 - x.receiver_rank];
        out.out[side] = tables::ReadCsv(cfg[side].output_config().path());
      }
    });
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < n; ++i) {
    c.note() << "";
    if (CuckooMiss(res[i].r)) throw pbt::Discard{};  // known finding
    REQUIRE(res[i].r.ok(), "task " << i << " failed beside others: " << res[i].r.all());
    CheckRows(xs[i], res[i]);
    CheckReports(xs[i], res[i]);
  }
  c.nontrivial();
}
