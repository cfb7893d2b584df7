#include "e2e.h"
#include "absl/strings/escaping.h"
#include "psi/utils/cuckoo_index.h"
#include "yacl/crypto/hash/hash_utils.h"
using namespace e2e;

static Ran RunScenario(pbt::Ctx& c, Scenario& x) {
  Place(x, c.scratch);
  Describe(c, x);
  Classify(c, x);
  auto r = Run(x, Config(x, 0, c.scratch), Config(x, 1, c.scratch));
  REQUIRE(r.r.ok(), "PSI failed on valid inputs: " << r.r.all());
  return r;
}

// C01: inner join rows on both parties
PROP(inner_join, 60) {
  Profile p;
  p.inner_only = true;
  auto x = Gen(c, p);
  auto r = RunScenario(c, x);
  CheckRows(x, r);
}
// advanced joins
PROP(advanced_join, 60) {
  Profile p;
  p.force_join = true;
  auto x = Gen(c, p);
  auto r = RunScenario(c, x);
  CheckRows(x, r);
}
PROP(alignment, 60) {
  Profile p;
  p.broadcast_only = true;
  auto x = Gen(c, p);
  auto r = RunScenario(c, x);
  REQUIRE(r.out[0] && r.out[1], "an output is missing");
  REQUIRE(r.out[0]->rows.size() == r.out[1]->rows.size(), "outputs have different lengths");
  if (AlignmentPromised(x)) CheckAligned(x, r);
}
PROP(reports, 60) {
  Profile p;
  auto x = Gen(c, p);
  auto r = RunScenario(c, x);
  CheckReports(x, r);
}
// Known finding: with KKRT, two receiver keys whose three cuckoo bins coincide
// can never be placed (the hash is not keyed). Fails while the defect exists.
PROP(probe_cuckoo, 60) {
  auto o = psi::CuckooIndex::SelectParams(2, 0, 3);
  std::vector<int> seen(o.NumBins(), -1);
  Scenario x;
  x.proto = v2::PROTOCOL_KKRT;
  for (auto& s : x.s) s.keys = s.t.cols = {"id"};
  for (int i = 0; i < 200000 && x.s[0].t.rows.empty(); ++i) {
    auto h = yacl::crypto::Blake3_128(absl::Base64Escape("id" + std::to_string(i)));
    psi::CuckooIndex::HashRoom room(h);
    uint64_t b = room.GetHash(0) % o.NumBins();
    if (b != room.GetHash(1) % o.NumBins() || b != room.GetHash(2) % o.NumBins()) continue;
    if (seen[b] >= 0) x.s[0].t.rows = {{"id" + std::to_string(seen[b])}, {"id" + std::to_string(i)}};
    seen[b] = i;
  }
  REQUIRE(!x.s[0].t.rows.empty(), "no such keys");
  x.s[1].t.rows = {x.s[0].t.rows[0], {"other"}};
  x.broadcast = true;
  Place(x, c.scratch);
  auto r = RunOnce(x, Config(x, 0, c.scratch), Config(x, 1, c.scratch));
  REQUIRE(r.r.ok(), "keys " << x.s[0].t.rows[0][0] << " and " << x.s[0].t.rows[1][0] << ": " << r.r.all());
  CheckRows(x, r);
}
// Known finding: composite keys are joined with a comma without escaping, so
// ("a,b","c") meets ("a","b,c"). Fails while the defect exists.
PROP(probe_composite, 60) {
  Scenario x;
  x.proto = v2::PROTOCOL_ECDH;
  for (int i = 0; i < 2; ++i) {
    x.s[i].keys = {"k0", "k1"};
    x.s[i].t.cols = {"k0", "k1"};
  }
  x.s[0].t.rows = {{"a,b", "c"}, {"x", "y"}};
  x.s[1].t.rows = {{"a", "b,c"}, {"x", "y"}};
  x.broadcast = true;
  auto r = RunScenario(c, x);
  CheckRows(x, r);
}
