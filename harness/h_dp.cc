// Differential-privacy PSI: calibration functions and the protocol's laws.
#include <cmath>
#include "parties.h"
#include "wire.h"
#include "pbt.h"
#include "tables.h"
#include "psi/legacy/dp_psi/dp_psi.h"
#include "psi/legacy/dp_psi/dp_psi_utils.h"
using namespace psi::dp_psi;
typedef long double LD;

namespace {
LD Phi(LD t) { return 0.5L * std::erfc(-t / std::sqrt(2.0L)); }
// privacy loss of the Gaussian mechanism with deviation sigma (Balle and Wang 2018, theorem 8)
LD GaussDelta(LD eps, LD gs, LD sigma) { return Phi(gs / (2 * sigma) - eps * sigma / gs) - std::exp(eps) * Phi(-gs / (2 * sigma) - eps * sigma / gs); }
double LogUniform(pbt::Ctx& c, double lo, double hi) { return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * (c.below(1u << 30) / double(1u << 30))); }
LD RefEps1(LD n, LD e2) {
  LD p = std::exp(e2) / (1 + std::exp(e2)), d1 = 1 / (10 * n);
  LD m = n * p - std::sqrt(2 * n * p * std::log(2 / d1));
  return std::sqrt(32 * std::log(4 / d1) / m) * (1 - (n * p - m) / n);
}
}  // namespace

PROP(gaussian_calibration, 3) {
  double eps = c.chance(1, 4) ? c.pick(std::vector<double>{0.5, 1, 2, 3, 4, 8}) : LogUniform(c, 1e-3, 8);
  double delta = c.chance(1, 4) ? c.pick(std::vector<double>{1e-9, 1e-8, 1e-6, 1e-5, 1e-3, 0.01, 0.1, 0.25, 0.4}) : LogUniform(c, 1e-9, 0.45);
  double gs = c.chance(1, 3) ? 1.0 : LogUniform(c, 1e-3, 1e6);
  bool dflt = c.flip();
  double tol = dflt ? kErrorRate : LogUniform(c, 1e-12, 1e-10);
  c.note().precision(17);
  c.note() << "epsilon=" << eps << " delta=" << delta << " GS=" << gs << " tol=" << tol;
  LD thr = 0.5L - std::exp((LD)eps) * Phi(-std::sqrt(2.0L * eps));
  c.label(delta > thr ? "delta above the threshold" : "delta below the threshold");
  double sigma = dflt ? CalibrateAnalyticGaussianMechanism(eps, delta, gs) : CalibrateAnalyticGaussianMechanism(eps, delta, gs, tol);
  c.note() << " -> sigma=" << sigma;
  REQUIRE(std::isfinite(sigma) && sigma > 0, "sigma is " << sigma);
  LD got = GaussDelta(eps, gs, sigma);
  // the code treats delta within 1e-5 of the threshold as the threshold
  LD slack = std::abs((LD)delta - thr) < 1.0001e-5L ? 1.01e-5L : 2 * (LD)tol + 1e-13L * std::exp((LD)eps);
  REQUIRE(std::abs(got - delta) <= slack, "noise " << sigma << " gives delta " << (double)got << " instead of " << delta);
  double twice = dflt ? CalibrateAnalyticGaussianMechanism(eps, delta, 2 * gs) : CalibrateAnalyticGaussianMechanism(eps, delta, 2 * gs, tol);
  REQUIRE(std::abs(twice - 2 * sigma) <= 1e-9 * sigma, "sigma is not proportional to the sensitivity");
  c.nontrivial();
}

PROP(budget_split, 3) {
  double n = std::floor(LogUniform(c, 100, 1e9));
  double e2 = 2.5 + 1.5 * (c.below(1u << 30) / double(1u << 30));
  c.note().precision(17);
  c.note() << "n=" << (size_t)n << " epsilon2=" << e2;
  LD k = std::exp((LD)e2) / (1 + std::exp((LD)e2));
  REQUIRE(std::abs(ComputePSubKeep(e2) - k) <= 1e-14L, "keep probability for epsilon " << e2);
  double any = (c.below(2001) - 1000.0) / 50;
  REQUIRE(std::abs(ComputePSubKeep(any) - std::exp((LD)any) / (1 + std::exp((LD)any))) <= 1e-14L, "keep probability for epsilon " << any);
  LD e1 = RefEps1(n, e2);
  REQUIRE(std::abs(ComputeEpsilon1((size_t)n, e2) - e1) <= 1e-12L * e1 + 1e-13L, "epsilon1(" << (size_t)n << ", " << e2 << ") = " << ComputeEpsilon1((size_t)n, e2) << ", expected " << (double)e1);
  // a total budget whose split lies inside the searched interval
  LD total = e1 + e2;
  LD lo = RefEps1(n, 2.5L) + 2.5L, hi = RefEps1(n, 4.0L) + 4.0L;
  if (!(total > lo + 1e-6L && total < hi - 1e-6L)) throw pbt::Discard{};
  double got = c.chance(1, 4) && RefEps1(n, 2.5L) + 2.5L < 4.0L && hi > 4.0L ? (total = 4.0L, ComputeEpsilon2((size_t)n)) : ComputeEpsilon2((size_t)n, (double)total);
  c.note() << " total=" << (double)total << " -> epsilon2=" << got;
  REQUIRE(got >= 2.5 && got <= 4.0, "epsilon2 " << got << " outside the searched interval");
  LD resid = total - got - RefEps1(n, got);
  REQUIRE(std::abs(resid) <= 1e-11L, "epsilon1 + epsilon2 misses the budget " << (double)total << " by " << (double)resid);
  c.nontrivial();
}

namespace {
// P[|Bin(n,p) - np| >= t] <= 2 exp(-2 t^2 / n); also exact for p = 0 or 1
bool Plausible(size_t got, size_t n, double p) {
  if (p <= 0) return got == 0;
  if (p >= 1) return got == n;
  if (got > n) return false;
  double t = std::abs((double)got - n * p);
  double var = n * p * (1 - p);
  // Bernstein: 2 exp(-t^2 / (2 (var + t/3))) < 1e-13
  return 2 * std::exp(-t * t / (2 * (var + t / 3) + 1e-9)) > 1e-13;
}
}  // namespace

PROP(dp_psi_laws, 60) {
  size_t big = c.chance(1, 8) ? 1500 : c.chance(1, 3) ? 300 : 40;
  size_t na = c.below(big + 1) + 1, nb = c.below(big + 1) + 1;
  int style = (int)c.below(tables::kStyles);
  size_t lo = c.below(3) == 0 ? 0 : c.below(na + 1);
  std::vector<std::string> a, b;
  for (size_t i = 0; i < na; ++i) a.push_back(tables::KeyVal(style, i));
  for (size_t i = 0; i < nb; ++i) b.push_back(tables::KeyVal(style, lo + i));
  auto shuffle = [&](std::vector<std::string>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.below(i)]); };
  if (big <= 400) { shuffle(a); shuffle(b); }
  std::set<std::string> as(a.begin(), a.end()), bs(b.begin(), b.end());
  if (as.size() != a.size() || bs.size() != b.size()) throw pbt::Discard{};
  double p1 = c.chance(1, 3) ? 1.0 : c.chance(1, 3) ? 0.9 : c.below(101) / 100.0;
  double eps = c.chance(1, 3) ? 60.0 : c.pick(std::vector<double>{0.0, 0.5, 1, 2, 3, 4, 5.5});
  auto curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_SM2, psi::CURVE_FOURQ});
  DpPsiOptions opt(p1, eps);
  double p2 = std::exp(eps) / (1 + std::exp(eps));
  REQUIRE(std::abs(opt.p2 - p2) < 1e-15 && std::abs(opt.q - (1 - p2)) < 1e-15 && opt.p1 == p1, "options p1 " << opt.p1 << " p2 " << opt.p2 << " q " << opt.q);
  c.note() << "alice " << na << " bob " << nb << " shift " << lo << " style " << style << " p1=" << p1 << " epsilon=" << eps << " curve " << (int)curve;
  auto links = parties::World(2);
  size_t a_sub = 777777777, a_up = 777777777, b_sub = 777777777, a_ret = 0;
  std::vector<size_t> idx;
  int arank = (int)c.below(2);
  std::vector<std::function<void(parties::Link)>> fns(2);
  fns[arank] = [&](parties::Link l) { a_ret = RunDpEcdhPsiAlice(opt, l, a, &a_sub, &a_up, curve); };
  fns[1 - arank] = [&](parties::Link l) { idx = RunDpEcdhPsiBob(opt, l, b, &b_sub, curve); };
  auto r = parties::Run(links, fns);
  REQUIRE(r.ok(), "DP PSI failed: " << r.all());
  size_t total = 0, kept = 0;
  for (auto& k : b) total += as.count(k);
  REQUIRE(a_ret == idx.size(), "alice reports " << a_ret << " items, bob got " << idx.size());
  for (size_t i = 0; i < idx.size(); ++i) {
    REQUIRE(idx[i] < nb, "index " << idx[i] << " of " << nb << " items");
    if (i) REQUIRE(idx[i - 1] < idx[i], "indexes are not strictly increasing");
    kept += as.count(b[idx[i]]);
  }
  REQUIRE(b_sub <= nb, "bob's sub-sample size");
  size_t bob_n = nb - b_sub;
  REQUIRE(Plausible(bob_n, nb, p1), "bob kept " << bob_n << " of " << nb << " items at rate " << p1);
  size_t up = idx.size() - kept;
  c.metric("items returned", idx.size());
  if (a_up == 777777777 && a_sub == 777777777) {
    // alice holds everything bob sent: the result is suppressed
    REQUIRE(idx.empty(), "sizes are not reported although there is a result");
    REQUIRE(total > 0 || bob_n == 0, "result suppressed although bob's sample has foreign items");
    REQUIRE(Plausible(bob_n, total, p1) || bob_n <= total, "suppressed");
    REQUIRE(bob_n <= total, "result suppressed although bob sent " << bob_n << " items and only " << total << " are common");
    c.label("suppressed");
    return;
  }
  REQUIRE(a_up == up, "alice reports " << a_up << " fake items, the result holds " << up);
  size_t inter = a_sub + kept;
  REQUIRE(inter <= std::min(total, bob_n), "alice saw " << inter << " common items of " << total);
  REQUIRE(Plausible(inter, total, p1), "bob's sample has " << inter << " of " << total << " common items at rate " << p1);
  REQUIRE(Plausible(kept, inter, opt.p2), "alice kept " << kept << " of " << inter << " common items at rate " << opt.p2);
  REQUIRE(bob_n > inter, "no foreign item although not suppressed");
  REQUIRE(Plausible(up, bob_n - inter, opt.q), "alice added " << up << " of " << bob_n - inter << " foreign items at rate " << opt.q);
  if (p1 == 1.0 && eps == 60.0) {
    REQUIRE(up == 0 && kept == total, "without sampling the result must be the intersection");
    c.label("exact");
  }
  if (kept && up) c.nontrivial();
}

// Results around the size of one index message.
PROP(dp_psi_batches, 120) {
  size_t n = 8192 * (1 + c.chance(1, 6)) + c.below(3) - 1, foreign = 1 + c.below(3);
  std::vector<std::string> a, b;
  for (size_t i = 0; i < n; ++i) a.push_back("u" + std::to_string(i));
  b = a;
  for (size_t i = 0; i < foreign; ++i) b.insert(b.begin() + c.below(b.size() + 1), "f" + std::to_string(i));
  std::set<std::string> as(a.begin(), a.end());
  auto curve = c.pick(std::vector<psi::CurveType>{psi::CURVE_25519, psi::CURVE_FOURQ});
  c.note() << "common " << n << " foreign " << foreign << " curve " << (int)curve;
  DpPsiOptions opt(1.0, 60.0);
  auto links = parties::World(2, 60000);
  size_t a_sub = 7, a_up = 7, b_sub = 7, a_ret = 0;
  std::vector<size_t> idx;
  auto r = parties::Run(links, {[&](parties::Link l) { a_ret = RunDpEcdhPsiAlice(opt, l, a, &a_sub, &a_up, curve); }, [&](parties::Link l) { idx = RunDpEcdhPsiBob(opt, l, b, &b_sub, curve); }});
  REQUIRE(r.ok(), "DP PSI failed: " << r.all());
  std::vector<size_t> want;
  for (size_t i = 0; i < b.size(); ++i) if (as.count(b[i])) want.push_back(i);
  REQUIRE(a_ret == n && a_sub == 0 && a_up == 0 && b_sub == 0, "sizes " << a_ret << " " << a_sub << " " << a_up << " " << b_sub);
  REQUIRE(idx == want, "the result differs from the intersection (" << idx.size() << " of " << want.size() << " indexes)");
  c.nontrivial();
}

DAMAGED(dp_psi_laws, 8, 2, 12)
