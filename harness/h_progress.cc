// Progress tree against a reference model, and under concurrent use.
#include <atomic>
#include <chrono>
#include <thread>
#include "pbt.h"
#include "psi/utils/progress.h"
using psi::Progress;
using Mode = Progress::Mode;

namespace {
struct Node {
  std::string desc;
  Mode mode = Mode::kSingle;
  std::vector<size_t> w;
  std::vector<std::unique_ptr<Node>> subs;
  size_t pct = 0;
  bool done = false;
  std::shared_ptr<Progress> real;

  void Finish() {
    if (done) return;
    if (mode != Mode::kSingle) for (auto& s : subs) s->Finish();
    pct = 100;
    done = true;
  }
  Progress::Data Get() const {
    Progress::Data d;
    if (mode == Mode::kSingle) {
      d.total = 1;
      d.finished = pct == 100;
      d.running = pct > 0 && pct < 100;
      d.percentage = pct;
      d.description = (desc.empty() ? "" : desc + ", ") + std::to_string(pct) + "%";
      return d;
    }
    // phases not started count as one job each
    d.total = w.size() - subs.size();
    __uint128_t sum = 0, tw = 0;
    for (auto x : w) tw += x;
    std::string active;
    bool have = false;
    for (size_t i = 0; i < subs.size(); ++i) {
      auto s = subs[i]->Get();
      d.total += s.total;
      d.finished += s.finished;
      d.running += s.running;
      sum += (__uint128_t)w[i] * s.percentage;
      if (!have && (!subs[i]->done || i + 1 == subs.size())) {
        active = s.description;
        have = !active.empty();
      }
    }
    d.percentage = tw == 0 ? (size_t)sum : (size_t)(sum / tw);
    if (mode == Mode::kParallel) active = std::to_string(d.running) + " jobs running (" + std::to_string(d.finished) + " / " + std::to_string(d.total) + ")";
    d.description = desc.empty() ? active : active.empty() ? desc : desc + ", " + active;
    return d;
  }
};

std::string Show(const Progress::Data& d) {
  return "total=" + std::to_string(d.total) + " finished=" + std::to_string(d.finished) + " running=" + std::to_string(d.running) + " pct=" + std::to_string(d.percentage) + " '" + d.description + "'";
}
bool Same(const Progress::Data& a, const Progress::Data& b) {
  return a.total == b.total && a.finished == b.finished && a.running == b.running && a.percentage == b.percentage && a.description == b.description;
}
std::string Desc(pbt::Ctx& c) {
  static const std::vector<std::string> d = {"", "Step", "a, b", "RunPsi", "\xe9\x98\xb6\xe6\xae\xb5", "{}", "%d 10%", "x"};
  return c.pick(d);
}
}  // namespace

PROP(progress_model, 20) {
  Node root;
  root.desc = c.flip() ? "" : Desc(c);
  root.real = std::make_shared<Progress>(root.desc);
  std::vector<Node*> all = {&root};
  size_t steps = 1 + c.below(40);
  size_t multi = 0;
  c.note() << "root '" << root.desc << "'";
  for (size_t k = 0; k < steps; ++k) {
    size_t ni = c.below(all.size());
    Node* n = all[ni];
    c.note() << "; #" << ni << ".";
    switch (c.below(8)) {
      case 0:
      case 1: {  // declare the phases, before any starts
        if (!n->subs.empty() || n->done) { c.note() << "-"; break; }
        Mode m = c.flip() ? Mode::kSerial : Mode::kParallel;
        if (c.flip()) {
          std::vector<size_t> w(1 + c.below(5));
          for (auto& x : w) x = c.chance(1, 5) ? 0 : c.chance(1, 5) ? 1 + c.below(1ull << 40) : 1 + c.below(100);
          size_t t = 0;
          for (auto x : w) t += x;
          if (!t) w[0] = 1;
          c.note() << "SetWeights(";
          for (auto x : w) c.note() << x << " ";
          c.note() << (m == Mode::kSerial ? "serial)" : "parallel)");
          n->w = w;
          n->mode = m;
          if (m == Mode::kSerial && c.flip()) n->real->SetWeights(w); else n->real->SetWeights(w, m);
        } else {
          size_t cnt = 1 + c.below(6);
          c.note() << "SetSubJobCount(" << cnt << (m == Mode::kSerial ? " serial)" : " parallel)");
          n->w.resize(cnt, 1);
          n->mode = m;
          size_t t = 0;
          for (auto x : n->w) t += x;
          if (!t) throw pbt::Discard{};
          if (m == Mode::kParallel && c.flip()) n->real->SetSubJobCount(cnt); else n->real->SetSubJobCount(cnt, m);
        }
        ++multi;
        break;
      }
      case 2:
      case 3: {
        if (n->mode == Mode::kSingle || n->subs.size() >= n->w.size() || n->done) { c.note() << "-"; break; }
        bool next = c.flip();
        auto s = std::make_unique<Node>();
        s->desc = Desc(c);
        if (next && !n->subs.empty()) n->subs.back()->Finish();
        c.note() << (next ? "Next('" : "Add('") << s->desc << "')=#" << all.size();
        bool dflt = s->desc.empty() && c.flip();
        s->real = next ? (dflt ? n->real->NextSubProgress() : n->real->NextSubProgress(s->desc)) : (dflt ? n->real->AddSubProgress() : n->real->AddSubProgress(s->desc));
        REQUIRE(s->real != nullptr, "no sub progress returned");
        all.push_back(s.get());
        n->subs.push_back(std::move(s));
        break;
      }
      case 4:
      case 5:
      case 6: {
        if (n->done) { c.note() << "-"; break; }
        size_t p = c.chance(1, 6) ? c.pick(std::vector<size_t>{0, 1, 99, 100, 101, 1000, ~0ull}) : c.below(101);
        c.note() << "Update(" << p << ")";
        n->real->Update(p);
        n->pct = std::min<size_t>(p, 100);
        break;
      }
      default:
        if (c.chance(1, 2)) { c.note() << "-"; break; }
        c.note() << "Done";
        n->real->Done();
        n->Finish();
        break;
    }
    for (size_t i = 0; i < all.size(); ++i) {
      auto got = all[i]->real->Get(), want = all[i]->Get();
      REQUIRE(Same(got, want), "node #" << i << " reports " << Show(got) << ", expected " << Show(want));
      REQUIRE(all[i]->real->IsDone() == all[i]->done, "node #" << i << " IsDone is " << !all[i]->done);
      REQUIRE(got.percentage <= 100, "percentage " << got.percentage);
      REQUIRE(got.finished + got.running <= got.total, "job counts " << Show(got));
    }
  }
  c.metric("nodes", all.size());
  if (multi && all.size() > 2) c.nontrivial();
  if (all.size() > 1 && multi > 1) c.label("nested");
}

// Readers see a consistent, never receding state while workers advance.
PROP(progress_concurrent, 60) {
  int shape = (int)c.below(3);
  size_t phases = 1 + c.below(4), steps = 1 + c.below(30), readers = 1 + c.below(3);
  auto root = std::make_shared<Progress>(c.flip() ? "" : "task");
  std::vector<size_t> w(phases);
  for (auto& x : w) x = 1 + c.below(50);
  std::vector<size_t> subjobs(phases);
  for (auto& x : subjobs) x = c.below(4);
  bool root_done = c.flip();
  c.note() << "shape " << shape << " phases " << phases << " steps " << steps << " readers " << readers;
  c.label(shape == 0 ? "serial phases" : shape == 1 ? "parallel jobs" : "phases with parallel jobs");
  if (shape == 1) root->SetSubJobCount(phases); else root->SetWeights(w);
  std::atomic<bool> stop{false};
  std::vector<std::string> err(readers);
  std::atomic<size_t> distinct{0};
  std::vector<std::thread> rs;
  for (size_t r = 0; r < readers; ++r)
    rs.emplace_back([&, r] {
      size_t last = 0, lastf = 0;
      std::set<size_t> seen;
      bool fin = false;
      do {
        fin = stop.load();
        bool was_done = root->IsDone();
        auto d = root->Get();
        seen.insert(d.percentage);
        if (d.percentage > 100) err[r] = "percentage " + std::to_string(d.percentage);
        if (d.percentage < last) err[r] = "percentage fell from " + std::to_string(last) + " to " + std::to_string(d.percentage);
        if (d.finished < lastf) err[r] = "finished jobs fell from " + std::to_string(lastf) + " to " + std::to_string(d.finished);
        if (d.finished + d.running > d.total) err[r] = "job counts " + Show(d);
        if (was_done && d.percentage != 100) err[r] = "done, but the percentage is " + std::to_string(d.percentage);
        last = d.percentage;
        lastf = d.finished;
        std::this_thread::sleep_for(std::chrono::microseconds(r * 20));
      } while (!fin);
      distinct += seen.size();
    });
  auto work = [&](const std::shared_ptr<Progress>& p) {
    for (size_t i = 0; i <= steps; ++i) {
      p->Update(100 * i / steps);
      if (i % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(10)); else std::this_thread::yield();
    }
  };
  auto fan = [&](const std::shared_ptr<Progress>& p, size_t n, bool declare) {
    if (declare) p->SetSubJobCount(n);
    std::vector<std::thread> ts;
    for (size_t j = 0; j < n; ++j)
      ts.emplace_back([&, j] {
        auto s = p->AddSubProgress("job" + std::to_string(j));
        work(s);
        s->Done();
      });
    for (auto& t : ts) t.join();
  };
  if (shape == 1) {
    fan(root, phases, false);
  } else {
    for (size_t i = 0; i < phases; ++i) {
      auto s = root->NextSubProgress("phase" + std::to_string(i));
      if (shape == 2 && subjobs[i]) fan(s, subjobs[i], true); else work(s);
      if (i + 1 == phases && !root_done) s->Done();
    }
  }
  if (root_done) root->Done();
  stop = true;
  for (auto& t : rs) t.join();
  for (auto& e : err) REQUIRE(e.empty(), "a reader saw: " << e);
  auto d = root->Get();
  REQUIRE(d.percentage == 100 && d.finished == d.total && d.running == 0, "after the end: " << Show(d));
  if (distinct > 2 * readers) c.nontrivial();
}
