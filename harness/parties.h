// Runs the parties of a protocol as threads over one in-memory world.
#pragma once
#include <spdlog/spdlog.h>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "pbt.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/test_util.h"

namespace parties {
using Link = std::shared_ptr<yacl::link::Context>;

struct Result {
  std::vector<std::string> err;  // "" = finished
  bool ok() const { for (auto& e : err) if (!e.empty()) return false; return true; }
  std::string all() const {
    std::string s;
    for (size_t i = 0; i < err.size(); ++i) s += "party" + std::to_string(i) + ": " + (err[i].empty() ? "ok" : err[i]) + "; ";
    return s;
  }
};

inline Result Run(const std::vector<Link>& links, const std::vector<std::function<void(Link)>>& fns) {
  Result r;
  r.err.resize(fns.size());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < fns.size(); ++i)
    ts.emplace_back([&, i] {
      try {
        fns[i](links[i]);
      } catch (const std::exception& e) {
        r.err[i] = std::string("E:") + e.what();
        links[i]->ShimWorld().Kill(i);
      } catch (...) {
        r.err[i] = "E:unknown";
        links[i]->ShimWorld().Kill(i);
      }
    });
  for (auto& t : ts) t.join();
  return r;
}
// What is done to every new world (wire.h), and the longest wait in it.
inline std::function<void(const std::vector<Link>&)>& OnWorld() { static std::function<void(const std::vector<Link>&)> f; return f; }
inline std::vector<Link> World(size_t n, uint64_t timeout_ms = 20000) {
  auto w = yacl::link::test::SetupWorld(n);
  for (auto& l : w) l->SetRecvTimeout(timeout_ms);
  if (OnWorld()) OnWorld()(w);
  return w;
}
inline void Quiet() {
  static bool once = [] { spdlog::set_level(getenv("PBT_LOG") ? spdlog::level::info : spdlog::level::off); return true; }();
  (void)once;
}
}  // namespace parties
