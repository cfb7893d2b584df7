// Runs a property's scenario with one message damaged on its way. Whatever the
// parties then make of it, they stay within their buffers (sanitizers). Replaces operator new: include it from one file of a harness.
#pragma once
#include <sys/resource.h>
#include <atomic>
#include <csignal>
#include <new>
#include "parties.h"
#include "psi/utils/resource_manager.h"

// A damaged length must not be able to exhaust the sandbox: large requests fail
// the way they do on a machine without the memory.
static constexpr size_t kMaxAlloc = size_t(1) << 30;
static void* Alloc(size_t n) {
  if (n > kMaxAlloc) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > kMaxAlloc ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > kMaxAlloc ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace wire {
struct Damage {
  size_t at, kind;
  uint64_t a, b;
};
inline void Apply(const Damage& d, std::string& p) {
  switch (d.kind) {
    case 0: if (!p.empty()) p[d.a % p.size()] ^= (char)(1 << (d.b % 8)); break;
    case 1: p.resize(p.size() ? d.a % p.size() : 0); break;
    case 2: p.append((size_t)(1 + d.a % 64), (char)d.b); break;
    case 3: p.clear(); break;
    case 4: if (!p.empty()) { size_t i = d.a % p.size(), n = 1 + d.b % 16; for (size_t k = i; k < p.size() && k < i + n; ++k) p[k] = (char)(d.b >> (k % 7)); } break;
    case 5: p += p; break;
    case 6: if (p.size() > 1) p.erase(d.a % p.size(), 1 + d.b % 40); break;
    default: { uint64_t s = d.a; for (auto& ch : p) { s = s * 6364136223846793005ULL + d.b; ch = (char)(s >> 56); } }
  }
}
template <class F>
void Damaged(pbt::Ctx& c, F body, size_t ranks = 2, size_t messages = 30, uint64_t timeout_ms = 800) {
  Damage d{c.flip() ? c.below(std::min<size_t>(messages, 5)) : c.below(messages), c.below(8), c.u64(), c.u64()};
  size_t src = c.below(ranks);
  // Nor may a damaged count fill the disk.
  signal(SIGXFSZ, SIG_IGN);
  rlimit lim{64u << 20, 64u << 20};
  setrlimit(RLIMIT_FSIZE, &lim);
  std::atomic<size_t> n{0}, len{0};
  std::atomic<bool> hit{false};
  parties::OnWorld() = [&](const std::vector<parties::Link>& w) {
    w[0]->ShimWorld().longest_wait_ms = timeout_ms;
    w[0]->ShimWorld().tamper = [&](size_t s, size_t, std::string& m) {
      if (s != src || n++ != d.at) return;
      hit = true;
      len = m.size();
      Apply(d, m);
    };
  };
  std::string how = "as if undamaged";
  try {
    body(c);
  } catch (const pbt::Discard&) {
    how = "discarded";
  } catch (const pbt::Violation& v) {
    how = std::string("noticed: ") + v.what();
  } catch (const std::exception& e) {
    how = std::string("thrown: ") + e.what();
  }
  parties::OnWorld() = nullptr;
  psi::ResourceManager::GetInstance().RemoveAllResource();
  c.note() << "\nmessage " << d.at << " of rank " << src << ": damage " << d.kind << " " << d.a << " " << d.b << " of " << len << " bytes: " << how.substr(0, 300);
  c.label(!hit ? "not reached" : how.substr(0, 7));
  c.nontrivial(hit);
}
}  // namespace wire
// A damaged count may keep a run busy for longer than a test can wait; such a
// case is set aside, it is only judged by what it reads and writes.
#define DAMAGED(NAME, TIMEOUT, ...)                                                                 \
  static void damaged_##NAME(pbt::Ctx& c) { wire::Damaged(c, prop_##NAME, ##__VA_ARGS__); }         \
  static pbt::Reg reg_damaged_##NAME(#NAME "_damaged", damaged_##NAME, TIMEOUT, /*slow_ok=*/true);
