// parallel_for / parallel_reduce with yacl's chunking contract: the functor is
// called on disjoint sub-ranges covering [begin,end).
#pragma once
#include <algorithm>
#include <cstdint>
#include <exception>
#include <functional>
#include <future>
#include <mutex>
#include <thread>
#include <vector>
namespace yacl {
namespace shim {
int ParallelThreads();      // current setting
void SetParallelThreads(int n);
}  // namespace shim
inline int get_num_threads() { return shim::ParallelThreads(); }
inline void set_num_threads(int n) { shim::SetParallelThreads(n); }
inline void init_num_threads() {}
inline int get_thread_num() { return 0; }
inline bool in_parallel_region() { return false; }
inline int64_t divup(int64_t x, int64_t y) { return (x + y - 1) / y; }

template <typename F>
void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) {
  if (begin >= end) return;
  int64_t n = end - begin;
  int64_t th = shim::ParallelThreads();
  if (grain > 0) th = std::min<int64_t>(th, divup(n, grain));
  th = std::min<int64_t>(th, n);
  if (th <= 1) {
    f(begin, end);
    return;
  }
  int64_t chunk = divup(n, th);
  std::vector<std::thread> ts;
  std::exception_ptr ep;
  std::mutex mu;
  for (int64_t t = 1; t < th; ++t) {
    int64_t b = begin + t * chunk, e = std::min(end, b + chunk);
    if (b >= e) break;
    ts.emplace_back([&, b, e] {
      try {
        f(b, e);
      } catch (...) {
        std::lock_guard<std::mutex> g(mu);
        if (!ep) ep = std::current_exception();
      }
    });
  }
  try {
    f(begin, std::min(end, begin + chunk));
  } catch (...) {
    std::lock_guard<std::mutex> g(mu);
    if (!ep) ep = std::current_exception();
  }
  for (auto& t : ts) t.join();
  if (ep) std::rethrow_exception(ep);
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, const F& f) {
  parallel_for(begin, end, 1, f);
}
template <typename R, typename F, typename S>
R parallel_reduce(int64_t begin, int64_t end, int64_t grain, const F& f,
                  const S& sf) {
  int64_t th = std::max<int64_t>(1, std::min<int64_t>(shim::ParallelThreads(), end - begin));
  int64_t chunk = std::max<int64_t>(std::max<int64_t>(grain, 1), divup(end - begin, th));
  R acc = f(begin, std::min(end, begin + chunk));
  for (int64_t b = begin + chunk; b < end; b += chunk)
    acc = sf(acc, f(b, std::min(end, b + chunk)));
  return acc;
}
template <typename R, typename F, typename S>
R parallel_reduce(int64_t begin, int64_t end, const F& f, const S& sf) {
  return parallel_reduce<R>(begin, end, 1, f, sf);
}
}  // namespace yacl
