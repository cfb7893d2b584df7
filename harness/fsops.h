// Counts, and can stop the process or freeze threads at, file-system effects
// made through the C library (open for writing, write, rename).
#pragma once
#include <atomic>
#include <functional>
#include <shared_mutex>
namespace fsops {
extern std::atomic<long> count;      // effects so far
extern std::atomic<long> exit_at;    // _exit(42) instead of effect number n (>=0); -1 off
extern std::atomic<long> torn;       // when exiting inside a write: write this many per cent first
extern std::atomic<bool> armed;
extern std::shared_mutex freeze;     // held exclusively while a snapshot is taken
}  // namespace fsops
