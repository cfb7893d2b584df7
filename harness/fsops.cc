#include "fsops.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <mutex>
namespace fsops {
std::atomic<long> count{0}, exit_at{-1}, torn{0};
std::atomic<bool> armed{false};
std::shared_mutex freeze;
static bool Due() {
  if (!armed.load()) return false;
  long k = count.fetch_add(1);
  return k == exit_at.load();
}
}  // namespace fsops
using namespace fsops;
static thread_local int depth = 0;
struct Guard {
  bool on;
  Guard() : on(armed.load() && depth == 0) { ++depth; if (on) freeze.lock_shared(); }
  ~Guard() { --depth; if (on) freeze.unlock_shared(); }
};
extern "C" {
__attribute__((visibility("default"))) ssize_t write(int fd, const void* b, size_t n) {
  if (fd > 2 && armed.load()) {
    Guard g;
    if (Due()) {
      size_t m = n * torn.load() / 100;
      if (m) syscall(SYS_write, fd, b, m);
      _exit(42);
    }
    return syscall(SYS_write, fd, b, n);
  }
  return syscall(SYS_write, fd, b, n);
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd > 2 && armed.load()) {
    Guard g;
    if (Due()) {
      size_t all = 0;
      for (int i = 0; i < c; ++i) all += v[i].iov_len;
      size_t m = all * torn.load() / 100;
      for (int i = 0; i < c && m; ++i) {
        size_t k = m < v[i].iov_len ? m : v[i].iov_len;
        syscall(SYS_write, fd, v[i].iov_base, k);
        m -= k;
      }
      _exit(42);
    }
    return syscall(SYS_writev, fd, v, c);
  }
  return syscall(SYS_writev, fd, v, c);
}
__attribute__((visibility("default"))) int rename(const char* a, const char* b) {
  Guard g;
  if (Due()) _exit(42);
  return (int)syscall(SYS_rename, a, b);
}
__attribute__((visibility("default"))) FILE* fopen64(const char* p, const char* m) {
  static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  if (armed.load() && (m[0] == 'w' || m[0] == 'a')) {
    Guard g;
    if (Due()) _exit(42);
    return real(p, m);
  }
  return real(p, m);
}
__attribute__((visibility("default"))) FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
}
