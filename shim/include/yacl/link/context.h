// In-memory link with yacl::link::Context semantics:
//  * point-to-point messages between (src,dst) in one context are delivered in
//    FIFO order (tags are diagnostics only, exactly as in yacl);
//  * Spawn()/SubWorld() derive child contexts whose ids must be derived in the
//    same order by all members;
//  * collectives are keyed by the per-context collective counter.
// Extensions for the harness: shim::World can kill a rank (its peers then see
// IoError once drained), count link events and inject a fault at the n-th one.
#pragma once
#include <future>
#include <fcntl.h>
#include <unistd.h>
#include "yacl/utils/scope_guard.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

namespace yacl::link {
constexpr size_t kAllRank = std::numeric_limits<size_t>::max();

struct RetryOptions {};
struct SSLOptions {};
struct ContextDesc {
  struct Party {
    std::string id;
    std::string host;
    Party() = default;
    Party(std::string i, std::string h) : id(std::move(i)), host(std::move(h)) {}
    bool operator==(const Party& p) const { return id == p.id && host == p.host; }
  };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30 * 1000;
  uint32_t http_max_payload_size = 1024 * 1024;
  uint32_t http_timeout_ms = 20 * 1000;
  uint32_t throttle_window_size = 10;
  std::string brpc_channel_protocol = "baidu_std";
  bool operator==(const ContextDesc& o) const { return id == o.id && parties == o.parties; }
};

struct Statistics {
  std::atomic<size_t> sent_actions = 0U, sent_bytes = 0U, recv_actions = 0U, recv_bytes = 0U;
};

namespace shim {
struct World {
  std::mutex mu;
  std::condition_variable cv;
  std::map<std::string, std::deque<Buffer>> q;
  std::set<size_t> dead;
  // Called (outside the lock) for every link operation: (rank, op, seq).
  std::function<void(size_t rank, const char* op)> hook;
  uint64_t default_timeout_ms = 60000;
  std::atomic<uint64_t> timeouts{0};
  // throttle emulation: 0 = unlimited
  size_t throttle = 0;
  std::map<std::pair<size_t, size_t>, std::pair<uint64_t, uint64_t>> flow;  // sent, consumed
  // May change a message on its way (not those of the OT and VOLE stand-ins).
  std::function<void(size_t src, size_t dst, std::string& payload)> tamper;
  uint64_t longest_wait_ms = UINT64_MAX;  // caps every receive timeout
  bool record = false;
  std::vector<std::tuple<size_t, size_t, std::string>> log;  // src,dst,payload
  void Kill(size_t rank) {
    std::lock_guard<std::mutex> g(mu);
    dead.insert(rank);
    cv.notify_all();
  }
};
}  // namespace shim

class Context {
 public:
  Context(ContextDesc desc, size_t rank, std::shared_ptr<shim::World> w,
          std::vector<size_t> global_ranks);
  std::string Id() const { return desc_.id; }
  size_t WorldSize() const { return gr_.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t stride = 1) const { return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize(); }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % WorldSize(); }
  std::string PartyIdByRank(size_t r) const { return desc_.parties.at(r).id; }
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix, const std::vector<std::string>& party_ids);
  void ConnectToMesh() {}
  void WaitLinkTaskFinish() {}
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) { SendAsync(dst, ByteContainerView(v), tag); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { SendAsyncThrottled(dst, ByteContainerView(v), tag); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag);
  Buffer Recv(size_t src, std::string_view tag);
  void SetThrottleWindowSize(size_t n) { (void)n; }
  void SetRecvTimeout(uint64_t ms) { timeout_ms_ = ms; }
  uint64_t GetRecvTimeout() const { return timeout_ms_; }
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  std::string NextId() { return desc_.id + ":" + std::to_string(++counter_); }
  // keyed (collective) messages
  void SendInternal(size_t dst, const std::string& key, ByteContainerView v);
  void SendAsyncInternal(size_t dst, const std::string& key, ByteContainerView v) { SendInternal(dst, key, v); }
  Buffer RecvInternal(size_t src, const std::string& key);
  shim::World& ShimWorld() { return *w_; }
  const ContextDesc& desc() const { return desc_; }

 private:
  void Event(const char* op);
  ContextDesc desc_;
  size_t rank_;
  std::shared_ptr<shim::World> w_;
  std::vector<size_t> gr_;  // rank -> global rank
  std::atomic<uint64_t> counter_{0};
  std::atomic<uint64_t> child_{0};
  uint64_t timeout_ms_;
  std::shared_ptr<Statistics> stats_ = std::make_shared<Statistics>();
};

class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint32_t ms) : c_(std::move(c)), old_(c_->GetRecvTimeout()) { c_->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> c_;
  uint64_t old_;
};

Buffer ShimDummy();
}  // namespace yacl::link
