#include "yacl/link/link.h"
#include "yacl/link/test_util.h"
#include "yacl/utils/parallel.h"
#include "yacl/utils/platform_utils.h"

namespace yacl {
namespace shim {
bool g_ifma = false;
static std::atomic<int> g_threads{2};
int ParallelThreads() { return g_threads; }
void SetParallelThreads(int n) { g_threads = n < 1 ? 1 : n; }
}  // namespace shim
}  // namespace yacl

namespace yacl::link {

Context::Context(ContextDesc desc, size_t rank, std::shared_ptr<shim::World> w,
                 std::vector<size_t> gr)
    : desc_(std::move(desc)), rank_(rank), w_(std::move(w)), gr_(std::move(gr)),
      timeout_ms_(w_->default_timeout_ms) {
  YACL_ENFORCE(rank_ < gr_.size());
}

void Context::Event(const char* op) {
  if (w_->hook) w_->hook(gr_[rank_], op);
  std::lock_guard<std::mutex> g(w_->mu);
  if (w_->dead.count(gr_[rank_])) throw LinkAborted("link: self rank is dead");
}

std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  ContextDesc d = desc_;
  d.id = desc_.id + "-" + (id.empty() ? std::to_string(child_++) : id);
  auto c = std::make_unique<Context>(d, rank_, w_, gr_);
  c->timeout_ms_ = timeout_ms_;
  return c;
}

std::unique_ptr<Context> Context::SubWorld(std::string_view suffix,
                                           const std::vector<std::string>& ids) {
  YACL_ENFORCE(WorldSize() >= ids.size());
  ContextDesc d = desc_;
  d.id = desc_.id + "-" + std::string(suffix);
  d.parties.clear();
  std::vector<size_t> gr;
  size_t nr = static_cast<size_t>(-1);
  for (const auto& pid : ids) {
    size_t i = 0;
    for (; i < desc_.parties.size(); ++i)
      if (desc_.parties[i].id == pid) break;
    YACL_ENFORCE(i < desc_.parties.size(), "party {} not in world", pid);
    if (i == rank_) nr = gr.size();
    gr.push_back(gr_[i]);
    d.parties.push_back(desc_.parties[i]);
  }
  YACL_ENFORCE(nr != static_cast<size_t>(-1), "self not in sub world");
  auto c = std::make_unique<Context>(d, nr, w_, gr);
  c->timeout_ms_ = timeout_ms_;
  return c;
}

// Traffic of the stand-ins for OT and VOLE is not that of the real primitives
// and is left out of recordings.
static thread_local bool tl_stand_in = false;

void Context::SendInternal(size_t dst, const std::string& key, ByteContainerView v) {
  YACL_ENFORCE(dst < WorldSize() && dst != rank_, "rank={} dst_rank={}", rank_, dst);
  Event("send");
  std::lock_guard<std::mutex> g(w_->mu);
  if (w_->dead.count(gr_[dst])) throw LinkAborted("link: peer is dead");
  stats_->sent_actions++;
  stats_->sent_bytes += v.size();
  if (w_->record && !tl_stand_in)
    w_->log.emplace_back(gr_[rank_], gr_[dst], std::string(reinterpret_cast<const char*>(v.data()), v.size()));
  w_->q[key + "|" + std::to_string(gr_[rank_]) + ">" + std::to_string(gr_[dst])]
      .emplace_back(v.data(), v.size());
  if (w_->tamper && !tl_stand_in) {
    std::string p(reinterpret_cast<const char*>(v.data()), v.size());
    w_->tamper(gr_[rank_], gr_[dst], p);
    auto& q = w_->q[key + "|" + std::to_string(gr_[rank_]) + ">" + std::to_string(gr_[dst])];
    q.pop_back();
    q.emplace_back(p.data(), p.size());
  }
  w_->cv.notify_all();
}

Buffer Context::RecvInternal(size_t src, const std::string& key) {
  YACL_ENFORCE(src < WorldSize() && src != rank_, "rank={} src_rank={}", rank_, src);
  Event("recv");
  std::unique_lock<std::mutex> lk(w_->mu);
  auto k = key + "|" + std::to_string(gr_[src]) + ">" + std::to_string(gr_[rank_]);
  auto ready = [&] {
    auto it = w_->q.find(k);
    return (it != w_->q.end() && !it->second.empty()) || w_->dead.count(gr_[src]) ||
           w_->dead.count(gr_[rank_]);
  };
  if (!w_->cv.wait_for(lk, std::chrono::milliseconds(std::min<uint64_t>(timeout_ms_, w_->longest_wait_ms)), ready)) {
    w_->timeouts++;
    throw IoError("link: recv timeout");
  }
  if (w_->dead.count(gr_[rank_])) throw LinkAborted("link: self rank is dead");
  auto it = w_->q.find(k);
  if (it == w_->q.end() || it->second.empty()) throw LinkAborted("link: peer is dead");
  Buffer b = std::move(it->second.front());
  it->second.pop_front();
  if (it->second.empty()) w_->q.erase(it);
  stats_->recv_actions++;
  stats_->recv_bytes += b.size();
  return b;
}

void Context::SendAsync(size_t dst, ByteContainerView v, std::string_view tag) {
  tl_stand_in = tag.substr(0, 5) == "shim-";
  SendInternal(dst, desc_.id + ":P2P", v);
  tl_stand_in = false;
}
void Context::SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view) { SendInternal(dst, desc_.id + ":P2P", v); }
void Context::Send(size_t dst, ByteContainerView v, std::string_view) { SendInternal(dst, desc_.id + ":P2P", v); }
Buffer Context::Recv(size_t src, std::string_view) { return RecvInternal(src, desc_.id + ":P2P"); }

void Barrier(const std::shared_ptr<Context>& ctx, std::string_view) {
  auto e = ctx->NextId() + ":BARRIER";
  for (size_t i = 0; i < ctx->WorldSize(); ++i)
    if (i != ctx->Rank()) ctx->SendInternal(i, e, "");
  for (size_t i = 0; i < ctx->WorldSize(); ++i)
    if (i != ctx->Rank()) ctx->RecvInternal(i, e);
}

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView input, std::string_view) {
  auto e = ctx->NextId() + ":ALLGATHER";
  for (size_t i = 0; i < ctx->WorldSize(); ++i)
    if (i != ctx->Rank()) ctx->SendInternal(i, e, input);
  std::vector<Buffer> r(ctx->WorldSize());
  for (size_t i = 0; i < ctx->WorldSize(); ++i)
    r[i] = i == ctx->Rank() ? Buffer(input.data(), input.size()) : ctx->RecvInternal(i, e);
  return r;
}
std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& inputs, std::string_view tag) {
  std::vector<std::vector<Buffer>> r;
  for (const auto& in : inputs) r.push_back(AllGather(ctx, in, tag));
  return r;
}
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView input, size_t root, std::string_view) {
  auto e = ctx->NextId() + ":BCAST";
  if (ctx->Rank() == root) {
    for (size_t i = 0; i < ctx->WorldSize(); ++i)
      if (i != root) ctx->SendInternal(i, e, input);
    return Buffer(input.data(), input.size());
  }
  return ctx->RecvInternal(root, e);
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView input, size_t root, std::string_view) {
  auto e = ctx->NextId() + ":GATHER";
  std::vector<Buffer> r;
  if (ctx->Rank() == root) {
    r.resize(ctx->WorldSize());
    for (size_t i = 0; i < ctx->WorldSize(); ++i)
      r[i] = i == root ? Buffer(input.data(), input.size()) : ctx->RecvInternal(i, e);
  } else {
    ctx->SendInternal(root, e, input);
  }
  return r;
}
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& inputs, size_t root, std::string_view) {
  auto e = ctx->NextId() + ":SCATTER";
  if (ctx->Rank() == root) {
    for (size_t i = 0; i < ctx->WorldSize(); ++i)
      if (i != root) ctx->SendInternal(i, e, inputs[i]);
    return Buffer(inputs[root].data(), inputs[root].size());
  }
  return ctx->RecvInternal(root, e);
}

std::shared_ptr<Context> ILinkFactory::CreateContext(const ContextDesc& desc, size_t self_rank) {
  static std::mutex mu;
  static std::map<std::string, std::weak_ptr<shim::World>> worlds;
  std::string key = desc.id;
  for (const auto& p : desc.parties) key += "|" + p.id + "@" + p.host;
  std::lock_guard<std::mutex> g(mu);
  auto w = worlds[key].lock();
  if (!w) {
    w = std::make_shared<shim::World>();
    worlds[key] = w;
  }
  std::vector<size_t> gr(desc.parties.size());
  for (size_t i = 0; i < gr.size(); ++i) gr[i] = i;
  return std::make_shared<Context>(desc, self_rank, w, gr);
}
}  // namespace yacl::link

namespace yacl::link::test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  auto w = std::make_shared<link::shim::World>();
  ContextDesc d;
  d.id = id;
  std::vector<size_t> gr;
  for (size_t i = 0; i < n; ++i) {
    d.parties.emplace_back("id-" + std::to_string(i), "host-" + std::to_string(i));
    gr.push_back(i);
  }
  std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; ++i) r.push_back(std::make_shared<Context>(d, i, w, gr));
  return r;
}
}  // namespace yacl::link::test
