#include "yacl/link/context.h"
#include <thread>
#include <cstdlib>
#include "sim/sim.h"
namespace yacl::link {
ContextDesc::ContextDesc(const ContextDescProto& pb) {
  if (!pb.id().empty()) id = pb.id();
  for (auto& p : pb.parties()) parties.emplace_back(p);
  if (pb.connect_retry_times()) connect_retry_times = pb.connect_retry_times();
  if (pb.connect_retry_interval_ms()) connect_retry_interval_ms = pb.connect_retry_interval_ms();
  if (pb.recv_timeout_ms()) recv_timeout_ms = pb.recv_timeout_ms();
  if (pb.throttle_window_size()) throttle_window_size = pb.throttle_window_size();
}
Context::Context(ContextDesc desc, size_t rank, std::vector<int> nodes)
    : desc_(std::move(desc)), rank_(rank), nodes_(std::move(nodes)), root_(desc_.id),
      recv_timeout_ms_(desc_.recv_timeout_ms), window_(desc_.throttle_window_size) {
  size_t n = desc_.parties.size();
  YACL_ENFORCE(rank_ < n, "rank {} out of range", rank_);
  if (nodes_.empty()) for (size_t i = 0; i < n; ++i) {
    const auto& h = desc_.parties[i].host;
    nodes_.push_back(!h.empty() && h[0] == 'n' ? atoi(h.c_str() + 1) : (int)i);
  }
  p2p_.resize(n);
  for (auto& r : p2p_) for (size_t i = 0; i < n; ++i) r.push_back(std::make_unique<std::atomic<size_t>>(0));
}
std::string Context::Id() const { return desc_.id; }
size_t Context::WorldSize() const { return desc_.parties.size(); }
size_t Context::Rank() const { return rank_; }
size_t Context::PrevRank(size_t s) const { return (rank_ + WorldSize() - s % WorldSize()) % WorldSize(); }
size_t Context::NextRank(size_t s) const { return (rank_ + s) % WorldSize(); }
uint64_t Context::Chan(size_t s, size_t d) const {
  std::string k = root_ + "/" + std::to_string(nodes_[s]) + ">" + std::to_string(nodes_[d]);
  return sim::Hash64(k.data(), k.size());
}
std::string Context::NextP2PId(size_t s, size_t d) {
  return fmt::format("P2P-{}:{}->{}", ++*p2p_[s][d], s, d);
}
std::string Context::NextId() { return fmt::format("{}:C-{}", desc_.id, ++counter_); }
uint64_t Context::RawSend(size_t dst, const std::string& key, const void* p, size_t n) {
  YACL_ENFORCE(dst < WorldSize(), "dst {} out of range", dst);
  uint64_t c = Chan(rank_, dst);
  sim::NetSend(nodes_[dst], c, key, p, n);
  return sim::NetChanSent(c);
}
void Context::SendAsync(size_t d, ByteContainerView v, std::string_view) { RawSend(d, desc_.id + ":" + NextP2PId(rank_, d), v.data(), v.size()); }
void Context::SendAsync(size_t d, Buffer&& v, std::string_view t) { SendAsync(d, ByteContainerView(v), t); }
void Context::SendAsyncThrottled(size_t d, ByteContainerView v, std::string_view) {
  uint64_t seq = RawSend(d, desc_.id + ":" + NextP2PId(rank_, d), v.data(), v.size());
  if (window_ && !sim::NetThrottle(Chan(rank_, d), seq, window_, recv_timeout_ms_))
    throw IoError("Throttle window wait timeout");
}
void Context::SendAsyncThrottled(size_t d, Buffer&& v, std::string_view t) { SendAsyncThrottled(d, ByteContainerView(v), t); }
void Context::Send(size_t d, ByteContainerView v, std::string_view) {
  uint64_t seq = RawSend(d, desc_.id + ":" + NextP2PId(rank_, d), v.data(), v.size());
  if (!sim::NetWaitDelivered(nodes_[d], Chan(rank_, d), seq, recv_timeout_ms_))
    throw NetworkError("send, rpc failed");
}
Buffer Context::RecvInternal(size_t s, const std::string& key) {
  YACL_ENFORCE(s < WorldSize(), "src {} out of range", s);
  std::string out;
  if (!sim::NetRecv(nodes_[s], Chan(s, rank_), key, &out, recv_timeout_ms_))
    throw IoError(fmt::format("Get data timeout, key={}", key));
  return Buffer(out);
}
Buffer Context::Recv(size_t s, std::string_view) { return RecvInternal(s, desc_.id + ":" + NextP2PId(s, rank_)); }
void Context::SendAsyncInternal(size_t d, const std::string& key, ByteContainerView v) { RawSend(d, key, v.data(), v.size()); }
void Context::ConnectToMesh(int) {
  uint64_t saved = recv_timeout_ms_;
  recv_timeout_ms_ = (uint64_t)desc_.connect_retry_times * desc_.connect_retry_interval_ms;
  try {
    for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_)
      RawSend(i, fmt::format("{}:connect:{}->{}", desc_.id, rank_, i), "c", 1);
    for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_)
      RecvInternal(i, fmt::format("{}:connect:{}->{}", desc_.id, i, rank_));
  } catch (...) {
    recv_timeout_ms_ = saved;
    throw NetworkError("connect to mesh failed");
  }
  recv_timeout_ms_ = saved;
}
std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  ContextDesc d = desc_;
  d.id = id.empty() ? fmt::format("{}-{}", desc_.id, child_counter_++) : fmt::format("{}-{}", desc_.id, id);
  d.recv_timeout_ms = recv_timeout_ms_; d.throttle_window_size = window_;
  auto r = std::make_unique<Context>(d, rank_, nodes_);
  r->root_ = root_;
  return r;
}
std::unique_ptr<Context> Context::SubWorld(std::string_view suffix, const std::vector<std::string>& ids) {
  ContextDesc d = desc_;
  d.id = fmt::format("{}-{}", desc_.id, suffix);
  d.recv_timeout_ms = recv_timeout_ms_; d.throttle_window_size = window_;
  d.parties.clear();
  std::vector<int> nodes; size_t rank = kAllRank;
  for (auto& p : ids) {
    size_t at = kAllRank;
    for (size_t i = 0; i < desc_.parties.size(); ++i) if (desc_.parties[i].id == p) at = i;
    YACL_ENFORCE(at != kAllRank, "party {} not found", p);
    if (at == rank_) rank = d.parties.size();
    d.parties.push_back(desc_.parties[at]); nodes.push_back(nodes_[at]);
  }
  YACL_ENFORCE(rank != kAllRank, "self not in sub world");
  auto r = std::make_unique<Context>(d, rank, nodes);
  r->root_ = root_;
  return r;
}
void Context::WaitLinkTaskFinish() {
  // FIN exchange: everything sent to each other has been read or discarded.
  std::string k = desc_.id + ":fin";
  for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_) RawSend(i, fmt::format("{}:{}->{}", k, rank_, i), "f", 1);
  for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_) RecvInternal(i, fmt::format("{}:{}->{}", k, i, rank_));
}
void Context::SetThrottleWindowSize(size_t w) { window_ = w; }
void Context::SetRecvTimeout(uint64_t ms) { recv_timeout_ms_ = ms; }
uint64_t Context::GetRecvTimeout() const { return recv_timeout_ms_; }
void Context::AbortLink() {}
std::shared_ptr<Context> FactoryBrpc::CreateContext(const ContextDesc& d, size_t rank) { return std::make_shared<Context>(d, rank); }

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view) {
  std::string k = c->NextId() + ":ALLGATHER";
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendAsyncInternal(i, fmt::format("{}:{}->{}", k, c->Rank(), i), in);
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) r[i] = i == c->Rank() ? Buffer(in) : c->RecvInternal(i, fmt::format("{}:{}->{}", k, i, c->Rank()));
  return r;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view) {
  std::string k = c->NextId() + ":GATHER";
  std::vector<Buffer> r;
  if (c->Rank() != root) { c->SendAsyncInternal(root, fmt::format("{}:{}->{}", k, c->Rank(), root), in); return r; }
  r.resize(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) r[i] = i == root ? Buffer(in) : c->RecvInternal(i, fmt::format("{}:{}->{}", k, i, root));
  return r;
}
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view) {
  std::string k = c->NextId() + ":BCAST";
  if (c->Rank() != root) return c->RecvInternal(root, fmt::format("{}:{}->{}", k, root, c->Rank()));
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendAsyncInternal(i, fmt::format("{}:{}->{}", k, root, i), in);
  return Buffer(in);
}
Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view) {
  std::string k = c->NextId() + ":SCATTER";
  if (c->Rank() != root) return c->RecvInternal(root, fmt::format("{}:{}->{}", k, root, c->Rank()));
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendAsyncInternal(i, fmt::format("{}:{}->{}", k, root, i), in[i]);
  return Buffer(in[root]);
}
void Barrier(const std::shared_ptr<Context>& c, std::string_view t) { AllGather(c, ByteContainerView("", size_t(0)), t); }
}  // namespace yacl::link
