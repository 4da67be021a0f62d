// Stand-in for yacl/link: same message semantics (per-pair ordered P2P
// sequence, tags ignored, throttle window, receive timeout) over the
// simulated network.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/link/link.pb.h"
namespace yacl::link {
constexpr size_t kAllRank = std::numeric_limits<size_t>::max();
constexpr char kDefaultId[] = "root";
constexpr uint32_t kDefaultThrottleWindowSize = 10;

struct SSLOptions {};

struct ContextDesc {
  struct Party {
    std::string id, host;
    Party() = default;
    Party(std::string i, std::string h) : id(std::move(i)), host(std::move(h)) {}
    explicit Party(const PartyProto& pb) : id(pb.id()), host(pb.host()) {}
    bool operator==(const Party& p) const { return id == p.id && host == p.host; }
  };
  std::string id = kDefaultId;
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30 * 1000;
  uint32_t http_max_payload_size = 1024 * 1024;
  uint32_t http_timeout_ms = 20 * 1000;
  uint32_t throttle_window_size = kDefaultThrottleWindowSize;
  std::string brpc_channel_protocol = "baidu_std";
  std::string brpc_channel_connection_type;
  std::string link_type;
  bool exit_if_async_error = true;
  ContextDesc() = default;
  explicit ContextDesc(const ContextDescProto& pb);
};

class Context {
 public:
  Context(ContextDesc desc, size_t rank, std::vector<int> nodes = {});
  std::string Id() const;
  size_t WorldSize() const;
  size_t Rank() const;
  size_t PrevRank(size_t stride = 1) const;
  size_t NextRank(size_t stride = 1) const;
  std::string PartyIdByRank(size_t rank) const { return desc_.parties[rank].id; }
  const ContextDesc& GetContextDesc() const { return desc_; }

  void ConnectToMesh(int log_level = 0);
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix, const std::vector<std::string>& party_ids);

  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag);
  void Send(size_t dst, ByteContainerView v, std::string_view tag);
  Buffer Recv(size_t src, std::string_view tag);
  void WaitLinkTaskFinish();
  void SetThrottleWindowSize(size_t w);
  void SetRecvTimeout(uint64_t ms);
  uint64_t GetRecvTimeout() const;
  void AbortLink();

  // collectives
  std::string NextId();
  void SendAsyncInternal(size_t dst, const std::string& key, ByteContainerView v);
  Buffer RecvInternal(size_t src, const std::string& key);
  uint64_t RawSend(size_t dst, const std::string& key, const void* p, size_t n);

 private:
  std::string NextP2PId(size_t src, size_t dst);
  uint64_t Chan(size_t src, size_t dst) const;
  ContextDesc desc_;
  size_t rank_;
  std::vector<int> nodes_;
  std::string root_;        // id of the root context: channels are shared by children
  std::atomic<size_t> counter_{0};
  std::vector<std::vector<std::unique_ptr<std::atomic<size_t>>>> p2p_;
  std::atomic<size_t> child_counter_{0};
  uint64_t recv_timeout_ms_;
  uint32_t window_;
};

class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> ctx, uint64_t ms) : ctx_(std::move(ctx)), old_(ctx_->GetRecvTimeout()) { ctx_->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { ctx_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> ctx_;
  uint64_t old_;
};

class FactoryBrpc {
 public:
  std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t rank);
};
class FactoryMem { public: std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t rank) { return FactoryBrpc().CreateContext(desc, rank); } };

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag);
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag);
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag);
}  // namespace yacl::link
