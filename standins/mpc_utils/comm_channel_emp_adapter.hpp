#pragma once
#include <memory>
#include "absl/memory/memory.h"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(
      comm_channel *channel, bool use_direct_connection = false) {
    if (!channel) return InvalidArgumentError("`channel` must not be NULL");
    std::unique_ptr<CommChannelEMPAdapter> a(new CommChannelEMPAdapter(channel));
    channel->dv_link()->new_adapter(channel->dv_side(), use_direct_connection, &a->stream_, &a->box_);
    return StatusOr<std::unique_ptr<CommChannelEMPAdapter>>(std::move(a));
  }
  void send_data(const void *p, int n) {
    link()->put(side(), stream_, 'R', std::string(static_cast<const char *>(p), n));
  }
  void recv_data(void *p, int n) { link()->get_raw(side(), stream_, p, n); }
  void flush() { link()->flush(side(), stream_); }
  dvlink::Link *link() const { return channel_->dv_link(); }
  int side() const { return channel_->dv_side(); }
  int stream() const { return stream_; }
  int box() const { return box_; }
 private:
  explicit CommChannelEMPAdapter(comm_channel *c) : channel_(c) {}
  comm_channel *channel_;
  int stream_ = 0, box_ = 0;
};
}  // namespace mpc_utils
