#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "dv_archive.h"
#include "dv_link.h"
namespace mpc_utils {
class comm_channel {
 public:
  comm_channel(std::shared_ptr<dvlink::Link> l, int side, int id, int peer, bool measured)
      : link_(std::move(l)), side_(side), id_(id), peer_(peer), measured_(measured) {}
  comm_channel(comm_channel &&) = default;
  comm_channel(const comm_channel &) = delete;
  template <typename M> void send(const M &m) { link_->put(side_, 0, 'M', dvlink::Encode(m)); }
  template <typename M> void recv(M &m) {
    std::string s = link_->get(side_, 0, 'M');
    try { dvlink::Decode(s, m); }
    catch (dvlink::DecodeError &e) {
      link_->fail(e.what());
      throw dvlink::ProtocolError(e.what());
    }
  }
  void flush() { link_->flush(side_, 0); }
  template <typename A, typename B> void send_recv(const A &a, B &b) { send(a); flush(); recv(b); }
  void sync() {
    link_->put(side_, 0, 'S', std::string(1, 's'));
    link_->flush(side_, 0);
    link_->get(side_, 0, 'S');
  }
  int get_id() const { return id_; }
  int get_peer_id() const { return peer_; }
  bool is_measured() const { return measured_; }
  int64_t get_num_bytes_sent() const { return int64_t(link_->bytes_sent(side_)); }
  int64_t get_num_bytes_received() const { return int64_t(link_->bytes_sent(1 - side_)); }
  // stand-in internals
  dvlink::Link *dv_link() const { return link_.get(); }
  int dv_side() const { return side_; }
 private:
  std::shared_ptr<dvlink::Link> link_;
  int side_, id_, peer_;
  bool measured_;
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;
