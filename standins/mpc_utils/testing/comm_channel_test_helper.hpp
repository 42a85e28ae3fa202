#pragma once
#include <memory>
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils {
namespace testing {
class CommChannelTestHelper {
 public:
  explicit CommChannelTestHelper(bool measure_communication = true, uint64_t seed = 0x5eed,
                                 int id0 = 0, int id1 = 1)
      : link_(std::make_shared<dvlink::Link>(seed)),
        c0_(link_, 0, id0, id1, measure_communication),
        c1_(link_, 1, id1, id0, measure_communication) {}
  comm_channel *GetChannel(int i) { return i == 0 ? &c0_ : &c1_; }
  dvlink::Link *link() { return link_.get(); }
 private:
  std::shared_ptr<dvlink::Link> link_;
  comm_channel c0_, c1_;
};
}  // namespace testing
}  // namespace mpc_utils
