#pragma once
#include "mpc_utils/status.h"
namespace mpc_utils {
#define DV_ERR(N)                                                            \
  inline Status N##Error(absl::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status &s) { return s.code() == StatusCode::k##N; }
DV_ERR(Cancelled) DV_ERR(Unknown) DV_ERR(InvalidArgument) DV_ERR(DeadlineExceeded)
DV_ERR(NotFound) DV_ERR(AlreadyExists) DV_ERR(PermissionDenied) DV_ERR(ResourceExhausted)
DV_ERR(FailedPrecondition) DV_ERR(Aborted) DV_ERR(OutOfRange) DV_ERR(Unimplemented)
DV_ERR(Internal) DV_ERR(Unavailable) DV_ERR(DataLoss) DV_ERR(Unauthenticated)
#undef DV_ERR
}  // namespace mpc_utils
