#pragma once
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define DV_CAT_(a, b) a##b
#define DV_CAT(a, b) DV_CAT_(a, b)
#define RETURN_IF_ERROR(expr)                      \
  do {                                             \
    auto dv_status_ = (expr);                      \
    if (!dv_status_.ok()) return dv_status_;       \
  } while (0)
#define ASSIGN_OR_RETURN_IMPL_(var, lhs, rexpr) \
  auto var = (rexpr);                           \
  if (!var.ok()) return var.status();           \
  lhs = std::move(var).ValueOrDie()
#define ASSIGN_OR_RETURN(lhs, rexpr) \
  ASSIGN_OR_RETURN_IMPL_(DV_CAT(dv_statusor_, __COUNTER__), lhs, rexpr)
