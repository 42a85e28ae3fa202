#pragma once
#include "gtest/gtest.h"
#include "mpc_utils/status_macros.h"
#define DV_ASSERT_OK_IMPL_(var, lhs, rexpr)             \
  auto var = (rexpr);                                   \
  ASSERT_TRUE(var.ok()) << var.status();                \
  lhs = std::move(var).ValueOrDie();
#define ASSERT_OK_AND_ASSIGN(lhs, rexpr) \
  DV_ASSERT_OK_IMPL_(DV_CAT(dv_statusor_, __COUNTER__), lhs, rexpr)
#define ASSERT_OK(expr) ASSERT_TRUE((expr).ok())
#define EXPECT_OK(expr) EXPECT_TRUE((expr).ok())
