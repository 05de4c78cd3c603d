#pragma once
#include "absl/log/absl_log.h"
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_OK(e) CHECK((e).ok())
#define DCHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
