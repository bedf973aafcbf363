#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/absl_log.h"
#define CHECK(c) ABSL_LOG_IF(FATAL, !(c)) << "Check failed: " #c " "
#define ABSL_CHECK(c) CHECK(c)
#define CHECK_OK(s) ABSL_LOG_IF(FATAL, !(s).ok()) << "Not OK: " #s " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) CHECK_OK(s)
#endif
