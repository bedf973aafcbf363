#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/absl_log.h"
#define LOG(sev) ABSL_LOG(sev)
#define LOG_IF(sev, cond) ABSL_LOG_IF(sev, cond)
#define VLOG(n) ABSL_VLOG(n)
#endif
