// Force-included: fills gaps between the installed library releases and the
// ones the repository is written against.
#ifndef VERIF_COMPAT_H_
#define VERIF_COMPAT_H_
#include <cmath>
#include <optional>
#include <string>

#include "absl/strings/string_view.h"

#if !defined(ABSL_USES_STD_STRING_VIEW)
namespace absl {
ABSL_NAMESPACE_BEGIN
inline std::string& operator+=(std::string& s, string_view v) {
  return s.append(v.data(), v.size());
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
#endif
