// Stand-in for absl/log/absl_log.h, which the installed abseil release does not
// have. INFO/WARNING/ERROR messages are discarded unless VERIF_LOG=1 is set in
// the environment; FATAL messages are printed and abort the process.
#ifndef VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>

#include "absl/base/attributes.h"
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"

namespace verif_log {

// Set by a harness that wants to observe FATAL messages before the abort. May
// throw or _exit.
using FatalHook = void (*)(const char* file, int line, const std::string& msg);
inline FatalHook& fatal_hook() {
  static FatalHook hook = nullptr;
  return hook;
}
// Set by a harness that wants to see non-fatal log lines.
using LineHook = void (*)(int severity, const char* file, int line,
                          const std::string& msg);
inline LineHook& line_hook() {
  static LineHook hook = nullptr;
  return hook;
}

class Message {
 public:
  Message(const char* file, int line, int severity)
      : file_(file), line_(line), severity_(severity) {}
  ~Message() noexcept(false) {
    if (severity_ >= 3) {
      std::string text = stream_.str();
      if (fatal_hook() != nullptr) fatal_hook()(file_, line_, text);
      std::fprintf(stderr, "FCP-FATAL %s:%d] %s\n", file_, line_, text.c_str());
      std::fflush(stderr);
      std::abort();
    }
    if (line_hook() != nullptr) line_hook()(severity_, file_, line_, stream_.str());
    static const bool verbose = std::getenv("VERIF_LOG") != nullptr;
    if (verbose) {
      std::fprintf(stderr, "%d %s:%d] %s\n", severity_, file_, line_,
                   stream_.str().c_str());
    }
  }
  Message& WithVerbosity(int) { return *this; }
  Message& self() { return *this; }
  template <typename T>
  Message& operator<<(const T& v) {
    stream_ << v;
    return *this;
  }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) {
    stream_ << m;
    return *this;
  }

 private:
  const char* file_;
  int line_;
  int severity_;
  std::ostringstream stream_;
};

class FatalMessage : public Message {
 public:
  FatalMessage(const char* file, int line) : Message(file, line, 3) {}
};

struct Voidify {
  void operator&&(const Message&) const {}
};

constexpr int kINFO = 0, kWARNING = 1, kERROR = 2, kFATAL = 3, kDFATAL = 2;

}  // namespace verif_log

#define VERIF_LOG_IMPL(sev) \
  ::verif_log::Message(__FILE__, __LINE__, ::verif_log::k##sev).self()
#define ABSL_LOG(sev) VERIF_LOG_IMPL(sev)
#define ABSL_LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_IMPL(sev)
#define ABSL_VLOG(n) ABSL_LOG_IF(INFO, false)

#endif  // VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
