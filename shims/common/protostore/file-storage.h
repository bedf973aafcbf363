// Stand-in for protostore's FileStorage. Faults can be injected with
// verif_protostore::Faults().
#ifndef VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#define VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace verif_protostore {

struct FaultState {
  // The write with this index (counted from 0 over the process) is cut after
  // `keep` bytes and fails; -1 means never.
  int64_t fail_write_at = -1;
  int64_t keep = 0;
  // When set, the failing write ends the process instead of returning.
  bool crash = false;
  int64_t writes = 0;
};
inline FaultState& Faults() {
  static FaultState f;
  return f;
}

}  // namespace verif_protostore

namespace protostore {

class OutputStream {
 public:
  explicit OutputStream(int fd) : fd_(fd) {}
  ~OutputStream() {
    if (fd_ >= 0) close(fd_);
  }
  absl::Status Append(absl::string_view s) {
    while (!s.empty()) {
      ssize_t n = write(fd_, s.data(), s.size());
      if (n <= 0) return absl::InternalError("write failed");
      s.remove_prefix(n);
    }
    return absl::OkStatus();
  }
  absl::Status Close() {
    int r = close(fd_);
    fd_ = -1;
    return r == 0 ? absl::OkStatus() : absl::InternalError("close failed");
  }

 private:
  int fd_;
};

class FileStorage {
 public:
  absl::StatusOr<std::unique_ptr<OutputStream>> OpenForWrite(
      const std::string& name) const {
    int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) return absl::InternalError(absl::StrCat("cannot open ", name));
    return std::make_unique<OutputStream>(fd);
  }
  absl::StatusOr<int64_t> GetFileSize(const std::string& name) const {
    struct stat st;
    if (stat(name.c_str(), &st) != 0) {
      return absl::InternalError(absl::StrCat("cannot stat ", name));
    }
    return static_cast<int64_t>(st.st_size);
  }
  absl::StatusOr<std::string> ReadAll(const std::string& name) const {
    FILE* f = std::fopen(name.c_str(), "rb");
    if (f == nullptr) return absl::InternalError(absl::StrCat("cannot open ", name));
    std::string out;
    char buf[4096];
    size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
    std::fclose(f);
    return out;
  }
};

}  // namespace protostore

#endif
