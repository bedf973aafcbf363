// Stops or fails the process at its n-th change of the file system. Include in
// one source file of a program; the calls below then take precedence over the
// C library's.
#ifndef VERIF_HARNESS_CRASH_POINTS_H_
#define VERIF_HARNESS_CRASH_POINTS_H_

#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <string>

namespace crash {

enum What { kOff, kCount, kStop, kFail };
struct State {
  What what = kOff;
  int64_t at = -1;     // the change with this number is the one
  double keep = 0;     // share of a write that still gets through
  int error = EIO;     // what a failing change reports
  bool lasting = false;  // all later changes fail as well (a full disk)
  int64_t seen = 0;
  std::string name;    // what the chosen change was
};
inline State& S() {
  static State s;
  return s;
}
constexpr int kExit = 77;

// True if this change is to fail.
inline bool Change(const char* name) {
  State& s = S();
  if (s.what == kOff) return false;
  int64_t n = s.seen++;
  if (n == s.at || (s.lasting && n > s.at && s.at >= 0)) {
    if (s.what == kStop) syscall(SYS_exit_group, kExit);
    if (s.what == kFail) {
      if (n == s.at) s.name = name;
      errno = s.error;
      return true;
    }
  }
  return false;
}
inline bool ChangesFiles(int flags) {
  return (flags & (O_CREAT | O_TRUNC)) != 0;
}

}  // namespace crash

extern "C" {

ssize_t write(int fd, const void* p, size_t n) {
  crash::State& s = crash::S();
  if (s.what != crash::kOff && fd > 2) {
    int64_t k = s.seen;
    if (k == s.at && n > 0) {
      size_t part = std::min(n, static_cast<size_t>(s.keep * n));
      if (part > 0) syscall(SYS_write, fd, p, part);
    }
    if (crash::Change("write")) return -1;
  }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  crash::State& s = crash::S();
  if (s.what != crash::kOff && fd > 2) {
    int64_t k = s.seen;
    if (k == s.at) {
      size_t n = 0;
      for (int i = 0; i < c; ++i) n += v[i].iov_len;
      size_t part = std::min(n, static_cast<size_t>(s.keep * n));
      for (int i = 0; i < c && part > 0; ++i) {
        size_t m = std::min(part, v[i].iov_len);
        syscall(SYS_write, fd, v[i].iov_base, m);
        part -= m;
      }
    }
    if (crash::Change("writev")) return -1;
  }
  return syscall(SYS_writev, fd, v, c);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (crash::ChangesFiles(flags) && crash::Change("open")) return -1;
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (crash::ChangesFiles(flags) && crash::Change("open")) return -1;
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
static FILE* crash_fopen(const char* path, const char* how) {
  bool rd = how[0] == 'r', plus = strchr(how, '+') != nullptr;
  int flags = rd ? (plus ? O_RDWR : O_RDONLY)
                 : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (how[0] == 'w' ? O_TRUNC : O_APPEND);
  if (!rd && crash::Change("fopen")) return nullptr;
  int fd = syscall(SYS_openat, AT_FDCWD, path, flags, 0666);
  return fd < 0 ? nullptr : fdopen(fd, how);
}
FILE* fopen(const char* path, const char* how) { return crash_fopen(path, how); }
FILE* fopen64(const char* path, const char* how) { return crash_fopen(path, how); }
int unlink(const char* path) {
  if (crash::Change("unlink")) return -1;
  return syscall(SYS_unlink, path);
}
int rmdir(const char* path) {
  if (crash::Change("rmdir")) return -1;
  return syscall(SYS_rmdir, path);
}
int remove(const char* path) {
  if (crash::Change("remove")) return -1;
  int r = syscall(SYS_unlink, path);
  if (r != 0 && errno == EISDIR) r = syscall(SYS_rmdir, path);
  return r;
}
int rename(const char* from, const char* to) {
  if (crash::Change("rename")) return -1;
  return syscall(SYS_rename, from, to);
}
int mkdir(const char* path, mode_t mode) {
  if (crash::Change("mkdir")) return -1;
  return syscall(SYS_mkdir, path, mode);
}
int truncate(const char* path, off_t n) {
  if (crash::Change("truncate")) return -1;
  return syscall(SYS_truncate, path, n);
}
int ftruncate(int fd, off_t n) {
  if (crash::Change("ftruncate")) return -1;
  return syscall(SYS_ftruncate, fd, n);
}
int fsync(int fd) {
  if (crash::Change("fsync")) return -1;
  return syscall(SYS_fsync, fd);
}

}  // extern "C"

#endif  // VERIF_HARNESS_CRASH_POINTS_H_
