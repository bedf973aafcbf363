// Shared by all harnesses: command line, seeded randomness, counting of what
// was observed, and reporting of violations.
//
// Exit status of a harness: 0 when it ran to the end (violations are in the
// report file), 3 when the harness itself is broken. Anything else means the
// code under test stopped the process.
#ifndef VERIF_HARNESS_COMMON_H_
#define VERIF_HARNESS_COMMON_H_

#include <fcntl.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace verif {

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t Hash(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return HashBytes(s.data(), s.size(), h);
}

class Rng {
 public:
  using result_type = uint64_t;
  explicit Rng(uint64_t seed, uint64_t stream = 0)
      : s_(Mix(seed * 0x9E3779B97F4A7C15ull + Mix(stream + 0x51ull))) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return U64(); }
  uint64_t U64() { return Mix(s_ += 0x9E3779B97F4A7C15ull); }
  // Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n <= 1 ? 0 : U64() % n; }
  // Uniform in [lo, hi].
  int64_t Range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool Chance(double p) { return (U64() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double Unit() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  std::string Bytes(size_t n) {
    std::string s(n, '\0');
    for (auto& c : s) c = static_cast<char>(U64());
    return s;
  }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[Below(v.size())];
  }
  template <typename T>
  void Shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Below(i)]);
  }

 private:
  uint64_t s_;
};

inline std::string Format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string Format(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[8192];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

inline std::string JsonEscape(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

inline std::string Hex(const std::string& s, size_t max = 64) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) o += Format("%02x", (unsigned char)s[i]);
  if (s.size() > max) o += Format("..(%zu)", s.size());
  return o;
}

class Report {
 public:
  uint64_t seed = 1;
  bool thorough = false;
  std::string mode;
  std::string out;
  std::string scratch;
  int64_t only_case = -1;
  int64_t shard = 0, shards = 1;

  Report(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&](const char* name) -> const char* {
        size_t n = strlen(name);
        return a.compare(0, n, name) == 0 ? argv[i] + n : nullptr;
      };
      if (auto v = val("--seed=")) seed = strtoull(v, nullptr, 10);
      else if (auto v = val("--tier=")) thorough = !strcmp(v, "thorough");
      else if (auto v = val("--mode=")) mode = v;
      else if (auto v = val("--out=")) out = v;
      else if (auto v = val("--scratch=")) scratch = v;
      else if (auto v = val("--case=")) only_case = atoll(v);
      else if (auto v = val("--shard=")) shard = atoll(v);
      else if (auto v = val("--shards=")) shards = atoll(v);
      else Broken("unknown argument " + a);
    }
    if (!out.empty()) {
      int fd = open((out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, kCrumb) != 0) Broken("cannot write " + out);
      crumb_ = static_cast<char*>(
          mmap(nullptr, kCrumb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      close(fd);
      if (crumb_ == MAP_FAILED) Broken("mmap failed");
    }
  }

  // True when case i is to be run by this process.
  bool Mine(int64_t i) const {
    if (only_case >= 0) return i == only_case;
    return i % shards == shard;
  }
  // Scales a case count with the tier.
  int64_t N(int64_t quick, int64_t thorough_n) const { return thorough ? thorough_n : quick; }

  // Leaves a note of what is being tried, for when the process is stopped.
  void Case(int64_t i, const std::string& what = "") {
    case_ = i;
    what_ = what;
    if (crumb_ != nullptr) {
      snprintf(crumb_, kCrumb, "{\"case\": %lld, \"what\": %s}", (long long)i,
               JsonEscape(what.substr(0, 3000)).c_str());
    }
  }
  void Eval(int64_t n = 1) {
    std::lock_guard<std::mutex> l(mu_);
    evaluations_ += n;
  }
  // Records the signature of a state or outcome that was reached.
  void Distinct(uint64_t h) {
    std::lock_guard<std::mutex> l(mu_);
    if (distinct_.size() < 2000000) distinct_.insert(h);
  }
  void Distinct(const std::string& s) { Distinct(Hash(s)); }
  void Count(const std::string& name, int64_t n = 1) {
    std::lock_guard<std::mutex> l(mu_);
    counters_[name] += n;
  }
  void Sample(const std::string& s) {
    std::lock_guard<std::mutex> l(mu_);
    if (samples_.size() < 8) samples_.push_back(s.substr(0, 400));
  }
  bool WantsSample() {
    std::lock_guard<std::mutex> l(mu_);
    return samples_.size() < 8;
  }
  // `key` names the kind of failure, without any run-specific values.
  void Violation(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(mu_);
    ++violation_count_;
    if (violations_.size() < 20 && !seen_.count(key)) {
      seen_.insert(key);
      violations_.push_back({key, detail, case_, what_});
      fprintf(stderr, "violation [%s] case %lld: %s\n", key.c_str(), (long long)case_,
              detail.substr(0, 2000).c_str());
    }
    if (violation_count_ > 2000) {
      WriteLocked();
      _exit(0);
    }
  }
  int64_t violation_count() const { return violation_count_; }

  [[noreturn]] static void Broken(const std::string& why) {
    fprintf(stderr, "HARNESS-ERROR: %s\n", why.c_str());
    _exit(3);
  }

  int Finish() {
    std::lock_guard<std::mutex> l(mu_);
    WriteLocked();
    return 0;
  }

 private:
  static constexpr size_t kCrumb = 16384;
  struct V {
    std::string key, detail;
    int64_t c;
    std::string what;
  };
  void WriteLocked() {
    std::string j = "{\n\"evaluations\": " + std::to_string(evaluations_) + ",\n\"distinct\": [";
    bool first = true;
    size_t n = 0;
    for (uint64_t h : distinct_) {
      if (++n > 300000) break;
      j += first ? "" : ",";
      first = false;
      j += "\"" + Format("%llx", (unsigned long long)h) + "\"";
    }
    j += "],\n\"counters\": {";
    first = true;
    for (auto& [k, v] : counters_) {
      j += first ? "" : ",";
      first = false;
      j += JsonEscape(k) + ": " + std::to_string(v);
    }
    j += "},\n\"samples\": [";
    first = true;
    for (auto& s : samples_) {
      j += first ? "" : ",";
      first = false;
      j += JsonEscape(s);
    }
    j += "],\n\"violations\": [";
    first = true;
    for (auto& v : violations_) {
      j += first ? "" : ",";
      first = false;
      j += "{\"key\": " + JsonEscape(v.key) + ", \"detail\": " +
           JsonEscape(v.detail.substr(0, 4000)) + ", \"case\": " + std::to_string(v.c) +
           ", \"what\": " + JsonEscape(v.what.substr(0, 3000)) + "}";
    }
    j += "]\n}\n";
    if (out.empty()) {
      if (j.size() > 4000) {
        printf("evaluations=%lld distinct=%zu violations=%lld\n", (long long)evaluations_,
               distinct_.size(), (long long)violation_count_);
        for (auto& [k, v] : counters_) printf("  %s=%lld\n", k.c_str(), (long long)v);
      } else {
        fputs(j.c_str(), stdout);
      }
      return;
    }
    FILE* f = fopen(out.c_str(), "w");
    if (f == nullptr) Broken("cannot write report");
    fwrite(j.data(), 1, j.size(), f);
    fclose(f);
  }

  std::mutex mu_;
  int64_t evaluations_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, int64_t> counters_;
  std::vector<std::string> samples_;
  std::vector<V> violations_;
  std::set<std::string> seen_;
  int64_t violation_count_ = 0;
  int64_t case_ = -1;
  std::string what_;
  char* crumb_ = nullptr;
};

// Makes a fresh directory below the scratch directory of the run.
inline std::string FreshDir(const Report& r, const std::string& name) {
  if (r.scratch.empty() || r.scratch[0] != '/') Report::Broken("--scratch is required");
  static int n = 0;
  std::string d = r.scratch + "/" + name + std::to_string(getpid()) + "_" + std::to_string(n++);
  std::string cmd = d;
  for (size_t i = 1; i <= cmd.size(); ++i) {
    if (i == cmd.size() || cmd[i] == '/') mkdir(cmd.substr(0, i).c_str(), 0755);
  }
  return d;
}

// Gives up root for the rest of the process, so that code which deletes or
// overwrites files can only reach files of its own below the scratch directory.
inline void BecomeNobody(const Report& r, const std::vector<std::string>& dirs) {
  if (geteuid() != 0) return;
  constexpr uid_t kNobody = 65534;
  for (const std::string& d : dirs) {
    if (chown(d.c_str(), kNobody, kNobody) != 0) Report::Broken("cannot hand over " + d);
  }
  if (!r.out.empty()) {
    int fd = open(r.out.c_str(), O_WRONLY | O_CREAT, 0644);
    if (fd < 0 || fchown(fd, kNobody, kNobody) != 0) Report::Broken("cannot hand over the report");
    close(fd);
  }
  if (setgroups(0, nullptr) != 0 || setgid(kNobody) != 0 || setuid(kNobody) != 0 ||
      geteuid() != kNobody) {
    Report::Broken("cannot give up root");
  }
}

}  // namespace verif

#endif  // VERIF_HARNESS_COMMON_H_
