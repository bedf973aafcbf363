// What the client keeps on disk, when the process is stopped or a change of the
// file system fails at any point.
#include <sys/wait.h>

#include <filesystem>
#include <fstream>
#include <memory>

#include "crash_points.h"
#include "absl/strings/cord.h"
#include "client_fakes.h"
#include "common.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "google/protobuf/wrappers.pb.h"

namespace {
using fcp::client::cache::FileBackedResourceCache;
using verif::Format;
using verif::Logs;
using verif::Report;
using verif::Rng;
namespace fs = std::filesystem;

struct Value {
  std::string content, meta;
  bool operator==(const Value& o) const { return content == o.content && meta == o.meta; }
};

struct Op {
  enum Kind { kPut, kGet, kOpen, kTime } kind;
  std::string id;
  Value value;
};

google::protobuf::Any Meta(const std::string& s) {
  google::protobuf::BytesValue v;
  v.set_value(s);
  google::protobuf::Any a;
  a.PackFrom(v);
  return a;
}
std::string MetaOf(const google::protobuf::Any& a) {
  google::protobuf::BytesValue v;
  return a.UnpackTo(&v) ? v.value() : "(unreadable)";
}

struct Cache {
  std::string files, cache;
  int64_t max;
  Logs logs;
  fcp::SimulatedClock clock{absl::FromUnixSeconds(1700000000)};
  std::unique_ptr<FileBackedResourceCache> sut;

  absl::Status Open() {
    sut.reset();
    auto c = FileBackedResourceCache::Create(files, cache, &logs, &clock, max);
    if (c.ok()) sut = std::move(*c);
    return c.status();
  }
  absl::Status Do(const Op& op) {
    switch (op.kind) {
      case Op::kPut:
        if (sut == nullptr) return absl::UnavailableError("closed");
        return sut->Put(op.id, absl::Cord(op.value.content), Meta(op.value.meta), absl::Hours(10));
      case Op::kGet:
        if (sut == nullptr) return absl::UnavailableError("closed");
        return sut->Get(op.id, std::nullopt).status();
      case Op::kOpen:
        return Open();
      case Op::kTime:
        clock.AdvanceTime(absl::Seconds(7));
        return absl::OkStatus();
    }
    return absl::OkStatus();
  }
};

const std::vector<std::string> kIds = {"a", "b", "c"};

std::vector<Op> Plan(Rng& rng, int64_t max, int n) {
  std::vector<Op> ops;
  for (int i = 0; i < n; ++i) {
    double d = rng.Unit();
    Op op;
    op.id = rng.Pick(kIds);
    if (d < 0.6) {
      op.kind = Op::kPut;
      op.value.content = rng.Bytes(rng.Range(1, max / 2));
      op.value.meta = rng.Bytes(5);
    } else if (d < 0.75) {
      op.kind = Op::kGet;
    } else if (d < 0.9) {
      op.kind = Op::kTime;
    } else {
      op.kind = Op::kOpen;
    }
    ops.push_back(op);
  }
  return ops;
}

// What may be found under each id: the last value known to be put, and every
// value whose put did not end well since.
using May = std::map<std::string, std::vector<Value>>;

bool Look(Report& r, Cache& c, const May& may, const std::string& how) {
  for (const auto& id : kIds) {
    auto got = c.sut->Get(id, std::nullopt);
    r.Eval();
    if (!got.ok()) {
      if (got.status().code() != absl::StatusCode::kNotFound) {
        r.Violation("get-fails-after-" + how, Format("%s: %s", id.c_str(), got.status().ToString().c_str()));
        return false;
      }
      r.Count("not there after " + how);
      continue;
    }
    Value v{std::string(got->resource), MetaOf(got->metadata)};
    auto it = may.find(id);
    bool ok = false;
    if (it != may.end()) {
      for (auto& w : it->second) ok |= w == v;
    }
    if (!ok) {
      std::string known;
      if (it != may.end()) {
        for (auto& w : it->second) known += Format(" [%zu bytes, metadata %s]", w.content.size(), verif::Hex(w.meta).c_str());
      }
      r.Violation("damaged-resource-after-" + how,
                  Format("%s: found %zu bytes with metadata %s, put were%s", id.c_str(),
                         v.content.size(), verif::Hex(v.meta).c_str(), known.c_str()));
      return false;
    }
    r.Count("found after " + how);
  }
  return true;
}

// The cache has to come back: at the latest at the second attempt, and then it
// has to be of use again.
bool ComeBack(Report& r, Cache& c, const May& may, const std::string& how, Rng& rng) {
  absl::Status s = c.Open();
  if (!s.ok()) {
    r.Count("opened at the second attempt");
    s = c.Open();
  }
  r.Eval();
  if (!s.ok()) {
    r.Violation("cache-does-not-come-back-after-" + how, s.ToString());
    return false;
  }
  if (!Look(r, c, may, how)) return false;
  int64_t n = 0;
  for (auto& f : fs::recursive_directory_iterator(c.cache)) {
    if (f.is_regular_file()) n += f.file_size();
  }
  if (n > c.max) {
    r.Violation("cache-over-limit-after-" + how, Format("%lld bytes, limit %lld", (long long)n, (long long)c.max));
    return false;
  }
  Value v{rng.Bytes(rng.Range(1, c.max / 2)), "again"};
  s = c.sut->Put("b", absl::Cord(v.content), Meta(v.meta), absl::Hours(1));
  auto got = c.sut->Get("b", std::nullopt);
  if (!s.ok() || !got.ok() || !(Value{std::string(got->resource), MetaOf(got->metadata)} == v)) {
    r.Violation("cache-of-no-use-after-" + how, Format("put: %s, get: %s", s.ToString().c_str(),
                                                       got.status().ToString().c_str()));
    return false;
  }
  return true;
}

void CacheFaults(Report& r) {
  std::string dir = r.scratch + "/c";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  bool stop = r.mode == "cache-crash";
  const std::string how = stop ? "crash" : "fault";
  for (int64_t i = 0; i < r.N(120, 3000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xC4A5 + i);
    int64_t max = rng.Chance(0.5) ? rng.Range(40, 300) : rng.Range(2000, 60000);
    std::vector<Op> before = Plan(rng, max, rng.Range(0, 6));
    std::vector<Op> during = Plan(rng, max, rng.Range(1, 3));
    // How many points there are to stop at.
    int64_t points = -1;
    int64_t upto = 1;
    for (int64_t k = 0; k < upto; ++k) {
      for (double keep : {0.0, 0.5, 1.0}) {
        if (k == 0 && points < 0 && keep != 0.0) continue;
        r.Case(i, Format("limit %lld, %zu operations before, stopped at change %lld, %g of a write kept",
                         (long long)max, before.size(), (long long)k, keep));
        fs::remove_all(dir + "/w");
        fs::create_directories(dir + "/w/files");
        fs::create_directories(dir + "/w/cache");
        Cache c;
        c.files = dir + "/w/files";
        c.cache = dir + "/w/cache";
        c.max = max;
        May may;
        if (!c.Open().ok()) {
          r.Violation("cache-does-not-open", "a fresh one");
          return;
        }
        for (auto& op : before) {
          if (c.Do(op).ok() && op.kind == Op::kPut) may[op.id] = {op.value};
        }
        auto& s = crash::S();
        s = crash::State();
        s.at = k;
        s.keep = keep;
        s.error = rng.Chance(0.5) ? EIO : ENOSPC;
        s.lasting = rng.Chance(0.3);
        if (stop) {
          for (auto& op : during) {
            if (op.kind == Op::kPut) may[op.id].push_back(op.value);
          }
          int pipefd[2];
          if (pipe(pipefd) != 0) Report::Broken("pipe");
          fflush(stdout);
          fflush(stderr);
          pid_t pid = fork();
          if (pid == 0) {
            close(pipefd[0]);
            s.what = crash::kStop;
            for (auto& op : during) (void)c.Do(op);
            s.what = crash::kOff;
            int64_t n = s.seen;
            (void)!::write(pipefd[1], &n, sizeof n);
            syscall(SYS_exit_group, 0);
          }
          close(pipefd[1]);
          int64_t n = -1;
          ssize_t got = read(pipefd[0], &n, sizeof n);
          close(pipefd[0]);
          int st = 0;
          waitpid(pid, &st, 0);
          if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != crash::kExit)) {
            r.Violation("operation-ends-the-process", Format("wait status %d", st));
            return;
          }
          bool crashed = WEXITSTATUS(st) == crash::kExit;
          if (!crashed && got != sizeof n) Report::Broken("no count");
          if (!crashed) {
            // Past the last change: nothing was stopped.
            points = k;
          } else {
            r.Count("stopped");
            if (points < 0) upto = std::min<int64_t>(k + 2, 400);
          }
        } else {
          s.what = crash::kFail;
          int64_t failed = 0;
          for (auto& op : during) {
            absl::Status st = c.Do(op);
            if (op.kind == Op::kPut) {
              if (st.ok()) {
                may[op.id] = {op.value};
              } else {
                may[op.id].push_back(op.value);
              }
            }
            failed += !st.ok();
          }
          bool hit = s.seen > k;
          s.what = crash::kOff;
          if (hit) {
            r.Count("failed change");
            if (points < 0) upto = std::min<int64_t>(k + 2, 400);
          } else {
            points = k;
          }
          if (failed) r.Count("operations that reported the failure");
          // The same object goes on being used.
          if (c.sut != nullptr) {
            for (const auto& id : kIds) {
              auto got = c.sut->Get(id, std::nullopt);
              r.Eval();
              if (!got.ok()) continue;
              Value v{std::string(got->resource), MetaOf(got->metadata)};
              bool known = false;
              for (auto& w : may[id]) known |= w == v;
              if (!known) {
                r.Violation("damaged-resource-after-fault",
                            Format("%s: found %zu bytes in the same cache after a failed %s",
                                   id.c_str(), v.content.size(), s.name.c_str()));
                return;
              }
            }
          }
        }
        r.Distinct(Format("%s %lld %g %zu", how.c_str(), (long long)k, keep, during.size()));
        if (!ComeBack(r, c, may, how, rng)) return;
        if (r.WantsSample()) {
          r.Sample(Format("%s at change %lld of %zu operations, limit %lld", how.c_str(), (long long)k,
                          during.size(), (long long)max));
        }
        if (points == k) break;
      }
      if (points >= 0) break;
    }
    r.Count("operations run to the end", points >= 0);
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "cache-crash" || r.mode == "cache-fault") CacheFaults(r);
  else Report::Broken("mode?");
  return r.Finish();
}
