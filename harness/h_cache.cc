// The resource cache of the client, against a model of what was put into it.
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <memory>
#include <thread>

#include "absl/strings/cord.h"
#include "client_fakes.h"
#include "common.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "google/protobuf/wrappers.pb.h"
#include "perturb.h"

namespace {
using fcp::client::cache::FileBackedResourceCache;
using verif::Format;
using verif::Logs;
using verif::Report;
using verif::Rng;
namespace fs = std::filesystem;

google::protobuf::Any Meta(const std::string& s) {
  google::protobuf::BytesValue v;
  v.set_value(s);
  google::protobuf::Any a;
  a.PackFrom(v);
  return a;
}
std::string MetaOf(const google::protobuf::Any& a) {
  google::protobuf::BytesValue v;
  return a.UnpackTo(&v) ? v.value() : "(unreadable)";
}

absl::Cord Chunks(Rng& rng, const std::string& s) {
  absl::Cord c;
  size_t at = 0;
  while (at < s.size()) {
    size_t n = rng.Chance(0.5) ? s.size() - at : rng.Range(1, s.size() - at);
    c.Append(absl::Cord(s.substr(at, n)));
    at += n;
  }
  return c;
}

int64_t BytesBelow(const fs::path& dir) {
  int64_t n = 0;
  std::error_code e;
  for (auto& f : fs::recursive_directory_iterator(dir, e)) {
    if (f.is_regular_file()) n += f.file_size();
  }
  return n;
}

struct Entry {
  std::string content, meta;
  absl::Time expiry;
  absl::Time used;
};

class World {
 public:
  World(Report& r, Rng& rng, int64_t max, const std::string& where)
      : r_(r), rng_(rng), max_(max), files_(where + "/files"), cache_(where + "/cache"),
        probe_(where + "/probe"), clock_(absl::FromUnixSeconds(1700000000)) {
    for (const std::string& d : {files_, cache_}) {
      std::error_code e;
      fs::remove_all(d, e);
      fs::create_directories(d, e);
    }
    Open();
  }

  void Open() {
    sut_.reset();
    auto c = FileBackedResourceCache::Create(files_, cache_, &logs_, &clock_, max_);
    r_.Eval();
    if (!c.ok()) {
      bool had = sure_.empty() ? false : true;
      r_.Violation("cache-does-not-open", Format("opening the cache failed (%s), %s", c.status().ToString().c_str(), had ? "with entries" : "empty"));
      failed_ = true;
      return;
    }
    sut_ = std::move(*c);
    DropExpired();
    Compare("opening", "", 0);
  }

  void Put() {
    std::string id = Id();
    bool big = rng_.Chance(0.06);
    size_t n = big ? max_ / 2 + 1 + rng_.Below(50)
                   : rng_.Chance(0.1) ? max_ / 2
                   : rng_.Chance(0.1) ? 0
                   : rng_.Chance(small_) ? rng_.Below(max_ / 10 + 1)
                                      : rng_.Below(max_ / 2 + 1);
    std::string content = Content(n);
    std::string meta = rng_.Chance(0.2) ? "" : rng_.Bytes(rng_.Range(1, 12));
    bool past = rng_.Chance(0.03);
    absl::Duration age = past ? -absl::Seconds(rng_.Range(1, 5000))
                              : rng_.Chance(0.1) ? absl::Hours(24 * 365 * 10)
                                                 : absl::Seconds(rng_.Range(1, 4000));
    auto before = model_;
    absl::Status s = sut_->Put(id, Chunks(rng_, content), Meta(meta), age);
    r_.Eval();
    what_ = Format("put %s of %zu bytes for %s -> %s", id.c_str(), n,
                   absl::FormatDuration(age).c_str(), s.ToString().c_str());
    if (big || past) {
      r_.Count(big ? "oversized resources" : "ages in the past");
      absl::StatusCode want =
          big && past ? s.code()
                      : big ? absl::StatusCode::kResourceExhausted : absl::StatusCode::kInvalidArgument;
      if (s.ok() || s.code() != want) {
        r_.Violation("bad-put-accepted", what_);
        failed_ = true;
        return;
      }
      // Nothing new may be there; what was there may have gone.
      Compare("put refused", "", 0);
      return;
    }
    if (!s.ok()) {
      r_.Violation("put-fails", what_);
      failed_ = true;
      return;
    }
    if (model_.count(id) && sure_.count(id)) r_.Count("resources overwritten");
    model_.erase(id);
    DropExpired();
    int64_t others = 0;
    for (auto& [k, e] : model_) others += e.content.size();
    if (others + static_cast<int64_t>(n) > max_) {
      r_.Count("puts that need room");
      // Anything but the new entry may go, in order of use.
      Evict(others + n - max_, id);
    }
    model_[id] = {content, meta, clock_.Now() + age, clock_.Now()};
    sure_.insert(id);
    Compare("put", id, n);
  }

  void Get() {
    std::string id = Id();
    std::optional<absl::Duration> age;
    if (rng_.Chance(0.3)) age = absl::Seconds(rng_.Range(1, 6000));
    int hits = logs_.of(fcp::client::DebugDiagCode::RESOURCE_CACHE_HIT);
    int misses = logs_.of(fcp::client::DebugDiagCode::RESOURCE_CACHE_MISS);
    auto got = sut_->Get(id, age);
    r_.Eval();
    hits = logs_.of(fcp::client::DebugDiagCode::RESOURCE_CACHE_HIT) - hits;
    misses = logs_.of(fcp::client::DebugDiagCode::RESOURCE_CACHE_MISS) - misses;
    if (hits != (got.ok() ? 1 : 0) || misses != (got.ok() ? 0 : 1)) {
      r_.Violation("hit-or-miss-not-logged",
                   Format("get %s -> %s logged %d hits and %d misses", id.c_str(),
                          got.status().ToString().c_str(), hits, misses));
    }
    auto it = model_.find(id);
    bool expired = it != model_.end() && it->second.expiry < clock_.Now();
    if (Judge("get", id, got, it != model_.end() && sure_.count(id) && !expired)) {
      it->second.used = clock_.Now();
      if (age.has_value()) {
        it->second.expiry = clock_.Now() + *age;
        r_.Count("expiry times renewed");
      }
      sure_.insert(id);
      r_.Count("hits");
    } else {
      if (it != model_.end()) Forget(id);
      r_.Count("misses");
    }
  }

  void Time() {
    clock_.AdvanceTime(absl::Seconds(rng_.Chance(0.9) ? rng_.Range(1, 300) : rng_.Range(1, 5000)));
  }

  // Somebody cleans up behind the cache's back, while it is closed.
  void Vandalise() {
    sut_.reset();
    std::vector<fs::path> files;
    for (auto& f : fs::recursive_directory_iterator(cache_)) {
      if (f.is_regular_file()) files.push_back(f.path());
    }
    std::sort(files.begin(), files.end());
    switch (rng_.Below(3)) {
      case 0:
        if (!files.empty()) {
          fs::path f = rng_.Pick(files);
          fs::remove(f);
          r_.Count("files deleted from outside");
          sure_.clear();  // whose it was is not for us to know
        }
        break;
      case 1:
        fs::remove_all(cache_);
        model_.clear();
        sure_.clear();
        r_.Count("files deleted from outside");
        break;
      case 2: {
        fs::path dir = files.empty() ? fs::path() : files[0].parent_path();
        if (!dir.empty()) {
          std::ofstream(dir / "somebody_elses_file") << rng_.Bytes(rng_.Range(1, 2000));
          r_.Count("stray files");
        }
        break;
      }
    }
    Open();
  }

  bool failed() const { return failed_; }
  Logs& logs() { return logs_; }

 private:
  std::string Id() {
    if (!model_.empty() && rng_.Chance(0.6)) {
      return std::next(model_.begin(), rng_.Below(model_.size()))->first;
    }
    static const std::vector<std::string> kIds = {"a", "b", "c", "dd", "resource-5", "x.y", "UPPER",
                                                  "z_1", "a b", "%41"};
    return rng_.Pick(kIds);
  }
  std::string Content(size_t n) {
    if (rng_.Chance(0.5)) return rng_.Bytes(n);
    std::string s(n, static_cast<char>('a' + rng_.Below(26)));
    return s;
  }
  void Forget(const std::string& id) {
    model_.erase(id);
    sure_.erase(id);
  }
  // What a clean-up removes for certain.
  void DropExpired() {
    for (auto it = model_.begin(); it != model_.end();) {
      if (it->second.expiry < clock_.Now()) {
        r_.Count("expired");
        sure_.erase(it->first);
        it = model_.erase(it);
      } else {
        ++it;
      }
    }
  }
  // At least `over` bytes have to go. An entry stays for certain when what was
  // used less recently is already more than enough.
  void Evict(int64_t over, const std::string& id) {
    for (auto& [k, e] : model_) {
      int64_t older = 0;
      for (auto& [k2, e2] : model_) {
        // An unsure one frees nothing if it is already gone.
        if (e2.used < e.used && sure_.count(k2)) older += e2.content.size();
      }
      if (!(older > over)) sure_.erase(k);
    }
    evicting_ = true;
  }

  bool Judge(const std::string& how, const std::string& id,
             const absl::StatusOr<FileBackedResourceCache::ResourceAndMetadata>& got, bool must) {
    auto it = model_.find(id);
    if (!got.ok()) {
      if (got.status().code() != absl::StatusCode::kNotFound) {
        r_.Violation("get-fails", Format("%s %s -> %s", how.c_str(), id.c_str(),
                                         got.status().ToString().c_str()));
        failed_ = true;
      } else if (must) {
        r_.Violation("resource-lost", Format("%s: %s is gone although nothing made it go (%s)",
                                             how.c_str(), id.c_str(), what_.c_str()));
        failed_ = true;
      }
      return false;
    }
    if (it == model_.end()) {
      r_.Violation("resource-not-gone",
                   Format("%s: %s was found although it was never put, expired or deleted (%s)",
                          how.c_str(), id.c_str(), what_.c_str()));
      failed_ = true;
      return false;
    }
    std::string content(got->resource);
    if (content != it->second.content || MetaOf(got->metadata) != it->second.meta) {
      r_.Violation("wrong-resource",
                   Format("%s: %s has %zu bytes, the last put had %zu; metadata %s, put %s (%s)",
                          how.c_str(), id.c_str(), content.size(), it->second.content.size(),
                          verif::Hex(MetaOf(got->metadata)).c_str(),
                          verif::Hex(it->second.meta).c_str(), what_.c_str()));
      failed_ = true;
      return false;
    }
    return true;
  }

  // Looks at everything through a second cache opened on a copy of the files.
  void Compare(const std::string& how, const std::string& fresh, int64_t fresh_size) {
    int64_t total = BytesBelow(cache_);
    if (total > max_) {
      r_.Violation("cache-over-limit",
                   Format("%s leaves %lld bytes in the cache, limit %lld (%s)", how.c_str(),
                          (long long)total, (long long)max_, what_.c_str()));
      failed_ = true;
    }
    std::error_code e;
    fs::remove_all(probe_, e);
    fs::create_directories(probe_);
    fs::copy(files_, probe_ + "/files", fs::copy_options::recursive);
    fs::copy(cache_, probe_ + "/cache", fs::copy_options::recursive);
    Logs quiet;
    auto c = FileBackedResourceCache::Create(probe_ + "/files", probe_ + "/cache", &quiet, &clock_,
                                             max_);
    if (!c.ok()) {
      r_.Violation("cache-does-not-open",
                   Format("after %s the cache cannot be opened again: %s", how.c_str(),
                          c.status().ToString().c_str()));
      failed_ = true;
      return;
    }
    std::vector<std::string> ids = {"a", "b", "c", "dd", "resource-5", "x.y", "UPPER", "z_1", "a b",
                                    "%41"};
    std::set<std::string> there, expired_now;
    for (const auto& id : ids) {
      r_.Eval();
      auto it = model_.find(id);
      bool expired = it != model_.end() && it->second.expiry < clock_.Now();
      if (expired) continue;
      if (Judge("look after " + how, id, (*c)->Get(id, std::nullopt), sure_.count(id) > 0)) {
        there.insert(id);
      }
    }
    if (evicting_) {
      evicting_ = false;
      int64_t gone = 0;
      for (auto& [id, entry] : model_) {
        if (id == fresh || there.count(id) || entry.expiry < clock_.Now()) continue;
        r_.Count("evicted");
        gone += entry.content.size();
        for (auto& [id2, entry2] : model_) {
          if (id2 != fresh && there.count(id2) && entry2.used < entry.used && was_sure_.count(id)) {
            r_.Violation("evicted-out-of-order",
                         Format("%s was evicted, used after %s which stays (%s)", id.c_str(),
                                id2.c_str(), what_.c_str()));
            failed_ = true;
          }
        }
      }
    }
    // From here on we know.
    for (auto it = model_.begin(); it != model_.end();) {
      if (it->second.expiry < clock_.Now()) {
        ++it;
        continue;
      }
      if (there.count(it->first)) {
        sure_.insert(it->first);
        ++it;
      } else {
        sure_.erase(it->first);
        it = model_.erase(it);
      }
    }
    was_sure_ = sure_;
    fs::remove_all(probe_, e);
  }

  Report& r_;
  Rng& rng_;
  const int64_t max_;
  const std::string files_, cache_, probe_;
  fcp::SimulatedClock clock_;
  Logs logs_;
  std::unique_ptr<FileBackedResourceCache> sut_;
  std::map<std::string, Entry> model_;
  std::set<std::string> sure_, was_sure_;
  std::string what_;
  bool failed_ = false, evicting_ = false;
  const double small_ = rng_.Unit();
};

void Histories(Report& r) {
  std::string dir = r.scratch + "/h";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(1200, 40000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xCA5E + i);
    int64_t max = rng.Chance(0.5) ? rng.Range(20, 400) : rng.Range(1000, 200000);
    r.Case(i, Format("limit %lld", (long long)max));
    World w(r, rng, max, dir);
    int steps = rng.Range(10, 60);
    for (int k = 0; k < steps && !w.failed(); ++k) {
      double d = rng.Unit();
      if (d < 0.4) {
        w.Put();
      } else if (d < 0.7) {
        w.Get();
      } else if (d < 0.9) {
        w.Time();
      } else if (d < 0.97) {
        w.Open();
        r.Count("cache opened again");
      } else {
        w.Vandalise();
      }
    }
    r.Distinct(verif::Mix(i));
    if (r.WantsSample()) {
      r.Sample(Format("history %lld: limit %lld bytes, %d steps, %d hits, %d misses", (long long)i,
                      (long long)max, steps,
                      w.logs().of(fcp::client::DebugDiagCode::RESOURCE_CACHE_HIT),
                      w.logs().of(fcp::client::DebugDiagCode::RESOURCE_CACHE_MISS)));
    }
  }
}

// ---- threads ----------------------------------------------------------------------

std::string VersionBytes(int id, int version) {
  Rng rng(id * 1000003ull + version, 77);
  std::string s = Format("%d/%d:", id, version);
  return s + rng.Bytes(rng.Range(0, 3000));
}

void Threads(Report& r) {
  std::string dir = r.scratch + "/t";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(160, 4000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x7EAD5 + i);
    r.Case(i);
    verif::Perturb(rng);
    fs::remove_all(dir + "/w");
    fs::create_directories(dir + "/w/files");
    fs::create_directories(dir + "/w/cache");
    fcp::SimulatedClock clock(absl::FromUnixSeconds(1700000000));
    Logs logs;
    bool tight = rng.Chance(0.4);
    auto c = FileBackedResourceCache::Create(dir + "/w/files", dir + "/w/cache", &logs, &clock,
                                             tight ? 9000 : 1000000);
    if (!c.ok()) {
      r.Violation("cache-does-not-open", c.status().ToString());
      continue;
    }
    int writers = rng.Range(1, 3), readers = rng.Range(1, 3);
    int versions = rng.Range(5, 25);
    std::vector<std::atomic<int>> put(writers);
    for (auto& p : put) p = 0;
    std::atomic<int> running{writers};
    std::atomic<int64_t> hits{0}, gets{0};
    std::mutex m;
    std::string bad, bad_key;
    auto fail = [&](const std::string& key, const std::string& s) {
      std::lock_guard<std::mutex> l(m);
      if (bad.empty()) bad = s, bad_key = key;
    };
    std::vector<std::thread> ts;
    for (int w = 0; w < writers; ++w) {
      ts.emplace_back([&, w] {
        for (int v = 1; v <= versions; ++v) {
          absl::Status s = (*c)->Put(Format("id%d", w), absl::Cord(VersionBytes(w, v)),
                                     Meta(std::to_string(v)), absl::Hours(1));
          if (!s.ok()) fail("put-fails", s.ToString());
          put[w] = v;
        }
        --running;
      });
    }
    for (int k = 0; k < readers; ++k) {
      ts.emplace_back([&, k] {
        Rng mine(r.seed, 0xBEEF + i * 16 + k);
        std::vector<int> last(writers, 0);
        while (true) {
          bool done = running == 0;
          int w = mine.Below(writers);
          int at_least = put[w];
          auto got = (*c)->Get(Format("id%d", w), std::nullopt);
          ++gets;
          if (got.ok()) {
            ++hits;
            int v = atoi(MetaOf(got->metadata).c_str());
            if (std::string(got->resource) != VersionBytes(w, v)) {
              fail("mixed-up-resource", Format("id%d: metadata says version %d, content is another", w, v));
            } else if (v < last[w] || v < at_least) {
              fail("resource-goes-back", Format("id%d: version %d after version %d was put", w, v,
                                                std::max(last[w], at_least)));
            }
            last[w] = std::max(last[w], v);
          } else if (got.status().code() != absl::StatusCode::kNotFound) {
            fail("get-fails", got.status().ToString());
          } else if (!tight && at_least > 0) {
            fail("resource-lost", Format("id%d not found after version %d was put", w, at_least));
          }
          if (done) break;
        }
      });
    }
    for (auto& t : ts) t.join();
    r.Eval(gets + writers * versions);
    r.Count("gets beside puts", hits);
    if (!bad.empty()) r.Violation(bad_key, bad);
    int logged = logs.of(fcp::client::DebugDiagCode::RESOURCE_CACHE_HIT);
    if (logged != hits) {
      r.Violation("hit-or-miss-not-logged", Format("%d of %lld hits logged", logged, (long long)hits));
    }
    r.Distinct(verif::Mix(i + 1000000));
  }
  r.Count("schedule perturbations", verif::Points());
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "history") Histories(r);
  else if (r.mode == "threads") Threads(r);
  else Report::Broken("mode?");
  return r.Finish();
}
