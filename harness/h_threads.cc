// Thread pools, sequential workers, futures and clock wake-ups under real
// threads, with recorded histories judged against what each of them promises.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "common.h"
#include "fcp/base/clock.h"
#include "fcp/base/future.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"

using verif::Format;
using verif::Report;
using verif::Rng;

namespace {

#if defined(VERIF_SHIM_SYNC_H_)
void Perturbation(Rng& rng, int64_t c) {
  verif_sched::seed().store(rng.U64() | 1);
  static const uint32_t kRates[] = {0, 2, 3, 5, 9, 20};
  verif_sched::rate().store(kRates[rng.Below(6)]);
}
uint64_t Points() { return verif_sched::points().load(); }
#else
void Perturbation(Rng&, int64_t) {}
uint64_t Points() { return 0; }
#endif

constexpr auto kPatience = std::chrono::seconds(40);

void Spin(Rng& rng) {
  switch (rng.Below(8)) {
    case 0:
      std::this_thread::sleep_for(std::chrono::microseconds(rng.Below(200)));
      break;
    case 1:
    case 2:
      std::this_thread::yield();
      break;
    default:
      break;
  }
}

// A gate which many threads have to reach before any of them goes on.
class Meeting {
 public:
  explicit Meeting(int n) : missing_(n) {}
  bool Arrive() {
    std::unique_lock<std::mutex> l(mu_);
    if (--missing_ <= 0) {
      cv_.notify_all();
      return true;
    }
    return cv_.wait_for(l, kPatience, [&] { return missing_ <= 0; });
  }

 private:
  std::mutex mu_;
  std::condition_variable cv_;
  int missing_;
};

// ---- thread pool -----------------------------------------------------------

// One round of work on a pool: a random tree of tasks, some on workers.
class PoolRound {
 public:
  PoolRound(Report& r, fcp::Scheduler* pool, std::vector<std::unique_ptr<fcp::Worker>>* workers,
            uint64_t seed, int budget)
      : r_(r), pool_(pool), workers_(workers), seed_(seed), budget_(budget) {
    runs_ = std::vector<std::atomic<int>>(budget + 1);
    effect_.assign(budget + 1, 0);
    lanes_ = std::vector<Lane>(workers->size());
  }

  // Schedules one task (and through it, maybe, further ones).
  void Add(Rng& rng, int depth) {
    int id = next_.fetch_add(1);
    if (id >= budget_) return;
    // -1: on the pool itself.
    int lane = workers_->empty() || rng.Chance(0.4)
                   ? -1
                   : static_cast<int>(rng.Below(workers_->size()));
    scheduled_.fetch_add(1);
    auto token = std::make_shared<int>(id);
    if (lane < 0) {
      pool_->Schedule([this, id, depth, token] { Run(id, depth, -1); });
      return;
    }
    Lane& l = lanes_[lane];
    if (ordered_) {
      // With the order of calls known, tasks have to follow it.
      std::lock_guard<std::mutex> g(l.mu);
      l.order.push_back(id);
      (*workers_)[lane]->Schedule([this, id, depth, lane, token] { Run(id, depth, lane); });
    } else {
      (*workers_)[lane]->Schedule([this, id, depth, lane, token] { Run(id, depth, lane); });
    }
  }

  void Run(int id, int depth, int lane) {
    Rng rng(seed_, 1000 + id);
    int before = runs_[id].fetch_add(1);
    if (before != 0) r_.Violation("task-ran-twice", Format("task %d ran %d times", id, before + 1));
    running_.fetch_add(1);
    if (lane >= 0) {
      Lane& l = lanes_[lane];
      if (l.inside.exchange(true)) {
        r_.Violation("worker-overlap", Format("two tasks of worker %d ran at the same time", lane));
      }
      // Plain data: the worker alone has to keep its tasks apart.
      l.log.push_back(id);
      Spin(rng);
    } else {
      Spin(rng);
    }
    effect_[id] = id + 1;
    int kids = depth > 0 ? static_cast<int>(rng.Below(4)) : 0;
    for (int k = 0; k < kids; ++k) Add(rng, depth - 1);
    Spin(rng);
    if (lane >= 0) lanes_[lane].inside.store(false);
    running_.fetch_sub(1);
  }

  // After the pool was waited for and with nobody left to add to it.
  void Judge(const char* when) {
    int n = std::min(next_.load(), budget_);
    if (running_.load() != 0) {
      r_.Violation("idle-while-running", Format("%s: %d tasks still running", when, running_.load()));
      return;
    }
    for (int i = 0; i < n; ++i) {
      if (runs_[i].load() != 1) {
        r_.Violation(runs_[i].load() == 0 ? "task-not-run" : "task-ran-twice",
                     Format("%s: task %d of %d ran %d times", when, i, n, runs_[i].load()));
        return;
      }
      if (effect_[i] != i + 1) {
        r_.Violation("effect-lost", Format("%s: effect of task %d not seen", when, i));
        return;
      }
    }
    size_t on_workers = 0;
    for (size_t w = 0; w < lanes_.size(); ++w) {
      on_workers += lanes_[w].log.size();
      if (ordered_ && lanes_[w].log != lanes_[w].order) {
        std::string a, b;
        for (int x : lanes_[w].order) a += Format("%d ", x);
        for (int x : lanes_[w].log) b += Format("%d ", x);
        r_.Violation("worker-order",
                     Format("%s: worker %zu scheduled %s ran %s", when, w, a.c_str(), b.c_str()));
        return;
      }
    }
    r_.Eval(n);
    r_.Count("tasks run", n);
    r_.Count("tasks on workers", static_cast<int64_t>(on_workers));
  }

  void set_ordered(bool o) { ordered_ = o; }
  int scheduled() const { return scheduled_.load(); }
  int running() const { return running_.load(); }

 private:
  struct Lane {
    std::mutex mu;
    std::vector<int> order;
    std::vector<int> log;
    std::atomic<bool> inside{false};
  };
  Report& r_;
  fcp::Scheduler* pool_;
  std::vector<std::unique_ptr<fcp::Worker>>* workers_;
  uint64_t seed_;
  int budget_;
  bool ordered_ = true;
  std::atomic<int> next_{0}, scheduled_{0}, running_{0};
  std::vector<std::atomic<int>> runs_;
  std::vector<int> effect_;
  std::vector<Lane> lanes_;
};

// Very many tasks waiting at once: every thread is held until all are given.
void Burst(Report& r, Rng& rng, fcp::Scheduler* pool, std::vector<std::unique_ptr<fcp::Worker>>& workers,
           int threads, int n) {
  std::mutex mu;
  std::condition_variable cv;
  bool open = false;
  for (int i = 0; i < threads; ++i) {
    pool->Schedule([&] {
      std::unique_lock<std::mutex> l(mu);
      cv.wait(l, [&] { return open; });
    });
  }
  std::vector<std::atomic<int>> runs(n);
  std::vector<std::vector<int>> order(workers.size()), log(workers.size());
  for (int i = 0; i < n; ++i) {
    int lane = static_cast<int>(rng.Below(workers.size() + 1)) - 1;
    if (lane < 0) {
      pool->Schedule([&runs, i] { runs[i].fetch_add(1); });
    } else {
      order[lane].push_back(i);
      std::vector<int>* l = &log[lane];
      workers[lane]->Schedule([&runs, i, l] {
        runs[i].fetch_add(1);
        l->push_back(i);
      });
    }
  }
  {
    std::lock_guard<std::mutex> l(mu);
    open = true;
    cv.notify_all();
  }
  pool->WaitUntilIdle();
  for (int i = 0; i < n; ++i) {
    if (runs[i].load() != 1) {
      r.Violation(runs[i].load() == 0 ? "task-not-run" : "task-ran-twice",
                  Format("task %d of %d waiting at once ran %d times", i, n, runs[i].load()));
      break;
    }
  }
  for (size_t w = 0; w < workers.size(); ++w) {
    if (log[w] != order[w]) {
      r.Violation("worker-order", Format("worker %zu with %zu tasks waiting at once", w, order[w].size()));
    }
  }
  r.Eval(n);
  r.Count("tasks waiting at once", n);
}

void PoolCase(Report& r, int64_t c) {
  Rng rng(r.seed, 500000 + c);
  Perturbation(rng, c);
  int threads = static_cast<int>(rng.Chance(0.02) ? rng.Range(7, 40) : rng.Range(1, 6));
  int n_workers = static_cast<int>(rng.Range(0, 4));
  int rounds = static_cast<int>(rng.Range(1, 4));
  r.Case(c, Format("pool threads=%d workers=%d rounds=%d", threads, n_workers, rounds));
  std::unique_ptr<fcp::Scheduler> pool = fcp::CreateThreadPoolScheduler(threads);
  if (rng.Chance(0.3)) pool->WaitUntilIdle();
  std::vector<std::unique_ptr<fcp::Worker>> workers;
  for (int w = 0; w < n_workers; ++w) workers.push_back(pool->CreateWorker());
  int total = 0;
  if (c / 4 % 100 == 7) Burst(r, rng, pool.get(), workers, threads, c / 4 % 1000 == 7 ? 70000 : 5000);
  for (int round = 0; round < rounds; ++round) {
    switch (rng.Below(5)) {
      case 0: {
        // As many tasks as threads, each waiting for all the others.
        auto meet = std::make_shared<Meeting>(threads);
        auto met = std::make_shared<std::atomic<int>>(0);
        for (int i = 0; i < threads; ++i) {
          pool->Schedule([meet, met] {
            if (meet->Arrive()) met->fetch_add(1);
          });
        }
        pool->WaitUntilIdle();
        if (met->load() != threads) {
          r.Violation("threads-left-idle",
                      Format("%d tasks waiting for each other on %d threads: %d met", threads,
                             threads, met->load()));
        }
        r.Eval();
        r.Count("meetings of all threads");
        break;
      }
      case 1: {
        // Workers do not hold each other up: one task per worker meets.
        int k = std::min<int>(threads, n_workers);
        if (k == 0) break;
        auto meet = std::make_shared<Meeting>(k);
        auto met = std::make_shared<std::atomic<int>>(0);
        for (int i = 0; i < k; ++i) {
          workers[i]->Schedule([meet, met] {
            if (meet->Arrive()) met->fetch_add(1);
          });
        }
        pool->WaitUntilIdle();
        if (met->load() != k) {
          r.Violation("workers-held-up", Format("%d of %d workers met", met->load(), k));
        }
        r.Eval();
        r.Count("meetings of workers");
        break;
      }
      case 2: {
        // Waiting ends only when a task that is being held back has ended.
        std::atomic<bool> opened{false};
        std::mutex mu;
        std::condition_variable cv;
        bool open = false;
        int ended = 0;
        int held = static_cast<int>(rng.Range(1, threads));
        bool on_worker = n_workers > 0 && rng.Chance(0.4);
        auto body = [&] {
          std::unique_lock<std::mutex> l(mu);
          cv.wait(l, [&] { return open; });
          ++ended;
        };
        for (int i = 0; i < held; ++i) {
          if (on_worker) {
            workers[0]->Schedule(body);
          } else {
            pool->Schedule(body);
          }
        }
        uint64_t us = rng.Below(1500);
        std::thread opener([&] {
          std::this_thread::sleep_for(std::chrono::microseconds(us));
          std::lock_guard<std::mutex> l(mu);
          open = true;
          opened.store(true);
          cv.notify_all();
        });
        pool->WaitUntilIdle();
        bool was_open = opened.load();
        int seen = was_open ? (std::lock_guard<std::mutex>(mu), ended) : 0;
        opener.join();
        if (!was_open || seen != held) {
          r.Violation("idle-while-held", Format("waiting ended with %d of %d held tasks ended "
                                                "(released: %d)", seen, held, was_open));
          pool->WaitUntilIdle();
        }
        r.Eval();
        r.Count("waits for held tasks");
        break;
      }
      default: {
        PoolRound work(r, pool.get(), &workers, rng.U64(), static_cast<int>(rng.Range(1, 120)));
        work.set_ordered(!rng.Chance(0.3));
        int producers = static_cast<int>(rng.Range(0, 4));
        int own = static_cast<int>(rng.Range(1, 12));
        int depth = static_cast<int>(rng.Range(0, 4));
        std::vector<std::thread> others;
        for (int p = 0; p < producers; ++p) {
          uint64_t s = rng.U64();
          others.emplace_back([&work, s, own, depth] {
            Rng mine(s);
            for (int i = 0; i < own; ++i) {
              work.Add(mine, depth);
              Spin(mine);
            }
          });
        }
        std::atomic<bool> waited{false};
        std::thread waiter;
        if (rng.Chance(0.3)) {
          waiter = std::thread([&] {
            pool->WaitUntilIdle();
            waited.store(true);
          });
        }
        for (int i = 0; i < own; ++i) work.Add(rng, depth);
        for (auto& t : others) t.join();
        pool->WaitUntilIdle();
        if (waiter.joinable()) waiter.join();
        work.Judge(Format("threads=%d workers=%d producers=%d", threads, n_workers, producers).c_str());
        total += work.scheduled();
        r.Distinct(Format("t%d w%d p%d d%d n%d", threads, n_workers, producers, depth,
                          work.scheduled() / 8));
        break;
      }
    }
  }
  if (rng.Chance(0.5)) {
    workers.clear();
    pool->WaitUntilIdle();
  }
  workers.clear();
  pool.reset();
  r.Eval();
  r.Count("pools taken down");
  if (r.WantsSample()) {
    r.Sample(Format("pool of %d threads, %d workers, %d rounds: %d tasks each ran once, workers in order",
                    threads, n_workers, rounds, total));
  }
}

// ---- futures ------------------------------------------------------------------

struct Payload {
  explicit Payload(int v) : value(v), text(Format("value %d", v)) {}
  int value;
  std::string text;
};
using Value = std::unique_ptr<Payload>;

void FutureCase(Report& r, int64_t c) {
  Rng rng(r.seed, 600000 + c);
  Perturbation(rng, c);
  r.Case(c, "futures");
  int n = static_cast<int>(rng.Range(1, 10));
  struct Item {
    int kind;  // 0 set, 1 abandoned, 2 overwritten, 3 moved around then set, 4 scheduled, 5 future dropped
    int wait;  // 0 take at once, 1 poll, 2 wait long
    uint64_t seed;
  };
  std::vector<Item> items;
  for (int i = 0; i < n; ++i) {
    items.push_back({static_cast<int>(rng.Below(6)), static_cast<int>(rng.Below(3)), rng.U64()});
  }
  {
    // A promise that is replaced is given up at once, although the one it was
    // replaced with is still around.
    auto a = fcp::thread::MakeFuture<Value>();
    auto b = fcp::thread::MakeFuture<Value>();
    if (a.future.Wait(-absl::Seconds(rng.Below(3))) || a.future.Wait(-absl::InfiniteDuration())) {
      r.Violation("future-ready-too-early", "waiting for no time at all");
    }
    a.promise = std::move(b.promise);
    if (!a.future.Wait(absl::ZeroDuration())) {
      r.Violation("replaced-promise-still-open", "");
    } else if (std::move(a.future).Take().has_value()) {
      r.Violation("future-value-from-nowhere", "replaced promise");
    }
    if (b.future.Wait(absl::ZeroDuration())) r.Violation("future-ready-too-early", "promise only moved");
    std::move(a.promise).Set(std::make_unique<Payload>(5));
    if (!b.future.Wait(absl::InfiniteDuration())) r.Violation("future-never-ready", "waiting for ever");
    auto v = std::move(b.future).Take();
    if (!v.has_value() || *v == nullptr || (*v)->value != 5) r.Violation("future-wrong-value", "moved promise");
    r.Eval();
    r.Count("promises replaced");
  }
  std::unique_ptr<fcp::Scheduler> pool = fcp::CreateThreadPoolScheduler(rng.Range(1, 4));
  std::vector<std::optional<fcp::thread::Promise<Value>>> promises(n);
  std::vector<std::optional<fcp::thread::Future<Value>>> futures(n);
  std::vector<std::atomic<bool>> given(n);
  for (int i = 0; i < n; ++i) {
    if (items[i].kind == 4) {
      uint64_t s = items[i].seed;
      std::atomic<bool>* g = &given[i];
      futures[i].emplace(fcp::thread::ScheduleFuture<Value>(pool.get(), [s, i, g]() -> Value {
        Rng mine(s);
        Spin(mine);
        g->store(true);
        return std::make_unique<Payload>(i);
      }));
    } else {
      auto pair = fcp::thread::MakeFuture<Value>();
      promises[i].emplace(std::move(pair.promise));
      futures[i].emplace(std::move(pair.future));
    }
  }
  std::vector<std::thread> makers;
  int n_makers = static_cast<int>(rng.Range(1, 3));
  for (int m = 0; m < n_makers; ++m) {
    makers.emplace_back([&, m] {
      for (int i = m; i < n; i += n_makers) {
        if (!promises[i].has_value()) continue;
        Rng mine(items[i].seed);
        Spin(mine);
        switch (items[i].kind) {
          case 1:
            given[i].store(true);
            promises[i].reset();
            break;
          case 2: {
            given[i].store(true);
            auto other = fcp::thread::MakeFuture<Value>();
            *promises[i] = std::move(other.promise);
            Spin(mine);
            std::move(*promises[i]).Set(std::make_unique<Payload>(-i));
            auto v = std::move(other.future).Take();
            if (!v.has_value() || *v == nullptr || (*v)->value != -i) {
              r.Violation("future-wrong-value", "value given through a moved promise is lost");
            }
            break;
          }
          case 3: {
            fcp::thread::Promise<Value> a = std::move(*promises[i]);
            promises[i].reset();  // moved away: must not count as abandoned
            Spin(mine);
            fcp::thread::Promise<Value> b = std::move(a);
            given[i].store(true);
            std::move(b).Set(std::make_unique<Payload>(i));
            break;
          }
          default:
            given[i].store(true);
            std::move(*promises[i]).Set(std::make_unique<Payload>(i));
            if (mine.Chance(0.5)) promises[i].reset();
        }
      }
    });
  }
  std::vector<std::thread> takers;
  int n_takers = static_cast<int>(rng.Range(1, 3));
  for (int t = 0; t < n_takers; ++t) {
    takers.emplace_back([&, t] {
      for (int i = t; i < n; i += n_takers) {
        Rng mine(items[i].seed, 7);
        if (items[i].kind == 5) {
          // Nobody waits for this one.
          futures[i].reset();
          r.Count("futures dropped");
          continue;
        }
        fcp::thread::Future<Value> f = std::move(*futures[i]);
        if (mine.Chance(0.3)) futures[i].reset();
        bool ready = false;
        if (items[i].wait == 1) {
          ready = f.Wait(absl::Microseconds(mine.Below(50)));
          if (!ready) r.Count("waits that ran out");
        } else if (items[i].wait == 2) {
          bool forever = mine.Chance(0.4);
          ready = f.Wait(forever ? absl::InfiniteDuration() : absl::Seconds(60));
          if (!ready) {
            r.Violation("future-never-ready",
                        Format("kind %d: not ready within 60 s", items[i].kind));
            continue;
          }
        }
        if (ready && !given[i].load()) {
          r.Violation("future-ready-too-early", Format("kind %d", items[i].kind));
        }
        if (ready && !f.Wait(absl::ZeroDuration())) {
          r.Violation("future-not-ready-again", "ready once, then not");
        }
        if (!ready && !f.Wait(absl::Seconds(60))) {
          r.Violation("future-never-ready", Format("kind %d: not ready within 60 s", items[i].kind));
          continue;
        }
        std::optional<Value> v = std::move(f).Take();
        bool want = items[i].kind != 1 && items[i].kind != 2;
        if (v.has_value() != want) {
          r.Violation(want ? "future-value-lost" : "future-value-from-nowhere",
                      Format("kind %d", items[i].kind));
        } else if (want && (*v == nullptr || (*v)->value != i ||
                            (*v)->text != Format("value %d", i))) {
          r.Violation("future-wrong-value", Format("kind %d item %d", items[i].kind, i));
        }
        if (!given[i].load()) {
          r.Violation("future-ready-too-early", Format("taken before given, kind %d", items[i].kind));
        }
        r.Eval();
        r.Count(want ? "values taken" : "abandoned promises seen");
      }
    });
  }
  for (auto& t : makers) t.join();
  for (auto& t : takers) t.join();
  pool->WaitUntilIdle();
  std::string sig;
  for (auto& it : items) sig += Format("%d%d ", it.kind, it.wait);
  r.Distinct(sig + Format("m%d t%d", n_makers, n_takers));
  if (r.WantsSample()) {
    r.Sample(Format("%d futures (kind/wait: %s) with %d givers and %d takers", n, sig.c_str(),
                    n_makers, n_takers));
  }
}

// ---- clock ------------------------------------------------------------------------

// Wake-ups seen, in the order they happened.
struct WakeLog {
  std::mutex mu;
  std::vector<int> order;
};

class Waiter : public fcp::Clock::Waiter {
 public:
  Waiter(Report& r, fcp::Clock* clock, absl::Time deadline, int id, WakeLog* log, bool check_time,
         std::function<void()> then)
      : r_(r), clock_(clock), deadline_(deadline), id_(id), log_(log), check_time_(check_time),
        then_(std::move(then)) {}
  void WakeUp() override {
    if (check_time_ && clock_->Now() < deadline_) {
      r_.Violation("wakeup-too-early", Format("waiter %d woken at %s, deadline %s", id_,
                                              absl::FormatTime(clock_->Now()).c_str(),
                                              absl::FormatTime(deadline_).c_str()));
    }
    if (count.fetch_add(1) >= registered) r_.Violation("wakeup-twice", Format("waiter %d", id_));
    {
      std::lock_guard<std::mutex> l(log_->mu);
      log_->order.push_back(id_);
    }
    if (then_) then_();
  }
  absl::Time deadline() const { return deadline_; }
  std::atomic<int> count{0};
  int registered = 1;

 private:
  Report& r_;
  fcp::Clock* clock_;
  absl::Time deadline_;
  int id_;
  WakeLog* log_;
  bool check_time_;
  std::function<void()> then_;
};

// One thread, exact model: which waiters are woken by which step, in what order.
void ClockSequence(Report& r, int64_t c) {
  Rng rng(r.seed, 700000 + c);
  Perturbation(rng, c);
  std::string hist;
  absl::Time start = rng.Chance(0.3) ? absl::UnixEpoch()
                                     : absl::FromUnixMicros(static_cast<int64_t>(rng.Below(1ull << 50)));
  fcp::SimulatedClock clock(start);
  absl::Time now = start;
  WakeLog log;
  struct Pending {
    absl::Time deadline;
    int id;
    std::vector<absl::Duration> chain;  // waiters this one adds when woken
  };
  std::vector<Pending> pending;
  std::vector<std::shared_ptr<Waiter>> all;
  // id -> own chain
  int steps = static_cast<int>(rng.Range(3, 40));
  std::function<std::shared_ptr<Waiter>(absl::Time, int)> make;
  std::map<int, std::vector<absl::Time>> chain;
  int next_id = 0;
  make = [&](absl::Time deadline, int id) {
    auto it = chain.find(id);
    std::function<void()> then;
    if (it != chain.end()) {
      then = [&, id] {
        for (absl::Time d : chain[id]) {
          int nid = next_id++;
          auto w = make(d, nid);
          all.push_back(w);
          clock.WakeupWithDeadline(d, w);
        }
      };
    }
    return std::make_shared<Waiter>(r, &clock, deadline, id, &log, true, then);
  };
  // What has to be woken, in order, by a step that ends with the clock at `now`.
  // Waiters added while others are being woken come in a later batch.
  int model_next = 0;
  auto settle = [&](std::vector<int>* out) {
    for (;;) {
      std::stable_sort(pending.begin(), pending.end(),
                       [](const Pending& a, const Pending& b) { return a.deadline < b.deadline; });
      std::vector<Pending> due;
      while (!pending.empty() && pending.front().deadline <= now) {
        due.push_back(pending.front());
        pending.erase(pending.begin());
      }
      if (due.empty()) return;
      for (auto& d : due) {
        out->push_back(d.id);
        auto it = chain.find(d.id);
        if (it != chain.end()) {
          for (absl::Time t : it->second) pending.push_back({t, model_next++, {}});
        }
      }
    }
  };
  for (int s = 0; s < steps; ++s) {
    std::vector<int> want;
    size_t before = log.order.size();
    int op = static_cast<int>(rng.Below(10));
    if (op < 6) {
      absl::Duration d;
      switch (rng.Below(6)) {
        case 0: d = absl::ZeroDuration(); break;
        case 1: d = -absl::Microseconds(rng.Range(1, 3000)); break;
        case 2: d = absl::Nanoseconds(rng.Range(1, 9)); break;
        case 3: d = absl::Milliseconds(rng.Range(1, 5)); break;
        case 4: d = absl::Milliseconds(rng.Range(1, 5)) + absl::Nanoseconds(1); break;
        default: d = absl::Seconds(rng.Range(1, 100));
      }
      absl::Time deadline = rng.Chance(0.02) ? absl::InfiniteFuture() : now + d;
      int id = next_id++;
      model_next = next_id;
      if (rng.Chance(0.3)) {
        int k = static_cast<int>(rng.Range(1, 3));
        for (int i = 0; i < k; ++i) {
          chain[id].push_back(deadline + absl::Milliseconds(rng.Range(-3, 3)));
        }
      }
      auto w = make(deadline, id);
      all.push_back(w);
      pending.push_back({deadline, id, {}});
      hist += Format("wait%d@%s ", id, absl::FormatDuration(deadline - start).c_str());
      settle(&want);
      clock.WakeupWithDeadline(deadline, w);
      // The same waiter once more, to be woken as often.
      if (deadline > now && rng.Chance(0.15)) {
        w->registered = 2;
        pending.push_back({deadline, id, {}});
        hist += Format("again%d ", id);
        clock.WakeupWithDeadline(deadline, w);
        r.Count("waiters registered twice");
      }
    } else if (rng.Chance(0.05)) {
      model_next = next_id;
      absl::Duration d = absl::Microseconds(rng.Range(1, 3000));
      now -= d;
      hist += Format("back to %s ", absl::FormatDuration(now - start).c_str());
      settle(&want);
      if (rng.Chance(0.5)) {
        clock.AdvanceTime(-d);
      } else {
        clock.SetTime(now);
      }
      r.Count("times set back");
    } else {
      model_next = next_id;
      absl::Duration d = rng.Chance(0.5) ? absl::Milliseconds(rng.Range(0, 4))
                                         : absl::Nanoseconds(rng.Range(0, 10));
      if (rng.Chance(0.1)) d = absl::Seconds(rng.Range(1, 60));
      now += d;
      hist += Format("now=%s ", absl::FormatDuration(now - start).c_str());
      settle(&want);
      if (rng.Chance(0.5)) {
        clock.AdvanceTime(d);
      } else {
        clock.SetTime(now);
      }
    }
    r.Case(c, "clock steps: " + hist);
    std::vector<int> got(log.order.begin() + before, log.order.end());
    if (got != want) {
      std::string a, b;
      for (int x : want) a += Format("%d ", x);
      for (int x : got) b += Format("%d ", x);
      r.Violation("wakeup-order", Format("after %s: expected waiters [%s] woken, got [%s]",
                                         hist.c_str(), a.c_str(), b.c_str()));
      return;
    }
    if (clock.Now() != now) {
      r.Violation("clock-time", "simulated time is not what was set");
      return;
    }
    r.Eval();
    if (!want.empty()) r.Count("steps that woke somebody");
  }
  r.Distinct(hist.size() > 400 ? hist.substr(0, 400) : hist);
  if (r.WantsSample() && c % 3 == 0) r.Sample(hist.substr(0, 300));
}

// Many threads moving the time: no step is lost, nobody sees it go back.
void ClockSteps(Report& r, int64_t c) {
  Rng rng(r.seed, 850000 + c);
  r.Case(c, "simulated clock, steps from several threads");
  fcp::SimulatedClock sim;
  absl::Time start = sim.Now();
  int n_threads = static_cast<int>(rng.Range(2, 6));
  std::atomic<int64_t> total{0};
  std::atomic<bool> go{false}, back{false};
  std::vector<std::thread> threads;
  for (int t = 0; t < n_threads; ++t) {
    uint64_t s = rng.U64();
    threads.emplace_back([&, s] {
      Rng mr(s);
      while (!go.load()) std::this_thread::yield();
      absl::Time seen = sim.Now();
      for (int i = 0; i < 400; ++i) {
        int64_t us = mr.Range(1, 3000000);
        sim.AdvanceTime(absl::Microseconds(us));
        total.fetch_add(us);
        absl::Time now = sim.Now();
        if (now < seen + absl::Microseconds(us)) back.store(true);
        seen = now;
      }
    });
  }
  go.store(true);
  for (auto& t : threads) t.join();
  r.Eval();
  r.Count("steps from several threads", 400 * n_threads);
  if (back.load()) r.Violation("clock-time", "a thread did not see its own step");
  if (sim.Now() - start != absl::Microseconds(total.load())) {
    r.Violation("clock-time", Format("steps of %lld us moved the time by %s", (long long)total.load(),
                                     absl::FormatDuration(sim.Now() - start).c_str()));
  }
}

// Many threads setting deadlines and moving the time.
void ClockThreads(Report& r, int64_t c, bool real) {
  Rng rng(r.seed, 800000 + c);
  Perturbation(rng, c);
  r.Case(c, real ? "real clock, threads" : "simulated clock, threads");
  fcp::SimulatedClock sim;
  fcp::Clock* clock = real ? fcp::Clock::RealClock() : &sim;
  WakeLog log;
  int n_threads = static_cast<int>(rng.Range(2, 5));
  int per = static_cast<int>(rng.Range(1, 8));
  std::vector<std::vector<std::shared_ptr<Waiter>>> mine(n_threads);
  std::vector<std::thread> threads;
  std::mutex extra_mu;
  std::vector<std::shared_ptr<Waiter>> extra;
  std::atomic<int> ids{0};
  for (int t = 0; t < n_threads; ++t) {
    uint64_t s = rng.U64();
    threads.emplace_back([&, t, s] {
      Rng mr(s);
      for (int i = 0; i < per; ++i) {
        if (!real && mr.Chance(0.4)) {
          sim.AdvanceTime(absl::Microseconds(mr.Range(1, 400)));
        }
        absl::Time deadline = clock->Now() + absl::Microseconds(mr.Range(-200, real ? 3000 : 900));
        std::function<void()> then;
        if (mr.Chance(0.3)) {
          absl::Time next = deadline + absl::Microseconds(mr.Range(-100, 500));
          then = [&, next] {
            auto w = std::make_shared<Waiter>(r, clock, next, ids.fetch_add(1), &log, true, nullptr);
            {
              std::lock_guard<std::mutex> l(extra_mu);
              extra.push_back(w);
            }
            clock->WakeupWithDeadline(next, w);
          };
        }
        auto w = std::make_shared<Waiter>(r, clock, deadline, ids.fetch_add(1), &log, true, then);
        mine[t].push_back(w);
        clock->WakeupWithDeadline(deadline, w);
        Spin(mr);
      }
    });
  }
  for (auto& t : threads) t.join();
  auto due_not_woken = [&](absl::Time now) {
    int n = 0;
    for (auto& v : mine)
      for (auto& w : v) n += w->deadline() <= now && w->count.load() == 0;
    std::lock_guard<std::mutex> l(extra_mu);
    for (auto& w : extra) n += w->deadline() <= now && w->count.load() == 0;
    return n;
  };
  if (real) {
    // Everything is due within a few milliseconds; half a minute is ample.
    auto until = std::chrono::steady_clock::now() + kPatience;
    int missing = 1;
    while ((missing = due_not_woken(absl::InfiniteFuture())) > 0 &&
           std::chrono::steady_clock::now() < until) {
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    // Waiters added by the last ones.
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    while ((missing = due_not_woken(absl::InfiniteFuture())) > 0 &&
           std::chrono::steady_clock::now() < until) {
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    if (missing > 0) {
      r.Violation("wakeup-missing", Format("real clock: %d waiters not woken long after", missing));
      // The waiters refer to this frame; do not go on.
      exit(r.Finish());
    }
    // Let the last wake-up return before its surroundings go away.
    std::atomic<bool> last{false};
    struct Last : fcp::Clock::Waiter {
      explicit Last(std::atomic<bool>* b) : b(b) {}
      void WakeUp() override { b->store(true); }
      std::atomic<bool>* b;
    };
    for (int i = 0; i < 2; ++i) {
      last.store(false);
      auto w = std::make_shared<Last>(&last);
      clock->WakeupWithDeadline(clock->Now() + absl::Microseconds(300), w);
      while (!last.load()) {
        if (std::chrono::steady_clock::now() > until) {
          r.Violation("wakeup-missing", "real clock: lone waiter not woken long after");
          exit(r.Finish());
        }
        std::this_thread::sleep_for(std::chrono::microseconds(100));
      }
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
  } else {
    int missing = due_not_woken(sim.Now());
    if (missing > 0) {
      r.Violation("wakeup-missing",
                  Format("simulated clock: %d waiters due but not woken once all calls returned", missing));
    }
    sim.AdvanceTime(absl::Hours(1));
    missing = due_not_woken(sim.Now());
    if (missing > 0) r.Violation("wakeup-missing", "simulated clock: not woken by the last step");
  }
  r.Eval(static_cast<int64_t>(log.order.size()));
  r.Count(real ? "wake-ups by the real clock" : "wake-ups with threads",
          static_cast<int64_t>(log.order.size()));
  r.Distinct(Format("%s t%d p%d", real ? "real" : "sim", n_threads, per));
}

void SleepCase(Report& r, int64_t c) {
  Rng rng(r.seed, 900000 + c);
  r.Case(c, "sleep");
  fcp::SimulatedClock sim;
  absl::Duration d = absl::Milliseconds(rng.Range(1, 50));
  std::atomic<bool> slept{false};
  std::atomic<int64_t> woke_at{0};
  std::atomic<bool> started{false};
  std::thread sleeper([&] {
    started.store(true);
    absl::Time t0 = sim.Now();
    sim.Sleep(d);
    woke_at.store(absl::ToInt64Nanoseconds(sim.Now() - t0));
    slept.store(true);
  });
  // Mostly the sleeper is there by now, and moving the time by just what it
  // asked for has to be enough.
  while (!started.load()) std::this_thread::yield();
  std::this_thread::sleep_for(std::chrono::milliseconds(1));
  absl::Duration part = d * rng.Unit();
  sim.AdvanceTime(part);
  if (slept.load()) r.Violation("sleep-too-short", "returned halfway");
  sim.AdvanceTime(d - part);
  for (int k = 0; k < 100 && !slept.load(); ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  static int exact = 0, tries = 0;
  ++tries;
  if (slept.load()) ++exact;
  if (tries == 20 && exact == 0) r.Violation("sleep-too-long", "no sleeper of 20 returned when its time had come");
  while (!slept.load()) {
    sim.AdvanceTime(absl::Milliseconds(rng.Range(1, 7)));
    std::this_thread::yield();
  }
  sleeper.join();
  // Sleeping for no time.
  auto done = std::make_shared<std::atomic<bool>>(false);
  auto own = std::make_shared<fcp::SimulatedClock>();
  std::thread nap([done, own] {
    own->Sleep(absl::ZeroDuration());
    own->Sleep(-absl::Seconds(1));
    done->store(true);
  });
  auto until = std::chrono::steady_clock::now() + kPatience;
  while (!done->load() && std::chrono::steady_clock::now() < until) {
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  if (!done->load()) {
    r.Violation("sleep-too-long", "sleeping for no time did not return");
    nap.detach();
    exit(r.Finish());
  }
  nap.join();
  if (absl::Nanoseconds(woke_at.load()) < d) {
    r.Violation("sleep-too-short", Format("slept %lld ns of %lld", (long long)woke_at.load(),
                                          (long long)absl::ToInt64Nanoseconds(d)));
  }
  absl::Time a = fcp::Clock::RealClock()->Now();
  absl::Duration rd = absl::Microseconds(rng.Range(0, 1500));
  auto s0 = std::chrono::steady_clock::now();
  fcp::Clock::RealClock()->Sleep(rd);
  auto s1 = std::chrono::steady_clock::now();
  if (absl::FromChrono(s1 - s0) + absl::Microseconds(100) < rd) {
    r.Violation("sleep-too-short", "real clock");
  }
  if (fcp::Clock::RealClock()->Now() < a - absl::Seconds(1)) {
    r.Violation("clock-time", "real clock went back");
  }
  r.Eval();
  r.Count("sleeps");
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "pool") {
    int64_t n = r.N(16000, 200000);
    for (int64_t c = 0; c < n; ++c)
      if (r.Mine(c)) PoolCase(r, c);
  } else if (r.mode == "future") {
    int64_t n = r.N(24000, 400000);
    for (int64_t c = 0; c < n; ++c)
      if (r.Mine(c)) FutureCase(r, c);
  } else if (r.mode == "clock") {
    int64_t n = r.N(8000, 200000);
    for (int64_t c = 0; c < n; ++c) {
      if (!r.Mine(c)) continue;
      if (c % 10 < 6) {
        ClockSequence(r, c);
      } else if (c % 10 < 8) {
        ClockThreads(r, c, false);
      } else if (c % 40 < 20) {
        ClockThreads(r, c, true);
      } else if (c % 40 < 30) {
        SleepCase(r, c);
      } else if (c % 40 >= 38) {
        ClockSteps(r, c);
      }
    }
  } else {
    Report::Broken("unknown mode");
  }
  r.Count("schedule perturbations", static_cast<int64_t>(Points()));
  return r.Finish();
}
