// Secure aggregation sessions whose background work runs on real thread pools,
// with aborts and dropouts at arbitrary moments.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "null_tracing.h"
#include "secagg_world.h"

namespace verif {
namespace {

using fcp::secagg::ClientAbortReason;

#if defined(VERIF_SHIM_SYNC_H_)
void Perturbation(Rng& rng) {
  verif_sched::seed().store(rng.U64() | 1);
  static const uint32_t kRates[] = {0, 2, 3, 5, 9};
  verif_sched::rate().store(kRates[rng.Below(5)]);
}
uint64_t Points() { return verif_sched::points().load(); }
#else
void Perturbation(Rng&) {}
uint64_t Points() { return 0; }
#endif

constexpr auto kPatience = std::chrono::seconds(60);

void Pause(Rng& rng, int max_us) {
  if (rng.Chance(0.5)) {
    std::this_thread::yield();
  } else {
    std::this_thread::sleep_for(std::chrono::microseconds(rng.Below(max_us)));
  }
}

// How often the server's "work is done" callback was called; outlives sessions.
struct Signal {
  std::mutex mu;
  std::condition_variable cv;
  int calls = 0;
};

void RunCase(Report& r, int64_t c) {
  Rng rng(r.seed, 3000000 + c);
  Perturbation(rng);
  WorldConfig cfg = RandomConfig(rng, rng.Chance(0.1) ? 20 : 8);
  cfg.async_round2 = rng.Chance(0.7);
  if (rng.Chance(0.3)) {
    // Work long enough for a server call to come in between.
    cfg.specs.clear();
    cfg.specs.emplace_back("long", static_cast<int>(rng.Range(200, 3000)), RandomModulus(rng));
  }
  r.Case(c, cfg.Describe());
  auto parallel = fcp::CreateThreadPoolScheduler(rng.Range(1, 4));
  auto sequential = fcp::CreateThreadPoolScheduler(1);
  auto signal = std::make_shared<Signal>();
  std::string outcome;
  {
    World w(cfg, rng, parallel.get(), sequential.get());
    if (w.server == nullptr) return;
    int n = w.cfg.n;
    double p_drop = rng.Chance(0.4) ? 0 : rng.Unit() * 0.3;
    // A server abort, after this many moves.
    int abort_after = rng.Chance(0.5) ? -1 : static_cast<int>(rng.Below(n * 9 + 6));
    int prng_abort = rng.Chance(0.4) ? static_cast<int>(rng.Below(300)) : -1;
    for (int i = 0; i < n; ++i) {
      (void)w.StartClient(i);
      (void)w.GiveInput(i);
    }
    bool aborted_by_us = false;
    int moves = 0;
    int observed = 0;
    auto deadline = std::chrono::steady_clock::now() + kPatience;
    while (!w.ServerDone()) {
      if (abort_after >= 0 && moves >= abort_after) {
        auto kind = w.State();
        auto s = w.server->Abort("told to stop", fcp::secagg::SecAggServerOutcome::EXTERNAL_REQUEST);
        if (!s.ok()) r.Violation("abort-refused", s.ToString());
        aborted_by_us = true;
        r.Count(kind == SecAggServerStateKind::PRNG_RUNNING ? "aborts while unmasking"
                : kind == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION
                    ? "aborts while collecting"
                    : "aborts at other times");
        break;
      }
      std::vector<std::pair<int, int>> mv;
      for (int i = 0; i < n; ++i) {
        if (!w.to_server[i].empty()) mv.push_back({0, i});
        if (!w.gone[i] && !w.to_client.q[i].empty()) mv.push_back({1, i});
      }
      if (!mv.empty()) {
        auto [k, i] = mv[rng.Below(mv.size())];
        ++moves;
        if (rng.Chance(p_drop * 0.1)) {
          w.gone[i] = true;
          (void)w.DropClient(i, ClientAbortReason::CONNECTION_DROPPED);
          continue;
        }
        if (k == 0) {
          (void)w.ToServer(i);
        } else {
          (void)w.ToClient(i);
        }
        continue;
      }
      if (w.State() == SecAggServerStateKind::PRNG_RUNNING) {
        ++moves;
        if (prng_abort >= 0) {
          // Somewhere near the moment the work ends.
          std::this_thread::sleep_for(std::chrono::microseconds(prng_abort));
          abort_after = moves;
          prng_abort = -1;
          continue;
        }
      }
      auto ready = w.server->ReadyForNextRound();
      if (ready.ok() && *ready) {
        auto s = w.Proceed();
        if (!s.ok()) r.Violation("ready-but-refused", s.ToString());
        ++moves;
        observed = 0;
        continue;
      }
      // Only background work is left, or clients that will not answer.
      bool waiting = false;
      if (rng.Chance(0.5)) {
        int before;
        {
          std::lock_guard<std::mutex> l(signal->mu);
          before = signal->calls;
        }
        waiting = w.server->SetAsyncCallback([signal] {
          std::lock_guard<std::mutex> l(signal->mu);
          ++signal->calls;
          signal->cv.notify_all();
        });
        if (waiting) {
          ++observed;
          std::unique_lock<std::mutex> l(signal->mu);
          if (!signal->cv.wait_for(l, kPatience, [&] { return signal->calls > before; })) {
            r.Violation("callback-never-called", Format("state %d", (int)w.State()));
            break;
          }
          l.unlock();
          r.Count("callbacks awaited");
          auto now_ready = w.server->ReadyForNextRound();
          if (w.State() == SecAggServerStateKind::PRNG_RUNNING && now_ready.ok() && !*now_ready) {
            r.Violation("callback-too-early", "called back but not ready to go on");
          }
          continue;
        }
      }
      if (w.State() == SecAggServerStateKind::PRNG_RUNNING || cfg.async_round2) {
        Pause(rng, 200);
        if (w.State() == SecAggServerStateKind::PRNG_RUNNING) {
          if (std::chrono::steady_clock::now() > deadline) {
            r.Violation("unmasking-never-ends", "not ready after a minute");
            break;
          }
          continue;
        }
      }
      bool dropped = false;
      for (int i = 0; i < n && !dropped; ++i) {
        if (w.server_dead[i] || w.responded[i] || !w.gone[i]) continue;
        (void)w.DropClient(i, ClientAbortReason::CONNECTION_DROPPED);
        dropped = true;
      }
      if (!dropped && std::chrono::steady_clock::now() > deadline) {
        r.Violation("session-stuck", Format("state %d", (int)w.State()));
        break;
      }
    }
    if (aborted_by_us) {
      if (!w.server->IsAborted() || w.server->IsCompletedSuccessfully()) {
        r.Violation("not-aborted", "server goes on after an abort");
      }
      if (rng.Chance(0.5)) Pause(rng, 400);
      if (w.server->Result().ok()) r.Violation("result-after-abort", "a sum is handed out");
      outcome = "aborted on request";
    } else if (w.server->IsCompletedSuccessfully()) {
      auto result = w.server->Result();
      if (!result.ok()) {
        r.Violation("no-result", result.status().ToString());
      } else {
        Plain want = w.ExpectedSum();
        for (auto& [name, v] : want) {
          auto it = (*result)->find(name);
          if (it == (*result)->end() || it->second.GetAsUint64Vector() != v) {
            r.Violation("sum-wrong", "vector " + name + "; " + w.cfg.Describe());
            break;
          }
        }
      }
      outcome = "sum compared";
    } else {
      outcome = "too few clients";
    }
    r.Eval();
    r.Count(outcome);
    r.Distinct(Format("n%d g%d a%d t%d %s s%d", n, (int)cfg.graph, (int)cfg.async_round2,
                      w.IncludedCount(), outcome.c_str(), observed));
    if (r.WantsSample()) {
      r.Sample(Format("%s: %d taken, %s", cfg.Describe().substr(0, 200).c_str(), w.IncludedCount(),
                      outcome.c_str()));
    }
    // The schedulers belong to the caller, who lets them come to rest first.
    parallel->WaitUntilIdle();
    sequential->WaitUntilIdle();
    parallel->WaitUntilIdle();
    if (aborted_by_us && (w.server->Result().ok() || !w.server->IsAborted())) {
      r.Violation("result-after-abort", "a sum appears later");
    }
  }
}

// ---- a client told to stop by another thread ----------------------------------

class LockedToServer : public fcp::secagg::SendToServerInterface {
 public:
  struct Box {
    std::mutex mu;
    std::vector<std::string> sent;
  };
  explicit LockedToServer(std::shared_ptr<Box> b) : b_(std::move(b)) {}
  void Send(ClientToServerWrapperMessage* m) override {
    std::string s = m->SerializeAsString();
    std::lock_guard<std::mutex> l(b_->mu);
    b_->sent.push_back(std::move(s));
  }

 private:
  std::shared_ptr<Box> b_;
};

// Makes the masks' generators as usual, but holds the client up inside its
// masking until another thread has had the time to tell it to stop.
struct Inside {
  int at = -1;  // which generator; -1 for none
  int made = 0;
  std::atomic<bool> reached{false};
  std::atomic<bool> calling{false};
};

class HeldUpFactory : public fcp::secagg::AesPrngFactory {
 public:
  explicit HeldUpFactory(Inside* in) : in_(in) {}
  std::unique_ptr<fcp::secagg::SecurePrng> MakePrng(
      const fcp::secagg::AesKey& key) const override {
    if (in_->made++ == in_->at) {
      in_->reached.store(true);
      auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
      while (!in_->calling.load() && std::chrono::steady_clock::now() < limit) {
        std::this_thread::yield();
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(20));
    }
    return real_.MakePrng(key);
  }
  bool SupportsBatchMode() const override { return real_.SupportsBatchMode(); }

 private:
  Inside* in_;
  fcp::secagg::AesCtrPrngFactory real_;
};

int stopped_inside = 0, masked_all_the_same = 0;

void ClientCase(Report& r, int64_t c) {
  Rng rng(r.seed, 6000000 + c);
  Perturbation(rng);
  WorldConfig cfg = RandomConfig(rng, 6);
  cfg.async_round2 = false;
  cfg.dropout = 0.6;
  cfg.min_clients = 2;
  if (rng.Chance(0.5)) {
    cfg.specs.clear();
    cfg.specs.emplace_back("long", static_cast<int>(rng.Range(200, 2000)), RandomModulus(rng));
  }
  r.Case(c, "client stopped from outside: " + cfg.Describe());
  World w(cfg, rng);
  if (w.server == nullptr) return;
  int n = w.cfg.n;
  int v = static_cast<int>(rng.Below(n));
  auto box = std::make_shared<LockedToServer::Box>();
  std::string prng_log;
  Inside inside;
  if (rng.Chance(0.08)) inside.at = static_cast<int>(rng.Below(n));
  w.clients[v] = std::make_unique<SecAggClient>(
      w.server->NumberOfNeighbors(), w.server->MinimumSurvivingNeighborsForReconstruction(),
      cfg.specs, std::make_unique<RecordingPrng>(&prng_log), std::make_unique<LockedToServer>(box),
      std::make_unique<NullListener>(), std::make_unique<HeldUpFactory>(&inside));
  SecAggClient* client = w.clients[v].get();
  std::atomic<int> victim_moves{0};
  std::atomic<bool> over{false};
  std::atomic<bool> returned{false};
  size_t sent_at_return = 0;
  bool ok_at_return = true, ended_at_return = true;
  int stop_at = static_cast<int>(rng.Below(7));
  uint64_t delay = rng.Chance(0.3) ? 0 : rng.Below(600);
  bool named = rng.Chance(0.5);
  int callers = rng.Chance(0.3) ? 2 : 1;
  auto stopper = [&](bool first) {
    if (inside.at >= 0) {
      while (!inside.reached.load() && !over.load()) std::this_thread::yield();
      inside.calling.store(true);
    } else {
      while (victim_moves.load() < stop_at && !over.load()) std::this_thread::yield();
      std::this_thread::sleep_for(std::chrono::microseconds(delay));
    }
    auto s = named ? client->Abort("stop now") : client->Abort();
    if (!first) return;
    size_t sent_by_now;
    {
      std::lock_guard<std::mutex> l(box->mu);
      sent_by_now = box->sent.size();
    }
    ok_at_return = s.ok();
    ended_at_return = client->IsAborted() || client->IsCompletedSuccessfully();
    sent_at_return = sent_by_now;
    returned.store(true);
  };
  std::vector<std::thread> threads;
  for (int k = 0; k < callers; ++k) threads.emplace_back(stopper, k == 0);
  std::thread asker([&] {
    while (!returned.load() && !over.load()) {
      (void)client->State();
      bool a = client->IsAborted(), b = client->IsCompletedSuccessfully();
      if (a && b) r.Violation("aborted-and-completed", client->State());
      (void)client->ErrorMessage();
      std::this_thread::yield();
    }
  });
  size_t drained = 0;
  auto deadline = std::chrono::steady_clock::now() + kPatience;
  int idle = 0;
  for (;;) {
    {
      std::lock_guard<std::mutex> l(box->mu);
      for (; drained < box->sent.size(); ++drained) w.to_server[v].push_back(box->sent[drained]);
    }
    if (w.ServerDone()) break;
    if (std::chrono::steady_clock::now() > deadline) {
      r.Violation("session-stuck", Format("state %d client %s", (int)w.State(), client->State().c_str()));
      break;
    }
    std::vector<std::pair<int, int>> mv;
    for (int i = 0; i < n; ++i) {
      if (!w.started[i]) mv.push_back({2, i});
      if (!w.input_set[i]) mv.push_back({3, i});
      if (!w.to_server[i].empty()) mv.push_back({0, i});
      if (w.started[i] && !w.to_client.q[i].empty()) mv.push_back({1, i});
    }
    if (!mv.empty()) {
      idle = 0;
      auto [k, i] = mv[rng.Below(mv.size())];
      if (k == 0) {
        (void)w.ToServer(i);
      } else if (k == 1) {
        (void)w.ToClient(i);
      } else if (k == 2) {
        (void)w.StartClient(i);
      } else {
        (void)w.GiveInput(i);
      }
      if (i == v) victim_moves.fetch_add(1);
      continue;
    }
    if (!w.parallel.empty()) {
      w.parallel.RunOne(rng);
      continue;
    }
    if (!w.sequential.empty()) {
      w.sequential.RunOne(rng);
      continue;
    }
    auto ready = w.server->ReadyForNextRound();
    if (ready.ok() && *ready) {
      (void)w.Proceed();
      continue;
    }
    // Everybody who is left has answered, or the stopped client has gone quiet
    // before it began.
    victim_moves.fetch_add(1);
    if (++idle > 3 && returned.load() && !w.server_dead[v] && !w.responded[v]) {
      bool pending;
      {
        std::lock_guard<std::mutex> l(box->mu);
        pending = drained < box->sent.size();
      }
      if (!pending) (void)w.DropClient(v, ClientAbortReason::CONNECTION_DROPPED);
    }
    std::this_thread::yield();
  }
  over.store(true);
  for (auto& t : threads) t.join();
  asker.join();
  // Whatever the server still had to say.
  while (!w.to_client.q[v].empty()) (void)w.ToClient(v);
  if (!ok_at_return) r.Violation("client-abort-refused", client->State());
  if (!ended_at_return) r.Violation("client-not-ended", client->State());
  std::vector<std::string> sent = box->sent;
  if (sent.size() != sent_at_return) {
    r.Violation("message-after-abort",
                Format("%zu messages sent after the client was stopped", sent.size() - sent_at_return));
  }
  int aborts = 0;
  bool masked = false;
  for (size_t i = 0; i < sent.size(); ++i) {
    ClientToServerWrapperMessage m;
    m.ParseFromString(sent[i]);
    masked |= m.has_masked_input_response();
    if (m.has_abort()) {
      ++aborts;
      if (i + 1 != sent.size()) r.Violation("message-after-abort", "abort is not the last message");
    }
  }
  if (inside.reached.load()) {
    r.Count("clients stopped while masking");
    ++stopped_inside;
    masked_all_the_same += masked;
  }
  if (aborts > 1) r.Violation("two-aborts-sent", Format("%d", aborts));
  if (client->IsCompletedSuccessfully() && aborts > 0) {
    r.Violation("abort-after-completion", "a completed client told the server to abort");
  }
  if (w.server->IsCompletedSuccessfully()) {
    auto result = w.server->Result();
    Plain want = w.ExpectedSum();
    for (auto& [name, x] : want) {
      if (!result.ok() || result.value()->count(name) == 0 ||
          result.value()->at(name).GetAsUint64Vector() != x) {
        r.Violation("sum-wrong", "vector " + name + "; " + cfg.Describe());
        break;
      }
    }
    r.Count("sums compared");
  }
  r.Eval();
  r.Count(client->IsAborted() ? "clients stopped" : "clients stopped too late");
  if (client->IsAborted() && sent.size() > 2) r.Count("clients stopped in the middle");
  r.Distinct(Format("%d %zu %d %d", stop_at, sent.size(), (int)client->IsAborted(), n));
  if (r.WantsSample()) {
    r.Sample(Format("client %d of %d stopped after about %d moves: %zu messages, ends in %s", v, n,
                    stop_at, sent.size(), client->State().c_str()));
  }
}

}  // namespace
}  // namespace verif

int main(int argc, char** argv) {
  verif::Report r(argc, argv);
  verif::NullRecorder::Install();
  bool client = r.mode == "client";
  int64_t cases = client ? r.N(4000, 80000) : r.N(2400, 40000);
  for (int64_t c = 0; c < cases; ++c) {
    if (!r.Mine(c)) continue;
    if (client) {
      verif::ClientCase(r, c);
    } else {
      verif::RunCase(r, c);
    }
  }
  // A single one may have been too late on a busy machine.
  if (client && verif::stopped_inside >= 8 &&
      verif::masked_all_the_same * 2 > verif::stopped_inside) {
    r.Violation("masked-input-after-stop",
                verif::Format("%d of %d clients told to stop while masking sent their masked input",
                              verif::masked_all_the_same, verif::stopped_inside));
  }
  r.Count("schedule perturbations", static_cast<int64_t>(verif::Points()));
  return r.Finish();
}
