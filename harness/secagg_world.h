// A whole secure aggregation session in one process: the real server, real
// clients, and queues of serialized messages between them. Every scheduling
// choice (which message next, who drops out when, which background task runs)
// comes from the seed.
#ifndef VERIF_HARNESS_SECAGG_WORLD_H_
#define VERIF_HARNESS_SECAGG_WORLD_H_

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "common.h"
#include "fcp/base/clock.h"
#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"

namespace verif {

using fcp::secagg::ClientToServerWrapperMessage;
using fcp::secagg::InputVectorSpecification;
using fcp::secagg::SecAggClient;
using fcp::secagg::SecAggServer;
using fcp::secagg::SecAggServerStateKind;
using fcp::secagg::SecAggVector;
using fcp::secagg::SecAggVectorMap;
using fcp::secagg::ServerToClientWrapperMessage;

// Runs tasks one at a time when told to.
class PumpScheduler : public fcp::Scheduler {
 public:
  explicit PumpScheduler(bool fifo) : fifo_(fifo) {}
  void Schedule(std::function<void()> task) override { tasks_.push_back(std::move(task)); }
  void WaitUntilIdle() override {
    while (!tasks_.empty()) RunAt(0);
  }
  bool empty() const { return tasks_.empty(); }
  size_t size() const { return tasks_.size(); }
  void RunOne(Rng& rng) { RunAt(fifo_ ? 0 : rng.Below(tasks_.size())); }

 private:
  void RunAt(size_t i) {
    auto t = std::move(tasks_[i]);
    tasks_.erase(tasks_.begin() + i);
    t();
  }
  bool fifo_;
  std::deque<std::function<void()>> tasks_;
};

class SetExperiments : public fcp::secagg::ExperimentsInterface {
 public:
  explicit SetExperiments(std::set<std::string> on) : on_(std::move(on)) {}
  bool IsEnabled(absl::string_view name) override { return on_.count(std::string(name)) > 0; }

 private:
  std::set<std::string> on_;
};

class QueueToServer : public fcp::secagg::SendToServerInterface {
 public:
  explicit QueueToServer(std::deque<std::string>* q) : q_(q) {}
  void Send(ClientToServerWrapperMessage* m) override { q_->push_back(m->SerializeAsString()); }

 private:
  std::deque<std::string>* q_;
};

class QueueToClients : public fcp::secagg::SendToClientsInterface {
 public:
  std::vector<std::deque<std::string>> q;
  std::vector<std::string> unknown;  // recipients out of range
  void Send(uint32_t id, const ServerToClientWrapperMessage& m) override {
    if (id >= q.size()) {
      unknown.push_back(std::to_string(id));
      return;
    }
    q[id].push_back(m.SerializeAsString());
  }
};

class NullListener : public fcp::secagg::StateTransitionListenerInterface {
 public:
  void Transition(fcp::secagg::ClientState) override {}
  void Started(fcp::secagg::ClientState) override {}
  void Stopped(fcp::secagg::ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};

// Remembers what it handed out, so that a check can later recognise a key.
class RecordingPrng : public fcp::secagg::SecurePrng {
 public:
  explicit RecordingPrng(std::string* log) : log_(log) {}
  uint8_t Rand8() override {
    uint8_t b = prng_.Rand8();
    log_->push_back(static_cast<char>(b));
    return b;
  }
  uint64_t Rand64() override {
    uint64_t v = prng_.Rand64();
    log_->append(reinterpret_cast<char*>(&v), 8);
    return v;
  }

 private:
  fcp::secagg::CryptoRandPrng prng_;
  std::string* log_;
};

using Plain = std::map<std::string, std::vector<uint64_t>>;

inline std::unique_ptr<SecAggVectorMap> ToSecAggMap(
    const Plain& p, const std::vector<InputVectorSpecification>& specs) {
  auto m = std::make_unique<SecAggVectorMap>();
  for (const auto& s : specs) {
    m->emplace(s.name(), SecAggVector(p.at(s.name()), s.modulus()));
  }
  return m;
}

inline uint64_t AddMod64(uint64_t a, uint64_t b, uint64_t m) {
  return static_cast<uint64_t>((static_cast<unsigned __int128>(a) + b) % m);
}

struct WorldConfig {
  int n = 5;
  int min_clients = 3;
  double dropout = 0.5;
  double adversarial = 0;
  fcp::secagg::AdversaryClass adversary = fcp::secagg::AdversaryClass::NONE;
  enum Graph { kFull, kForcedSub, kAuto } graph = kFull;
  bool async_round2 = false;
  std::vector<InputVectorSpecification> specs;
  std::string Describe() const {
    std::string s = Format("n=%d min=%d dropout=%.3f graph=%d async=%d specs=", n, min_clients,
                           dropout, (int)graph, (int)async_round2);
    for (auto& x : specs) {
      s += Format("[%s len=%d mod=%llu]", x.name().c_str(), x.length(),
                  (unsigned long long)x.modulus());
    }
    return s;
  }
};

inline uint64_t RandomModulus(Rng& rng) {
  switch (rng.Below(6)) {
    case 0:
      return 2 + rng.Below(6);
    case 1:
      return 1ull << rng.Range(1, 62);
    case 2: {
      uint64_t p = 1ull << rng.Range(2, 61);
      return rng.Chance(0.5) ? p + 1 : p - 1;
    }
    case 3:
      return (1ull << 62) - rng.Below(4);
    default:
      return 2 + rng.Below((1ull << rng.Range(2, 62)) - 1);
  }
}

inline uint64_t RandomElement(Rng& rng, uint64_t modulus) {
  switch (rng.Below(5)) {
    case 0:
      return 0;
    case 1:
      return modulus - 1;
    default:
      return rng.Below(modulus);
  }
}

inline WorldConfig RandomConfig(Rng& rng, int max_n) {
  WorldConfig c;
  c.n = static_cast<int>(rng.Range(3, max_n));
  // Full graphs need at least 2 clients to proceed; forced subgraphs need
  // degree >= 2, that is n >= 4.
  c.graph = rng.Chance(0.5) && c.n >= 5 ? WorldConfig::kForcedSub : WorldConfig::kFull;
  c.dropout = rng.Chance(0.2) ? 0 : rng.Unit() * 0.7;
  c.min_clients = static_cast<int>(rng.Range(2, rng.Chance(0.3) ? c.n : std::max(2, c.n / 2)));
  c.async_round2 = rng.Chance(0.5);
  int specs = static_cast<int>(rng.Range(1, 4));
  for (int i = 0; i < specs; ++i) {
    int len = rng.Chance(0.15) ? static_cast<int>(rng.Range(30, 200))
                               : static_cast<int>(rng.Range(1, 12));
    c.specs.emplace_back(Format("v%d", i), len, RandomModulus(rng));
  }
  return c;
}

class World {
 public:
  // Background work goes to the given schedulers, or to the pumps below.
  World(WorldConfig c, Rng& rng, fcp::Scheduler* parallel_on = nullptr,
        fcp::Scheduler* sequential_on = nullptr)
      : cfg(std::move(c)), parallel(false), sequential(true) {
    if (parallel_on == nullptr) parallel_on = &parallel;
    if (sequential_on == nullptr) sequential_on = &sequential;
    std::set<std::string> on;
    if (cfg.graph == WorldConfig::kFull) on.insert(fcp::secagg::kFullgraphSecAggExperiment);
    if (cfg.graph == WorldConfig::kForcedSub)
      on.insert(fcp::secagg::kForceSubgraphSecAggExperiment);
    if (cfg.async_round2) on.insert(fcp::secagg::kSecAggAsyncRound2Experiment);
    fcp::secagg::SecureAggregationRequirements req;
    req.set_adversary_class(cfg.adversary);
    req.set_adversarial_client_rate(cfg.adversarial);
    req.set_estimated_dropout_rate(cfg.dropout);
    to_client.q.resize(cfg.n);
    auto server_or = SecAggServer::Create(
        cfg.min_clients, cfg.n, cfg.specs, &to_client, nullptr,
        std::make_unique<fcp::secagg::SecAggScheduler>(parallel_on, sequential_on,
                                                       fcp::Clock::RealClock()),
        std::make_unique<SetExperiments>(on), req);
    if (!server_or.ok()) {
      create_error = std::string(server_or.status().message());
      return;
    }
    server = std::move(server_or).value();
    effective_min = std::max(
        cfg.min_clients, static_cast<int>(std::ceil(cfg.n * (1. - cfg.dropout))));
    to_server.resize(cfg.n);
    prng_log.resize(cfg.n);
    for (int i = 0; i < cfg.n; ++i) {
      Plain p;
      for (auto& s : cfg.specs) {
        auto& v = p[s.name()];
        v.resize(s.length());
        for (auto& x : v) x = RandomElement(rng, s.modulus());
      }
      input.push_back(std::move(p));
      clients.push_back(std::make_unique<SecAggClient>(
          server->NumberOfNeighbors(), server->MinimumSurvivingNeighborsForReconstruction(),
          cfg.specs, std::make_unique<RecordingPrng>(&prng_log[i]),
          std::make_unique<QueueToServer>(&to_server[i]), std::make_unique<NullListener>(),
          std::make_unique<fcp::secagg::AesCtrPrngFactory>()));
    }
    started.resize(cfg.n);
    input_set.resize(cfg.n);
    gone.resize(cfg.n);
    server_dead.resize(cfg.n);
    responded.resize(cfg.n);
    included.resize(cfg.n);
    unmasked.resize(cfg.n);
  }

  Plain ExpectedSum() const {
    Plain sum;
    for (auto& s : cfg.specs) {
      auto& v = sum[s.name()];
      v.assign(s.length(), 0);
      for (int i = 0; i < cfg.n; ++i) {
        if (!included[i]) continue;
        for (int k = 0; k < s.length(); ++k) {
          v[k] = AddMod64(v[k], input[i].at(s.name())[k], s.modulus());
        }
      }
    }
    return sum;
  }
  int IncludedCount() const {
    int c = 0;
    for (bool b : included) c += b;
    return c;
  }
  int UnmaskedCount() const {
    int c = 0;
    for (bool b : unmasked) c += b;
    return c;
  }

  SecAggServerStateKind State() const { return server->State(); }
  bool ServerDone() const { return server->IsAborted() || server->IsCompletedSuccessfully(); }

  void DropAtServer(int i) {
    if (ServerDone()) return;
    server_dead[i] = true;
  }

  // ---- the moves ---------------------------------------------------------------
  absl::Status StartClient(int i) {
    started[i] = true;
    return clients[i]->Start();
  }
  absl::Status GiveInput(int i) {
    input_set[i] = true;
    return clients[i]->SetInput(ToSecAggMap(input[i], cfg.specs));
  }
  // Delivers the oldest message for client i. Returns what the client said.
  absl::StatusOr<bool> ToClient(int i) {
    ServerToClientWrapperMessage m;
    if (!m.ParseFromString(to_client.q[i].front())) Report::Broken("bad server message");
    to_client.q[i].pop_front();
    return clients[i]->ReceiveMessage(m);
  }
  // Delivers the oldest message of client i to the server, keeping the model in step.
  absl::StatusOr<bool> ToServer(int i) {
    auto m = std::make_unique<ClientToServerWrapperMessage>();
    if (!m->ParseFromString(to_server[i].front())) Report::Broken("bad client message");
    to_server[i].pop_front();
    auto kind = m->message_content_case();
    auto before = State();
    bool done = ServerDone();
    auto r = server->ReceiveMessage(i, std::move(m));
    if (done || server_dead[i]) return r;
    if (kind == ClientToServerWrapperMessage::kAbort) {
      server_dead[i] = true;
      return r;
    }
    if (before == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION &&
        kind == ClientToServerWrapperMessage::kMaskedInputResponse) {
      included[i] = true;
    }
    if (before == SecAggServerStateKind::R3_UNMASKING &&
        kind == ClientToServerWrapperMessage::kUnmaskingResponse) {
      unmasked[i] = true;
    }
    responded[i] = true;
    return r;
  }
  absl::Status Proceed() {
    auto before = State();
    auto s = server->ProceedToNextRound();
    if (!s.ok()) return s;
    if (!server->IsAborted() && before != SecAggServerStateKind::PRNG_RUNNING) {
      for (int i = 0; i < cfg.n; ++i) {
        if (!responded[i]) server_dead[i] = true;
        responded[i] = false;
      }
    }
    return s;
  }
  absl::Status DropClient(int i, fcp::secagg::ClientAbortReason reason) {
    bool done = ServerDone();
    auto s = server->AbortClient(i, reason);
    if (!done) server_dead[i] = true;
    return s;
  }

  WorldConfig cfg;
  std::string create_error;
  int effective_min = 0;
  PumpScheduler parallel, sequential;
  QueueToClients to_client;
  std::vector<std::deque<std::string>> to_server;
  std::vector<std::string> prng_log;
  std::unique_ptr<SecAggServer> server;
  std::vector<std::unique_ptr<SecAggClient>> clients;
  std::vector<Plain> input;

  // What the driver did, and the reference view of the session.
  std::vector<bool> started, input_set;
  std::vector<bool> gone;         // the client stopped answering
  std::vector<bool> server_dead;  // the server was told, or decided, it is out
  std::vector<bool> responded;    // answered in the current round
  std::vector<bool> included;     // its masked input was taken
  std::vector<bool> unmasked;     // its unmasking response was taken
};

}  // namespace verif

#endif  // VERIF_HARNESS_SECAGG_WORLD_H_
