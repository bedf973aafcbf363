// Secure aggregation sessions with honest clients that come and go.
//   --mode=sum       the released sum is the sum of the inputs taken
//   --mode=progress  thresholds, bookkeeping, and who ends in which state
#include <cmath>

#include "null_tracing.h"
#include "secagg_world.h"

namespace verif {
namespace {

using fcp::secagg::ClientAbortReason;

struct Plan {
  enum Kind { kNone, kSilent, kClientAbort, kServerDrop } kind = kNone;
  int after = 0;  // moves of this client before it happens
  // Or: in this round of the server, before or after the client's answer was taken.
  bool in_round = false;
  SecAggServerStateKind round = SecAggServerStateKind::R0_ADVERTISE_KEYS;
  bool answered = false;
};

class Session {
 public:
  Session(Report& r, Rng rng, WorldConfig cfg)
      : r_(r),
        rng_(rng),
        w_(std::move(cfg), rng_),
        sum_(r.mode == "sum"),
        progress_(r.mode == "progress"),
        callback_(r.mode == "callback") {}

  void Run() {
    if (w_.server == nullptr) {
      r_.Count("configurations refused");
      return;
    }
    n_ = w_.cfg.n;
    plans_.resize(n_);
    moves_.resize(n_);
    double p_drop = rng_.Chance(0.2) ? 0 : rng_.Unit() * (rng_.Chance(0.7) ? 0.2 + w_.cfg.dropout : 0.9);
    for (auto& p : plans_) {
      if (!rng_.Chance(p_drop)) continue;
      p.kind = static_cast<Plan::Kind>(rng_.Range(1, 3));
      p.after = static_cast<int>(rng_.Range(0, 9));
      if (rng_.Chance(0.5)) {
        static const SecAggServerStateKind kRounds[] = {
            SecAggServerStateKind::R0_ADVERTISE_KEYS, SecAggServerStateKind::R1_SHARE_KEYS,
            SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION, SecAggServerStateKind::R3_UNMASKING,
            SecAggServerStateKind::PRNG_RUNNING};
        p.in_round = true;
        p.round = kRounds[rng_.Below(5)];
        p.answered = p.round != SecAggServerStateKind::PRNG_RUNNING && rng_.Chance(0.7);
      }
    }
    eager_ = rng_.Chance(0.3) ? 0.5 : rng_.Chance(0.5) ? 0.02 : 0;
    shared_.resize(n_);
    self_aborted_.resize(n_);
    told_.resize(n_);
    int64_t steps = 0;
    while (Step()) {
      if (++steps > 200000) {
        r_.Violation("session-never-ends", w_.cfg.Describe());
        return;
      }
      if (progress_) Observe();
      if (callback_) Register();
    }
    r_.Count("moves", steps);
    if (callback_) JudgeCallback();
    Judge();
  }

 private:
  struct Move {
    enum K { kStart, kInput, kToClient, kToServer, kTaskP, kTaskS, kLeave } k;
    int i;
  };

  bool Step() {
    std::vector<Move> mv;
    for (int i = 0; i < n_; ++i) {
      if (!w_.gone[i]) {
        if (!w_.started[i]) mv.push_back({Move::kStart, i});
        if (!w_.input_set[i]) mv.push_back({Move::kInput, i});
        if (w_.started[i] && !w_.to_client.q[i].empty()) {
          mv.push_back({Move::kToClient, i});
          mv.push_back({Move::kToClient, i});
        }
        auto& p = plans_[i];
        if (p.kind != Plan::kNone && p.in_round && !w_.ServerDone() && !w_.server_dead[i] &&
            w_.State() == p.round && w_.responded[i] == p.answered)
          mv.push_back({Move::kLeave, i});
      }
      if (!w_.to_server[i].empty()) {
        mv.push_back({Move::kToServer, i});
        mv.push_back({Move::kToServer, i});
      }
    }
    if (!w_.parallel.empty()) mv.push_back({Move::kTaskP, 0});
    if (!w_.sequential.empty()) mv.push_back({Move::kTaskS, 0});
    bool ready = false;
    if (!w_.ServerDone()) {
      auto s = w_.server->ReadyForNextRound();
      ready = s.ok() && *s;
    }
    if (ready && (mv.empty() || rng_.Chance(eager_))) {
      Proceed();
      return true;
    }
    if (mv.empty()) {
      if (w_.ServerDone()) return false;
      // Only silent clients are left to wait for: their connections close.
      for (int i = 0; i < n_; ++i) {
        if (!w_.server_dead[i] && !w_.responded[i] && w_.gone[i]) {
          auto s = w_.DropClient(i, ClientAbortReason::CONNECTION_DROPPED);
          if (!s.ok() && progress_) r_.Violation("drop-refused", s.ToString());
          return true;
        }
      }
      if (progress_) {
        r_.Violation("server-stuck", Where());
      }
      return false;
    }
    Move m = mv[rng_.Below(mv.size())];
    trace_ = Mix(trace_ ^ (m.k * 131 + m.i));
    switch (m.k) {
      case Move::kTaskP:
        w_.parallel.RunOne(rng_);
        return true;
      case Move::kTaskS:
        w_.sequential.RunOne(rng_);
        return true;
      case Move::kToServer: {
        auto before = w_.State();
        bool was_dead = w_.server_dead[m.i];
        bool done = w_.ServerDone();
        ClientToServerWrapperMessage msg;
        msg.ParseFromString(w_.to_server[m.i].front());
        if (msg.has_advertise_keys())
          advert_[m.i] = msg.advertise_keys().pair_of_public_keys().enc_pk();
        auto s = w_.ToServer(m.i);
        if (before == SecAggServerStateKind::R1_SHARE_KEYS && !was_dead &&
            msg.has_share_keys_response())
          shared_[m.i] = true;
        if (progress_ && !done && !was_dead && !s.ok() && !w_.ServerDone())
          r_.Violation("honest-message-refused", s.status().ToString() + " " + Where());
        return true;
      }
      default:
        break;
    }
    // A move of client i; its plan may take effect first.
    int i = m.i;
    if (plans_[i].kind != Plan::kNone &&
        (m.k == Move::kLeave || (!plans_[i].in_round && moves_[i]++ >= plans_[i].after))) {
      if (m.k == Move::kLeave && plans_[i].answered) r_.Count("dropouts after answering");
      auto kind = plans_[i].kind;
      plans_[i].kind = Plan::kNone;
      if (kind == Plan::kSilent) {
        w_.gone[i] = true;
        r_.Count("silent dropouts");
        return true;
      }
      if (kind == Plan::kClientAbort) {
        told_[i] = true;
        auto s = w_.clients[i]->Abort("leaving");
        (void)s;
        r_.Count("client aborts");
        return true;
      }
      static const ClientAbortReason kReasons[] = {
          ClientAbortReason::CONNECTION_DROPPED, ClientAbortReason::INVALID_MESSAGE,
          ClientAbortReason::NOT_CHECKED_IN};
      told_[i] = true;
      (void)w_.DropClient(i, kReasons[rng_.Below(3)]);
      if (rng_.Chance(0.5)) w_.gone[i] = true;
      r_.Count("server drops");
      return true;
    }
    switch (m.k) {
      case Move::kStart: {
        auto s = w_.StartClient(i);
        if (!s.ok() && progress_ && !told_[i])
          r_.Violation("honest-start-refused", s.ToString());
        break;
      }
      case Move::kInput: {
        auto s = w_.GiveInput(i);
        if (!s.ok() && progress_ && !told_[i] && !w_.clients[i]->IsAborted() &&
            !w_.clients[i]->IsCompletedSuccessfully())
          r_.Violation("honest-input-refused", s.ToString());
        break;
      }
      case Move::kToClient: {
        ServerToClientWrapperMessage msg;
        msg.ParseFromString(w_.to_client.q[i].front());
        if (msg.has_abort()) told_[i] = true;
        if (msg.has_share_keys_request()) NoteGraph(i, msg.share_keys_request());
        bool was_over = w_.clients[i]->IsAborted() || w_.clients[i]->IsCompletedSuccessfully();
        auto s = w_.ToClient(i);
        if (!was_over && w_.clients[i]->IsAborted() && !msg.has_abort()) {
          self_aborted_[i] = true;
          r_.Count("clients refusing for lack of neighbours");
        }
        if (progress_ && !was_over && !s.ok())
          r_.Violation("honest-server-message-refused", s.status().ToString() + " " + Where());
        break;
      }
      default:
        break;
    }
    return true;
  }

  void NoteGraph(int i, const fcp::secagg::ShareKeysRequest& req) {
    auto& v = keys_[i];
    for (auto& p : req.pairs_of_public_keys()) v.push_back(p.enc_pk());
  }

  void Proceed() {
    auto before = w_.State();
    alive_at_proceed_ = 0;
    for (int i = 0; i < n_; ++i) {
      if (before == SecAggServerStateKind::R3_UNMASKING)
        alive_at_proceed_ += !w_.server_dead[i] || w_.unmasked[i];
      else
        alive_at_proceed_ += !w_.server_dead[i];
    }
    int responded = 0;
    for (int i = 0; i < n_; ++i) responded += w_.responded[i] && !w_.server_dead[i];
    auto s = w_.Proceed();
    trace_ = Mix(trace_ ^ 7777);
    if (!s.ok()) {
      if (progress_) r_.Violation("ready-but-refused", s.ToString() + " " + Where());
      return;
    }
    r_.Count("round transitions");
    if (progress_ && !w_.server->IsAborted() &&
        before != SecAggServerStateKind::PRNG_RUNNING &&
        before != SecAggServerStateKind::R3_UNMASKING && responded < w_.effective_min)
      r_.Violation("proceeded-below-minimum",
                   Format("%d answered, minimum %d; ", responded, w_.effective_min) + Where());
    if (w_.server->IsAborted()) aborted_in_ = before;
  }

  void Observe() {
    if (!w_.to_client.unknown.empty()) r_.Violation("message-to-unknown-client", Where());
    if (w_.ServerDone()) return;
    auto dead = w_.server->AbortedClientIds();
    for (int i = 0; i < n_; ++i) {
      if (w_.server_dead[i] != (dead.count(i) > 0)) {
        r_.Violation("aborted-set-wrong",
                     Format("client %d: expected %s; ", i, w_.server_dead[i] ? "out" : "in") +
                         Where());
      }
    }
    bool taking = w_.State() == SecAggServerStateKind::R0_ADVERTISE_KEYS ||
                  w_.State() == SecAggServerStateKind::R1_SHARE_KEYS ||
                  w_.State() == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION;
    if (w_.server->IsNumberOfIncludedInputsCommitted() == taking ||
        w_.server->NumberOfIncludedInputs() != w_.IncludedCount())
      r_.Violation("included-count-wrong",
                   Format("reported %d (%s); ", w_.server->NumberOfIncludedInputs(),
                          w_.server->IsNumberOfIncludedInputsCommitted() ? "final" : "open") +
                       Where());
    if (w_.State() == SecAggServerStateKind::PRNG_RUNNING) return;
    int before = 0, after = 0, got = 0, ready = 0;
    for (int i = 0; i < n_; ++i) {
      if (w_.server_dead[i] && !(w_.State() == SecAggServerStateKind::R3_UNMASKING && w_.unmasked[i]))
        (w_.included[i] ? after : before)++;
      got += w_.responded[i];
      ready += w_.responded[i] && !w_.server_dead[i];
    }
    if (w_.server->NumberOfClientsFailedBeforeSendingMaskedInput() != before ||
        w_.server->NumberOfClientsFailedAfterSendingMaskedInput() != after ||
        w_.server->NumberOfAliveClients() != n_ - before - after) {
      r_.Violation("dropout-counts-wrong",
                   Format("expected before=%d after=%d got before=%d after=%d alive=%d; ", before,
                          after, w_.server->NumberOfClientsFailedBeforeSendingMaskedInput(),
                          w_.server->NumberOfClientsFailedAfterSendingMaskedInput(),
                          w_.server->NumberOfAliveClients()) +
                       Where());
    }
    auto ready_or = w_.server->ReadyForNextRound();
    if (!ready_or.ok()) {
      r_.Violation("ready-query-failed", Where());
      return;
    }
    bool r3 = w_.State() == SecAggServerStateKind::R3_UNMASKING;
    int usable = r3 ? w_.UnmaskedCount() : ready;
    int alive = r3 ? 0 : n_ - before - after;
    if (r3) {
      for (int i = 0; i < n_; ++i) alive += !w_.server_dead[i] || w_.unmasked[i];
    }
    bool too_few = alive < w_.effective_min;
    if (*ready_or && usable < w_.effective_min && !too_few)
      r_.Violation("ready-below-minimum",
                   Format("%d usable answers, minimum %d; ", usable, w_.effective_min) + Where());
    int pending = 0;
    for (int i = 0; i < n_; ++i) pending += !w_.server_dead[i] && !w_.responded[i];
    int needed = std::max(0, w_.effective_min - usable);
    auto needed_or = w_.server->MinimumMessagesNeededForNextRound();
    auto received_or = w_.server->NumberOfMessagesReceivedInThisRound();
    auto ready_count = w_.server->NumberOfClientsReadyForNextRound();
    if (w_.server->NumberOfPendingClients() != pending || !needed_or.ok() ||
        *needed_or != needed || !received_or.ok() || *received_or != got ||
        (!r3 && (!ready_count.ok() || *ready_count != ready)))
      r_.Violation(
          "round-counts-wrong",
          Format("expected pending=%d needed=%d received=%d ready=%d, got %d %d %d %d; ", pending,
                 needed, got, ready, w_.server->NumberOfPendingClients(),
                 needed_or.ok() ? *needed_or : -1, received_or.ok() ? *received_or : -1,
                 ready_count.ok() ? *ready_count : -1) +
              Where());
    r_.Eval();
  }

  // Shares available for each secret the server has to rebuild.
  bool EnoughShares() {
    std::map<std::string, int> owner;
    for (int i = 0; i < n_; ++i) {
      if (!advert_[i].empty()) owner[advert_[i]] = i;
    }
    std::vector<int> shares(n_, 0);
    for (int i = 0; i < n_; ++i) {
      if (!w_.unmasked[i]) continue;
      for (auto& k : keys_[i]) {
        auto it = owner.find(k);
        if (it != owner.end()) ++shares[it->second];
      }
    }
    int t = w_.server->MinimumSurvivingNeighborsForReconstruction();
    for (int j = 0; j < n_; ++j) {
      if ((w_.included[j] || shared_[j]) && shares[j] < t) return false;
    }
    return true;
  }

  // Asks, once and at any moment of the unmasking work, to be called back.
  void Register() {
    if (registered_ || w_.ServerDone() || w_.State() != SecAggServerStateKind::PRNG_RUNNING ||
        !rng_.Chance(0.3))
      return;
    registered_ = true;
    auto ready = w_.server->ReadyForNextRound();
    r_.Count(ready.ok() && *ready ? "callbacks set after the work" : "callbacks set during the work");
    bool set = w_.server->SetAsyncCallback([this] {
      ++called_;
      if (w_.State() != SecAggServerStateKind::PRNG_RUNNING) return;
      auto ready = w_.server->ReadyForNextRound();
      if (!ready.ok() || !*ready) r_.Violation("called-back-before-the-work-was-done", Where());
    });
    if (!set) r_.Violation("callback-refused", Where());
  }

  void JudgeCallback() {
    while (!w_.parallel.empty() || !w_.sequential.empty()) {
      if (!w_.parallel.empty()) w_.parallel.RunOne(rng_);
      if (!w_.sequential.empty()) w_.sequential.RunOne(rng_);
    }
    if (!w_.ServerDone()) return;
    r_.Eval();
    if (w_.server->SetAsyncCallback([this] { called_ += 100; }))
      r_.Violation("callback-taken-after-the-end", Where());
    if (!registered_) return;
    if (aborted_in_ == SecAggServerStateKind::PRNG_RUNNING) r_.Count("callbacks of failed work");
    if (called_ != 1) r_.Violation("callback-count", Format("called %d times; ", called_) + Where());
  }

  void Judge() {
    std::string sig = Format("%d %d %d", (int)w_.cfg.graph, (int)w_.cfg.async_round2, n_);
    for (int i = 0; i < n_; ++i)
      sig += Format("%d%d%d", (int)w_.included[i], (int)w_.unmasked[i], (int)w_.server_dead[i]);
    sig += Format("%d", (int)w_.State());
    r_.Distinct(sig);
    r_.Count(w_.server->IsCompletedSuccessfully() ? "sessions completed" : "sessions aborted");
    if (w_.server->IsCompletedSuccessfully()) {
      if (sum_) {
        r_.Eval();
        auto result = w_.server->Result();
        if (!result.ok()) {
          r_.Violation("no-result", result.status().ToString());
          return;
        }
        Plain want = w_.ExpectedSum();
        if ((*result)->size() != want.size()) r_.Violation("result-vectors-wrong", Where());
        for (auto& [name, v] : want) {
          auto it = (*result)->find(name);
          if (it == (*result)->end()) {
            r_.Violation("result-vector-missing", name + " " + Where());
            continue;
          }
          auto got = it->second.GetAsUint64Vector();
          if (got != v) {
            size_t k = 0;
            while (k < v.size() && k < got.size() && got[k] == v[k]) ++k;
            r_.Violation("sum-wrong",
                         Format("vector %s: element %zu of %zu is %llu, expected %llu; ",
                                name.c_str(), k, v.size(),
                                (unsigned long long)(k < got.size() ? got[k] : 0),
                                (unsigned long long)(k < v.size() ? v[k] : 0)) +
                             Where());
          }
          r_.Count("elements compared", v.size());
        }
        if (!w_.server->IsNumberOfIncludedInputsCommitted() ||
            w_.server->NumberOfIncludedInputs() != w_.IncludedCount()) {
          r_.Violation("included-count-wrong",
                       Format("reported %d, taken %d; ", w_.server->NumberOfIncludedInputs(),
                              w_.IncludedCount()) +
                           Where());
        }
      }
      if (progress_) {
        r_.Eval();
        if (w_.IncludedCount() < w_.effective_min || w_.UnmaskedCount() < w_.effective_min)
          r_.Violation("completed-below-minimum", Where());
        for (int i = 0; i < n_; ++i) {
          if (w_.gone[i] || told_[i]) continue;
          if (w_.unmasked[i] && !w_.clients[i]->IsCompletedSuccessfully())
            r_.Violation("unmasking-client-not-completed",
                         w_.clients[i]->State() + " " + Where());
        }
      }
    } else if (progress_) {
      r_.Eval();
      auto res = w_.server->Result();
      if (res.ok()) r_.Violation("result-without-completion", Where());
      if (aborted_in_ == SecAggServerStateKind::PRNG_RUNNING) {
        if (EnoughShares()) r_.Violation("aborted-with-enough-shares", Where());
        r_.Count("aborted for lack of shares");
      } else if (alive_at_proceed_ >= w_.effective_min) {
        r_.Violation("aborted-with-enough-clients",
                     Format("%d clients left; ", alive_at_proceed_) + Where());
      }
      for (int i = 0; i < n_; ++i) {
        if (w_.gone[i] || !w_.started[i]) continue;
        if (!w_.clients[i]->IsAborted() && !w_.clients[i]->IsCompletedSuccessfully() &&
            !w_.server_dead[i])
          r_.Violation("client-left-waiting", w_.clients[i]->State() + " " + Where());
      }
    }
    if (progress_ && w_.cfg.graph == WorldConfig::kFull) {
      for (int i = 0; i < n_; ++i) {
        if (self_aborted_[i]) r_.Violation("honest-client-refused", Where());
      }
    }
    if (r_.WantsSample() && w_.IncludedCount() < n_) {
      r_.Sample(Format("n=%d graph=%d min=%d taken=%d unmasked=%d -> %s, %zu background tasks left",
                       n_, (int)w_.cfg.graph, w_.effective_min, w_.IncludedCount(),
                       w_.UnmaskedCount(),
                       w_.server->IsCompletedSuccessfully() ? "completed" : "aborted",
                       w_.parallel.size() + w_.sequential.size()));
    }
  }

  std::string Where() {
    std::string s = Format("state=%d taken=%d unmasked=%d min=%d ", (int)w_.State(),
                           w_.IncludedCount(), w_.UnmaskedCount(), w_.effective_min);
    return s + w_.cfg.Describe();
  }

  Report& r_;
  Rng rng_;
  World w_;
  bool sum_, progress_, callback_;
  int n_ = 0;
  std::vector<Plan> plans_;
  std::vector<int> moves_;
  std::vector<bool> shared_, self_aborted_, told_;
  std::map<int, std::vector<std::string>> keys_;  // neighbours of a client, by public key
  std::map<int, std::string> advert_;             // public key of a client
  double eager_ = 0;
  int alive_at_proceed_ = 0;
  SecAggServerStateKind aborted_in_ = SecAggServerStateKind::R0_ADVERTISE_KEYS;
  uint64_t trace_ = 0;
  bool registered_ = false;
  int called_ = 0;
};

}  // namespace
}  // namespace verif

int main(int argc, char** argv) {
  verif::Report r(argc, argv);
  verif::NullRecorder::Install();
  bool progress = r.mode == "progress";
  if (r.mode != "sum" && !progress && r.mode != "callback") verif::Report::Broken("mode");
  int64_t cases = r.N(4000, 60000);
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    verif::Rng rng(r.seed, i + (progress ? 1000003 : 0));
    auto cfg = verif::RandomConfig(rng, rng.Chance(0.02) ? 60 : rng.Chance(0.1) ? 24 : 9);
    r.Case(i, cfg.Describe());
    verif::Session s(r, rng, cfg);
    s.Run();
  }
  // Sizes where the neighbour graph is chosen from the threat model.
  int64_t big = r.N(8, 64);
  for (int64_t i = 0; i < big; ++i) {
    if (!r.Mine(100000 + i)) continue;
    verif::Rng rng(r.seed, i + 5000011);
    verif::WorldConfig cfg;
    cfg.n = static_cast<int>(rng.Range(100, 160));
    cfg.graph = verif::WorldConfig::kAuto;
    cfg.adversary = fcp::secagg::AdversaryClass::CURIOUS_SERVER;
    cfg.adversarial = 0.01 + 0.05 * rng.Unit();
    cfg.dropout = 0.1 + 0.2 * rng.Unit();
    cfg.min_clients = 10;
    cfg.async_round2 = i % 2;
    cfg.specs.emplace_back("a", 3, verif::RandomModulus(rng));
    cfg.specs.emplace_back("b", 1, 1ull << 20);
    r.Case(100000 + i, cfg.Describe());
    verif::Session s(r, rng, cfg);
    s.Run();
  }
  return r.Finish();
}
