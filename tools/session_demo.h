// Runs one secure aggregation session in which given clients leave at given points.
#include <cstdio>
#include <map>

#include "null_tracing.h"
#include "secagg_world.h"

// Leaves before its message of that round is sent; 4 means it stays.
using LeaveAt = std::map<int, int>;

inline bool Ready(verif::World& w) {
  auto r = w.server->ReadyForNextRound();
  return r.ok() && *r;
}

// Returns -1 if the session did not complete, 0 if its result is wrong, 1 if right.
inline int RunSession(verif::WorldConfig cfg, uint64_t seed, const LeaveAt& leave,
                      std::vector<int> leave_during_unmasking = {}) {
  verif::Rng rng(seed, 1);
  verif::World w(cfg, rng);
  if (!w.server) return -1;
  std::vector<bool> gone(cfg.n);
  for (int round = 0; round < 4; ++round) {
    for (int i = 0; i < cfg.n; ++i) {
      auto it = leave.find(i);
      if (it != leave.end() && it->second == round && !gone[i]) {
        gone[i] = true;
        (void)w.DropClient(i, fcp::secagg::ClientAbortReason::CONNECTION_DROPPED);
      }
    }
    for (int i = 0; i < cfg.n; ++i) {
      if (gone[i]) continue;
      if (round == 0) {
        (void)w.StartClient(i);
        (void)w.GiveInput(i);
      }
      while (!w.to_client.q[i].empty()) (void)w.ToClient(i);
    }
    for (int i = 0; i < cfg.n; ++i) {
      while (!gone[i] && !w.to_server[i].empty()) {
        if (round == 3 && !Ready(w)) {
          for (int j : leave_during_unmasking) {
            if (!gone[j]) {
              gone[j] = true;
              (void)w.DropClient(j, fcp::secagg::ClientAbortReason::CONNECTION_DROPPED);
            }
          }
        }
        if (!gone[i]) (void)w.ToServer(i);
        else break;
      }
    }
    w.parallel.WaitUntilIdle();
    w.sequential.WaitUntilIdle();
    if (w.ServerDone() || !Ready(w)) return -1;
    (void)w.Proceed();
    for (int k = 0; k < 100; ++k) {
      w.parallel.WaitUntilIdle();
      w.sequential.WaitUntilIdle();
    }
  }
  if (w.State() == fcp::secagg::SecAggServerStateKind::PRNG_RUNNING) {
    (void)w.server->ProceedToNextRound();
  }
  if (!w.server->IsCompletedSuccessfully()) return -1;
  auto r = w.server->Result();
  if (!r.ok()) return -1;
  auto want = w.ExpectedSum();
  for (auto& s : cfg.specs) {
    if (!(*r)->count(s.name()) || (*r)->at(s.name()).GetAsUint64Vector() != want[s.name()]) return 0;
  }
  return 1;
}

inline verif::WorldConfig SmallConfig(int n, int min_clients) {
  verif::WorldConfig c;
  c.n = n;
  c.min_clients = min_clients;
  c.dropout = 0.5;
  c.specs.emplace_back("v", 5, 1000003);
  return c;
}
