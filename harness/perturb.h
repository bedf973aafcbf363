// Perturbation of thread schedules, where the build has locks that do it.
#ifndef VERIF_HARNESS_PERTURB_H_
#define VERIF_HARNESS_PERTURB_H_

#include "common.h"

namespace verif {

#ifdef VERIF_SHIM_SYNC_H_
inline void Perturb(Rng& rng) {
  static const uint32_t kRates[] = {0, 2, 3, 5, 9, 20};
  verif_sched::seed().store(rng.U64() | 1);
  verif_sched::rate().store(kRates[rng.Below(6)]);
}
inline int64_t Points() { return static_cast<int64_t>(verif_sched::points().load()); }
#else
inline void Perturb(Rng&) {}
inline int64_t Points() { return 1; }
#endif

}  // namespace verif

#endif  // VERIF_HARNESS_PERTURB_H_
