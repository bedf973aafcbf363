// Stand-in for builders of checkpoints.
#ifndef VERIF_SHIM_TFF_CHECKPOINT_BUILDER_H_
#define VERIF_SHIM_TFF_CHECKPOINT_BUILDER_H_
#include <memory>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.h"
namespace tensorflow_federated {
namespace aggregation {
class CheckpointBuilder {
 public:
  virtual ~CheckpointBuilder() = default;
  virtual absl::Status Add(const std::string& name, const Tensor& tensor) = 0;
  virtual absl::StatusOr<absl::Cord> Build() = 0;
};
class CheckpointBuilderFactory {
 public:
  virtual ~CheckpointBuilderFactory() = default;
  virtual std::unique_ptr<CheckpointBuilder> Create() const = 0;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
