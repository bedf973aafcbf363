// Stand-in for the builder of the client report wire format.
#ifndef VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#define VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#include <map>
#include <memory>
#include <string>
#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated {
namespace aggregation {
class FederatedComputeCheckpointBuilderFactory : public CheckpointBuilderFactory {
 public:
  std::unique_ptr<CheckpointBuilder> Create() const override { return std::make_unique<Builder>(); }

 private:
  class Builder : public CheckpointBuilder {
   public:
    absl::Status Add(const std::string& name, const Tensor& tensor) override {
      if (!all_.emplace(name, tensor.Written()).second) {
        return absl::InvalidArgumentError("vector written twice");
      }
      return absl::OkStatus();
    }
    absl::StatusOr<absl::Cord> Build() override { return absl::Cord(verif::PutAllDown("report", all_)); }

   private:
    std::map<std::string, std::string> all_;
  };
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
