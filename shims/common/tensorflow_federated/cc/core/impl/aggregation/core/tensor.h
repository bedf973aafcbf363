// Stand-in for aggregation tensors.
#ifndef VERIF_SHIM_TFF_TENSOR_H_
#define VERIF_SHIM_TFF_TENSOR_H_
#include <memory>
#include <string>
#include <utility>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
#include "verif_tensors.h"
namespace tensorflow_federated {
namespace aggregation {
class Tensor {
 public:
  Tensor() : shape_({0}) {}
  static absl::StatusOr<Tensor> Create(DataType dtype, TensorShape shape, std::unique_ptr<TensorData> data) {
    size_t width = dtype == DT_STRING ? sizeof(absl::string_view)
                   : dtype == DT_INT32 || dtype == DT_FLOAT ? 4
                   : dtype == DT_INVALID ? 0 : 8;
    if (width == 0 || data->byte_size() != width * shape.elements()) {
      return absl::FailedPreconditionError("size of the data does not fit the tensor");
    }
    Tensor t;
    t.dtype_ = dtype;
    t.shape_ = std::move(shape);
    t.data_ = std::move(data);
    return t;
  }
  std::string Written() const {
    int64_t n = shape_.elements();
    switch (dtype_) {
      case DT_INT32: return verif::PutDown(static_cast<const int32_t*>(data_->data()), n);
      case DT_INT64: return verif::PutDown(static_cast<const int64_t*>(data_->data()), n);
      case DT_FLOAT: return verif::PutDown(static_cast<const float*>(data_->data()), n);
      case DT_DOUBLE: return verif::PutDown(static_cast<const double*>(data_->data()), n);
      case DT_STRING: return verif::PutDown(static_cast<const absl::string_view*>(data_->data()), n);
      default: return "invalid";
    }
  }

 private:
  DataType dtype_ = DT_INVALID;
  TensorShape shape_;
  std::unique_ptr<TensorData> data_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
