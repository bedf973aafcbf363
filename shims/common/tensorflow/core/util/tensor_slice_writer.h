// Stand-in for the checkpoint writer: reads every element it is given.
#ifndef VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include "absl/status/status.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/tensor_slice.h"
#include "verif_tensors.h"
namespace tensorflow {
namespace checkpoint {
inline void CreateTableTensorSliceBuilder() {}
class TensorSliceWriter {
 public:
  TensorSliceWriter(const std::string& filename, void (*)()) : filename_(filename) {}
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape, const TensorSlice& slice,
                   const T* data) {
    if (slice.dims() != shape.dims()) return absl::InternalError("incompatible tensor shape and slice");
    if (!all_.emplace(name, verif::PutDown(data, shape.num_elements())).second) {
      return absl::InvalidArgumentError("vector written twice");
    }
    return absl::OkStatus();
  }
  absl::Status Finish() {
    std::string partial = filename_ + ".tempstate";
    {
      std::ofstream f(partial, std::ios::binary | std::ios::trunc);
      f << verif::PutAllDown("checkpoint", all_);
      f.close();
      if (!f) return absl::InternalError("cannot write checkpoint");
    }
    if (rename(partial.c_str(), filename_.c_str()) != 0) return absl::InternalError("cannot rename checkpoint");
    return absl::OkStatus();
  }

 private:
  std::string filename_;
  std::map<std::string, std::string> all_;
};
}  // namespace checkpoint
}  // namespace tensorflow
#endif
