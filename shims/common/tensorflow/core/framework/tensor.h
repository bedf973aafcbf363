// Stand-in for tensors: a type, a shape and the elements.
#ifndef VERIF_SHIM_TF_TENSOR_H_
#define VERIF_SHIM_TF_TENSOR_H_
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/platform/tstring.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
class Tensor {
 public:
  template <typename T>
  struct Flat {
    T* p;
    int64_t n;
    int64_t size() const { return n; }
    T& operator()(int64_t i) const { return p[i]; }
  };
  template <typename T>
  struct Scalar {
    T* p;
    T& operator()() const { return *p; }
  };

  Tensor() : Tensor(DT_FLOAT, TensorShape({0})) {}
  Tensor(DataType type, const TensorShape& shape)
      : type_(type), shape_(shape), data_(std::make_shared<Data>()) {
    if (type == DT_STRING) {
      data_->strings.resize(shape.num_elements());
    } else {
      data_->raw.resize(shape.num_elements() * 8 / sizeof(uint64_t));
    }
  }
  explicit Tensor(std::string s) : Tensor(DT_STRING, TensorShape()) { data_->strings[0] = std::move(s); }

  DataType dtype() const { return type_; }
  const TensorShape& shape() const { return shape_; }
  int64_t NumElements() const { return shape_.num_elements(); }
  template <typename T>
  Flat<T> flat() const { return {At<T>(), NumElements()}; }
  template <typename T>
  Scalar<T> scalar() const { return {At<T>()}; }
  bool FromProto(const TensorProto& p) {
    TensorShape shape;
    for (const auto& d : p.tensor_shape().dim()) shape.AddDim(d.size());
    if (p.dtype() == DT_INVALID) return false;
    *this = Tensor(p.dtype(), shape);
    if (type_ == DT_STRING) {
      if (p.string_val_size() != NumElements()) return false;
      for (int i = 0; i < p.string_val_size(); ++i) data_->strings[i] = p.string_val(i);
    }
    return true;
  }
  void AsProtoField(TensorProto* p) const {
    p->set_dtype(type_);
    for (int i = 0; i < shape_.dims(); ++i) p->mutable_tensor_shape()->add_dim()->set_size(shape_.dim_size(i));
    for (const auto& s : data_->strings) p->add_string_val(s);
  }

 private:
  struct Data {
    std::vector<uint64_t> raw;
    std::vector<tstring> strings;
  };
  template <typename T>
  T* At() const {
    if constexpr (std::is_same_v<std::remove_const_t<T>, tstring>) {
      return data_->strings.data();
    } else {
      return reinterpret_cast<T*>(data_->raw.data());
    }
  }
  DataType type_;
  TensorShape shape_;
  std::shared_ptr<Data> data_;
};
}  // namespace tensorflow
#endif
