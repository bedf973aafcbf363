// Stand-in for the data types of aggregation tensors.
#ifndef VERIF_SHIM_TFF_TENSOR_PB_H_
#define VERIF_SHIM_TFF_TENSOR_PB_H_
namespace tensorflow_federated {
namespace aggregation {
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3, DT_STRING = 7, DT_INT64 = 9, DT_UINT64 = 23 };
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
