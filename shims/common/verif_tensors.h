// How stand-ins of checkpoint writers put down a named vector.
#ifndef VERIF_SHIM_TENSORS_H_
#define VERIF_SHIM_TENSORS_H_
#include <cstdint>
#include <map>
#include <string>
#include <type_traits>
namespace verif {
template <typename T>
std::string PutDown(const T* data, int64_t n) {
  std::string o;
  auto text = [&](const std::string& s) { o += std::to_string(s.size()) + ":" + s; };
  for (int64_t i = 0; i < n; ++i) {
    if constexpr (std::is_arithmetic_v<T>) {
      T v = data[i];
      o.append(reinterpret_cast<const char*>(&v), sizeof v);
    } else {
      text(std::string(data[i].data(), data[i].size()));
    }
  }
  const char* kind = std::is_same_v<T, bool>      ? "bool"
                     : std::is_same_v<T, int32_t> ? "int32"
                     : std::is_same_v<T, int64_t> ? "int64"
                     : std::is_same_v<T, float>   ? "float"
                     : std::is_same_v<T, double>  ? "double"
                                                  : "string";
  return std::string(kind) + "[" + std::to_string(n) + "]" + o;
}
inline std::string PutAllDown(const char* format, const std::map<std::string, std::string>& all) {
  std::string o = format;
  for (const auto& [name, v] : all) {
    o += "\n" + std::to_string(name.size()) + ":" + name + "=" + std::to_string(v.size()) + ":" + v;
  }
  return o;
}
}  // namespace verif
#endif
