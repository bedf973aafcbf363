#ifndef VERIF_SHIM_CPPBOR_PARSE_H_
#define VERIF_SHIM_CPPBOR_PARSE_H_

#include <cstring>

#include "libcppbor/include/cppbor/cppbor.h"

namespace cppbor {

using ParseResult =
    std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;

namespace details {

inline ParseResult ParseOne(const uint8_t* begin, const uint8_t* end, int depth) {
  auto fail = [&](const char* what) {
    return ParseResult(nullptr, begin, what);
  };
  const uint8_t* p = begin;
  if (p >= end) return fail("Need 1 byte(s) for type/tag, have 0.");
  if (depth > 200) return fail("Nesting too deep.");
  uint8_t major = *p & 0xe0, info = *p & 0x1f;
  ++p;
  uint64_t v = info;
  int width = 0;
  if (info >= 24) {
    if (info > 27) return fail("Reserved or indefinite-length value.");
    width = 1 << (info - 24);
    if (end - p < width) return fail("Need more bytes for length field.");
    v = 0;
    for (int i = 0; i < width; ++i) v = (v << 8) | *p++;
  }
  switch (major) {
    case UINT:
      return {std::make_unique<Uint>(v), p, ""};
    case NINT:
      if (v > static_cast<uint64_t>(INT64_MAX)) return fail("NINT out of range.");
      return {std::make_unique<Nint>(-1 - static_cast<int64_t>(v)), p, ""};
    case BSTR:
    case TSTR: {
      if (v > static_cast<uint64_t>(end - p)) return fail("Need more bytes for string.");
      std::unique_ptr<Item> item;
      if (major == BSTR) {
        item = std::make_unique<Bstr>(p, p + v);
      } else {
        item = std::make_unique<Tstr>(std::string(p, p + v));
      }
      return {std::move(item), p + v, ""};
    }
    case ARRAY: {
      if (v > static_cast<uint64_t>(end - p)) return fail("Not enough entries for array.");
      auto a = std::make_unique<Array>();
      for (uint64_t i = 0; i < v; ++i) {
        auto [item, pos, err] = ParseOne(p, end, depth + 1);
        if (item == nullptr) return {nullptr, pos, err};
        a->add(std::move(item));
        p = pos;
      }
      return {std::move(a), p, ""};
    }
    case MAP: {
      if (v > static_cast<uint64_t>(end - p)) return fail("Not enough entries for map.");
      auto m = std::make_unique<Map>();
      for (uint64_t i = 0; i < v; ++i) {
        auto [k, pos, err] = ParseOne(p, end, depth + 1);
        if (k == nullptr) return {nullptr, pos, err};
        auto [val, pos2, err2] = ParseOne(pos, end, depth + 1);
        if (val == nullptr) return {nullptr, pos2, err2};
        m->add(std::move(k), std::move(val));
        p = pos2;
      }
      return {std::move(m), p, ""};
    }
    case SEMANTIC: {
      auto [item, pos, err] = ParseOne(p, end, depth + 1);
      if (item == nullptr) return {nullptr, pos, err};
      return {std::make_unique<SemanticTag>(v, std::move(item)), pos, ""};
    }
    default:
      return {std::make_unique<Simple>(v, width), p, ""};
  }
}

}  // namespace details

inline ParseResult parse(const uint8_t* begin, const uint8_t* end) {
  return details::ParseOne(begin, end, 0);
}
inline ParseResult parse(const uint8_t* begin, size_t size) {
  return parse(begin, begin + size);
}
inline ParseResult parse(const std::vector<uint8_t>& v) {
  return parse(v.data(), v.size());
}

}  // namespace cppbor

#endif
