// Minimal re-implementation of the part of libcppbor's interface that
// fcp/confidentialcompute/cose.cc uses (definite lengths only).
#ifndef VERIF_SHIM_CPPBOR_H_
#define VERIF_SHIM_CPPBOR_H_

#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cppbor {

enum MajorType : uint8_t {
  UINT = 0 << 5,
  NINT = 1 << 5,
  BSTR = 2 << 5,
  TSTR = 3 << 5,
  ARRAY = 4 << 5,
  MAP = 5 << 5,
  SEMANTIC = 6 << 5,
  SIMPLE = 7 << 5,
};

class Int;
class Uint;
class Nint;
class Bstr;
class Tstr;
class Array;
class Map;
class Simple;
class SemanticTag;

inline void EncodeHeader(uint8_t major, uint64_t v, std::vector<uint8_t>* out) {
  int n = v < 24 ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffu ? 4 : 8;
  if (n == 0) {
    out->push_back(major | static_cast<uint8_t>(v));
    return;
  }
  out->push_back(major | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27));
  for (int i = n - 1; i >= 0; --i) out->push_back((v >> (8 * i)) & 0xff);
}

class Item {
 public:
  virtual ~Item() {}
  virtual MajorType type() const = 0;
  virtual void encodeTo(std::vector<uint8_t>* out) const = 0;
  virtual Int* asInt() { return nullptr; }
  const Int* asInt() const { return const_cast<Item*>(this)->asInt(); }
  virtual Uint* asUint() { return nullptr; }
  virtual Nint* asNint() { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; }
  const Bstr* asBstr() const { return const_cast<Item*>(this)->asBstr(); }
  virtual Tstr* asTstr() { return nullptr; }
  const Tstr* asTstr() const { return const_cast<Item*>(this)->asTstr(); }
  virtual Array* asArray() { return nullptr; }
  const Array* asArray() const { return const_cast<Item*>(this)->asArray(); }
  virtual Map* asMap() { return nullptr; }
  const Map* asMap() const { return const_cast<Item*>(this)->asMap(); }
  virtual Simple* asSimple() { return nullptr; }
  virtual SemanticTag* asSemanticTag() { return nullptr; }
  virtual std::unique_ptr<Item> clone() const = 0;

  std::vector<uint8_t> encode() const {
    std::vector<uint8_t> out;
    encodeTo(&out);
    return out;
  }
  std::string toString() const {
    std::vector<uint8_t> out = encode();
    return std::string(out.begin(), out.end());
  }
};

class Int : public Item {
 public:
  Int* asInt() override { return this; }
  virtual int64_t value() const = 0;
};

class Uint : public Int {
 public:
  explicit Uint(uint64_t v) : v_(v) {}
  MajorType type() const override { return UINT; }
  Uint* asUint() override { return this; }
  int64_t value() const override { return static_cast<int64_t>(v_); }
  uint64_t unsignedValue() const { return v_; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(UINT, v_, out);
  }
  std::unique_ptr<Item> clone() const override { return std::make_unique<Uint>(v_); }

 private:
  uint64_t v_;
};

class Nint : public Int {
 public:
  explicit Nint(int64_t v) : v_(v) {}
  MajorType type() const override { return NINT; }
  Nint* asNint() override { return this; }
  int64_t value() const override { return v_; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(NINT, static_cast<uint64_t>(-1 - v_), out);
  }
  std::unique_ptr<Item> clone() const override { return std::make_unique<Nint>(v_); }

 private:
  int64_t v_;
};

class Bstr : public Item {
 public:
  Bstr() {}
  explicit Bstr(std::vector<uint8_t> v) : v_(std::move(v)) {}
  explicit Bstr(const std::string& s) : v_(s.begin(), s.end()) {}
  explicit Bstr(const char* s) : Bstr(std::string(s)) {}
  template <typename It>
  Bstr(It b, It e) : v_(b, e) {}
  explicit Bstr(const std::pair<const uint8_t*, size_t>& p)
      : v_(p.first, p.first + p.second) {}
  MajorType type() const override { return BSTR; }
  Bstr* asBstr() override { return this; }
  const std::vector<uint8_t>& value() const { return v_; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(BSTR, v_.size(), out);
    out->insert(out->end(), v_.begin(), v_.end());
  }
  std::unique_ptr<Item> clone() const override { return std::make_unique<Bstr>(v_); }

 private:
  std::vector<uint8_t> v_;
};

class Tstr : public Item {
 public:
  explicit Tstr(std::string s) : v_(std::move(s)) {}
  MajorType type() const override { return TSTR; }
  Tstr* asTstr() override { return this; }
  const std::string& value() const { return v_; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(TSTR, v_.size(), out);
    out->insert(out->end(), v_.begin(), v_.end());
  }
  std::unique_ptr<Item> clone() const override { return std::make_unique<Tstr>(v_); }

 private:
  std::string v_;
};

class Simple : public Item {
 public:
  explicit Simple(uint64_t info, int width = 0) : v_(info), width_(width) {}
  MajorType type() const override { return SIMPLE; }
  Simple* asSimple() override { return this; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    if (width_ == 0) {
      out->push_back(SIMPLE | static_cast<uint8_t>(v_));
      return;
    }
    out->push_back(SIMPLE | (width_ == 1 ? 24 : width_ == 2 ? 25 : width_ == 4 ? 26 : 27));
    for (int i = width_ - 1; i >= 0; --i) out->push_back((v_ >> (8 * i)) & 0xff);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<Simple>(v_, width_);
  }

 private:
  uint64_t v_;
  int width_;
};

namespace details {
inline std::unique_ptr<Item> makeItem(std::unique_ptr<Item> p) { return p; }
template <typename T,
          typename = std::enable_if_t<std::is_base_of_v<Item, std::decay_t<T>>>>
std::unique_ptr<Item> makeItem(T&& t) {
  return std::make_unique<std::decay_t<T>>(std::forward<T>(t));
}
template <typename T,
          std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0>
std::unique_ptr<Item> makeItem(T v) {
  if (std::is_same_v<T, bool>) return std::make_unique<Simple>(v ? 21 : 20);
  long long x = static_cast<long long>(v);
  if (x >= 0 || (std::is_unsigned_v<T>)) {
    return std::make_unique<Uint>(static_cast<uint64_t>(v));
  }
  return std::make_unique<Nint>(x);
}
inline std::unique_ptr<Item> makeItem(const std::string& s) {
  return std::make_unique<Tstr>(s);
}
inline std::unique_ptr<Item> makeItem(const char* s) {
  return std::make_unique<Tstr>(s);
}
inline std::unique_ptr<Item> makeItem(std::vector<uint8_t> v) {
  return std::make_unique<Bstr>(std::move(v));
}
}  // namespace details

class Array : public Item {
 public:
  Array() = default;
  Array(Array&&) = default;
  template <typename... Args,
            typename = std::enable_if_t<!(sizeof...(Args) == 1 &&
                                          (std::is_same_v<std::decay_t<Args>, Array> && ...))>>
  explicit Array(Args&&... args) {
    (add(std::forward<Args>(args)), ...);
  }
  template <typename T>
  Array& add(T&& v) & {
    v_.push_back(details::makeItem(std::forward<T>(v)));
    return *this;
  }
  template <typename T>
  Array&& add(T&& v) && {
    v_.push_back(details::makeItem(std::forward<T>(v)));
    return std::move(*this);
  }
  MajorType type() const override { return ARRAY; }
  Array* asArray() override { return this; }
  size_t size() const { return v_.size(); }
  const std::unique_ptr<Item>& operator[](size_t i) const { return v_[i]; }
  std::unique_ptr<Item>& operator[](size_t i) { return v_[i]; }
  const std::unique_ptr<Item>& get(size_t i) const { return v_[i]; }
  std::unique_ptr<Item>& get(size_t i) { return v_[i]; }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(ARRAY, v_.size(), out);
    for (auto& i : v_) i->encodeTo(out);
  }
  std::unique_ptr<Item> clone() const override {
    auto r = std::make_unique<Array>();
    for (auto& i : v_) r->add(i->clone());
    return r;
  }

 private:
  std::vector<std::unique_ptr<Item>> v_;
};

class Map : public Item {
 public:
  using entry = std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>;
  Map() = default;
  Map(Map&&) = default;
  template <typename K, typename V>
  Map& add(K&& k, V&& v) & {
    v_.push_back({details::makeItem(std::forward<K>(k)),
                  details::makeItem(std::forward<V>(v))});
    return *this;
  }
  template <typename K, typename V>
  Map&& add(K&& k, V&& v) && {
    add(std::forward<K>(k), std::forward<V>(v));
    return std::move(*this);
  }
  MajorType type() const override { return MAP; }
  Map* asMap() override { return this; }
  size_t size() const { return v_.size(); }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  entry& operator[](size_t i) { return v_[i]; }
  const entry& operator[](size_t i) const { return v_[i]; }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(MAP, v_.size(), out);
    for (auto& [k, v] : v_) {
      k->encodeTo(out);
      v->encodeTo(out);
    }
  }
  std::unique_ptr<Item> clone() const override {
    auto r = std::make_unique<Map>();
    for (auto& [k, v] : v_) r->v_.push_back({k->clone(), v->clone()});
    return r;
  }

 private:
  std::vector<entry> v_;
};

// A tagged item; like libcppbor, the accessors see through the tag.
class SemanticTag : public Item {
 public:
  SemanticTag(uint64_t tag, std::unique_ptr<Item> item)
      : tag_(tag), item_(std::move(item)) {}
  MajorType type() const override { return item_->type(); }
  SemanticTag* asSemanticTag() override { return this; }
  Int* asInt() override { return item_->asInt(); }
  Uint* asUint() override { return item_->asUint(); }
  Nint* asNint() override { return item_->asNint(); }
  Bstr* asBstr() override { return item_->asBstr(); }
  Tstr* asTstr() override { return item_->asTstr(); }
  Array* asArray() override { return item_->asArray(); }
  Map* asMap() override { return item_->asMap(); }
  Simple* asSimple() override { return item_->asSimple(); }
  void encodeTo(std::vector<uint8_t>* out) const override {
    EncodeHeader(SEMANTIC, tag_, out);
    item_->encodeTo(out);
  }
  std::unique_ptr<Item> clone() const override {
    return std::make_unique<SemanticTag>(tag_, item_->clone());
  }

 private:
  uint64_t tag_;
  std::unique_ptr<Item> item_;
};

}  // namespace cppbor

#endif
