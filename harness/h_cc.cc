// Keys, tokens, encrypted messages, signatures, nonces and attestation, as a
// server in another language would see them: everything is compared with a
// reader and writer of the formats kept in this file.
#include <atomic>
#include <optional>
#include <sstream>
#include <thread>

#include "absl/functional/any_invocable.h"
#include "absl/strings/escaping.h"
#include "absl/strings/str_split.h"
#include "common.h"
#include "fcp/base/compression.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/attestation/extract_attestation_records.h"
#include "fcp/client/attestation/log_attestation_records.h"
#include "fcp/client/attestation/oak_rust_attestation_verifier.h"
#include "fcp/client/rust/oak_attestation_verification_ffi.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "openssl/aead.h"
#include "openssl/bn.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/nid.h"
#include "openssl/hpke.h"
#include "openssl/mem.h"
#include "openssl/sha.h"

namespace {
using namespace fcp::confidential_compute;
using verif::Format;
using verif::Hex;
using verif::Report;
using verif::Rng;

// ---- CBOR, written and read by hand ---------------------------------------------------

std::string Head(int major, uint64_t v, int at_least = 0) {
  int n = v < 24 ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffu ? 4 : 8;
  n = std::max(n, at_least);
  std::string s(1, (char)((major << 5) | (n == 0 ? (int)v : n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
  for (int i = n - 1; i >= 0; --i) s += (char)((v >> (8 * i)) & 0xff);
  return s;
}
std::string WInt(int64_t v, int at_least = 0) { return v >= 0 ? Head(0, v, at_least) : Head(1, -1 - v, at_least); }
std::string WBytes(const std::string& s) { return Head(2, s.size()) + s; }
std::string WText(const std::string& s) { return Head(3, s.size()) + s; }
std::string WArray(const std::vector<std::string>& v) {
  std::string s = Head(4, v.size());
  for (auto& x : v) s += x;
  return s;
}
using Entries = std::vector<std::pair<std::string, std::string>>;
std::string WMap(const Entries& v) {
  std::string s = Head(5, v.size());
  for (auto& [k, x] : v) s += k + x;
  return s;
}

struct Node {
  int major = -1;
  uint64_t v = 0;
  std::string s;
  std::vector<Node> kids;  // of a map: key, value, key, value, ...
  std::optional<int64_t> Int() const {
    if (major == 0) return (int64_t)v;
    if (major == 1) return -1 - (int64_t)v;
    return std::nullopt;
  }
};
bool Read(const std::string& in, size_t& at, Node& n, int depth = 0) {
  if (at >= in.size() || depth > 50) return false;
  unsigned char c = in[at++];
  n.major = c >> 5;
  int info = c & 31;
  n.v = info;
  if (info >= 24) {
    if (info > 27) return false;
    n.v = 0;
    for (int i = 0; i < (1 << (info - 24)); ++i) {
      if (at >= in.size()) return false;
      n.v = n.v << 8 | (unsigned char)in[at++];
    }
  }
  if (n.major == 2 || n.major == 3) {
    if (n.v > in.size() - at) return false;
    n.s = in.substr(at, n.v);
    at += n.v;
  } else if (n.major == 4 || n.major == 5) {
    if (n.v > in.size()) return false;
    for (uint64_t i = 0; i < n.v * (n.major == 5 ? 2 : 1); ++i) {
      n.kids.emplace_back();
      Node kid;
      if (!Read(in, at, kid, depth + 1)) return false;
      n.kids.back() = std::move(kid);
    }
  } else if (n.major == 6) {
    return false;  // never expected here
  }
  return true;
}
std::optional<Node> ReadAll(const std::string& in) {
  Node n;
  size_t at = 0;
  if (!Read(in, at, n) || at != in.size()) return std::nullopt;
  return n;
}
// The entries of a map with integer keys, or nothing if there are two of one key.
std::optional<std::map<int64_t, Node>> AsMap(const Node& n) {
  if (n.major != 5) return std::nullopt;
  std::map<int64_t, Node> m;
  for (size_t i = 0; i < n.kids.size(); i += 2) {
    auto k = n.kids[i].Int();
    if (!k || m.count(*k)) return std::nullopt;
    m[*k] = n.kids[i + 1];
  }
  return m;
}

int64_t AnyInt(Rng& rng) {
  switch (rng.Below(6)) {
    case 0: return rng.Pick(std::vector<int64_t>{-65537, -65538, -7, -8, 4, 1, 0, -1});
    case 1: return rng.Pick(std::vector<int64_t>{23, 24, 255, 256, 65535, 65536, -24, -25, -256, -257, -65536});
    case 2: return rng.Pick(std::vector<int64_t>{INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, INT64_MAX, INT64_MIN, UINT32_MAX, (int64_t)UINT32_MAX + 1});
    case 3: return rng.Range(-1000, 1000);
    default: return (int64_t)rng.U64() >> rng.Below(60);
  }
}
std::string AnyBytes(Rng& rng) {
  return rng.Bytes(rng.Chance(0.5) ? rng.Pick(std::vector<int>{0, 1, 16, 23, 24, 32, 64, 255, 256, 300}) : rng.Below(40));
}
google::protobuf::Struct AnyStruct(Rng& rng) {
  google::protobuf::Struct s;
  int n = rng.Chance(0.2) ? rng.Below(14) : rng.Below(4);
  for (int i = 0; i < n; ++i) {
    auto& v = (*s.mutable_fields())[Format("key%d", (int)rng.Below(30))];
    switch (rng.Below(4)) {
      case 0: v.set_bool_value(rng.Chance(0.5)); break;
      case 1: v.set_number_value(rng.Range(-5, 5) / 4.0); break;
      case 2: v.set_string_value(std::string(rng.Below(200), 'x')); break;
      default: (*v.mutable_struct_value()->mutable_fields())["in"].set_string_value("deep");
    }
  }
  return s;
}
bool Same(const google::protobuf::Message& a, const google::protobuf::Message& b) {
  return a.ShortDebugString() == b.ShortDebugString();
}

// What a key or token ought to look like.
struct Key {
  std::string id, x;
  std::optional<int64_t> alg, crv;
};
Key AnyKey(Rng& rng) {
  Key k;
  if (rng.Chance(0.5)) k.id = AnyBytes(rng);
  if (rng.Chance(0.8)) k.x = AnyBytes(rng);
  if (rng.Chance(0.8)) k.alg = AnyInt(rng);
  if (rng.Chance(0.8)) k.crv = AnyInt(rng);
  return k;
}
bool Same(const Key& k, const OkpKey& o) {
  return k.id == o.key_id && k.x == o.x && k.alg == o.algorithm && k.crv == o.curve;
}
OkpKey Make(const Key& k) { return OkpKey{.key_id = k.id, .algorithm = k.alg, .curve = k.crv, .x = k.x}; }

// Things nobody has to understand, which readers skip.
void AddNoise(Rng& rng, Entries& e, const std::set<int64_t>& taken) {
  int n = rng.Chance(0.5) ? 0 : rng.Below(4);
  std::set<int64_t> used = taken;
  for (int i = 0; i < n; ++i) {
    std::string value;
    switch (rng.Below(5)) {
      case 0: value = WInt(AnyInt(rng)); break;
      case 1: value = WBytes(AnyBytes(rng)); break;
      case 2: value = WText("text"); break;
      case 3: value = WArray({WInt(1), WMap({{WInt(1), WText("x")}}), WArray({})}); break;
      default: value = "\xf6";
    }
    if (rng.Chance(0.4)) {
      e.push_back({rng.Chance(0.5) ? WText(Format("n%d", i)) : WBytes(Format("b%d", i)), value});
    } else {
      int64_t k = rng.Chance(0.3) ? AnyInt(rng) : rng.Range(-70000, 300);
      if (used.insert(k).second) e.push_back({WInt(k), value});
    }
  }
  rng.Shuffle(e);
}
std::string Width(Rng& rng, int64_t v) { return WInt(v, rng.Chance(0.1) ? rng.Pick(std::vector<int>{1, 2, 4, 8}) : 0); }

Entries KeyEntries(Rng& rng, const Key& k, std::optional<int64_t> kty) {
  Entries e;
  if (kty) e.push_back({Width(rng, 1), Width(rng, *kty)});
  if (!k.id.empty() || rng.Chance(0.1)) e.push_back({Width(rng, 2), WBytes(k.id)});
  if (k.alg) e.push_back({Width(rng, 3), Width(rng, *k.alg)});
  if (k.crv) e.push_back({Width(rng, -1), Width(rng, *k.crv)});
  if (!k.x.empty() || rng.Chance(0.1)) e.push_back({Width(rng, -2), WBytes(k.x)});
  AddNoise(rng, e, {1, 2, 3, -1, -2});
  return e;
}

std::string Mutate(Rng& rng, std::string s) {
  for (int k = 1 + rng.Below(3); k > 0; --k) {
    switch (rng.Below(5)) {
      case 0: s = s.substr(0, rng.Below(s.size() + 1)); break;
      case 1: s += rng.Bytes(1 + rng.Below(4)); break;
      case 2: if (!s.empty()) s[rng.Below(s.size())] ^= 1 << rng.Below(8); break;
      case 3: if (!s.empty()) s[rng.Below(s.size())] = rng.Pick(std::vector<char>{'\x80', '\xa0', '\x40', '\x60', '\xf6', '\x00', '\x20', '\x9b', '\xbb', '\x5b', '\xd2'}); break;
      default: s.insert(rng.Below(s.size() + 1), rng.Bytes(1));
    }
  }
  return s;
}

void Keys(Report& r, Rng& rng) {
  Key k = AnyKey(rng);
  // Written by the code, read here.
  auto enc = Make(k).Encode();
  auto node = enc.ok() ? ReadAll(*enc) : std::nullopt;
  auto map = node ? AsMap(*node) : std::nullopt;
  std::string what = enc.ok() ? Hex(*enc, 200) : enc.status().ToString();
  if (!map) {
    r.Violation("bad-key-encoding", what);
    return;
  }
  auto integer = [&](std::map<int64_t, Node>& m, int64_t i) -> std::optional<int64_t> { return m.count(i) ? m[i].Int() : std::nullopt; };
  auto bytes = [&](std::map<int64_t, Node>& m, int64_t i) -> std::string { return m.count(i) && m[i].major == 2 ? m[i].s : ""; };
  auto& m = *map;
  size_t expected = 1 + !k.id.empty() + !k.x.empty() + k.alg.has_value() + k.crv.has_value();
  if (integer(m, 1) != 1 || bytes(m, 2) != k.id || integer(m, 3) != k.alg || integer(m, -1) != k.crv || bytes(m, -2) != k.x || m.size() > expected) {
    r.Violation("wrong-key-encoding", what);
  }
  auto back = OkpKey::Decode(*enc);
  if (!back.ok() || !Same(k, *back)) r.Violation("key-changed-by-round-trip", what);
  // Written here, read by the code.
  std::optional<int64_t> kty = 1;
  bool odd = rng.Chance(0.1);
  if (odd) kty = rng.Chance(0.3) ? std::nullopt : std::optional<int64_t>(rng.Pick(std::vector<int64_t>{0, 2, 3, 4, -1, 257, 4294967297}));
  std::string mine = WMap(KeyEntries(rng, k, kty));
  auto read = OkpKey::Decode(mine);
  if (odd ? read.ok() : (!read.ok() || !Same(k, *read))) {
    r.Violation(odd ? "key-of-other-type-accepted" : "key-misread", Hex(mine, 200) + " " + read.status().ToString());
  }
  if (read.status().code() != (odd ? absl::StatusCode::kInvalidArgument : absl::StatusCode::kOk)) r.Violation("wrong-code-for-key", read.status().ToString());
  if (OkpKey::Decode(mine + rng.Bytes(1)).ok()) r.Violation("key-with-more-after-it-accepted", Hex(mine, 200));
  // A parameter of the wrong type.
  {
    Entries e = {{WInt(1), WInt(1)}};
    int64_t which = rng.Pick(std::vector<int64_t>{1, 2, 3, -1, -2});
    bool wants_int = which == 1 || which == 3 || which == -1;
    if (which == 1) e.clear();
    e.push_back({WInt(which), wants_int ? rng.Pick(std::vector<std::string>{WBytes("a"), WText("1"), WArray({}), "\xf6"})
                                        : rng.Pick(std::vector<std::string>{WInt(3), WText("1"), WArray({}), "\xf6"})});
    rng.Shuffle(e);
    auto s = OkpKey::Decode(WMap(e));
    if (s.ok() || s.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("key-parameter-of-wrong-type-accepted", Hex(WMap(e), 200));
  }
  std::string broken = Mutate(rng, mine);
  auto b = OkpKey::Decode(broken);
  // Tags and floating-point numbers are beyond the reader used here.
  bool plain = std::none_of(broken.begin(), broken.end(), [](char c) { return (uint8_t)c >= 0xc0; });
  if (b.ok() && plain && !ReadAll(broken)) r.Violation("damaged-key-accepted", Hex(broken, 200));
  std::string prefix = mine.substr(0, rng.Below(mine.size()));
  if (OkpKey::Decode(prefix).ok()) r.Violation("damaged-key-accepted", "cut short: " + Hex(prefix, 200));
  r.Count(b.ok() ? "damaged_keys_read" : "damaged_keys_refused");
  r.Count("keys");
  // Symmetric keys.
  SymmetricKey sk;
  if (rng.Chance(0.8)) sk.algorithm = AnyInt(rng);
  sk.k = AnyBytes(rng);
  auto se = sk.Encode();
  auto sn = se.ok() ? ReadAll(*se) : std::nullopt;
  auto sm = sn ? AsMap(*sn) : std::nullopt;
  if (!sm || integer(*sm, 1) != 4 || integer(*sm, 3) != sk.algorithm || bytes(*sm, -1) != sk.k) {
    r.Violation("wrong-symmetric-key-encoding", se.ok() ? Hex(*se, 200) : "");
    return;
  }
  Entries e = {{Width(rng, 1), Width(rng, odd ? 1 : 4)}};
  if (sk.algorithm) e.push_back({Width(rng, 3), Width(rng, *sk.algorithm)});
  if (!sk.k.empty()) e.push_back({Width(rng, -1), WBytes(sk.k)});
  AddNoise(rng, e, {1, 3, -1});
  auto sread = SymmetricKey::Decode(WMap(e));
  auto sback = SymmetricKey::Decode(*se);
  if (!sback.ok() || sback->k != sk.k || sback->algorithm != sk.algorithm) r.Violation("symmetric-key-changed-by-round-trip", Hex(*se, 200));
  if (odd ? sread.ok() : (!sread.ok() || sread->k != sk.k || sread->algorithm != sk.algorithm)) r.Violation("symmetric-key-misread", Hex(WMap(e), 200));
  if (SymmetricKey::Decode(WMap(e) + rng.Bytes(1)).ok()) r.Violation("symmetric-key-with-more-after-it-accepted", Hex(WMap(e), 200));
  (void)SymmetricKey::Decode(Mutate(rng, WMap(e)));
}

struct Token {
  std::optional<int64_t> alg, iat, exp;
  std::optional<Key> key;
  google::protobuf::Struct config;
  std::string signature;
};
bool Same(const Token& t, const OkpCwt& c) {
  auto secs = [](std::optional<absl::Time> x) { return x ? std::optional<int64_t>(absl::ToUnixSeconds(*x)) : std::nullopt; };
  return t.alg == c.algorithm && t.iat == secs(c.issued_at) && t.exp == secs(c.expiration_time) && t.key.has_value() == c.public_key.has_value() &&
         (!t.key || Same(*t.key, *c.public_key)) && Same(t.config, c.config_properties) && t.signature == c.signature;
}
int64_t AnyTime(Rng& rng) { return rng.Chance(0.2) ? 0 : rng.Chance(0.2) ? rng.Range(-100000, 0) : rng.Range(1, 20000000000ll); }
Token AnyToken(Rng& rng) {
  Token t;
  if (rng.Chance(0.8)) t.alg = AnyInt(rng);
  if (rng.Chance(0.6)) t.iat = AnyTime(rng);
  if (rng.Chance(0.6)) t.exp = AnyTime(rng);
  if (rng.Chance(0.8)) t.key = AnyKey(rng);
  t.config = AnyStruct(rng);
  t.signature = AnyBytes(rng);
  return t;
}

// The pieces of a token written here.
struct Written {
  std::string header, body_header, payload, encoded;
  bool many = false;
};
Written Write(Rng& rng, const Token& t, const std::string& header_override = "", int kind = -1) {
  Written w;
  Entries h;
  if (t.alg) h.push_back({Width(rng, 1), Width(rng, *t.alg)});
  AddNoise(rng, h, {1});
  w.header = WMap(h);
  if (!header_override.empty()) w.header = header_override;
  Entries p;
  if (t.exp) p.push_back({Width(rng, 4), Width(rng, *t.exp)});
  if (t.iat) p.push_back({Width(rng, 6), Width(rng, *t.iat)});
  if (t.key) p.push_back({rng.Chance(0.3) ? WInt(-4670552) : WInt(-65537), WBytes(WMap(KeyEntries(rng, *t.key, 1)))});
  if (!t.config.fields().empty()) p.push_back({WInt(-65538), WBytes(t.config.SerializeAsString())});
  AddNoise(rng, p, {4, 6, -65537, -65538, -4670552});
  w.payload = WMap(p);
  Entries u;
  AddNoise(rng, u, {});
  w.many = kind >= 0 ? kind == 1 : rng.Chance(0.4);
  if (!w.many) {
    w.encoded = WArray({WBytes(w.header), WMap(u), WBytes(w.payload), WBytes(t.signature)});
  } else {
    w.body_header = rng.Chance(0.5) ? WMap({}) : WMap({{WInt(1), WInt(-99)}});
    std::vector<std::string> sigs = {WArray({WBytes(w.header), WMap(u), WBytes(t.signature)})};
    while (rng.Chance(0.4)) {
      sigs.push_back(rng.Chance(0.7) ? WArray({WBytes(WMap({{WInt(1), WInt(-8)}})), WMap({}), WBytes("other")}) : WInt(3));
    }
    w.encoded = WArray({WBytes(w.body_header), WMap({}), WBytes(w.payload), WArray(sigs)});
  }
  return w;
}
// What a signature has to cover.
std::string Covered(const Written& w, const std::string& aad) {
  if (w.many) return WArray({WText("Signature"), WBytes(w.body_header), WBytes(w.header), WBytes(aad), WBytes(w.payload)});
  return WArray({WText("Signature1"), WBytes(w.header), WBytes(aad), WBytes(w.payload)});
}

void Tokens(Report& r, Rng& rng) {
  Token t = AnyToken(rng);
  std::string aad = rng.Chance(0.5) ? "" : AnyBytes(rng);
  // Written by the code.
  OkpCwt cwt{.algorithm = t.alg, .config_properties = t.config, .signature = t.signature};
  // Parts of a second are not carried.
  auto at = [&](int64_t s) { return absl::FromUnixSeconds(s) + absl::Milliseconds(rng.Chance(0.3) ? rng.Below(1000) : 0); };
  if (t.iat) cwt.issued_at = at(*t.iat);
  if (t.exp) cwt.expiration_time = at(*t.exp);
  if (t.key) cwt.public_key = Make(*t.key);
  auto enc = cwt.Encode();
  auto signing = cwt.BuildSigStructureForSigning(aad);
  std::string what = enc.ok() ? Hex(*enc, 300) : enc.status().ToString();
  auto node = enc.ok() ? ReadAll(*enc) : std::nullopt;
  if (!node || node->major != 4 || node->kids.size() != 4 || node->kids[0].major != 2 || node->kids[1].major != 5 || node->kids[2].major != 2 ||
      node->kids[3].major != 2) {
    r.Violation("bad-token-encoding", what);
    return;
  }
  auto hn = ReadAll(node->kids[0].s), pn = ReadAll(node->kids[2].s);
  auto hm = hn ? AsMap(*hn) : std::nullopt, pm = pn ? AsMap(*pn) : std::nullopt;
  if (!hm || !pm) {
    r.Violation("bad-token-encoding", what);
    return;
  }
  auto integer = [&](std::map<int64_t, Node>& m, int64_t i) -> std::optional<int64_t> { return m.count(i) ? m[i].Int() : std::nullopt; };
  if (integer(*hm, 1) != t.alg || integer(*pm, 4) != t.exp || integer(*pm, 6) != t.iat || node->kids[3].s != t.signature ||
      pm->count(-65537) != t.key.has_value() || pm->count(-65538) != !t.config.fields().empty()) {
    r.Violation("wrong-token-encoding", what);
  } else {
    google::protobuf::Struct got;
    if (pm->count(-65538) && (!got.ParseFromString((*pm)[-65538].s) || !Same(got, t.config))) r.Violation("wrong-token-encoding", "configuration " + what);
    if (t.key) {
      auto k = OkpKey::Decode((*pm)[-65537].s);
      if (!k.ok() || !Same(*t.key, *k)) r.Violation("wrong-token-encoding", "key " + what);
    }
  }
  auto back = OkpCwt::Decode(*enc);
  if (!back.ok() || !Same(t, *back)) r.Violation("token-changed-by-round-trip", what);
  auto verifying = OkpCwt::GetSigStructureForVerifying(*enc, aad);
  std::string covered = WArray({WText("Signature1"), WBytes(node->kids[0].s), WBytes(aad), WBytes(node->kids[2].s)});
  if (!signing.ok() || !verifying.ok() || *signing != covered || *verifying != covered) {
    r.Violation("signature-covers-something-else", what);
  }
  // Written here.
  Written w = Write(rng, t);
  auto read = OkpCwt::Decode(w.encoded);
  if (!read.ok() || !Same(t, *read)) r.Violation("token-misread", Hex(w.encoded, 300) + " " + read.status().ToString());
  auto v = OkpCwt::GetSigStructureForVerifying(w.encoded, aad);
  if (!v.ok() || *v != Covered(w, aad)) r.Violation("signature-covers-something-else", Hex(w.encoded, 300));
  if (OkpCwt::Decode(w.encoded + rng.Bytes(1)).ok() || OkpCwt::GetSigStructureForVerifying(w.encoded + rng.Bytes(1), "").ok()) {
    r.Violation("token-with-more-after-it-accepted", Hex(w.encoded, 300));
  }
  r.Count(w.many ? "tokens with many signatures" : "tokens with one signature");
  // The wrong shape somewhere.
  {
    std::vector<std::string> junk = {WInt(1), WText("x"), WArray({}), WMap({}), "\xf6", WArray({WInt(1), WInt(2), WInt(3)})};
    std::string one = rng.Pick(junk), bad;
    std::string h = WBytes(w.header), u = WMap({}), p = WBytes(w.payload), s = WBytes(t.signature);
    std::string first = rng.Pick(std::vector<std::string>{
        WInt(1), WText("x"), "\xf6", WMap({}), WBytes("x"), WArray({}), WArray({h, u}), WArray({h, u, s, s}), WArray({WInt(1), u, s}), WArray({h, u, WInt(1)}),
        WArray({h, u, WText("sig")}), WArray({h, u, "\xf6"})});
    bool signature_only = false;
    switch (rng.Below(9)) {
      case 0: bad = one; break;
      case 1: bad = WArray({one, u, p, s}); break;
      case 2: bad = WArray({h, u, one, s}); break;
      case 3: bad = WArray({h, u, p}); break;
      case 4: bad = WArray({h, u, p, s, s}); break;
      case 5: bad = WArray({h, u, p, rng.Pick(std::vector<std::string>{WInt(1), WText("x"), WMap({}), "\xf6"})}); signature_only = true; break;
      case 6:
      case 7: bad = WArray({h, u, p, WArray({first})}); signature_only = true; break;
      default: bad = WArray({h, u, p, WArray({})});
    }
    auto d = OkpCwt::Decode(bad);
    if (d.ok() || d.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("token-of-wrong-shape-accepted", Hex(bad, 300) + " " + d.status().ToString());
    auto g = OkpCwt::GetSigStructureForVerifying(bad, aad);
    if (g.ok() && !signature_only) r.Violation("token-of-wrong-shape-accepted", "structure " + Hex(bad, 300));
    r.Count("tokens of wrong shape");
  }
  // A claim or parameter of the wrong type, or trailing bytes within.
  {
    Token empty;
    std::string header = WMap({{WInt(1), WInt(-7)}}), payload = WMap({});
    switch (rng.Below(8)) {
      case 0: header = WMap({{WInt(1), WText("ES256")}}); break;
      case 1: header = WMap({{WInt(1), WInt(-7)}}) + "x"; break;
      case 2: header = WArray({WInt(1)}); break;
      case 3: payload = WMap({{WInt(rng.Chance(0.5) ? 4 : 6), rng.Pick(std::vector<std::string>{WText("1"), WBytes("1"), "\xf6"})}}); break;
      case 4: payload = WMap({{WInt(rng.Chance(0.5) ? -65537 : -4670552), rng.Pick(std::vector<std::string>{WInt(1), WText("k"), WMap({{WInt(1), WInt(1)}}), WBytes("k"), WBytes("")})}}); break;
      case 5: payload = WMap({{WInt(-65538), rng.Pick(std::vector<std::string>{WInt(1), WText("k"), WBytes("\xff\xff\xff")})}}); break;
      case 6: payload = WMap({}) + "x"; break;
      default: payload = rng.Chance(0.5) ? WArray({}) : "";
    }
    std::string bad = rng.Chance(0.7) ? WArray({WBytes(header), WMap({}), WBytes(payload), WBytes("s")})
                                      : WArray({WBytes(WMap({})), WMap({}), WBytes(payload), WArray({WArray({WBytes(header), WMap({}), WBytes("s")})})});
    auto d = OkpCwt::Decode(bad);
    if (d.ok() || d.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("token-with-bad-part-accepted", Hex(bad, 300) + " " + d.status().ToString());
  }
  std::string broken = Mutate(rng, w.encoded);
  auto b = OkpCwt::Decode(broken);
  (void)OkpCwt::GetSigStructureForVerifying(broken, aad);
  r.Count(b.ok() ? "damaged_tokens_read" : "damaged_tokens_refused");
  if (b.ok()) {
    // Whatever was understood can be written and read again.
    auto again = b->Encode();
    auto c = again.ok() ? OkpCwt::Decode(*again) : absl::StatusOr<OkpCwt>(again.status());
    if (!c.ok()) r.Violation("token-read-but-not-written", Hex(broken, 300));
  }
}

void CoseMode(Report& r) {
  for (int64_t i = 0; i < r.N(60000, 600000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xC05E + i);
    r.Case(i, "");
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    Keys(r, rng);
    Tokens(r, rng);
  }
}

// ---- encrypted messages ------------------------------------------------------------------

constexpr char kFixedNonce[] = "\x74\xDF\x8F\xD4\xBE\x34\xAF\x64\x7F\x5E\x54\xF6";

struct Recipient {
  bssl::ScopedEVP_HPKE_KEY key;
  std::string x;
  Recipient() {
    if (EVP_HPKE_KEY_generate(key.get(), EVP_hpke_x25519_hkdf_sha256()) != 1) Report::Broken("no key");
    uint8_t buf[64];
    size_t n = 0;
    if (EVP_HPKE_KEY_public_key(key.get(), buf, &n, sizeof buf) != 1) Report::Broken("no key");
    x.assign((char*)buf, n);
  }
  std::string Token(Rng& rng) {
    ::Token t;
    t.alg = -7;
    t.key = Key{.x = x, .alg = -65537, .crv = 4};
    if (rng.Chance(0.5)) t.key->id = "kid";
    t.signature = "unchecked";
    return Write(rng, t).encoded;
  }
  // Opens the symmetric key with the crypto library alone.
  std::optional<std::string> Unwrap(const std::string& wrapped, const std::string& enc, const std::string& ad) {
    bssl::ScopedEVP_HPKE_CTX ctx;
    if (EVP_HPKE_CTX_setup_recipient(ctx.get(), key.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), (const uint8_t*)enc.data(), enc.size(), nullptr, 0) != 1) {
      return std::nullopt;
    }
    std::string out(wrapped.size() + 1, '\0');
    size_t n = 0;
    if (EVP_HPKE_CTX_open(ctx.get(), (uint8_t*)out.data(), &n, out.size(), (const uint8_t*)wrapped.data(), wrapped.size(), (const uint8_t*)ad.data(), ad.size()) != 1) {
      return std::nullopt;
    }
    out.resize(n);
    return out;
  }
};
std::pair<std::string, std::string> Wrap(const std::string& x, const std::string& what, const std::string& ad) {
  bssl::ScopedEVP_HPKE_CTX ctx;
  uint8_t enc[64];
  size_t n = 0;
  if (EVP_HPKE_CTX_setup_sender(ctx.get(), enc, &n, sizeof enc, EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), (const uint8_t*)x.data(),
                                x.size(), nullptr, 0) != 1) {
    Report::Broken("cannot wrap");
  }
  std::string out(what.size() + 64, '\0');
  size_t m = 0;
  if (EVP_HPKE_CTX_seal(ctx.get(), (uint8_t*)out.data(), &m, out.size(), (const uint8_t*)what.data(), what.size(), (const uint8_t*)ad.data(), ad.size()) != 1) {
    Report::Broken("cannot wrap");
  }
  out.resize(m);
  return {std::string((char*)enc, n), out};
}
std::optional<std::string> Aead(bool seal, const std::string& k, const std::string& in, const std::string& ad) {
  bssl::UniquePtr<EVP_AEAD_CTX> ctx(EVP_AEAD_CTX_new(EVP_aead_aes_128_gcm_siv(), (const uint8_t*)k.data(), k.size(), EVP_AEAD_DEFAULT_TAG_LENGTH));
  if (!ctx) return std::nullopt;
  std::string out(in.size() + 64, '\0');
  size_t n = 0;
  auto f = seal ? EVP_AEAD_CTX_seal : EVP_AEAD_CTX_open;
  if (f(ctx.get(), (uint8_t*)out.data(), &n, out.size(), (const uint8_t*)kFixedNonce, 12, (const uint8_t*)in.data(), in.size(), (const uint8_t*)ad.data(), ad.size()) != 1) {
    return std::nullopt;
  }
  out.resize(n);
  return out;
}

// Flips a bit, or shortens or lengthens.
std::string Tamper(Rng& rng, std::string s) {
  if (s.empty() || rng.Chance(0.15)) return s + rng.Bytes(1);
  if (rng.Chance(0.15)) return s.substr(0, s.size() - 1 - rng.Below(s.size()));
  s[rng.Below(s.size())] ^= 1 << rng.Below(8);
  return s;
}

std::string Plain(Rng& rng) {
  return rng.Bytes(rng.Chance(0.5) ? rng.Pick(std::vector<int>{0, 1, 15, 16, 17, 31, 32, 33, 4096}) : rng.Below(2000));
}

void OneMessage(Report& r, Rng& rng, const MessageEncryptor& encryptor, const MessageDecryptor& decryptor, const std::string& token, const MessageDecryptor& other,
                const std::string& other_token) {
  std::string plain = Plain(rng), ad = AnyBytes(rng);
  auto e = encryptor.Encrypt(plain, token, ad);
  auto f = encryptor.Encrypt(plain, token, ad);
  if (!e.ok() || !f.ok()) {
    r.Violation("not-encrypted", e.status().ToString());
    return;
  }
  auto open = [&](const EncryptMessageResult& m, const std::string& ad1, const std::string& ad2) {
    return decryptor.Decrypt(m.ciphertext, ad1, m.encrypted_symmetric_key, ad2, m.encapped_key);
  };
  auto p = open(*e, ad, ad), q = open(*f, ad, ad);
  if (!p.ok() || !q.ok() || *p != plain || *q != plain) r.Violation("message-lost", p.status().ToString());
  if (e->ciphertext == f->ciphertext || e->encrypted_symmetric_key == f->encrypted_symmetric_key || e->encapped_key == f->encapped_key) {
    r.Violation("same-message-looks-the-same", Hex(e->ciphertext));
  }
  if (plain.size() >= 16 && e->ciphertext.find(plain) != std::string::npos) r.Violation("message-readable", "");
  // Everything is covered.
  EncryptMessageResult m = *e;
  std::string ad1 = ad, ad2 = ad;
  int which = rng.Below(8);
  switch (which) {
    case 0: m.ciphertext = Tamper(rng, m.ciphertext); break;
    case 1: m.encrypted_symmetric_key = Tamper(rng, m.encrypted_symmetric_key); break;
    case 2: m.encapped_key = Tamper(rng, m.encapped_key); break;
    case 3: ad1 = Tamper(rng, ad1); break;
    case 4: ad2 = Tamper(rng, ad2); break;
    case 5: m.ciphertext = f->ciphertext; break;
    case 6: m.encrypted_symmetric_key = f->encrypted_symmetric_key; break;
    default: m.encapped_key = f->encapped_key;
  }
  auto t = open(m, ad1, ad2);
  if (t.ok()) r.Violation("changed-message-accepted", Format("part %d", which));
  else if (t.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("wrong-code-for-changed-message", t.status().ToString());
  r.Count("changed messages");
  auto w = other.Decrypt(e->ciphertext, ad, e->encrypted_symmetric_key, ad, e->encapped_key);
  if (w.ok()) r.Violation("message-opened-by-another", "");
  r.Count("messages");
}

void MessagesMode(Report& r) {
  for (int64_t i = 0; i < r.N(16000, 200000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x3E55 + i);
    r.Case(i, "");
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    google::protobuf::Struct config = AnyStruct(rng);
    MessageDecryptor decryptor(config), other;
    int64_t alg = rng.Chance(0.5) ? -7 : AnyInt(rng);
    std::string covered, signature = AnyBytes(rng);
    auto token = decryptor.GetPublicKey(
        [&](absl::string_view s) -> absl::StatusOr<std::string> {
          covered = std::string(s);
          return signature;
        },
        alg);
    auto other_token = other.GetPublicKey([](absl::string_view) { return "s"; }, 1);
    if (!token.ok() || !other_token.ok()) {
      r.Violation("no-public-key", token.status().ToString());
      continue;
    }
    // The token says what it should and is signed as a whole.
    auto cwt = OkpCwt::Decode(*token);
    auto structure = OkpCwt::GetSigStructureForVerifying(*token, "");
    if (!cwt.ok() || cwt->algorithm != alg || cwt->signature != signature || !Same(config, cwt->config_properties) || !cwt->public_key ||
        cwt->public_key->algorithm != -65537 || cwt->public_key->curve != 4 || cwt->public_key->x.size() != 32) {
      r.Violation("wrong-public-key-token", Hex(*token, 300));
      continue;
    }
    if (!structure.ok() || *structure != covered) r.Violation("token-not-signed-as-a-whole", Hex(*token, 300));
    auto again = decryptor.GetPublicKey([&](absl::string_view) { return signature; }, alg);
    auto again_cwt = again.ok() ? OkpCwt::Decode(*again) : absl::StatusOr<OkpCwt>(again.status());
    if (!again_cwt.ok() || again_cwt->public_key->x != cwt->public_key->x || !Same(config, again_cwt->config_properties)) r.Violation("public-key-changes", "");
    auto failing = decryptor.GetPublicKey([](absl::string_view) -> absl::StatusOr<std::string> { return absl::DataLossError("no pen"); }, alg);
    if (failing.ok() || failing.status().code() != absl::StatusCode::kDataLoss) r.Violation("unsigned-token-returned", failing.status().ToString());
    MessageEncryptor encryptor;
    OneMessage(r, rng, encryptor, decryptor, *token, other, *other_token);

    // A message for a recipient written here.
    Recipient mine;
    std::string plain = Plain(rng), ad = AnyBytes(rng);
    if (rng.Chance(0.03)) ad = rng.Bytes(rng.Range(1000, 100000));
    auto e = encryptor.Encrypt(plain, mine.Token(rng), ad);
    if (!e.ok()) {
      r.Violation("not-encrypted", e.status().ToString());
      continue;
    }
    auto wrapped = mine.Unwrap(e->encrypted_symmetric_key, e->encapped_key, ad);
    auto node = wrapped ? ReadAll(*wrapped) : std::nullopt;
    auto map = node ? AsMap(*node) : std::nullopt;
    if (!map || (*map)[1].Int() != 4 || (*map)[3].Int() != -65538 || (*map)[-1].s.size() != 16) {
      r.Violation("key-of-message-unreadable", wrapped ? Hex(*wrapped) : "");
      continue;
    }
    std::string k = (*map)[-1].s;
    auto opened = Aead(false, k, e->ciphertext, ad);
    if (!opened || *opened != plain) r.Violation("message-unreadable-elsewhere", "");
    // Passed on to someone else under other associated data, as an
    // intermediary does.
    std::string ad2 = rng.Chance(0.2) ? ad : AnyBytes(rng);
    auto [enc2, wrapped2] = Wrap(cwt->public_key->x, *wrapped, ad2);
    auto q = decryptor.Decrypt(e->ciphertext, ad, wrapped2, ad2, enc2);
    if (!q.ok() || *q != plain) r.Violation("passed-on-message-lost", q.status().ToString());
    if (ad != ad2) {
      if (decryptor.Decrypt(e->ciphertext, ad2, wrapped2, ad2, enc2).ok() || decryptor.Decrypt(e->ciphertext, ad, wrapped2, ad, enc2).ok() ||
          decryptor.Decrypt(e->ciphertext, ad2, wrapped2, ad, enc2).ok()) {
        r.Violation("associated-data-not-checked", "");
      }
    }
    // A message written here.
    std::string key = rng.Bytes(16);
    std::string sealed = *Aead(true, key, plain, ad);
    Entries entries = {{WInt(1), WInt(4)}, {WInt(3), WInt(-65538)}, {WInt(-1), WBytes(key)}};
    AddNoise(rng, entries, {1, 3, -1});
    auto [enc3, wrapped3] = Wrap(cwt->public_key->x, WMap(entries), ad2);
    auto s = decryptor.Decrypt(sealed, ad, wrapped3, ad2, enc3);
    if (!s.ok() || *s != plain) r.Violation("message-from-elsewhere-lost", s.status().ToString());
    // Keys of another sort are refused.
    {
      Entries bad = {{WInt(1), WInt(4)}, {WInt(3), WInt(-65538)}, {WInt(-1), WBytes(key)}};
      int how = rng.Below(6);
      if (how == 0) bad[1].second = WInt(rng.Pick(std::vector<int64_t>{-65537, 1, 3, 30, -65539}));
      if (how == 1) bad.erase(bad.begin() + 1);
      if (how == 2) bad[2].second = WBytes(key.substr(0, rng.Below(16)));
      if (how == 3) bad[2].second = WBytes(key + rng.Bytes(rng.Chance(0.5) ? 16 : 1));
      if (how == 4) bad[0].second = WInt(1);
      std::string text = how == 5 ? rng.Bytes(rng.Below(30)) : WMap(bad);
      auto [enc4, wrapped4] = Wrap(cwt->public_key->x, text, ad2);
      if (decryptor.Decrypt(sealed, ad, wrapped4, ad2, enc4).ok()) r.Violation("odd-key-accepted", Hex(text));
      r.Count("odd symmetric keys");
    }
    // Recipients nobody can encrypt to.
    {
      Token t;
      t.alg = -7;
      t.key = Key{.x = mine.x, .alg = -65537, .crv = 4};
      t.signature = "s";
      int how = rng.Below(7);
      if (how == 0) t.key.reset();
      if (how == 1) t.key->alg = rng.Pick(std::vector<int64_t>{-65538, 1, -7});
      if (how == 2) t.key->alg.reset();
      if (how == 3) t.key->crv = rng.Pick(std::vector<int64_t>{1, 5, 6, -1});
      if (how == 4) t.key->crv.reset();
      if (how == 5) t.key->x = rng.Chance(0.5) ? mine.x.substr(0, rng.Below(32)) : mine.x + rng.Bytes(1);
      std::string text = Write(rng, t).encoded;
      if (how == 6) text = rng.Chance(0.3) ? "" : rng.Chance(0.5) ? text + "x" : text.substr(0, rng.Below(text.size()));
      auto none = encryptor.Encrypt(plain, text, ad);
      if (none.ok() || none.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("encrypted-to-odd-recipient", Format("%d %s", how, none.status().ToString().c_str()));
      r.Count("odd recipients");
    }
  }
}

// One encryptor and one decryptor used by many threads at once.
void SharedMode(Report& r) {
  for (int64_t i = 0; i < r.N(24, 300); ++i) {
    if (!r.Mine(i)) continue;
    r.Case(i, "");
    r.Eval();
    r.Distinct(i);
    MessageDecryptor decryptor, other;
    MessageEncryptor encryptor;
    std::string token = *decryptor.GetPublicKey([](absl::string_view) { return "s"; }, -7);
    std::string other_token = *other.GetPublicKey([](absl::string_view) { return "s"; }, -7);
    std::atomic<bool> go{false};
    std::vector<std::thread> threads;
    for (int t = 0; t < 4; ++t) {
      threads.emplace_back([&, t] {
        Rng rng(r.seed, 0x54A4 + i * 64 + t);
        while (!go) {
        }
        for (int k = 0; k < 20; ++k) {
          OneMessage(r, rng, encryptor, decryptor, token, other, other_token);
          if (*decryptor.GetPublicKey([](absl::string_view) { return "s"; }, -7) != token) r.Violation("public-key-changes", "threads");
        }
      });
    }
    go = true;
    for (auto& t : threads) t.join();
    r.Count("shared sessions");
  }
}

// ---- signatures ---------------------------------------------------------------------------

std::string Sha(const std::string& s) {
  uint8_t d[32];
  SHA256((const uint8_t*)s.data(), s.size(), d);
  return std::string((char*)d, 32);
}
// Checks a signature with the crypto library alone, through its own format.
bool Checks(const std::string& key, const std::string& data, const std::string& sig) {
  bssl::UniquePtr<EC_KEY> k(EC_KEY_new_by_curve_name(NID_X9_62_prime256v1));
  if (EC_KEY_oct2key(k.get(), (const uint8_t*)key.data(), key.size(), nullptr) != 1) return false;
  bssl::UniquePtr<ECDSA_SIG> s(ECDSA_SIG_new());
  ECDSA_SIG_set0(s.get(), BN_bin2bn((const uint8_t*)sig.data(), 32, nullptr), BN_bin2bn((const uint8_t*)sig.data() + 32, 32, nullptr));
  uint8_t* der = nullptr;
  size_t n = 0;
  if (ECDSA_SIG_to_bytes(&der, &n, s.get()) != 1) return false;
  std::string d = Sha(data);
  bool ok = ECDSA_verify(0, (const uint8_t*)d.data(), d.size(), der, n, k.get()) == 1;
  OPENSSL_free(der);
  return ok;
}
struct Pen {
  bssl::UniquePtr<EC_KEY> k;
  std::string pub, compressed;
  Pen() : k(EC_KEY_new_by_curve_name(NID_X9_62_prime256v1)) {
    if (EC_KEY_generate_key(k.get()) != 1) Report::Broken("no key");
    for (auto form : {POINT_CONVERSION_UNCOMPRESSED, POINT_CONVERSION_COMPRESSED}) {
      uint8_t* p = nullptr;
      size_t n = EC_KEY_key2buf(k.get(), form, &p, nullptr);
      (form == POINT_CONVERSION_UNCOMPRESSED ? pub : compressed).assign((char*)p, n);
      OPENSSL_free(p);
    }
  }
  std::string Sign(const std::string& data) {
    std::string d = Sha(data);
    bssl::UniquePtr<ECDSA_SIG> s(ECDSA_do_sign((const uint8_t*)d.data(), d.size(), k.get()));
    std::string out(64, '\0');
    BN_bn2bin_padded((uint8_t*)out.data(), 32, ECDSA_SIG_get0_r(s.get()));
    BN_bn2bin_padded((uint8_t*)out.data() + 32, 32, ECDSA_SIG_get0_s(s.get()));
    return out;
  }
};

void SignaturesMode(Report& r) {
  for (int64_t i = 0; i < r.N(3000, 40000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x5161 + i);
    r.Case(i, "");
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    EcdsaP256R1Signer made = EcdsaP256R1Signer::Create();
    EcdsaP256R1Signer signer = std::move(made);
    std::string key = signer.GetPublicKey();
    if (key.size() != 65 || key[0] != 4) {
      r.Violation("wrong-public-key", Hex(key));
      continue;
    }
    auto verifier = EcdsaP256R1SignatureVerifier::Create(key);
    Pen pen;
    bool compressed = rng.Chance(0.3);
    auto pen_verifier = EcdsaP256R1SignatureVerifier::Create(compressed ? pen.compressed : pen.pub);
    if (!verifier.ok() || !pen_verifier.ok()) {
      r.Violation("key-refused", Hex(key));
      continue;
    }
    for (int k = 0; k < 6; ++k) {
      std::string data = Plain(rng), sig = signer.Sign(data);
      if (sig.size() != 64 || !Checks(key, data, sig)) {
        r.Violation("signature-invalid-elsewhere", Hex(sig));
        continue;
      }
      if (sig[0] == 0 || sig[32] == 0) r.Count("signatures with padding");
      if (auto s = verifier->Verify(data, sig); !s.ok()) r.Violation("own-signature-refused", s.ToString());
      std::string theirs = pen.Sign(data);
      if (theirs[0] == 0 || theirs[32] == 0) r.Count("signatures with padding");
      if (auto s = pen_verifier->Verify(data, theirs); !s.ok()) r.Violation("good-signature-refused", s.ToString());
      if (verifier->Verify(data, theirs).ok() || pen_verifier->Verify(data, sig).ok()) r.Violation("signature-of-another-accepted", "");
      std::string bad = sig, what = data;
      switch (rng.Below(8)) {
        case 0: what = Tamper(rng, what); break;
        case 1: bad[rng.Below(64)] ^= 1 << rng.Below(8); break;
        case 2: bad = bad.substr(0, rng.Below(64)); break;
        case 3: bad += rng.Bytes(1 + rng.Below(3)); break;
        case 4: bad = bad.substr(32) + bad.substr(0, 32); break;
        case 5: bad = std::string(64, '\0'); break;
        case 6: bad = rng.Chance(0.5) ? bad.substr(0, 32) + std::string(32, '\0') : std::string(32, '\0') + bad.substr(32); break;
        default: bad = std::string(64, '\xff');
      }
      auto s = verifier->Verify(what, bad);
      if (s.ok()) r.Violation("bad-signature-accepted", Hex(bad));
      else if (s.code() != absl::StatusCode::kInvalidArgument) r.Violation("wrong-code-for-bad-signature", s.ToString());
      r.Count("bad signatures");
      r.Count("signatures");
    }
    std::string odd = key;
    switch (rng.Below(5)) {
      case 0: odd = odd.substr(0, rng.Below(65)); break;
      case 1: odd += "x"; break;
      case 2: odd[1 + rng.Below(64)] ^= 1 << rng.Below(8); break;  // almost surely not on the curve
      case 3: odd[0] = rng.Pick(std::vector<char>{0, 1, 2, 3, 5}); break;
      default: odd = rng.Bytes(65);
    }
    auto none = EcdsaP256R1SignatureVerifier::Create(odd);
    if (none.ok() || none.status().code() != absl::StatusCode::kInvalidArgument) r.Violation("odd-key-accepted", Hex(odd));
  }
}

// ---- nonces -------------------------------------------------------------------------------

void NoncesMode(Report& r) {
  using fcp::confidentialcompute::BlobMetadata;
  std::set<std::string> sessions;
  for (int64_t i = 0; i < r.N(1600, 16000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x404C + i);
    r.Case(i, "");
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    NonceChecker checker, stranger;
    std::string session = checker.GetSessionNonce();
    if (session.empty() || !sessions.insert(session).second || session == stranger.GetSessionNonce() || session != checker.GetSessionNonce()) {
      r.Violation("session-not-told-apart", Hex(session));
    }
    NonceGenerator generator(session), second(session), foreign(stranger.GetSessionNonce());
    auto blob = [&](const std::string& n) {
      BlobMetadata m;
      m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->set_nonce(n);
      return m;
    };
    // All nonces of the session so far; the checker is to take them in order.
    std::vector<std::string> all, others;
    std::set<std::string> unique;
    size_t taken = 0;
    bool longrun = i % 400 == 7;
    int steps = longrun ? 140000 : 20 + rng.Below(900);
    double p = longrun ? 0.0005 : 0.5;
    for (int k = 0; k < steps; ++k) {
      while (all.size() < taken + 3) {
        auto n = generator.GetNextBlobNonce();
        auto n2 = second.GetNextBlobNonce();
        if (!n.ok() || !n2.ok() || *n != *n2) {
          r.Violation("generators-disagree", Format("%zu", all.size()));
          return;
        }
        if (!unique.insert(*n).second) r.Violation("nonce-repeated", Format("%zu", all.size()));
        all.push_back(*n);
        if (others.size() < 50) others.push_back(*foreign.GetNextBlobNonce());
      }
      if (rng.Chance(p)) {
        // Something which must not count.
        BlobMetadata m;
        bool expect_ok = false;
        switch (rng.Below(8)) {
          case 0: m.mutable_unencrypted(); expect_ok = true; break;
          case 1: if (!taken) continue; m = blob(all[rng.Below(taken)]); break;           // again
          case 2: if (!taken) continue; m = blob(all[taken - 1]); break;                   // the last one again
          case 3: m = blob(all[taken + 1 + rng.Below(2)]); break;                          // ahead
          case 4: m = blob(rng.Pick(others)); break;                                       // of another session
          case 5: m = blob(Tamper(rng, all[taken])); break;
          case 6: if (rng.Chance(0.5)) m = blob(""); else if (rng.Chance(0.5)) m = blob(session); break;
          default:
            m.mutable_hpke_plus_aead_data()->mutable_ledger_symmetric_key_associated_data();
        }
        auto s = checker.CheckBlobNonce(m);
        if (s.ok() != expect_ok) r.Violation(expect_ok ? "unencrypted-refused" : "wrong-nonce-accepted", Format("after %zu: %s", taken, m.ShortDebugString().c_str()));
        if (!s.ok() && s.code() != absl::StatusCode::kPermissionDenied) r.Violation("wrong-code-for-nonce", s.ToString());
        r.Count(expect_ok ? "unencrypted" : "wrong nonces");
        continue;
      }
      auto s = checker.CheckBlobNonce(blob(all[taken]));
      if (!s.ok()) {
        r.Violation("right-nonce-refused", Format("after %zu: %s", taken, s.ToString().c_str()));
        break;
      }
      ++taken;
      r.Count("right nonces");
    }
    if (longrun) r.Count("long sessions");
  }
}

// ---- attestation ---------------------------------------------------------------------------

struct Oak {
  int calls = 0;
  std::string evidence, endorsements, reference;
  absl::StatusOr<oak::attestation::v1::AttestationResults> answer;
} oak_says;

void AttestationMode(Report& r) {
  using namespace fcp::client::attestation;
  using fcp::confidentialcompute::AttestationVerificationRecord;
  using fcp::confidentialcompute::DataAccessPolicy;
  using google::internal::federatedcompute::v1::ConfidentialEncryptionConfig;
  using oak::attestation::v1::AttestationResults;
  for (int64_t i = 0; i < r.N(24000, 240000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xA77E + i);
    // What is wrong, if anything.
    int wrong = rng.Chance(0.3) ? 0 : 1 + rng.Below(17);
    r.Case(i, Format("wrong=%d", wrong));
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    Pen pen;
    Token t;
    t.alg = -7;
    if (rng.Chance(0.5)) t.exp = AnyTime(rng);
    t.key = Key{.x = rng.Bytes(32), .alg = -65537, .crv = 4};
    if (rng.Chance(0.5)) t.key->id = AnyBytes(rng);
    t.config = AnyStruct(rng);
    if (wrong == 1) t.alg.reset();
    if (wrong == 2) t.alg = rng.Pick(std::vector<int64_t>{-8, -35, 7, -65537, 0, -6});
    if (wrong == 3) t.key.reset();
    int kind = rng.Chance(0.3);
    Rng fork = rng;
    t.signature = std::string(64, '\0');
    Written w = Write(fork, t, "", kind);
    t.signature = pen.Sign(Covered(w, wrong == 4 ? "aad" : ""));
    if (wrong == 5) t.signature = Tamper(rng, t.signature), fork = rng;
    fork = rng;
    // Written again with the signature in place; the signed parts have to stay
    // the same, so they are put together from the first writing.
    std::string encoded;
    {
      std::string header = w.header, payload = w.payload;
      if (wrong == 6) {  // signed, then changed: another key in the payload
        Token u = t;
        u.key = Key{.x = rng.Bytes(32), .alg = -65537, .crv = 4};
        Rng f2 = rng;
        payload = Write(f2, u, "", kind).payload;
      }
      if (wrong == 7) header = WMap({{WInt(1), WInt(-7)}, {WInt(99), WInt((int64_t)rng.Below(100))}});
      Entries u;
      AddNoise(rng, u, {});
      encoded = kind ? WArray({WBytes(w.body_header), WMap({}), WBytes(payload), WArray({WArray({WBytes(header), WMap(u), WBytes(t.signature)})})})
                     : WArray({WBytes(header), WMap(u), WBytes(payload), WBytes(t.signature)});
    }
    if (wrong == 8) encoded = rng.Chance(0.5) ? encoded + "x" : encoded.substr(0, rng.Below(encoded.size()));

    DataAccessPolicy policy;
    for (int k = rng.Below(4); k > 0; --k) {
      auto* tr = policy.add_transforms();
      tr->set_src(rng.Below(5));
      if (rng.Chance(0.5)) tr->set_dest(rng.Below(5));
      tr->mutable_application()->set_tag(Format("app%d", (int)rng.Below(9)));
      tr->mutable_access_budget()->set_times(rng.Below(9));
    }
    std::string policy_bytes = policy.SerializeAsString();
    // Valid bytes which would come out differently if written again.
    if (rng.Chance(0.4)) policy_bytes += rng.Pick(std::vector<std::string>{std::string("\x12\x00", 2), "\xf8\x07\x05", std::string("\x0a\x00", 2)});
    if (rng.Chance(0.3)) policy_bytes = "\xf8\x07\x05" + policy_bytes;  // something unknown comes first
    if (policy_bytes.empty() && rng.Chance(0.5)) policy_bytes = std::string("\x0a\x00", 2);
    if (wrong == 9) policy_bytes = rng.Pick(std::vector<std::string>{"\xff", "\x0a\x05", "\x0a\x02\xff\xff", "not a policy"});
    DataAccessPolicy parsed;
    bool parses = parsed.ParseFromString(policy_bytes);
    if (wrong == 9 && parses) wrong = 0;
    auto hash = [](const std::string& s) { return absl::BytesToHexString(Sha(s)); };
    absl::flat_hash_set<std::string> allowed;
    for (int k = rng.Below(3); k > 0; --k) allowed.insert(hash(rng.Bytes(5)));
    if (wrong != 10) allowed.insert(hash(policy_bytes));
    else if (rng.Chance(0.5)) {
      // Things near to it which must not do.
      allowed.insert(hash(policy_bytes + "\x12"));
      allowed.insert(Sha(policy_bytes));
      allowed.insert("");
      allowed.insert(policy_bytes);
      if (parsed.SerializeAsString() != policy_bytes) allowed.insert(hash(parsed.SerializeAsString()));
    }
    absl::Cord cord;
    for (size_t at = 0; at < policy_bytes.size();) {
      size_t n = rng.Chance(0.5) ? policy_bytes.size() - at : 1 + rng.Below(policy_bytes.size() - at);
      cord.Append(absl::Cord(policy_bytes.substr(at, n)));
      at += n;
    }

    ConfidentialEncryptionConfig config;
    config.set_public_key(encoded);
    config.mutable_attestation_evidence()->set_root_layer(rng.Bytes(rng.Below(50)));
    if (rng.Chance(0.5)) config.mutable_attestation_evidence()->add_layers(rng.Bytes(10));
    config.mutable_attestation_endorsements()->add_blobs(rng.Bytes(rng.Below(20)));
    oak::attestation::v1::ReferenceValues reference;
    reference.set_values(rng.Bytes(rng.Below(20)));

    AttestationResults results;
    results.set_status(AttestationResults::STATUS_SUCCESS);
    results.set_signing_public_key(pen.pub);
    results.set_encryption_public_key(rng.Bytes(32));
    Pen another;
    if (wrong == 11) results.set_status(AttestationResults::STATUS_GENERIC_FAILURE);
    if (wrong == 12) results.set_status(AttestationResults::STATUS_UNSPECIFIED);
    if (wrong == 13) results.set_signing_public_key(another.pub);
    if (wrong == 14) results.set_signing_public_key(rng.Chance(0.5) ? "" : rng.Bytes(65));
    if (wrong == 11 || wrong == 12) results.set_reason("because");
    oak_says = Oak{.answer = results};
    if (wrong == 15) oak_says.answer = absl::Status(rng.Pick(std::vector<absl::StatusCode>{absl::StatusCode::kInternal, absl::StatusCode::kInvalidArgument}), "cannot say");
    if (wrong == 16) {  // a signing key smuggled in as the encryption key
      results.set_signing_public_key(another.pub);
      results.set_encryption_public_key(pen.pub);
      oak_says.answer = results;
    }
    if (wrong == 17) wrong = 0;

    std::vector<AttestationVerificationRecord> records;
    OakRustAttestationVerifier verifier(reference, allowed, [&](const AttestationVerificationRecord& rec) { records.push_back(rec); });
    int times = rng.Chance(0.2) ? 2 : 1;
    for (int k = 0; k < times; ++k) {
      records.clear();
      oak_says.calls = 0;
      auto result = verifier.Verify(cord, config);
      std::string what = Format("wrong=%d kind=%d %s", wrong, kind, result.status().ToString().c_str());
      if (wrong) {
        if (result.ok()) r.Violation("accepted-what-was-not-attested", what);
        if (!records.empty()) r.Violation("refused-but-recorded", what);
        r.Count(Format("refused %d", wrong));
      } else {
        if (!result.ok()) r.Violation("refused-what-was-attested", what);
        else if (!Same(*t.key, *result)) r.Violation("another-key-returned", what);
        if (records.size() != 1) r.Violation("not-recorded-once", what + Format(" %zu", records.size()));
        else if (!Same(records[0].attestation_evidence(), config.attestation_evidence()) || !Same(records[0].attestation_endorsements(), config.attestation_endorsements()) ||
                 !Same(records[0].data_access_policy(), parsed)) {
          r.Violation("wrong-record", what);
        }
        r.Count("accepted");
      }
      if (oak_says.calls == 0 && result.ok()) r.Violation("nobody-asked", what);
      if (oak_says.calls && (oak_says.evidence != config.attestation_evidence().SerializeAsString() ||
                             oak_says.endorsements != config.attestation_endorsements().SerializeAsString() || oak_says.reference != reference.SerializeAsString())) {
        r.Violation("something-else-attested", what);
      }
    }
    // The two which do not look.
    AlwaysFailingAttestationVerifier never;
    AlwaysPassingAttestationVerifier always;
    if (never.Verify(cord, config).ok()) r.Violation("always-failing-passes", "");
    auto a = always.Verify(cord, config);
    bool readable = OkpCwt::Decode(encoded).ok() && wrong != 3;
    if (a.ok() != readable || (wrong == 0 && !Same(*t.key, *a))) r.Violation("always-passing-fails", Format("wrong=%d %s", wrong, a.status().ToString().c_str()));
  }
}

// ---- records of attestation -----------------------------------------------------------------

void RecordsMode(Report& r) {
  using namespace fcp::client::attestation;
  using fcp::confidentialcompute::AttestationVerificationRecord;
  for (int64_t i = 0; i < r.N(12000, 120000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x4EC0 + i);
    r.Case(i, "");
    r.Eval();
    r.Distinct(verif::Mix(rng.U64()));
    struct Expect {
      std::string data;
      int start, end;
    };
    std::vector<Expect> expect;
    std::string text;
    int line = 0;
    std::string prefix = rng.Pick(std::vector<std::string>{"", "I0424 09:57:22.979757    9092 x.cc:207] ", "04-24 10:00:00.000  1 2 D "});
    auto add = [&](const std::string& s) {
      text += s + "\n";
      ++line;
    };
    auto noise = [&] {
      while (rng.Chance(0.3)) {
        add(rng.Pick(std::vector<std::string>{"", "unrelated", "other.tag: <AAAA>", "other.tag: <>", "<>", "fcp.attest: nothing here", "< fcp.attes: x >",
                                              prefix + "something else: <" + std::string(300, 'z') + ">"}));
      }
    };
    int n = rng.Below(5);
    for (int k = 0; k < n; ++k) {
      AttestationVerificationRecord record;
      int size = rng.Chance(0.3) ? rng.Below(30) : rng.Below(3000);
      if (rng.Chance(0.9)) record.mutable_attestation_evidence()->set_root_layer(rng.Bytes(size));
      if (rng.Chance(0.5)) record.mutable_attestation_endorsements()->add_blobs(rng.Bytes(rng.Below(40)));
      if (rng.Chance(0.5)) record.mutable_data_access_policy()->add_transforms()->mutable_application()->set_tag("tag");
      std::string data = record.SerializeAsString();
      std::vector<std::pair<std::string, bool>> lines;
      internal::LogSerializedVerificationRecordWith(record, [&](absl::string_view s, bool brackets) { lines.push_back({std::string(s), brackets}); });
      // What is logged is the record, in pieces of at most 200 characters and
      // closed by an empty one.
      std::string joined;
      size_t chunks = 0;
      bool ends = false;
      for (size_t l = 0; l < lines.size(); ++l) {
        if (!lines[l].second) continue;
        if (lines[l].first.size() > 200 || ends) r.Violation("wrong-line-logged", Format("%zu", lines[l].first.size()));
        if (lines[l].first.empty()) ends = true;
        joined += lines[l].first;
        ++chunks;
      }
      std::string raw;
      auto unzipped = absl::Base64Unescape(joined, &raw) ? fcp::UncompressWithGzip(raw) : absl::StatusOr<absl::Cord>(absl::InternalError("base64"));
      if (!ends || !unzipped.ok() || std::string(*unzipped) != data) {
        r.Violation("record-not-logged", Format("%zu bytes, %zu lines", data.size(), lines.size()));
        continue;
      }
      if (joined.size() % 200 == 0) r.Count("records of whole lines");
      r.Count("records logged");
      noise();
      // How it gets into the log: as it is, in the old form with lines too
      // long, or with something lost.
      int how = rng.Chance(0.6) ? 0 : 1 + rng.Below(4);
      int start = 0;
      bool lost = false;
      size_t at = 0, nth = 0, drop = rng.Below(chunks);
      if (how == 2 && (drop == chunks - 1 || chunks < 3)) how = 0;  // the closing line is not lost, nor all before it
      for (auto& [s, brackets] : lines) {
        if (!brackets) {
          add(prefix + "fcp.attest: " + s);
          continue;
        }
        bool last = s.empty();
        std::string body = "<" + s + ">";
        if (how == 1 && !last) {
          // All that is left, cut off by the log at some length.
          std::string rest = joined.substr(at);
          body = rest.size() > 1000 ? "<" + rest.substr(0, 1000) : "<" + rest + ">";
        }
        if (how == 2 && nth == drop && !last) {
          lost = true;
        } else if (how == 3 && nth == drop && !last) {
          body[1] = '*';  // not base64 any more
          lost = true;
          add(prefix + "fcp.attest: " + body);
          if (!start) start = line;
        } else {
          add(prefix + "fcp.attest: " + body);
          if (!start) start = line;
        }
        at += s.size();
        ++nth;
        if (!last) noise();
      }
      // Without a piece what is left must not be taken for a record.
      if (!lost) expect.push_back({data, start, line});
      r.Count(lost ? "records lost" : how == 1 ? "records in old form" : "records written");
    }
    noise();
    if (rng.Chance(0.2)) add(prefix + "fcp.attest: <QUJD>");  // never closed
    if (rng.Chance(0.3) && !text.empty()) text.pop_back();
    std::vector<Record> got;
    std::istringstream in(text);
    int count = ExtractRecords(in, [&](const Record& rec) { got.push_back(rec); });
    if (count != (int)got.size()) r.Violation("miscounted", Format("%d %zu", count, got.size()));
    // Records nothing was lost of are found, in order and where they are.
    bool same = got.size() == expect.size();
    for (size_t k = 0; same && k < got.size(); ++k) {
      same = std::string(got[k].decompressed_record) == expect[k].data && got[k].digest == absl::BytesToHexString(Sha(expect[k].data)) &&
             got[k].start_line == expect[k].start && got[k].end_line == expect[k].end;
    }
    if (!same) {
      std::string what = Format("%zu of %zu", got.size(), expect.size());
      for (auto& g : got) what += Format(" got %d-%d", g.start_line, g.end_line);
      for (auto& g : expect) what += Format(" want %d-%d (%zu)", g.start, g.end, g.data.size());
      r.Violation("records-misread", what);
    }
    r.Count("records found", got.size());
    // Any text at all.
    std::istringstream junk(Mutate(rng, text.substr(0, 3000)));
    ExtractRecords(junk, [&](const Record&) {});
  }
}

}  // namespace

namespace fcp::client::rust::oak_attestation_verification_ffi {
absl::StatusOr<oak::attestation::v1::AttestationResults> VerifyAttestation(absl::Time, const oak::attestation::v1::Evidence& evidence,
                                                                          const oak::attestation::v1::Endorsements& endorsements,
                                                                          const oak::attestation::v1::ReferenceValues& reference_values) {
  ++oak_says.calls;
  oak_says.evidence = evidence.SerializeAsString();
  oak_says.endorsements = endorsements.SerializeAsString();
  oak_says.reference = reference_values.SerializeAsString();
  return oak_says.answer;
}
}  // namespace fcp::client::rust::oak_attestation_verification_ffi

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "cose") CoseMode(r);
  else if (r.mode == "messages") MessagesMode(r);
  else if (r.mode == "shared") SharedMode(r);
  else if (r.mode == "signatures") SignaturesMode(r);
  else if (r.mode == "nonces") NoncesMode(r);
  else if (r.mode == "attestation") AttestationMode(r);
  else if (r.mode == "records") RecordsMode(r);
  else Report::Broken("mode");
  return r.Finish();
}
