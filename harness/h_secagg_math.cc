// The arithmetic and cryptographic building blocks of secure aggregation,
// against independent reference implementations.
//   --mode=shamir  --mode=vector  --mode=masks  --mode=graph  --mode=crypto
#include <openssl/aead.h>
#include <openssl/evp.h>
#include <openssl/sha.h>

#include <algorithm>
#include <cmath>
#include <numeric>

#include "fcp/secagg/server/graph_parameter_finder.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
#include "fcp/secagg/shared/aes_ctr_prng.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/compute_session_id.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "null_tracing.h"
#include "secagg_world.h"

namespace verif {
namespace {

using namespace fcp::secagg;  // NOLINT

// ---- secret sharing ---------------------------------------------------------------
constexpr uint64_t kP = 2147483659ull;

uint64_t Mul(uint64_t a, uint64_t b) { return (unsigned __int128)a * b % kP; }
uint64_t Pow(uint64_t a, uint64_t e) {
  uint64_t r = 1;
  for (; e; e >>= 1, a = Mul(a, a))
    if (e & 1) r = Mul(r, a);
  return r;
}
uint64_t Inv(uint64_t a) { return Pow(a % kP, kP - 2); }

uint32_t Word(const std::string& s, size_t k) {
  uint32_t v = 0;
  for (int i = 0; i < 4; ++i) v = v << 8 | static_cast<uint8_t>(s[4 * k + i]);
  return v;
}

// Value at x of the polynomial through the given points.
uint64_t At(const std::vector<std::pair<uint64_t, uint64_t>>& pts, uint64_t x) {
  uint64_t sum = 0;
  for (size_t i = 0; i < pts.size(); ++i) {
    uint64_t num = 1, den = 1;
    for (size_t j = 0; j < pts.size(); ++j) {
      if (i == j) continue;
      num = Mul(num, (x + kP - pts[j].first) % kP);
      den = Mul(den, (pts[i].first + kP - pts[j].first) % kP);
    }
    sum = (sum + Mul(pts[i].second, Mul(num, Inv(den)))) % kP;
  }
  return sum;
}

// Coefficients of the polynomial through (1,y[0]), (2,y[1]), ...
std::vector<uint64_t> Coefficients(const std::vector<uint64_t>& y) {
  size_t t = y.size();
  std::vector<uint64_t> d = y, c(t, 0);
  for (size_t k = 1; k < t; ++k)
    for (size_t i = t - 1; i >= k; --i) d[i] = Mul((d[i] + kP - d[i - 1]) % kP, Inv(k));
  for (size_t k = t; k-- > 0;) {  // c = c * (x - (k + 1)) + d[k]
    for (size_t i = t - 1; i > 0; --i) c[i] = (c[i - 1] + Mul(c[i], kP - (k + 1))) % kP;
    c[0] = (Mul(c[0], kP - (k + 1)) + d[k]) % kP;
  }
  return c;
}

// What the masking coefficients of all sharings looked like.
struct Spread {
  static constexpr int kBins = 32;
  int64_t n = 0, bin[kBins] = {}, bit[31] = {};
  void Add(uint64_t c) {
    ++n;
    ++bin[c * kBins / kP];
    for (int b = 0; b < 31; ++b) bit[b] += c >> b & 1;
  }
  void Judge(Report& r, const std::string& which) const {
    if (n < 2000) return;
    r.Eval();
    double p = 1.0 / kBins, sd = std::sqrt(n * p * (1 - p));
    for (int k = 0; k < kBins; ++k)
      if (std::abs(bin[k] - n * p) > 8 * sd)
        r.Violation("coefficients-not-uniform",
                    Format("%s: %lld of %lld in part %d of %d of the field", which.c_str(),
                           (long long)bin[k], (long long)n, k, kBins));
    for (int b = 0; b < 31; ++b)
      if (std::abs(bit[b] - n * 0.5) > 8 * std::sqrt(n * 0.25))
        r.Violation("coefficients-not-uniform",
                    Format("%s: bit %d set in %lld of %lld", which.c_str(), b, (long long)bit[b],
                           (long long)n));
  }
};
Spread g_leading, g_inner;

void Shamir(Report& r, Rng rng, ShamirSecretSharing& shared) {
  int n = rng.Chance(0.05) ? static_cast<int>(rng.Range(50, 300)) : static_cast<int>(rng.Range(2, 24));
  int t = rng.Chance(0.2) ? (rng.Chance(0.5) ? 2 : n) : static_cast<int>(rng.Range(2, n));
  size_t len = rng.Chance(0.5) ? 32 : rng.Range(1, 100);
  std::string secret = rng.Bytes(len);
  if (rng.Chance(0.15)) secret.assign(len, '\0');
  if (rng.Chance(0.15)) secret.assign(len, '\xff');
  if (rng.Chance(0.1)) secret[0] = '\0';
  auto describe = [&] { return Format("n=%d t=%d len=%zu", n, t, len); };
  ShamirSecretSharing own;
  ShamirSecretSharing& s = rng.Chance(0.5) ? shared : own;
  auto shares = s.Share(t, n, secret);
  r.Eval();
  if (static_cast<int>(shares.size()) != n) {
    r.Violation("wrong-number-of-shares", describe());
    return;
  }
  size_t words = (len * 8 + 30) / 31;
  for (auto& x : shares) {
    if (x.data.size() != words * 4) {
      r.Violation("share-size", describe());
      return;
    }
    for (size_t k = 0; k < words; ++k)
      if (Word(x.data, k) >= kP) r.Violation("share-outside-the-field", describe());
  }
  // All shares lie on one polynomial of degree t-1 whose value at 0 is the
  // secret, and lower degree does not fit.
  int degenerate = 0;
  std::set<std::vector<uint64_t>> polys;
  for (size_t k = 0; k < words; ++k) {
    std::vector<std::pair<uint64_t, uint64_t>> pts;
    std::vector<int> order(n);
    std::iota(order.begin(), order.end(), 0);
    rng.Shuffle(order);
    for (int i = 0; i < t; ++i) pts.push_back({order[i] + 1, Word(shares[order[i]].data, k)});
    if (t <= 30) {
      for (int i = t; i < n && i < t + 6; ++i)
        if (At(pts, order[i] + 1) != Word(shares[order[i]].data, k))
          r.Violation("shares-not-on-one-polynomial", describe());
      uint64_t at0 = At(pts, 0);
      // The 31 bits of the secret belonging to this word.
      uint64_t want = 0;
      size_t low = (words - 1 - k) * 31;
      for (size_t b = 0; b < 31; ++b) {
        size_t bit = low + b;
        if (bit >= len * 8) break;
        if (static_cast<uint8_t>(secret[len - 1 - bit / 8]) >> (bit % 8) & 1) want |= 1ull << b;
      }
      if (at0 != want) r.Violation("polynomial-does-not-carry-the-secret", describe());
      pts.pop_back();
      if (!pts.empty() && At(pts, 0) == at0) ++degenerate;
    }
    if (t <= 8) {
      std::vector<uint64_t> y;
      for (int i = 0; i < t; ++i) y.push_back(Word(shares[i].data, k));
      auto c = Coefficients(y);
      g_leading.Add(c[t - 1]);
      for (int i = 1; i < t - 1; ++i) g_inner.Add(c[i]);
      r.Count("coefficients looked at", t - 1);
    }
    // The masking part of the polynomial must be fresh for every word.
    std::vector<uint64_t> shape;
    uint64_t base = Word(shares[0].data, k);
    for (int i = 1; i < n; ++i) shape.push_back((Word(shares[i].data, k) + kP - base) % kP);
    polys.insert(shape);
  }
  if (degenerate >= 2)
    r.Violation("fewer-shares-than-threshold-suffice", describe());
  if (words >= 5 && polys.size() + 2 < words) r.Violation("polynomials-repeat", describe());

  // Any t shares give the secret back; the object may have been used before
  // with other sets of shares.
  int rounds = static_cast<int>(rng.Range(1, 4));
  for (int q = 0; q < rounds; ++q) {
    std::vector<int> order(n);
    std::iota(order.begin(), order.end(), 0);
    rng.Shuffle(order);
    int have = static_cast<int>(rng.Range(rng.Chance(0.2) ? 1 : t, rng.Chance(0.5) ? t : n));
    if (have > n) have = n;
    std::vector<ShamirShare> some(n);
    for (int i = 0; i < have; ++i) some[order[i]] = shares[order[i]];
    auto got = s.Reconstruct(t, some, static_cast<int>(len));
    r.Eval();
    r.Distinct(Format("%d/%d/%d len %zu", n, t, have, len));
    if (have < t) {
      r.Count("too few shares");
      if (got.ok()) r.Violation("too-few-shares-accepted", describe());
    } else {
      r.Count("secrets reconstructed");
      if (!got.ok()) r.Violation("enough-shares-refused", describe() + got.status().ToString());
      else if (*got != secret)
        r.Violation("wrong-secret", describe() + Format(" have=%d got ", have) + Hex(*got) +
                                        " want " + Hex(secret));
    }
    if (r.WantsSample()) r.Sample(describe() + Format(" have=%d ok=%d", have, (int)got.ok()));
  }
  // Keys: 32 bytes, or the Java form (17 bytes or fewer, no needless zeros).
  if (rng.Chance(0.5)) {
    std::string key, wire;
    if (rng.Chance(0.5)) {
      key = wire = rng.Bytes(32);
      if (rng.Chance(0.3)) key[0] = wire[0] = 0;
    } else {
      std::string v = rng.Bytes(16);
      size_t zeros = rng.Chance(0.5) ? 0 : rng.Below(17);
      for (size_t i = 0; i < zeros; ++i) v[i] = 0;
      wire = std::string(1, '\0') + v;
      key = wire;
      while (key.size() > 1 && key[0] == 0 && static_cast<uint8_t>(key[1]) < 128) key.erase(0, 1);
      r.Count("legacy keys");
    }
    auto ks = s.Share(t, n, wire);
    std::vector<ShamirShare> some(n);
    std::vector<int> order(n);
    std::iota(order.begin(), order.end(), 0);
    rng.Shuffle(order);
    int have = static_cast<int>(rng.Range(0, n));
    for (int i = 0; i < have; ++i) some[order[i]] = ks[order[i]];
    auto got = AesKey::CreateFromShares(some, t);
    r.Eval();
    if (have < t) {
      if (got.ok()) r.Violation("key-from-too-few-shares", describe());
    } else if (!got.ok() || got->AsString() != key) {
      r.Violation("wrong-key", describe() + " want " + Hex(key) + " got " +
                                   (got.ok() ? Hex(got->AsString()) : got.status().ToString()));
    }
    // Shares that cannot belong to one key give an error.
    if (have > 0 && rng.Chance(0.3)) {
      auto odd = some;
      auto& x = odd[order[rng.Below(have)]].data;
      bool lone = have == 1;
      x = rng.Bytes(rng.Chance(0.5) ? (x.size() == 36 ? 20 : 36) : rng.Range(1, 60));
      bool legal = x.size() == 36 || x.size() == 20;
      if (x.size() != some[order[0]].data.size() && !(lone && legal)) {
        r.Eval();
        r.Count("shares of different sizes");
        if (AesKey::CreateFromShares(odd, t).ok())
          r.Violation("key-from-shares-of-different-sizes", describe() + Format(" %zu", x.size()));
      }
    }
  }
}

// ---- packed vectors ---------------------------------------------------------------------
std::string PackRef(const std::vector<uint64_t>& v, int bits) {
  std::string out((v.size() * bits + 7) / 8, '\0');
  for (size_t i = 0; i < v.size(); ++i)
    for (int b = 0; b < bits; ++b)
      if (v[i] >> b & 1) {
        size_t at = i * bits + b;
        out[at / 8] = static_cast<char>(out[at / 8] | 1 << (at % 8));
      }
  return out;
}

int BitsFor(uint64_t modulus) {
  int b = 0;
  for (uint64_t x = modulus - 1; x; x >>= 1) ++b;
  return b;
}

void Vector(Report& r, Rng rng) {
  uint64_t m = RandomModulus(rng);
  size_t n = rng.Chance(0.1) ? rng.Range(100, 2000) : rng.Below(40);
  bool huge = rng.Chance(0.0008);
  if (huge) {
    n = rng.Range(32000, 140000);
    r.Count("vectors of more than 32000 elements");
  }
  std::vector<uint64_t> v(n), w(n);
  for (auto& x : v) x = RandomElement(rng, m);
  for (auto& x : w) x = RandomElement(rng, m);
  int bits = BitsFor(m);
  auto describe = [&] { return Format("modulus=%llu n=%zu", (unsigned long long)m, n); };
  std::string ref = PackRef(v, bits);
  bool a = rng.Chance(0.5), b = rng.Chance(0.5);
  SecAggVector x(v, m, a);
  r.Eval();
  r.Distinct(Format("bits %d n%%8=%zu pow2=%d", bits, n % 8, (int)!(m & (m - 1))));
  if (x.GetAsPackedBytes() != ref) r.Violation("packing", describe() + Format(" branchless=%d", a));
  if (x.modulus() != m || x.num_elements() != n || static_cast<int>(x.bit_width()) != bits)
    r.Violation("description", describe());
  if (x.GetAsUint64Vector() != v) r.Violation("round-trip", describe() + Format(" branchless=%d", a));
  SecAggVector y(ref, m, n, b);
  if (y.GetAsUint64Vector() != v) r.Violation("unpacking", describe() + Format(" branchless=%d", b));
  if (!(x == y)) r.Violation("equality", describe());
  SecAggVector::Coder coder(m, bits, n);
  for (uint64_t e : v) coder.WriteValue(e);
  SecAggVector z = std::move(coder).Create();
  if (z.GetAsPackedBytes() != ref) r.Violation("coder", describe());
  SecAggVector::Decoder dec(ref, m);
  for (size_t i = 0; i < n; ++i)
    if (dec.ReadValue() != v[i]) {
      r.Violation("decoder", describe() + Format(" at %zu", i));
      break;
    }
  // Bytes that no codec wrote still read as elements below the modulus.
  if (n > 0) {
    std::string noise = rng.Bytes(ref.size());
    if (rng.Chance(0.3)) noise.assign(ref.size(), '\xff');
    if (rng.Chance(0.3)) noise = PackRef(std::vector<uint64_t>(n, m), bits);
    SecAggVector strange(noise, m, n, b);
    SecAggVector::Decoder sd(noise, m);
    SecAggUnpackedVector su(strange);
    for (size_t i = 0; i < n; ++i) {
      uint64_t e = sd.ReadValue();
      if (e >= m || su[i] >= m || e != su[i]) {
        r.Violation("element-outside-the-modulus", describe() + Format(" at %zu", i));
        break;
      }
    }
    r.Count("foreign bytes read");
  }
  // Sums.
  std::vector<uint64_t> sum(n);
  for (size_t i = 0; i < n; ++i) sum[i] = AddMod64(v[i], w[i], m);
  SecAggVector wv(w, m, b);
  if (AddVectors(x, wv).GetAsUint64Vector() != sum) r.Violation("sum", describe());
  SecAggUnpackedVector u1(x), u2(w, m);
  if (std::vector<uint64_t>(u1) != v) r.Violation("unpacked-copy", describe());
  u1.Add(wv);
  if (std::vector<uint64_t>(u1) != sum) r.Violation("unpacked-sum", describe());
  SecAggUnpackedVector u3(v, m);
  u3.Add(u2);
  if (std::vector<uint64_t>(u3) != sum) r.Violation("unpacked-sum", describe());
  // Maps: several vectors of different moduli side by side.
  SecAggVectorMap ma, mb;
  SecAggUnpackedVectorMap ua, ub;
  std::map<std::string, std::vector<uint64_t>> want;
  int k = static_cast<int>(rng.Range(1, 4));
  for (int i = 0; i < k; ++i) {
    uint64_t mm = RandomModulus(rng);
    size_t nn = huge ? rng.Range(1000, 70000) : rng.Chance(0.02) ? rng.Range(100, 3000) : rng.Below(12);
    std::vector<uint64_t> p(nn), q(nn), t(nn);
    for (size_t j = 0; j < nn; ++j) {
      p[j] = RandomElement(rng, mm);
      q[j] = RandomElement(rng, mm);
      t[j] = AddMod64(p[j], q[j], mm);
    }
    std::string name = rng.Bytes(rng.Below(3)) + Format("%d", i);
    ma.emplace(name, SecAggVector(p, mm, rng.Chance(0.5)));
    mb.emplace(name, SecAggVector(q, mm, rng.Chance(0.5)));
    ua.emplace(name, SecAggUnpackedVector(p, mm));
    ub.emplace(name, SecAggUnpackedVector(q, mm));
    want[name] = t;
  }
  auto ms = AddMaps(ma, mb);
  auto us = SecAggUnpackedVectorMap::AddMaps(ua, ub);
  SecAggUnpackedVectorMap uc(ma);
  uc.Add(mb);
  ua.Add(ub);
  r.Eval();
  if (ms->size() != want.size() || us->size() != want.size() || uc.size() != want.size())
    r.Violation("map-sum-names", describe());
  for (auto& [name, t] : want) {
    if (!ms->contains(name) || ms->at(name).GetAsUint64Vector() != t)
      r.Violation("map-sum", describe());
    if (!us->contains(name) || std::vector<uint64_t>(us->at(name)) != t)
      r.Violation("map-sum", describe());
    if (!uc.contains(name) || std::vector<uint64_t>(uc.at(name)) != t)
      r.Violation("map-sum", describe());
    if (std::vector<uint64_t>(ua.at(name)) != t) r.Violation("map-sum", describe());
  }
  SecAggVector moved(std::move(x));
  if (moved.GetAsUint64Vector() != v || moved.modulus() != m) r.Violation("move", describe());
  if (std::move(moved).TakePackedBytes() != ref) r.Violation("take", describe());
  if (r.WantsSample()) r.Sample(describe() + Format(" packed to %zu bytes", ref.size()));
}

// ---- masks --------------------------------------------------------------------------------
std::string Be32(uint32_t v) {
  std::string s(4, '\0');
  for (int i = 0; i < 4; ++i) s[i] = static_cast<char>(v >> (24 - 8 * i));
  return s;
}

std::string Sha(const std::string& s) {
  uint8_t d[32];
  SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), d);
  return std::string(reinterpret_cast<char*>(d), 32);
}

// The key stream of AES-256-CTR with a zero counter block.
class Stream {
 public:
  explicit Stream(const std::string& key) : ctx_(EVP_CIPHER_CTX_new()) {
    uint8_t iv[16] = {0};
    if (!EVP_EncryptInit_ex(ctx_, EVP_aes_256_ctr(), nullptr,
                            reinterpret_cast<const uint8_t*>(key.data()), iv))
      Report::Broken("cipher");
  }
  ~Stream() { EVP_CIPHER_CTX_free(ctx_); }
  uint8_t Next() {
    uint8_t in = 0, out;
    int n;
    if (!EVP_EncryptUpdate(ctx_, &out, &n, &in, 1) || n != 1) Report::Broken("cipher");
    return out;
  }

 private:
  EVP_CIPHER_CTX* ctx_;
};

std::vector<uint64_t> MaskRef(const AesKey& key, const InputVectorSpecification& spec,
                              const std::string& session) {
  int bits = BitsFor(spec.modulus());
  std::string input = session + Be32(bits) + Be32(spec.length()) + spec.name();
  Stream s(Sha(Be32(bits) + key.AsString() + std::string(1, '\x02') +
               Be32(static_cast<uint32_t>(input.size())) + input));
  int bytes = (bits + 7) / 8;
  uint64_t top = bits % 8 ? (1ull << (bits % 8)) - 1 : 255;
  unsigned __int128 range = static_cast<unsigned __int128>(1) << bits;
  uint64_t reject = static_cast<uint64_t>((range - spec.modulus()) % spec.modulus());
  std::vector<uint64_t> out;
  while (static_cast<int>(out.size()) < spec.length()) {
    uint64_t v = s.Next() & top;
    for (int i = 1; i < bytes; ++i) v = v << 8 | s.Next();
    if (v < reject) continue;
    out.push_back(v % spec.modulus());
  }
  return out;
}

AesKey RandomKey(Rng& rng) {
  std::string k = rng.Bytes(rng.Chance(0.8) ? 32 : rng.Range(15, 17));
  return AesKey(reinterpret_cast<const uint8_t*>(k.data()), static_cast<int>(k.size()));
}

void Masks(Report& r, Rng rng) {
  std::vector<AesKey> add, sub;
  int na = static_cast<int>(rng.Below(4)), nb = static_cast<int>(rng.Below(4));
  for (int i = 0; i < na; ++i) add.push_back(RandomKey(rng));
  for (int i = 0; i < nb; ++i) sub.push_back(RandomKey(rng));
  if (na && nb && rng.Chance(0.2)) sub[0] = add[0];
  std::vector<InputVectorSpecification> specs;
  bool huge = rng.Chance(0.002);
  if (huge) r.Count("vectors of more than 65000 elements");
  int ns = static_cast<int>(rng.Range(1, 3));
  for (int i = 0; i < ns; ++i)
    specs.emplace_back(Format("n%d", i) + std::string(rng.Below(3), 'q'),
                       static_cast<int>(huge && i == 0     ? rng.Range(65000, 140000)
                                        : rng.Chance(0.1) ? rng.Range(400, 2500)
                                                          : rng.Below(30)),
                       RandomModulus(rng));
  SessionId session{rng.Bytes(32)};
  AesCtrPrngFactory factory;
  auto m1 = MapOfMasks(add, sub, specs, session, factory);
  auto m3 = MapOfMasksV3(add, sub, specs, session, factory);
  auto mu = UnpackedMapOfMasks(add, sub, specs, session, factory);
  // What one side adds the other subtracts.
  auto inv = MapOfMasks(sub, add, specs, session, factory);
  auto zero = AddMaps(*m1, *inv);
  for (auto& s : specs) {
    std::string d = Format("len=%d modulus=%llu add=%d sub=%d", s.length(),
                           (unsigned long long)s.modulus(), na, nb);
    std::vector<uint64_t> want(s.length(), 0);
    for (auto& k : add) {
      auto x = MaskRef(k, s, session.data);
      for (int i = 0; i < s.length(); ++i) want[i] = AddMod64(want[i], x[i], s.modulus());
    }
    for (auto& k : sub) {
      auto x = MaskRef(k, s, session.data);
      for (int i = 0; i < s.length(); ++i)
        want[i] = AddMod64(want[i], s.modulus() - x[i], s.modulus());
    }
    r.Eval();
    r.Count("elements compared", s.length());
    r.Distinct(Format("bits %d add %d sub %d pow2 %d long %d", BitsFor(s.modulus()), na, nb,
                      (int)!(s.modulus() & (s.modulus() - 1)), (int)(s.length() >= 400)));
    if (m1->at(s.name()).GetAsUint64Vector() != want) r.Violation("mask-value", "plain " + d);
    if (m3->at(s.name()).GetAsUint64Vector() != want) r.Violation("mask-value", "v3 " + d);
    if (std::vector<uint64_t>(mu->at(s.name())) != want) r.Violation("mask-value", "unpacked " + d);
    for (uint64_t x : zero->at(s.name()).GetAsUint64Vector())
      if (x) {
        r.Violation("masks-do-not-cancel", d);
        break;
      }
  }
  if (m1->size() != specs.size() || m3->size() != specs.size() || mu->size() != specs.size())
    r.Violation("mask-names", "");
  // Aborting gives no map at all, never a partial one.
  std::atomic<std::string*> signal{nullptr};
  AsyncAbort abort(&signal);
  abort.Abort("stop");
  if (MapOfMasks(add, sub, specs, session, factory, &abort) != nullptr ||
      MapOfMasksV3(add, sub, specs, session, factory, &abort) != nullptr ||
      UnpackedMapOfMasks(add, sub, specs, session, factory, &abort) != nullptr)
    r.Violation("aborted-but-returned-masks", "");
  if (r.WantsSample()) r.Sample(Format("add=%d sub=%d vectors=%d", na, nb, ns));
}

// ---- graphs -----------------------------------------------------------------------------------
void CheckGraph(Report& r, const SecretSharingGraph& g, int n, int degree, int t,
                const std::string& d) {
  if (g.GetNumNodes() != n || g.GetDegree() != degree || g.GetThreshold() != t)
    r.Violation("graph-parameters", d);
  for (int i = 0; i < n; ++i) {
    std::set<int> seen;
    for (int k = 0; k < degree; ++k) {
      int j = g.GetNeighbor(i, k);
      if (j < 0 || j >= n || !seen.insert(j).second) {
        r.Violation("neighbour-list", d);
        return;
      }
      auto idx = g.GetNeighborIndex(i, j);
      if (!idx.has_value() || *idx != k) r.Violation("neighbour-index", d);
    }
    if (!seen.count(i)) r.Violation("no-self-edge", d);
    auto self = g.GetNeighborIndex(i, i);
    for (int j = 0; j < n; ++j) {
      bool nb = seen.count(j) > 0;
      if (g.AreNeighbors(i, j) != nb) r.Violation("neighbour-test", d);
      if (g.AreNeighbors(j, i) != nb) r.Violation("not-symmetric", d);
      if (g.GetNeighborIndex(i, j).has_value() != nb) r.Violation("neighbour-index", d);
      // Every edge has exactly one direction, agreed on by both ends and by
      // the order of the list.
      bool out = g.IsOutgoingNeighbor(i, j);
      if (!nb && out) r.Violation("direction-without-edge", d);
      if (nb && i != j) {
        if (out == g.IsOutgoingNeighbor(j, i)) r.Violation("edge-without-one-direction", d);
        if (self.has_value() && out != (*g.GetNeighborIndex(i, j) > *self))
          r.Violation("direction-against-the-order", d);
      }
    }
  }
  r.Eval();
}

double LogChoose(double n, double k) {
  if (k < 0 || k > n) return -HUGE_VAL;
  return std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1);
}
// P[X >= x] / P[X < x] for X the marked ones among `sampled` of `total`.
long double TailGe(int total, int marked, int sampled, int x) {
  long double p = 0;
  for (int k = std::max(x, 0); k <= std::min(sampled, marked); ++k) {
    if (sampled - k > total - marked) continue;
    p += std::exp((long double)(LogChoose(marked, k) + LogChoose(total - marked, sampled - k) -
                                LogChoose(total, sampled)));
  }
  return p;
}
long double TailLt(int total, int marked, int sampled, int x) {
  return TailGe(total, total - marked, sampled, sampled - x + 1);
}

struct Judgement {
  long double leak, fail, split;
};
Judgement Judge(int n, int k, int t, double adv, double drop, AdversaryClass c) {
  int bad = static_cast<int>(std::floor((adv + 1e-14) * n));
  int lost = static_cast<int>(std::floor((drop + 1e-14) * n));
  int live = static_cast<int>(std::ceil((1 - drop - 1e-14) * n));
  Judgement j;
  int needed = c == AdversaryClass::SEMI_MALICIOUS_SERVER ? 2 * t - k : t;
  j.leak = n * TailGe(n, bad, k, needed);
  j.fail = n * TailLt(n, live, k, t);
  j.split = bad + lost < k ? 0
                           : (long double)n * (n - k - 1) / 2 *
                                 std::exp((long double)(LogChoose(bad + lost, k) - LogChoose(n, k)));
  return j;
}

void Graph(Report& r, Rng rng) {
  {
    int n = static_cast<int>(rng.Chance(0.02) ? rng.Range(30, 160) : rng.Range(1, 30));
    int t = static_cast<int>(rng.Range(1, n));
    CheckGraph(r, *SecretSharingGraphFactory::CreateCompleteGraph(n, t), n, n, t,
               Format("complete n=%d", n));
    int degree = 1 + 2 * static_cast<int>(rng.Below((n + 1) / 2));
    t = static_cast<int>(rng.Range(1, degree));
    bool random = rng.Chance(0.7);
    auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, t, random);
    std::string d = Format("harary n=%d degree=%d random=%d", n, degree, (int)random);
    CheckGraph(r, *g, n, degree, t, d);
    // Connected.
    if (degree > 1) {
      std::set<int> seen{0};
      std::vector<int> todo{0};
      while (!todo.empty()) {
        int i = todo.back();
        todo.pop_back();
        for (int k = 0; k < degree; ++k) {
          int j = g->GetNeighbor(i, k);
          if (seen.insert(j).second) todo.push_back(j);
        }
      }
      if (static_cast<int>(seen.size()) != n) r.Violation("disconnected", d);
    }
    r.Distinct(Format("%d/%d", n, degree));
  }
  if (rng.Chance(0.3)) {
    int n = static_cast<int>(rng.Chance(0.5) ? rng.Range(1, 400) : rng.Range(400, 20000));
    SecureAggregationRequirements q;
    AdversaryClass c = rng.Pick(std::vector<AdversaryClass>{
        AdversaryClass::NONE, AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER});
    double adv = c == AdversaryClass::NONE ? 0 : rng.Unit() * 0.5, drop = rng.Unit() * 0.5;
    if (rng.Chance(0.2)) adv = 0;
    if (rng.Chance(0.2)) drop = 0;
    if (rng.Chance(0.05)) adv = 0.95;
    if (rng.Chance(0.05)) drop = 0.95;
    q.set_adversary_class(c);
    q.set_adversarial_client_rate(adv);
    q.set_estimated_dropout_rate(drop);
    std::string d = Format("n=%d adversarial=%.6f dropout=%.6f class=%d", n, adv, drop, (int)c);
    auto p = ComputeHararyGraphParameters(n, q);
    r.Eval();
    bool feasible = (c != AdversaryClass::NONE || adv == 0) &&
                    adv + (c == AdversaryClass::SEMI_MALICIOUS_SERVER ? 2 : 1) * drop <= 0.9;
    if (p.ok()) {
      r.Count("parameters judged");
      r.Distinct(Format("k=%d t=%d", p->degree, p->threshold));
      if (!feasible) r.Violation("infeasible-requirements-accepted", d);
      d += Format(" -> degree %d threshold %d", p->degree, p->threshold);
      if (p->number_of_nodes != n || p->degree < 2 || p->degree % 2 || p->degree >= n ||
          p->threshold < 2 || p->threshold > p->degree)
        r.Violation("parameters-out-of-range", d);
      auto j = Judge(n, p->degree, p->threshold, adv, drop, c);
      if (j.leak > std::ldexp(1.0L, -41) * 1.001L)
        r.Violation("threshold-leaks", d + Format(" log2=%.2f", (double)std::log2(j.leak)));
      // When the threat model alone would allow a threshold of 1, raising it to
      // the smallest one that can be shared (2) is not weighed against dropout.
      bool forced = p->threshold == 2 &&
                    Judge(n, p->degree, 1, adv, drop, c).fail <= std::ldexp(1.0L, -20);
      if (j.fail > std::ldexp(1.0L, -20) * 1.001L)
        r.Violation(forced ? "minimum-threshold-fails" : "threshold-fails", d + Format(" log2=%.2f", (double)std::log2(j.fail)));
      if (j.split > std::ldexp(1.0L, -41) * 1.001L)
        r.Violation("graph-splits", d + Format(" log2=%.2f", (double)std::log2(j.split)));
    } else {
      r.Count("parameters refused");
      if (feasible && n < 500) {
        for (int k = 2; k < n - 1; k += 2) {
          for (int t = 2; t <= k; ++t) {
            auto j = Judge(n, k, t, adv, drop, c);
            if (j.leak < std::ldexp(1.0L, -41) * 0.9L && j.fail < std::ldexp(1.0L, -20) * 0.9L &&
                j.split < std::ldexp(1.0L, -41) * 0.9L) {
              r.Violation("possible-parameters-not-found", d + Format(" degree %d threshold %d", k, t));
              k = n;
              break;
            }
          }
          if (k > 60) break;
        }
      }
    }
    // The full graph variant.
    int t = static_cast<int>(rng.Range(0, n + 1));
    if (rng.Chance(0.5)) t = std::min(n, static_cast<int>(std::ceil((1 - drop) * n)) + static_cast<int>(rng.Below(2)));
    if (rng.Chance(0.3)) {
      // At the very border: as many shares as adversarial clients.
      int a = static_cast<int>(rng.Range(0, n - 1));
      adv = double(a) / n;
      drop = std::min(0.999, 1 - adv + (rng.Chance(0.5) ? 0 : rng.Unit() * adv));
      t = c == AdversaryClass::SEMI_MALICIOUS_SERVER ? (n + a) / 2 : a;
      t += static_cast<int>(rng.Range(0, 2)) - 1;
      q.set_adversarial_client_rate(adv);
      q.set_estimated_dropout_rate(drop);
      d = Format("n=%d adversarial=%.6f dropout=%.6f class=%d", n, adv, drop, (int)c);
    }
    auto full = CheckFullGraphParameters(n, t, q);
    bool ok = t > 1 && t <= n && t >= std::ceil((1 - drop) * n);
    if (c == AdversaryClass::CURIOUS_SERVER) ok = ok && t > adv * n;
    if (c == AdversaryClass::SEMI_MALICIOUS_SERVER) ok = ok && 2.0 * t > n + adv * n;
    r.Eval();
    if (full.ok() && !ok) r.Violation("unsafe-full-graph-accepted", d + Format(" threshold %d", t));
    // The rule may round up, by less than one whole client each way.
    bool clearly = ok && t >= std::ceil((1 - drop) * n) + 1;
    if (c == AdversaryClass::CURIOUS_SERVER) clearly = clearly && t > std::ceil(adv * n) + 1;
    if (c == AdversaryClass::SEMI_MALICIOUS_SERVER)
      clearly = clearly && t > std::ceil((n + adv * n) / 2) + 1;
    if (!full.ok() && clearly) r.Violation("safe-full-graph-refused", d + Format(" threshold %d", t));
    r.Count(full.ok() ? "full graphs accepted" : "full graphs refused");
    if (r.WantsSample()) r.Sample(d + (p.ok() ? "" : " refused"));
  }
}

// Which nodes are neighbours must be unpredictable.
void GraphRandomness(Report& r) {
  const int n = 12, degree = 5, runs = 6000;
  std::vector<std::vector<int>> hits(n, std::vector<int>(n));
  std::set<std::string> perms;
  for (int k = 0; k < runs; ++k) {
    auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, 2);
    std::string key;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i != j && g->AreNeighbors(i, j)) {
          ++hits[i][j];
          key += static_cast<char>(j);
        }
    perms.insert(key);
  }
  double p = double(degree - 1) / (n - 1), mean = runs * p, sd = std::sqrt(runs * p * (1 - p));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && std::abs(hits[i][j] - mean) > 8 * sd)
        r.Violation("neighbours-predictable",
                    Format("%d and %d neighbours in %d of %d graphs, expected %.0f", i, j,
                           hits[i][j], runs, mean));
  if (perms.size() < runs * 9 / 10) r.Violation("graphs-repeat", Format("%zu", perms.size()));
  r.Count("distinct graphs drawn", perms.size());
  r.Eval();
}

// The server must use the graph the requirements call for.
void ServerGraph(Report& r, Rng rng) {
  WorldConfig c;
  c.n = static_cast<int>(rng.Range(60, 400));
  c.graph = WorldConfig::kAuto;
  c.dropout = rng.Unit() * 0.3;
  c.adversary = rng.Chance(0.5) ? AdversaryClass::CURIOUS_SERVER : AdversaryClass::SEMI_MALICIOUS_SERVER;
  c.adversarial = rng.Unit() * 0.3;
  c.min_clients = 2;
  c.specs.emplace_back("v", 1, 100);
  SecureAggregationRequirements q;
  q.set_adversary_class(c.adversary);
  q.set_adversarial_client_rate(c.adversarial);
  q.set_estimated_dropout_rate(c.dropout);
  World w(c, rng);
  r.Eval();
  if (w.server == nullptr) {
    r.Count("servers refused");
    return;
  }
  int neighbours = w.server->NumberOfNeighbors();
  int t = w.server->MinimumSurvivingNeighborsForReconstruction();
  std::string d = c.Describe() + Format(" neighbours %d threshold %d", neighbours, t);
  if (neighbours >= c.n) {
    r.Count("servers with the full graph");
    if (!CheckFullGraphParameters(c.n, t, q).ok()) r.Violation("server-uses-unsafe-threshold", d);
    return;
  }
  r.Count("servers with a partial graph");
  auto j = Judge(c.n, neighbours - 1, t, c.adversarial, c.dropout, c.adversary);
  bool forced = t == 2 && Judge(c.n, neighbours - 1, 1, c.adversarial, c.dropout, c.adversary)
                                  .fail <= std::ldexp(1.0L, -20);
  if (j.leak > std::ldexp(1.0L, -41) * 1.001L ||
      (!forced && j.fail > std::ldexp(1.0L, -20) * 1.001L) ||
      j.split > std::ldexp(1.0L, -41) * 1.001L)
    r.Violation("server-uses-unsafe-graph", d);
}

// ---- keys and channels ------------------------------------------------------------------------
void Crypto(Report& r, Rng rng) {
  AesGcmEncryption aes;
  std::string kb = rng.Bytes(32);
  AesKey key(reinterpret_cast<const uint8_t*>(kb.data()));
  std::string plain = rng.Bytes(rng.Chance(0.1) ? 0 : rng.Below(200));
  std::string c = aes.Encrypt(key, plain);
  r.Eval();
  r.Distinct(Format("gcm %zu", plain.size()));
  auto back = aes.Decrypt(key, c);
  if (!back.ok() || *back != plain) r.Violation("decrypt-own-ciphertext", "");
  if (c.size() != plain.size() + 28) r.Violation("ciphertext-size", "");
  static std::set<std::string> ivs;
  if (!ivs.insert(c.substr(0, 12)).second) r.Violation("nonce-repeated", "");
  // Independent opening.
  bssl::ScopedEVP_AEAD_CTX ctx;
  std::string open(plain.size() + 32, '\0');
  size_t len = 0;
  if (!EVP_AEAD_CTX_init(ctx.get(), EVP_aead_aes_256_gcm(),
                         reinterpret_cast<const uint8_t*>(kb.data()), 32, 16, nullptr))
    Report::Broken("aead");
  if (!EVP_AEAD_CTX_open(ctx.get(), reinterpret_cast<uint8_t*>(open.data()), &len, open.size(),
                         reinterpret_cast<const uint8_t*>(c.data()), 12,
                         reinterpret_cast<const uint8_t*>(c.data()) + 12, c.size() - 12, nullptr,
                         0) ||
      open.substr(0, len) != plain)
    r.Violation("not-aes-256-gcm", "");
  for (int k = 0; k < 6; ++k) {
    std::string bad = c;
    switch (rng.Below(4)) {
      case 0:
      case 1: bad[rng.Below(bad.size())] ^= static_cast<char>(1 << rng.Below(8)); break;
      case 2: bad.resize(rng.Below(bad.size())); break;
      case 3: bad += rng.Bytes(rng.Range(1, 20)); break;
    }
    r.Count("tampered ciphertexts");
    if (aes.Decrypt(key, bad).ok()) r.Violation("tampered-ciphertext-opened", "");
  }
  kb[rng.Below(32)] ^= static_cast<char>(1 << rng.Below(8));
  if (aes.Decrypt(AesKey(reinterpret_cast<const uint8_t*>(kb.data())), c).ok())
    r.Violation("opened-with-another-key", "");
  // Key agreement.
  auto a = EcdhKeyAgreement::CreateFromRandomKeys();
  auto b = EcdhKeyAgreement::CreateFromRandomKeys();
  auto e = EcdhKeyAgreement::CreateFromRandomKeys();
  if (!a.ok() || !b.ok() || !e.ok()) Report::Broken("no keys");
  static std::set<std::string> keys;
  r.Eval();
  for (auto* x : {&a, &b, &e}) {
    if (!keys.insert((**x)->PublicKey().AsString()).second) r.Violation("key-pair-repeated", "");
    if ((**x)->PublicKey().size() != 33 || (**x)->PrivateKey().size() != 32)
      r.Violation("key-size", "");
  }
  auto ab = (*a)->ComputeSharedSecret((*b)->PublicKey());
  auto ba = (*b)->ComputeSharedSecret((*a)->PublicKey());
  auto eb = (*e)->ComputeSharedSecret((*b)->PublicKey());
  auto ea = (*e)->ComputeSharedSecret((*a)->PublicKey());
  if (!ab.ok() || !ba.ok() || !(*ab == *ba) || ab->size() != 32)
    r.Violation("secret-not-agreed", "");
  else if (!eb.ok() || !ea.ok() || *eb == *ab || *ea == *ab || *ea == *eb)
    r.Violation("secret-known-to-another", "");
  auto a2 = EcdhKeyAgreement::CreateFromPrivateKey((*a)->PrivateKey());
  auto a3 = EcdhKeyAgreement::CreateFromKeypair((*a)->PrivateKey(), (*a)->PublicKey());
  if (!a2.ok() || !a3.ok()) {
    r.Violation("own-key-refused", "");
  } else {
    auto s2 = (*a2)->ComputeSharedSecret((*b)->PublicKey());
    auto s3 = (*a3)->ComputeSharedSecret((*b)->PublicKey());
    if (!s2.ok() || !s3.ok() || !(*s2 == *ab) || !(*s3 == *ab)) r.Violation("restored-key-differs", "");
    if ((*a2)->PublicKey().size() != 0 || !((*a3)->PublicKey() == (*a)->PublicKey()))
      r.Violation("restored-public-key", "");
  }
  if (EcdhKeyAgreement::CreateFromKeypair((*a)->PrivateKey(), (*b)->PublicKey()).ok())
    r.Violation("mismatched-key-pair-accepted", "");
  for (int k = 0; k < 4; ++k) {
    std::string p = (*b)->PublicKey().AsString();
    bool invalid = true;
    if (rng.Chance(0.4)) p[0] = static_cast<char>(4 + rng.Below(250));
    else {
      // About half of all x coordinates have no point on the curve.
      for (size_t i = 1; i < p.size(); ++i) p[i] = static_cast<char>(rng.Below(256));
      invalid = false;
    }
    auto got = (*a)->ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(p.data())));
    r.Count(got.ok() ? "strange points taken" : "invalid points refused");
    if (invalid && got.ok()) r.Violation("invalid-point-accepted", Hex(p));
  }
  std::string zero(32, '\0'), ones(32, '\xff');
  if (EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey(reinterpret_cast<const uint8_t*>(ones.data()))).ok())
    r.Violation("invalid-private-key-accepted", "");
  // The generator is AES-CTR key stream, read in any mixture of sizes.
  {
    std::string seed = rng.Bytes(32);
    AesKey sk(reinterpret_cast<const uint8_t*>(seed.data()));
    AesCtrPrngFactory factory;
    auto prng = factory.MakePrng(sk);
    Stream ref(seed);
    int reads = static_cast<int>(rng.Range(1, 600));
    for (int i = 0; i < reads; ++i) {
      if (rng.Chance(0.4)) {
        if (prng->Rand8() != ref.Next()) { r.Violation("generator-stream", "byte"); break; }
      } else {
        uint64_t v = 0;
        for (int k = 0; k < 8; ++k) v |= static_cast<uint64_t>(ref.Next()) << (8 * k);
        if (prng->Rand64() != v) { r.Violation("generator-stream", "word"); break; }
      }
    }
    auto batch = factory.MakePrng(sk);
    auto* bp = static_cast<SecureBatchPrng*>(batch.get());
    Stream ref2(seed);
    for (int i = 0; i < 3; ++i) {
      std::string buf(16 * rng.Range(1, 200), '\0');
      int got = bp->RandBuffer(reinterpret_cast<uint8_t*>(buf.data()), static_cast<int>(buf.size()));
      if (got <= 0 || got > static_cast<int>(buf.size())) { r.Violation("generator-size", ""); break; }
      for (int k = 0; k < got; ++k)
        if (static_cast<uint8_t>(buf[k]) != ref2.Next()) { r.Violation("generator-stream", "buffer"); break; }
    }
    r.Eval();
  }
  // The session identifier depends on all keys and their order.
  ShareKeysRequest q;
  int n = static_cast<int>(rng.Range(2, 8));
  for (int i = 0; i < n; ++i) {
    auto* p = q.add_pairs_of_public_keys();
    if (rng.Chance(0.15)) continue;
    size_t size = rng.Chance(0.2) ? 65 : 33;
    p->set_enc_pk(rng.Bytes(size));
    p->set_noise_pk(rng.Bytes(size));
  }
  std::string id = ComputeSessionId(q).data;
  if (id.size() != 32 || id != ComputeSessionId(q).data) r.Violation("session-id-size", "");
  ShareKeysRequest q2 = q;
  int i = static_cast<int>(rng.Below(n)), j = static_cast<int>(rng.Below(n));
  switch (rng.Below(4)) {
    case 0:
      q2.mutable_pairs_of_public_keys()->SwapElements(i, j);
      break;
    case 1: {
      auto* s = rng.Chance(0.5) ? q2.mutable_pairs_of_public_keys(i)->mutable_enc_pk()
                                : q2.mutable_pairs_of_public_keys(i)->mutable_noise_pk();
      if (s->empty()) *s = rng.Bytes(33);
      else (*s)[rng.Below(s->size())] ^= static_cast<char>(1 << rng.Below(8));
      break;
    }
    case 2: q2.mutable_pairs_of_public_keys()->RemoveLast(); break;
    case 3: {
      auto* p = q2.mutable_pairs_of_public_keys(i);
      std::string t = p->enc_pk();
      p->set_enc_pk(p->noise_pk());
      p->set_noise_pk(t);
      break;
    }
  }
  r.Eval();
  bool same = q.SerializeAsString() == q2.SerializeAsString();
  if (same != (ComputeSessionId(q2).data == id)) r.Violation("session-id-blind", q.ShortDebugString());
  if (r.WantsSample()) r.Sample(Format("plaintext %zu bytes, session of %d", plain.size(), n));
}

}  // namespace
}  // namespace verif

int main(int argc, char** argv) {
  verif::Report r(argc, argv);
  verif::NullRecorder::Install();
  int64_t cases = 0;
  if (r.mode == "shamir") cases = r.N(40000, 400000);
  else if (r.mode == "vector") cases = r.N(200000, 2000000);
  else if (r.mode == "masks") cases = r.N(40000, 400000);
  else if (r.mode == "graph") cases = r.N(40000, 200000);
  else if (r.mode == "crypto") cases = r.N(24000, 200000);
  else verif::Report::Broken("mode");
  fcp::secagg::ShamirSecretSharing shared;
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    r.Case(i);
    verif::Rng rng(r.seed, i + 50000000 + verif::Hash(r.mode) % 1000);
    if (r.mode == "shamir") verif::Shamir(r, rng, shared);
    if (r.mode == "vector") verif::Vector(r, rng);
    if (r.mode == "masks") verif::Masks(r, rng);
    if (r.mode == "crypto") verif::Crypto(r, rng);
    if (r.mode == "graph") {
      verif::Graph(r, rng);
      if (i < r.N(64, 640)) verif::ServerGraph(r, rng);
      if (i == 0) verif::GraphRandomness(r);
    }
  }
  if (r.mode == "shamir") {
    verif::g_leading.Judge(r, "leading");
    verif::g_inner.Judge(r, "inner");
  }
  return r.Finish();
}
