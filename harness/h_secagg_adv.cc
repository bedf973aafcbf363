// Secure aggregation with a hostile other side.
//   --mode=privacy  a client against a server that colludes with all its
//                   neighbours: what leaves the client is exactly what the
//                   protocol allows
//   --mode=client   a client against arbitrary messages: no crash, final
//                   states stay final
//   --mode=server   a server against hostile clients among honest ones
#include <algorithm>

#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "null_tracing.h"
#include "secagg_world.h"

namespace verif {
namespace {

using fcp::secagg::AesGcmEncryption;
using fcp::secagg::AesKey;
using fcp::secagg::EcdhKeyAgreement;
using fcp::secagg::EcdhPrivateKey;
using fcp::secagg::EcdhPublicKey;
using fcp::secagg::PairOfKeyShares;
using fcp::secagg::SessionId;
using fcp::secagg::ShamirSecretSharing;
using fcp::secagg::ShamirShare;

constexpr uint64_t kWide = (1ull << 62) - 57;  // collisions are negligible

EcdhPublicKey PublicKeyOf(const std::string& s) {
  return EcdhPublicKey(reinterpret_cast<const uint8_t*>(s.data()));
}

// ---- one client, everything else in the hands of the adversary -------------------
class Victim {
 public:
  Victim(Report& r, Rng rng, bool privacy) : r_(r), rng_(rng), privacy_(privacy) {}

  void Run() {
    n_ = static_cast<int>(rng_.Range(2, 8));
    t_ = static_cast<int>(rng_.Range(2, n_));
    own_ = static_cast<int>(rng_.Below(n_));
    specs_.emplace_back("wide", static_cast<int>(rng_.Range(4, 12)), kWide);
    if (rng_.Chance(0.5)) specs_.emplace_back("x", static_cast<int>(rng_.Range(1, 6)), RandomModulus(rng_));
    for (auto& s : specs_) {
      auto& v = input_[s.name()];
      v.resize(s.length());
      for (auto& x : v) x = RandomElement(rng_, s.modulus());
    }
    client_ = std::make_unique<SecAggClient>(
        n_, t_, specs_, std::make_unique<RecordingPrng>(&prng_log_),
        std::make_unique<QueueToServer>(&out_), std::make_unique<NullListener>(),
        std::make_unique<fcp::secagg::AesCtrPrngFactory>());
    hostility_ = rng_.Chance(0.45) ? 0 : rng_.Unit();
    input_at_ = static_cast<int>(rng_.Below(4));
    for (int i = 0; i < n_; ++i) {
      enc_.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
      noise_.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
    }
    MaybeInput(0);
    Hostile();
    Do([&] { return client_->Start(); });
    started_ = true;
    Check();
    if (sent_.advertise != 1 && !over_before_) {
      if (privacy_) r_.Violation("no-keys-advertised", Where());
    }
    Hostile();
    MaybeInput(1);
    if (!Over()) Round1();
    Hostile();
    MaybeInput(2);
    if (!Over()) Round2();
    Hostile();
    MaybeInput(3);
    if (!Over()) Round3();
    Hostile();
    for (int k = 0; k < 3; ++k) Hostile(true);
    Finish();
  }

 private:
  struct Sent {
    int advertise = 0, share = 0, masked = 0, unmask = 0, abort = 0;
  };

  bool Over() const { return client_->IsAborted() || client_->IsCompletedSuccessfully(); }

  template <typename F>
  void Do(F f) {
    over_before_ = Over();
    std::string before = client_->State();
    int sent_before = static_cast<int>(total_);
    auto s = f();
    (void)s;
    Drain();
    if (!privacy_) {
      r_.Eval();
      if (over_before_ && client_->State() != before)
        r_.Violation("final-state-left", before + " -> " + client_->State());
      if (over_before_ && static_cast<int>(total_) != sent_before)
        r_.Violation("message-after-the-end", before);
      if (client_->IsAborted() && client_->IsCompletedSuccessfully())
        r_.Violation("aborted-and-completed", Where());
      if (client_->ErrorMessage().ok() != client_->IsAborted())
        r_.Violation("error-message-mismatch", client_->State());
      r_.Distinct(before + ">" + client_->State() + Format("%d", (int)(total_ - sent_before)));
    }
  }

  void Drain() {
    while (!out_.empty()) {
      ClientToServerWrapperMessage m;
      if (!m.ParseFromString(out_.front())) Report::Broken("unparsable client message");
      wire_ += out_.front();
      last_ = m;
      out_.pop_front();
      ++total_;
      switch (m.message_content_case()) {
        case ClientToServerWrapperMessage::kAbort: ++sent_.abort; break;
        case ClientToServerWrapperMessage::kAdvertiseKeys:
          ++sent_.advertise;
          keys_ = m.advertise_keys().pair_of_public_keys();
          break;
        case ClientToServerWrapperMessage::kShareKeysResponse:
          ++sent_.share;
          shares_msg_ = m.share_keys_response();
          break;
        case ClientToServerWrapperMessage::kMaskedInputResponse:
          ++sent_.masked;
          masked_msg_ = m.masked_input_response();
          break;
        case ClientToServerWrapperMessage::kUnmaskingResponse:
          ++sent_.unmask;
          unmask_msg_ = m.unmasking_response();
          break;
        default: r_.Violation("empty-message-sent", Where());
      }
    }
  }

  void Check() {
    if (sent_.advertise > 1 || sent_.share > 1 || sent_.masked > 1 || sent_.unmask > 1)
      r_.Violation("answered-a-round-twice",
                   Format("advertise=%d share=%d masked=%d unmask=%d ", sent_.advertise,
                          sent_.share, sent_.masked, sent_.unmask) + Where());
    if (sent_.abort > 1) r_.Violation("two-abort-messages", Where());
  }

  void MaybeInput(int at) {
    if (at != input_at_ || Over()) return;
    if (!privacy_ && rng_.Chance(0.3)) {
      // Inputs that do not match the specification must be refused.
      auto bad = std::make_unique<SecAggVectorMap>();
      int kind = static_cast<int>(rng_.Below(4));
      for (auto& s : specs_) {
        std::vector<uint64_t> v = input_[s.name()];
        uint64_t mod = s.modulus();
        std::string name = s.name();
        if (kind == 0) v.push_back(0);
        if (kind == 1) name += "?";
        if (kind == 2) mod = mod < 4 ? mod + 1 : mod - 1;
        for (auto& x : v) x %= mod;
        bad->emplace(name, SecAggVector(v, mod));
      }
      if (kind == 3) bad->emplace("extra", SecAggVector(std::vector<uint64_t>{1}, 5));
      absl::Status s;
      Do([&] { return s = client_->SetInput(std::move(bad)); });
      if (s.ok()) r_.Violation("bad-input-accepted", Format("kind %d", kind));
      r_.Count("bad inputs offered");
    }
    Do([&] { return client_->SetInput(ToSecAggMap(input_, specs_)); });
    input_given_ = true;
    Check();
    if (sent_.masked == 1 && !masked_judged_) JudgeMasked();
  }

  // Messages that fit no round, or the wrong one.
  void Hostile(bool force = false) {
    if (!force && !rng_.Chance(hostility_ * 0.5)) return;
    ServerToClientWrapperMessage m;
    bool ends = false;
    switch (rng_.Below(privacy_ ? 4 : 8)) {
      case 0:
        break;
      case 1:
        if (started_ && sent_.share == 0 && !Over() && !force) return;  // handled by Round1
        m.mutable_share_keys_request()->set_session_id(rng_.Bytes(32));
        for (int i = 0; i < n_; ++i) {
          auto* p = m.mutable_share_keys_request()->add_pairs_of_public_keys();
          if (i == own_) *p = keys_;
          else FillKeys(i, p);
        }
        break;
      case 2:
        if (sent_.share == 1 && sent_.masked == 0 && !Over()) return;
        for (int i = 0; i < n_; ++i)
          m.mutable_masked_input_request()->add_encrypted_key_shares(rng_.Bytes(rng_.Below(90)));
        break;
      case 3:
        if (sent_.masked == 1 && sent_.unmask == 0 && !Over()) return;
        m.mutable_unmasking_request()->add_dead_3_client_ids(1 + rng_.Below(n_));
        break;
      case 4: {
        // Arbitrary bytes that happen to parse.
        std::string b = rng_.Bytes(rng_.Below(60));
        if (!m.ParseFromString(b)) m.Clear();
        break;
      }
      case 5:
        if (!history_.empty()) {
          std::string b = history_[rng_.Below(history_.size())];
          if (!b.empty()) b[rng_.Below(b.size())] ^= static_cast<char>(1 << rng_.Below(8));
          ServerToClientWrapperMessage x;
          if (x.ParseFromString(b)) m = x;
        }
        break;
      case 6:
        if (!rng_.Chance(0.3)) return;
        m.mutable_abort()->set_early_success(rng_.Chance(0.5));
        m.mutable_abort()->set_diagnostic_info("no");
        ends = true;
        break;
      case 7: {
        if (!rng_.Chance(0.3)) return;
        bool was = Over();
        int aborts = sent_.abort;
        Do([&] { return client_->Abort("tired"); });
        if (!was && (!client_->IsAborted() || sent_.abort != aborts + 1))
          r_.Violation("abort-not-effective", client_->State() + Format(" %d", sent_.abort));
        r_.Count("client aborts");
        return;
      }
    }
    bool was = Over();
    int aborts = sent_.abort;
    Receive(m);
    if (ends && !was && !privacy_) {
      if (!Over()) r_.Violation("server-abort-ignored", client_->State());
      if (sent_.abort != aborts) r_.Violation("abort-answered-with-abort", "");
      if (m.abort().early_success() != client_->IsCompletedSuccessfully())
        r_.Violation("server-abort-misread", client_->State());
    }
    r_.Count("out-of-turn messages");
    Check();
  }

  void Receive(const ServerToClientWrapperMessage& m) {
    history_.push_back(m.SerializeAsString());
    ServerToClientWrapperMessage wire;
    if (!wire.ParseFromString(history_.back())) Report::Broken("reparse");
    std::string before = client_->State();
    bool was = Over();
    absl::StatusOr<bool> s = false;
    Do([&] { s = client_->ReceiveMessage(wire); return s.status(); });
    if (!privacy_ && s.ok() && *s == Over()) r_.Violation("alive-flag-wrong", client_->State());
    if (!privacy_ && was && s.ok() && *s) r_.Violation("finished-client-wants-more", before);
  }

  void FillKeys(int i, fcp::secagg::PairOfPublicKeys* p) {
    p->set_enc_pk(enc_[i]->PublicKey().AsString());
    p->set_noise_pk(noise_[i]->PublicKey().AsString());
  }

  void Round1() {
    ServerToClientWrapperMessage m;
    auto* req = m.mutable_share_keys_request();
    session_.data = rng_.Bytes(32);
    req->set_session_id(session_.data);
    alive_.assign(n_, true);
    count_ = n_;
    std::string bad;
    // A smaller neighbourhood than the maximum is allowed.
    if (rng_.Chance(0.3)) {
      count_ = static_cast<int>(rng_.Range(own_ + 1, n_));
      if (count_ < t_) bad = "fewer participants than the threshold";
    }
    for (int i = 0; i < count_; ++i) {
      auto* p = req->add_pairs_of_public_keys();
      if (i == own_) {
        *p = keys_;
      } else {
        FillKeys(i, p);
        if (rng_.Chance(0.15)) {
          alive_[i] = false;
          if (rng_.Chance(0.5)) p->clear_enc_pk();
          if (rng_.Chance(0.5) || !p->enc_pk().empty()) p->clear_noise_pk();
        }
      }
    }
    int alive = 0;
    for (int i = 0; i < count_; ++i) alive += alive_[i];
    if (alive < t_) bad = "fewer live participants than the threshold";
    if (rng_.Chance(hostility_ * 0.6)) {
      int other = count_ > 1 ? static_cast<int>((own_ + 1 + rng_.Below(count_ - 1)) % count_) : own_;
      switch (rng_.Below(7)) {
        case 0:
          req->set_session_id(rng_.Bytes(rng_.Chance(0.5) ? 31 : 33));
          bad = "session id size";
          break;
        case 1:
          req->clear_session_id();
          bad = "no session id";
          break;
        case 2:
          *req->mutable_pairs_of_public_keys(own_) = fcp::secagg::PairOfPublicKeys();
          FillKeys(own_, req->mutable_pairs_of_public_keys(own_));
          bad = "own keys missing";
          break;
        case 3:
          if (other == own_) break;
          *req->mutable_pairs_of_public_keys(other) = keys_;
          bad = "own keys twice";
          break;
        case 4:
          if (other == own_) break;
          req->mutable_pairs_of_public_keys(other)->set_enc_pk(rng_.Bytes(rng_.Chance(0.5) ? 32 : 65));
          FixNoise(req->mutable_pairs_of_public_keys(other), other);
          bad = "key size";
          break;
        case 5: {
          if (other == own_) break;
          // Not a point of the curve: an impossible format byte.
          std::string k = rng_.Bytes(33);
          k[0] = 7;
          FillKeys(other, req->mutable_pairs_of_public_keys(other));
          if (rng_.Chance(0.5)) req->mutable_pairs_of_public_keys(other)->set_enc_pk(k);
          else req->mutable_pairs_of_public_keys(other)->set_noise_pk(k);
          bad = "not a point";
          break;
        }
        case 6:
          for (int i = count_; i <= n_; ++i) {
            auto* p = req->add_pairs_of_public_keys();
            auto extra = EcdhKeyAgreement::CreateFromRandomKeys().value();
            p->set_enc_pk(extra->PublicKey().AsString());
            p->set_noise_pk(extra->PublicKey().AsString());
          }
          bad = "more participants than expected";
          break;
      }
    }
    int before = sent_.abort;
    Receive(m);
    Check();
    if (!privacy_) {
      if (!bad.empty() && !client_->IsAborted())
        r_.Violation("bad-share-request-accepted", bad + " " + Where());
      if (client_->IsAborted() && sent_.abort != before + 1)
        r_.Violation("abort-not-announced", bad);
      return;
    }
    r_.Eval();
    if (!bad.empty()) {
      r_.Count("hostile requests");
      r_.Distinct("r1:" + bad);
      if (sent_.share > 0) r_.Violation("shares-sent-on-bad-request", bad + " " + Where());
      return;
    }
    if (sent_.share != 1) {
      r_.Violation("no-shares-on-valid-request", Where());
      return;
    }
    JudgeShares();
  }

  void FixNoise(fcp::secagg::PairOfPublicKeys* p, int i) {
    if (p->noise_pk().empty()) p->set_noise_pk(noise_[i]->PublicKey().AsString());
  }

  // Opens everything the client sent to its (colluding) neighbours.
  void JudgeShares() {
    if (shares_msg_.encrypted_key_shares_size() != count_) {
      r_.Violation("wrong-number-of-shares", Where());
      return;
    }
    AesGcmEncryption aes;
    std::vector<ShamirShare> noise(count_), prf(count_);
    int have = 0;
    for (int i = 0; i < count_; ++i) {
      const std::string& c = shares_msg_.encrypted_key_shares(i);
      if (i == own_ || !alive_[i]) {
        if (!c.empty()) r_.Violation("share-for-a-dead-client", Where());
        continue;
      }
      AesKey key = enc_[i]->ComputeSharedSecret(PublicKeyOf(keys_.enc_pk())).value();
      auto plain = aes.Decrypt(key, c);
      if (!plain.ok()) {
        r_.Violation("share-not-for-its-neighbour", Where());
        continue;
      }
      // Nobody else can open it.
      int j = (i + 1) % n_;
      AesKey other = enc_[j]->ComputeSharedSecret(PublicKeyOf(keys_.enc_pk())).value();
      if (j != i && aes.Decrypt(other, c).ok()) r_.Violation("share-readable-by-another", Where());
      AesKey wrong = noise_[i]->ComputeSharedSecret(PublicKeyOf(keys_.enc_pk())).value();
      if (aes.Decrypt(wrong, c).ok()) r_.Violation("share-readable-by-another", Where());
      PairOfKeyShares pair;
      if (!pair.ParseFromString(*plain)) {
        r_.Violation("share-unparsable", Where());
        continue;
      }
      if (wire_.find(pair.noise_sk_share()) != std::string::npos ||
          wire_.find(pair.prf_sk_share()) != std::string::npos)
        r_.Violation("share-sent-in-the-clear", Where());
      if (!ciphertexts_.insert(c).second) r_.Violation("ciphertext-repeated", Where());
      noise[i].data = pair.noise_sk_share();
      prf[i].data = pair.prf_sk_share();
      ++have;
    }
    r_.Eval();
    for (int i = 0; i < count_; ++i) {
      for (int j = i + 1; j < count_; ++j) {
        if (!noise[i].data.empty() && noise[i].data == noise[j].data)
          r_.Violation("neighbours-got-the-same-share", Where());
        if (!prf[i].data.empty() && prf[i].data == prf[j].data)
          r_.Violation("neighbours-got-the-same-share", Where());
      }
      if (!noise[i].data.empty() && noise[i].data == prf[i].data)
        r_.Violation("both-secrets-share-alike", Where());
    }
    if (have >= t_) {
      auto nk = Rebuild(t_, noise), pk = Rebuild(t_, prf);
      noise_sk_ = nk;
      self_key_ = pk;
      auto agreement = EcdhKeyAgreement::CreateFromPrivateKey(
          EcdhPrivateKey(reinterpret_cast<const uint8_t*>(nk.data())));
      int peer = own_ == 0 ? 1 : 0;
      bool same = false;
      if (agreement.ok()) {
        auto mine = (*agreement)->ComputeSharedSecret(noise_[peer]->PublicKey());
        auto theirs = noise_[peer]->ComputeSharedSecret(PublicKeyOf(keys_.noise_pk()));
        same = mine.ok() && theirs.ok() && mine->AsString() == theirs->AsString();
      }
      if (!same)
        r_.Violation("shared-secret-is-not-the-noise-key", Where());
      if (prng_log_.find(pk) == std::string::npos)
        r_.Violation("self-mask-key-not-from-the-random-source", Where());
      if (wire_.find(nk) != std::string::npos || wire_.find(pk) != std::string::npos)
        r_.Violation("secret-sent-in-the-clear", Where());
      static std::set<std::string> seen;
      if (!seen.insert(pk).second || !seen.insert(nk).second)
        r_.Violation("secret-reused", Where());
      // One share fewer than the threshold tells nothing: interpolating at
      // the lower degree must miss.
      if (t_ > 2) {
        std::vector<ShamirShare> fewer_n(count_), fewer_p(count_);
        int k = 0;
        for (int i = 0; i < count_ && k < t_ - 1; ++i) {
          if (noise[i].data.empty()) continue;
          fewer_n[i] = noise[i];
          fewer_p[i] = prf[i];
          ++k;
        }
        if (Rebuild(t_ - 1, fewer_n) == nk || Rebuild(t_ - 1, fewer_p) == pk)
          r_.Violation("fewer-shares-than-threshold-suffice", Where());
      } else {
        for (int i = 0; i < count_; ++i) {
          // With threshold 2 a single share must not be the secret itself.
          if (noise[i].data.empty()) continue;
          std::vector<ShamirShare> same(count_ + 1);
          for (auto& s : same) s = noise[i];
          if (Rebuild(2, same) == nk) r_.Violation("fewer-shares-than-threshold-suffice", Where());
        }
      }
      r_.Count("secrets opened by collusion");
    }
    r_.Distinct(Format("shares n=%d t=%d have=%d", count_, t_, have));
  }

  std::string Rebuild(int t, const std::vector<ShamirShare>& s) {
    ShamirSecretSharing shamir;
    auto x = shamir.Reconstruct(t, s, 32);
    return x.ok() ? *x : std::string();
  }

  void Round2() {
    if (sent_.share != 1) return;
    ServerToClientWrapperMessage m;
    auto* req = m.mutable_masked_input_request();
    AesGcmEncryption aes;
    given_noise_.assign(count_, "");
    given_prf_.assign(count_, "");
    alive2_ = alive_;
    std::string bad;
    for (int i = 0; i < count_; ++i) {
      if (i == own_ || !alive_[i]) {
        req->add_encrypted_key_shares("");
        continue;
      }
      if (rng_.Chance(0.15)) {
        alive2_[i] = false;
        req->add_encrypted_key_shares("");
        continue;
      }
      given_noise_[i] = rng_.Bytes(36);
      given_prf_[i] = rng_.Bytes(36);
      PairOfKeyShares pair;
      pair.set_noise_sk_share(given_noise_[i]);
      pair.set_prf_sk_share(given_prf_[i]);
      AesKey key = enc_[i]->ComputeSharedSecret(PublicKeyOf(keys_.enc_pk())).value();
      req->add_encrypted_key_shares(aes.Encrypt(key, pair.SerializeAsString()));
    }
    int alive = 0;
    for (int i = 0; i < count_; ++i) alive += alive2_[i];
    if (alive < t_) bad = "fewer live participants than the threshold";
    if (rng_.Chance(hostility_ * 0.6)) {
      int i = static_cast<int>(rng_.Below(count_));
      switch (rng_.Below(5)) {
        case 0:
          req->add_encrypted_key_shares("");
          bad = "too many shares";
          break;
        case 1:
          req->mutable_encrypted_key_shares()->RemoveLast();
          bad = "too few shares";
          break;
        case 2:
          if (i == own_ || !alive2_[i]) break;
          {
            std::string* c = req->mutable_encrypted_key_shares(i);
            (*c)[rng_.Below(c->size())] ^= static_cast<char>(1 << rng_.Below(8));
          }
          bad = "tampered share";
          break;
        case 3:
          if (i == own_ || !alive2_[i]) break;
          req->mutable_encrypted_key_shares(i)->resize(rng_.Below(28) + 1);
          bad = "short share";
          break;
        case 4:
          if (i == own_ || alive_[i]) break;
          {
            AesKey key = enc_[i]->ComputeSharedSecret(PublicKeyOf(keys_.enc_pk())).value();
            req->set_encrypted_key_shares(i, aes.Encrypt(key, "x"));
          }
          bad = "share from a dead client";
          break;
      }
    }
    int before = sent_.abort;
    Receive(m);
    Check();
    if (!privacy_) {
      if (!bad.empty() && !client_->IsAborted())
        r_.Violation("bad-masked-input-request-accepted", bad + " " + Where());
      if (client_->IsAborted() && sent_.abort != before + 1)
        r_.Violation("abort-not-announced", bad);
      return;
    }
    r_.Eval();
    if (!bad.empty()) {
      r_.Count("hostile requests");
      r_.Distinct("r2:" + bad);
      if (sent_.masked > 0) r_.Violation("input-sent-on-bad-request", bad + " " + Where());
      return;
    }
    if (input_given_ && sent_.masked != 1) {
      r_.Violation("no-masked-input-on-valid-request", Where());
      return;
    }
    if (sent_.masked == 1) JudgeMasked();
  }

  // With both secrets of the client opened, the masked input must be exactly
  // input + self mask + all pairwise masks.
  void JudgeMasked() {
    masked_judged_ = true;
    if (!privacy_) return;
    r_.Eval();
    if (!input_given_ && input_at_ != 3) r_.Violation("masked-input-without-input", Where());
    std::vector<AesKey> add, sub;
    for (int i = 0; i < count_; ++i) {
      if (i == own_ || !alive2_[i]) continue;
      AesKey k = noise_[i]->ComputeSharedSecret(PublicKeyOf(keys_.noise_pk())).value();
      (i < own_ ? add : sub).push_back(k);
    }
    fcp::secagg::AesCtrPrngFactory factory;
    std::map<std::string, std::vector<uint64_t>> pairwise, self;
    auto pm = fcp::secagg::MapOfMasks(add, sub, specs_, session_, factory);
    for (auto& s : specs_) pairwise[s.name()] = pm->at(s.name()).GetAsUint64Vector();
    bool full = !self_key_.empty();
    if (full) {
      auto sm = fcp::secagg::MapOfMasks(
          {AesKey(reinterpret_cast<const uint8_t*>(self_key_.data()))}, {}, specs_, session_,
          factory);
      for (auto& s : specs_) self[s.name()] = sm->at(s.name()).GetAsUint64Vector();
    }
    if (masked_msg_.vectors().size() != specs_.size())
      r_.Violation("masked-vectors-wrong", Where());
    for (auto& s : specs_) {
      auto it = masked_msg_.vectors().find(s.name());
      if (it == masked_msg_.vectors().end()) {
        r_.Violation("masked-vectors-wrong", Where());
        continue;
      }
      auto got = SecAggVector(it->second.encoded_vector(), s.modulus(), s.length())
                     .GetAsUint64Vector();
      for (int k = 0; k < s.length(); ++k) {
        uint64_t in = input_[s.name()][k];
        uint64_t no_pair = AddMod64(got[k], s.modulus() - pairwise[s.name()][k], s.modulus());
        if (s.modulus() == kWide) {
          if (got[k] == in) r_.Violation("input-sent-unmasked", Where());
          // The server may learn all pairwise keys; the self mask must remain.
          if (no_pair == in) r_.Violation("self-mask-missing", Where());
          if (full && !add.empty() + !sub.empty() > 0 &&
              AddMod64(got[k], kWide - self[s.name()][k], kWide) == in)
            r_.Violation("pairwise-mask-missing", Where());
          if (!masks_.insert(AddMod64(got[k], kWide - in, kWide)).second)
            r_.Violation("mask-reused", Where());
        }
        if (full) {
          uint64_t open = AddMod64(no_pair, s.modulus() - self[s.name()][k], s.modulus());
          if (open != in) {
            r_.Violation("masks-are-not-the-agreed-ones",
                         Format("element %d opens to %llu, input %llu ", k,
                                (unsigned long long)open, (unsigned long long)in) +
                             Where());
            break;
          }
        }
      }
    }
    r_.Count("masked inputs opened", full);
    r_.Distinct(Format("masked n=%d own=%d add=%zu sub=%zu", count_, own_, add.size(), sub.size()));
  }

  void Round3() {
    if (sent_.masked != 1) return;
    ServerToClientWrapperMessage m;
    auto* req = m.mutable_unmasking_request();
    std::string bad;
    std::vector<bool> dead3(count_);
    int alive = 0;
    for (int i = 0; i < count_; ++i) alive += alive2_[i];
    for (int i = 0; i < count_; ++i) {
      if (i != own_ && alive2_[i] && rng_.Chance(0.25)) {
        dead3[i] = true;
        --alive;
        req->add_dead_3_client_ids(i + 1);
      }
    }
    if (alive < t_) bad = "fewer live participants than the threshold";
    if (rng_.Chance(hostility_ * 0.6)) {
      int i = static_cast<int>(rng_.Below(count_));
      switch (rng_.Below(4)) {
        case 0:
          req->add_dead_3_client_ids(own_ + 1);
          bad = "declared dead itself";
          break;
        case 1:
          req->add_dead_3_client_ids(rng_.Chance(0.3) ? 0 : count_ + 1 + rng_.Below(3));
          bad = "unknown client";
          break;
        case 2:
          if (!dead3[i]) break;
          req->add_dead_3_client_ids(i + 1);
          bad = "repeated client";
          break;
        case 3:
          if (i == own_ || alive2_[i]) break;
          req->add_dead_3_client_ids(i + 1);
          bad = "died earlier";
          break;
      }
    }
    int before = sent_.abort;
    Receive(m);
    Check();
    if (!privacy_) {
      if (!bad.empty() && !client_->IsAborted())
        r_.Violation("bad-unmasking-request-accepted", bad + " " + Where());
      if (client_->IsAborted() && sent_.abort != before + 1)
        r_.Violation("abort-not-announced", bad);
      return;
    }
    r_.Eval();
    if (!bad.empty()) {
      r_.Count("hostile requests");
      r_.Distinct("r3:" + bad);
      if (sent_.unmask > 0) r_.Violation("unmasked-on-bad-request", bad + " " + Where());
      return;
    }
    if (sent_.unmask != 1 || !client_->IsCompletedSuccessfully()) {
      r_.Violation("no-unmasking-on-valid-request", Where());
      return;
    }
    if (unmask_msg_.noise_or_prf_key_shares_size() != count_)
      r_.Violation("wrong-number-of-unmasking-shares", Where());
    for (int i = 0; i < count_ && i < unmask_msg_.noise_or_prf_key_shares_size(); ++i) {
      const auto& s = unmask_msg_.noise_or_prf_key_shares(i);
      bool ok;
      if (i == own_) {
        ok = s.has_prf_sk_share() && !s.prf_sk_share().empty();
      } else if (!alive2_[i]) {
        ok = !s.has_prf_sk_share() && !s.has_noise_sk_share();
      } else if (dead3[i]) {
        ok = s.has_noise_sk_share() && s.noise_sk_share() == given_noise_[i];
      } else {
        ok = s.has_prf_sk_share() && s.prf_sk_share() == given_prf_[i];
      }
      if (!ok)
        r_.Violation("wrong-share-revealed",
                     Format("neighbour %d (alive2=%d dead3=%d own=%d) ", i, (int)alive2_[i],
                            (int)dead3[i], i == own_) + Where());
    }
    r_.Count("unmasking responses judged");
    r_.Distinct(Format("unmask n=%d t=%d alive=%d", count_, t_, alive));
  }

  void Finish() {
    if (privacy_) {
      r_.Eval();
      if (!self_key_.empty() && wire_.find(self_key_) != std::string::npos)
        r_.Violation("secret-sent-in-the-clear", Where());
      if (!noise_sk_.empty() && wire_.find(noise_sk_) != std::string::npos)
        r_.Violation("secret-sent-in-the-clear", Where());
      std::string packed = SecAggVector(input_["wide"], kWide).GetAsPackedBytes();
      if (wire_.find(packed) != std::string::npos) r_.Violation("input-sent-unmasked", Where());
      // For each neighbour at most one of its two shares went out.
      for (int i = 0; i < static_cast<int>(given_noise_.size()); ++i) {
        if (given_noise_[i].empty()) continue;
        if (wire_.find(given_noise_[i]) != std::string::npos &&
            wire_.find(given_prf_[i]) != std::string::npos)
          r_.Violation("both-shares-revealed", Where());
      }
    }
    if (r_.WantsSample())
      r_.Sample(Format("n=%d t=%d own=%d sent: advertise=%d share=%d masked=%d unmask=%d abort=%d "
                       "ended %s",
                       n_, t_, own_, sent_.advertise, sent_.share, sent_.masked, sent_.unmask,
                       sent_.abort, client_->State().c_str()));
    r_.Count(client_->IsCompletedSuccessfully() ? "ended completed"
             : client_->IsAborted()             ? "ended aborted"
                                                : "ended waiting");
  }

  std::string Where() {
    return Format("n=%d count=%d t=%d own=%d input_at=%d state=%s", n_, count_, t_, own_, input_at_,
                  client_->State().c_str());
  }

  Report& r_;
  Rng rng_;
  bool privacy_;
  int n_ = 0, t_ = 0, own_ = 0, count_ = 0, input_at_ = 0;
  double hostility_ = 0;
  bool started_ = false, input_given_ = false, over_before_ = false, masked_judged_ = false;
  std::vector<InputVectorSpecification> specs_;
  Plain input_;
  std::string prng_log_, wire_;
  std::deque<std::string> out_;
  std::unique_ptr<SecAggClient> client_;
  std::vector<std::unique_ptr<EcdhKeyAgreement>> enc_, noise_;
  Sent sent_;
  size_t total_ = 0;
  ClientToServerWrapperMessage last_;
  fcp::secagg::PairOfPublicKeys keys_;
  fcp::secagg::ShareKeysResponse shares_msg_;
  fcp::secagg::MaskedInputCollectionResponse masked_msg_;
  fcp::secagg::UnmaskingResponse unmask_msg_;
  SessionId session_;
  std::vector<bool> alive_, alive2_;
  std::vector<std::string> given_noise_, given_prf_, history_;
  std::string noise_sk_, self_key_;
  static std::set<std::string> ciphertexts_;
  static std::set<uint64_t> masks_;
};
std::set<std::string> Victim::ciphertexts_;
std::set<uint64_t> Victim::masks_;

// ---- a server with some hostile clients ---------------------------------------------
class Besieged {
 public:
  Besieged(Report& r, Rng rng) : r_(r), rng_(rng), w_(Config(rng_), rng_) {}

  static WorldConfig Config(Rng& rng) {
    WorldConfig c = RandomConfig(rng, 9);
    c.n = std::max(c.n, 4);
    if (c.graph == WorldConfig::kForcedSub && rng.Chance(0.5)) c.graph = WorldConfig::kFull;
    c.dropout = 0.3 + 0.5 * rng.Unit();
    c.min_clients = 2;
    return c;
  }

  void Run() {
    if (w_.server == nullptr) return;
    n_ = w_.cfg.n;
    hostile_.resize(n_);
    poisoned_.resize(n_);
    last_.resize(n_);
    for (int i = 0; i < n_; ++i) hostile_[i] = rng_.Chance(0.35);
    poison_ = rng_.Chance(0.3);  // also well-formed lies
    for (int i = 0; i < n_; ++i) {
      (void)w_.GiveInput(i);
      (void)w_.StartClient(i);
    }
    int64_t steps = 0;
    while (++steps < 20000 && Step()) {
    }
    AfterTheEnd();
    Judge();
  }

 private:
  bool Step() {
    std::vector<std::pair<int, int>> mv;
    for (int i = 0; i < n_; ++i) {
      if (!w_.to_client.q[i].empty()) mv.push_back({0, i});
      if (!w_.to_server[i].empty()) mv.push_back({1, i});
    }
    if (!w_.parallel.empty()) mv.push_back({2, 0});
    if (!w_.sequential.empty()) mv.push_back({3, 0});
    if (mv.empty()) {
      if (w_.ServerDone()) return false;
      auto ready = w_.server->ReadyForNextRound();
      if (ready.ok() && *ready) {
        auto s = w_.Proceed();
        if (!s.ok()) {
          r_.Violation("ready-but-refused", s.ToString());
          return false;
        }
        return true;
      }
      for (int i = 0; i < n_; ++i) {
        if (!w_.server_dead[i] && !w_.responded[i]) {
          (void)w_.DropClient(i, fcp::secagg::ClientAbortReason::CONNECTION_DROPPED);
          return true;
        }
      }
      // Everyone answered or is out; hostile drops may have made it unready.
      auto s = w_.server->Abort();
      if (!s.ok()) r_.Violation("abort-refused", s.ToString());
      return false;
    }
    auto [k, i] = mv[rng_.Below(mv.size())];
    switch (k) {
      case 0: (void)w_.ToClient(i); break;
      case 1: Deliver(i); break;
      case 2: w_.parallel.RunOne(rng_); break;
      case 3: w_.sequential.RunOne(rng_); break;
    }
    if (rng_.Chance(0.05)) Nonsense();
    if (rng_.Chance(0.1)) SecondMessage();
    return true;
  }

  // A hostile client whose answer of this round was taken speaks again.
  void SecondMessage() {
    auto st = w_.State();
    if (st != SecAggServerStateKind::R0_ADVERTISE_KEYS &&
        st != SecAggServerStateKind::R1_SHARE_KEYS &&
        st != SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION &&
        st != SecAggServerStateKind::R3_UNMASKING)
      return;
    int i = static_cast<int>(rng_.Below(n_));
    if (!hostile_[i] || w_.server_dead[i] || !w_.responded[i] || last_[i].empty()) return;
    ClientToServerWrapperMessage m;
    std::string why = "repeated answer";
    if (rng_.Chance(0.4)) {
      m.mutable_abort()->set_diagnostic_info("after all not");
      why = "abort after the answer";
    } else if (!m.ParseFromString(last_[i])) {
      Report::Broken("bad message");
    } else if (rng_.Chance(0.3)) {
      m.Clear();
      why = "empty message after the answer";
    }
    r_.Count("second messages");
    Send(i, m, why, true);
  }

  // A hostile client may replace or follow its honest message.
  void Deliver(int i) {
    ClientToServerWrapperMessage m;
    if (!m.ParseFromString(w_.to_server[i].front())) Report::Broken("bad message");
    last_[i] = w_.to_server[i].front();
    bool act = hostile_[i] && !w_.server_dead[i] && !w_.ServerDone() && !m.has_abort() &&
               rng_.Chance(0.4);
    if (!act) {
      (void)w_.ToServer(i);
      return;
    }
    std::string why;
    bool malformed = Corrupt(m, i, why);
    w_.to_server[i].pop_front();
    Send(i, m, why, malformed);
    if (!malformed) {
      // Taken as the client's answer for the round; the result may be wrong.
      bool dead = w_.server->IsAborted() || w_.server->AbortedClientIds().count(i) > 0;
      if (dead) {
        w_.server_dead[i] = true;
      } else {
        w_.responded[i] = true;
        if (w_.State() == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION) w_.included[i] = true;
        if (w_.State() == SecAggServerStateKind::R3_UNMASKING) w_.unmasked[i] = true;
        tainted_ = true;
      }
    }
  }

  // Changes m. True when the server can and must see that it is wrong.
  bool Corrupt(ClientToServerWrapperMessage& m, int i, std::string& why) {
    if (rng_.Chance(0.15)) {
      // Another round's message. Advertise and share messages are refused by type.
      ClientToServerWrapperMessage x;
      bool adv = m.has_advertise_keys();
      if (adv || rng_.Chance(0.5)) x.mutable_share_keys_response()->add_encrypted_key_shares("x");
      else x.mutable_advertise_keys()->mutable_pair_of_public_keys()->set_enc_pk("k");
      if (m.has_share_keys_response() && x.has_share_keys_response()) {
        x.Clear();
        x.mutable_unmasking_response();
      }
      m = x;
      why = "message of another round";
      return true;
    }
    if (m.has_advertise_keys()) {
      auto* p = m.mutable_advertise_keys()->mutable_pair_of_public_keys();
      switch (rng_.Below(poison_ ? 5 : 4)) {
        case 0: p->clear_enc_pk(); why = "no enc key"; return true;
        case 1: p->set_noise_pk(rng_.Bytes(10)); why = "short noise key"; return true;
        case 2: p->set_enc_pk(rng_.Bytes(34)); why = "long enc key"; return true;
        case 3: m.mutable_advertise_keys()->clear_pair_of_public_keys(); why = "no keys"; return true;
        default: p->set_enc_pk(rng_.Bytes(33)); why = "random enc key"; poisoned_[i] = true; return false;
      }
    }
    if (m.has_share_keys_response()) {
      auto* s = m.mutable_share_keys_response();
      switch (rng_.Below(poison_ ? 5 : 4)) {
        case 0: s->add_encrypted_key_shares("extra"); why = "extra share"; return true;
        case 1: s->mutable_encrypted_key_shares()->RemoveLast(); why = "share missing"; return true;
        case 2:
          for (auto& c : *s->mutable_encrypted_key_shares())
            if (!c.empty()) { c.clear(); why = "empty share"; return true; }
          s->add_encrypted_key_shares("extra");
          why = "extra share";
          return true;
        case 3:
          for (auto& c : *s->mutable_encrypted_key_shares())
            if (c.empty()) { c = "unexpected"; why = "unexpected share"; return true; }
          s->clear_encrypted_key_shares();
          why = "no shares";
          return true;
        default: {
          auto* c = s->mutable_encrypted_key_shares(rng_.Below(s->encrypted_key_shares_size()));
          if (!c->empty()) (*c)[rng_.Below(c->size())] ^= 1;
          why = "tampered share";
          return false;
        }
      }
    }
    if (m.has_masked_input_response()) {
      auto* v = m.mutable_masked_input_response()->mutable_vectors();
      std::string name = w_.cfg.specs[rng_.Below(w_.cfg.specs.size())].name();
      switch (rng_.Below(poison_ ? 6 : 5)) {
        case 0: v->erase(name); why = "vector missing"; return true;
        case 1: (*v)["another"].set_encoded_vector("x"); why = "extra vector"; return true;
        case 2: (*v)[name].mutable_encoded_vector()->push_back('x'); why = "long vector"; return true;
        case 3: (*v)[name].mutable_encoded_vector()->pop_back(); why = "short vector"; return true;
        case 4: {
          auto x = (*v)[name];
          v->erase(name);
          (*v)[name + "2"] = x;
          why = "renamed vector";
          return true;
        }
        default: {
          std::string* b = (*v)[name].mutable_encoded_vector();
          *b = rng_.Bytes(b->size());
          why = "random vector";
          return false;
        }
      }
    }
    if (m.has_unmasking_response()) {
      auto* u = m.mutable_unmasking_response();
      int k = static_cast<int>(rng_.Below(u->noise_or_prf_key_shares_size()));
      if (rng_.Chance(0.3)) {  // preferably one that should stay empty
        for (int t = 0; t < u->noise_or_prf_key_shares_size(); ++t) {
          if (u->noise_or_prf_key_shares(t).oneof_shares_case() == 0) k = t;
        }
      }
      auto* s = u->mutable_noise_or_prf_key_shares(k);
      switch (rng_.Below(poison_ ? 6 : 3)) {
        case 0:
          if (s->has_noise_sk_share() || s->has_prf_sk_share()) {
            bool noise = s->has_noise_sk_share();
            s->Clear();
            why = "share left out";
            if (rng_.Chance(0.5)) {
              why = "wrong kind of share";
              if (noise) s->set_prf_sk_share(rng_.Bytes(36));
              else s->set_noise_sk_share(rng_.Bytes(36));
            }
            return true;
          }
          if (rng_.Chance(0.5)) s->set_prf_sk_share(rng_.Bytes(36));
          else s->set_noise_sk_share(rng_.Bytes(36));
          why = "share where none is due";
          return true;
        case 1:
          u->mutable_noise_or_prf_key_shares()->RemoveLast();
          why = "share missing";
          return true;
        case 2:
          u->clear_noise_or_prf_key_shares();
          why = "no shares";
          return true;
        case 3:
          if (s->has_noise_sk_share()) s->set_noise_sk_share(rng_.Bytes(rng_.Below(80)));
          else if (s->has_prf_sk_share()) s->set_prf_sk_share(rng_.Bytes(rng_.Below(80)));
          why = "share of odd size";
          return false;
        case 4:
          for (auto& x : *u->mutable_noise_or_prf_key_shares()) {
            if (x.has_noise_sk_share()) x.set_noise_sk_share(rng_.Bytes(36));
            else if (x.has_prf_sk_share()) x.set_prf_sk_share(std::string(36, '\xff'));
          }
          why = "made-up shares";
          return false;
        default:
          for (auto& x : *u->mutable_noise_or_prf_key_shares()) {
            if (x.has_noise_sk_share()) x.set_noise_sk_share("");
            else if (x.has_prf_sk_share()) x.set_prf_sk_share(rng_.Chance(0.5) ? "" : rng_.Bytes(20));
          }
          why = "empty or legacy shares";
          return false;
      }
    }
    why = "nothing";
    return false;
  }

  void Send(int i, const ClientToServerWrapperMessage& m, const std::string& why, bool malformed) {
    r_.Eval();
    r_.Count("hostile messages");
    auto before = w_.State();
    r_.Distinct(Format("%d:", (int)before) + why);
    std::set<int> dead_before;
    for (uint32_t d : w_.server->AbortedClientIds()) dead_before.insert(d);
    auto copy = std::make_unique<ClientToServerWrapperMessage>();
    if (!copy->ParseFromString(m.SerializeAsString())) Report::Broken("reparse");
    auto s = w_.server->ReceiveMessage(i, std::move(copy));
    (void)s;
    if (!malformed) return;
    w_.server_dead[i] = true;
    if (w_.ServerDone()) return;
    auto dead = w_.server->AbortedClientIds();
    if (dead.count(i) == 0) r_.Violation("malformed-message-accepted", why);
    dead_before.insert(i);
    if (dead.size() != dead_before.size()) r_.Violation("others-dropped-for-a-bad-message", why);
    if (w_.State() != before) r_.Violation("state-changed-by-a-bad-message", why);
  }

  // Calls that can never have an effect.
  void Nonsense() {
    r_.Count("nonsense calls");
    auto before = w_.State();
    bool done = w_.ServerDone();
    switch (rng_.Below(4)) {
      case 0: {
        auto m = std::make_unique<ClientToServerWrapperMessage>();
        m->mutable_abort();
        auto s = w_.server->ReceiveMessage(n_ + rng_.Below(3), std::move(m));
        if (s.ok()) r_.Violation("unknown-client-accepted", "");
        break;
      }
      case 1: {
        auto s = w_.server->AbortClient(n_ + 1 + rng_.Below(1000),
                                        fcp::secagg::ClientAbortReason::INVALID_MESSAGE);
        if (s.ok()) r_.Violation("unknown-client-accepted", "");
        break;
      }
      case 2: {
        if (done) break;
        auto ready = w_.server->ReadyForNextRound();
        if (ready.ok() && !*ready) {
          auto s = w_.Proceed();
          if (s.ok()) r_.Violation("proceeded-when-not-ready", "");
        }
        break;
      }
      case 3: {
        if (w_.server->IsCompletedSuccessfully()) break;
        auto res = w_.server->Result();
        if (res.ok()) r_.Violation("result-before-completion", "");
        break;
      }
    }
    if (w_.State() != before) r_.Violation("nonsense-changed-state", "");
  }

  void AfterTheEnd() {
    if (!w_.ServerDone()) return;
    auto st = w_.State();
    bool completed = w_.server->IsCompletedSuccessfully();
    size_t queued = 0;
    for (auto& q : w_.to_client.q) queued += q.size();
    auto m = std::make_unique<ClientToServerWrapperMessage>();
    if (rng_.Chance(0.5)) m->mutable_abort();
    if (w_.server->ReceiveMessage(rng_.Below(n_), std::move(m)).ok())
      r_.Violation("message-taken-after-the-end", "");
    if (w_.server->ProceedToNextRound().ok()) r_.Violation("proceeded-after-the-end", "");
    if (w_.server->AbortClient(0, fcp::secagg::ClientAbortReason::CONNECTION_DROPPED).ok())
      r_.Violation("client-dropped-after-the-end", "");
    if (w_.server->Abort().ok()) r_.Violation("aborted-after-the-end", "");
    if (w_.State() != st || w_.server->IsCompletedSuccessfully() != completed ||
        w_.server->IsAborted() == completed)
      r_.Violation("final-state-left", "");
    if (w_.server->ErrorMessage().ok() == completed) r_.Violation("error-message-mismatch", "");
    size_t now = 0;
    for (auto& q : w_.to_client.q) now += q.size();
    if (now != queued) r_.Violation("message-after-the-end", "");
  }

  void Judge() {
    r_.Count(w_.server->IsCompletedSuccessfully() ? "sessions completed" : "sessions aborted");
    if (!w_.server->IsCompletedSuccessfully() || tainted_) return;
    auto res = w_.server->Result();
    if (!res.ok()) {
      r_.Violation("no-result", res.status().ToString());
      return;
    }
    Plain want = w_.ExpectedSum();
    for (auto& [name, v] : want) {
      auto it = (*res)->find(name);
      if (it == (*res)->end() || it->second.GetAsUint64Vector() != v)
        r_.Violation("bad-messages-changed-the-sum", w_.cfg.Describe());
    }
    r_.Eval();
    r_.Count("sums compared");
    if (r_.WantsSample())
      r_.Sample(Format("n=%d hostile=%d taken=%d", n_,
                       (int)std::count(hostile_.begin(), hostile_.end(), true),
                       w_.IncludedCount()));
  }

  Report& r_;
  Rng rng_;
  World w_;
  int n_ = 0;
  bool poison_ = false, tainted_ = false;
  std::vector<bool> hostile_, poisoned_;
  std::vector<std::string> last_;
};

}  // namespace
}  // namespace verif

int main(int argc, char** argv) {
  verif::Report r(argc, argv);
  verif::NullRecorder::Install();
  if (r.mode == "server") {
    int64_t cases = r.N(12000, 120000);
    for (int64_t i = 0; i < cases; ++i) {
      if (!r.Mine(i)) continue;
      r.Case(i);
      verif::Besieged(r, verif::Rng(r.seed, i + 30000000)).Run();
    }
  } else if (r.mode == "privacy" || r.mode == "client") {
    bool privacy = r.mode == "privacy";
    int64_t cases = r.N(24000, 240000);
    for (int64_t i = 0; i < cases; ++i) {
      if (!r.Mine(i)) continue;
      r.Case(i);
      verif::Victim(r, verif::Rng(r.seed, i + (privacy ? 10000000 : 20000000)), privacy).Run();
    }
  } else {
    verif::Report::Broken("mode");
  }
  return r.Finish();
}
