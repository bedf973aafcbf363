// Small building blocks used everywhere: dictionaries, tokens and digests,
// values and results, casts and bounds.
#include <signal.h>
#include <sys/wait.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <thread>
#include <utility>
#include <variant>

#include "absl/hash/hash.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "common.h"
#include "fcp/base/base_name.h"
#include "fcp/base/bounds.h"
#include "fcp/base/digest.h"
#include "fcp/base/match.h"
#include "fcp/base/monitoring.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/result.h"
#include "fcp/base/source_location.h"
#include "fcp/base/tracing_schema.h"
#include "fcp/base/unique_value.h"
#include "fcp/dictionary/dictionary.h"
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_span.h"

namespace {
using fcp::Error;
using fcp::MoveToLambda;
using fcp::Result;
using fcp::UniqueValue;
using verif::Format;
using verif::Hex;
using verif::Report;
using verif::Rng;

// Whether `fn` stops the process that runs it.
bool Dies(const std::function<void()>& fn) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) Report::Broken("fork");
  if (pid == 0) {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    alarm(60);
    fn();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  Report::Broken("a child process ended in an unexpected way");
}

// ---- dictionaries ----------------------------------------------------------------

std::string Token(Rng& rng) {
  switch (rng.Below(5)) {
    case 0:
      return std::string(1, static_cast<char>('a' + rng.Below(26)));
    case 1: {
      std::string s;
      for (int n = rng.Range(1, 12); n > 0; --n) s += static_cast<char>('a' + rng.Below(3));
      return s;
    }
    case 2:
      return rng.Pick(std::vector<std::string>{"<UNK>", "<BOS>", "<EOS>", " ", ".", "\t", "0", "-1",
                                               "\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "A", "a ", " a",
                                               std::string("a\0b", 3), std::string("a\0c", 3),
                                               std::string(1, '\0')});
    case 3: {
      std::string s(rng.Range(1, 300), 'x');
      s.back() = static_cast<char>('a' + rng.Below(26));
      return s;
    }
    default:
      return Format("w%d", static_cast<int>(rng.Below(5000)));
  }
}

void Dictionaries(Report& r) {
  using fcp::dictionary::Dictionary;
  using fcp::dictionary::DictionaryDescription;
  const int64_t cases = r.N(4000, 40000);
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    DictionaryDescription d;
    std::vector<std::string> tokens;
    std::map<std::string, int> index;
    const int want = rng.Chance(0.05) ? 3000 : rng.Chance(0.3) ? rng.Below(3) : rng.Below(60);
    for (int k = 0; k < want; ++k) {
      std::string t = Token(rng);
      if (index.count(t)) continue;
      index[t] = tokens.size();
      tokens.push_back(t);
    }
    auto* voc = d.mutable_vocabulary()->mutable_index();
    for (auto& t : tokens) voc->add_token(t);
    int unk = -1, bos = -1, eos = -1;
    const int span = rng.Chance(0.5) ? 4 : 30;
    if (rng.Chance(0.6)) d.mutable_special_ids()->set_unk(unk = rng.Below(span));
    if (rng.Chance(0.5)) d.mutable_special_ids()->set_bos(bos = rng.Below(span));
    if (rng.Chance(0.5)) d.mutable_special_ids()->set_eos(eos = rng.Below(span));
    const int first = std::max({unk, bos, eos}) + 1;
    std::vector<int> blocked;
    if (rng.Chance(0.5)) {
      int at = first;
      for (int n = rng.Below(6); n > 0; --n) {
        at += rng.Below(4);
        blocked.push_back(at++);
      }
      d.mutable_output_blocklist_ids();
    }
    // Descriptions that make no sense.
    int bad = rng.Chance(0.2) ? 1 + rng.Below(5) : 0;
    if (bad == 1 && first == 0) bad = 0;
    if (bad == 1) blocked.insert(blocked.begin() + rng.Below(blocked.size() + 1), rng.Below(first));
    if (bad == 2) {
      if (blocked.size() < 2) bad = 0;
      else {
        size_t k = 1 + rng.Below(blocked.size() - 1);
        if (rng.Chance(0.5)) blocked[k] = blocked[k - 1];
        else std::swap(blocked[k], blocked[k - 1]);
      }
    }
    for (int b : blocked) d.mutable_output_blocklist_ids()->add_id(b);
    if (bad == 3) d.clear_vocabulary();
    if (bad == 4) d.mutable_vocabulary()->clear_index();
    if (bad == 5) bad = 0;
    r.Case(i, d.ShortDebugString().substr(0, 1500));
    auto made = Dictionary::Create(d);
    r.Eval();
    if (bad) {
      r.Count("senseless descriptions");
      if (made.ok() || made.status().code() != absl::StatusCode::kInvalidArgument) {
        r.Violation("senseless-description", Format("kind %d: %s", bad, made.status().ToString().c_str()));
      }
      continue;
    }
    if (!made.ok()) {
      r.Violation("description-refused", made.status().ToString());
      continue;
    }
    const Dictionary& dict = **made;
    r.Count("dictionaries");
    r.Distinct(Format("%zu %d %d %d %zu", tokens.size(), unk, bos, eos, blocked.size()));
    if (dict.Size() != static_cast<int>(tokens.size()) + first) {
      r.Violation("size", Format("%d for %zu tokens from %d", dict.Size(), tokens.size(), first));
    }
    for (size_t k = 0; k < tokens.size(); ++k) {
      int id = dict.TokenToId(tokens[k]);
      if (id != static_cast<int>(k) + first) {
        r.Violation("id-of-token", Format("%s has %d instead of %zu", Hex(tokens[k]).c_str(), id, k + first));
      }
      std::string back = dict.IdToToken(static_cast<int>(k) + first);
      if (back != tokens[k]) r.Violation("token-of-id", Format("%zu is %s", k + first, Hex(back).c_str()));
      if (dict.IsSpecialId(static_cast<int>(k) + first)) r.Violation("token-special", Format("%zu", k + first));
    }
    for (int k = 0; k < 30; ++k) {
      std::string t = rng.Chance(0.5) || tokens.empty() ? Token(rng) : rng.Pick(tokens);
      if (rng.Chance(0.4)) t += rng.Chance(0.5) ? std::string(1, '\0') : "s";
      else if (rng.Chance(0.3)) t = t.substr(0, t.size() / 2);
      auto it = index.find(t);
      int expect = it != index.end() ? it->second + first : unk;
      if (it == index.end()) r.Count("unknown tokens");
      int id = dict.TokenToId(t);
      if (id != expect) r.Violation("id-of-token", Format("%s has %d instead of %d", Hex(t).c_str(), id, expect));
    }
    std::vector<int32_t> ids = {-1, -2, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::min() + 1,
                                std::numeric_limits<int32_t>::min() + first,
                                std::numeric_limits<int32_t>::max(), dict.Size(), dict.Size() + 1};
    for (int k = 0; k < first; ++k) ids.push_back(k);
    for (int k = 0; k < 10; ++k) ids.push_back(static_cast<int32_t>(rng.U64()));
    for (int32_t id : ids) {
      bool token = id >= first && id - first < static_cast<int64_t>(tokens.size());
      std::string t = dict.IdToToken(id);
      if (t != (token ? tokens[id - first] : "")) r.Violation("token-of-id", Format("%d is %s", id, Hex(t).c_str()));
      r.Count("ids of no token", !token);
      bool named = id >= 0 && (id == unk || id == bos || id == eos);
      if (named && !dict.IsSpecialId(id)) r.Violation("special-id", Format("%d is not special", id));
      if ((id < 0 || id >= first) && dict.IsSpecialId(id)) r.Violation("special-id", Format("%d is special", id));
    }
    const auto& s = dict.GetSpecialIds();
    if (s.unk() != unk || s.bos() != bos || s.eos() != eos) r.Violation("special-ids", s.ShortDebugString());
    const auto& list = dict.GetSortedOutputBlocklistIds();
    std::set<int> have(list.begin(), list.end());
    if (have.size() != list.size() || !std::is_sorted(list.begin(), list.end())) {
      r.Violation("blocklist-order", d.ShortDebugString().substr(0, 500));
    }
    for (int b : blocked) {
      if (!have.count(b)) r.Violation("blocklist-short", Format("%d", b));
    }
    for (int b : {unk, bos, eos}) {
      if (b >= 0 && !have.count(b)) r.Violation("blocklist-short", Format("special %d", b));
    }
    for (int b : have) {
      if (b >= first && !std::count(blocked.begin(), blocked.end(), b)) r.Violation("blocklist-long", Format("%d", b));
    }
  }
}

// ---- tokens, digests, numbers and names -----------------------------------------

// SHA-256 as in FIPS 180-4.
std::string Sha256(const std::string& data) {
  static const std::vector<uint32_t> k = [] {
    // The first 32 bits of the fractional parts of the cube roots of primes.
    std::vector<uint32_t> v;
    for (int p = 2; v.size() < 64; ++p) {
      bool prime = true;
      for (int q = 2; q * q <= p; ++q) prime &= p % q != 0;
      if (!prime) continue;
      unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 36;
      while (hi - lo > 1) {  // largest x with x^3 <= p * 2^108
        unsigned __int128 mid = (lo + hi) / 2;
        unsigned __int128 cube = mid * mid;  // below 2^80
        bool over = cube > (((unsigned __int128)p << 108) / mid);
        if (over) hi = mid;
        else lo = mid;
      }
      v.push_back(static_cast<uint32_t>(lo >> 4));
    }
    return v;
  }();
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::string m = data;
  m += static_cast<char>(0x80);
  while (m.size() % 64 != 56) m += '\0';
  for (int b = 7; b >= 0; --b) m += static_cast<char>((static_cast<uint64_t>(data.size()) * 8) >> (8 * b));
  auto rot = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t at = 0; at < m.size(); at += 64) {
    uint32_t w[64];
    for (int t = 0; t < 16; ++t) {
      w[t] = 0;
      for (int b = 0; b < 4; ++b) w[t] = (w[t] << 8) | static_cast<unsigned char>(m[at + 4 * t + b]);
    }
    for (int t = 16; t < 64; ++t) {
      uint32_t s0 = rot(w[t - 15], 7) ^ rot(w[t - 15], 18) ^ (w[t - 15] >> 3);
      uint32_t s1 = rot(w[t - 2], 17) ^ rot(w[t - 2], 19) ^ (w[t - 2] >> 10);
      w[t] = w[t - 16] + s0 + w[t - 7] + s1;
    }
    uint32_t a[8];
    std::copy(h, h + 8, a);
    for (int t = 0; t < 64; ++t) {
      uint32_t t1 = a[7] + (rot(a[4], 6) ^ rot(a[4], 11) ^ rot(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + k[t] + w[t];
      uint32_t t2 = (rot(a[0], 2) ^ rot(a[0], 13) ^ rot(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
      for (int q = 7; q > 0; --q) a[q] = a[q - 1];
      a[4] += t1;
      a[0] = t1 + t2;
    }
    for (int q = 0; q < 8; ++q) h[q] += a[q];
  }
  std::string out;
  for (uint32_t x : h) {
    for (int b = 3; b >= 0; --b) out += static_cast<char>(x >> (8 * b));
  }
  return out;
}

void Tokens(Report& r) {
  if (Hex(Sha256("abc")) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad") {
    Report::Broken("the reference digest is wrong");
  }
  using fcp::RandomToken;
  const int64_t cases = r.N(64, 400);
  std::set<std::string> all;
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    r.Case(i);
    // Digests.
    for (int k = 0; k < 40; ++k) {
      static const std::vector<size_t> kEdges = {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 4095, 4096, 4097};
      std::string data = rng.Bytes(rng.Chance(0.5) ? rng.Pick(kEdges) : rng.Below(rng.Chance(0.9) ? 400 : 60000));
      if (rng.Chance(0.1)) data.assign(data.size(), '\0');
      std::string want = Sha256(data);
      r.Eval();
      if (fcp::ComputeSHA256(data) != want) r.Violation("digest", Format("of %zu bytes", data.size()));
      absl::Cord cord;
      size_t at = 0;
      int pieces = 0;
      const size_t step = rng.Chance(0.5) ? 70 : 8000;
      while (at < data.size() && pieces < 3000) {
        size_t n = std::min<size_t>(1 + rng.Below(step), data.size() - at);
        std::string piece = data.substr(at, n);
        if (rng.Chance(0.5)) {
          auto* keep = new std::string(piece);
          cord.Append(absl::MakeCordFromExternal(*keep, [keep] { delete keep; }));
        } else {
          cord.Append(absl::Cord(piece));
        }
        at += n;
        ++pieces;
      }
      cord.Append(absl::Cord(data.substr(at)));
      if (rng.Chance(0.3)) {
        size_t from = rng.Below(data.size() + 1), n = rng.Below(data.size() - from + 1);
        cord = cord.Subcord(from, n);
        want = Sha256(data.substr(from, n));
      }
      if (fcp::ComputeSHA256(cord) != want) r.Violation("digest", Format("of a cord of %zu bytes in %d pieces", cord.size(), pieces));
      r.Count("digests", 2);
      r.Distinct(Format("%zu %d", data.size(), std::min(pieces, 20)));
    }
    // Tokens, from several threads and from a process of its own.
    std::mutex m;
    std::vector<std::string> tokens;
    std::vector<uint64_t> numbers;
    int pipefd[2];
    if (pipe(pipefd)) Report::Broken("pipe");
    for (int k = 0; k < 3; ++k) tokens.push_back(RandomToken::Generate().ToString());
    pid_t pid = fork();
    if (pid < 0) Report::Broken("fork");
    if (pid == 0) {
      std::string s;
      for (int k = 0; k < 100; ++k) s += RandomToken::Generate().ToString();
      _exit(write(pipefd[1], s.data(), s.size()) == static_cast<ssize_t>(s.size()) ? 0 : 1);
    }
    close(pipefd[1]);
    std::vector<std::thread> threads;
    const int n = 2 + rng.Below(3);
    std::atomic<int> ready{0};
    for (int t = 0; t < n; ++t) {
      threads.emplace_back([&] {
        std::vector<std::string> mine;
        std::vector<uint64_t> ids;
        ++ready;
        while (ready < n) {
        }
        for (int k = 0; k < 800; ++k) mine.push_back(RandomToken::Generate().ToString());
        for (int k = 0; k < 3000; ++k) ids.push_back(fcp::ProcessUniqueId::Next().value());
        std::lock_guard<std::mutex> l(m);
        tokens.insert(tokens.end(), mine.begin(), mine.end());
        numbers.insert(numbers.end(), ids.begin(), ids.end());
      });
    }
    for (auto& t : threads) t.join();
    char buf[1600];
    for (size_t got = 0; got < sizeof buf;) {
      ssize_t x = read(pipefd[0], buf + got, sizeof buf - got);
      if (x <= 0) Report::Broken("tokens of the other process");
      got += x;
    }
    close(pipefd[0]);
    waitpid(pid, nullptr, 0);
    for (int k = 0; k < 100; ++k) tokens.push_back(std::string(buf + 16 * k, 16));
    for (auto& t : tokens) {
      r.Eval();
      if (t.size() != 16) {
        r.Violation("token-size", Format("%zu", t.size()));
        continue;
      }
      if (!all.insert(t).second) r.Violation("token-twice", Hex(t));
    }
    r.Count("tokens", tokens.size());
    std::vector<int> bits(128);
    std::map<uint16_t, int> starts;
    for (auto& t : tokens) {
      for (int b = 0; b < 128 && t.size() == 16; ++b) bits[b] += (t[b / 8] >> (b % 8)) & 1;
    }
    for (int b = 0; b < 128; ++b) {
      // Eight standard deviations.
      double half = tokens.size() / 2.0, dev = 4 * std::sqrt(static_cast<double>(tokens.size()));
      if (bits[b] < half - dev || bits[b] > half + dev) {
        r.Violation("token-bit", Format("bit %d is set in %d of %zu tokens", b, bits[b], tokens.size()));
      }
    }
    // Halves of tokens do not come again either.
    std::set<std::string> lows, highs;
    for (auto& t : tokens) {
      if (t.size() != 16) continue;
      if (!lows.insert(t.substr(0, 8)).second || !highs.insert(t.substr(8)).second || t.substr(0, 8) == t.substr(8)) {
        r.Violation("token-half-twice", Hex(t));
      }
    }
    std::sort(numbers.begin(), numbers.end());
    if (std::adjacent_find(numbers.begin(), numbers.end()) != numbers.end()) {
      r.Violation("number-twice", "two callers got one number");
    }
    r.Count("numbers", numbers.size());
    // Tokens in their forms.
    for (int k = 0; k < 200; ++k) {
      std::string bytes = rng.Chance(0.5) ? rng.Bytes(16) : rng.Pick(tokens);
      if (bytes.size() != 16) break;
      RandomToken a = RandomToken::FromBytes(bytes);
      auto arr = a.ToBytes();
      std::string other = bytes;
      if (rng.Chance(0.7)) other[rng.Below(16)] ^= 1 << rng.Below(8);
      RandomToken b = RandomToken::FromBytes(other);
      if (a.ToString() != bytes || std::string(arr.data(), arr.size()) != bytes || a.ToPrintableString() != Hex(bytes)) {
        r.Violation("token-form", Hex(bytes));
      }
      if ((a == b) != (bytes == other) || (a != b) != (bytes != other)) r.Violation("token-equality", Hex(bytes) + " " + Hex(other));
      if (a == b && absl::HashOf(a) != absl::HashOf(b)) r.Violation("token-hash", Hex(bytes));
      r.Count("forms");
    }
    if (!Dies([&] { RandomToken::FromBytes(rng.Bytes(rng.Chance(0.5) ? 15 : 17)); })) {
      r.Violation("token-of-wrong-size", "");
    }
    // Last parts of paths.
    for (int k = 0; k < 60; ++k) {
      std::string p;
      for (int parts = rng.Below(5); parts >= 0; --parts) {
        if (rng.Chance(0.6)) p += rng.Pick(std::vector<std::string>{"/", "//", "a", "b.cc", "..", ".", "\\", "c:", " ", "x/y"});
      }
      size_t at = p.rfind('/');
      std::string want = at == std::string::npos ? p : p.substr(at + 1);
      if (fcp::BaseName(p) != want) r.Violation("base-name", p + " gives " + fcp::BaseName(p));
      r.Count("names");
    }
  }
}

// ---- values and results -----------------------------------------------------------

// A thing of which each number exists once, wherever it has been moved to.
struct Thing {
  static std::map<int, int> alive;
  static int wrong;
  int number = 0;
  explicit Thing(int n) : number(n) { ++alive[n]; }
  Thing(Thing&& o) noexcept : number(std::exchange(o.number, 0)) {}
  Thing& operator=(Thing&& o) noexcept {
    if (this != &o) {
      Drop();
      number = std::exchange(o.number, 0);
    }
    return *this;
  }
  Thing(const Thing&) = delete;
  ~Thing() {
    Drop();
    number = -99;
  }
  void Drop() {
    if (number == -99) ++wrong;
    if (number > 0 && --alive[number] == 0) alive.erase(number);
  }
};
std::map<int, int> Thing::alive;
int Thing::wrong = 0;

// The same for a thing that could be copied.
struct Copied {
  int number = 0;
  std::shared_ptr<int> use;
  explicit Copied(int n) : number(n), use(std::make_shared<int>(n)) {}
};

void Uniques(Report& r, Rng& rng) {
  struct Cell {
    UniqueValue<Thing> thing{std::nullopt};
    UniqueValue<Copied> copied{std::nullopt};
    UniqueValue<int> plain{std::nullopt};
    int want = 0;  // zero when empty
  };
  std::vector<Cell> cells(2 + rng.Below(5));
  static int next = 1;
  std::map<int, std::weak_ptr<int>> uses;
  const int steps = 40;
  std::string history;
  for (int s = 0; s < steps; ++s) {
    size_t a = rng.Below(cells.size()), b = rng.Below(cells.size());
    Cell& x = cells[a];
    Cell& y = cells[b];
    int op = rng.Below(8);
    history += Format(" %d:%zu,%zu", op, a, b);
    r.Count("steps with values");
    switch (op) {
      case 0: {
        int n = next++;
        x.thing = UniqueValue<Thing>(Thing(n));
        x.copied = fcp::MakeUniqueValue<Copied>(n);
        x.plain = UniqueValue(n);
        uses[n] = x.copied->use;
        x.want = n;
        break;
      }
      case 1:
        y.thing = std::move(x.thing);
        y.copied = std::move(x.copied);
        y.plain = std::move(x.plain);
        if (a != b) y.want = std::exchange(x.want, 0);
        break;
      case 2: {
        UniqueValue<Thing> t(std::move(x.thing));
        UniqueValue<Copied> c(std::move(x.copied));
        UniqueValue<int> p(std::move(x.plain));
        if (x.thing.has_value() || x.copied.has_value() || x.plain.has_value()) {
          r.Violation("moved-value-stays", history);
        }
        if (rng.Chance(0.6)) {
          y.thing = std::move(t);
          y.copied = std::move(c);
          y.plain = std::move(p);
          int w = x.want;
          x.want = 0;
          y.want = w;
        } else {
          x.want = 0;
        }
        break;
      }
      case 3: {
        if (x.want == 0) break;
        Thing t = std::move(x.thing).Take();
        Copied c = std::move(x.copied).Take();
        int p = std::move(x.plain).Take();
        if (t.number != x.want || c.number != x.want || p != x.want) r.Violation("taken-value", history);
        if (x.thing.has_value() || x.copied.has_value() || x.plain.has_value()) r.Violation("taken-value-stays", history);
        if (c.use.use_count() != 1) r.Violation("taken-value-stays", history + " (copies)");
        x.want = 0;
        break;
      }
      case 4: {
        int n = next++;
        Thing& t = x.thing.Emplace(n);
        Copied& c = x.copied.Emplace(n);
        int& p = x.plain.Emplace(n);
        if (t.number != n || c.number != n || p != n || &t != &*x.thing || &c != &*x.copied) r.Violation("emplaced-value", history);
        uses[n] = c.use;
        x.want = n;
        break;
      }
      case 5:
        x.thing.Reset();
        x.copied.Reset();
        x.plain.Reset();
        x.want = 0;
        break;
      case 6: {
        if (a == b) break;
        Cell z = std::move(x);
        x = std::move(y);
        y = std::move(z);
        // x.want and y.want were copied with their cells.
        break;
      }
      default: {
        cells.insert(cells.begin() + a, Cell());
        cells.erase(cells.begin() + rng.Below(cells.size()));
        break;
      }
    }
    int held = 0;
    for (auto& c : cells) {
      bool has = c.want != 0;
      held += has;
      if (c.thing.has_value() != has || c.copied.has_value() != has || c.plain.has_value() != has) {
        r.Violation("presence", history);
        return;
      }
      if (!has) continue;
      const auto& constant = c.copied;
      if ((*c.thing).number != c.want || c.thing->number != c.want || (*constant).number != c.want || *c.plain != c.want) {
        r.Violation("value", history);
      }
      if (Thing::alive[c.want] != 1 || c.copied->use.use_count() != 1) r.Violation("value-not-once", history);
    }
    if (static_cast<int>(Thing::alive.size()) != held) r.Violation("value-lost-or-kept", history);
    for (auto it = uses.begin(); it != uses.end();) {
      bool here = false;
      for (auto& c : cells) here |= c.want == it->first;
      if (!here && !it->second.expired()) r.Violation("value-lost-or-kept", history + " (copies)");
      it = it->second.expired() ? uses.erase(it) : std::next(it);
    }
  }
}

void Lambdas(Report& r, Rng& rng) {
  int n = 1000000 + rng.Below(1000);
  {
    auto moving = MoveToLambda(Thing(n));
    if ((*moving).number != n || moving->number != n) r.Violation("wrapped-value", "at once");
    std::function<int()> f = [moving] { return moving->number; };
    if (moving->number != 0) r.Violation("wrapped-value", "the wrapper keeps what the lambda took");
    // Each copy takes the value along.
    std::vector<std::function<int()>> fs;
    fs.push_back(std::move(f));
    for (int k = rng.Below(6); k > 0; --k) {
      std::function<int()> g = fs.back();
      if (rng.Chance(0.3)) {
        std::function<int()> h;
        h = std::move(g);
        g = std::move(h);
      }
      fs.push_back(std::move(g));
      r.Count("lambdas copied");
    }
    for (size_t k = 0; k < fs.size(); ++k) {
      if (fs[k]() != (k + 1 == fs.size() ? n : 0)) r.Violation("wrapped-value", Format("copy %zu of %zu", k, fs.size()));
    }
    if (Thing::alive[n] != 1) r.Violation("wrapped-value-not-once", "");
  }
  if (Thing::alive.count(n)) r.Violation("wrapped-value-kept", "");
  auto a = MoveToLambda(std::make_unique<int>(1));
  auto b = MoveToLambda(std::make_unique<int>(2));
  b = a;
  if (*a != nullptr || *b == nullptr || **b != 1) r.Violation("wrapped-value", "assigned");
  auto count = [c = MoveToLambda(int(rng.Below(5)))]() mutable { return ++*c; };
  int first = count(), second = count();
  if (second != first + 1) r.Violation("wrapped-value", "changed inside the lambda");
}

Error SomeError() { return fcp::TraceError<ResultExpectError>("planned", "here", 7); }

// Runs a chain of steps on a result, next to a model of it.
struct Chain {
  Report& r;
  Rng& rng;
  int errors = 0;  // errors that were made
  int calls = 0, expected_calls = 0;
  std::vector<std::string> expectations;
  std::vector<std::string> codes;

  Result<Thing> Start(std::optional<int>& want) {
    static int next = 2000000;
    if (rng.Chance(0.1)) {
      want = std::nullopt;
      ++errors;
      expectations.push_back("planned");
      return SomeError();
    }
    want = next++;
    return Thing(*want);
  }
  static Result<int> Tried(Chain& c, Result<Thing> x, int* reached) {
    Thing t = FCP_TRY(std::move(x));
    ++*reached;
    int n = FCP_TRY(Result<std::pair<int, int>>(std::pair<int, int>(t.number, 1)).Map([](const std::pair<int, int>& p) { return p.first + p.second - 1; }));
    return n;
  }
  void Run() {
    std::optional<int> want;
    Result<Thing> x = Start(want);
    std::string history = want ? "value" : "error";
    for (int s = rng.Below(8); s > 0; --s) {
      int kind = rng.Below(6);
      history += Format(" %d", kind);
      if (want) ++expected_calls;
      switch (kind) {
        case 0:
          x = std::move(x).Map([this](Thing t) {
            ++calls;
            return t;
          });
          break;
        case 1:
          x = std::move(x).Then([this](Thing t) -> Result<Thing> {
            ++calls;
            return t;
          });
          break;
        case 2: {
          bool fail = rng.Chance(0.2);
          x = std::move(x).Then([this, fail](Thing t) -> Result<Thing> {
            ++calls;
            if (fail) return SomeError();
            return t;
          });
          if (want && fail) {
            ++errors;
            expectations.push_back("planned");
            want = std::nullopt;
          }
          break;
        }
        case 3: {
          // Looking without taking.
          Result<int> seen = x.Map([this](const Thing& t) {
            ++calls;
            return t.number;
          });
          if (seen.is_error() != !want || (want && seen.GetValueOrDie() != *want)) r.Violation("mapped-value", history);
          break;
        }
        case 4: {
          Result<int> seen = x.Then([this](const Thing& t) -> Result<int> {
            ++calls;
            return t.number;
          });
          if (seen.is_error() != !want || (want && seen.GetValueOrDie() != *want)) r.Violation("then-value", history);
          break;
        }
        default: {
          if (want) --expected_calls;
          int yes = fcp::Match(x, [](const Error&) { return 1; }, [](const Thing& t) { return t.number; });
          if (yes != (want ? *want : 1)) r.Violation("matched-result", history);
          break;
        }
      }
      if (x.is_error() != !want) {
        r.Violation("error-or-value", history);
        return;
      }
      if (want && x.GetValueOrDie().number != *want) r.Violation("result-value", history);
      if (calls != expected_calls) r.Violation("calls", Format("%s: %d instead of %d", history.c_str(), calls, expected_calls));
      size_t live = want ? 1 : 0;
      if (Thing::alive.size() != live) r.Violation("value-lost-or-kept", history);
    }
    int reached = 0;
    Result<int> end = Tried(*this, std::move(x), &reached);
    if (end.is_error() != !want || reached != (want ? 1 : 0) || (want && end.GetValueOrDie() != *want)) {
      r.Violation("tried", history);
    }
    r.Count(want ? "chains with a value" : "chains with an error");
  }
  template <typename T, typename U>
  void Expect(const char* name, Result<T> got, const std::optional<U>& want, int line) {
    if (got.is_error() != !want) {
      r.Violation("expectation", name);
      return;
    }
    if (!want) {
      ++errors;
      expectations.push_back(Format("%s %d", name, line));
    }
    if constexpr (!std::is_same_v<T, fcp::Unit>) {
      if (want && got.GetValueOrDie() != *want) r.Violation("expected-value", name);
    }
    r.Count("expectations");
  }
  void Expectations() {
    using V = std::variant<int, char, bool>;
    const bool b = rng.Chance(0.5);
    const int n = rng.Below(100);
    const std::optional<int> unit(1), none;
    Expect("ExpectTrue", Result<bool>(b).Then(fcp::ExpectTrue()), b ? unit : none, __LINE__);
    Expect("ExpectFalse", Result<bool>(b).Then(fcp::ExpectFalse()), b ? none : unit, __LINE__);
    std::optional<int> o;
    if (rng.Chance(0.5)) o = n;
    Expect("ExpectHasValue", Result<std::optional<int>>(o).Then(fcp::ExpectHasValue()), o, __LINE__);
    Expect("ExpectIsEmpty", Result<std::optional<int>>(o).Then(fcp::ExpectIsEmpty()), o ? none : unit, __LINE__);
    V v;
    int kind = rng.Below(3);
    if (kind == 0) v = n;
    if (kind == 1) v = static_cast<char>('a' + n % 26);
    if (kind == 2) v = b;
    std::optional<int> as_int;
    std::optional<char> as_char;
    std::optional<bool> as_bool;
    if (kind == 0) as_int = n;
    if (kind == 1) as_char = 'a' + n % 26;
    if (kind == 2) as_bool = b;
    Expect("ExpectIs", Result<V>(v).Then(fcp::ExpectIs<int>()), as_int, __LINE__);
    Expect("ExpectIs", Result<V>(v).Then(fcp::ExpectIs<char>()), as_char, __LINE__);
    Expect("ExpectIs", Result<V>(v).Then(fcp::ExpectIs<bool>()), as_bool, __LINE__);
    std::optional<std::variant<char, int>> two;
    if (kind == 0) two = n;
    if (kind == 1) two = static_cast<char>('a' + n % 26);
    Expect("ExpectOneOf", Result<V>(v).Then(fcp::ExpectOneOf<char, int>()), two, __LINE__);
    // Errors pass expectations by without a second error.
    if (rng.Chance(0.2)) {
      ++errors;
      expectations.push_back("planned");
      Result<bool> e = SomeError();
      if (!e.Then(fcp::ExpectTrue()).is_error() || !e.Then(fcp::ExpectFalse()).is_error()) r.Violation("expectation", "of an error");
    }
    static const std::vector<std::pair<absl::StatusCode, const char*>> kCodes = {
        {absl::StatusCode::kOk, "Ok"}, {absl::StatusCode::kCancelled, "Cancelled"},
        {absl::StatusCode::kInvalidArgument, "InvalidArgument"},
        {absl::StatusCode::kDeadlineExceeded, "DeadlineExceeded"}, {absl::StatusCode::kNotFound, "NotFound"},
        {absl::StatusCode::kAlreadyExists, "AlreadyExists"}, {absl::StatusCode::kPermissionDenied, "PermissionDenied"},
        {absl::StatusCode::kResourceExhausted, "ResourceExhausted"},
        {absl::StatusCode::kFailedPrecondition, "FailedPrecondition"}, {absl::StatusCode::kAborted, "Aborted"},
        {absl::StatusCode::kOutOfRange, "OutOfRange"}, {absl::StatusCode::kUnimplemented, "Unimplemented"},
        {absl::StatusCode::kInternal, "Internal"}, {absl::StatusCode::kUnavailable, "Unavailable"},
        {absl::StatusCode::kDataLoss, "DataLoss"}, {absl::StatusCode::kUnauthenticated, "Unauthenticated"},
        {absl::StatusCode::kUnknown, "Unknown"}};
    auto [code, name] = rng.Pick(kCodes);
    std::string text = Format("reason%d", n);
    absl::Status s(code, text);
    bool ok = code == absl::StatusCode::kOk;
    Result<fcp::Unit> a = Result<absl::Status>(s).Then(fcp::ExpectOk());
    absl::StatusOr<int> so = n;
    if (!ok) so = s;
    Result<int> c = Result<absl::StatusOr<int>>(so).Then(fcp::ExpectOk());
    if (a.is_error() != !ok || c.is_error() != !ok || (ok && c.GetValueOrDie() != n)) r.Violation("expectation", "of a status");
    if (!ok) {
      errors += 2;
      codes.push_back(std::string(name) + " " + text);
      codes.push_back(std::string(name) + " " + text);
    }
  }
};

struct Shape {
  int n;
};

void Matches(Report& r, Rng& rng) {
  using V = std::variant<int, std::string, Shape>;
  const int n = rng.Below(1000);
  const int kind = rng.Below(3);
  V v;
  if (kind == 0) v = n;
  if (kind == 1) v = Format("s%d", n);
  if (kind == 2) v = Shape{n};
  const V before = v;
  int calls = 0;
  auto want = Format("%d:%d", kind, n);
  auto got = fcp::Match(v, [&](int const& x) { ++calls; return Format("0:%d", x); },
                        [&](std::string const& x) { ++calls; return "1:" + x.substr(1); },
                        [&](Shape const& x) { ++calls; return Format("2:%d", x.n); });
  if (got != want || calls != 1) r.Violation("matched", want + " as " + got);
  got = fcp::Match(v, [&](int const& x) { return Format("0:%d", x); },
                   [&](fcp::Default, auto const& x) {
                     if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Shape>) return Format("2:%d", x.n);
                     else if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) return "1:" + x.substr(1);
                     else return std::string("wrong");
                   });
  if (got != want) r.Violation("matched-default", want + " as " + got);
  int which = fcp::Match(v, [](Shape const&) { return 2; }, [](fcp::Default, V const& all) { return static_cast<int>(all.index()); });
  if (which != kind) r.Violation("matched-default", Format("%d as %d", kind, which));
  which = fcp::Match(v, [](std::string const&) { return 1; }, [](fcp::Default) { return -1; });
  if (which != (kind == 1 ? 1 : -1)) r.Violation("matched-default", Format("%d as %d", kind, which));
  // To a type that is named, and through a pointer that allows changes.
  double d = fcp::Match<double>(v, [](int const& x) { return x; }, [](fcp::Default) { return 1; });
  if (d != (kind == 0 ? n : 1)) r.Violation("matched-type", Format("%f", d));
  fcp::MakeMatcher<V>([](int* x) { ++*x; }, [](std::string* x) { *x += "!"; }, [](Shape* x) { x->n++; }).Match(&v);
  bool changed = kind == 0 ? std::get<int>(v) == n + 1 : kind == 1 ? std::get<std::string>(v) == Format("s%d!", n) : std::get<Shape>(v).n == n + 1;
  if (!changed) r.Violation("matched-pointer", want);
  // Things that can only be moved.
  using M = std::variant<Thing, int>;
  M m = Thing(3000000 + n);
  if (rng.Chance(0.3)) m = n;
  bool thing = m.index() == 0;
  {
    int x = fcp::Match(std::move(m), [](Thing t) { return t.number; }, [](int t) { return t; });
    if (x != (thing ? 3000000 + n : n)) r.Violation("matched-moved", Format("%d", x));
    if (!Thing::alive.empty()) r.Violation("value-lost-or-kept", "after a match");
  }
  std::optional<int> o;
  if (rng.Chance(0.5)) o = n;
  int x = fcp::Match(o, [](int const& y) { return y; }, [](std::nullopt_t) { return -1; });
  if (x != (o ? n : -1)) r.Violation("matched-optional", Format("%d", x));
  fcp::MakeMatcher<std::optional<int>>([](int* y) { *y += 5; }, [](std::nullopt_t) {}).Match(&o);
  if (o && *o != n + 5) r.Violation("matched-optional", "pointer");
  x = fcp::Match(std::move(o), [](int y) { return y; }, [](std::nullopt_t) { return -1; });
  if (x != (o ? n + 5 : -1)) r.Violation("matched-optional", Format("moved %d", x));
  r.Count("matches", 9);
}

absl::Status Steps(const std::vector<absl::Status>& steps, int* evaluated, bool statusor) {
  for (size_t k = 0; k < steps.size(); ++k) {
    if (statusor && k % 2) {
      auto step = [&]() -> absl::StatusOr<int> {
        ++*evaluated;
        if (!steps[k].ok()) return steps[k];
        return 5;
      };
      FCP_RETURN_IF_ERROR(step());
    } else {
      auto step = [&] {
        ++*evaluated;
        return steps[k];
      };
      FCP_RETURN_IF_ERROR(step());
    }
  }
  return FCP_STATUS(fcp::OK);
}
absl::StatusOr<std::unique_ptr<int>> Assigned(const std::vector<absl::Status>& steps, int* evaluated) {
  std::unique_ptr<int> last = std::make_unique<int>(0);
  for (size_t k = 0; k < steps.size(); ++k) {
    auto step = [&]() -> absl::StatusOr<std::unique_ptr<int>> {
      ++*evaluated;
      if (!steps[k].ok()) return steps[k];
      return std::make_unique<int>(static_cast<int>(k) + 1);
    };
    if (k % 2) {
      FCP_ASSIGN_OR_RETURN(last, step());
    } else {
      FCP_ASSIGN_OR_RETURN(auto value, step());
      last = std::move(value);
    }
  }
  return last;
}

std::vector<std::pair<std::string, absl::Status>> FarStatuses(absl::StatusCode code, const std::string& text);

void Statuses(Report& r, Rng& rng) {
  int code = 1 + rng.Below(16);
  std::string text = rng.Chance(0.1) ? "" : Format("why %d", static_cast<int>(rng.Below(1000)));
  if (rng.Chance(0.3)) text += rng.Bytes(rng.Below(rng.Chance(0.1) ? 5000 : 12));
  int number = static_cast<int>(rng.U64());
  const int line = __LINE__ + 1;
  absl::Status s = FCP_STATUS(static_cast<absl::StatusCode>(code)) << text << " and " << number << 'c' << 1.5;
  std::string body = text + Format(" and %dc1.5", number);
  std::string message(s.message());
  if (static_cast<int>(s.code()) != code) r.Violation("status-code", s.ToString());
  if (message.find(body) == std::string::npos) r.Violation("status-text", message);
  if (message.find(Format("h_util.cc:%d", line)) == std::string::npos || message.find("/h_util.cc") != std::string::npos) {
    r.Violation("status-place", message);
  }
  absl::StatusOr<std::string> so = FCP_STATUS(static_cast<absl::StatusCode>(code)) << text << "!";
  if (so.ok() || static_cast<int>(so.status().code()) != code || so.status().message().find(text + "!") == std::string::npos) {
    r.Violation("status-or", so.status().ToString());
  }
  for (const auto& [where, made] : FarStatuses(static_cast<absl::StatusCode>(code), text)) {
    std::string m(made.message());
    if (static_cast<int>(made.code()) != code || m.find(where) == std::string::npos || m.find(text) == std::string::npos) {
      r.Violation("status-place", m + " instead of " + where);
    }
  }
  absl::Status fine = FCP_STATUS(fcp::OK);
  if (!fine.ok()) r.Violation("status-code", fine.ToString());
  // Steps up to the first that fails.
  std::vector<absl::Status> steps;
  int expect = 0;
  absl::Status want;
  for (int k = rng.Below(6); k > 0; --k) {
    absl::Status step;
    if (rng.Chance(0.2)) {
      step = absl::Status(static_cast<absl::StatusCode>(1 + rng.Below(16)), rng.Bytes(rng.Below(20)));
      if (rng.Chance(0.5)) step.SetPayload("kind", absl::Cord(rng.Bytes(5)));
    }
    steps.push_back(step);
    if (want.ok()) {
      ++expect;
      want = step;
    }
  }
  for (bool statusor : {false, true}) {
    int n = 0;
    absl::Status got = Steps(steps, &n, statusor);
    if (got != want || n != expect) r.Violation("returned-status", Format("%s instead of %s, %d steps instead of %d", got.ToString().c_str(), want.ToString().c_str(), n, expect));
  }
  int n = 0;
  auto got = Assigned(steps, &n);
  if (got.status() != want || n != expect || (got.ok() && **got != static_cast<int>(steps.size()))) {
    r.Violation("assigned-or-returned", got.status().ToString());
  }
  int evaluated = 0;
  FCP_CHECK([&] { return ++evaluated; }()) << "never";
  FCP_CHECK_STATUS([&] { ++evaluated; return absl::OkStatus(); }());
  if (evaluated != 2) r.Violation("check-evaluated", Format("%d", evaluated));
  bool other = false;
  if (rng.Chance(2)) FCP_CHECK(true);
  else other = true;
  if (other) r.Violation("check-evaluated", "else");
  r.Count("statuses");
  r.Distinct(Format("%d %d %zu", code, expect, steps.size()));
}

void Guards(Report& r, Rng& rng) {
  std::atomic<bool> in_use{false};
  std::atomic<int> inside{0}, entered{0}, refused{0};
  std::function<void(Rng&, int)> call = [&](Rng& rr, int depth) {
    fcp::ReentrancyGuard guard;
    absl::Status s = guard.Check(&in_use);
    if (!s.ok()) {
      if (s.code() != absl::StatusCode::kFailedPrecondition) r.Violation("guard-code", s.ToString());
      ++refused;
      return;
    }
    if (inside.fetch_add(1) != 0) r.Violation("guard-two-inside", "two calls are inside at once");
    ++entered;
    // Calls from within are refused, and do not let others in.
    for (int k = rr.Below(3); k > 0; --k) {
      int before = refused;
      if (depth < 3) call(rr, depth + 1);
      if (depth < 3 && refused == before) r.Violation("guard-nested", "a call from within is let in");
      std::this_thread::yield();
      if (!in_use) r.Violation("guard-opened", "a refused call lets others in");
    }
    inside.fetch_sub(1);
  };
  std::vector<std::thread> threads;
  for (int t = rng.Below(4); t >= 0; --t) {
    threads.emplace_back([&, seed = rng.U64()] {
      Rng rr(seed);
      for (int k = 0; k < 50; ++k) call(rr, 0);
    });
  }
  for (auto& t : threads) t.join();
  int before = entered;
  call(rng, 3);
  if (entered != before + 1 || in_use) r.Violation("guard-stuck", "no call is let in after all ended");
  r.Distinct(Format("%d %d", entered.load(), refused.load()));
  r.Count("guarded calls", entered);
  r.Count("guarded calls refused", refused);
}

void Values(Report& r) {
  const int64_t cases = r.N(2000, 20000);
  std::string dir = verif::FreshDir(r, "values");
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    r.Case(i);
    Uniques(r, rng);
    if (!Thing::alive.empty()) {
      r.Violation("value-kept", "values outlive their holders");
      Thing::alive.clear();
    }
    Lambdas(r, rng);
    Matches(r, rng);
    std::string file = dir + "/trace";
    Chain c{r, rng};
    {
      fcp::TextTracingRecorder log(file, absl::UTCTimeZone());
      fcp::ScopedTracingRecorder recorder(&log);
      c.Run();
      c.Expectations();
    }
    std::ifstream in(file);
    std::string line;
    size_t expectation = 0, code = 0;
    int errors = 0;
    while (std::getline(in, line)) {
      if (line.find(" ERROR ") == std::string::npos) continue;
      ++errors;
      if (line.find("ResultExpectStatusError") != std::string::npos) {
        if (code < c.codes.size()) {
          size_t sp = c.codes[code].find(' ');
          if (line.find("actual_code: " + c.codes[code].substr(0, sp) + ",") == std::string::npos ||
              line.find(c.codes[code].substr(sp + 1)) == std::string::npos) {
            r.Violation("traced-status", c.codes[code] + " in " + line);
          }
        }
        ++code;
      } else if (line.find("ResultExpectError") != std::string::npos) {
        if (expectation < c.expectations.size()) {
          std::string e = c.expectations[expectation];
          size_t sp = e.find(' ');
          if (line.find("\"" + e.substr(0, sp)) == std::string::npos ||
              (sp != std::string::npos && (line.find("line: " + e.substr(sp + 1)) == std::string::npos ||
                                           line.find("h_util.cc") == std::string::npos))) {
            r.Violation("traced-expectation", e + " in " + line);
          }
        }
        ++expectation;
      }
    }
    if (errors != c.errors) r.Violation("traced-errors", Format("%d instead of %d", errors, c.errors));
    r.Count("errors traced", errors);
    if (i % 100 == 0) {
      if (!Dies([&] { Result<int> e = SomeError(); (void)e.GetValueOrDie(); })) r.Violation("value-of-error", "");
      if (!Dies([&] { Result<int> e = 5; (void)e.GetErrorOrDie(); })) r.Violation("error-of-value", "");
      r.Count("processes stopped", 2);
    }
    if (Thing::wrong) r.Violation("value-destroyed-twice", "");
    r.Eval();
    r.Distinct(Format("%d %d", c.calls, c.errors));
  }
}

void StatusCases(Report& r) {
  const int64_t cases = r.N(20000, 200000);
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    r.Case(i);
    Statuses(r, rng);
    r.Eval();
    if (i % 1000 == 0) {
      // What stops the process, and what does not.
      if (!Dies([&] { FCP_CHECK(rng.Chance(-1)) << "planned"; })) r.Violation("check-false", "");
      if (Dies([&] { FCP_CHECK(rng.Chance(2)) << "planned"; })) r.Violation("check-true", "");
      if (!Dies([&] { FCP_CHECK_STATUS(absl::Status(static_cast<absl::StatusCode>(1 + rng.Below(16)), "planned")); })) {
        r.Violation("check-status", "a status that is not OK");
      }
      if (Dies([&] { FCP_CHECK_STATUS(absl::OkStatus()); })) r.Violation("check-status", "a status that is OK");
      if (!Dies([&] { FCP_LOG(FATAL) << "planned"; })) r.Violation("log-fatal", "");
      if (Dies([&] { FCP_LOG(ERROR) << "planned"; })) r.Violation("log-error", "");
      r.Count("processes stopped", 3);
    }
  }
}

void GuardCases(Report& r) {
  const int64_t cases = r.N(1500, 15000);
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    r.Case(i);
    Guards(r, rng);
    r.Eval();
  }
}

// ---- casts and bounds ---------------------------------------------------------------

using Wide = __int128;
template <typename T>
struct Tag {
  using type = T;
};
template <typename Fn>
void EachType(Fn fn) {
  fn(Tag<int8_t>());
  fn(Tag<uint8_t>());
  fn(Tag<int16_t>());
  fn(Tag<uint16_t>());
  fn(Tag<int32_t>());
  fn(Tag<uint32_t>());
  fn(Tag<int64_t>());
  fn(Tag<uint64_t>());
}

void Bounds(Report& r) {
  std::vector<Wide> edges;
  EachType([&](auto t) {
    using T = typename decltype(t)::type;
    for (Wide d = -2; d <= 2; ++d) {
      edges.push_back(static_cast<Wide>(std::numeric_limits<T>::min()) + d);
      edges.push_back(static_cast<Wide>(std::numeric_limits<T>::max()) + d);
    }
  });
  const int64_t cases = r.N(400, 4000);
  for (int64_t i = 0; i < cases; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    r.Case(i);
    EachType([&](auto from) {
      EachType([&](auto to) {
        using From = typename decltype(from)::type;
        using To = typename decltype(to)::type;
        auto one = [&](From x) {
          To got = 77;
          bool ok = fcp::TryCastInteger<To, From>(x, &got);
          bool fits = static_cast<Wide>(x) >= static_cast<Wide>(std::numeric_limits<To>::min()) &&
                      static_cast<Wide>(x) <= static_cast<Wide>(std::numeric_limits<To>::max());
          r.Count(fits ? "casts that fit" : "casts that do not fit");
          if (ok != fits || (fits ? static_cast<Wide>(got) != static_cast<Wide>(x) : got != 77)) {
            r.Violation("cast", Format("%lld from %zu to %zu bytes", (long long)x, sizeof(From), sizeof(To)));
          }
          if (fits && static_cast<Wide>(fcp::CastIntegerChecked<To, From>(x)) != static_cast<Wide>(x)) {
            r.Violation("cast", Format("checked, %lld", (long long)x));
          }
        };
        if (i < 8) {
          for (Wide e : edges) {
            if (e >= static_cast<Wide>(std::numeric_limits<From>::min()) && e <= static_cast<Wide>(std::numeric_limits<From>::max())) one(static_cast<From>(e));
          }
        }
        one(static_cast<From>(rng.U64()));
        one(static_cast<From>(static_cast<int64_t>(rng.U64()) >> rng.Below(64)));
      });
    });
    r.Eval(128);
    // Spans inside an embedded space of addresses.
    for (int k = 0; k < 300; ++k) {
      uint64_t start = rng.Chance(0.5) ? rng.U64() >> rng.Below(64) : 4096 * rng.Below(100000);
      uint64_t size = rng.U64() >> rng.Below(64);
      if (rng.Chance(0.2)) size = rng.Below(3);
      unsigned __int128 end = static_cast<unsigned __int128>(start) + size;
      if (end >> 64) size = ~start;
      fcp::AddressSpace space = rng.Chance(0.1) ? fcp::AddressSpace::Current() : fcp::AddressSpace::Embedded(reinterpret_cast<void*>(start), size);
      if (space.start == nullptr && space.size == ~uint64_t{0}) {
        start = 0;
        size = ~uint64_t{0};
      }
      if (reinterpret_cast<uint64_t>(space.start) != start || space.size != size) r.Violation("space", Format("%llx %llx", (long long)start, (long long)size));
      uint32_t count = static_cast<uint32_t>(rng.U64() >> rng.Range(32, 64 - 1)), each = static_cast<uint32_t>(rng.U64() >> rng.Range(32, 63));
      if (rng.Chance(0.2)) each = rng.Pick(std::vector<uint32_t>{0, 1, 2, 8, 0x80000000u, 0xffffffffu});
      if (rng.Chance(0.2)) count = rng.Pick(std::vector<uint32_t>{0, 1, 2, 0x10000, 0x80000000u, 0xffffffffu});
      unsigned __int128 total = static_cast<unsigned __int128>(each) * count;
      uint64_t at = rng.U64() >> rng.Below(64);
      // Near the end of the space, or of all addresses.
      if (rng.Chance(0.4)) at = static_cast<uint64_t>(static_cast<Wide>(size) - static_cast<Wide>(total) + rng.Range(-2, 2));
      else if (rng.Chance(0.2)) at = static_cast<uint64_t>(-static_cast<int64_t>(rng.Below(3)));
      else if (rng.Chance(0.2)) at = static_cast<uint64_t>(0 - total + rng.Range(-2, 2));
      bool inside = static_cast<unsigned __int128>(at) + total <= size;
      void* got = fcp::MapOutOfAddressSpace(space, fcp::ForeignPointer{at}, each, count);
      r.Eval();
      r.Count(inside ? "spans inside" : "spans outside");
      if (fcp::SafeMultiply(each, count) != static_cast<uint64_t>(total)) r.Violation("product", Format("%u * %u", each, count));
      uint64_t want = inside ? start + at : 0;
      if (reinterpret_cast<uint64_t>(got) != want) {
        r.Violation("span", Format("start %llx size %llx at %llx for %u * %u gives %p", (long long)start, (long long)size, (long long)at, each, count, got));
      }
      r.Distinct(Format("%d %d", inside, 64 - (size ? __builtin_clzll(size) : 64)));
    }
    if (i % 40 == 0) {
      // What stops the process, and what does not.
      uint64_t start = (rng.U64() | (uint64_t{1} << 63)), over = ~start + 1 + rng.Below(3);
      if (!Dies([&] { fcp::AddressSpace::Embedded(reinterpret_cast<void*>(start), over); })) r.Violation("space-wraps", Format("%llx %llx", (long long)start, (long long)over));
      if (Dies([&] { fcp::AddressSpace::Embedded(reinterpret_cast<void*>(start), ~start); })) r.Violation("space-refused", Format("%llx", (long long)start));
      int64_t below = -1 - static_cast<int64_t>(rng.Below(100));
      if (!Dies([&] { (void)fcp::CastIntegerChecked<uint32_t, int64_t>(below); })) r.Violation("checked-cast", Format("%lld", (long long)below));
      if (!Dies([&] { (void)fcp::CastIntegerChecked<int8_t, uint64_t>(128 + rng.Below(1000)); })) r.Violation("checked-cast", "to 8 bits");
      r.Count("processes stopped", 3);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report report(argc, argv);
  if (report.mode == "dictionary") {
    Dictionaries(report);
  } else if (report.mode == "tokens") {
    Tokens(report);
  } else if (report.mode == "values") {
    Values(report);
  } else if (report.mode == "statuses") {
    StatusCases(report);
  } else if (report.mode == "guards") {
    GuardCases(report);
  } else if (report.mode == "bounds") {
    Bounds(report);
  } else {
    Report::Broken("unknown mode");
  }
  return report.Finish();
}

// Statuses made at lines and in files of other names; at the end because of what follows it.
namespace {
std::vector<std::pair<std::string, absl::Status>> FarStatuses(absl::StatusCode code, const std::string& text) {
  std::vector<std::pair<std::string, absl::Status>> all;
#line 1 "short.h"
  all.emplace_back("short.h:1", FCP_STATUS(code) << text);
#line 1024 "some/dir/other_file.cc"
  all.emplace_back("other_file.cc:1024", FCP_STATUS(code) << text);
#line 70001 "/abs/dir.d/third.cc"
  all.emplace_back("third.cc:70001", FCP_STATUS(code) << text);
  return all;
}
}  // namespace
