// The base library: compression, conversion of times, stopwatches, files.
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
#include <zlib.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <sstream>
#include <thread>

#include "absl/strings/cord.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "common.h"
#include "fcp/base/compression.h"
#include "fcp/base/digest.h"
#include "fcp/base/platform.h"
#include "fcp/base/time_util.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/cache/temp_files.h"
#include "fcp/client/log_manager.h"

namespace {
using verif::Format;
using verif::Hex;
using verif::Report;
using verif::Rng;
namespace fs = std::filesystem;

// ---- compression ---------------------------------------------------------------

std::string Content(Rng& rng) {
  static const std::vector<size_t> kEdges = {0,     1,     2,     255,   256,   257,   4095,  4096,
                                             4097,  32767, 32768, 32769, 65535, 65536, 65537, 131071,
                                             131072, 131073, 262144, 196608};
  size_t n = rng.Chance(0.4) ? rng.Pick(kEdges) : rng.Below(rng.Chance(0.8) ? 3000 : 300000);
  switch (rng.Below(5)) {
    case 0:
      return rng.Bytes(n);
    case 1:
      return std::string(n, static_cast<char>(rng.U64()));
    case 2: {
      std::string s;
      std::string w = rng.Bytes(rng.Range(1, 40));
      while (s.size() < n) {
        s += w;
        if (rng.Chance(0.2)) s += static_cast<char>(rng.U64());
      }
      s.resize(n);
      return s;
    }
    case 3: {
      std::string s = rng.Bytes(n / 2);
      s.resize(n);
      return s;
    }
    default: {
      std::string s(n, 'a');
      for (auto& c : s) c = "abcdefgh \n"[rng.Below(10)];
      return s;
    }
  }
}

// zlib itself, as the reference. Returns true if `in` is one complete gzip member.
bool Inflate(const std::string& in, std::string* out, size_t* used) {
  z_stream z = {};
  if (inflateInit2(&z, 15 + 16) != Z_OK) Report::Broken("inflateInit2");
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  char buf[65536];
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf);
    z.avail_out = sizeof buf;
    rc = inflate(&z, Z_NO_FLUSH);
    if (rc == Z_OK || rc == Z_STREAM_END) out->append(buf, sizeof buf - z.avail_out);
  } while (rc == Z_OK && (z.avail_in > 0 || z.avail_out == 0));
  *used = in.size() - z.avail_in;
  inflateEnd(&z);
  return rc == Z_STREAM_END;
}

// Reference for a whole input: any number of complete members. 1 fine, 0 not.
bool ReferenceGunzip(const std::string& in, std::string* out) {
  size_t at = 0;
  while (at < in.size()) {
    size_t used = 0;
    if (!Inflate(in.substr(at), out, &used)) return false;
    at += used;
  }
  return true;
}

std::string Deflate(Rng& rng, const std::string& data) {
  z_stream z = {};
  int level = rng.Range(0, 9);
  int strategy = rng.Pick(std::vector<int>{Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED});
  if (deflateInit2(&z, level, Z_DEFLATED, rng.Range(9, 15) + 16, rng.Range(1, 9), strategy) != Z_OK)
    Report::Broken("deflateInit2");
  gz_header h = {};
  char name[] = "some name";
  char extra[] = "extra field";
  if (rng.Chance(0.3)) {
    h.name = reinterpret_cast<Bytef*>(name);
    h.extra = reinterpret_cast<Bytef*>(extra);
    h.extra_len = rng.Below(11);
    h.hcrc = rng.Chance(0.5);
    h.time = rng.U64() & 0x7fffffff;
    deflateSetHeader(&z, &h);
  }
  std::string out(deflateBound(&z, data.size()) + 200, '\0');
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(data.data()));
  z.avail_in = data.size();
  z.next_out = reinterpret_cast<Bytef*>(out.data());
  z.avail_out = out.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) Report::Broken("deflate");
  out.resize(out.size() - z.avail_out);
  deflateEnd(&z);
  return out;
}

// Contents far beyond any buffer.
void CompressLarge(Report& r) {
  for (int64_t i = 0; i < r.N(6, 24); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, (1ll << 41) + i);
    size_t n = i % 6 == 0 ? 17000000 + rng.Below(1000) : 2000000 + rng.Below(8000000);
    std::string data = i % 3 == 1 ? std::string() : rng.Bytes(n);
    while (data.size() < n) {
      data += "some text that repeats ";
      data += std::to_string(rng.U64());
    }
    r.Case(i, Format("large, size %zu", data.size()));
    auto c = fcp::CompressWithGzip(data);
    r.Eval();
    std::string ref;
    size_t used = 0;
    if (!c.ok() || !Inflate(*c, &ref, &used) || used != c->size() || ref != data) {
      r.Violation("compressed-wrong", Format("size %zu became %zu", data.size(), ref.size()));
      continue;
    }
    auto u = fcp::UncompressWithGzip(*c);
    if (!u.ok() || std::string(*u) != data) {
      r.Violation("round-trip", Format("size %zu: %s %zu", data.size(), u.status().ToString().c_str(),
                                       u.ok() ? u->size() : 0));
    }
    std::string cut = c->substr(0, c->size() - 1 - rng.Below(c->size() / 2));
    if (fcp::UncompressWithGzip(cut).ok()) r.Violation("cut-file-accepted", Format("%zu of %zu", cut.size(), c->size()));
    std::string bad = *c;
    bad[bad.size() - 1 - rng.Below(8)] ^= 1 << rng.Below(8);
    if (fcp::UncompressWithGzip(bad).ok()) r.Violation("bad-file-accepted", "trailer of a large file");
    r.Eval(3);
    r.Count("large contents");
  }
}

void Compress(Report& r) {
  CompressLarge(r);
  int64_t n = r.N(4000, 60000);
  for (int64_t i = 0; i < n; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    std::string data = Content(rng);
    r.Case(i, Format("size %zu", data.size()));
    auto c = fcp::CompressWithGzip(data);
    r.Eval();
    if (!c.ok()) {
      r.Violation("compress-failed", Format("size %zu: %s", data.size(), c.status().ToString().c_str()));
      continue;
    }
    std::string ref;
    size_t used = 0;
    if (!Inflate(*c, &ref, &used) || used != c->size()) {
      r.Violation("not-a-gzip-file", Format("size %zu compressed %zu used %zu", data.size(), c->size(), used));
      continue;
    }
    if (ref != data) {
      r.Violation("compressed-wrong", Format("size %zu became %zu", data.size(), ref.size()));
      continue;
    }
    auto u = fcp::UncompressWithGzip(*c);
    if (!u.ok() || std::string(*u) != data) {
      r.Violation("round-trip", Format("size %zu: %s %zu", data.size(),
                                       u.status().ToString().c_str(), u.ok() ? u->size() : 0));
      continue;
    }
    r.Count("round trips");
    r.Distinct(verif::Hash(data));
    if (r.WantsSample()) r.Sample(Format("%zu bytes -> %zu bytes -> same", data.size(), c->size()));

    // Files written by others, damaged files, and files cut short: judged by zlib itself.
    int tries = 12;
    for (int t = 0; t < tries; ++t) {
      std::string in = rng.Chance(0.5) && data.size() < 100000 ? Deflate(rng, data) : *c;
      const char* kind = "foreign";
      switch (rng.Below(7)) {
        case 0:
          break;
        case 1:
          in.resize(rng.Below(in.size()));
          if (in.empty()) continue;
          kind = "cut short";
          break;
        case 2:
          in.resize(in.size() - 1 - rng.Below(std::min<size_t>(in.size() - 1, 12)));
          kind = "trailer cut";
          break;
        case 3:
          in[rng.Below(in.size())] ^= 1 << rng.Below(8);
          kind = "bit flipped";
          break;
        case 4:
          in[in.size() - 1 - rng.Below(std::min<size_t>(in.size(), 8))] ^= 1 << rng.Below(8);
          kind = "trailer flipped";
          break;
        case 5: {
          std::string more = Content(rng).substr(0, 2000);
          in += Deflate(rng, more);
          kind = "two members";
          if (rng.Chance(0.3)) {
            in.resize(in.size() - 1 - rng.Below(10));
            kind = "second member cut";
          }
          break;
        }
        default:
          in += rng.Bytes(rng.Range(1, 20));
          kind = "garbage appended";
          break;
      }
      r.Case(i, Format("%s size %zu", kind, in.size()));
      std::string want;
      bool good = ReferenceGunzip(in, &want);
      auto got = fcp::UncompressWithGzip(in);
      r.Eval();
      r.Count(kind);
      if (good != got.ok()) {
        r.Violation(good ? "good-file-refused" : std::string(kind) == "cut short" ? "cut-file-accepted" : "bad-file-accepted",
                    Format("%s: %zu bytes of compressed %zu: zlib says %d, got %s (%zu bytes)", kind,
                           in.size(), data.size(), good, got.status().ToString().c_str(),
                           got.ok() ? got->size() : 0));
      } else if (good && std::string(*got) != want) {
        r.Violation("wrong-content", Format("%s: %zu bytes instead of %zu", kind, got->size(), want.size()));
      }
    }
    // Arbitrary bytes.
    std::string junk = rng.Bytes(rng.Range(1, 60));
    if (rng.Chance(0.5)) junk = std::string("\x1f\x8b\x08\x00", 4) + junk;
    std::string want;
    bool good = ReferenceGunzip(junk, &want);
    auto got = fcp::UncompressWithGzip(junk);
    r.Eval();
    if (good != got.ok()) r.Violation("junk-accepted", Hex(junk));
  }
}

// ---- times -----------------------------------------------------------------------

void Time(Report& r) {
  // The range of timestamps the message type is defined for.
  const int64_t kMin = -62135596800, kMax = 253402300799;
  const int64_t kDur = 315576000000;
  int64_t n = r.N(400000, 8000000);
  auto secs = [&](Rng& rng, int64_t lo, int64_t hi) -> int64_t {
    switch (rng.Below(6)) {
      case 0:
        return rng.Range(-3, 3);
      case 1:
        return rng.Chance(0.5) ? lo + rng.Below(3) : hi - rng.Below(3);
      case 2: {
        int64_t v = 1ll << rng.Range(0, 38);
        v = rng.Chance(0.5) ? v : -v;
        v += rng.Range(-1, 1);
        return std::min(std::max(v, lo), hi);
      }
      default:
        return rng.Range(lo, hi);
    }
  };
  auto nanos = [&](Rng& rng) -> int32_t {
    switch (rng.Below(5)) {
      case 0:
        return 0;
      case 1:
        return 999999999 - rng.Below(2);
      case 2:
        return 1;
      case 3:
        return rng.Range(0, 999) * 1000000;
      default:
        return rng.Below(1000000000);
    }
  };
  for (int64_t i = 0; i < n; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    int64_t s = secs(rng, kMin, kMax);
    int32_t ns = nanos(rng);
    r.Case(i, Format("%lld.%09d", (long long)s, ns));
    // A time, built without the code under test.
    absl::Time t = absl::FromUnixSeconds(s) + absl::Nanoseconds(ns);
    auto p = fcp::TimeUtil::ConvertAbslToProtoTimestamp(t);
    r.Eval();
    if (p.seconds() != s || p.nanos() != ns) {
      r.Violation("time-to-message", Format("%lld s %d ns became %lld s %d ns", (long long)s, ns,
                                            (long long)p.seconds(), p.nanos()));
    }
    google::protobuf::Timestamp q;
    q.set_seconds(s);
    q.set_nanos(ns);
    absl::Time b = fcp::TimeUtil::ConvertProtoToAbslTime(q);
    if (b != t) {
      r.Violation("message-to-time", Format("%lld s %d ns is off by %s", (long long)s, ns,
                                            absl::FormatDuration(b - t).c_str()));
    }
    // A duration; both parts have the same sign.
    int64_t ds = secs(rng, -kDur, kDur);
    int32_t dn = nanos(rng);
    if (ds < 0 || (ds == 0 && rng.Chance(0.5))) dn = -dn;
    absl::Duration d = absl::Seconds(ds) + absl::Nanoseconds(dn);
    auto dp = fcp::TimeUtil::ConvertAbslToProtoDuration(d);
    r.Eval();
    if (dp.seconds() != ds || dp.nanos() != dn) {
      r.Violation("duration-to-message", Format("%lld s %d ns became %lld s %d ns", (long long)ds, dn,
                                                (long long)dp.seconds(), dp.nanos()));
    }
    google::protobuf::Duration dq;
    dq.set_seconds(ds);
    dq.set_nanos(dn);
    if (fcp::TimeUtil::ConvertProtoToAbslDuration(dq) != d) {
      r.Violation("message-to-duration", Format("%lld s %d ns", (long long)ds, dn));
    }
    // Times finer than a nanosecond still give a valid message not in the future.
    absl::Time fine = t + absl::Nanoseconds(1) / 4 * rng.Range(0, 3);
    auto fp = fcp::TimeUtil::ConvertAbslToProtoTimestamp(fine);
    if (fp.seconds() != s || fp.nanos() != ns) {
      r.Violation("fine-time", Format("%lld s %d ns and a bit became %lld s %d ns", (long long)s, ns,
                                      (long long)fp.seconds(), fp.nanos()));
    }
    r.Distinct(verif::Mix(s) ^ ns);
    if (s < 0) r.Count("times before the epoch");
    if (ds < 0 || dn < 0) r.Count("negative durations");
    if (r.WantsSample()) r.Sample(absl::FormatTime(t, absl::UTCTimeZone()) + " <-> " + p.ShortDebugString());
  }
  auto inf = fcp::TimeUtil::ConvertAbslToProtoDuration(absl::InfiniteDuration());
  auto ninf = fcp::TimeUtil::ConvertAbslToProtoDuration(-absl::InfiniteDuration());
  r.Eval(2);
  if (inf.seconds() != std::numeric_limits<int64_t>::max() || inf.nanos() != 999999999)
    r.Violation("infinite-duration", inf.ShortDebugString());
  if (ninf.seconds() != std::numeric_limits<int64_t>::min() || ninf.nanos() != -999999999)
    r.Violation("negative-infinite-duration", ninf.ShortDebugString());
}

// ---- stopwatch ----------------------------------------------------------------------

struct Interval {
  absl::Time lo, hi;
};
absl::Duration Union(std::vector<Interval> v) {
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.lo < b.lo; });
  absl::Duration sum;
  absl::Time end = absl::InfinitePast();
  for (auto& x : v) {
    if (x.hi <= x.lo) continue;
    absl::Time lo = std::max(x.lo, end);
    if (x.hi > lo) sum += x.hi - lo;
    end = std::max(end, x.hi);
  }
  return sum;
}

void Spin(Rng& rng) {
  switch (rng.Below(4)) {
    case 0:
      return;
    case 1:
      std::this_thread::yield();
      return;
    default: {
      absl::Time end = absl::Now() + absl::Microseconds(rng.Below(60));
      while (absl::Now() < end) {
      }
    }
  }
}

void Stopwatch(Report& r) {
  int64_t n = r.N(3000, 40000);
  for (int64_t i = 0; i < n; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    int threads = static_cast<int>(rng.Range(1, 4));
    r.Case(i, Format("%d threads", threads));
    bool real = !rng.Chance(0.05);
    auto w = real ? fcp::WallClockStopwatch::Create() : fcp::WallClockStopwatch::CreateNoop();
    absl::Duration before = w->GetTotalDuration();
    if (before != absl::ZeroDuration()) r.Violation("not-zero-at-first", absl::FormatDuration(before));
    // Every use is noted from the outside (longer than what is measured) and
    // from the inside (shorter); the measured total lies between the unions.
    std::vector<std::vector<Interval>> outer(threads), inner(threads);
    std::atomic<bool> backwards{false};
    auto body = [&](int t) {
      Rng g(r.seed, verif::Mix(i) + t);
      absl::Duration last;
      int uses = static_cast<int>(g.Range(1, 6));
      for (int u = 0; u < uses; ++u) {
        int depth = static_cast<int>(g.Range(1, 3));
        Interval o, in;
        o.lo = absl::Now();
        {
          auto h1 = w->Start();
          in.lo = absl::Now();
          Spin(g);
          auto look = [&] {
            absl::Duration d = w->GetTotalDuration();
            if (d < last) backwards = true;
            last = d;
          };
          if (depth > 1) {
            auto h2 = w->Start();
            Spin(g);
            look();
            if (depth > 2) {
              auto h3 = w->Start();
              Spin(g);
            }
            look();
          }
          Spin(g);
          look();
          in.hi = absl::Now();
        }
        o.hi = absl::Now();
        outer[t].push_back(o);
        inner[t].push_back(in);
        Spin(g);
      }
    };
    if (threads == 1) {
      body(0);
    } else {
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t) ts.emplace_back(body, t);
      for (auto& t : ts) t.join();
    }
    absl::Duration total = w->GetTotalDuration() - before;
    absl::Time t0 = absl::Now();
    while (absl::Now() - t0 < absl::Microseconds(20)) {
    }
    absl::Duration again = w->GetTotalDuration() - before;
    std::vector<Interval> o, in;
    for (int t = 0; t < threads; ++t) {
      o.insert(o.end(), outer[t].begin(), outer[t].end());
      in.insert(in.end(), inner[t].begin(), inner[t].end());
    }
    absl::Duration hi = Union(o), lo = Union(in);
    r.Eval();
    if (!real) {
      r.Count("inactive stopwatches");
      if (total != absl::ZeroDuration()) r.Violation("inactive-measured", absl::FormatDuration(total));
      continue;
    }
    if (total < lo) {
      r.Violation("measured-too-little", Format("%d threads: %s, at least %s ran", threads,
                                                absl::FormatDuration(total).c_str(),
                                                absl::FormatDuration(lo).c_str()));
    }
    if (total > hi) {
      r.Violation("measured-too-much", Format("%d threads: %s, at most %s ran", threads,
                                              absl::FormatDuration(total).c_str(),
                                              absl::FormatDuration(hi).c_str()));
    }
    if (again != total) r.Violation("runs-while-stopped", absl::FormatDuration(again - total));
    if (backwards) r.Violation("went-backwards", "");
    if (threads > 1) r.Count("overlapping uses");
    r.Distinct(verif::Mix(i));
    if (r.WantsSample()) {
      r.Sample(Format("%d threads, %zu uses: %s <= %s <= %s", threads, o.size(),
                      absl::FormatDuration(lo).c_str(), absl::FormatDuration(total).c_str(),
                      absl::FormatDuration(hi).c_str()));
    }
  }
}

// ---- files -----------------------------------------------------------------------------

class Logs : public fcp::client::LogManager {
 public:
  int failed_to_delete = 0;
  void LogDiag(fcp::client::ProdDiagCode c) override {
    if (c == fcp::client::ProdDiagCode::TEMP_FILES_NATIVE_FAILED_TO_DELETE) ++failed_to_delete;
  }
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int,
                          fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

std::string Slurp(const std::string& p) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return "<absent>";
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k);
  close(fd);
  return s;
}
void Spit(const std::string& p, const std::string& s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) Report::Broken("cannot write " + p);
  close(fd);
}

absl::Cord Chunked(Rng& rng, const std::string& s) {
  absl::Cord c;
  size_t at = 0;
  while (at < s.size()) {
    size_t n = std::min<size_t>(s.size() - at, rng.Range(1, s.size() > 5000 ? 20000 : 300));
    std::string* piece = new std::string(s.substr(at, n));
    c.Append(absl::MakeCordFromExternal(*piece, [piece] { delete piece; }));
    at += n;
  }
  return c;
}

std::map<std::string, std::string> Tree(const std::string& root) {
  std::map<std::string, std::string> m;
  for (auto& e : fs::recursive_directory_iterator(root)) {
    std::string rel = fs::relative(e.path(), root).string();
    if (e.is_symlink()) m[rel] = "-> " + fs::read_symlink(e.path()).string();
    else if (e.is_directory()) m[rel] = "<dir>";
    else if (!e.is_regular_file()) m[rel] = "<other>";
    else m[rel] = Slurp(e.path().string());
  }
  return m;
}

void Files(Report& r) {
  std::string root = verif::FreshDir(r, "files");
  verif::BecomeNobody(r, {r.scratch, root});
  signal(SIGXFSZ, SIG_IGN);
  int64_t n = r.N(4000, 60000);
  for (int64_t i = 0; i < n; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i);
    std::string path = root + "/f" + std::to_string(rng.Below(5));
    std::string data = Content(rng);
    bool cord = rng.Chance(0.5);
    r.Case(i, Format("%zu bytes", data.size()));
    auto write = [&](const std::string& to) {
      return cord ? fcp::WriteCordToFile(to, Chunked(rng, data)) : fcp::WriteStringToFile(to, data);
    };
    auto s = write(path);
    r.Eval();
    std::string on_disk = Slurp(path);
    if (!s.ok()) r.Violation("write-failed", s.ToString());
    else if (on_disk != data)
      r.Violation("written-wrong", Format("%zu bytes on disk instead of %zu", on_disk.size(), data.size()));
    if (!fcp::FileExists(path)) r.Violation("exists", path);
    if (fcp::FileExists(path + ".no")) r.Violation("exists-not", path);
    if (!fcp::FileExists(root)) r.Violation("exists", "a directory");
    if (i % 50 == 0) {
      std::string link = root + "/l" + std::to_string(i);
      if (symlink(path.c_str(), link.c_str()) != 0) Report::Broken("symlink");
      if (!fcp::FileExists(link)) r.Violation("exists", "a link to a file");
      unlink(link.c_str());
      if (symlink((path + ".no").c_str(), link.c_str()) != 0) Report::Broken("symlink");
      if (fcp::FileExists(link)) r.Violation("exists-not", "a link to nothing");
      unlink(link.c_str());
    }
    if (fcp::FileExists(path + "/below") || fcp::FileExists("")) r.Violation("exists-not", "below a file, or no name");
    // Joining and stripping paths.
    {
      std::string one = rng.Pick(std::vector<std::string>{"", "a", "/", "/a", "a/b", "/a/b.c", "a b", "."});
      std::string two = rng.Pick(std::vector<std::string>{"", "x", "x/y", "x.y", ".x", "x y"});
      std::string want = one.empty() ? two : one + "/" + two;
      if (fcp::ConcatPath(one, two) != want) r.Violation("paths-joined-wrong", one + " and " + two + " gave " + fcp::ConcatPath(one, two));
      std::string tail = one + two + std::string(rng.Below(3), '/');
      std::string less = !tail.empty() && tail.back() == '/' ? tail.substr(0, tail.size() - 1) : tail;
      if (fcp::StripTrailingPathSeparator(tail) != less) r.Violation("path-stripped-wrong", tail);
      r.Eval(2);
      r.Count("paths joined");
    }
    auto rs = fcp::ReadFileToString(path);
    auto rc = fcp::ReadFileToCord(path);
    r.Eval(2);
    if (!rs.ok() || *rs != on_disk) r.Violation("read-wrong", rs.status().ToString());
    if (!rc.ok() || std::string(*rc) != on_disk) r.Violation("read-cord-wrong", rc.status().ToString());
    r.Count("files written and read");
    r.Distinct(verif::Hash(data, cord));

    // Writes and reads that cannot succeed.
    if (!data.empty()) {
      auto full = write("/dev/full");
      r.Eval();
      r.Count("writes to a full device");
      if (full.ok()) r.Violation("failed-write-reported-ok", Format("%zu bytes, cord %d, no space", data.size(), cord));
      if (data.size() > 1) {
        // The file may only grow to a part of the content.
        struct rlimit old, cut;
        getrlimit(RLIMIT_FSIZE, &old);
        cut = old;
        cut.rlim_cur = rng.Below(data.size());
        setrlimit(RLIMIT_FSIZE, &cut);
        auto part = write(path);
        setrlimit(RLIMIT_FSIZE, &old);
        r.Eval();
        r.Count("writes cut short");
        if (part.ok())
          r.Violation("cut-write-reported-ok", Format("%zu of %zu bytes", (size_t)cut.rlim_cur, data.size()));
      }
    }
    auto nd = write(root + "/no/such/dir");
    r.Eval();
    if (nd.ok()) r.Violation("write-into-nothing", "");
    if (write(root).ok()) r.Violation("write-onto-directory", "");
    if (fcp::ReadFileToString(root + "/absent").ok()) r.Violation("read-absent", "");
    if (fcp::ReadFileToCord(root + "/absent").ok()) r.Violation("read-absent", "cord");
    if (fcp::ReadFileToString(root).ok()) r.Violation("failed-read-reported-ok", "reading a directory");
    if (fcp::ReadFileToCord(root).ok()) r.Violation("failed-read-reported-ok", "reading a directory as cord");
    std::string locked = root + "/locked";
    Spit(locked, "x");
    chmod(locked.c_str(), 0);
    if (fcp::ReadFileToString(locked).ok()) r.Violation("failed-read-reported-ok", "unreadable");
    if (write(locked).ok()) r.Violation("failed-write-reported-ok", "read-only");
    chmod(locked.c_str(), 0644);
    r.Eval(8);

    // Digests agree however the data is cut.
    if (fcp::ComputeSHA256(data) != fcp::ComputeSHA256(Chunked(rng, data))) r.Violation("digest", "");
  }

  // Temporary files.
  n = r.N(1500, 20000);
  for (int64_t i = 0; i < n; ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, i + (1ll << 40));
    std::string cache = root + "/c" + std::to_string(i);
    r.Case(i, "temporary files");
    fs::create_directories(cache + "/fcp/tmp");
    fs::create_directories(cache + "/fcp/other");
    fs::create_directories(cache + "/elsewhere");
    // What belongs to others.
    Spit(cache + "/mine", "keep");
    Spit(cache + "/fcp/mine", "keep");
    Spit(cache + "/fcp/other/x", "keep");
    Spit(cache + "/elsewhere/y", "keep");
    auto kept = Tree(cache);
    // What an earlier process left behind.
    int left = static_cast<int>(rng.Below(4));
    for (int k = 0; k < left; ++k) Spit(cache + "/fcp/tmp/left" + std::to_string(k), "old");
    if (rng.Chance(0.3)) {
      fs::create_symlink(cache + "/elsewhere/y", cache + "/fcp/tmp/link");
      fs::create_directory_symlink(cache + "/elsewhere", cache + "/fcp/tmp/dirlink");
      r.Count("links left behind");
    }
    if (rng.Chance(0.1)) fs::create_directory(cache + "/fcp/tmp/emptydir");
    if (rng.Chance(0.2)) {
      for (const char* name : {".hidden", "..two", "a b", "-", "x~", "\n", "#x#", "x.lock", "\xff\xfe"}) {
        if (rng.Chance(0.5)) Spit(cache + "/fcp/tmp/" + name, "old");
      }
      Spit(cache + "/fcp/tmp/" + std::string(255, 'n'), "");
      Spit(cache + "/fcp/tmp/locked", "x");
      chmod((cache + "/fcp/tmp/locked").c_str(), 0);
      if (mkfifo((cache + "/fcp/tmp/fifo").c_str(), 0600) != 0) Report::Broken("mkfifo");
      r.Count("odd names left behind");
    }
    bool stuck = rng.Chance(0.1);
    if (stuck) {
      fs::create_directories(cache + "/fcp/tmp/full");
      Spit(cache + "/fcp/tmp/full/z", "z");
    }
    Logs logs;
    {
      auto t = fcp::client::cache::TempFiles::Create(cache, &logs);
      r.Eval();
      if (stuck) {
        r.Count("clean-ups that fail");
        if (t.ok()) r.Violation("cleanup-failure-hidden", "");
        if (logs.failed_to_delete != 1) r.Violation("cleanup-failure-not-logged", std::to_string(logs.failed_to_delete));
        for (auto& [name, content] : Tree(cache))
          if (name.find("fcp/tmp/") == 0 && name.find("fcp/tmp/full") != 0) r.Violation("cleanup-stopped-early", name);
        fs::remove_all(cache);
        continue;
      }
      if (!t.ok()) {
        r.Violation("create-failed", t.status().ToString());
        continue;
      }
      if (Tree(cache) != kept) r.Violation("left-behind-or-lost", "after creation");
      std::map<std::string, std::string> made;
      int count = static_cast<int>(rng.Range(1, 12));
      for (int k = 0; k < count; ++k) {
        // The generator of names may be at any point, including one seen before.
        if (rng.Chance(0.5)) srand(rng.Below(3));
        std::string prefix = rng.Chance(0.3) ? "" : "p" + std::to_string(rng.Below(2));
        std::string suffix = rng.Chance(0.3) ? "" : ".s" + std::to_string(rng.Below(2));
        if (rng.Chance(0.1)) prefix = rng.Pick(std::vector<std::string>{".", "a b", "x.y", std::string(100, 'p'), "%d", "XXXXXX"});
        if (rng.Chance(0.1)) suffix = rng.Pick(std::vector<std::string>{".", " ", ".tar.gz", std::string(100, 's'), "%s", "XXXXXX"});
        auto f = (*t)->CreateTempFile(prefix, suffix);
        r.Eval();
        r.Count("temporary files");
        if (!f.ok()) {
          r.Violation("temp-file-failed", f.status().ToString());
          continue;
        }
        fs::path p(*f);
        if (made.count(*f)) r.Violation("temp-file-twice", *f);
        if (p.parent_path().string().compare(0, cache.size(), cache) != 0) r.Violation("temp-file-outside", *f);
        std::string name = p.filename().string();
        if (name.compare(0, prefix.size(), prefix) != 0 || name.size() < suffix.size() ||
            name.compare(name.size() - suffix.size(), suffix.size(), suffix) != 0)
          r.Violation("temp-file-name", *f);
        if (Slurp(*f) != "") r.Violation("temp-file-not-fresh", *f);
        std::string content = rng.Bytes(rng.Range(1, 20));
        Spit(*f, content);
        made[*f] = content;
        for (auto& [q, c] : made)
          if (Slurp(q) != c) r.Violation("temp-file-disturbed", q);
      }
      // Files that were made do not stay open: there are more than may be.
      if (i % 300 == 0) {
        struct rlimit old, few;
        getrlimit(RLIMIT_NOFILE, &old);
        few = old;
        few.rlim_cur = 100;
        setrlimit(RLIMIT_NOFILE, &few);
        for (int k = 0; k < 150; ++k) {
          auto f = (*t)->CreateTempFile("many", "");
          r.Eval();
          if (!f.ok()) {
            r.Violation("temp-file-failed", Format("number %d: ", k) + f.status().ToString());
            break;
          }
        }
        setrlimit(RLIMIT_NOFILE, &old);
        r.Count("stores with many files");
      }
      auto bad = (*t)->CreateTempFile("no/such/dir/", "");
      if (bad.ok()) r.Violation("temp-file-nowhere", *bad);
      else if (bad.status().code() != absl::StatusCode::kInvalidArgument)
        r.Violation("temp-file-error", bad.status().ToString());
      if (rng.Chance(0.2)) {
        fs::remove_all(cache + "/fcp/tmp");
        t->reset();
        if (logs.failed_to_delete != 1) r.Violation("end-failure-not-logged", std::to_string(logs.failed_to_delete));
        kept.erase("fcp/tmp");
      } else {
        t->reset();
        if (logs.failed_to_delete != 0) r.Violation("end-failure-logged", "");
      }
    }
    if (Tree(cache) != kept) r.Violation("left-behind-or-lost", "after the end");
    r.Distinct(verif::Mix(i) + 7);
    fs::remove_all(cache);
  }
  Logs logs;
  if (fcp::client::cache::TempFiles::Create("relative/dir", &logs).ok()) r.Violation("relative-cache", "");
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "compress") Compress(r);
  else if (r.mode == "time") Time(r);
  else if (r.mode == "stopwatch") Stopwatch(r);
  else if (r.mode == "files") Files(r);
  else Report::Broken("mode");
  return r.Finish();
}
