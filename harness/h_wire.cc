// Small formats on the way to and from servers: response headers as curl
// hands them over, retry windows, and payloads with a header.
#include <limits>

#include "absl/random/random.h"
#include "absl/time/clock.h"
#include "common.h"
#include "fcp/client/federated_protocol_util.h"
#include "fcp/client/http/curl/curl_header_parser.h"
#include "fcp/client/http/curl/curl_http_response.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/protos/confidentialcompute/aggregation_client_payload.pb.h"

namespace {
using verif::Format;
using verif::Report;
using verif::Rng;

std::string Lower(std::string s) {
  for (char& c : s) c = (c >= 'A' && c <= 'Z') ? c + 32 : c;
  return s;
}

// ---- response headers ---------------------------------------------------------------

void Headers(Report& r) {
  using fcp::client::http::HeaderList;
  for (int64_t i = 0; i < r.N(400000, 4000000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x4EAD + i);
    fcp::client::http::curl::CurlHeaderParser parser;
    bool decoding = rng.Chance(0.5);
    if (decoding) parser.UseCurlEncoding();
    std::string text;
    if (parser.IsLastHeader() || !parser.GetHeaderList().empty() || parser.GetStatusCode() != -1) {
      r.Violation("starts-with-something", "");
    }
    // Some responses on the way, and the final one.
    int hops = rng.Below(4);
    bool bad = false;
    for (int hop = 0; hop <= hops && !bad; ++hop) {
      bool last = hop == hops;
      // Nothing has to follow; something may all the same (a tunnel through a
      // proxy, a login).
      bool final = last || rng.Chance(0.15);
      int code;
      bool location = false;
      if (final) {
        code = rng.Pick(std::vector<int>{200, 200, 200, 201, 204, 206, 300, 302, 304, 307, 399, 400, 401, 404, 407, 429, 500, 503, 599});
      } else if (rng.Chance(0.4)) {
        code = rng.Pick(std::vector<int>{100, 101, 102, 103, 199});
      } else {
        code = rng.Pick(std::vector<int>{300, 301, 301, 302, 303, 304, 305, 307, 308, 399});
        location = true;
      }
      auto line = [&](const std::string& s) {
        text += s;
        parser.ParseHeader(s);
      };
      line(rng.Chance(0.5) ? Format("HTTP/1.1 %d %s\r\n", code, rng.Pick(std::vector<std::string>{"OK", "Two Words", "With: colon", ""}).c_str())
                           : Format("HTTP/2 %d\r\n", code));
      HeaderList want;
      int n = rng.Below(rng.Chance(0.02) ? 60 : 6), at = location ? (int)rng.Below(n + 1) : -1;
      if (parser.GetStatusCode() != code || !parser.GetHeaderList().empty() || parser.IsLastHeader()) {
        r.Violation("wrong-start-of-response", text);
        bad = true;
      }
      for (int k = 0; k <= n && !bad; ++k) {
        std::string key, value;
        if (k == at) {
          key = rng.Pick(std::vector<std::string>{"Location", "location", "LOCATION"});
          value = rng.Pick(std::vector<std::string>{"https://h:8080/a?b=c:d", "/there", "//h/x"});
        } else if (k == n) {
          break;
        } else if (rng.Chance(0.4)) {
          key = rng.Pick(std::vector<std::string>{"Content-Encoding", "Content-Length", "Transfer-Encoding", "content-length", "transfer-ENCODING", "content-encoding"});
          value = rng.Pick(std::vector<std::string>{"gzip", "10", "chunked", "identity"});
        } else {
          key = rng.Pick(std::vector<std::string>{"Date", "ETag", "X-A", "Set-Cookie", "Content-Type", "HTTP-Like", "Content-Length-X"});
          value = rng.Pick(std::vector<std::string>{"Mon, 01 Jan 2024 10:20:30 GMT", "", "a", "\"x:y\"", "a:b:c", "  padded\tinside  ", "HTTP/1.1 200 OK",
                                                    "text/plain; charset=utf-8", ":", "a, b"});
        }
        if (rng.Chance(0.01)) value = std::string(rng.Below(20000), 'v');
        std::string space = rng.Pick(std::vector<std::string>{" ", "", "\t", "  "});
        std::string tail = rng.Pick(std::vector<std::string>{"", "", " ", "\t "});
        line(key + ":" + space + value + tail + "\r\n");
        std::string stripped = value;
        while (!stripped.empty() && strchr(" \t", stripped.front())) stripped.erase(0, 1);
        while (!stripped.empty() && strchr(" \t", stripped.back())) stripped.pop_back();
        std::string low = Lower(key);
        bool hidden = low == "transfer-encoding" || (decoding && (low == "content-encoding" || low == "content-length"));
        if (!hidden) want.push_back({key, stripped});
        r.Count(hidden ? "headers hidden" : "headers kept");
        r.Eval();
        if (parser.IsLastHeader()) r.Violation("ends-early", text), bad = true;
        if (parser.GetHeaderList() != want) r.Violation("wrong-headers", text), bad = true;
      }
      if (bad) break;
      line("\r\n");
      r.Eval();
      if (parser.IsLastHeader() != final) {
        r.Violation(final ? "end-not-noticed" : "response-on-the-way-taken-as-final", text);
        bad = true;
      }
      if (parser.GetStatusCode() != code || parser.GetHeaderList() != want) {
        r.Violation("wrong-headers", text);
        bad = true;
      }
      if (final && !bad) {
        fcp::client::http::curl::CurlHttpResponse response(parser.GetStatusCode(), parser.GetHeaderList());
        if (response.code() != code || response.headers() != want) r.Violation("wrong-response", text);
        r.Count(last ? "final responses" : "responses followed though final");
      } else {
        r.Count(location ? "redirects" : "provisional responses");
      }
    }
    r.Case(i, text);
    r.Distinct(text);
    if (r.WantsSample()) r.Sample(text);
  }
}

// ---- retry windows -------------------------------------------------------------------

google::protobuf::Duration Proto(absl::Duration d) {
  google::protobuf::Duration p;
  p.set_seconds(absl::IDivDuration(d, absl::Seconds(1), &d));
  p.set_nanos(absl::ToInt64Nanoseconds(d));
  return p;
}
absl::Duration Absl(const google::protobuf::Duration& p) {
  return absl::Seconds(p.seconds()) + absl::Nanoseconds(p.nanos());
}

absl::Duration AnyDelay(Rng& rng) {
  switch (rng.Below(6)) {
    case 0: return absl::ZeroDuration();
    case 1: return absl::Nanoseconds(static_cast<int64_t>(rng.Below(3000000000)) - 1500000000);
    case 2: return -absl::Seconds(rng.Below(100000));
    case 3: return absl::Hours(rng.Below(24 * 365 * 100));
    case 4: return absl::Nanoseconds(rng.Below(10));
    default: return absl::Milliseconds(rng.Below(100000000));
  }
}

void Retry(Report& r) {
  using fcp::client::GenerateRetryWindowFromRetryTime;
  using fcp::client::GenerateRetryWindowFromTargetDelay;
  using fcp::client::PickRetryTimeFromRange;
  for (int64_t i = 0; i < r.N(60000, 400000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x4E74 + i);
    std::seed_seq seq{(unsigned)rng.U64(), (unsigned)rng.U64()};
    absl::BitGen gen(seq);
    const absl::Duration ns = absl::Nanoseconds(1);
    // From a range.
    absl::Duration lo = AnyDelay(rng), hi = rng.Chance(0.7) ? lo + absl::Seconds(rng.Below(100000)) : AnyDelay(rng);
    absl::Duration from = std::max(lo, absl::ZeroDuration()), to = std::max(hi, from);
    std::string what = absl::FormatDuration(lo) + " to " + absl::FormatDuration(hi);
    r.Case(i, what);
    bool quarters[4] = {};
    int draws = rng.Chance(0.2) ? 400 : 5;
    for (int k = 0; k < draws; ++k) {
      absl::Time before = absl::Now();
      absl::Time t = PickRetryTimeFromRange(Proto(lo), Proto(hi), gen);
      absl::Time after = absl::Now();
      r.Eval();
      if (t < before + from - ns || t > after + to + ns) {
        r.Violation("outside-the-range", what + ": " + absl::FormatDuration(t - before));
        break;
      }
      if (to - from > absl::Seconds(1000)) {
        double f = absl::FDivDuration(t - before - from, to - from);
        quarters[std::min(3, std::max(0, (int)(f * 4)))] = true;
      }
    }
    r.Count("times drawn", draws);
    if (draws == 400 && to - from > absl::Seconds(1000)) {
      r.Eval();
      r.Count("spreads judged");
      if (!(quarters[0] && quarters[1] && quarters[2] && quarters[3])) r.Violation("not-spread-over-the-range", what);
    }
    // From a target.
    absl::Duration target = AnyDelay(rng);
    double jitter = rng.Pick(std::vector<double>{0, 0.1, 0.5, 1, 1.5, -0.3, 100, -100, rng.Unit()});
    double j = std::min(1.0, std::max(0.0, jitter));
    absl::Duration near = std::max(absl::ZeroDuration(), target * (1 - j));
    absl::Duration far = std::max(near, target * (1 + j));
    // Multiplying rounds.
    absl::Duration slack = ns + absl::AbsDuration(target) * 1e-12;
    bool low = false, high = false;
    for (int k = 0; k < draws; ++k) {
      auto w = GenerateRetryWindowFromTargetDelay(target, jitter, gen);
      r.Eval();
      absl::Duration a = Absl(w.delay_min()), b = Absl(w.delay_max());
      if (a != b) r.Violation("window-has-width", absl::FormatDuration(a) + " to " + absl::FormatDuration(b));
      if (a < near - slack || a > far + slack || a < absl::ZeroDuration()) {
        r.Violation("outside-the-jitter", Format("target %s, jitter %g: %s", absl::FormatDuration(target).c_str(), jitter, absl::FormatDuration(a).c_str()));
        break;
      }
      low |= a < target - (target - near) * 0.75;
      high |= a > target + (far - target) * 0.75;
      r.Count("windows from a target");
    }
    if (draws == 400 && target > absl::Seconds(1000) && j >= 0.1 && !(low && high)) {
      r.Violation("jitter-on-one-side", Format("target %s, jitter %g", absl::FormatDuration(target).c_str(), jitter));
    }
    // From a time.
    absl::Duration ahead = AnyDelay(rng);
    absl::Time before = absl::Now(), when = before + ahead;
    auto w = GenerateRetryWindowFromRetryTime(when);
    absl::Time after = absl::Now();
    r.Eval();
    absl::Duration a = Absl(w.delay_min()), b = Absl(w.delay_max());
    absl::Duration most = std::max(absl::ZeroDuration(), when - before), least = std::max(absl::ZeroDuration(), when - after);
    if (a != b) r.Violation("window-has-width", absl::FormatDuration(a) + " to " + absl::FormatDuration(b));
    if (a < least - ns || a > most + ns || a < absl::ZeroDuration()) {
      r.Violation("wrong-remaining-delay", absl::FormatDuration(ahead) + " ahead: " + absl::FormatDuration(a));
    }
    r.Count(ahead > absl::ZeroDuration() ? "times ahead" : "times past");
    r.Distinct(what);
    if (r.WantsSample()) r.Sample(what);
  }
}

// ---- payloads ------------------------------------------------------------------------

using fcp::confidential_compute::ClientPayloadHeader;
using fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader;
using fcp::confidential_compute::EncodeClientPayload;
using PayloadProto = fcp::confidentialcompute::AggregationClientPayloadHeader;

// What an encoded payload says.
struct Parsed {
  ClientPayloadHeader header;
  size_t at;
};
std::optional<Parsed> Reference(const std::string& in, bool* open) {
  if (in.compare(0, 4, "CAv1") != 0) return std::nullopt;
  uint64_t n = 0;
  size_t at = 4;
  for (int shift = 0;; shift += 7) {
    if (at >= in.size() || shift >= 70) return std::nullopt;
    unsigned char c = in[at++];
    if (shift >= 35) *open = true;
    if (shift < 64) n |= static_cast<uint64_t>(c & 127) << shift;
    if (!(c & 128)) break;
  }
  // Sizes of more than 32 bits are left open.
  if (n > 0xffffffff) *open = true;
  n &= 0xffffffff;
  if (n > in.size() - at) return std::nullopt;
  PayloadProto p;
  if (!p.ParseFromString(in.substr(at, n))) return std::nullopt;
  Parsed out;
  out.header.encrypted_symmetric_key = p.encrypted_symmetric_key();
  out.header.encapsulated_public_key = p.encapsulated_public_key();
  out.header.serialized_blob_header = p.blob_header();
  out.header.is_gzip_compressed = p.compression_type() == fcp::confidentialcompute::COMPRESSION_TYPE_GZIP;
  out.at = at + n;
  return out;
}

bool Same(const ClientPayloadHeader& a, const ClientPayloadHeader& b) {
  return a.encrypted_symmetric_key == b.encrypted_symmetric_key && a.encapsulated_public_key == b.encapsulated_public_key &&
         a.serialized_blob_header == b.serialized_blob_header && a.is_gzip_compressed == b.is_gzip_compressed;
}

void Payload(Report& r) {
  for (int64_t i = 0; i < r.N(60000, 600000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x9A71 + i);
    auto bytes = [&](int small, int large) { return rng.Chance(0.2) ? std::string() : rng.Bytes(rng.Below(rng.Chance(0.1) ? large : small)); };
    ClientPayloadHeader h;
    h.encrypted_symmetric_key = bytes(40, 300);
    h.encapsulated_public_key = bytes(40, 300);
    h.serialized_blob_header = bytes(60, rng.Chance(0.05) ? 40000 : 1000);
    if (i % 6000 == 5) h.serialized_blob_header = rng.Bytes(rng.Pick(std::vector<int>{70000, 2097151, 2097153, 5000000}));
    h.is_gzip_compressed = rng.Chance(0.5);
    std::string cipher = bytes(60, 3000);
    // A ciphertext that looks like more header, or another payload.
    if (rng.Chance(0.2)) cipher = EncodeClientPayload(h, cipher).substr(rng.Pick(std::vector<int>{0, 4, 5}));
    std::string encoded = EncodeClientPayload(h, cipher);
    r.Case(i, verif::Hex(encoded.substr(0, 400)));
    auto judge = [&](const std::string& in, const char* kind) {
      // On the heap, with nothing after it.
      std::unique_ptr<char[]> exact(new char[in.size()]);
      std::copy(in.begin(), in.end(), exact.get());
      absl::string_view view(exact.get(), in.size());
      auto got = DecodeAndConsumeClientPayloadHeader(view);
      bool open = false;
      auto want = Reference(in, &open);
      r.Eval();
      if (open) return;
      r.Count(want ? "payloads accepted" : "payloads refused");
      if (got.ok() != want.has_value()) {
        r.Violation(want ? "payload-refused" : "broken-payload-accepted", Format("%s: %s", kind, verif::Hex(in.substr(0, 400)).c_str()));
        return;
      }
      if (!want) {
        if (view.data() != exact.get() || view.size() != in.size()) r.Violation("refused-input-consumed", kind);
        return;
      }
      if (!Same(*got, want->header)) r.Violation("wrong-header", kind);
      if (view.data() != exact.get() + want->at || view.size() != in.size() - want->at) {
        r.Violation("wrong-ciphertext", Format("%s: begins at %td of %zu, want %zu", kind, view.data() - exact.get(), in.size(), want->at));
      }
    };
    // The round trip.
    bool open = false;
    auto want = Reference(encoded, &open);
    if (!want || !Same(want->header, h) || encoded.substr(want->at) != cipher) {
      r.Violation("wrong-encoding", verif::Hex(encoded.substr(0, 400)));
      continue;
    }
    judge(encoded, "as encoded");
    // Cut short.
    size_t head = want->at;
    if (head < 400) {
      for (size_t n = 0; n <= head; ++n) judge(encoded.substr(0, n), "cut");
    } else {
      for (int k = 0; k < 20; ++k) judge(encoded.substr(0, rng.Below(head + 1)), "cut");
    }
    // With another length, or other bytes.
    for (int k = 0; k < 6; ++k) {
      std::string body = encoded.substr(4);
      size_t at = 0;
      while (body[at] & 128) ++at;
      body = body.substr(at + 1);
      uint64_t n = rng.Pick(std::vector<uint64_t>{rng.Below(body.size() + 3), body.size(), body.size() + 1, head + rng.Below(5), 0x7fffffff, 0x80000000u,
                                                  0xffffffffu, 0x100000000ull + rng.Below(100), rng.U64()});
      std::string v;
      do {
        v += static_cast<char>((n & 127) | (n > 127 ? 128 : 0));
        n >>= 7;
      } while (n);
      judge("CAv1" + v + body, "other length");
    }
    for (int k = 0; k < 10; ++k) {
      std::string m = encoded;
      for (int e = rng.Range(1, 3); e > 0 && !m.empty(); --e) {
        size_t at = rng.Below(std::min(m.size(), head + 2));
        if (rng.Chance(0.4)) m[at] ^= 1 << rng.Below(8);
        else if (rng.Chance(0.4)) m[at] = rng.Pick(std::vector<int>{0, 0x0b, 0x0c, 0x13, 0x14, 0x7f, 0x80, 0xff});
        else if (rng.Chance(0.5)) m.erase(at, 1);
        else m.insert(at, 1, static_cast<char>(rng.Below(256)));
      }
      judge(m, "damaged");
    }
    r.Distinct(encoded);
    if (r.WantsSample()) r.Sample(Format("%zu bytes of header, %zu of ciphertext", head, cipher.size()));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "headers") Headers(r);
  else if (r.mode == "retry") Retry(r);
  else if (r.mode == "payload") Payload(r);
  else Report::Broken("mode?");
  return r.Finish();
}
