// Requests made through an HTTP client: addresses, bodies, responses,
// resources and long-running operations. The client is a stand-in that plays
// a script and keeps to the rules of the interface.
#include <filesystem>
#include <thread>

#include "client_fakes.h"
#include "common.h"
#include "fcp/base/clock.h"
#include "fcp/base/compression.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "http_fake.h"
#include "perturb.h"

namespace {
using namespace fcp::client::http;  // NOLINT
using namespace verif;             // NOLINT
namespace fs = std::filesystem;

// ---- addresses, headers, codes ---------------------------------------------------------

void Uri(Report& r) {
  for (int code = 0; code < 1000 && r.Mine(0); ++code) {
    r.Eval();
    if (ConvertHttpCodeToStatus(code).code() != CodeFor(code)) {
      r.Violation("wrong-status-for-code",
                  Format("%d: %s", code, ConvertHttpCodeToStatus(code).ToString().c_str()));
    }
  }
  for (int code = -2; code < 40 && r.Mine(0); ++code) {
    google::rpc::Status s;
    s.set_code(code);
    s.set_message("text");
    absl::Status a = ConvertRpcStatusToAbslStatus(s);
    r.Eval();
    int want = code >= 0 && code <= 16 ? code : 2;
    if (static_cast<int>(a.code()) != want || (code != 0 && a.message() != "text")) {
      r.Violation("wrong-status-for-code", Format("rpc %d: %s", code, a.ToString().c_str()));
    }
    google::rpc::Status back = ConvertAbslStatusToRpcStatus(a);
    if (back.code() != want || (code != 0 && back.message() != "text")) {
      r.Violation("wrong-status-for-code", Format("rpc %d does not survive", code));
    }
  }
  for (int64_t i = 0; i < r.N(400000, 4000000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x0421 + i);
    std::string in;
    bool ascii = true;
    for (int n = rng.Below(12); n > 0; --n) {
      unsigned char c = rng.Chance(0.5) ? rng.Below(128) : rng.Pick(std::vector<int>{'/', 'a', 'Z', '9', '-', '~', '%', ' ', ':', '?'});
      if (rng.Chance(0.01)) c = 128 + rng.Below(128);
      ascii &= c < 128;
      in += c;
    }
    r.Case(i, verif::Hex(in));
    for (bool slashes : {false, true}) {
      auto got = slashes ? EncodeUriMultiplePathSegments(in) : EncodeUriSinglePathSegment(in);
      r.Eval();
      if (got.ok() != ascii) {
        r.Violation("encoding-accepts-wrong-input", "bytes " + verif::Hex(in));
      } else if (ascii && *got != Encode(in, slashes)) {
        r.Violation("wrong-encoding",
                    Format("bytes %s became %s, want %s", verif::Hex(in).c_str(), got->c_str(), Encode(in, slashes).c_str()));
      }
      if (ascii) r.Count("addresses encoded");
      else r.Count("addresses refused");
    }
    auto up = CreateByteStreamUploadUriSuffix(in);
    r.Eval();
    if (up.ok() != ascii || (ascii && *up != "/upload/v1/media/" + Encode(in, true))) {
      r.Violation("wrong-upload-address", "bytes " + verif::Hex(in));
    }
    // Joining.
    std::string base = rng.Pick(std::vector<std::string>{"https://h", "https://h/", "https://h/a", "https://h/a/", "http://localhost:1/"});
    std::string suffix = rng.Chance(0.2) ? "" : (rng.Chance(0.8) ? "/" : "") + in;
    auto joined = JoinBaseUriWithSuffix(base, suffix);
    r.Eval();
    bool ok = suffix.empty() || suffix[0] == '/';
    std::string want = base;
    if (want.back() != '/') want += '/';
    if (!suffix.empty()) want += suffix.substr(1);
    if (joined.ok() != ok || (ok && *joined != want)) {
      r.Violation("wrong-joined-address", base + " and " + suffix + ": " + (joined.ok() ? *joined : "refused"));
    }
    // Headers.
    HeaderList headers;
    std::vector<std::string> names = {"Content-Type", "content-length", "X-A", "x-a", "X", ""};
    std::string needle = rng.Pick(names);
    std::optional<std::string> first;
    for (int n = rng.Below(5); n > 0; --n) {
      std::string name = rng.Pick(names);
      for (char& c : name) {
        if (rng.Chance(0.3)) c = (c >= 'a' && c <= 'z') ? c - 32 : c;
      }
      std::string value = rng.Chance(0.2) ? "" : Format("v%d", n);
      headers.push_back({name, value});
      if (!first && Lower(name) == Lower(needle)) first = value;
    }
    r.Eval();
    if (FindHeader(headers, needle) != first) r.Violation("wrong-header", needle);
    r.Count(first ? "headers found" : "headers missing");
    r.Distinct(in);
  }
}

// ---- requests and responses in memory ----------------------------------------------------

Script AnyScript(Rng& rng) {
  Script s;
  double d = rng.Unit();
  if (d < 0.6) s.end = Script::kComplete;
  else if (d < 0.75) s.end = Script::kErrorBefore;
  else if (d < 0.95) s.end = Script::kErrorInBody;
  else s.end = Script::kSilent;
  s.code = rng.Chance(0.7) ? 200 : rng.Pick(std::vector<int>{201, 204, 301, 400, 401, 403, 404, 409, 418, 429, 499, 500, 501, 503, 504, 599, 700});
  s.body = rng.Bytes(rng.Chance(0.2) ? 0 : rng.Below(rng.Chance(0.2) ? 100000 : 300));
  for (int n = rng.Range(1, 3); n > 0; --n) s.chunks.push_back(rng.Range(1, rng.Chance(0.3) ? 4 : 4000));
  s.cut = rng.Below(s.body.size() + 1);
  s.error = absl::Status(static_cast<absl::StatusCode>(rng.Range(1, 16)), Format("error %llu", (unsigned long long)rng.Below(1000)));
  s.sent = rng.Below(100000);
  s.received = rng.Below(100000);
  if (rng.Chance(0.5)) s.headers.push_back({rng.Chance(0.5) ? "Content-Type" : "content-type", "text/x"});
  return s;
}

// What is made of a response: a status code, and whether the body counts.
struct Want {
  absl::StatusCode code;
  bool refused = false;
};

Want Judge(const Script& s, const std::string& length, const std::string& transfer,
           const std::string& encoding, bool accept) {
  using S = absl::StatusCode;
  if (s.end == Script::kSilent) return {S::kUnavailable};
  if (s.end == Script::kErrorBefore) return {s.error.code()};
  if (!encoding.empty() && !accept) return {S::kInvalidArgument, true};
  if (!transfer.empty() && Lower(transfer) != "identity") return {S::kInvalidArgument, true};
  size_t n = s.end == Script::kComplete ? s.body.size() : s.cut;
  if (length == "bad") return {S::kInvalidArgument, true};
  if (length == "negative") return {S::kOutOfRange, true};
  if (length == "short" && n > s.body.size() / 2) return {S::kOutOfRange, true};
  if (s.end == Script::kErrorInBody) return {s.error.code()};
  if (length == "long" || (length == "short" && n != s.body.size() / 2)) return {S::kInvalidArgument};
  return {CodeFor(s.code)};
}

void Request(Report& r) {
  for (int64_t i = 0; i < r.N(8000, 80000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x4E0 + i);
    r.Case(i);
    Logs logs;
    Client client;
    client.seed = rng.U64();
    client.threads = rng.Chance(0.3);
    if (client.threads) verif::Perturb(rng);
    bool whole_fails = rng.Chance(0.05);
    if (whole_fails) client.result = absl::Status(static_cast<absl::StatusCode>(rng.Range(1, 16)), "as a whole");
    bool hang = rng.Chance(0.1) && !whole_fails;
    struct Planned {
      Script s;
      Want want;
      std::string body, uri, encoding, type;
      bool compressed;
      Method method;
      HeaderList extra;
    };
    std::vector<Planned> plan;
    std::vector<std::unique_ptr<HttpRequest>> requests;
    int n = rng.Below(6);
    for (int k = 0; k < n; ++k) {
      Planned p;
      p.s = AnyScript(rng);
      for (auto& [hk, hv] : p.s.headers) {
        if (Lower(hk) == "content-type") p.type = hv;
      }
      if (hang && k == 0) {
        p.s.end = Script::kHang;
      }
      std::string length = rng.Chance(0.5) ? "" : rng.Pick(std::vector<std::string>{"right", "right", "right", "bad", "negative", "short", "long"});
      if (length == "short" && p.s.body.size() < 2) length = "right";
      std::string transfer = rng.Chance(0.9) ? "" : rng.Pick(std::vector<std::string>{"identity", "Identity", "chunked", "gzip"});
      p.encoding = rng.Chance(0.9) ? "" : rng.Pick(std::vector<std::string>{"gzip", "br"});
      bool accept = rng.Chance(0.3);
      if (length == "right") p.s.headers.push_back({"Content-Length", std::to_string(p.s.body.size())});
      if (length == "bad") p.s.headers.push_back({"Content-Length", rng.Pick(std::vector<std::string>{"x", "", "12 a", "0x10", "99999999999999999999"})});
      if (length == "negative") p.s.headers.push_back({"content-length", "-1"});
      if (length == "short") p.s.headers.push_back({"Content-Length", std::to_string(p.s.body.size() / 2)});
      if (length == "long") p.s.headers.push_back({"CONTENT-LENGTH", std::to_string(p.s.body.size() + 1)});
      if (!transfer.empty()) p.s.headers.push_back({"Transfer-Encoding", transfer});
      if (!p.encoding.empty()) p.s.headers.push_back({"Content-Encoding", p.encoding});
      rng.Shuffle(p.s.headers);
      p.want = Judge(p.s, length, transfer, p.encoding, accept);
      p.method = static_cast<Method>(rng.Below(6));
      p.body = rng.Chance(0.3) ? "" : rng.Bytes(rng.Below(rng.Chance(0.2) ? 50000 : 100));
      p.compressed = rng.Chance(0.3);
      p.uri = rng.Pick(std::vector<std::string>{"https://a/b", "HTTPS://A", "http://localhost:80/x", "http://other/x", "ftp://a", "httpx", "https", "https:/a", "httpsx", "http://localhost/x", "http://localhostx:1/", ""});
      if (accept) p.extra.push_back({"Accept-Encoding", "gzip"});
      if (rng.Chance(0.5)) p.extra.push_back({"X-Extra", Format("%d", k)});
      bool own_length = rng.Chance(0.05);
      HeaderList extra = p.extra;
      if (own_length) extra.push_back({"content-LENGTH", "5"});
      auto req = InMemoryHttpRequest::Create(p.uri, p.method, extra, p.body, p.compressed);
      r.Eval();
      std::string low = Lower(p.uri);
      bool scheme = low.rfind("https://", 0) == 0 || low.rfind("http://localhost:", 0) == 0;
      bool bodied = p.compressed || !p.body.empty();
      bool allowed = !bodied || (p.method != Method::kGet && p.method != Method::kHead);
      if (req.ok() != (scheme && allowed && !own_length)) {
        r.Violation("request-wrongly-judged",
                    Format("uri %s, method %s, %zu bytes of body: %s", p.uri.c_str(), ConvertMethodToString(p.method).c_str(),
                           p.body.size(), req.status().ToString().c_str()));
        continue;
      }
      if (!req.ok()) {
        r.Count("requests refused");
        continue;
      }
      requests.push_back(std::move(*req));
      plan.push_back(p);
    }
    size_t next = 0;
    client.script = [&](const HttpRequest&) { return plan[next++].s; };
    std::atomic<bool> abort{false};
    bool pre_abort = rng.Chance(0.03);
    if (pre_abort) abort = true;
    InterruptibleRunner runner(&logs, [&] { return abort || client.hanging > 0; }, Timing(), Diags());
    int64_t in = 1000, out = 2000;
    bool count = rng.Chance(0.8);
    auto results = PerformMultipleRequestsInMemory(client, runner, std::move(requests), count ? &in : nullptr,
                                                   count ? &out : nullptr);
    r.Eval();
    bool hung = client.hanging > 0;
    if (client.live != 0) r.Violation("handle-leaked", Format("%d", client.live));
    int64_t sent = 0, received = 0;
    for (auto& p : plan) sent += p.s.sent, received += p.s.received;
    if (count && (in != 1000 + received || out != 2000 + sent)) {
      r.Violation("wrong-traffic-count", Format("received %lld, want %lld; sent %lld, want %lld", (long long)in - 1000,
                                                (long long)received, (long long)out - 2000, (long long)sent));
    }
    if (client.performs != (pre_abort ? 0 : 1)) r.Violation("requests-not-made-together", Format("%d calls", client.performs));
    if (pre_abort || hung) {
      r.Count("interrupted");
      if (results.ok() || results.status().code() != absl::StatusCode::kCancelled) {
        r.Violation("interruption-not-reported", results.status().ToString());
      }
      if (hung) {
        for (auto& s : client.seen) {
          if (!s.cancelled) r.Violation("request-not-cancelled", s.uri);
        }
      }
      continue;
    }
    if (whole_fails) {
      r.Count("failed as a whole");
      if (results.ok() || results.status().code() != client.result.code()) {
        r.Violation("failure-not-reported", results.status().ToString());
      }
      continue;
    }
    if (!results.ok() || results->size() != plan.size()) {
      r.Violation("wrong-number-of-responses", results.status().ToString());
      continue;
    }
    for (size_t k = 0; k < plan.size(); ++k) {
      const Planned& p = plan[k];
      const Seen& seen = client.seen[k];
      r.Eval(2);
      std::string what = Format("request %zu of %zu, code %d, end %d, %zu bytes", k, plan.size(), p.s.code, p.s.end, p.s.body.size());
      // What the client saw.
      bool bodied = p.compressed || !p.body.empty();
      std::string body = seen.body;
      if (p.compressed) body = Gunzip(seen.body).value_or("<not gzip>");
      if (body != p.body || seen.uri != p.uri || seen.method != p.method) r.Violation("wrong-request-sent", what);
      HeaderList want = p.extra;
      if (p.compressed) want.push_back({"Content-Encoding", "gzip"});
      if (bodied) want.push_back({"Content-Length", std::to_string(seen.body.size())});
      HeaderList sent_headers = seen.headers;
      std::sort(want.begin(), want.end());
      std::sort(sent_headers.begin(), sent_headers.end());
      if (sent_headers != want) r.Violation("wrong-headers-sent", what);
      // What came back.
      const auto& got = (*results)[k];
      absl::StatusCode code = got.ok() ? absl::StatusCode::kOk : got.status().code();
      if (code != p.want.code) {
        r.Violation("wrong-result", what + Format(": %s, want code %d", got.status().ToString().c_str(), (int)p.want.code));
        continue;
      }
      if (seen.refused != p.want.refused) r.Violation("callback-does-not-stop", what);
      if (p.want.refused) r.Count("responses refused");
      if (!got.ok()) {
        r.Count("failures reported");
        continue;
      }
      r.Count("responses compared");
      if (got->code != p.s.code || got->content_type != p.type || got->content_encoding != p.encoding ||
          std::string(got->body) != p.s.body) {
        r.Violation("wrong-response", what);
      }
    }
    r.Distinct(Format("%d %zu %d %d", n, plan.size(), client.threads, hang));
    if (r.WantsSample()) r.Sample(Format("%zu requests%s", plan.size(), client.threads ? " at once" : ""));
  }
  r.Count("schedule perturbations", verif::Points());
}

// ---- resources ----------------------------------------------------------------------------

struct TestClock : public fcp::Clock {
  absl::Time now = absl::FromUnixSeconds(1700000000);
  std::vector<absl::Duration> slept;
  absl::Time Now() override { return now; }
  absl::Time NowLocked() override { return now; }
  void Sleep(absl::Duration d) override {
    slept.push_back(d);
    now += d;
  }
 private:
  void ScheduleWakeup(absl::Time) override {}
};

void Fetch(Report& r) {
  std::string dir = r.scratch + "/f";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(16000, 100000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xFE7 + i);
    r.Case(i);
    Logs logs;
    TestClock clock;
    std::unique_ptr<fcp::client::cache::FileBackedResourceCache> cache;
    if (rng.Chance(0.8)) {
      fs::remove_all(dir + "/b");
      fs::remove_all(dir + "/c");
      fs::create_directories(dir + "/b");
      fs::create_directories(dir + "/c");
      auto c = fcp::client::cache::FileBackedResourceCache::Create(dir + "/b", dir + "/c", &logs, &clock, 1 << 20);
      if (!c.ok()) Report::Broken("cache");
      cache = std::move(*c);
    }
    // What the server has, and how it serves it; it changes over time.
    std::map<std::string, std::pair<std::string, absl::Time>> cached;  // id -> data, expiry
    std::map<std::string, int> generation;
    auto content = [&](const std::string& uri, int gen) {
      return Format("%s generation %d ", uri.c_str(), gen) + std::string(verif::Hash(uri) % 2000, 'x');
    };
    for (int round = rng.Range(1, 4); round > 0; --round) {
      Client client;
      client.seed = rng.U64();
      client.threads = rng.Chance(0.2);
      std::vector<UriOrInlineData> resources;
      struct Planned {
        bool fetched = false;
        absl::StatusCode code = absl::StatusCode::kOk;
        std::string body;
      };
      std::vector<Planned> plan;
      std::map<std::string, Script> scripts;
      struct Put {
        std::string id, body;
        absl::Duration age;
      };
      std::vector<Put> puts;
      std::vector<std::string> asked;
      bool bad_uri = false;
      int n = rng.Below(rng.Chance(0.3) ? 13 : 6);
      for (int k = 0; k < n; ++k) {
        Planned p;
        double d = rng.Unit();
        if (d < 0.4) {
          std::string data = rng.Chance(0.2) ? "" : rng.Bytes(rng.Below(500));
          bool gz = rng.Chance(0.4), broken = gz && rng.Chance(0.2);
          p.body = data;
          std::string wire = gz ? Gzip(data) : data;
          if (broken) {
            wire = wire.substr(0, wire.size() / 2);
            p.code = absl::StatusCode::kInternal;
          }
          resources.push_back(UriOrInlineData::CreateInlineData(
              absl::Cord(wire), gz ? UriOrInlineData::InlineData::CompressionFormat::kGzip
                                   : UriOrInlineData::InlineData::CompressionFormat::kUncompressed));
          r.Count(gz ? "inline compressed" : "inline plain");
        } else {
          int which = rng.Below(4);
          std::string uri = Format("https://h/%d", which);
          if (rng.Chance(0.02)) {
            uri = "http://insecure/";
            bad_uri = true;
          }
          std::string id = !bad_uri && rng.Chance(0.7) ? Format("id%d", which) : "";
          absl::Duration age = absl::Hours(rng.Pick(std::vector<int>{1, 1, 3, 7, 30}));
          resources.push_back(UriOrInlineData::CreateUri(uri, id, age));
          if (cache && !id.empty() && cached.count(id)) {
            p.body = cached[id].first;
            cached[id].second = clock.now + age;
            r.Count("from the cache");
          } else {
            p.fetched = true;
            Script s;
            if (scripts.count(uri)) {
              s = scripts[uri];
            } else {
              s.code = rng.Chance(0.8) ? 200 : 404;
              if (rng.Chance(0.15)) generation[uri]++;
              std::string data = content(uri, generation[uri]);
              bool gz = rng.Chance(0.4), broken = gz && rng.Chance(0.2);
              s.body = gz ? Gzip(data) : data;
              if (broken) s.body.resize(s.body.size() - 9);
              s.headers = {{"Content-Type", gz ? "application/octet-stream+gzip" : "application/octet-stream"}};
              s.chunks = {(int)rng.Range(1, 500)};
              if (rng.Chance(0.1)) {
                s.end = Script::kErrorInBody;
                s.error = absl::UnavailableError("lost");
                s.cut = rng.Below(s.body.size());
              }
              s.sent = 10;
              s.received = s.body.size();
              scripts[uri] = s;
            }
            bool gz = s.headers[0].second.find("+gzip") != std::string::npos;
            if (s.end == Script::kErrorInBody) {
              p.code = absl::StatusCode::kUnavailable;
            } else if (s.code != 200) {
              p.code = absl::StatusCode::kNotFound;
            } else {
              auto plain = gz ? Gunzip(s.body) : std::make_optional(s.body);
              if (!plain) {
                p.code = absl::StatusCode::kInternal;
              } else {
                p.body = *plain;
                if (!id.empty()) puts.push_back({id, p.body, age});
                r.Count(gz ? "fetched compressed" : "fetched plain");
              }
            }
            asked.push_back(uri);
          }
        }
        plan.push_back(p);
      }
      client.script = [&](const HttpRequest& q) {
        auto it = scripts.find(std::string(q.uri()));
        return it == scripts.end() ? Script() : it->second;
      };
      InterruptibleRunner runner(&logs, [] { return false; }, Timing(), Diags());
      int64_t in = 0, out = 0;
      auto got = FetchResourcesInMemory(client, runner, resources, &in, &out, cache.get());
      r.Eval();
      if (bad_uri) {
        if (got.ok()) r.Violation("insecure-resource-fetched", "");
        break;
      }
      if (!got.ok() || got->size() != plan.size()) {
        r.Violation("wrong-number-of-resources", got.status().ToString());
        break;
      }
      int64_t want_in = 0;
      std::vector<std::string> really;
      for (auto& s : client.seen) really.push_back(s.uri), want_in += scripts[s.uri].received;
      if (really != asked) r.Violation("wrong-requests", Format("%zu requests, want %zu", really.size(), asked.size()));
      if (in != want_in) r.Violation("wrong-traffic-count", Format("%lld, want %lld", (long long)in, (long long)want_in));
      for (size_t k = 0; k < plan.size(); ++k) {
        r.Eval();
        const auto& g = (*got)[k];
        absl::StatusCode code = g.ok() ? absl::StatusCode::kOk : g.status().code();
        if ((code == absl::StatusCode::kOk) != (plan[k].code == absl::StatusCode::kOk)) {
          r.Violation("wrong-result", Format("resource %zu: %s, want code %d", k, g.status().ToString().c_str(), (int)plan[k].code));
        } else if (plan[k].fetched && plan[k].code != absl::StatusCode::kInternal && code != plan[k].code) {
          r.Violation("wrong-result", Format("resource %zu: %s, want code %d", k, g.status().ToString().c_str(), (int)plan[k].code));
        } else if (g.ok() && (std::string(g->body) != plan[k].body || g->code != 200)) {
          r.Violation("wrong-resource", Format("resource %zu: %zu bytes, want %zu", k, g->body.size(), plan[k].body.size()));
        }
        if (plan[k].code != absl::StatusCode::kOk) r.Count("resources that fail");
      }
      for (auto& p : puts) cached[p.id] = {p.body, clock.now + p.age};
      if (rng.Chance(0.3)) {
        clock.now += absl::Hours(2) + absl::Minutes(1);
        for (auto it = cached.begin(); it != cached.end();) it = it->second.second < clock.now ? cached.erase(it) : std::next(it);
        // Whatever is past its age goes at the next opening.
        if (cache) {
          cache.reset();
          auto c = fcp::client::cache::FileBackedResourceCache::Create(dir + "/b", dir + "/c", &logs, &clock, 1 << 20);
          if (!c.ok()) Report::Broken("cache");
          cache = std::move(*c);
        }
      }
      r.Distinct(Format("%d %zu %zu", n, asked.size(), puts.size()));
    }
    if (r.WantsSample()) r.Sample(cache ? "with a cache" : "without a cache");
  }
}

// ---- operations ----------------------------------------------------------------------------

namespace fc = google::internal::federatedcompute::v1;

void Operations(Report& r) {
  for (int64_t i = 0; i < r.N(60000, 600000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x0BE4 + i);
    r.Case(i);
    Logs logs;
    TestClock clock;
    Client client;
    client.seed = rng.U64();
    std::string key = rng.Chance(0.2) ? "" : "key" + std::to_string(i), base = rng.Chance(0.5) ? "https://h" : "https://h/p/";
    HeaderList headers;
    for (int n = rng.Below(3); n > 0; --n) headers.push_back({Format("x-%d", n), Format("v%d", n)});
    bool compress = rng.Chance(0.5);
    std::unique_ptr<ProtocolRequestCreator> creator;
    if (rng.Chance(0.5)) {
      creator = std::make_unique<ProtocolRequestCreator>(base, key, headers, compress);
    } else {
      fc::ForwardingInfo info;
      if (!rng.Chance(0.1)) info.set_target_uri_prefix(base);
      headers.resize(std::min<size_t>(headers.size(), 1));
      for (auto& [k, v] : headers) (*info.mutable_extra_request_headers())[k] = v;
      auto c = ProtocolRequestCreator::Create(key, info, compress);
      r.Eval();
      if (c.ok() == info.target_uri_prefix().empty()) r.Violation("forwarding-wrongly-judged", c.status().ToString());
      if (!c.ok()) continue;
      creator = std::move(*c);
    }
    auto join = [&](const std::string& s) { return base + (base.back() == '/' ? s.substr(1) : s); };
    // An ordinary request.
    {
      std::string path = rng.Pick(std::vector<std::string>{"/v1/x", "/v1/x:y", "", "v1/x"});
      QueryParams params;
      std::vector<std::string> query;
      for (int n = rng.Chance(0.5) ? 0 : rng.Below(4); n > 0; --n) {
        params[Format("a%d", n)] = Format("b%d", n);
        query.push_back(Format("a%d=b%d", n, n));
      }
      Method method = rng.Pick(std::vector<Method>{Method::kPost, Method::kPost, Method::kPut, Method::kPatch, Method::kDelete});
      bool proto = rng.Chance(0.7);
      std::string body = rng.Chance(0.3) ? "" : rng.Bytes(rng.Below(200));
      auto q = creator->CreateProtocolRequest(path, params, method, body, proto);
      r.Eval();
      // With parameters an empty path begins with '?'.
      bool ok = (path.empty() && !proto && params.empty()) || (!path.empty() && path[0] == '/');
      if (q.ok() != ok) {
        r.Violation("request-wrongly-judged", path + ": " + q.status().ToString());
        continue;
      }
      if (q.ok()) {
        r.Count("requests created");
        std::string uri((*q)->uri());
        size_t mark = uri.find('?');
        std::string params_got = mark == std::string::npos ? "" : uri.substr(mark + 1);
        std::vector<std::string> want_params = query, got_params;
        if ((*q)->method() != method) r.Violation("wrong-method", uri);
        if (proto) want_params.push_back("%24alt=proto");
        for (size_t at = 0; at < params_got.size();) {
          size_t e = params_got.find('&', at);
          if (e == std::string::npos) e = params_got.size();
          got_params.push_back(params_got.substr(at, e - at));
          at = e + 1;
        }
        std::sort(want_params.begin(), want_params.end());
        std::sort(got_params.begin(), got_params.end());
        std::string want_uri = path.empty() ? (base.back() == '/' ? base : base + "/") : join(path);
        if (uri.substr(0, mark) != want_uri || got_params != want_params || ((mark == std::string::npos) != want_params.empty())) {
          r.Violation("wrong-request-address", uri + ", want " + want_uri);
        }
        HeaderList want = headers;
        want.push_back({"x-goog-api-key", key});
        if (proto && !body.empty()) want.push_back({"Content-Type", "application/x-protobuf"});
        HeaderList got = (*q)->extra_headers();
        std::string wire(200000, '\0');
        std::string sent;
        while (true) {
          auto m = (*q)->ReadBody(wire.data(), wire.size());
          if (!m.ok()) break;
          sent.append(wire.data(), *m);
        }
        if (compress) want.push_back({"Content-Encoding", "gzip"});
        if (compress || !body.empty()) want.push_back({"Content-Length", std::to_string(sent.size())});
        auto sorted = [](HeaderList h) {
          std::sort(h.begin(), h.end());
          return h;
        };
        if (sorted(got) != sorted(want)) r.Violation("wrong-headers-sent", uri);
        if ((compress ? Gunzip(sent).value_or("<bad>") : sent) != body) r.Violation("wrong-request-sent", uri);
      }
    }
    // An operation that takes several polls.
    int polls = rng.Below(6);
    std::vector<google::longrunning::Operation> ops;
    std::vector<absl::Duration> waits;
    for (int k = 0; k <= polls; ++k) {
      google::longrunning::Operation op;
      op.set_name(rng.Chance(0.95) ? Format("operations/op %d", k) : "other/op");
      op.set_done(k == polls);
      absl::Duration want = absl::Milliseconds(500);
      int kind = rng.Below(6);
      int64_t ms = rng.Pick(std::vector<int64_t>{0, 1, 250, 999, 60000, 60001, 3600000, -1});
      google::protobuf::Duration d;
      d.set_seconds(ms / 1000);
      d.set_nanos(ms % 1000 * 1000000);
      auto set = [&](auto m) {
        *m.mutable_polling_interval() = d;
        op.mutable_metadata()->PackFrom(m);
        want = ms < 0 ? absl::Milliseconds(500) : std::min(absl::Minutes(1), absl::Milliseconds(ms));
      };
      if (kind == 0) set(fc::StartTaskAssignmentMetadata());
      if (kind == 1) set(fc::AdvertiseKeysMetadata());
      if (kind == 2) set(fc::ShareKeysMetadata());
      if (kind == 3) set(fc::SubmitSecureAggregationResultMetadata());
      if (kind == 4) op.mutable_metadata()->PackFrom(google::protobuf::Duration());
      if (op.done() && rng.Chance(0.5)) {
        op.mutable_error()->set_code(5);
      } else if (op.done()) {
        op.mutable_response()->set_value(rng.Bytes(10));
      }
      ops.push_back(op);
      waits.push_back(want);
    }
    int fail_at = rng.Chance(0.3) ? rng.Range(1, 6) : 100;
    int how = rng.Below(3);
    client.script = [&](const HttpRequest&) {
      Script s;
      int k = client.seen.size() + 1;
      s.sent = 3;
      s.received = 5;
      if (k < static_cast<int>(ops.size())) s.body = ops[k].SerializeAsString();
      if (k == fail_at) {
        if (how == 0) s.code = 503;
        if (how == 1) s.body = "\xff\xff\xff";
        if (how == 2) s.headers = {{"Content-Encoding", rng.Pick(std::vector<std::string>{"gzip", "br", "x-other"})}};
      }
      return s;
    };
    int64_t in = 0, out = 0;
    auto watch = fcp::WallClockStopwatch::Create();
    ProtocolRequestHelper helper(&client, &in, &out, watch.get(), &clock);
    InterruptibleRunner runner(&logs, [] { return false; }, Timing(), Diags());
    auto got = helper.PollOperationResponseUntilDone(ops[0], *creator, runner);
    // What should happen.
    int k = 0;
    bool want_ok = true;
    std::vector<absl::Duration> want_slept;
    std::vector<std::string> want_uris;
    while (!ops[k].done()) {
      if (ops[k].name().rfind("operations/", 0) != 0) {
        want_ok = false;
        break;
      }
      want_slept.push_back(waits[k]);
      want_uris.push_back(join("/v1/" + Encode(ops[k].name(), true)) + "?%24alt=proto");
      ++k;
      if (k == fail_at) {
        want_ok = false;
        break;
      }
    }
    r.Eval();
    r.Count("polls", want_uris.size());
    if (got.ok() != want_ok) {
      r.Violation("wrong-operation-result", Format("%d polls: %s", polls, got.status().ToString().c_str()));
      continue;
    }
    if (want_ok && got->SerializeAsString() != ops[k].SerializeAsString()) r.Violation("wrong-operation", "");
    if (!want_ok) r.Count("operations that fail");
    if (clock.slept != want_slept) r.Violation("wrong-waiting", Format("%zu waits, want %zu", clock.slept.size(), want_slept.size()));
    std::vector<std::string> uris;
    for (auto& s : client.seen) {
      uris.push_back(s.uri);
      HeaderList want = headers;
      want.push_back({"x-goog-api-key", key});
      HeaderList have = s.headers;
      std::sort(want.begin(), want.end());
      std::sort(have.begin(), have.end());
      if (s.method != Method::kGet || !s.body.empty() || have != want) r.Violation("wrong-poll", s.uri);
    }
    if (uris != want_uris) r.Violation("wrong-request-address", Format("%zu polls, want %zu", uris.size(), want_uris.size()));
    if (in != 5 * (int64_t)uris.size() || out != 3 * (int64_t)uris.size()) r.Violation("wrong-traffic-count", "");
    // Cancelling.
    size_t before = client.seen.size();
    auto cancelled = helper.CancelOperation("operations/a b", *creator, runner);
    r.Eval();
    if (client.seen.size() != before + 1 || client.seen.back().uri != join("/v1/operations/a%20b:cancel") + "?%24alt=proto" ||
        client.seen.back().method != Method::kPost) {
      r.Violation("wrong-cancellation", client.seen.back().uri);
    }
    r.Distinct(Format("%d %d %d", polls, fail_at, how));
    if (r.WantsSample()) r.Sample(Format("%d polls, failing at %d", polls, fail_at));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "uri") Uri(r);
  else if (r.mode == "request") Request(r);
  else if (r.mode == "fetch") Fetch(r);
  else if (r.mode == "operations") Operations(r);
  else Report::Broken("mode?");
  return r.Finish();
}
