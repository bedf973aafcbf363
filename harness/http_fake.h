// A stand-in HTTP client that plays a script and keeps to the rules of the
// interface, and what the judgement of requests needs.
#ifndef VERIF_HARNESS_HTTP_FAKE_H_
#define VERIF_HARNESS_HTTP_FAKE_H_

#include <zlib.h>

#include <atomic>
#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "client_fakes.h"
#include "common.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/interruptible_runner.h"

namespace verif {
using namespace fcp::client::http;  // NOLINT
using fcp::client::InterruptibleRunner;
using Method = HttpRequest::Method;

inline InterruptibleRunner::TimingConfig Timing() {
  return {absl::Milliseconds(1), absl::Seconds(200), absl::Seconds(200)};
}
inline InterruptibleRunner::DiagnosticsConfig Diags() {
  using fcp::client::ProdDiagCode;
  return {ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP,
          ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
          ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
          ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT};
}

inline std::string Lower(std::string s) {
  for (char& c : s) c = (c >= 'A' && c <= 'Z') ? c + 32 : c;
  return s;
}

inline std::string Gzip(const std::string& in) {
  z_stream z = {};
  deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z, in.size()) + 64, '\0');
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  z.next_out = reinterpret_cast<Bytef*>(out.data());
  z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}

inline std::optional<std::string> Gunzip(const std::string& in) {
  z_stream z = {};
  inflateInit2(&z, 31);
  std::string out, buf(65536, '\0');
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf.data());
    z.avail_out = buf.size();
    rc = inflate(&z, Z_NO_FLUSH);
    out.append(buf.data(), buf.size() - z.avail_out);
  } while (rc == Z_OK && (z.avail_in || z.avail_out == 0));
  inflateEnd(&z);
  if (rc != Z_STREAM_END) return std::nullopt;
  return out;
}

// ---- the stand-in client ------------------------------------------------------------

struct Script {
  enum End { kComplete, kErrorBefore, kErrorInBody, kSilent, kHang } end = kComplete;
  int code = 200;
  HeaderList headers;
  std::string body;
  std::vector<int> chunks;  // sizes of the pieces of the body, repeated
  size_t cut = 0;           // bytes before an error in the body
  absl::Status error;
  int64_t sent = 0, received = 0;
};

struct Seen {
  std::string uri, body;
  Method method;
  HeaderList headers;
  bool cancelled = false, refused = false, performed = false;
};

struct Response : public HttpResponse {
  int c;
  HeaderList h;
  int code() const override { return c; }
  const HeaderList& headers() const override { return h; }
};

class Client;
struct Handle : public HttpRequestHandle {
  Client* client;
  int index;
  std::unique_ptr<HttpRequest> request;
  Response response;
  ~Handle() override;
  SentReceivedBytes TotalSentReceivedBytes() const override;
  void Cancel() override;
};

class Client : public HttpClient {
 public:
  // Which script an enqueued request gets.
  std::function<Script(const HttpRequest&)> script;
  absl::Status result;  // of PerformRequests as a whole
  bool threads = false;
  uint64_t seed = 0;
  std::mutex mu;
  std::condition_variable cv;
  std::vector<Seen> seen;
  std::vector<Script> scripts;
  bool only_performed = false;  // unperformed requests have no traffic
  int performs = 0, live = 0;
  std::atomic<int> hanging{0};

  std::unique_ptr<HttpRequestHandle> EnqueueRequest(std::unique_ptr<HttpRequest> request) override {
    auto h = std::make_unique<Handle>();
    std::lock_guard<std::mutex> l(mu);
    h->client = this;
    h->index = seen.size();
    scripts.push_back(script(*request));
    Seen s;
    s.uri = std::string(request->uri());
    s.method = request->method();
    s.headers = request->extra_headers();
    seen.push_back(s);
    h->request = std::move(request);
    ++live;
    return h;
  }

  absl::Status PerformRequests(
      std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> requests) override {
    {
      std::lock_guard<std::mutex> l(mu);
      ++performs;
    }
    if (!result.ok()) return result;
    if (threads) {
      std::vector<std::thread> ts;
      for (auto& [h, c] : requests) {
        ts.emplace_back([this, h = h, c = c] { One(static_cast<Handle*>(h), c); });
      }
      for (auto& t : ts) t.join();
    } else {
      // In some other order.
      Rng rng(seed, 0xC11E + performs);
      rng.Shuffle(requests);
      for (auto& [h, c] : requests) One(static_cast<Handle*>(h), c);
    }
    return absl::OkStatus();
  }

 private:
  void One(Handle* h, HttpRequestCallback* cb) {
    Script s;
    {
      std::lock_guard<std::mutex> l(mu);
      s = scripts[h->index];
    }
    Rng rng(seed, 0xC11EA0 + h->index);
    // The body of the request.
    std::string body;
    if (h->request->HasBody()) {
      std::string buf;
      while (true) {
        buf.resize(rng.Range(1, rng.Chance(0.3) ? 3 : 5000));
        auto n = h->request->ReadBody(buf.data(), buf.size());
        if (!n.ok()) {
          if (n.status().code() != absl::StatusCode::kOutOfRange) body += "<error>";
          break;
        }
        if (*n < 1 || *n > static_cast<int64_t>(buf.size())) {
          body += "<bad size>";
          break;
        }
        body.append(buf.data(), *n);
      }
    }
    {
      std::lock_guard<std::mutex> l(mu);
      seen[h->index].body = body;
      seen[h->index].performed = true;
    }
    auto refuse = [&] {
      std::lock_guard<std::mutex> l(mu);
      seen[h->index].refused = true;
    };
    if (s.end == Script::kSilent) return;
    if (s.end == Script::kErrorBefore) return cb->OnResponseError(*h->request, s.error);
    bool hung_before = s.end == Script::kHang && s.cut == 0;
    if (hung_before) {
      Hang(h);
      return cb->OnResponseError(*h->request, absl::CancelledError("cancelled"));
    }
    h->response.c = s.code;
    h->response.h = s.headers;
    if (!cb->OnResponseStarted(*h->request, h->response).ok()) return refuse();
    size_t limit = s.end == Script::kComplete ? s.body.size() : std::min(s.cut, s.body.size());
    size_t at = 0, k = 0;
    while (at < limit) {
      size_t n = s.chunks.empty() ? limit : s.chunks[k++ % s.chunks.size()];
      n = std::min(n, limit - at);
      // The data is only lent.
      std::string lent = s.body.substr(at, n);
      if (!cb->OnResponseBody(*h->request, h->response, lent).ok()) return refuse();
      std::fill(lent.begin(), lent.end(), '#');
      at += n;
    }
    if (s.end == Script::kErrorInBody) return cb->OnResponseBodyError(*h->request, h->response, s.error);
    if (s.end == Script::kHang) {
      Hang(h);
      return cb->OnResponseBodyError(*h->request, h->response, absl::CancelledError("cancelled"));
    }
    cb->OnResponseCompleted(*h->request, h->response);
  }

  void Hang(Handle* h) {
    ++hanging;
    std::unique_lock<std::mutex> l(mu);
    cv.wait(l, [&] { return seen[h->index].cancelled; });
  }
};

inline Handle::~Handle() {
  std::lock_guard<std::mutex> l(client->mu);
  --client->live;
}
inline HttpRequestHandle::SentReceivedBytes Handle::TotalSentReceivedBytes() const {
  std::lock_guard<std::mutex> l(client->mu);
  if (client->only_performed && !client->seen[index].performed) return {0, 0};
  return {client->scripts[index].sent, client->scripts[index].received};
}
inline void Handle::Cancel() {
  std::lock_guard<std::mutex> l(client->mu);
  client->seen[index].cancelled = true;
  client->cv.notify_all();
}

// ---- addresses and codes ------------------------------------------------------------

inline std::string Encode(const std::string& in, bool slashes) {
  static const char* hex = "0123456789ABCDEF";
  std::string out;
  for (unsigned char c : in) {
    bool plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') ||
                 std::string("-_.~").find(c) != std::string::npos || (slashes && c == '/');
    if (plain) {
      out += c;
    } else {
      out += '%';
      out += hex[c / 16];
      out += hex[c % 16];
    }
  }
  return out;
}

inline absl::StatusCode CodeFor(int http) {
  using S = absl::StatusCode;
  static const std::map<int, S> known = {
      {400, S::kInvalidArgument}, {401, S::kUnauthenticated}, {403, S::kPermissionDenied},
      {404, S::kNotFound},        {409, S::kAborted},         {429, S::kResourceExhausted},
      {499, S::kCancelled},       {501, S::kUnimplemented},   {503, S::kUnavailable},
      {504, S::kDeadlineExceeded}};
  auto it = known.find(http);
  if (it != known.end()) return it->second;
  if (http / 100 == 2) return S::kOk;
  if (http / 100 == 4) return S::kFailedPrecondition;
  if (http / 100 == 5) return S::kInternal;
  return S::kUnknown;
}

}  // namespace verif

#endif  // VERIF_HARNESS_HTTP_FAKE_H_
