// The curl-based HTTP client against a server of our own on the loopback
// interface that plays scripts: redirects, provisional responses, trailers,
// compressed, truncated and missing responses.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <zlib.h>

#include <atomic>
#include <condition_variable>
#include <thread>

#include "common.h"
#include "fcp/client/http/curl/curl_api.h"
#include "fcp/client/http/curl/curl_http_client.h"
#include "fcp/client/http/http_client.h"

namespace {
using namespace fcp::client::http;  // NOLINT
using verif::Format;
using verif::Report;
using verif::Rng;
using Method = HttpRequest::Method;

std::string Lower(std::string s) {
  for (char& c : s) c = (c >= 'A' && c <= 'Z') ? c + 32 : c;
  return s;
}

std::string Gzip(const std::string& in) {
  z_stream z = {};
  deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z, in.size()) + 64, '\0');
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  z.next_out = reinterpret_cast<Bytef*>(out.data());
  z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}

// ---- the server ------------------------------------------------------------------------

struct Hop {
  std::vector<int> provisional;
  int code = 200;
  HeaderList headers;
  std::string body;  // on the wire, before chunking
  enum Framing { kLength, kChunked, kClose } framing = kLength;
  std::vector<int> chunks;
  HeaderList trailers;
  // What goes wrong.
  enum Fault { kNone, kReset, kCut, kHangBefore, kHangIn } fault = kNone;
  size_t cut = 0;
  bool keep = true;
};

struct Received {
  std::string method, path, body;
  HeaderList headers;
  bool whole = true;
};

class Server {
 public:
  Server() {
    fd_ = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) || listen(fd_, 512)) Report::Broken("cannot listen");
    socklen_t n = sizeof a;
    getsockname(fd_, reinterpret_cast<sockaddr*>(&a), &n);
    port = ntohs(a.sin_port);
    acceptor_ = std::thread([this] {
      while (!stop_) {
        pollfd p = {fd_, POLLIN, 0};
        if (poll(&p, 1, 50) <= 0) continue;
        int c = accept(fd_, nullptr, nullptr);
        if (c < 0) continue;
        int one = 1;
        setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::lock_guard<std::mutex> l(mu);
        connections_.emplace_back([this, c] { Serve(c); });
      }
    });
  }
  ~Server() {
    stop_ = true;
    acceptor_.join();
    for (auto& t : connections_) t.join();
    close(fd_);
  }

  int port;
  std::mutex mu;
  std::map<std::string, Hop> hops;  // by path
  std::map<std::string, std::vector<Received>> received;
  std::map<std::string, int> hanging;

 private:
  bool Send(int c, const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      pollfd p = {c, POLLOUT, 0};
      if (stop_) return false;
      if (poll(&p, 1, 50) <= 0) continue;
      ssize_t n = send(c, s.data() + at, s.size() - at, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (n < 0 && (errno == EAGAIN || errno == EINTR)) continue;
      if (n <= 0) return false;
      at += n;
    }
    return true;
  }
  bool More(int c, std::string& in) {
    while (!stop_) {
      pollfd p = {c, POLLIN, 0};
      if (poll(&p, 1, 50) <= 0) continue;
      char buf[65536];
      ssize_t n = recv(c, buf, sizeof buf, 0);
      if (n <= 0) return false;
      in.append(buf, n);
      return true;
    }
    return false;
  }
  bool Line(int c, std::string& in, std::string& out) {
    size_t e;
    while ((e = in.find("\r\n")) == std::string::npos) {
      if (!More(c, in)) return false;
    }
    out = in.substr(0, e);
    in.erase(0, e + 2);
    return true;
  }

  bool Read(int c, std::string& in, Received& q) {
    std::string line;
    if (!Line(c, in, line)) return false;
    size_t a = line.find(' '), b = line.rfind(' ');
    q.method = line.substr(0, a);
    q.path = line.substr(a + 1, b - a - 1);
    std::string length, transfer;
    while (true) {
      if (!Line(c, in, line)) return false;
      if (line.empty()) break;
      size_t k = line.find(':');
      std::string key = line.substr(0, k), value = line.substr(k + 1);
      while (!value.empty() && value[0] == ' ') value.erase(0, 1);
      q.headers.push_back({key, value});
      if (Lower(key) == "content-length") length = value;
      if (Lower(key) == "transfer-encoding") transfer = Lower(value);
      if (Lower(key) == "expect") Send(c, "HTTP/1.1 100 Continue\r\n\r\n");
    }
    q.whole = false;
    if (transfer == "chunked") {
      while (true) {
        if (!Line(c, in, line)) return true;
        size_t n = strtoul(line.c_str(), nullptr, 16);
        while (in.size() < n + 2) {
          if (!More(c, in)) return true;
        }
        q.body += in.substr(0, n);
        in.erase(0, n + 2);
        if (!n) break;
      }
    } else if (!length.empty()) {
      size_t n = strtoul(length.c_str(), nullptr, 10);
      while (in.size() < n) {
        if (!More(c, in)) {
          q.body = in;
          return true;
        }
      }
      q.body = in.substr(0, n);
      in.erase(0, n);
    }
    q.whole = true;
    return true;
  }

  void Serve(int c) {
    std::string in;
    while (!stop_) {
      Received q;
      if (!Read(c, in, q)) break;
      Hop h;
      bool known;
      {
        std::lock_guard<std::mutex> l(mu);
        received[q.path].push_back(q);
        known = hops.count(q.path);
        if (known) h = hops[q.path];
      }
      if (!q.whole || !known || !Answer(c, q, h, in)) break;
    }
    close(c);
  }

  void HangUntilClosed(int c, const std::string& path) {
    {
      std::lock_guard<std::mutex> l(mu);
      ++hanging[path];
    }
    std::string rest;
    while (!stop_ && More(c, rest)) {
    }
  }

  bool Answer(int c, const Received& q, const Hop& h, std::string& in) {
    if (h.fault == Hop::kReset) {
      linger l = {1, 0};
      setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l);
      return false;
    }
    if (h.fault == Hop::kHangBefore) {
      HangUntilClosed(c, q.path);
      return false;
    }
    std::string out;
    for (int p : h.provisional) out += Format("HTTP/1.1 %d On the way\r\nX-Provisional: yes\r\n\r\n", p);
    bool bodiless = q.method == "HEAD" || h.code == 204 || h.code == 304;
    out += Format("HTTP/1.1 %d Some: reason\r\n", h.code);
    for (auto& [k, v] : h.headers) out += k + ": " + v + "\r\n";
    if (h.framing == Hop::kLength && !(h.code == 204)) out += Format("Content-Length: %zu\r\n", h.body.size());
    if (h.framing == Hop::kChunked && h.code != 204) out += "Transfer-Encoding: chunked\r\n";
    bool keep = h.keep && h.framing != Hop::kClose && h.fault == Hop::kNone;
    if (!keep) out += "Connection: close\r\n";
    out += "\r\n";
    if (!bodiless) {
      size_t limit = h.fault == Hop::kNone ? h.body.size() : std::min(h.cut, h.body.size());
      if (h.framing == Hop::kChunked) {
        size_t at = 0, k = 0;
        while (at < limit) {
          size_t n = std::min<size_t>(limit - at, h.chunks.empty() ? limit : h.chunks[k++ % h.chunks.size()]);
          out += Format("%zx\r\n", n) + h.body.substr(at, n) + "\r\n";
          at += n;
        }
        if (h.fault == Hop::kNone) {
          out += "0\r\n";
          for (auto& [tk, tv] : h.trailers) out += tk + ": " + tv + "\r\n";
          out += "\r\n";
        }
      } else {
        out += h.body.substr(0, limit);
      }
    }
    // In pieces.
    size_t at = 0;
    for (int piece = 0; at < out.size(); ++piece) {
      size_t n = piece < 3 ? std::max<size_t>(1, out.size() / 4) : out.size() - at;
      n = std::min(n, out.size() - at);
      if (!Send(c, out.substr(at, n))) return false;
      at += n;
      if (piece < 2 && (out.size() % 3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    if (h.fault == Hop::kHangIn) {
      HangUntilClosed(c, q.path);
      return false;
    }
    return keep;
  }

  int fd_;
  std::atomic<bool> stop_{false};
  std::thread acceptor_;
  std::vector<std::thread> connections_;
};

// ---- requests and callbacks ---------------------------------------------------------------

struct Request : public HttpRequest {
  std::string uri_, body;
  Method method_;
  HeaderList headers;
  bool has_body = false;
  size_t at = 0;
  uint64_t seed = 0;
  int64_t fail_at = -1;  // reading fails at this offset
  absl::Status failure;
  int* alive;
  ~Request() override { --*alive; }
  absl::string_view uri() const override { return uri_; }
  Method method() const override { return method_; }
  const HeaderList& extra_headers() const override { return headers; }
  bool HasBody() const override { return has_body; }
  absl::StatusOr<int64_t> ReadBody(char* buffer, int64_t requested) override {
    if (fail_at >= 0 && static_cast<int64_t>(at) >= fail_at) return failure;
    if (at == body.size()) return absl::OutOfRangeError("end");
    Rng rng(seed, at);
    size_t n = rng.Range(1, requested);
    n = std::min(n, body.size() - at);
    if (fail_at >= 0) n = std::min<size_t>(n, fail_at - at);
    memcpy(buffer, body.data() + at, n);
    at += n;
    return n;
  }
};

struct Callback : public HttpRequestCallback {
  enum What { kStarted, kBody, kCompleted, kError, kBodyError };
  std::mutex mu;
  std::vector<What> events;
  const HttpRequest* request = nullptr;
  const HttpResponse* response = nullptr;
  int code = 0;
  HeaderList headers;
  std::string body;
  absl::Status error;
  bool wrong_object = false;
  // What to do at a Started or after so many pieces of the body.
  bool refuse_start = false, cancel_at_start = false;
  int refuse_body = -1, cancel_body = -1, pieces = 0;
  bool ask_bytes = false;
  HttpRequestHandle* handle = nullptr;

  void Ask() {
    if (ask_bytes) (void)handle->TotalSentReceivedBytes();
  }
  void Note(What w, const HttpRequest& q, const HttpResponse* p) {
    std::lock_guard<std::mutex> l(mu);
    events.push_back(w);
    if (request && request != &q) wrong_object = true;
    request = &q;
    if (p) {
      if (response && response != p) wrong_object = true;
      response = p;
    }
  }
  absl::Status OnResponseStarted(const HttpRequest& q, const HttpResponse& p) override {
    Note(kStarted, q, &p);
    code = p.code();
    headers = p.headers();
    if (cancel_at_start) handle->Cancel();
    if (refuse_start) return absl::InternalError("refused");
    return absl::OkStatus();
  }
  void OnResponseError(const HttpRequest& q, const absl::Status& e) override {
    Note(kError, q, nullptr);
    error = e;
  }
  absl::Status OnResponseBody(const HttpRequest& q, const HttpResponse& p, absl::string_view data) override {
    Note(kBody, q, &p);
    body.append(data.data(), data.size());
    ++pieces;
    if (pieces == cancel_body) handle->Cancel();
    if (pieces == refuse_body) return absl::InternalError("refused");
    return absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest& q, const HttpResponse& p, const absl::Status& e) override {
    Note(kBodyError, q, &p);
    error = e;
    Ask();
  }
  void OnResponseCompleted(const HttpRequest& q, const HttpResponse& p) override {
    Note(kCompleted, q, &p);
    Ask();
  }
  bool refused() const { return refuse_start || (refuse_body > 0 && pieces >= refuse_body); }

  std::string Text() const {
    std::string s;
    for (What w : events) s += std::string(s.empty() ? "" : " ") + std::array<const char*, 5>{"started", "body", "completed", "error", "body-error"}[w];
    return s;
  }
  // Started Body* (Completed | BodyError) | Error, cut short by a refusal.
  bool Grammatical() const {
    if (events.empty()) return false;
    if (events[0] == kError) return events.size() == 1;
    if (events[0] != kStarted) return false;
    if (refuse_start) return events.size() == 1;
    int bodies = 0;
    for (size_t k = 1; k < events.size(); ++k) {
      if (events[k] == kBody) {
        ++bodies;
        if (bodies == refuse_body) return k + 1 == events.size();
        continue;
      }
      return (events[k] == kCompleted || events[k] == kBodyError) && k + 1 == events.size();
    }
    return false;
  }
};

struct Planned {
  std::string path, body, expected_body;
  std::vector<std::string> paths;
  Method method;
  HeaderList extra;
  bool own_encoding = false, has_length = false, has_body = false;
  Hop last;
  HeaderList expected_headers;
  int64_t fail_at = -1;
  absl::Status failure;
  bool too_many = false;
  std::unique_ptr<HttpRequestHandle> handle;
  Callback cb;
  // Cancelled from another thread while the server hangs.
  bool cancel_other = false;
  bool cancel_sometime = false;
};

void One(Report& r, Server& server, HttpClient& client, Rng& rng, const std::string& prefix, int n, bool hang, bool sometime, int* alive) {
  std::vector<std::unique_ptr<Planned>> plan;
  for (int k = 0; k < n; ++k) {
    auto p = std::make_unique<Planned>();
    p->path = prefix + Format("/%d", k);
    double d = rng.Unit();
    p->method = d < 0.5 ? Method::kGet : d < 0.6 ? Method::kHead : d < 0.85 ? Method::kPost : Method::kPut;
    bool upload = p->method == Method::kPost || p->method == Method::kPut;
    // The chain of responses.
    int hops = upload ? 0 : rng.Chance(0.6) ? 0 : rng.Range(1, 3);
    p->too_many = !upload && !hang && rng.Chance(0.01);
    std::string at = p->path + "/0";
    std::lock_guard<std::mutex> l(server.mu);
    for (int h = 0; h < hops; ++h) {
      Hop hop;
      hop.code = rng.Pick(std::vector<int>{301, 302, 303, 307, 308});
      std::string next = p->path + Format("/%d", h + 1);
      hop.headers.push_back({rng.Pick(std::vector<std::string>{"Location", "location"}),
                             rng.Chance(0.5) ? next : Format("http://127.0.0.1:%d", server.port) + next});
      hop.headers.push_back({"X-Hop", "yes"});
      if (rng.Chance(0.5)) hop.headers.push_back({"Set-Cookie", "hop=1"});
      if (rng.Chance(0.5)) hop.body = rng.Bytes(rng.Below(100));
      hop.framing = rng.Chance(0.7) ? Hop::kLength : Hop::kChunked;
      if (rng.Chance(0.3)) hop.provisional.push_back(103);
      hop.keep = rng.Chance(0.8);
      if (p->too_many && h == 0) hop.headers[0].second = at;
      server.hops[at] = hop;
      p->paths.push_back(at);
      if (p->too_many) break;
      at = next;
    }
    if (hops == 0) p->too_many = false;
    Hop& last = p->last;
    last.code = rng.Chance(0.6) ? 200 : rng.Pick(std::vector<int>{201, 204, 206, 300, 301, 302, 304, 307, 400, 403, 404, 429, 500, 503});
    for (int m = rng.Range(1, 3); m > 0 && rng.Chance(0.3); --m) last.provisional.push_back(rng.Pick(std::vector<int>{100, 102, 103}));
    std::string plain;
    if (!rng.Chance(0.15)) {
      plain = rng.Chance(0.5) ? rng.Bytes(rng.Below(rng.Chance(0.1) ? 300000 : 2000)) : std::string(rng.Below(20000), 'z');
    }
    bool gz = rng.Chance(0.3);
    // Declared as well when there is nothing in it.
    last.body = gz ? Gzip(plain) : plain;
    double f = rng.Unit();
    last.framing = f < 0.4 ? Hop::kLength : f < 0.85 ? Hop::kChunked : Hop::kClose;
    for (int m = rng.Range(1, 4); m > 0; --m) last.chunks.push_back(rng.Range(1, rng.Chance(0.3) ? 10 : 9000));
    if (last.body.size() > 20000) last.chunks = {4000};
    bool redirect = last.code / 100 == 3;
    if (!redirect && rng.Chance(0.5)) last.trailers.push_back({"X-Trailer", "t:1"});
    if (!redirect && rng.Chance(0.2)) last.trailers.push_back({"HTTP-Like", "x"});
    if (rng.Chance(0.5)) last.headers.push_back({"Content-Type", "text/plain; a=\"b:c\""});
    if (rng.Chance(0.3)) last.headers.push_back({"Set-Cookie", Format("a=%d; Path=/", k)});
    if (rng.Chance(0.3)) last.headers.push_back({"Set-Cookie", "b=2"});
    if (rng.Chance(0.3)) last.headers.push_back({"Date", "Mon, 01 Jan 2024 10:20:30 GMT"});
    if (rng.Chance(0.2)) last.headers.push_back({"X-Empty", ""});
    if (gz) last.headers.push_back({"Content-Encoding", "gzip"});
    rng.Shuffle(last.headers);
    last.keep = rng.Chance(0.7);
    bool bodiless = p->method == Method::kHead || last.code == 204 || last.code == 304;
    if (hang && k == 0) {
      last.fault = (rng.Chance(0.5) || bodiless) ? Hop::kHangBefore : Hop::kHangIn;
      p->cancel_other = true;
    } else if (rng.Chance(0.12)) {
      last.fault = bodiless ? Hop::kReset : rng.Chance(0.4) ? Hop::kReset : Hop::kCut;
    }
    if (last.fault == Hop::kCut && last.framing == Hop::kClose) last.framing = Hop::kLength;
    if ((last.fault == Hop::kCut || last.fault == Hop::kHangIn) && last.body.empty()) last.body = plain = "some", last.headers.erase(std::remove_if(last.headers.begin(), last.headers.end(), [](auto& x) { return x.first == "Content-Encoding"; }), last.headers.end()), gz = false;
    if (last.fault == Hop::kCut || last.fault == Hop::kHangIn) last.cut = rng.Below(last.body.size());
    // The request.
    if (rng.Chance(0.3)) p->own_encoding = true, p->extra.push_back({rng.Chance(0.5) ? "Accept-Encoding" : "accept-encoding", rng.Pick(std::vector<std::string>{"gzip", "identity", "gzip, deflate"})});
    if (rng.Chance(0.5)) p->extra.push_back({"X-Extra", Format("value: %d", k)});
    if (rng.Chance(0.2)) p->extra.push_back({"Cookie", "mine=1"});
    if (upload) {
      p->has_body = !rng.Chance(0.1);
      p->body = p->has_body ? rng.Bytes(rng.Below(rng.Chance(0.1) ? 200000 : 3000)) : "";
      if (p->body.empty()) p->has_body = false;
      p->has_length = p->has_body && rng.Chance(0.6);
      if (p->has_length) p->extra.push_back({rng.Chance(0.5) ? "Content-Length" : "content-length", std::to_string(p->body.size())});
      if (rng.Chance(0.3)) p->extra.push_back({"Content-Encoding", "gzip"});
      if (p->has_body && !hang && rng.Chance(0.08)) {
        p->fail_at = rng.Below(p->body.size());
        p->failure = absl::Status(rng.Pick(std::vector<absl::StatusCode>{absl::StatusCode::kDataLoss, absl::StatusCode::kInternal, absl::StatusCode::kAborted}), "cannot read");
      }
    }
    rng.Shuffle(p->extra);
    // What is to be seen.
    p->expected_headers = last.headers;
    if (last.framing == Hop::kLength && last.code != 204) p->expected_headers.push_back({"Content-Length", std::to_string(last.body.size())});
    if (!(last.keep && last.framing != Hop::kClose && last.fault == Hop::kNone)) p->expected_headers.push_back({"Connection", "close"});
    if (!p->own_encoding) {
      auto& e = p->expected_headers;
      e.erase(std::remove_if(e.begin(), e.end(), [](const Header& h) { return Lower(h.first) == "content-length" || Lower(h.first) == "content-encoding"; }), e.end());
    }
    p->expected_body = bodiless ? "" : (p->own_encoding ? last.body : plain);
    if (!p->too_many) {
      server.hops[at] = last;
      p->paths.push_back(at);
    }
    // What the callback does.
    if (!p->cancel_other && !sometime) {
      double c = rng.Unit();
      if (c < 0.05) p->cb.refuse_start = true;
      else if (c < 0.1) p->cb.refuse_body = rng.Range(1, 3);
      else if (c < 0.15) p->cb.cancel_at_start = true;
      else if (c < 0.2) p->cb.cancel_body = rng.Range(1, 3);
    }
    p->cb.ask_bytes = rng.Chance(0.3);
    auto q = std::make_unique<Request>();
    q->uri_ = Format("http://127.0.0.1:%d", server.port) + p->path + "/0";
    q->body = p->body;
    q->method_ = p->method;
    q->headers = p->extra;
    q->has_body = p->has_body;
    q->seed = rng.U64();
    q->fail_at = p->fail_at;
    q->failure = p->failure;
    q->alive = alive;
    ++*alive;
    p->handle = client.EnqueueRequest(std::move(q));
    p->cb.handle = p->handle.get();
    plan.push_back(std::move(p));
  }
  std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> requests;
  for (auto& p : plan) requests.push_back({p->handle.get(), &p->cb});
  // Cancelling from elsewhere.
  std::atomic<bool> done{false};
  std::thread other;
  uint64_t nap = rng.Below(6000);
  if (hang) {
    other = std::thread([&] {
      while (!done) {
        {
          std::lock_guard<std::mutex> l(server.mu);
          if (server.hanging.count(plan[0]->paths.back())) break;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      }
      std::this_thread::sleep_for(std::chrono::microseconds(nap));
      plan[0]->handle->Cancel();
      plan[0]->handle->Cancel();
    });
  } else if (sometime) {
    other = std::thread([&] {
      std::this_thread::sleep_for(std::chrono::microseconds(nap));
      for (auto& p : plan) p->handle->Cancel();
    });
  }
  absl::Status status = client.PerformRequests(requests);
  done = true;
  if (other.joinable()) other.join();
  r.Eval();
  bool early = sometime && !status.ok();
  if (!status.ok() && !sometime) r.Violation("perform-fails", status.ToString());
  for (auto& p : plan) {
    const Callback& cb = p->cb;
    const Hop& last = p->last;
    std::string what = Format("%s, code %d, %zu hops, framing %d, fault %d, %zu bytes: %s (%s)", p->path.c_str(), last.code, p->paths.size() - 1, last.framing,
                              last.fault, p->expected_body.size(), cb.Text().c_str(), cb.error.ToString().c_str());
    if (r.WantsSample()) r.Sample(what);
    r.Eval(3);
    if (early) {
      // Cancelled before it began.
      for (auto w : cb.events) {
        if (w == Callback::kStarted) r.Violation("started-though-cancelled", what);
      }
      continue;
    }
    if (!cb.Grammatical()) {
      r.Violation("wrong-order-of-callbacks", what);
      continue;
    }
    if (cb.wrong_object) r.Violation("wrong-object", what);
    auto end = cb.events.back();
    bool started = cb.events[0] == Callback::kStarted;
    // The response outlives the call.
    if (started && (cb.response->code() != cb.code || cb.response->headers() != cb.headers)) r.Violation("response-changes", what);
    if (started) {
      if (cb.code != last.code || p->too_many) r.Violation("wrong-code", what + Format(" got %d", cb.code));
      HeaderList got = cb.headers, want = p->expected_headers;
      std::stable_sort(got.begin(), got.end(), [](auto& a, auto& b) { return a.first < b.first; });
      std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; });
      if (got != want) {
        std::string text;
        for (auto& [hk, hv] : got) text += hk + ": " + hv + "; ";
        r.Violation("wrong-headers", what + " got " + text);
      }
      bool prefix = p->expected_body.compare(0, cb.body.size(), cb.body) == 0;
      if (!prefix) r.Violation("wrong-body", what);
    }
    bool cancelled = p->cancel_other || cb.cancel_at_start || (cb.cancel_body > 0 && cb.pieces >= cb.cancel_body);
    if (cb.refused()) {
      r.Count("refused by the callback");
    } else if (p->fail_at >= 0 && !sometime) {
      r.Count("bodies that cannot be read");
      if (end != Callback::kError || cb.error.code() != p->failure.code()) r.Violation("read-error-not-reported", what);
    } else if (p->too_many && !sometime) {
      r.Count("endless redirects");
      if (end != Callback::kError || cb.error.code() != absl::StatusCode::kOutOfRange) r.Violation("endless-redirect-not-reported", what);
    } else if (cancelled && (started || p->cancel_other)) {
      r.Count(p->cancel_other ? "cancelled while waiting" : "cancelled in a callback");
      if ((end != Callback::kError && end != Callback::kBodyError) || cb.error.code() != absl::StatusCode::kCancelled) {
        r.Violation("cancellation-not-reported", what);
      }
      if (p->cancel_other && last.fault == Hop::kHangBefore && end != Callback::kError) r.Violation("wrong-order-of-callbacks", what);
    } else if (sometime) {
      if (end == Callback::kError || end == Callback::kBodyError) {
        if (cb.error.code() == absl::StatusCode::kCancelled) r.Count("cancelled at some time");
        else if (last.fault == Hop::kNone && p->fail_at < 0 && !p->too_many) r.Violation("wrong-error", what);
        if (cb.error.ok()) r.Violation("error-without-error", what);
      } else if (last.fault != Hop::kNone || cb.body != p->expected_body) {
        r.Violation("broken-response-completed", what);
      }
    } else if (last.fault == Hop::kReset || last.fault == Hop::kCut) {
      r.Count("broken responses");
      if (end == Callback::kCompleted || cb.error.ok()) r.Violation("broken-response-completed", what);
      if (last.fault == Hop::kReset && end != Callback::kError) r.Violation("wrong-order-of-callbacks", what);
    } else {
      r.Count("whole responses");
      if (end != Callback::kCompleted) r.Violation("response-not-completed", what);
      else if (cb.body != p->expected_body) r.Violation("wrong-body", what);
      auto bytes = p->handle->TotalSentReceivedBytes();
      if (p->paths.size() == 1 && last.framing != Hop::kChunked && (p->has_length || p->method == Method::kGet || p->method == Method::kHead)) {
        bool bodiless = p->method == Method::kHead || last.code == 204 || last.code == 304;
        size_t wire = bodiless ? 0 : last.body.size();
        r.Count("traffic judged");
        if (bytes.sent_bytes != static_cast<int64_t>(p->body.size()) || bytes.received_bytes != static_cast<int64_t>(wire)) {
          r.Violation("wrong-traffic-count", what + Format(" sent %lld of %zu, received %lld of %zu", (long long)bytes.sent_bytes, p->body.size(),
                                                           (long long)bytes.received_bytes, wire));
        }
      }
      // A handle is good for one call.
      size_t before = cb.events.size();
      if (rng.Chance(0.1)) {
        if (client.PerformRequests({{p->handle.get(), &p->cb}}).ok() || cb.events.size() != before) r.Violation("handle-used-twice", what);
      }
    }
    // What the server saw.
    std::lock_guard<std::mutex> l(server.mu);
    for (size_t h = 0; h < p->paths.size(); ++h) {
      const auto& seen = server.received[p->paths[h]];
      bool exact = !p->too_many && !sometime && p->fail_at < 0;
      // A request on a used connection that is reset is made again.
      bool again = last.fault == Hop::kReset && h + 1 == p->paths.size();
      if (exact && ((seen.size() > 1 && !again) || (seen.empty() && (end == Callback::kCompleted)))) {
        r.Violation("wrong-number-of-requests", what + Format(": %zu at hop %zu", seen.size(), h));
      }
      for (const Received& q : seen) {
        r.Count("requests seen by the server");
        static const char* names[] = {"HEAD", "GET", "POST", "PUT"};
        std::string bad;
        if (q.method != names[static_cast<int>(p->method)]) bad = "method " + q.method;
        std::vector<std::string> encodings, cookies, lengths, transfers;
        for (auto& [hk, hv] : q.headers) {
          std::string low = Lower(hk);
          if (low == "accept-encoding") encodings.push_back(hv);
          if (low == "cookie") cookies.push_back(hv);
          if (low == "content-length") lengths.push_back(hv);
          if (low == "transfer-encoding") transfers.push_back(hv);
        }
        bool mine = false;
        for (auto& [hk, hv] : p->extra) {
          std::string low = Lower(hk);
          if (low == "accept-encoding" && encodings != std::vector<std::string>{hv}) bad = "Accept-Encoding";
          if (low == "cookie") mine = true;
          if (low == "content-length" && lengths != std::vector<std::string>{hv}) bad = "Content-Length";
          int times = 0;
          for (auto& [sk, sv] : q.headers) times += Lower(sk) == low && sv == hv;
          if (times != 1) bad = "header " + hk;
        }
        if (!p->own_encoding && (encodings.size() != 1 || encodings[0].find("gzip") == std::string::npos)) bad = "no Accept-Encoding";
        if (cookies.size() != (mine ? 1 : 0)) bad = "cookies";
        if (p->has_body && p->has_length && !transfers.empty()) bad = "Transfer-Encoding";
        if (p->has_body && !p->has_length && (transfers != std::vector<std::string>{"chunked"} || !lengths.empty())) bad = "not chunked";
        if (q.whole && p->fail_at < 0 && q.body != p->body) bad = "body";
        if (p->fail_at >= 0 && q.whole && p->has_length) bad = "whole body though reading failed";
        if (!bad.empty()) r.Violation("wrong-request-sent", bad + " of " + what);
      }
    }
  }
}

void Run(Report& r, bool threads) {
  fcp::client::http::curl::CurlApi api;
  for (int64_t i = 0; i < (threads ? r.N(20, 400) : r.N(500, 8000)); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xC041 + i + (threads ? 1000000 : 0));
    r.Case(i);
    Server server;
    fcp::client::http::curl::CurlHttpClient client(&api);
    int alive = 0;
    if (!threads) {
      bool hang = rng.Chance(0.06), sometime = !hang && rng.Chance(0.06);
      One(r, server, client, rng, Format("/c%lld", (long long)i), rng.Range(1, hang ? 2 : 5), hang, sometime, &alive);
      r.Distinct(Format("%llu", (unsigned long long)rng.U64()));
      // Cancelled before it is performed; a method that is not supported.
      if (rng.Chance(0.2)) {
        bool unsupported = rng.Chance(0.5);
        auto q = std::make_unique<Request>();
        q->uri_ = Format("http://127.0.0.1:%d/never", server.port);
        q->method_ = unsupported ? rng.Pick(std::vector<Method>{Method::kPatch, Method::kDelete}) : Method::kGet;
        q->alive = &alive;
        ++alive;
        auto handle = client.EnqueueRequest(std::move(q));
        Callback cb;
        cb.handle = handle.get();
        if (!unsupported) handle->Cancel();
        absl::Status s = client.PerformRequests({{handle.get(), &cb}});
        r.Eval();
        r.Count(unsupported ? "unsupported methods" : "cancelled beforehand");
        bool told = !cb.events.empty() && cb.events[0] == Callback::kError && !cb.error.ok();
        if ((unsupported && !told) || (!unsupported && s.ok()) || cb.events.size() > 1) {
          r.Violation(unsupported ? "unsupported-method-not-reported" : "performed-though-cancelled", s.ToString() + " " + cb.Text());
        }
        std::lock_guard<std::mutex> l(server.mu);
        if (server.received.count("/never")) r.Violation("request-made", "/never");
      }
      r.Eval();
      if (alive != 0) r.Violation("request-not-deleted", Format("%d", alive));
    } else {
      std::vector<std::thread> ts;
      std::vector<int> live(4);
      for (int t = 0; t < 4; ++t) {
        ts.emplace_back([&, t] {
          Rng mine(r.seed, 0xC0417 + i * 16 + t);
          for (int k = 0; k < 5; ++k) {
            bool hang = mine.Chance(0.1);
            One(r, server, client, mine, Format("/c%lld-%d-%d", (long long)i, t, k), mine.Range(1, 4), hang, !hang && mine.Chance(0.3), &live[t]);
          }
        });
      }
      for (auto& t : ts) t.join();
      for (int n : live) {
        if (n) r.Violation("request-not-deleted", Format("%d", n));
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  for (const char* v : {"http_proxy", "https_proxy", "all_proxy", "HTTPS_PROXY", "ALL_PROXY"}) unsetenv(v);
  setenv("no_proxy", "*", 1);
  Report r(argc, argv);
  if (r.mode == "client") Run(r, false);
  else if (r.mode == "client-threads") Run(r, true);
  else Report::Broken("mode?");
  return r.Finish();
}
