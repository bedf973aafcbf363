// Whole sessions between a client and a scripted server: check-ins,
// assignments, uploads of every kind, and when to come back.
#include <openssl/sha.h>

#include <deque>
#include <filesystem>
#include <map>
#include <set>
#include <thread>

#include "client_fakes.h"
#include "common.h"
#include "fcp/base/digest.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/engine/engine.pb.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/client/secagg_event_publisher.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
#include "fcp/protos/federatedcompute/confidential_aggregations.pb.h"
#include "fcp/protos/federatedcompute/eligibility_eval_tasks.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "fcp/protos/population_eligibility_spec.pb.h"
#include "google/longrunning/operations.pb.h"
#include "http_fake.h"
#include "perturb.h"

namespace {
using namespace google::internal::federatedcompute::v1;  // NOLINT
using namespace verif;                                    // NOLINT
using fcp::client::ComputationResults;
using fcp::client::FederatedProtocol;
using fcp::client::QuantizedTensor;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using google::longrunning::Operation;
using Code = absl::StatusCode;
namespace secagg = fcp::secagg;

namespace http = fcp::client::http;

struct Settings : public fcp::client::Flags {
  bool confidential = false, plain = false, light = false, untied = false;
  std::vector<int32_t> permanent;
  int64_t condition_polling_period_millis() const override { return 1; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1; }
  bool log_tensorflow_error_messages() const override { return false; }
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return 20000; }
  float federated_training_transient_errors_retry_delay_jitter_percent() const override { return 0.1; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return 60000; }
  float federated_training_permanent_errors_retry_delay_jitter_percent() const override { return 0.1; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override { return permanent; }
  bool disable_http_request_body_compression() const override { return plain; }
  bool enable_lightweight_client_report_wire_format() const override { return light; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untied; }
  bool enable_confidential_aggregation() const override { return confidential; }
  int32_t waiting_period_sec_for_cancellation() const override { return 300; }
};

// Keeps the time but does not wait.
struct Hurry : public fcp::Clock {
  absl::Time Now() override { return absl::Now(); }
  absl::Time NowLocked() override { return absl::Now(); }
  void Sleep(absl::Duration) override {}

 private:
  void ScheduleWakeup(absl::Time) override {}
};

struct Events : public fcp::client::SecAggEventPublisher {
  void PublishStateTransition(secagg::ClientState, size_t, size_t) override {}
  void PublishError() override {}
  void PublishAbort(bool, const std::string&) override {}
  void set_execution_session_id(int64_t) override {}
};

struct Verifier : public fcp::client::attestation::AttestationVerifier {
  bool refuse = false;
  int calls = 0;
  std::string policy, config;
  absl::StatusOr<fcp::confidential_compute::OkpKey> Verify(const absl::Cord& p, const ConfidentialEncryptionConfig& c) override {
    ++calls;
    policy = std::string(p);
    config = c.SerializeAsString();
    if (refuse) return absl::FailedPreconditionError("hidden reason");
    auto cwt = fcp::confidential_compute::OkpCwt::Decode(c.public_key());
    if (!cwt.ok() || !cwt->public_key) return fcp::confidential_compute::OkpKey{.key_id = "bad"};
    return *cwt->public_key;
  }
};

// Stands in for the client side of secure aggregation: sends what it is told.
struct Rounds {
  struct Step {
    secagg::ClientToServerWrapperMessage send;
    std::optional<secagg::ServerToClientWrapperMessage> want;  // none: an error
    std::optional<Code> code;
  };
  std::vector<Step> steps;
  absl::Status result;
  std::map<std::string, std::vector<uint64_t>> tensors;
  std::map<std::string, uint64_t> moduli;
  int64_t clients = 0, least = 0;
  // What was seen.
  int runs = 0;
  std::string complaint;
};

struct FakeRunner : public fcp::client::SecAggRunner {
  Rounds* rounds;
  std::unique_ptr<fcp::client::SecAggSendToServerBase> send;
  std::unique_ptr<fcp::client::SecAggProtocolDelegate> receive;
  absl::Status Run(ComputationResults results) override {
    Rounds& o = *rounds;
    ++o.runs;
    std::map<std::string, std::vector<uint64_t>> got;
    for (auto& [k, v] : results) {
      if (!std::holds_alternative<QuantizedTensor>(v)) o.complaint = "a checkpoint among the vectors";
      else got[k] = std::get<QuantizedTensor>(v).values;
    }
    if (got != o.tensors) o.complaint = "wrong vectors";
    for (auto& [k, m] : o.moduli) {
      auto got_m = receive->GetModulus(k);
      if (!got_m.ok() || *got_m != m) o.complaint = "wrong modulus of " + k;
    }
    if (receive->GetModulus("unknown vector").ok()) o.complaint = "a modulus out of nothing";
    for (auto& s : o.steps) {
      secagg::ClientToServerWrapperMessage m = s.send;
      send->Send(&m);
      auto reply = receive->ReceiveServerMessage();
      if (reply.ok() != s.want.has_value()) {
        o.complaint = "reply " + reply.status().ToString() + " to " + s.send.ShortDebugString();
        return absl::UnknownError("stop");
      }
      if (reply.ok() && reply->SerializeAsString() != s.want->SerializeAsString()) {
        o.complaint = "reply " + reply->ShortDebugString() + " to " + s.send.ShortDebugString();
      }
      if (!reply.ok()) {
        if (s.code && reply.status().code() != *s.code) o.complaint = "error " + reply.status().ToString() + " to " + s.send.ShortDebugString();
        return reply.status();
      }
    }
    return o.result;
  }
};

struct FakeRunners : public fcp::client::SecAggRunnerFactory {
  Rounds* rounds = nullptr;
  std::unique_ptr<fcp::client::SecAggRunner> CreateSecAggRunner(
      std::unique_ptr<fcp::client::SecAggSendToServerBase> send, std::unique_ptr<fcp::client::SecAggProtocolDelegate> receive,
      fcp::client::SecAggEventPublisher*, fcp::client::LogManager*, InterruptibleRunner*, int64_t clients, int64_t least) override {
    auto r = std::make_unique<FakeRunner>();
    r->rounds = rounds;
    r->send = std::move(send);
    r->receive = std::move(receive);
    if (clients != rounds->clients || least != rounds->least) rounds->complaint = "wrong parameters";
    return r;
  }
};

// A request the server expects during one call, and how it answers.
struct Expect {
  std::string what;
  Method method;
  std::string uri;
  std::string route;  // value of the header that forwarding asks for
  Script script;
  bool optional = false;
  int rank = 0;  // requests with a rank come in its order
  std::function<std::string(const std::string&)> judge;
  bool taken = false;    // a script was handed out
  bool matched = false;
};

struct Bad {
  Script script;
  Code code;
};

// Content that arrives as a resource.
struct Content {
  Resource resource;
  std::optional<std::string> data;
  std::set<Code> codes;  // if it cannot be had; empty for any
};

enum Window { kTransient, kPermanent, kRejected, kAccepted, kUnjudged };

struct Task {
  TaskAssignment proto;
  std::string host, plan, checkpoint, policy;
  bool usable = false, known = false;
  enum { kOpen, kReported, kFailed } state = kOpen;
};

struct Session {
  Report& r;
  Rng rng;
  std::string focus;
  Client client;
  Settings flags;
  Hurry clock;
  Logs logs;
  Events events;
  Rounds rounds;
  Verifier* verifier = nullptr;
  FakeRunners* runners = nullptr;
  std::deque<Expect> expects;
  size_t judged = 0;  // requests
  std::string population, api_key, version, measurement, trace;
  bool bad = false;
  int serial = 0;
  std::unique_ptr<HttpFederatedProtocol> protocol;
  std::set<std::string> blob_ids;

  Session(Report& report, uint64_t seed, const std::string& f) : r(report), rng(report.seed, seed), focus(f) {}

  // The windows are judged on their own.
  void Fail(const std::string& key, const std::string& d) {
    bool window_key = key == "wrong-retry-window";
    if (!bad && window_key == (focus == "windows")) r.Violation(key, d + "; session:" + trace);
    if (!window_key || focus == "windows") bad = true;
  }

  bool Interrupted() { return client.hanging > 0; }

  Script Ok(const std::string& body) {
    Script s;
    s.body = body;
    s.headers = {{"Content-Length", Format("%zu", body.size())}};
    s.sent = rng.Below(1000);
    s.received = rng.Below(1000);
    return s;
  }
  Bad AnyBad(bool hang = true) {
    Bad b;
    int k = rng.Below(hang ? 12 : 10);
    b.script = Ok("refused");
    if (k < 8) {
      b.script.code = std::vector<int>{400, 401, 403, 404, 409, 429, 500, 503}[k];
      b.code = CodeFor(b.script.code);
    } else if (k < 10) {
      b.script.end = Script::kErrorBefore;
      b.code = k == 8 ? Code::kUnavailable : Code::kDeadlineExceeded;
      b.script.error = absl::Status(b.code, "network");
    } else {
      b.script.end = Script::kHang;
      b.code = Code::kCancelled;
    }
    return b;
  }
  Expect& On(const std::string& what, Method m, const std::string& uri, Script s, const std::string& route, int rank = 0) {
    bool content = m == Method::kGet && rank == 0, upload = uri.find('?') != std::string::npos;
    expects.push_back({what, m, uri + (content || upload ? "" : "?%24alt=proto"), route, std::move(s), false, rank});
    return expects.back();
  }
  template <class M>
  static std::function<std::string(const std::string&)> Is(const M& want) {
    return [want](const std::string& body) -> std::string {
      M got;
      if (!got.ParseFromString(body)) return "cannot be parsed";
      if (got.SerializeAsString() != want.SerializeAsString()) return "is {" + got.ShortDebugString() + "}, not {" + want.ShortDebugString() + "}";
      return "";
    };
  }
  static std::function<std::string(const std::string&)> IsBytes(const std::string& want) {
    return [want](const std::string& body) { return body == want ? std::string() : Format("has %zu bytes, not %zu", body.size(), want.size()); };
  }

  std::string Host(const std::string& kind) {
    return Format("https://%c%s%d.example", static_cast<char>('a' + rng.Below(26)), kind.c_str(), serial++);
  }
  static ForwardingInfo Forward(const std::string& host) {
    ForwardingInfo f;
    f.set_target_uri_prefix(host);
    (*f.mutable_extra_request_headers())["x-route"] = host;
    return f;
  }

  // The judgement of the requests of one call.
  void Verify(const std::string& call) {
    std::lock_guard<std::mutex> l(client.mu);
    int rank = 0;
    for (; judged < client.seen.size(); ++judged) {
      const Seen& s = client.seen[judged];
      if (!s.performed) continue;
      Expect* e = nullptr;
      for (auto& x : expects) {
        if (!x.matched && x.uri == s.uri && x.method == s.method) {
          e = &x;
          break;
        }
      }
      r.Eval();
      r.Count("requests judged");
      if (!e) {
        Fail("unexpected-request", call + ": " + s.uri);
        continue;
      }
      e->matched = true;
      if (e->rank && e->rank < rank) Fail("requests-out-of-order", call + ": " + e->what);
      rank = std::max(rank, e->rank);
      std::string body = s.body;
      bool routed = e->route.empty(), zipped = false, keyed = e->method == Method::kGet && e->rank == 0;
      for (auto& [k, v] : s.headers) {
        if (Lower(k) == "content-encoding" && v == "gzip") zipped = true;
        if (Lower(k) == "x-goog-api-key" && v == api_key) keyed = true;
        if (Lower(k) == "x-route") routed = v == e->route;
      }
      if (!routed) Fail("request-not-routed", call + ": " + e->what);
      if (!keyed) Fail("request-without-key", call + ": " + e->what);
      if (zipped) {
        auto plain = Gunzip(body);
        body = plain ? *plain : "<damaged>";
      }
      if (e->judge) {
        std::string d = e->judge(body);
        if (!d.empty()) Fail("wrong-request", call + ": " + e->what + " " + d);
      }
    }
    for (auto& x : expects) {
      if (!x.matched && !x.optional && !bad) Fail("missing-request", call + ": " + x.what + " " + x.uri);
    }
    expects.clear();
  }

  // Which window the client is sent away with.
  void Judge(Window w) {
    auto window = protocol->GetLatestRetryWindow();
    double lo = window.delay_min().seconds() + window.delay_min().nanos() / 1e9;
    double hi = window.delay_max().seconds() + window.delay_max().nanos() / 1e9;
    r.Eval();
    Window got = lo < 3000 ? kRejected : lo < 10000 ? kAccepted : lo < 40000 ? kTransient : kPermanent;
    static const double kLo[] = {18000, 54000, 1000, 5000}, kHi[] = {22000, 66000, 1100, 5100};
    if (lo > hi || lo < kLo[got] - 600 || hi > kHi[got] + 1) Fail("wrong-retry-window", Format("%g to %g s", lo, hi));
    if (w != kUnjudged && got != w) {
      static const char* kName[] = {"transient", "permanent", "rejected", "accepted"};
      Fail("wrong-retry-window", Format("%s instead of %s (%g s)", kName[got], kName[w], lo));
    }
    // Whatever was asked, the time to come back stays.
    if (got == kRejected || got == kAccepted) {
      double at = absl::ToDoubleSeconds(absl::Now() - absl::UnixEpoch()) + lo;
      auto& known = back[got];
      if (known == 0) known = at;
      if (std::abs(known - at) > 30) Fail("wrong-retry-window", Format("moved by %g s", at - known));
    }
    r.Count("windows judged");
    if (w == kPermanent) r.Count("permanent windows");
    if (w == kAccepted) r.Count("accepted windows");
  }
  std::map<int, double> back;

  bool Permanent(const absl::Status& s) {
    return std::find(flags.permanent.begin(), flags.permanent.end(), static_cast<int>(s.code())) != flags.permanent.end();
  }

  void Expected(const std::string& call, const absl::Status& got, const std::set<Code>& codes) {
    r.Eval();
    r.Count("failed calls");
    if (got.ok()) {
      Fail("failure-not-reported", call);
    } else if (!codes.empty() && !codes.count(got.code())) {
      Fail("wrong-error", call + ": " + got.ToString());
    }
  }

  Content Make(const std::string& data, bool may_fail = true, bool may_hang = false) {
    Content c;
    int k = rng.Below(10);
    bool broken = may_fail && rng.Chance(0.15);
    auto* inl = [&] { return c.resource.mutable_inline_resource(); }();
    c.resource.Clear();
    if (broken) {
      switch (rng.Below(4)) {
        case 0:
          c.resource.set_uri("");
          c.codes = {Code::kInvalidArgument};
          break;
        case 1:
          inl = c.resource.mutable_inline_resource();
          inl->set_data(data);
          inl->set_compression_format(static_cast<ResourceCompressionFormat>(7));
          c.codes = {Code::kUnimplemented};
          break;
        case 2:
          inl = c.resource.mutable_inline_resource();
          inl->set_data("not compressed at all");
          inl->set_compression_format(RESOURCE_COMPRESSION_FORMAT_GZIP);
          break;
        case 3: {
          Bad b = AnyBad(may_hang);
          std::string uri = Format("https://content.example/%d", serial++);
          c.resource.set_uri(uri);
          On("content", Method::kGet, uri, b.script, "").optional = true;
          c.codes = {b.code};
          break;
        }
      }
      return c;
    }
    c.data = data;
    if (data.empty() && k < 3) return c;
    if (k < 3) {
      c.resource.mutable_inline_resource()->set_data(data);
    } else if (k < 5) {
      inl = c.resource.mutable_inline_resource();
      inl->set_data(Gzip(data));
      inl->set_compression_format(RESOURCE_COMPRESSION_FORMAT_GZIP);
    } else {
      std::string uri = Format("https://content.example/%d", serial++);
      c.resource.set_uri(uri);
      bool zipped = k == 9;
      Script s = Ok(zipped ? Gzip(data) : data);
      s.headers.push_back({"Content-Type", zipped ? "application/octet-stream+gzip" : "application/octet-stream"});
      On("content", Method::kGet, uri, s, "").optional = true;
    }
    return c;
  }

  // A request answered by an operation.
  struct Flow {
    bool ok = true, abandoned = false;
    std::set<Code> codes;
    std::string name;
  };
  template <class M>
  Flow Operate(const std::string& what, const std::string& host, const std::string& path, const M& request, const google::protobuf::Message& response, int rank, double failing) {
    Flow f;
    f.name = Format("operations/op %d", serial++);
    Operation done;
    done.set_name(f.name);
    done.set_done(true);
    Operation pending;
    pending.set_name(f.name);
    int polls = rng.Chance(0.5) ? 0 : rng.Range(1, 4);
    int fails = rng.Chance(failing) ? rng.Range(1, 4) : 0;
    std::string poll = host + "/v1/" + Encode(f.name, true);
    if (fails == 1) {
      Bad b = AnyBad();
      On(what, Method::kPost, host + path, b.script, host, rank).judge = Is(request);
      f.ok = false;
      f.codes = {b.code};
      return f;
    }
    done.mutable_response()->PackFrom(response);
    if (fails == 2) {
      int code = rng.Range(1, 16);
      done.mutable_error()->set_code(code);
      done.mutable_error()->set_message("of the operation");
      f.ok = false;
      f.codes = {static_cast<Code>(code)};
    } else if (fails == 3) {
      done.mutable_response()->PackFrom(RejectionInfo());
      f.ok = false;
    } else if (fails == 4) {
      polls = std::max(polls, 1);
    }
    On(what, Method::kPost, host + path, Ok((polls ? pending : done).SerializeAsString()), host, rank).judge = Is(request);
    for (int k = 1; k <= polls; ++k) {
      if (k == polls && fails == 4) {
        Bad b = AnyBad();
        On(what + " poll", Method::kGet, poll, b.script, host, rank);
        f.ok = false;
        f.abandoned = true;
        f.codes = {b.code};
        return f;
      }
      On(what + " poll", Method::kGet, poll, Ok((k < polls ? pending : done).SerializeAsString()), host, rank);
    }
    return f;
  }

  std::string Pop() { return Encode(population, false); }
  const std::string entry = "https://entry.example";
  std::string assign_host, session_id;
  bool enabled = false, reported = false, multiple = false;
  std::vector<Task> many;
  std::optional<Task> single;
  Window window = kTransient;

  ResourceCapabilities Capabilities() {
    ResourceCapabilities c;
    c.add_supported_compression_formats(RESOURCE_COMPRESSION_FORMAT_GZIP);
    if (flags.confidential) c.set_supports_confidential_aggregation(true);
    return c;
  }

  void ReportsEligibility(Code code) {
    ReportEligibilityEvalTaskResultRequest q;
    q.set_status_code(static_cast<google::rpc::Code>(code));
    Script s = rng.Chance(0.8) ? Ok("") : AnyBad(false).script;
    On("eligibility result", Method::kPost, entry + "/v1/populations/" + Pop() + "/eligibilityevaltasks/" + Encode(session_id, false) + ":reportresult", s, "").judge = Is(q);
  }

  template <class V>
  static std::string Text(const V& v) {
    if (std::holds_alternative<std::string>(v)) return std::get<std::string>(v);
    return std::string(std::get<absl::Cord>(v));
  }

  // Returns whether the session goes on.
  bool CheckIn() {
    Judge(kTransient);
    EligibilityEvalTaskRequest q;
    q.mutable_client_version()->set_version_code(version);
    q.mutable_attestation_measurement()->set_value(measurement);
    *q.mutable_resource_capabilities() = Capabilities();
    q.mutable_eligibility_eval_task_capabilities()->set_supports_multiple_task_assignment(true);
    q.mutable_eligibility_eval_task_capabilities()->set_supports_native_eets(true);
    EligibilityEvalTaskResponse a;
    session_id = Format("session/%d", serial++);
    a.set_session_id(session_id);
    a.mutable_retry_window_if_rejected()->mutable_delay_min()->set_seconds(1000);
    a.mutable_retry_window_if_rejected()->mutable_delay_max()->set_seconds(1100);
    a.mutable_retry_window_if_accepted()->mutable_delay_min()->set_seconds(5000);
    a.mutable_retry_window_if_accepted()->mutable_delay_max()->set_seconds(5100);
    assign_host = Host("assign");
    *a.mutable_task_assignment_forwarding_info() = Forward(assign_host);
    double trouble = focus == "checkin" ? 0.5 : focus == "windows" ? 0.3 : 0.05;
    int kind = rng.Chance(trouble) ? rng.Below(5) : rng.Chance(0.6) ? 10 : 11;
    std::optional<Content> spec, plan, checkpoint;
    PopulationEligibilitySpec s;
    Script script;
    std::set<Code> codes;
    bool fails = false, windows = true;
    switch (kind) {
      case 0: {
        Bad b = AnyBad();
        script = b.script;
        codes = {b.code};
        fails = true;
        windows = false;
        break;
      }
      case 1:
        script = Ok("\xff\xff\xff");
        fails = true;
        windows = false;
        break;
      case 2:
        a.mutable_rejection_info();
        break;
      case 3:
        if (rng.Chance(0.5)) a.mutable_no_eligibility_eval_configured();
        else a.mutable_eligibility_eval_task();
        a.mutable_task_assignment_forwarding_info()->clear_target_uri_prefix();
        fails = true;
        break;
      case 4:
        codes = {Code::kUnimplemented};
        fails = true;
        break;
      case 11:
        a.mutable_no_eligibility_eval_configured();
        break;
      case 10: {
        auto* t = a.mutable_eligibility_eval_task();
        t->set_execution_id(Format("execution %d", serial++));
        bool garbage = false;
        if (rng.Chance(0.6)) {
          for (int n = rng.Below(3); n > 0; --n) s.add_eligibility_policies()->set_name(Format("policy%d", n));
          s.add_task_info()->set_task_name("t");
          garbage = rng.Chance(0.05);
          spec = Make(garbage ? "\xff\xff\xff" : s.SerializeAsString(), trouble > 0.1, true);
          *t->mutable_population_eligibility_spec() = spec->resource;
        }
        if (rng.Chance(0.8)) {
          plan = Make("plan " + rng.Bytes(rng.Below(50)), trouble > 0.1, true);
          *t->mutable_plan() = plan->resource;
        }
        if (rng.Chance(0.9)) {
          checkpoint = Make("checkpoint " + rng.Bytes(rng.Below(50)), trouble > 0.1, true);
          *t->mutable_init_checkpoint() = checkpoint->resource;
        }
        if (spec && !spec->data) {
          fails = true;
          codes = spec->codes;
        } else if (garbage) {
          fails = true;
        } else if (!(spec && s.eligibility_policies_size() == 0) && plan && checkpoint && (!plan->data || !checkpoint->data)) {
          fails = true;
          bool any = (!plan->data && plan->codes.empty()) || (!checkpoint->data && checkpoint->codes.empty());
          if (!any) {
            codes = plan->codes;
            codes.insert(checkpoint->codes.begin(), checkpoint->codes.end());
          }
          // Either may have been interrupted before the other was asked for.
          if (codes.count(Code::kCancelled)) codes.clear();
        }
        break;
      }
    }
    if (kind != 0 && kind != 1) script = Ok(a.SerializeAsString());
    On("eligibility request", Method::kPost, entry + "/v1/eligibilityevaltasks/" + Pop() + ":request", script, "", 1).judge = Is(q);
    int called = 0;
    std::string execution;
    trace += Format(" check-in(%d)", kind);
    auto got = protocol->EligibilityEvalCheckin([&](const FederatedProtocol::EligibilityEvalTask& t) {
      ++called;
      execution = t.execution_id;
    });
    Verify("check-in");
    if (called != (kind == 10 ? 1 : 0) || (called && execution != a.eligibility_eval_task().execution_id())) Fail("wrong-announcement", Format("check-in: %d calls", called));
    if (fails) {
      Expected("check-in", got.status(), codes);
      Judge(bad ? kUnjudged : Permanent(got.status()) ? kPermanent : windows ? kRejected : kTransient);
      return false;
    }
    r.Eval();
    if (!got.ok()) {
      Fail("check-in-failed", got.status().ToString());
      return false;
    }
    r.Count("check-ins that succeed");
    Judge(kRejected);
    window = kRejected;
    if (kind == 2) {
      if (!std::holds_alternative<FederatedProtocol::Rejection>(*got)) Fail("wrong-result", "rejection");
      r.Count("rejections");
      return false;
    }
    bool off = kind == 11 || (spec && s.eligibility_policies_size() == 0);
    enabled = !off;
    if (off) {
      if (!std::holds_alternative<FederatedProtocol::EligibilityEvalDisabled>(*got)) {
        Fail("wrong-result", "no eligibility task");
      } else {
        auto& d = std::get<FederatedProtocol::EligibilityEvalDisabled>(*got);
        if (d.population_eligibility_spec.has_value() != spec.has_value() ||
            (spec && d.population_eligibility_spec->SerializeAsString() != s.SerializeAsString())) {
          Fail("wrong-result", "specification");
        }
      }
    } else if (!std::holds_alternative<FederatedProtocol::EligibilityEvalTask>(*got)) {
      Fail("wrong-result", "eligibility task");
    } else {
      auto& t = std::get<FederatedProtocol::EligibilityEvalTask>(*got);
      std::string want_plan, want_checkpoint;
      if (plan && checkpoint) want_plan = *plan->data, want_checkpoint = *checkpoint->data;
      if (t.execution_id != a.eligibility_eval_task().execution_id() || Text(t.payloads.plan) != want_plan || Text(t.payloads.checkpoint) != want_checkpoint ||
          t.population_eligibility_spec.has_value() != spec.has_value() ||
          (spec && t.population_eligibility_spec->SerializeAsString() != s.SerializeAsString())) {
        Fail("wrong-result", "eligibility task's content");
      }
      r.Count("eligibility tasks");
    }
    return !bad;
  }

  struct Assigned {
    Task task;
    bool valid = true, fetched = true;
    std::set<Code> codes;
  };
  Assigned Assign(const std::string& name, double trouble) {
    Assigned x;
    Task& t = x.task;
    t.host = Host("aggregate");
    auto& p = t.proto;
    *p.mutable_aggregation_data_forwarding_info() = Forward(t.host);
    p.set_session_id(Format("task session %d", serial++));
    p.set_aggregation_id(Format("aggregation/%d", serial++));
    p.set_authorization_token(Format("token %d", serial++));
    p.set_task_name(name);
    if (rng.Chance(0.5)) p.mutable_federated_select_uri_info()->set_uri_template("https://select/" + name);
    int type = rng.Below(3);
    if (!flags.confidential && type == 2) type = rng.Chance(0.9) ? 0 : 2;
    if (focus == "upload" && rng.Chance(0.3)) type = 0;
    if (focus == "secure" && rng.Chance(0.8)) type = 1;
    t.policy = "policy " + rng.Bytes(rng.Below(40));
    bool fail_content = rng.Chance(trouble);
    auto take = [&](Content c) {
      if (!c.data) {
        bool first = x.fetched;
        x.fetched = false;
        if (c.codes.empty()) x.codes = {};
        else if (first) x.codes = c.codes;
        else if (!x.codes.empty()) x.codes.insert(c.codes.begin(), c.codes.end());
      }
      return c.resource;
    };
    t.plan = "plan of " + name + rng.Bytes(rng.Below(50));
    t.checkpoint = rng.Chance(0.2) ? "" : "checkpoint of " + name + rng.Bytes(rng.Below(50));
    *p.mutable_plan() = take(Make(t.plan, fail_content));
    *p.mutable_init_checkpoint() = take(Make(t.checkpoint, fail_content && x.fetched));
    if (type == 0) p.mutable_aggregation_info();
    if (type == 1) p.mutable_secure_aggregation_info()->set_minimum_clients_in_server_visible_aggregate(rng.Range(1, 1000));
    if (type == 2) *p.mutable_confidential_aggregation_info()->mutable_data_access_policy() = take(Make(t.policy, fail_content && x.fetched));
    if (rng.Chance(trouble * 0.2)) {
      x.valid = false;
      if (rng.Chance(0.5)) p.mutable_aggregation_data_forwarding_info()->clear_target_uri_prefix();
      else if (flags.confidential) p.clear_aggregation_type();
      else *p.mutable_confidential_aggregation_info()->mutable_data_access_policy() = take(Make(t.policy, false));
    }
    if (!flags.confidential && p.has_confidential_aggregation_info()) x.valid = false;
    t.usable = x.valid && x.fetched;
    t.known = x.valid;
    return x;
  }
  void Same(const Task& t, const FederatedProtocol::TaskAssignment& got, bool whole, const std::string& call) {
    r.Eval();
    const auto& p = t.proto;
    std::string d;
    if (got.task_name != p.task_name() || got.aggregation_session_id != p.aggregation_id() ||
        got.federated_select_uri_template != p.federated_select_uri_info().uri_template()) {
      d = "names";
    }
    if (got.sec_agg_info.has_value() != p.has_secure_aggregation_info() ||
        (got.sec_agg_info && got.sec_agg_info->minimum_clients_in_server_visible_aggregate !=
                                 p.secure_aggregation_info().minimum_clients_in_server_visible_aggregate())) {
      d = "secure aggregation";
    }
    if (got.confidential_agg_info.has_value() != (flags.confidential && p.has_confidential_aggregation_info())) d = "confidential aggregation";
    if (whole && (Text(got.payloads.plan) != t.plan || Text(got.payloads.checkpoint) != t.checkpoint)) d = "plan or checkpoint";
    if (whole && got.confidential_agg_info && std::string(got.confidential_agg_info->data_access_policy) != t.policy) d = "policy";
    if (!d.empty()) Fail("wrong-assignment", call + ": " + d + " of " + p.task_name());
  }

  // Requests that go through when a run is stopped need the delayed kind.
  void Multiple() {
    multiple = true;
    PerformMultipleTaskAssignmentsRequest q;
    q.mutable_client_version()->set_version_code(version);
    *q.mutable_resource_capabilities() = Capabilities();
    std::vector<std::string> names;
    for (int n = rng.Range(1, 4), k = 0; k < n; ++k) names.push_back(Format("many/%d", k));
    for (auto& n : names) q.add_task_names(n);
    double trouble = focus == "checkin" ? 0.4 : focus == "windows" ? 0.3 : 0.05;
    PerformMultipleTaskAssignmentsResponse a;
    std::map<std::string, Assigned> assigned;
    std::vector<std::string> order;
    Script script;
    int kind = rng.Chance(trouble * 0.5) ? rng.Below(3) : 3;
    std::set<Code> codes;
    if (kind == 0) {
      Bad b = AnyBad();
      script = b.script;
      codes = {b.code};
    } else if (kind == 1) {
      script = Ok("\xff\xff\xff");
    } else {
      if (kind == 3) {
        for (auto& n : names) {
          if (!rng.Chance(0.85)) continue;
          Assigned x = Assign(n, trouble);
          *a.add_task_assignments() = x.task.proto;
          assigned[n] = x;
        }
      }
      script = Ok(a.SerializeAsString());
    }
    On("assignments", Method::kPost, assign_host + "/v1/populations/" + Pop() + "/taskassignments/" + Encode(session_id, false) + ":performmultiple", script, assign_host, 1).judge = Is(q);
    if (enabled) ReportsEligibility(Code::kOk), reported = true;
    int called = 0;
    size_t number = 0;
    trace += Format(" multiple(%d,%zu)", kind, assigned.size());
    auto got = protocol->PerformMultipleTaskAssignments(names, [&](size_t n) {
      ++called;
      number = n;
    });
    Verify("multiple assignments");
    if (kind < 2) {
      Expected("multiple assignments", got.status(), codes);
      window = bad ? kUnjudged : Permanent(got.status()) ? kPermanent : kRejected;
      Judge(window);
      return;
    }
    r.Eval();
    if (!got.ok()) return Fail("assignments-failed", got.status().ToString());
    size_t valid = 0;
    for (auto& [n, x] : assigned) valid += x.valid;
    if (valid && (called != 1 || number != valid)) Fail("wrong-announcement", Format("%d calls, %zu of %zu", called, number, valid));
    if (got->task_assignments.size() != assigned.size()) return Fail("wrong-assignment", Format("%zu of %zu", got->task_assignments.size(), assigned.size()));
    for (auto& [n, x] : assigned) {
      auto it = got->task_assignments.find(n);
      if (it == got->task_assignments.end()) return Fail("wrong-assignment", n + " is missing");
      if (x.valid && x.fetched) {
        if (!it->second.ok()) return Fail("assignment-failed", n + ": " + it->second.status().ToString());
        Same(x.task, *it->second, true, "multiple assignments");
        r.Count("assignments");
      } else {
        Expected("assignment of " + n, it->second.status(), x.valid ? x.codes : std::set<Code>{});
      }
      many.push_back(x.task);
    }
    window = kRejected;
    Judge(kRejected);
  }

  void CheckIn2() {
    StartTaskAssignmentRequest q;
    q.mutable_client_version()->set_version_code(version);
    *q.mutable_resource_capabilities() = Capabilities();
    std::optional<TaskEligibilityInfo> info;
    if (enabled) {
      info.emplace();
      info->set_version(1);
      for (int n = rng.Below(3); n > 0; --n) {
        auto* w = info->add_task_weights();
        w->set_task_name(Format("t%d", n));
        w->set_weight(rng.Below(5));
      }
      *q.mutable_task_eligibility_info() = *info;
    }
    double trouble = focus == "checkin" ? 0.5 : focus == "windows" ? 0.3 : 0.05;
    StartTaskAssignmentResponse a;
    int kind = rng.Chance(trouble * 0.4) ? rng.Below(2) : 2;
    Assigned x;
    if (kind == 0) a.mutable_rejection_info();
    if (kind == 2) {
      x = Assign("single/task", trouble);
      *a.mutable_task_assignment() = x.task.proto;
    }
    Flow f = Operate("task assignment", assign_host, "/v1/populations/" + Pop() + "/taskassignments/" + Encode(session_id, false) + ":start", q, a, 1, trouble * 0.5);
    if (f.abandoned) {
      // The operation is abandoned.
      On("cancellation", Method::kPost, assign_host + "/v1/" + Encode(f.name, true) + ":cancel", rng.Chance(0.8) ? Ok("") : AnyBad(false).script, assign_host, 2);
      r.Count("operations abandoned");
    }
    if (enabled && !reported) ReportsEligibility(Code::kOk), reported = true;
    int called = 0;
    FederatedProtocol::TaskAssignment told;
    trace += Format(" assignment(%d%s)", kind, f.ok ? "" : " fails");
    auto got = protocol->Checkin(info, [&](const FederatedProtocol::TaskAssignment& t) {
      ++called;
      told = t;
    });
    Verify("assignment");
    bool announced = f.ok && kind == 2;
    if (called != (announced ? 1 : 0)) Fail("wrong-announcement", Format("assignment: %d calls", called));
    if (announced && called == 1) Same(x.task, told, false, "announcement");
    std::set<Code> codes = f.codes;
    bool fails = !f.ok;
    if (f.ok && kind == 1) fails = true, codes = {Code::kUnimplemented};
    if (f.ok && kind == 2 && !(x.valid && x.fetched)) {
      fails = true;
      codes = x.fetched || !x.valid ? std::set<Code>{} : x.codes;
    }
    if (fails) {
      Expected("assignment", got.status(), codes);
      window = bad ? kUnjudged : Permanent(got.status()) ? kPermanent : kRejected;
      return Judge(window);
    }
    r.Eval();
    if (!got.ok()) return Fail("assignment-failed", got.status().ToString());
    if (kind == 0) {
      if (!std::holds_alternative<FederatedProtocol::Rejection>(*got)) Fail("wrong-result", "rejection");
      r.Count("rejections");
      window = kRejected;
      return Judge(window);
    }
    if (!std::holds_alternative<FederatedProtocol::TaskAssignment>(*got)) return Fail("wrong-result", "assignment");
    Same(x.task, std::get<FederatedProtocol::TaskAssignment>(*got), true, "assignment");
    r.Count("assignments");
    single = x.task;
    window = multiple ? kRejected : kAccepted;
    Judge(window);
  }

  // Where the session stands after some reports.
  Window AfterReports() {
    if (!multiple) return single->state == Task::kFailed ? kPermanent : kAccepted;
    // A failed or refused second check-in decides alone.
    if (window == kPermanent) return kPermanent;
    int all = 0, good = 0, failed = 0;
    bool unclear = false;
    auto count = [&](const Task& t) {
      if (!t.known) {
        unclear = true;
        return;
      }
      ++all;
      good += t.state == Task::kReported;
      failed += t.state == Task::kFailed;
    };
    for (auto& t : many) count(t);
    if (single) count(*single);
    if (checked_in_again && !single) return kRejected;
    if (all == failed) return unclear ? kUnjudged : kPermanent;
    if (all == good) return unclear ? kUnjudged : kAccepted;
    return kRejected;
  }
  bool checked_in_again = false;

  void ReportsResult(const Task& t, Code code, absl::Duration took, int rank, Script s) {
    ReportTaskResultRequest q;
    q.set_aggregation_id(t.proto.aggregation_id());
    q.set_task_name(t.proto.task_name());
    q.set_computation_status_code(static_cast<google::rpc::Code>(code));
    *q.mutable_client_stats()->mutable_computation_execution_duration() = google::protobuf::Duration();
    auto* d = q.mutable_client_stats()->mutable_computation_execution_duration();
    d->set_seconds(absl::ToInt64Seconds(took));
    d->set_nanos(absl::ToInt64Nanoseconds(took % absl::Seconds(1)));
    On("task result", Method::kPost, assign_host + "/v1/populations/" + Pop() + "/taskassignments/" + Encode(t.proto.session_id(), false) + ":reportresult", s, assign_host, rank).judge = Is(q);
  }

  std::optional<std::string> IdOf(const Task& t, bool is_many) {
    if (is_many) return t.proto.aggregation_id();
    return std::nullopt;
  }

  void NotDone(Task& t, bool is_many) {
    absl::Duration took = absl::Milliseconds(rng.Below(100000));
    auto outcome = rng.Pick(std::vector<fcp::client::engine::PhaseOutcome>{fcp::client::engine::ERROR, fcp::client::engine::INTERRUPTED});
    std::set<Code> codes;
    Script s = Ok("");
    if (rng.Chance(0.2)) {
      Bad b = AnyBad();
      s = b.script;
      codes = {b.code};
    }
    ReportsResult(t, outcome == fcp::client::engine::ERROR ? Code::kInternal : Code::kCancelled, took, 1, s);
    trace += " not-done";
    absl::Status got = protocol->ReportNotCompleted(outcome, took, IdOf(t, is_many));
    Verify("report");
    t.state = Task::kReported;
    r.Count("failures reported");
    if (!codes.empty()) Expected("report", got, codes);
    else if (!got.ok()) Fail("report-failed", got.ToString());
  }

  void Done(Task& t, bool is_many) {
    const auto& p = t.proto;
    absl::Duration took = absl::Milliseconds(rng.Below(100000));
    double trouble = focus == "upload" || focus == "secure" ? 0.4 : focus == "windows" ? 0.8 : 0.1;
    int type = p.has_secure_aggregation_info() ? 1 : p.has_confidential_aggregation_info() ? 2 : 0;
    // What was computed.
    ComputationResults results;
    std::string checkpoint = "result of " + p.task_name() + rng.Bytes(rng.Below(rng.Chance(0.1) ? 20000 : 100));
    bool vectors = type == 1, wrong = false, has_checkpoint = true;
    rounds = Rounds();
    if (!flags.confidential) {
      // The results decide.
      vectors = rng.Chance(type == 1 ? 0.9 : 0.05);
      type = vectors ? 1 : 0;
    } else if (type != 1 && rng.Chance(0.05)) {
      vectors = wrong = true;
    }
    if (vectors) {
      for (int n = rng.Range(1, 3), k = 0; k < n; ++k) {
        QuantizedTensor x;
        for (int m = rng.Range(1, 5); m > 0; --m) x.values.push_back(rng.Below(100));
        x.dimensions = {static_cast<int64_t>(x.values.size())};
        x.bitwidth = 7;
        std::string name = Format("vector%d", k);
        rounds.tensors[name] = x.values;
        rounds.moduli[name] = 1 + rng.U64() % (1ULL << 62);
        results[name] = std::move(x);
        if (wrong) break;
      }
      has_checkpoint = !wrong && rng.Chance(0.6);
      if (has_checkpoint) results["checkpoint"] = checkpoint;
    } else {
      bool cord = flags.light && (!flags.untied || rng.Chance(0.5));
      if (rng.Chance(0.05)) {
        cord = !cord;
        wrong = flags.untied ? (cord && !flags.light) : true;
      }
      if (cord) results["x"] = absl::Cord(checkpoint);
      else results["x"] = checkpoint;
      if (rng.Chance(0.03)) {
        results["y"] = checkpoint;
        wrong = true;
      }
    }
    auto id = IdOf(t, is_many);
    trace += Format(" done(%d%s)", type, wrong ? " wrong" : "");
    if (wrong) {
      absl::Status got = protocol->ReportCompleted(std::move(results), took, id);
      Verify("report");
      t.state = Task::kReported;
      r.Count("unusable results");
      return Expected("report", got, {});
    }
    if (type == 1) return Secure(t, std::move(results), has_checkpoint ? std::optional(checkpoint) : std::nullopt, took, id, trouble);
    bool secret = type == 2;
    std::string root = secret ? "/v1/confidentialaggregations/" : "/v1/aggregations/";
    std::string aggregation = Encode(p.aggregation_id(), false);
    std::string host = Host("protocol"), store = Host("upload");
    std::string token = secret || rng.Chance(0.7) ? Format("client %d", serial++) : "";
    std::string resource = Format("media/%d item", serial++);
    ReportsResult(t, Code::kOk, took, 0, rng.Chance(0.9) ? Ok("") : AnyBad(false).script);
    Flow f;
    fcp::confidential_compute::MessageDecryptor decryptor;
    ConfidentialEncryptionConfig config;
    Content sent_config;
    bool bad_key = false;
    verifier->refuse = secret && rng.Chance(trouble * 0.3);
    verifier->calls = 0;
    bool bad_forward = rng.Chance(trouble * 0.1);
    ForwardingInfo to_store = Forward(store);
    if (bad_forward) to_store.clear_target_uri_prefix();
    auto start = root + aggregation + "/clients/" + Encode(p.authorization_token(), false) + ":startdataupload";
    if (secret) {
      auto key = decryptor.GetPublicKey([](absl::string_view) { return std::string("signature"); }, -7);
      if (!key.ok()) Report::Broken("no key");
      bad_key = rng.Chance(trouble * 0.2);
      config.set_public_key(bad_key ? "no key" : *key);
      StartConfidentialAggregationDataUploadResponse a;
      *a.mutable_aggregation_protocol_forwarding_info() = Forward(host);
      *a.mutable_resource()->mutable_data_upload_forwarding_info() = to_store;
      a.mutable_resource()->set_resource_name(resource);
      a.set_client_token(token);
      sent_config = Make(config.SerializeAsString(), focus == "upload");
      *a.mutable_encryption_config() = sent_config.resource;
      f = Operate("start", t.host, start, StartConfidentialAggregationDataUploadRequest(), a, 1, trouble * 0.4);
    } else {
      StartAggregationDataUploadResponse a;
      *a.mutable_aggregation_protocol_forwarding_info() = Forward(host);
      *a.mutable_resource()->mutable_data_upload_forwarding_info() = to_store;
      a.mutable_resource()->set_resource_name(resource);
      a.set_client_token(token);
      f = Operate("start", t.host, start, StartAggregationDataUploadRequest(), a, 1, trouble * 0.4);
    }
    if (token.empty()) token = p.authorization_token();
    std::string clients = host + root + aggregation + "/clients/" + Encode(token, false);
    bool goes_on = f.ok && !bad_forward && (!secret || sent_config.data);
    std::set<Code> codes = f.codes;
    if (f.ok && !goes_on && !bad_forward) codes = sent_config.codes;
    bool ok = goes_on;
    auto aborts = [&](std::optional<Code> code) {
      On("abort", Method::kPost, clients + ":abort", rng.Chance(0.8) ? Ok("") : AnyBad(false).script, host, 4).judge =
          [code, secret](const std::string& body) -> std::string {
        google::rpc::Status s;
        if (secret) {
          AbortConfidentialAggregationRequest q;
          if (!q.ParseFromString(body)) return "cannot be parsed";
          s = q.status();
        } else {
          AbortAggregationRequest q;
          if (!q.ParseFromString(body)) return "cannot be parsed";
          s = q.status();
        }
        if (s.code() == 0 || (code && s.code() != static_cast<int>(*code))) return Format("has code %d", s.code());
        // The details stay here.
        if (s.message().find("hidden") != std::string::npos || s.message().find("refused") != std::string::npos) return "tells " + s.message();
        return "";
      };
      r.Count("aborts");
    };
    decltype(t.state) after = Task::kReported;
    if (!goes_on) {
      after = Task::kFailed;
    } else if (secret && (verifier->refuse || bad_key)) {
      ok = false;
      after = Task::kFailed;
      codes = verifier->refuse ? std::set<Code>{Code::kFailedPrecondition} : std::set<Code>{};
      aborts(verifier->refuse ? std::optional(Code::kFailedPrecondition) : std::nullopt);
      r.Count("untrusted configurations");
    } else {
      Script s = Ok("");
      std::optional<Code> failing;
      if (rng.Chance(trouble * 0.5)) {
        Bad b = AnyBad();
        s = b.script;
        failing = b.code;
      }
      auto& e = On("upload", Method::kPost, store + "/upload/v1/media/" + Encode(resource, true) + "?upload_protocol=raw", s, store, 2);
      if (secret) {
        e.judge = [this, &decryptor, &config, &t, checkpoint](const std::string& body) { return Opens(body, decryptor, config, t.policy, checkpoint); };
      } else {
        e.judge = IsBytes(checkpoint);
      }
      if (failing) {
        ok = false;
        after = Task::kFailed;
        codes = {*failing};
        if (*failing != Code::kAborted) aborts(failing);
      } else {
        Script s2 = Ok("");
        if (rng.Chance(trouble * 0.3)) {
          Bad b = AnyBad();
          s2 = b.script;
          ok = false;
          codes = {b.code};
        }
        auto& submit = On("submission", Method::kPost, clients + ":submit", s2, host, 3);
        if (secret) {
          SubmitConfidentialAggregationResultRequest q;
          q.set_resource_name(resource);
          submit.judge = Is(q);
        } else {
          SubmitAggregationResultRequest q;
          q.set_resource_name(resource);
          submit.judge = Is(q);
        }
      }
    }
    absl::Status got = protocol->ReportCompleted(std::move(results), took, id);
    Verify("upload");
    t.state = after;
    if (secret && goes_on) {
      if (verifier->calls != 1 || verifier->policy != t.policy || verifier->config != config.SerializeAsString()) Fail("wrong-verification", "policy or configuration");
    }
    r.Eval();
    if (!ok) return Expected("upload", got, codes);
    if (!got.ok()) return Fail("upload-failed", got.ToString());
    r.Count(secret ? "confidential uploads" : "plain uploads");
  }

  std::string Opens(const std::string& body, const fcp::confidential_compute::MessageDecryptor& d, const ConfidentialEncryptionConfig& config,
                    const std::string& policy, const std::string& want) {
    if (body.find(want) != std::string::npos) return "is not encrypted";
    absl::string_view rest = body;
    auto header = fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader(rest);
    if (!header.ok()) return "has no header";
    fcp::confidentialcompute::BlobHeader blob;
    if (!blob.ParseFromString(header->serialized_blob_header)) return "has no blob header";
    auto cwt = fcp::confidential_compute::OkpCwt::Decode(config.public_key());
    if (!cwt.ok() || !cwt->public_key || blob.key_id() != cwt->public_key->key_id) return "names another key";
    if (blob.access_policy_sha256() != Sha256(policy)) return "names another policy";
    if (blob.blob_id().empty() || !blob_ids.insert(blob.blob_id()).second) return "has a used blob id";
    auto plain = d.Decrypt(rest, header->serialized_blob_header, header->encrypted_symmetric_key, header->serialized_blob_header, header->encapsulated_public_key);
    if (!plain.ok()) return "cannot be decrypted: " + plain.status().ToString();
    std::optional<std::string> open = *plain;
    if (header->is_gzip_compressed) open = Gunzip(*plain);
    if (!open || *open != want) return "decrypts to something else";
    return "";
  }
  static std::string Sha256(const std::string& in) {
    std::string out(32, '\0');
    SHA256(reinterpret_cast<const uint8_t*>(in.data()), in.size(), reinterpret_cast<uint8_t*>(out.data()));
    return out;
  }

  void Secure(Task& t, ComputationResults results, std::optional<std::string> checkpoint, absl::Duration took, std::optional<std::string> id, double trouble) {
    const auto& p = t.proto;
    std::string aggregation = Encode(p.aggregation_id(), false), root = "/v1/secureaggregations/" + aggregation + "/clients/";
    std::string host = Host("secure"), store1 = Host("masked"), store2 = Host("nonmasked");
    std::string token = rng.Chance(0.7) ? Format("client %d", serial++) : "";
    std::string name1 = Format("masked/%d", serial++), name2 = Format("nonmasked/%d", serial++);
    StartSecureAggregationResponse a;
    *a.mutable_secagg_protocol_forwarding_info() = Forward(host);
    for (auto& [k, m] : rounds.moduli) (*a.mutable_secure_aggregands())[k].set_modulus(m);
    rounds.clients = rng.Range(2, 1000);
    rounds.least = rng.Range(1, rounds.clients);
    a.mutable_protocol_execution_info()->set_expected_number_of_clients(rounds.clients);
    a.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(rounds.least);
    *a.mutable_masked_result_resource()->mutable_data_upload_forwarding_info() = Forward(store1);
    a.mutable_masked_result_resource()->set_resource_name(name1);
    *a.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info() = Forward(store2);
    a.mutable_nonmasked_result_resource()->set_resource_name(name2);
    a.set_client_token(token);
    if (token.empty()) token = p.authorization_token();
    ReportsResult(t, Code::kOk, took, 0, rng.Chance(0.9) ? Ok("") : AnyBad(false).script);
    Flow f = Operate("secure start", t.host, root + Encode(p.authorization_token(), false) + ":start", StartSecureAggregationRequest(), a, 1, trouble * 0.2);
    std::string clients = root + Encode(token, false);
    std::set<Code> codes = f.codes;
    bool ok = f.ok;
    int rounds_done = 0;
    if (ok) {
      int last = rng.Chance(0.6) ? 4 : rng.Below(5);  // then it gives up
      double failing = trouble * 0.2;
      for (int k = 0; k < 4 && ok; ++k) {
        Rounds::Step s;
        s.want.emplace();
        Flow round;
        if (k == last) {
          s.send.mutable_abort()->set_diagnostic_info("giving up");
          AbortSecureAggregationRequest q;
          q.mutable_status()->set_code(google::rpc::INTERNAL);
          q.mutable_status()->set_message("giving up");
          Script reply = Ok("");
          if (rng.Chance(0.2)) {
            Bad b = AnyBad(false);
            reply = b.script;
            round.ok = false;
            round.codes = {b.code};
          } else {
            s.want->mutable_abort();
            rounds.result = absl::CancelledError("gave up");
          }
          On("secure abort", Method::kPost, host + clients + ":abort", reply, host, 2 + k).judge = Is(q);
          k = 4;
        } else if (k == 0) {
          auto* m = s.send.mutable_advertise_keys()->mutable_pair_of_public_keys();
          m->set_enc_pk(rng.Bytes(8));
          AdvertiseKeysRequest q;
          *q.mutable_advertise_keys() = s.send.advertise_keys();
          AdvertiseKeysResponse reply;
          reply.mutable_share_keys_server_request()->add_pairs_of_public_keys()->set_enc_pk(rng.Bytes(8));
          *s.want->mutable_share_keys_request() = reply.share_keys_server_request();
          round = Operate("advertise", host, clients + ":advertisekeys", q, reply, 2 + k, failing);
        } else if (k == 1) {
          s.send.mutable_share_keys_response()->add_encrypted_key_shares(rng.Bytes(8));
          ShareKeysRequest q;
          *q.mutable_share_keys_client_response() = s.send.share_keys_response();
          ShareKeysResponse reply;
          reply.mutable_masked_input_collection_server_request()->add_encrypted_key_shares(rng.Bytes(8));
          *s.want->mutable_masked_input_request() = reply.masked_input_collection_server_request();
          round = Operate("share", host, clients + ":sharekeys", q, reply, 2 + k, failing);
        } else if (k == 2) {
          (*s.send.mutable_masked_input_response()->mutable_vectors())["vector0"].set_encoded_vector(rng.Bytes(rng.Below(500)));
          std::string body = s.send.masked_input_response().SerializeAsString();
          Script up1 = Ok(""), up2 = Ok("");
          if (rng.Chance(failing)) {
            Bad b = AnyBad();
            up1 = b.script;
            round.ok = false;
            round.codes = {b.code};
          } else if (checkpoint && rng.Chance(failing)) {
            Bad b = AnyBad();
            up2 = b.script;
            round.ok = false;
            round.codes = {b.code};
          }
          On("masked upload", Method::kPost, store1 + "/upload/v1/media/" + Encode(name1, true) + "?upload_protocol=raw", up1, store1, 4).judge = IsBytes(body);
          if (checkpoint) On("plain part", Method::kPost, store2 + "/upload/v1/media/" + Encode(name2, true) + "?upload_protocol=raw", up2, store2, 4).judge = IsBytes(*checkpoint);
          if (round.ok) {
            SubmitSecureAggregationResultRequest q;
            q.set_masked_result_resource_name(name1);
            if (checkpoint) q.set_nonmasked_result_resource_name(name2);
            SubmitSecureAggregationResultResponse reply;
            reply.mutable_unmasking_server_request()->add_dead_3_client_ids(rng.Below(100));
            *s.want->mutable_unmasking_request() = reply.unmasking_server_request();
            round = Operate("submission", host, clients + ":submit", q, reply, 5, failing);
          }
        } else {
          s.send.mutable_unmasking_response()->add_noise_or_prf_key_shares()->set_prf_sk_share(rng.Bytes(8));
          UnmaskRequest q;
          *q.mutable_unmasking_client_response() = s.send.unmasking_response();
          Script reply = Ok("");
          if (rng.Chance(failing)) {
            Bad b = AnyBad();
            reply = b.script;
            round.ok = false;
            round.codes = {b.code};
          }
          On("unmask", Method::kPost, host + clients + ":unmask", reply, host, 6).judge = Is(q);
        }
        ++rounds_done;
        if (!round.ok) {
          ok = false;
          s.want.reset();
          codes = round.codes;
          if (codes.size() == 1) s.code = *codes.begin();
        }
        rounds.steps.push_back(s);
      }
      if (ok && !rounds.result.ok()) {
        ok = false;
        codes = {rounds.result.code()};
      }
    }
    absl::Status got = protocol->ReportCompleted(std::move(results), took, id);
    Verify("secure upload");
    t.state = Task::kReported;
    if (rounds.runs != (f.ok ? 1 : 0)) Fail("not-run-once", Format("%d runs", rounds.runs));
    if (!rounds.complaint.empty()) Fail("wrong-exchange", rounds.complaint);
    r.Eval();
    r.Count("secure rounds", rounds_done);
    if (!ok) return Expected("secure upload", got, codes);
    if (!got.ok()) return Fail("secure-upload-failed", got.ToString());
    r.Count("secure uploads");
  }

  void Run() {
    population = rng.Pick(std::vector<std::string>{"pop", "pop/a b", "p:1"});
    api_key = Format("key%d", (int)rng.Below(10));
    version = "version 1";
    measurement = "measured";
    flags.confidential = rng.Chance(0.7);
    flags.plain = rng.Chance(0.5);
    flags.light = rng.Chance(0.3);
    flags.untied = rng.Chance(0.5);
    for (int c : {5, 7, 3, 13}) {
      if (rng.Chance(0.5)) flags.permanent.push_back(c);
    }
    client.seed = rng.U64();
    client.threads = rng.Chance(0.05);
    client.only_performed = true;
    client.script = [this](const HttpRequest& q) {
      for (auto& e : expects) {
        if (!e.taken && e.uri == q.uri() && e.method == q.method()) {
          e.taken = true;
          return e.script;
        }
      }
      Script s;
      s.code = 418;
      return s;
    };
    auto v = std::make_unique<Verifier>();
    verifier = v.get();
    auto f = std::make_unique<FakeRunners>();
    runners = f.get();
    runners->rounds = &rounds;
    protocol = std::make_unique<HttpFederatedProtocol>(
        &clock, &logs, &flags, &client, std::move(f), &events, nullptr, std::move(v), entry, api_key, population, "retry", version, measurement,
        [this] { return Interrupted(); }, absl::BitGen(std::seed_seq{static_cast<uint32_t>(rng.U64())}), Timing());
    Go();
    // All traffic was counted.
    if (!bad) {
      int64_t sent = 0, received = 0;
      for (size_t k = 0; k < client.seen.size(); ++k) {
        if (!client.seen[k].performed) continue;
        sent += client.scripts[k].sent;
        received += client.scripts[k].received;
      }
      auto n = protocol->GetNetworkStats();
      r.Eval();
      if (n.bytes_uploaded != sent || n.bytes_downloaded != received) {
        Fail("traffic-not-counted", Format("%lld/%lld of %lld/%lld", (long long)n.bytes_uploaded, (long long)n.bytes_downloaded, (long long)sent, (long long)received));
      }
      if (client.live) Fail("requests-not-freed", Format("%d", client.live));
    }
    protocol.reset();
  }

  void Go() {
    if (!CheckIn() || bad) return;
    if (enabled && rng.Chance(0.1)) {
      Code code = static_cast<Code>(rng.Range(1, 16));
      ReportsEligibility(code);
      trace += " eligibility-error";
      protocol->ReportEligibilityEvalError(absl::Status(code, "hidden"));
      Verify("eligibility error");
      Judge(kRejected);
      r.Count("eligibility errors");
      return;
    }
    if (rng.Chance(0.5)) Multiple();
    if (bad || Interrupted()) return;
    if (!multiple || rng.Chance(0.6)) {
      checked_in_again = true;
      CheckIn2();
    }
    if (bad || Interrupted()) return;
    if (rng.Chance(0.1)) {
      absl::Status got = rng.Chance(0.5) ? protocol->ReportNotCompleted(fcp::client::engine::ERROR, absl::Seconds(1), "nobody's")
                                         : protocol->ReportCompleted(ComputationResults(), absl::Seconds(1), "nobody's");
      Verify("unknown report");
      Expected("unknown report", got, {});
    }
    std::vector<std::pair<Task*, bool>> order;
    for (auto& t : many) order.push_back({&t, true});
    if (single) order.push_back({&*single, false});
    rng.Shuffle(order);
    bool all = rng.Chance(0.6);
    for (auto& [t, is_many] : order) {
      if (!t->usable || (!all && rng.Chance(0.3))) continue;
      rng.Chance(0.15) ? NotDone(*t, is_many) : Done(*t, is_many);
      if (bad) return;
      Judge(window == kPermanent || (multiple && window == kUnjudged) ? window : AfterReports());
      if (bad || Interrupted()) return;
    }
  }
};

void Sessions(Report& r, const std::string& focus) {
  for (int64_t i = 0; i < r.N(20000, 400000); ++i) {
    if (!r.Mine(i)) continue;
    Session s(r, verif::Hash(focus) + i, focus);
    r.Case(i, focus);
    s.Run();
    r.Distinct(s.trace);
    r.Count("sessions");
    if (s.Interrupted()) r.Count("sessions interrupted");
    if (r.WantsSample()) r.Sample(s.trace);
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "checkin" || r.mode == "upload" || r.mode == "secure" || r.mode == "windows") Sessions(r, r.mode);
  else Report::Broken("mode?");
  return r.Finish();
}
