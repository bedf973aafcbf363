// Whole client runs against a scripted server, application and model runtime:
// what is computed, reported, told to the application and remembered.
#include <openssl/sha.h>
#include <sys/resource.h>

#include <algorithm>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <variant>
#include <vector>

#include "fcp/client/engine/tflite_wrapper.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/federated_protocol.h"
#include "fcp/client/federated_select.h"
#include "fcp/client/files.h"
#include "fcp/client/fl_runner.h"
#include "fcp/client/fl_runner.pb.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "fcp/client/phase_logger_impl.h"
#include "fcp/client/simple_task_environment.h"
#include "fcp/tensorflow/external_dataset.h"
#include "opstats_model.h"
#include "publisher.h"
#include "verif_tensors.h"

namespace {
using fcp::client::ComputationResults;
using fcp::client::ExampleIterator;
using fcp::client::ExampleQueryResult;
using fcp::client::FederatedProtocol;
using fcp::client::FLRunnerResult;
using fcp::client::QuantizedTensor;
using fcp::client::SelectorContext;
using fcp::client::TaskResultInfo;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using TaskInfo = PopulationEligibilitySpec::TaskInfo;
using Spec = ExampleQuerySpec::OutputVectorSpec;

Report* rep = nullptr;

// Each mode judges its own part of what a run does.
void Judge(const char* group, bool ok, const std::string& key, const std::string& detail) {
  if (rep->mode != group) return;
  rep->Count("judged");
  if (!ok) rep->Violation(key, detail);
}

struct RunFlags : public Flags {
  bool lightweight = false, untie = true, computation_id = false, recording = false, confidential_context = false;
  int64_t condition_polling_period_millis() const override { return 0; }
  bool enable_lightweight_client_report_wire_format() const override { return lightweight; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  bool enable_computation_id() const override { return computation_id; }
  bool enable_native_example_query_recording() const override { return recording; }
  bool confidential_agg_in_selector_context() const override { return confidential_context; }
};

std::string Sha(const std::string& s) {
  std::string o(SHA256_DIGEST_LENGTH, '\0');
  SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), reinterpret_cast<uint8_t*>(o.data()));
  return o;
}

std::string ReadAll(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

// ---- what is scripted -------------------------------------------------------------

enum class Kind2 { kQuery, kModel, kGarbage, kNoModel, kNoRouter, kUnaggregated };

struct Source {
  std::string uri, criteria;
  bool slices = false;
  std::vector<std::string> examples;
  absl::Status cannot_start, breaks;  // Not OK: the query fails at once, or after the examples.
};
struct Vector {
  std::string output, name;
  Spec::DataType asked;
  ExampleQueryResult::VectorData::Values given;
  bool missing = false;
  std::string written;
};
struct Query {
  int source = 0;
  std::vector<Vector> vectors;
};
struct Output {
  std::string name;
  tensorflow::DataType type;
  std::vector<int64_t> dims, values;
};
struct Task {
  std::string name, session, slices_template, plan, checkpoint, model;
  Kind2 kind = Kind2::kQuery;
  std::vector<Source> sources;
  std::vector<Query> queries;
  std::vector<Output> outputs;
  bool has_input_file = true, has_output_file = false, in_cord = false, all_secagg = true;
  std::string output_file;
  absl::Status model_result, report_result, assignment;
  bool log_fault = false, secagg_info = false, confidential = false;
  int minimum_clients = 0;
  std::map<std::string, std::string> constants;
  // What should come of it.
  bool usable = true, computed = false;
  // What was seen.
  int completed = 0, not_completed = 0, models_run = 0, told = 0;
  bool told_result = false;
  bool results_right = true;
  std::string wrong;
  std::vector<SelectorContext> contexts;
  std::vector<std::pair<std::string, int>> queried;  // Source and examples given.
  TaskResultInfo info;
};

struct Past {
  int64_t lo = 0, hi = 0;  // Around the last contribution.
  bool unsure = false;
  // Times of events have whole seconds, of a clock that lags by up to a tick.
  bool Fits(int64_t at) const { return at >= (lo - 50000) / 1000000 * 1000000 && at <= hi; }
  std::set<std::string> accessed;
};

struct World {
  RunFlags flags;
  std::string session, population, dir;
  std::map<std::string, Task> tasks;
  Task* single = nullptr;
  Task* running_model = nullptr;
  OpStatsSequence history;
  bool history_fails = false, files_fail = false, conditions = true;
  std::map<std::string, Past> past;

  enum { kError, kRejected, kDisabled, kTask } eligibility = kDisabled;
  absl::Status eligibility_error;
  std::optional<PopulationEligibilitySpec> spec;
  std::map<std::string, int> available;  // Examples for eligibility, by source.
  std::string eligibility_plan, eligibility_checkpoint;
  enum { kMultiError, kMultiAnswer } multi = kMultiAnswer;
  enum { kSingleError, kSingleRejected, kSingleAnswer } checkin = kSingleAnswer;
  absl::Status multi_error, checkin_error;
  bool early_callback = false;

  // What was seen.
  int eligibility_calls = 0, multi_calls = 0, checkin_calls = 0, eligibility_errors = 0, stray_reports = 0;
  std::vector<std::string> multi_asked;
  std::optional<TaskEligibilityInfo> offered;
  std::vector<std::pair<std::string, SelectorContext>> eligibility_contexts;
  std::vector<std::string> stray_sources;
  int64_t sent = 0, windows = 0, down = 0, up = 0, slices_down = 0;
  std::vector<std::string> tokens;
  int64_t run_started = 0;

  void Talk() {
    ++windows;
    down += 100 + windows;
    up += 7;
  }
  Task* Owner(const std::string& uri) {
    for (auto& [n, t] : tasks) {
      for (auto& s : t.sources) {
        if (s.uri == uri) return &t;
      }
    }
    return nullptr;
  }
};
World* world = nullptr;

// The task that was last seen to be at work.
Task nobody;
Task* running = &nobody;
void Running(Task& t) { running = &t; }

class Iterator : public ExampleIterator {
 public:
  Iterator(const Source& s, int* count) : s_(s), count_(count) {}
  absl::StatusOr<std::string> Next() override {
    if (at_ < s_.examples.size()) {
      if (count_ != nullptr) ++*count_;
      return s_.examples[at_++];
    }
    if (!s_.breaks.ok()) return s_.breaks;
    return absl::OutOfRangeError("no more");
  }
  void Close() override {}

 private:
  Source s_;
  size_t at_ = 0;
  int* count_;
};

absl::StatusOr<std::unique_ptr<ExampleIterator>> Open(Task& t, const Source& s) {
  Running(t);
  if (t.log_fault) world->history_fails = true;
  if (!s.cannot_start.ok()) return s.cannot_start;
  t.queried.push_back({s.uri, 0});
  return std::make_unique<Iterator>(s, nullptr);
}

class Environment : public fcp::client::SimpleTaskEnvironment {
 public:
  std::string GetBaseDir() override { return world->dir; }
  std::string GetCacheDir() override { return world->dir; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override {
    world->stray_sources.push_back("query without context");
    return absl::InvalidArgumentError("no context");
  }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(
      const ExampleSelector& s, const SelectorContext& context) override {
    auto e = world->available.find(s.collection_uri());
    if (e != world->available.end()) {
      world->eligibility_contexts.push_back({s.criteria().value(), context});
      Source source;
      source.examples.assign(e->second, "x");
      return std::make_unique<Iterator>(source, nullptr);
    }
    Task* t = world->Owner(s.collection_uri());
    if (t == nullptr) {
      world->stray_sources.push_back(s.collection_uri());
      return absl::InvalidArgumentError("unknown collection");
    }
    for (auto& source : t->sources) {
      if (source.uri != s.collection_uri()) continue;
      if (source.slices || source.criteria != s.criteria().value()) {
        world->stray_sources.push_back("unexpected query of " + s.collection_uri());
      }
      t->contexts.push_back(context);
      return Open(*t, source);
    }
    return absl::InternalError("unreachable");
  }
  bool OnTaskCompleted(const TaskResultInfo& info) override {
    world->history_fails = false;
    running->told++;
    running->told_result = info.result();
    running->info = info;
    running = &nobody;
    return true;
  }

 private:
  bool TrainingConditionsSatisfied() override { return world->conditions; }
};

class SliceFactory : public fcp::client::FederatedSelectExampleIteratorFactory {
 public:
  explicit SliceFactory(std::string t) : template_(std::move(t)) {}
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    for (auto& [n, t] : world->tasks) {
      for (auto& source : t.sources) {
        if (!source.slices || source.criteria != s.criteria().value()) continue;
        world->slices_down += 31;
        if (template_ != t.slices_template) {
          world->stray_sources.push_back("slices of " + t.name + " fetched from " + template_);
        }
        return Open(t, source);
      }
    }
    world->stray_sources.push_back("unknown slices");
    return absl::InvalidArgumentError("unknown slices");
  }

 private:
  std::string template_;
};
class Slices : public fcp::client::FederatedSelectManager {
 public:
  std::unique_ptr<fcp::client::engine::ExampleIteratorFactory> CreateExampleIteratorFactoryForUriTemplate(
      absl::string_view t) override {
    return std::make_unique<SliceFactory>(std::string(t));
  }
  NetworkStats GetNetworkStats() override { return {.bytes_downloaded = world->slices_down}; }
};

class Scratch : public fcp::client::Files {
 public:
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string& suffix) override {
    if (world->files_fail) return absl::InvalidArgumentError("no space left");
    std::string path = Format("%s/%s%d%s", world->dir.c_str(), prefix.c_str(), ++n_, suffix.c_str());
    std::ofstream(path).close();
    return path;
  }

 private:
  int n_ = 0;
};

class Server : public FederatedProtocol {
 public:
  absl::StatusOr<EligibilityEvalCheckinResult> EligibilityEvalCheckin(
      std::function<void(const EligibilityEvalTask&)> received) override {
    ++world->eligibility_calls;
    world->Talk();
    EligibilityEvalTask t;
    t.execution_id = "eligibility";
    t.payloads.plan = world->eligibility_plan;
    t.payloads.checkpoint = absl::Cord(world->eligibility_checkpoint);
    t.population_eligibility_spec = world->spec;
    switch (world->eligibility) {
      case World::kError:
        if (world->early_callback) received(t);
        return world->eligibility_error;
      case World::kRejected: return Rejection{};
      case World::kDisabled: return EligibilityEvalDisabled{world->spec};
      case World::kTask: break;
    }
    received(t);
    world->Talk();
    return t;
  }
  void ReportEligibilityEvalError(absl::Status) override {
    ++world->eligibility_errors;
    world->Talk();
  }
  static TaskAssignment Assignment(const Task& t) {
    TaskAssignment a;
    if (t.in_cord) {
      a.payloads.plan = absl::Cord(t.plan);
      absl::Cord c;
      for (size_t i = 0; i < t.checkpoint.size(); i += 1000) c.Append(absl::Cord(t.checkpoint.substr(i, 1000)));
      a.payloads.checkpoint = c;
    } else {
      a.payloads.plan = t.plan;
      a.payloads.checkpoint = t.checkpoint;
    }
    a.federated_select_uri_template = t.slices_template;
    a.aggregation_session_id = t.session;
    if (t.secagg_info) a.sec_agg_info = SecAggInfo{t.minimum_clients + 5, t.minimum_clients};
    if (t.confidential) a.confidential_agg_info = ConfidentialAggInfo{absl::Cord("policy")};
    a.task_name = t.name;
    return a;
  }
  absl::StatusOr<CheckinResult> Checkin(const std::optional<TaskEligibilityInfo>& info,
                                        std::function<void(const TaskAssignment&)> received) override {
    ++world->checkin_calls;
    world->offered = info;
    world->Talk();
    if (world->checkin == World::kSingleRejected) return Rejection{};
    TaskAssignment a = Assignment(*world->single);
    if (world->checkin == World::kSingleError) {
      if (world->early_callback) received(a);
      return world->checkin_error;
    }
    received(a);
    world->Talk();
    return a;
  }
  absl::StatusOr<MultipleTaskAssignments> PerformMultipleTaskAssignments(
      const std::vector<std::string>& names, const std::function<void(size_t)>& received) override {
    ++world->multi_calls;
    world->multi_asked = names;
    world->Talk();
    if (world->multi == World::kMultiError) {
      if (world->early_callback) received(1);
      return world->multi_error;
    }
    MultipleTaskAssignments all;
    for (const std::string& n : names) {
      auto t = world->tasks.find(n);
      if (t == world->tasks.end() || &t->second == world->single) continue;
      if (!t->second.assignment.ok()) {
        all.task_assignments.emplace(n, t->second.assignment);
      } else {
        all.task_assignments.emplace(n, Assignment(t->second));
      }
    }
    if (!all.task_assignments.empty()) received(all.task_assignments.size());
    world->Talk();
    return all;
  }
  Task* Reported(const std::optional<std::string>& session) {
    if (!session.has_value()) return world->single;
    for (auto& [n, t] : world->tasks) {
      if (&t != world->single && t.session == *session) return &t;
    }
    return nullptr;
  }
  absl::Status ReportCompleted(ComputationResults results, absl::Duration took,
                               std::optional<std::string> session) override;
  absl::Status ReportNotCompleted(fcp::client::engine::PhaseOutcome outcome, absl::Duration,
                                  std::optional<std::string> session) override {
    world->Talk();
    Task* t = Reported(session);
    if (t == nullptr) {
      ++world->stray_reports;
      return absl::OkStatus();
    }
    Running(*t);
    ++t->not_completed;
    if (outcome != fcp::client::engine::PhaseOutcome::ERROR) t->wrong = "failure reported as something else";
    return t->report_result;
  }
  RetryWindow GetLatestRetryWindow() override {
    RetryWindow w;
    w.set_retry_token(Format("token%lld", (long long)world->windows));
    w.mutable_delay_min()->set_seconds(60 + world->windows);
    w.mutable_delay_max()->set_seconds(90 + world->windows);
    return w;
  }
  NetworkStats GetNetworkStats() override {
    return {.bytes_downloaded = world->down, .bytes_uploaded = world->up,
            .network_duration = absl::Milliseconds(world->windows)};
  }
};

std::map<std::string, std::string> Written(const Task& t) {
  std::map<std::string, std::string> all;
  for (auto& q : t.queries) {
    for (auto& v : q.vectors) all[v.output] = v.written;
  }
  return all;
}
std::map<tensorflow::DataType, int> kBits = {
    {tensorflow::DT_INT8, 7},   {tensorflow::DT_UINT8, 8},  {tensorflow::DT_INT16, 15},
    {tensorflow::DT_UINT16, 16}, {tensorflow::DT_INT32, 31}, {tensorflow::DT_INT64, 62}};

absl::Status Server::ReportCompleted(ComputationResults results, absl::Duration took,
                                     std::optional<std::string> session) {
  world->Talk();
  Task* t = Reported(session);
  if (t == nullptr) {
    ++world->stray_reports;
    return absl::OkStatus();
  }
  Running(*t);
  ++t->completed;
  auto wrong = [&](const std::string& w) {
    t->results_right = false;
    t->wrong = w;
  };
  if (took < absl::ZeroDuration()) wrong("took negative time");
  size_t expected = 0;
  if (t->kind == Kind2::kQuery) {
    expected = 1;
    if (world->flags.lightweight) {
      auto r = results.find(std::string(fcp::client::kFederatedComputeCheckpoint));
      if (r == results.end() || !std::holds_alternative<absl::Cord>(r->second) ||
          std::string(std::get<absl::Cord>(r->second)) != verif::PutAllDown("report", Written(*t))) {
        wrong("the report differs from what the queries gave");
      }
    } else {
      auto r = results.find(std::string(fcp::client::kTensorflowCheckpointAggregand));
      if (r == results.end() || !std::holds_alternative<std::string>(r->second) ||
          std::get<std::string>(r->second) != verif::PutAllDown("checkpoint", Written(*t))) {
        wrong("the checkpoint differs from what the queries gave");
      }
    }
  } else {
    for (auto& o : t->outputs) {
      ++expected;
      auto r = results.find(o.name);
      if (r == results.end() || !std::holds_alternative<QuantizedTensor>(r->second)) {
        wrong("no " + o.name);
        continue;
      }
      const auto& q = std::get<QuantizedTensor>(r->second);
      if (q.bitwidth != kBits[o.type] || q.dimensions != o.dims ||
          !std::equal(q.values.begin(), q.values.end(), o.values.begin(), o.values.end(),
                      [](uint64_t a, int64_t b) { return a == static_cast<uint64_t>(b); })) {
        wrong("wrong " + o.name);
      }
    }
    if (t->has_output_file) {
      ++expected;
      auto r = results.find(std::string(fcp::client::kTensorflowCheckpointAggregand));
      if (r == results.end() || !std::holds_alternative<std::string>(r->second) ||
          std::get<std::string>(r->second) != t->output_file) {
        wrong("the checkpoint differs from what the model wrote");
      }
    }
  }
  if (results.size() != expected) wrong(Format("%zu results for %zu", results.size(), expected));
  // Recorded before anything is sent.
  ++world->sent;
  int recorded = 0;
  if (!world->history.opstats().empty()) {
    const Stats& now = *world->history.opstats().rbegin();
    auto started = [&](const auto& events) {
      for (auto& e : events) recorded += e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED;
    };
    started(now.events());
    for (auto& p : now.phase_stats()) started(p.events());
  }
  Judge("history", recorded >= world->sent, "sent-before-recorded",
        "results of " + t->name + " are sent before the history says so");
  return t->report_result;
}

}  // namespace

// The model runtime: plays the model of the task whose name it is given.
namespace fcp::client::engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
    const std::string& model, std::function<bool()>, const InterruptibleRunner::TimingConfig&, LogManager*,
    std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs, std::vector<std::string> output_names,
    const TfLiteInterpreterOptions&, int32_t) {
  Task* t = nullptr;
  for (auto& [n, x] : world->tasks) {
    if (x.model == model) t = &x;
  }
  if (t == nullptr) {
    world->stray_sources.push_back("unknown model");
    return absl::InvalidArgumentError("unknown model");
  }
  Running(*t);
  ++t->models_run;
  if (t->log_fault) world->history_fails = true;
  size_t expected = 1 + t->constants.size();
  if (t->has_input_file) {
    ++expected;
    if (!inputs->contains("in_file") || ReadAll((*inputs)["in_file"]) != t->checkpoint) {
      t->wrong = "the model is given another checkpoint than was assigned";
    }
  }
  if (t->has_output_file) {
    ++expected;
    if (!inputs->contains("out_file")) {
      t->wrong = "the model is not told where to write";
      return absl::InvalidArgumentError("no output file");
    }
    std::ofstream((*inputs)["out_file"], std::ios::binary) << t->output_file;
  }
  for (auto& [n, v] : t->constants) {
    if (!inputs->contains(n) || (*inputs)[n] != v) t->wrong = "wrong constant " + n;
  }
  if (inputs->size() != expected) t->wrong = Format("%zu inputs for %zu", inputs->size(), expected);
  std::string token = (*inputs)["token"];
  world->tokens.push_back(token);
  bool failed = false;
  auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token));
  if (!provider.has_value()) {
    t->wrong = "the token of the data leads nowhere";
    failed = true;
  } else {
    for (auto& s : t->sources) {
      ExampleSelector selector;
      selector.set_collection_uri(s.slices ? kFederatedSelectCollectionUri : s.uri);
      selector.mutable_criteria()->set_type_url("t/criteria");
      selector.mutable_criteria()->set_value(s.criteria);
      auto dataset = (*provider)->MakeDataset(selector.SerializeAsString());
      if (!dataset.ok()) {
        t->wrong = "no dataset";
        failed = true;
        break;
      }
      auto iterator = (*dataset)->MakeIterator();
      std::vector<std::string> got;
      absl::Status end;
      while (true) {
        auto x = iterator->GetNext();
        if (!x.ok()) {
          end = x.status();
          break;
        }
        got.push_back(*x);
      }
      absl::Status due = !s.cannot_start.ok() ? s.cannot_start
                         : !s.breaks.ok()     ? s.breaks
                                              : absl::OutOfRangeError("");
      if (end.code() != due.code() || (s.cannot_start.ok() ? got != s.examples : !got.empty())) {
        t->wrong = Format("%zu examples of %zu, then %s for %s", got.size(), s.examples.size(),
                          end.ToString().c_str(), due.ToString().c_str());
      }
      if (s.cannot_start.ok() && !t->queried.empty()) t->queried.back().second = got.size();
      if (end.code() != absl::StatusCode::kOutOfRange) {
        failed = true;
        break;
      }
    }
  }
  if (failed) return absl::InvalidArgumentError("the model failed");
  if (!t->model_result.ok()) return t->model_result;
  OutputTensors out;
  out.output_tensor_names = output_names;
  for (const std::string& n : output_names) {
    for (auto& o : t->outputs) {
      if (o.name != n) continue;
      tensorflow::TensorShape shape;
      for (int64_t d : o.dims) shape.AddDim(d);
      tensorflow::Tensor x(o.type, shape);
      auto fill = [&](auto one) {
        auto flat = x.flat<decltype(one)>();
        for (size_t i = 0; i < o.values.size(); ++i) flat(i) = o.values[i];
      };
      switch (o.type) {
        case tensorflow::DT_INT8: fill(int8_t()); break;
        case tensorflow::DT_UINT8: fill(uint8_t()); break;
        case tensorflow::DT_INT16: fill(int16_t()); break;
        case tensorflow::DT_UINT16: fill(uint16_t()); break;
        case tensorflow::DT_INT32: fill(int32_t()); break;
        case tensorflow::DT_INT64: fill(int64_t()); break;
        default: fill(float()); break;
      }
      out.output_tensors.push_back(x);
    }
  }
  return out;
}
}  // namespace fcp::client::engine

namespace {

absl::Status Error(Rng& r) {
  static const std::vector<absl::StatusCode> kCodes = {
      absl::StatusCode::kAborted, absl::StatusCode::kCancelled, absl::StatusCode::kUnavailable,
      absl::StatusCode::kInternal, absl::StatusCode::kNotFound, absl::StatusCode::kUnauthenticated};
  return absl::Status(r.Pick(kCodes), "scripted");
}
absl::Status SourceError(Rng& r) {
  return r.Chance(0.5) ? absl::CancelledError("scripted") : absl::InvalidArgumentError("scripted");
}

void FillVector(Rng& r, Vector& v, bool lightweight) {
  static const std::vector<Spec::DataType> kAll = {Spec::INT32, Spec::INT64, Spec::STRING, Spec::FLOAT,
                                                   Spec::DOUBLE, Spec::BOOL, Spec::BYTES};
  v.asked = kAll[r.Below(lightweight ? 5 : 7)];
  static const std::vector<int> kSizes = {0, 1, 2, 3, 7, 20, 100};
  int n = r.Pick(kSizes);
  auto numbers = [&](auto* field, auto one) {
    using T = decltype(one);
    std::unique_ptr<T[]> all(new T[n + 1]);
    for (int i = 0; i < n; ++i) {
      T x = r.Chance(0.2) ? std::numeric_limits<T>::lowest() : static_cast<T>(r.Range(-1000, 1000));
      if (r.Chance(0.1)) x = std::numeric_limits<T>::max();
      field->add_value(x);
      all[i] = x;
    }
    v.written = verif::PutDown(all.get(), n);
  };
  auto texts = [&](auto* field, bool utf8) {
    std::vector<std::string> all;
    for (int i = 0; i < n; ++i) {
      std::string x = utf8 ? std::string(r.Below(40), 'a' + r.Below(26)) : r.Bytes(r.Below(40));
      field->add_value(x);
      all.push_back(x);
    }
    v.written = verif::PutDown(all.data(), n);
  };
  switch (v.asked) {
    case Spec::INT32: numbers(v.given.mutable_int32_values(), int32_t()); break;
    case Spec::INT64: numbers(v.given.mutable_int64_values(), int64_t()); break;
    case Spec::FLOAT: numbers(v.given.mutable_float_values(), float()); break;
    case Spec::DOUBLE: numbers(v.given.mutable_double_values(), double()); break;
    case Spec::BOOL: numbers(v.given.mutable_bool_values(), bool()); break;
    case Spec::STRING: texts(v.given.mutable_string_values(), true); break;
    default: texts(v.given.mutable_bytes_values(), false); break;
  }
}

Source NewSource(Rng& r, const Task& t, int i) {
  Source s;
  s.uri = Format("app:/%s/q%d", t.name.c_str(), i);
  s.criteria = Format("%s criteria %d ", t.name.c_str(), i) + std::string(r.Below(20), 'c');
  int n = r.Below(6);
  for (int k = 0; k < n; ++k) s.examples.push_back(r.Bytes(r.Below(60)));
  return s;
}
void SetSelector(ExampleSelector* out, const Source& s) {
  out->set_collection_uri(s.slices ? fcp::client::kFederatedSelectCollectionUri : s.uri);
  out->mutable_criteria()->set_type_url("t/criteria");
  out->mutable_criteria()->set_value(s.criteria);
}

void BuildQuery(Rng& r, const World& w, Task& t, ClientOnlyPlan& plan) {
  bool fails = false;
  int n = 1 + r.Below(rep->mode == "queries" ? 4 : 2);
  auto* spec = plan.mutable_phase()->mutable_example_query_spec();
  auto* router = plan.mutable_phase()->mutable_federated_example_query();
  for (int i = 0; i < n; ++i) {
    t.sources.push_back(NewSource(r, t, i));
    Source& s = t.sources.back();
    Query q;
    q.source = i;
    auto* asked = spec->add_example_queries();
    SetSelector(asked->mutable_example_selector(), s);
    int vectors = r.Below(rep->mode == "queries" ? 6 : 3) + (i == 0 ? 1 : 0);
    ExampleQueryResult result;
    for (int k = 0; k < vectors; ++k) {
      Vector v;
      v.output = Format("%s_out_%d_%d", t.name.c_str(), i, k);
      v.name = Format("vector%d", k);
      FillVector(r, v, w.flags.lightweight);
      if (k > 0 && r.Chance(0.15)) {
        // Two outputs from one vector.
        v.name = q.vectors[0].name;
        v.asked = q.vectors[0].asked;
        v.given = q.vectors[0].given;
        v.written = q.vectors[0].written;
        v.missing = q.vectors[0].missing;
      } else if (r.Chance(0.02)) {
        v.missing = true;
      }
      if (r.Chance(0.02)) {
        v.asked = v.asked == Spec::INT32 ? Spec::INT64 : Spec::INT32;
        fails = true;
      }
      if (v.missing) fails = true;
      auto& o = (*asked->mutable_output_vector_specs())[v.output];
      o.set_vector_name(v.name);
      o.set_data_type(v.asked);
      if (!v.missing) (*result.mutable_vector_data()->mutable_vectors())[v.name] = v.given;
      if (t.kind == Kind2::kUnaggregated && i == 0 && k == 0) {
        if (r.Chance(0.5)) (*router->mutable_aggregations())[v.output].mutable_secure_aggregation();
      } else {
        (*router->mutable_aggregations())[v.output].mutable_tf_v1_checkpoint_aggregation();
      }
      q.vectors.push_back(v);
    }
    if (r.Chance(0.3)) (*result.mutable_vector_data()->mutable_vectors())["extra"].mutable_int32_values()->add_value(3);
    result.mutable_stats()->set_example_count_for_logs(r.Below(100));
    s.examples = {result.SerializeAsString()};
    if (r.Chance(0.3)) s.examples.push_back("not looked at");
    if (r.Chance(0.03)) {
      s.cannot_start = SourceError(r);
      fails = true;
    } else if (r.Chance(0.03)) {
      s.examples.clear();
      if (r.Chance(0.5)) s.breaks = SourceError(r);
      fails = true;
    } else if (r.Chance(0.02)) {
      s.examples[0] = "\xff\xff\xff";
      fails = true;
    }
    t.queries.push_back(q);
  }
  t.computed = !fails && t.kind == Kind2::kQuery;
  if (!w.flags.lightweight && w.files_fail) t.computed = false;
}

void BuildModel(Rng& r, const World& w, Task& t, ClientOnlyPlan& plan) {
  bool fails = false;
  int n = r.Below(3);
  for (int i = 0; i < n; ++i) {
    Source s = NewSource(r, t, i);
    if (r.Chance(0.25)) s.slices = true;
    if (r.Chance(0.04)) {
      s.cannot_start = SourceError(r);
      fails = true;
    } else if (r.Chance(0.04)) {
      s.breaks = SourceError(r);
      fails = true;
    }
    t.sources.push_back(s);
  }
  auto* spec = plan.mutable_phase()->mutable_tensorflow_spec();
  spec->set_dataset_token_tensor_name("token");
  auto* router = plan.mutable_phase()->mutable_federated_compute();
  t.has_input_file = r.Chance(0.9);
  t.has_output_file = r.Chance(0.5);
  if (t.has_input_file) {
    router->set_input_filepath_tensor_name("in_file");
    spec->add_input_tensor_specs()->set_name("in_file");
  }
  if (t.has_output_file) {
    router->set_output_filepath_tensor_name("out_file");
    spec->add_input_tensor_specs()->set_name("out_file");
    t.output_file = r.Bytes(r.Below(300));
  }
  int outputs = r.Below(4) + (t.has_output_file ? 0 : 1);
  static const std::vector<tensorflow::DataType> kTypes = {
      tensorflow::DT_INT8, tensorflow::DT_UINT8, tensorflow::DT_INT16,
      tensorflow::DT_UINT16, tensorflow::DT_INT32, tensorflow::DT_INT64};
  for (int i = 0; i < outputs; ++i) {
    Output o;
    o.name = Format("tensor%d", (i * 7) % 5);
    o.type = r.Pick(kTypes);
    if (r.Chance(0.05)) {
      o.type = tensorflow::DT_FLOAT;
      fails = true;
    }
    int64_t size = 1;
    int dims = r.Below(3);
    for (int d = 0; d < dims; ++d) {
      o.dims.push_back(r.Range(1, 6));
      size *= o.dims.back();
    }
    int64_t top = o.type == tensorflow::DT_FLOAT ? 100 : (int64_t{1} << (kBits[o.type])) - 1;
    for (int64_t k = 0; k < size; ++k) o.values.push_back(r.Chance(0.2) ? top : r.Range(0, std::min<int64_t>(top, 1 << 20)));
    auto* ts = spec->add_output_tensor_specs();
    ts->set_name(o.name);
    ts->set_dtype(o.type);
    for (int64_t d : o.dims) ts->mutable_shape()->add_dim()->set_size(d);
    if (t.kind == Kind2::kUnaggregated && i == 0) {
      if (r.Chance(0.5)) {
        (*router->mutable_aggregations())[o.name].mutable_tf_v1_checkpoint_aggregation();
        t.all_secagg = false;
      }
    } else {
      (*router->mutable_aggregations())[o.name].mutable_secure_aggregation();
    }
    t.outputs.push_back(o);
  }
  if (t.kind == Kind2::kUnaggregated && outputs == 0) t.kind = Kind2::kModel;
  if (r.Chance(0.3)) {
    t.constants["constant"] = r.Bytes(10);
    auto& c = (*spec->mutable_constant_inputs())["constant"];
    c.set_dtype(tensorflow::DT_STRING);
    c.add_string_val(t.constants["constant"]);
  }
  if (t.kind != Kind2::kNoModel) {
    t.model = "model of " + t.name;
    plan.set_tflite_graph(t.model);
  }
  if (r.Chance(0.06)) {
    t.model_result = r.Chance(0.5) ? absl::CancelledError("scripted") : absl::InvalidArgumentError("scripted");
    fails = true;
  }
  t.computed = !fails && t.kind == Kind2::kModel;
}

Task NewTask(Rng& r, const World& w, const std::string& name, int number) {
  Task t;
  t.name = name;
  t.session = Format("session-%d", number);
  t.slices_template = "https://slices/" + name + "/{served_at_id}/{key_base10}";
  t.in_cord = r.Chance(0.5);
  t.secagg_info = r.Chance(0.5);
  t.minimum_clients = r.Below(500);
  t.confidential = r.Chance(0.25);
  static const std::vector<size_t> kSizes = {0, 1, 500, 4000, 6000, 8190, 8192, 9000, 40000};
  t.checkpoint = r.Bytes(r.Pick(kSizes));
  double k = r.Unit();
  bool query = rep->mode == "queries" ? k < 0.9 : k < 0.5;
  double odd = r.Unit();
  t.kind = odd < 0.03   ? Kind2::kGarbage
           : odd < 0.06 ? Kind2::kUnaggregated
           : odd < 0.09 ? Kind2::kNoRouter
           : odd < 0.12 ? Kind2::kNoModel
           : query      ? Kind2::kQuery
                        : Kind2::kModel;
  if (t.kind == Kind2::kNoModel) query = false;
  ClientOnlyPlan plan;
  if (query) {
    BuildQuery(r, w, t, plan);
  } else {
    BuildModel(r, w, t, plan);
  }
  if (t.kind == Kind2::kNoRouter) {
    plan.mutable_phase()->mutable_local_compute();
    t.computed = false;
  }
  t.plan = plan.SerializeAsString();
  if (t.kind == Kind2::kGarbage) {
    t.plan = "\xff\xff\xffnot a plan";
    t.computed = t.usable = false;
  }
  if (!query && w.files_fail) t.usable = false;
  if (r.Chance(0.12)) t.report_result = Error(r);
  if ((t.kind == Kind2::kQuery || t.kind == Kind2::kModel) && r.Chance(0.05)) {
    t.log_fault = true;
    // Only noticed where the task gets to run.
    if (!t.sources.empty() && t.kind == Kind2::kQuery && w.files_fail && !w.flags.lightweight) t.log_fault = false;
  }
  return t;
}

// Makes everything remembered that much older.
void Age(OpStatsSequence& h, std::map<std::string, Past>& past, int64_t seconds) {
  auto older = [&](Timestamp* t) { t->set_seconds(t->seconds() - seconds); };
  if (h.has_earliest_trustworthy_time()) older(h.mutable_earliest_trustworthy_time());
  for (auto& o : *h.mutable_opstats()) {
    auto part = [&](auto& p) {
      for (auto& e : *p.mutable_events()) older(e.mutable_timestamp());
      for (auto& [uri, d] : *p.mutable_dataset_stats()) {
        if (d.has_first_access_timestamp()) older(d.mutable_first_access_timestamp());
      }
    };
    part(o);
    for (auto& p : *o.mutable_phase_stats()) part(p);
  }
  for (auto& [name, p] : past) {
    p.lo -= seconds * 1000000;
    p.hi -= seconds * 1000000;
  }
}

bool IsQuery(const Task& t) { return !t.queries.empty(); }

// ---- one run ----------------------------------------------------------------------

SelectorContext ExpectedContext(const World& w, const Task& t) {
  SelectorContext c;
  auto* p = c.mutable_computation_properties();
  p->set_session_name(w.session);
  auto* f = p->mutable_federated();
  f->set_population_name(w.population);
  f->set_task_name(t.name);
  if (w.flags.lightweight_id) {
    if (IsQuery(t)) {
      std::string all;
      for (auto& s : t.sources) {
        ExampleSelector e;
        SetSelector(&e, s);
        all += e.criteria().SerializeAsString();
      }
      f->set_computation_id(Sha(all));
    }
  } else if (w.flags.computation_id) {
    f->set_computation_id(Sha(t.plan));
  }
  if (IsQuery(t)) p->set_example_iterator_output_format(fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT);
  if (t.confidential && w.flags.confidential_context) {
    f->mutable_confidential_aggregation();
  } else if (IsQuery(t) || t.has_output_file || !t.all_secagg) {
    f->mutable_simple_aggregation();
  } else {
    f->mutable_secure_aggregation()->set_minimum_clients_in_server_visible_aggregate(
        t.secagg_info ? t.minimum_clients : 0);
  }
  return c;
}

// What the context says about earlier contributions.
void JudgePast(const World& w, const Task& t, const SelectorContext& c) {
  auto p = w.past.find(t.name);
  const auto& f = c.computation_properties().federated();
  if (p != w.past.end() && p->second.unsure) return;
  if (p == w.past.end()) {
    Judge("contexts", !f.has_historical_context(), "history-without-contribution",
          t.name + " never contributed but the query says " + f.historical_context().ShortDebugString());
    return;
  }
  int64_t at = Micros(f.historical_context().last_successful_contribution_time());
  Judge("contexts", p->second.Fits(at), "wrong-last-contribution",
        Format("%s contributed between %lld and %lld but the query says %lld", t.name.c_str(),
               (long long)p->second.lo, (long long)p->second.hi, (long long)at));
  std::set<std::string> keys;
  bool times = true;
  for (auto& [k, v] : f.historical_context().collection_first_access_times()) {
    keys.insert(k);
    times &= p->second.Fits(Micros(v));
  }
  Judge("contexts", keys == p->second.accessed && times, "wrong-first-access",
        Format("%s: first accesses of %zu collections for %zu: ", t.name.c_str(), keys.size(), p->second.accessed.size()) +
            f.historical_context().ShortDebugString());
}

void OneRun(World& w, const std::set<std::string>& eligible){
  world = &w;
  verif::Publisher publisher;
  Logs logs;
  Environment env;
  Scratch files;
  Server server;
  Slices slices;
  nobody = Task();
  running = &nobody;
  w.run_started = absl::ToUnixMicros(absl::Now());
  fcp::client::InterruptibleRunner::TimingConfig timing{absl::ZeroDuration(), absl::Seconds(1), absl::Seconds(1)};
  absl::StatusOr<FLRunnerResult> result;
  {
    OpStatsLoggerImpl history(std::make_unique<MemoryDb>(&w.history, &w.history_fails), &logs, &w.flags, w.session,
                              w.population);
    fcp::client::PhaseLoggerImpl phases(&publisher, &history, &logs, &w.flags);
    result = fcp::client::RunFederatedComputation(&env, phases, &publisher, &files, &logs, &history, &w.flags, &server,
                                                  &slices, timing, absl::Now(), w.session, w.population,
                                                  *fcp::Clock::RealClock());
  }
  int64_t ended = absl::ToUnixMicros(absl::Now());
  rep->Count("runs");
  Judge("runs", result.ok(), "run-failed", "a run ends with " + result.status().ToString());
  if (!result.ok()) return;

  // What should have happened.
  bool start = w.conditions;
  bool proceed = start && (w.eligibility == World::kDisabled ||
                           (w.eligibility == World::kTask && !w.files_fail && w.eligibility_plan != "\xff\xff"));
  bool elig_error = start && w.eligibility == World::kTask && !proceed;
  std::set<std::string> ask;
  bool single = proceed && !w.spec.has_value();
  if (proceed && w.spec.has_value()) {
    for (const TaskInfo& i : w.spec->task_info()) {
      if (i.task_assignment_mode() == TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE) {
        if (w.eligibility == World::kDisabled || eligible.count(i.task_name())) ask.insert(i.task_name());
      } else {
        single = true;
      }
    }
  }
  Judge("runs", w.eligibility_calls == (start ? 1 : 0), "eligibility-asked",
        Format("eligibility asked for %d times", w.eligibility_calls));
  Judge("runs", w.eligibility_errors == (elig_error ? 1 : 0), "eligibility-error-report",
        Format("%d eligibility errors reported", w.eligibility_errors));
  Judge("runs", w.multi_calls == (ask.empty() ? 0 : 1) &&
                    std::set<std::string>(w.multi_asked.begin(), w.multi_asked.end()) == ask &&
                    w.multi_asked.size() == ask.size(),
        "tasks-asked-for", Format("%d requests for several tasks, naming %zu, %zu due", w.multi_calls, w.multi_asked.size(), ask.size()));
  Judge("runs", w.checkin_calls == (single ? 1 : 0), "task-asked-for",
        Format("%d requests for one task, %d due", w.checkin_calls, single));
  if (single && w.checkin_calls == 1) {
    bool info = w.eligibility == World::kTask && w.spec.has_value();
    Judge("runs", w.offered.has_value() == info, "offer-presence", "eligibility info wrongly left out or sent");
    if (info && w.offered.has_value()) {
      std::map<std::string, float> weight;
      for (auto& x : w.offered->task_weights()) weight[x.task_name()] = x.weight();
      bool right = true;
      for (const TaskInfo& i : w.spec->task_info()) {
        bool multiple = i.task_assignment_mode() == TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE;
        auto x = weight.find(i.task_name());
        if (multiple) {
          right &= x == weight.end() || x->second == 0;
        } else {
          right &= x != weight.end() && (x->second > 0) == (eligible.count(i.task_name()) > 0);
        }
      }
      Judge("runs", right, "offer", "eligibility info sent for one task: " + w.offered->ShortDebugString());
    }
  }
  size_t due = ask.size() + (single ? 1 : 0);
  std::multiset<std::string> good;
  for (auto& [name, t] : w.tasks) {
    bool is_single = &t == w.single;
    bool assigned = is_single ? single && w.checkin == World::kSingleAnswer
                              : ask.count(name) && w.multi == World::kMultiAnswer && t.assignment.ok();
    bool run_it = assigned && t.usable;
    rep->Count(run_it ? "tasks-run" : "tasks-not-run");
    std::string who = Format("%s (%s, %s)", name.c_str(), IsQuery(t) ? "query" : "model", is_single ? "single" : "multiple");
    bool completes = run_it && t.computed && !t.log_fault;
    bool fails = run_it && !t.computed && !t.log_fault;
    // A failure before any data was asked for does not reach the fault.
    bool unsure = t.log_fault && run_it && !t.computed;
    if (!unsure) {
      Judge("runs", t.completed == completes && t.not_completed == fails, "report-count",
            Format("%s: %d results and %d failures reported, %d and %d due", who.c_str(), t.completed, t.not_completed,
                   completes, fails));
    }
    Judge("runs", t.completed + t.not_completed <= 1, "reported-twice", who + " is reported twice");
    if (t.completed) {
      rep->Count("results-reported");
      Judge(IsQuery(t) ? "queries" : "runs", t.results_right && t.wrong.empty(), "wrong-result", who + ": " + t.wrong);
      if (IsQuery(t) && t.kind == Kind2::kQuery) Judge("queries", t.computed, "result-of-failed-query", who + " reports a result although its queries failed");
    } else if (IsQuery(t) && t.kind == Kind2::kQuery && run_it && !t.log_fault) {
      rep->Count("queries-failed");
      Judge("queries", !t.computed, "no-result", who + " reports no result although its queries succeeded");
    }
    if (!t.completed) Judge("runs", t.wrong.empty(), "wrong-inputs", who + ": " + t.wrong);
    Judge("runs", t.models_run == (run_it && !t.model.empty() && t.kind == Kind2::kModel ? 1 : 0), "model-runs",
          Format("the model of %s runs %d times", who.c_str(), t.models_run));
    bool success = completes && t.report_result.ok();
    if (success) good.insert(name);
    if (run_it) {
      Judge("runs", t.told == 1, "application-told", Format("%s: the application is told %d times", who.c_str(), t.told));
      Judge("runs", t.told_result == success, "application-told-wrong",
            Format("%s: the application is told %d, %d due", who.c_str(), t.told_result, success));
    }
    // Contexts.
    if (run_it && t.kind != Kind2::kNoRouter) {
      SelectorContext expected = ExpectedContext(w, t);
      auto same = [&](SelectorContext c) {
        c.mutable_computation_properties()->mutable_federated()->clear_historical_context();
        return MessageDifferencer::Equals(c, expected);
      };
      for (auto& c : t.contexts) {
        rep->Count("contexts");
        Judge("contexts", same(c), "wrong-context", who + ": query sees " + c.ShortDebugString() + " for " + expected.ShortDebugString());
        JudgePast(w, t, c);
      }
      if (t.told == 1 && t.wrong.empty()) {
        Judge("contexts", t.info.has_example_iterator_queries() == w.flags.recording, "queries-recorded",
              who + ": queries wrongly recorded or not");
        if (w.flags.recording) {
          rep->Count("recordings");
          auto& q = t.info.example_iterator_queries();
          Judge("contexts", same(q.selector_context()), "wrong-recorded-context", who + ": recorded context " + q.selector_context().ShortDebugString() + " for " + expected.ShortDebugString());
          std::vector<std::string> got, want;
          for (auto& x : q.query()) got.push_back(Format("%s|%s|%d", x.collection_uri().c_str(), x.criteria().value().c_str(), x.example_count()));
          for (auto& [uri, n] : t.queried) {
            for (auto& s : t.sources) {
              if (s.uri != uri) continue;
              int read = IsQuery(t) ? (s.examples.empty() ? 0 : 1) : n;
              want.push_back(Format("%s|%s|%d", s.slices ? fcp::client::kFederatedSelectCollectionUri : uri.c_str(), s.criteria.c_str(), read));
            }
          }
          std::sort(got.begin(), got.end());
          std::sort(want.begin(), want.end());
          Judge("contexts", got == want, "wrong-recorded-queries",
                Format("%s: %zu queries recorded for %zu; %s for %s", who.c_str(), got.size(), want.size(),
                       got.empty() ? "" : got[0].c_str(), want.empty() ? "" : want[0].c_str()));
        }
      }
    }
    // The history.
    Past& p = w.past[name];
    bool known = p.hi != 0;
    auto when = fcp::client::opstats::GetLastSuccessfulContributionTime(w.history, name);
    if (t.log_fault && run_it) {
      p.unsure = true;
      p.hi = std::max<int64_t>(p.hi, 1);
    } else if (completes && t.report_result.code() != absl::StatusCode::kAborted) {
      rep->Count("contributions");
      p.lo = w.run_started;
      p.hi = ended;
      p.unsure = false;
      p.accessed.clear();
      for (auto& s : t.sources) {
        if (!s.slices) p.accessed.insert(s.uri);
      }
      Judge("history", when.has_value() && p.Fits(Micros(*when)),
            "contribution-not-recorded", who + " contributed but the history does not say so");
    } else if (!known) {
      Judge("history", !when.has_value(), "contribution-recorded", who + " did not contribute but the history says so");
    } else if (!p.unsure) {
      Judge("history", when.has_value() && p.Fits(Micros(*when)),
            "earlier-contribution-lost", who + ": the history's last contribution is not the last one");
    }
    if (p.hi == 0) w.past.erase(name);
  }
  Judge("runs", nobody.told == 0, "stray-tell", "the application is told of a task that did not run");
  Judge("runs", w.stray_reports == 0, "stray-report", "a report for a session that was not assigned");
  Judge("runs", w.stray_sources.empty(), "stray-query", w.stray_sources.empty() ? "" : w.stray_sources[0]);
  auto expected = good.empty() ? FLRunnerResult::FAIL : good.size() == due ? FLRunnerResult::SUCCESS : FLRunnerResult::PARTIAL;
  Judge("runs", result->contribution_result() == expected, "outcome",
        Format("the run's outcome is %d, %d due (%zu of %zu tasks)", result->contribution_result(), expected, good.size(), due));
  Judge("runs", std::multiset<std::string>(result->contributed_task_names().begin(), result->contributed_task_names().end()) == good,
        "contributed-names", Format("%d tasks named as contributed to, %zu due", result->contributed_task_names_size(), good.size()));
  RetryWindow window = server.GetLatestRetryWindow();
  Judge("runs", result->retry_info().retry_token() == window.retry_token() &&
                    result->retry_info().minimum_delay().seconds() == window.delay_min().seconds(),
        "retry-info", "the run's result carries retry token " + result->retry_info().retry_token() + " for " + window.retry_token());
  rep->Count(Format("outcome-%d", expected));
  rep->Distinct(Format("%d %d %d %d %d %zu %zu %d", start, proceed, w.multi_calls, single, w.checkin, due, good.size(), expected));
  for (const std::string& token : w.tokens) {
    rep->Count("tokens");
    Judge("runs", !fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token)).has_value(),
          "data-reachable-after-run", "the data of a finished task can still be reached");
  }
  // Eligibility queries.
  for (auto& [criteria, c] : w.eligibility_contexts) {
    SelectorContext e;
    e.mutable_computation_properties()->set_session_name(w.session);
    e.mutable_computation_properties()->mutable_eligibility_eval()->set_population_name(w.population);
    if (w.flags.lightweight_id) {
      Source s;
      s.criteria = criteria;
      ExampleSelector x;
      SetSelector(&x, s);
      e.mutable_computation_properties()->mutable_eligibility_eval()->set_computation_id(Sha(x.criteria().SerializeAsString()));
    }
    rep->Count("eligibility-contexts");
    Judge("contexts", MessageDifferencer::Equals(c, e), "wrong-eligibility-context", "eligibility query sees " + c.ShortDebugString());
  }
  // The newest entry accounts for the traffic and the window.
  if (!w.history.opstats().empty()) {
    const Stats& last = *w.history.opstats().rbegin();
    Judge("history", last.session_name() == w.session && last.population_name() == w.population, "entry-names",
          "the newest entry is of " + last.session_name());
    Judge("history", last.retry_window().retry_token().empty() &&
                         last.retry_window().delay_min().seconds() == window.delay_min().seconds() &&
                         last.retry_window().delay_max().seconds() == window.delay_max().seconds(),
          "entry-window", "the newest entry has window " + last.retry_window().ShortDebugString());
    int64_t down = last.chunking_layer_bytes_downloaded(), up = last.chunking_layer_bytes_uploaded();
    int64_t phases_down = 0, phases_up = 0;
    for (auto& p : last.phase_stats()) phases_down += p.bytes_downloaded(), phases_up += p.bytes_uploaded();
    Judge("history", phases_down <= w.down + w.slices_down && phases_up <= w.up, "phase-traffic", "the phases of the newest entry have more traffic than the run");
    if (!w.flags.phase_stats) {
      Judge("history", down == w.down + w.slices_down && up == w.up, "entry-traffic",
            Format("the newest entry has %lld bytes received and %lld sent for %lld and %lld", (long long)down,
                   (long long)up, (long long)(w.down + w.slices_down), (long long)w.up));
    }
  }
}

void Cases() {
  int64_t n = rep->thorough ? 100000 : 10000;
  struct rlimit unlimited;
  getrlimit(RLIMIT_FSIZE, &unlimited);
  signal(SIGXFSZ, SIG_IGN);
  for (int64_t i = 0; i < n; ++i) {
    if (!rep->Mine(i)) continue;
    rep->Case(i);
    rep->Eval();
    Rng r(rep->seed, 7000 + i);
    World base;
    base.flags.phase_stats = r.Chance(0.6);
    base.flags.lightweight = r.Chance(0.5);
    base.flags.untie = base.flags.lightweight || r.Chance(0.5);
    base.flags.computation_id = r.Chance(0.5);
    base.flags.lightweight_id = r.Chance(0.5);
    base.flags.recording = r.Chance(0.7);
    base.flags.confidential_context = r.Chance(0.5);
    base.session = Format("session of app %d", (int)r.Below(3));
    base.population = Format("population/%d", (int)r.Below(3));
    int runs = 1 + r.Below(3);
    for (int run = 0; run < runs; ++run) {
      World w = base;
      w.dir = verif::FreshDir(*rep, "run");
      w.conditions = r.Chance(0.97);
      w.files_fail = r.Chance(0.04);
      bool full_disk = !w.files_fail && r.Chance(0.1);
      w.early_callback = r.Chance(0.5);
      double e = r.Unit();
      w.eligibility = e < 0.04 ? World::kError : e < 0.08 ? World::kRejected : e < 0.4 ? World::kDisabled : World::kTask;
      w.eligibility_error = Error(r);
      ClientOnlyPlan plan;
      plan.mutable_phase()->mutable_federated_compute_eligibility();
      w.eligibility_plan = r.Chance(0.96) ? plan.SerializeAsString() : "\xff\xff";
      w.eligibility_checkpoint = r.Bytes(r.Below(3000));
      std::set<std::string> eligible;
      int number = 0;
      if (r.Chance(0.85)) {
        w.spec.emplace();
        int tasks = 1 + r.Below(5);
        bool several = w.flags.phase_stats;
        for (int k = 0; k < tasks; ++k) {
          auto* info = w.spec->add_task_info();
          bool multiple = several && r.Chance(0.6);
          std::string name = Format("population/%s%d", multiple ? "several" : "one", k);
          info->set_task_name(name);
          info->set_task_assignment_mode(multiple ? TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE
                                         : r.Chance(0.5) ? TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE
                                                         : TaskInfo::TASK_ASSIGNMENT_MODE_UNSPECIFIED);
          bool ok = true;
          if (r.Chance(0.5)) {
            info->add_eligibility_policy_indices(w.spec->eligibility_policies_size());
            auto* policy = w.spec->add_eligibility_policies();
            policy->set_name("data");
            policy->set_min_version(1);
            Source s;
            s.uri = Format("app:/eligibility/%d", k);
            s.criteria = Format("eligible %d", k);
            SetSelector(policy->mutable_data_availability_policy()->mutable_selector(), s);
            int have = r.Below(6), need = 1 + r.Below(5);
            policy->mutable_data_availability_policy()->set_min_example_count(need);
            w.available[s.uri] = have;
            ok = have >= need;
          }
          if (ok) eligible.insert(name);
          if (multiple && r.Chance(0.85)) {
            Task t = NewTask(r, w, name, number++);
            if (r.Chance(0.06)) t.assignment = Error(r);
            w.tasks[name] = t;
          }
        }
      }
      w.multi = r.Chance(0.93) ? World::kMultiAnswer : World::kMultiError;
      w.multi_error = Error(r);
      double c = r.Unit();
      w.checkin = c < 0.85 ? World::kSingleAnswer : c < 0.93 ? World::kSingleRejected : World::kSingleError;
      w.checkin_error = Error(r);
      std::string single = Format("population/one%d", (int)r.Below(3));
      w.tasks[single] = NewTask(r, w, single, number++);
      w.single = &w.tasks[single];
      if (full_disk) {
        for (auto& [name, t] : w.tasks) {
          if (!IsQuery(t) && t.checkpoint.size() > 5000) t.usable = false;
          if (t.kind == Kind2::kQuery && !w.flags.lightweight && verif::PutAllDown("checkpoint", Written(t)).size() > 4800) full_disk = false;
        }
        if (!full_disk) {
          for (auto& [name, t] : w.tasks) {
            if (!IsQuery(t) && t.kind != Kind2::kGarbage) t.usable = true;
          }
        }
      }
      if (full_disk) {
        rep->Count("full-disks");
        struct rlimit l = unlimited;
        l.rlim_cur = 5000;
        setrlimit(RLIMIT_FSIZE, &l);
      }
      OneRun(w, eligible);
      setrlimit(RLIMIT_FSIZE, &unlimited);
      base.history = w.history;
      base.past = w.past;
      Age(base.history, base.past, 10 + r.Below(100000));
      std::error_code ec;
      fs::remove_all(w.dir, ec);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report report(argc, argv);
  rep = &report;
  if (report.mode == "runs" || report.mode == "contexts" || report.mode == "history" || report.mode == "queries") {
    Cases();
  } else {
    report.Broken("unknown mode");
  }
  return report.Finish();
}
