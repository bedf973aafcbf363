// Local computations: runs one after another on one device, each with its own
// plan, data and conditions; what is computed, told and remembered.
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/base/time_util.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/engine/tflite_wrapper.h"
#include "fcp/client/lc_runner.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_logger.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "fcp/protos/plan.pb.h"
#include "fcp/tensorflow/external_dataset.h"
#include "opstats_model.h"
#include "publisher.h"
#include "tensorflow/core/example/example.pb.h"

namespace {
namespace fs = std::filesystem;
using fcp::client::ExampleIterator;
using fcp::client::SelectorContext;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleSelector;

struct LocalFlags : public Flags {
  bool tflite = true;
  bool use_tflite_training() const override { return tflite; }
  int64_t condition_polling_period_millis() const override { return 0; }
};

enum class Plan { kGood, kMissing, kGarbage, kNoSpec, kNoRouter, kBoth, kOtherInputs, kNoEngine };

struct Source {
  std::string uri, criteria;
  bool history = false;
  std::vector<std::string> examples;
  absl::Status cannot_start, breaks;
};

struct Run {
  std::string session, model, input_dir, output_dir;
  Plan plan = Plan::kGood;
  bool conditions = true, several = false, interrupted = false;
  std::map<std::string, std::string> resources, names;  // Given, and of the plan.
  std::vector<Source> sources;
  absl::Status result;
  // What was seen.
  int models_run = 0;
  bool query_failed = false, query_cancelled = false;
  std::map<std::string, std::pair<int64_t, int64_t>> read;  // By collection: examples and bytes.
  std::string wrong;
};

Run* run = nullptr;
bool conditions = true;
std::multiset<std::string> remembered;  // Sessions of the runs before.
bool history_lost = false;
std::string base_dir;

class Iterator : public ExampleIterator {
 public:
  explicit Iterator(const Source& s) : s_(s) {}
  absl::StatusOr<std::string> Next() override {
    if (at_ < s_.examples.size()) return s_.examples[at_++];
    if (!s_.breaks.ok()) return s_.breaks;
    return absl::OutOfRangeError("no more");
  }
  void Close() override {}

 private:
  Source s_;
  size_t at_ = 0;
};

SelectorContext Context(const Run& r) {
  SelectorContext c;
  auto* p = c.mutable_computation_properties();
  p->set_session_name(r.session);
  p->mutable_local_compute()->set_input_dir(r.input_dir);
  p->mutable_local_compute()->set_output_dir(r.output_dir);
  for (auto& [k, v] : r.resources) (*p->mutable_local_compute()->mutable_input_resource_map())[k] = v;
  return c;
}

class Environment : public fcp::client::SimpleTaskEnvironment {
 public:
  std::string GetBaseDir() override { return base_dir; }
  std::string GetCacheDir() override { return base_dir; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override {
    run->wrong = "a query without its context";
    return absl::InvalidArgumentError("no context");
  }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s,
                                                                         const SelectorContext& context) override {
    if (context.DebugString() != Context(*run).DebugString()) {
      run->wrong = "context " + context.ShortDebugString() + " for " + Context(*run).ShortDebugString();
    }
    for (auto& x : run->sources) {
      if (x.history || x.uri != s.collection_uri()) continue;
      if (x.criteria != s.criteria().value()) run->wrong = "other criteria than the plan's";
      if (!x.cannot_start.ok()) return x.cannot_start;
      return std::make_unique<Iterator>(x);
    }
    run->wrong = "a query of " + s.collection_uri();
    return absl::InvalidArgumentError("unknown collection");
  }

 private:
  bool TrainingConditionsSatisfied() override { return conditions; }
};

}  // namespace

// The model runtime.
namespace fcp::client::engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
    const std::string& model, std::function<bool()> should_abort, const InterruptibleRunner::TimingConfig&, LogManager*,
    std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs, std::vector<std::string> output_names,
    const TfLiteInterpreterOptions&, int32_t) {
  ++run->models_run;
  if (model != run->model) run->wrong = "another model";
  if (!output_names.empty()) run->wrong = "outputs are asked for";
  std::map<std::string, std::string> want = {{"out", run->output_dir}};
  if (run->several) {
    for (auto& [k, v] : run->resources) {
      if (run->names.count(k)) want[run->names[k]] = v;
    }
  } else {
    want["in"] = run->input_dir;
  }
  std::string token;
  std::map<std::string, std::string> got;
  for (auto& [k, v] : *inputs) {
    if (k == "token") token = v;
    else got[k] = v;
  }
  if (got != want) run->wrong = Format("%zu inputs, want %zu, or other values", got.size(), want.size());
  auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token));
  if (!provider.has_value()) {
    run->wrong = "the token of the data leads nowhere";
    return absl::InvalidArgumentError("no data");
  }
  if (should_abort()) run->wrong = "to be stopped while the conditions hold";
  bool failed = false;
  for (auto& s : run->sources) {
    ExampleSelector selector;
    selector.set_collection_uri(s.uri);
    if (!s.history) {
      selector.mutable_criteria()->set_type_url("t/criteria");
      selector.mutable_criteria()->set_value(s.criteria);
    }
    auto dataset = (*provider)->MakeDataset(selector.SerializeAsString());
    if (!dataset.ok()) {
      run->wrong = "no dataset";
      return dataset.status();
    }
    auto iterator = (*dataset)->MakeIterator();
    std::vector<std::string> examples;
    absl::Status end;
    while (true) {
      auto x = iterator->GetNext();
      if (!x.ok()) {
        end = x.status();
        break;
      }
      examples.push_back(*x);
    }
    if (s.history || s.cannot_start.ok()) {
      auto& [n, bytes] = run->read[s.uri];
      n += examples.size();
      for (auto& e : examples) bytes += e.size();
    }
    if (s.history) {
      if (history_lost) continue;
      std::multiset<std::string> sessions, due = remembered;
      if (due.empty()) due = {""};
      for (auto& e : examples) {
        tensorflow::Example x;
        if (!x.ParseFromString(e)) run->wrong = "an unreadable example of the history";
        sessions.insert((*x.mutable_features()->mutable_feature())["session_name"].bytes_list().value(0));
      }
      if (sessions != due || end.code() != absl::StatusCode::kOutOfRange) {
        run->wrong = Format("%zu past runs, want %zu: %s", sessions.size(), due.size(), end.ToString().c_str());
      }
      continue;
    }
    absl::Status due = !s.cannot_start.ok() ? s.cannot_start : !s.breaks.ok() ? s.breaks : absl::OutOfRangeError("");
    if (end.code() != due.code() || (s.cannot_start.ok() ? examples != s.examples : !examples.empty())) {
      run->wrong = Format("%zu examples of %zu, then %s", examples.size(), s.examples.size(), end.ToString().c_str());
    }
    if (end.code() != absl::StatusCode::kOutOfRange) {
      failed = true;
      run->query_failed = true;
      run->query_cancelled = end.code() == absl::StatusCode::kCancelled;
      break;
    }
  }
  if (failed) return absl::InvalidArgumentError("the model failed");
  if (run->interrupted) {
    conditions = false;
    if (!should_abort()) run->wrong = "not to be stopped although the conditions no longer hold";
    return absl::CancelledError("interrupted");
  }
  if (!run->result.ok()) return run->result;
  return OutputTensors();
}
}  // namespace fcp::client::engine

namespace {

std::string AnyName(Rng& rng, const char* prefix) {
  return Format("%s%llx", prefix, (unsigned long long)rng.Below(1 << 20));
}

void Computations(Report& r) {
  std::string dir = verif::FreshDir(r, "local");
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(4000, 40000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x10CA + i);
    r.Case(i);
    fs::remove_all(dir + "/d");
    fs::create_directories(dir + "/d/base");
    fs::create_directories(dir + "/d/plans");
    remembered.clear();
    base_dir = dir + "/d/base";
    history_lost = rng.Chance(0.05);
    if (history_lost) {
      // There is no such directory, and none can be made.
      std::ofstream(dir + "/d/file") << "x";
      base_dir = dir + "/d/file";
    }
    Environment environment;
    std::map<std::string, Run> past;
    for (int n = rng.Range(1, 5), k = 0; k < n; ++k) {
      Run x;
      run = &x;
      x.session = Format("session %d %s", k, AnyName(rng, "").c_str());
      x.output_dir = rng.Chance(0.05) ? "" : AnyName(rng, "/out/");
      x.several = rng.Chance(0.5);
      double d = rng.Unit();
      x.plan = d < 0.65 ? Plan::kGood : static_cast<Plan>(rng.Range(0, 7));
      x.model = AnyName(rng, "model");
      x.conditions = rng.Chance(0.9);
      x.interrupted = rng.Chance(0.1);
      if (rng.Chance(0.1)) x.result = absl::InvalidArgumentError("the model says no");
      ClientOnlyPlan plan;
      auto* spec = plan.mutable_phase()->mutable_tensorflow_spec();
      spec->set_dataset_token_tensor_name("token");
      auto* router = plan.mutable_phase()->mutable_local_compute();
      router->set_output_dir_tensor_name("out");
      std::vector<std::string> expected = {"out"};
      if (x.several) {
        int m = rng.Below(4);
        auto* map = router->mutable_multiple_input_resources()->mutable_input_resource_tensor_name_map();
        for (int j = 0; j < m; ++j) {
          x.names[Format("resource%d", j)] = Format("in%d", j);
          (*map)[Format("resource%d", j)] = Format("in%d", j);
          x.resources[Format("resource%d", j)] = AnyName(rng, "/r/");
          expected.push_back(Format("in%d", j));
        }
        // More than the plan asks for.
        for (int j = rng.Chance(0.3) ? rng.Range(1, 3) : 0; j > 0; --j) x.resources[Format("extra%d", j)] = AnyName(rng, "/r/");
        if (x.plan == Plan::kBoth) x.input_dir = "/in/" + x.model;
      } else {
        router->set_input_dir_tensor_name("in");
        x.input_dir = rng.Chance(0.1) ? "" : AnyName(rng, "/in/");
        expected.push_back("in");
        if (rng.Chance(0.1)) x.resources["unused"] = "/r/unused";
      }
      if (x.plan == Plan::kBoth && !x.several) x.plan = Plan::kGood;
      if (x.plan == Plan::kOtherInputs) {
        if (rng.Chance(0.5)) expected.push_back("more");
        else expected.back() = "other";
      }
      rng.Shuffle(expected);
      for (auto& e : expected) spec->add_input_tensor_specs()->set_name(e);
      plan.set_tflite_graph(x.model);
      for (int m = rng.Below(4); m > 0; --m) {
        Source s;
        s.history = rng.Chance(0.25);
        s.uri = s.history ? fcp::client::opstats::kOpStatsCollectionUri : Format("app:/%d", m);
        s.criteria = rng.Bytes(rng.Below(10));
        for (int e = rng.Below(6); e > 0; --e) s.examples.push_back(rng.Bytes(rng.Below(50)));
        absl::Status error = rng.Chance(0.5) ? absl::CancelledError("scripted") : absl::InvalidArgumentError("scripted");
        if (rng.Chance(0.06)) s.cannot_start = error;
        else if (rng.Chance(0.06)) s.breaks = error;
        x.sources.push_back(s);
      }
      LocalFlags flags;
      std::string path = dir + Format("/d/plans/%d", k), bytes;
      switch (x.plan) {
        case Plan::kNoSpec: plan.mutable_phase()->clear_tensorflow_spec(); break;
        case Plan::kNoRouter:
          plan.mutable_phase()->clear_local_compute();
          if (rng.Chance(0.5)) plan.mutable_phase()->mutable_federated_compute();
          break;
        case Plan::kNoEngine:
          if (rng.Chance(0.5)) flags.tflite = false;
          else plan.clear_tflite_graph();
          break;
        default: break;
      }
      bytes = x.plan == Plan::kGarbage ? "\xff\xff\xff\xff" : plan.SerializeAsString();
      if (x.plan != Plan::kMissing) std::ofstream(path, std::ios::binary) << bytes;
      Logs logs;
      verif::Publisher publisher;
      flags.phase_stats = rng.Chance(0.7);
      conditions = x.conditions;
      absl::flat_hash_map<std::string, std::string> resources(x.resources.begin(), x.resources.end());
      absl::Status got = fcp::client::RunLocalComputation(&environment, &publisher, &logs, &flags, x.session, path,
                                                          x.input_dir, x.output_dir, resources);
      // What should have come of it.
      using S = absl::StatusCode;
      std::string end;
      OperationalStats::Event::EventKind kind{};
      std::set<S> codes;
      bool started = x.conditions, model = false;
      if (!x.conditions) {
        codes = {S::kCancelled};
        end = "TaskNotStarted";
        kind = OperationalStats::Event::EVENT_KIND_TRAIN_NOT_STARTED;
      } else if (x.plan == Plan::kMissing) {
        codes = {S::kInternal, S::kNotFound};
        end = "ComputationIOError";
        kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_ERROR_IO;
      } else if (x.plan == Plan::kNoEngine) {
        codes = {S::kInternal, S::kInvalidArgument};
      } else if (x.plan != Plan::kGood) {
        codes = {S::kInvalidArgument};
        // Found out by the engine, which has its own code.
        if (x.plan == Plan::kOtherInputs) codes.insert(S::kInternal);
        end = "ComputationInvalidArgument";
        kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT;
      } else {
        model = true;
        if (x.query_failed ? x.query_cancelled : x.interrupted) {
          codes = {S::kCancelled};
          end = "ComputationInterrupted";
          kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED;
        } else if (x.query_failed) {
          codes = {S::kInternal};
          end = "ComputationExampleIteratorError";
          kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR;
        } else if (!x.result.ok()) {
          codes = {S::kInternal};
          end = "ComputationTensorflowError";
          kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW;
        } else {
          codes = {S::kOk};
          end = "ComputationCompleted";
          kind = OperationalStats::Event::EVENT_KIND_COMPUTATION_FINISHED;
        }
      }
      std::string what = Format("run %d, plan of kind %d: %s, %s", k, (int)x.plan, got.ToString().c_str(), end.c_str());
      r.Eval();
      r.Count(end.empty() ? "runs without an engine" : "runs: " + end);
      if (!codes.count(got.code())) r.Violation("wrong-result", what);
      if (x.models_run != (model ? 1 : 0)) r.Violation("model-wrongly-run", what);
      if (!x.wrong.empty()) r.Violation("wrong-computation", x.wrong + "; " + what);
      std::vector<std::string> told, due;
      for (auto& p : publisher.all) told.push_back(p.name);
      if (started) due.push_back("ComputationStarted");
      if (!end.empty()) due.push_back(end);
      if (end.empty()) told.resize(std::min<size_t>(told.size(), 1));
      if (told != due) r.Violation("wrongly-told", Format("%zu events; ", told.size()) + what);
      int64_t examples = 0, size = 0;
      for (auto& [u, p] : x.read) examples += p.first, size += p.second;
      if (end == "ComputationCompleted" && told == due) {
        auto& p = publisher.all.back();
        if (p.examples.example_count != examples || p.examples.example_size_bytes != size) {
          r.Violation("wrong-example-count", Format("%d examples, want %lld; ", p.examples.example_count, (long long)examples) + what);
        }
        r.Count("examples read", examples);
      }
      if (history_lost) {
        r.Count("runs without a history");
        continue;
      }
      remembered.insert(x.session);
      // What is remembered.
      auto db = fcp::client::opstats::PdsBackedOpStatsDb::Create(base_dir, absl::Hours(24), logs, 1 << 20);
      if (!db.ok()) {
        r.Violation("history-unreadable", db.status().ToString());
        break;
      }
      auto data = (*db)->Read();
      if (!data.ok()) {
        r.Violation("history-unreadable", data.status().ToString());
        break;
      }
      r.Eval();
      std::multiset<std::string> sessions;
      const OperationalStats* mine = nullptr;
      for (auto& o : data->opstats()) {
        sessions.insert(o.session_name());
        if (o.session_name() == x.session) mine = &o;
      }
      if (sessions != remembered || mine == nullptr) {
        r.Violation("wrong-history", Format("%zu runs, want %zu; ", sessions.size(), remembered.size()) + what);
        break;
      }
      if (!mine->population_name().empty() || !mine->task_name().empty()) r.Violation("history-names-a-task", what);
      std::vector<int> events, want_events;
      for (auto& e : mine->events()) events.push_back(e.event_type());
      std::map<std::string, std::pair<int64_t, int64_t>> read;
      auto take = [&](auto& m) {
        for (auto& [uri, s] : m.dataset_stats()) read[uri].first += s.num_examples_read(), read[uri].second += s.num_bytes_read();
      };
      take(*mine);
      for (auto& p : mine->phase_stats()) {
        for (auto& e : p.events()) events.push_back(e.event_type());
        take(p);
      }
      if (started) want_events.push_back(OperationalStats::Event::EVENT_KIND_COMPUTATION_STARTED);
      if (!end.empty()) want_events.push_back(kind);
      if (events != want_events) r.Violation("wrong-events-remembered", Format("%zu events, want %zu; ", events.size(), want_events.size()) + what);
      // Collections from which nothing was read need not be listed.
      for (auto* m : {&read, &x.read}) {
        for (auto it = m->begin(); it != m->end();) it = it->second.first == 0 ? m->erase(it) : std::next(it);
      }
      if (read != x.read) r.Violation("wrong-data-use-remembered", Format("%zu collections, want %zu; ", read.size(), x.read.size()) + what);
      r.Distinct(Format("%d %zu %zu %s", (int)x.plan, x.sources.size(), x.resources.size(), end.c_str()));
      if (r.WantsSample()) r.Sample(what);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "computations") Computations(r);
  else Report::Broken("mode?");
  return r.Finish();
}
