// Parts of the client runtime: which tasks a client may run, how the phases of
// a run are reported, and how work is interrupted.
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <filesystem>
#include <set>
#include <thread>

#include "common.h"
#include "fcp/base/clock.h"
#include "fcp/base/digest.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/interruptible_runner.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/phase_logger_impl.h"
#include "opstats_model.h"
#include "perturb.h"
#include "publisher.h"
#include "re2/re2.h"
#include "tensorflow/core/example/example.pb.h"

namespace {
using fcp::client::ExampleStats;
using fcp::client::HistogramCounters;
using fcp::client::PhaseLoggerImpl;
using verif::Published;
using verif::Publisher;

struct TestClock : public fcp::Clock {
  absl::Time now = absl::FromUnixSeconds(1700000000);
  absl::Time Now() override { return now; }
  absl::Time NowLocked() override { return now; }
  void Sleep(absl::Duration d) override { now += d; }

 private:
  void ScheduleWakeup(absl::Time) override {}
};

// ---- eligibility ---------------------------------------------------------------------

using google::internal::federated::plan::EligibilityPolicyEvalSpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
namespace engine = fcp::client::engine;

struct Examples : public fcp::client::ExampleIterator {
  std::vector<std::string> data;
  size_t at = 0;
  int fail_at = -1;
  absl::Status failure;
  absl::StatusOr<std::string> Next() override {
    if (static_cast<int>(at) == fail_at) return failure;
    if (at == data.size()) return absl::OutOfRangeError("end");
    return data[at++];
  }
  void Close() override {}
};

// Stands in for the computation of a custom policy.
struct PlanRunner : public fcp::client::EetPlanRunner {
  std::map<std::string, int> how;  // by policy: 0 fine, 1 fails, 2 output is bad
  std::map<std::string, std::set<std::string>> likes;
  std::vector<std::string> others;  // tasks it mentions all the same
  TaskEligibilityInfo output;
  bool bad_output = false;
  std::string complaint;
  size_t factories = 0;
  std::vector<engine::ExampleIteratorFactory*> given;

  engine::PlanResult RunPlan(std::vector<engine::ExampleIteratorFactory*> f) override {
    ExampleSelector sel;
    sel.set_collection_uri("internal:/eligibility_context");
    std::string policy;
    std::vector<std::string> tasks;
    for (auto* one : f) {
      if (!one->CanHandle(sel)) continue;
      auto it = one->CreateExampleIterator(sel);
      if (!it.ok()) {
        complaint = "no context";
        break;
      }
      auto ex = (*it)->Next();
      tensorflow::Example e;
      if (!ex.ok() || !e.ParseFromString(*ex) || (*it)->Next().status().code() != absl::StatusCode::kOutOfRange) {
        complaint = "bad context";
        break;
      }
      auto& m = e.features().feature();
      if (m.count("policy_name") && m.at("policy_name").bytes_list().value_size() == 1) policy = m.at("policy_name").bytes_list().value(0);
      if (m.count("task_names")) {
        for (auto& t : m.at("task_names").bytes_list().value()) tasks.push_back(t);
      }
      (*it)->Close();
      break;
    }
    // The stores of the application are still there.
    size_t k = 0;
    for (auto* one : f) {
      if (k < given.size() && one == given[k]) ++k;
    }
    if (k != given.size()) complaint = "example stores are missing";
    if (tasks.empty()) complaint = "no tasks in the context";
    bad_output = how[policy] == 2;
    if (how[policy] == 1) return engine::PlanResult(engine::PlanOutcome::kTensorflowError, absl::InternalError("failed"));
    output.Clear();
    for (auto& t : tasks) {
      bool yes = likes[policy].count(t);
      if (!yes && t.size() % 2) continue;  // left out
      auto* w = output.add_task_weights();
      w->set_task_name(t);
      // However small a weight, the task is let through.
      static constexpr float kWeights[] = {0.5, 1, 7, 1e-3f, 1e-30f};
      w->set_weight(yes ? kWeights[verif::Hash(t) % 5] : t.size() % 4 ? 0 : -1);
    }
    for (auto& t : others) {
      if (std::find(tasks.begin(), tasks.end(), t) != tasks.end()) continue;
      auto* w = output.add_task_weights();
      w->set_task_name(t);
      w->set_weight(1);
    }
    return engine::PlanResult(engine::PlanOutcome::kSuccess, absl::OkStatus());
  }
  absl::StatusOr<TaskEligibilityInfo> ParseOutput(const std::vector<tensorflow::Tensor>&) override {
    if (bad_output) return absl::InvalidArgumentError("bad output");
    return output;
  }
};

void Eligibility(Report& r) {
  const std::vector<std::string> tasks = {"pop/a", "pop/b", "pop/ab", "other", "absent"};
  for (int64_t i = 0; i < r.N(100000, 2000000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xE11 + i);
    // The history.
    Gen g{rng};
    OpStatsSequence seq;
    std::vector<Stats> views;
    for (int n = rng.Below(5), k = 0; k < n; ++k) AddRun(g, k, &seq, &views);
    int64_t trust = g.ms - rng.Below(200000);
    *seq.mutable_earliest_trustworthy_time() = TimeUtil::MillisecondsToTimestamp(trust);
    auto last = [&](const std::function<bool(const std::string&)>& match) {
      const Stats* want = nullptr;
      for (auto& v : views) {
        if (match(v.task_name()) && Contributed(v)) want = &v;
      }
      return want;
    };
    auto when = [&](const Stats* v) {
      for (auto& e : v->events()) {
        if (e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED) return TimeUtil::TimestampToMilliseconds(e.timestamp());
      }
      return int64_t{0};
    };
    int64_t now = g.ms + rng.Below(100000);
    TestClock clock;
    clock.now = absl::FromUnixMillis(now);
    Flags flags;
    flags.query_result = rng.Chance(0.5);
    flags.min_sep_trust = rng.Chance(0.5);
    flags.lightweight_id = rng.Chance(0.5);
    // The example stores.
    std::vector<int> store_size;
    std::vector<int> store_fail;
    std::vector<std::unique_ptr<engine::ExampleIteratorFactory>> owned;
    std::vector<engine::ExampleIteratorFactory*> factories;
    std::vector<std::string> wrong_context;
    std::map<std::string, bool> want_result_format;  // by uri and criteria
    int stores = rng.Range(1, 3);
    for (int k = 0; k < stores; ++k) {
      int size = rng.Below(8), fail = rng.Chance(0.2) ? (int)rng.Below(8) : -1;
      store_size.push_back(size);
      store_fail.push_back(fail);
      fcp::client::SelectorContext base;
      base.mutable_computation_properties()->set_session_name(Format("session%d", k));
      owned.push_back(std::make_unique<engine::FunctionalExampleIteratorFactory>(
          [k](const ExampleSelector& s) { return s.collection_uri() == Format("app:/%d", k); },
          [&, k, size, fail](const ExampleSelector& s, const fcp::client::SelectorContext& c)
              -> absl::StatusOr<std::unique_ptr<fcp::client::ExampleIterator>> {
            bool result = c.computation_properties().example_iterator_output_format() ==
                          fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT;
            if (c.computation_properties().session_name() != Format("session%d", k)) wrong_context.push_back("session");
            if (result != want_result_format[s.criteria().value()]) wrong_context.push_back("format");
            std::string id = c.computation_properties().eligibility_eval().computation_id();
            std::string want = flags.lightweight_id ? fcp::ComputeSHA256(s.criteria().SerializeAsString()) : "";
            if (id != want) wrong_context.push_back("computation id");
            auto it = std::make_unique<Examples>();
            if (fail == 7) return absl::PermissionDeniedError("no");
            if (result) {
              fcp::client::ExampleQueryResult q;
              q.mutable_stats()->set_example_count_for_logs(size);
              it->data = {fail == 6 ? "\xff\xff" : q.SerializeAsString()};
              if (fail == 5) it->data.clear();
              if (fail == 4) it->fail_at = 0, it->failure = absl::CancelledError("interrupted");
            } else {
              for (int n = 0; n < size; ++n) it->data.push_back("example");
              it->fail_at = fail;
              it->failure = absl::InvalidArgumentError("broken");
            }
            return it;
          },
          base, true));
      factories.push_back(owned.back().get());
    }
    PlanRunner plans;
    plans.given = factories;
    plans.others = {"pop/a", "nobody"};
    // The specification.
    PopulationEligibilitySpec spec;
    std::vector<std::string> mine = tasks;
    rng.Shuffle(mine);
    mine.resize(rng.Below(mine.size() + 1));
    for (auto& t : mine) spec.add_task_info()->set_task_name(t);
    int n = rng.Below(6);
    // Which tasks each policy lets through, whether it fails.
    std::vector<std::set<std::string>> passes(n);
    std::vector<bool> fails(n);
    std::string text;
    std::set<std::string> decided;
    for (int k = 0; k < n; ++k) {
      EligibilityPolicyEvalSpec* p = spec.add_eligibility_policies();
      p->set_name(rng.Chance(0.3) ? "same" : Format("policy%d", k));
      int version = 1, type = rng.Below(10);
      std::set<std::string> ok;
      if (type < 3) {
        auto* q = p->mutable_swor_policy();
        int64_t ms = rng.Below(200000);
        bool group = rng.Chance(0.4);
        std::string re = rng.Pick(std::vector<std::string>{"pop/.*", "pop/a", "other", "(", "x", ".*"});
        // Sometimes exactly as long as something took.
        const Stats* v = last([&](const std::string& t) { return !mine.empty() && t == mine[0]; });
        if (v && rng.Chance(0.5)) ms = now - when(v) + rng.Range(-1, 1);
        if (rng.Chance(0.2)) ms = now - trust + rng.Range(-1, 1);
        ms = std::max<int64_t>(0, ms);
        *q->mutable_min_period() = TimeUtil::MillisecondsToDuration(ms);
        if (group) q->set_group_regex(re);
        if (now - trust >= ms) {
          for (auto& t : tasks) {
            if (group) {
              RE2::Options o;
              o.set_log_errors(false);
              RE2 compiled(re, o);
              if (!compiled.ok()) continue;
              v = last([&](const std::string& u) { return RE2::FullMatch(u, compiled); });
            } else {
              v = last([&](const std::string& u) { return u == t; });
            }
            if (!v || ms < now - when(v)) ok.insert(t);
          }
        }
        text += group ? " group" : " swor";
      } else if (type < 6) {
        auto* q = p->mutable_data_availability_policy();
        int store = rng.Below(stores + (rng.Chance(0.1) ? 1 : 0)), least = rng.Range(-1, 8);
        bool format = rng.Chance(0.5);
        q->mutable_selector()->set_collection_uri(Format("app:/%d", store));
        q->mutable_selector()->mutable_criteria()->set_value(Format("%d", k));
        q->mutable_selector()->mutable_criteria()->set_type_url("type");
        q->set_min_example_count(least);
        q->set_use_example_query_result_format(format);
        bool result = format && flags.query_result;
        want_result_format[Format("%d", k)] = result;
        bool yes = false;
        if (store >= stores || store_fail[store] == 7) {
          fails[k] = true;
        } else if (result) {
          fails[k] = store_fail[store] >= 4 && store_fail[store] <= 6;
          yes = !fails[k] && store_size[store] >= least;
        } else {
          int f = store_fail[store];
          // The failure comes instead of an example or of the end.
          if (f >= 0 && f < least && f <= store_size[store]) {
            fails[k] = true;
          } else {
            yes = store_size[store] >= least;
          }
        }
        if (yes) ok.insert(tasks.begin(), tasks.end());
        version = flags.query_result ? 2 : 1;
        text += " data";
      } else if (type < 8) {
        p->mutable_tf_custom_policy();
        auto& how = plans.how[p->name()];
        auto& likes = plans.likes[p->name()];
        if (decided.insert(p->name()).second) {
          how = rng.Chance(0.8) ? 0 : rng.Range(1, 2);
          for (auto& t : tasks) {
            if (rng.Chance(0.6)) likes.insert(t);
          }
        }
        fails[k] = how != 0;
        if (!fails[k]) ok = likes;
        text += " custom";
      } else if (type < 9) {
        auto* q = p->mutable_min_sep_policy();
        q->set_current_index(rng.Below(60));
        q->set_minimum_separation(rng.Below(20));
        int64_t ms = rng.Chance(0.5) ? 0 : rng.Chance(0.5) ? now - trust + rng.Range(-1, 1) : rng.Below(200000);
        ms = std::max<int64_t>(0, ms);
        if (ms || rng.Chance(0.5)) *q->mutable_min_trustworthiness_period() = TimeUtil::MillisecondsToDuration(ms);
        if (!(flags.min_sep_trust && ms != 0 && now - trust < ms)) {
          for (auto& t : tasks) {
            const Stats* v = last([&](const std::string& u) { return u == t; });
            if (!v || !v->has_min_sep_policy_index() ||
                q->current_index() - v->min_sep_policy_index() > q->minimum_separation()) {
              ok.insert(t);
            }
          }
        }
        version = flags.min_sep_trust ? 2 : 1;
        text += " separation";
      } else {
        version = -1;  // unknown to this client
        text += " unknown";
      }
      p->set_min_version(rng.Chance(0.8) ? std::min(1, std::max(0, version)) : rng.Range(0, 3));
      bool implemented = version >= 0 && p->min_version() <= version;
      if (!implemented) {
        ok.clear();
        fails[k] = false;
        r.Count("policies not implemented");
      }
      passes[k] = ok;
    }
    std::set<std::string> want;
    for (int t = 0; t < spec.task_info_size(); ++t) {
      auto* info = spec.mutable_task_info(t);
      bool ok = true;
      for (int k = 0; k < n; ++k) {
        if (!rng.Chance(0.5)) continue;
        info->add_eligibility_policy_indices(k);
        if (rng.Chance(0.05)) info->add_eligibility_policy_indices(k);
        ok &= passes[k].count(info->task_name()) > 0;
      }
      for (int a = 0; a + 1 < info->eligibility_policy_indices_size() && rng.Chance(0.3); ++a) {
        info->mutable_eligibility_policy_indices()->SwapElements(a, a + 1);
      }
      if (ok) want.insert(info->task_name());
    }
    r.Case(i, text);
    Logs logs;
    Publisher publisher;
    OpStatsLogger none;
    PhaseLoggerImpl phases(&publisher, &none, &logs, &flags);
    auto got = fcp::client::ComputeEligibility(spec, logs, phases, seq, clock, factories, plans, &flags);
    r.Eval();
    auto fail = [&](const std::string& key, const std::string& d) {
      r.Violation(key, d + ";" + text + "; spec: " + spec.ShortDebugString().substr(0, 1500) + "; history: " + seq.ShortDebugString().substr(0, 1500));
    };
    if (!got.ok()) {
      fail("eligibility-not-computed", got.status().ToString());
      continue;
    }
    if (got->version() != 1 || got->task_weights_size() != spec.task_info_size()) {
      fail("wrong-shape", got->ShortDebugString());
      continue;
    }
    for (int t = 0; t < spec.task_info_size(); ++t) {
      const std::string& name = spec.task_info(t).task_name();
      r.Eval();
      if (got->task_weights(t).task_name() != name) {
        fail("wrong-shape", got->ShortDebugString());
        break;
      }
      float w = got->task_weights(t).weight();
      bool yes = want.count(name);
      r.Count(yes ? "tasks eligible" : "tasks not eligible");
      if (w != (yes ? 1.0f : 0.0f)) fail(yes ? "task-kept-out" : "task-let-through", Format("%s has weight %g", name.c_str(), w));
    }
    if (!plans.complaint.empty()) fail("wrong-policy-context", plans.complaint);
    for (auto& c : wrong_context) fail("wrong-selector-context", c);
    // Errors are reported if they cost a task its eligibility.
    bool any = false, must = false;
    for (int k = 0; k < n; ++k) {
      if (!fails[k]) continue;
      any = true;
      for (auto& info : spec.task_info()) {
        bool uses = false, otherwise = true;
        for (int x : info.eligibility_policy_indices()) {
          if (x == k) uses = true;
          else if (!passes[x].count(info.task_name())) otherwise = false;
        }
        must |= uses && otherwise;
      }
    }
    int reported = 0;
    for (auto& p : publisher.all) reported += p.name == "EligibilityEvalComputationErrorNonfatal";
    r.Eval();
    if ((must && !reported) || (!any && reported)) fail("policy-error-not-reported", Format("%d reports", reported));
    if (must) r.Count("policy errors reported");
    r.Distinct(text + Format(" %d %zu", spec.task_info_size(), want.size()));
    if (r.WantsSample()) r.Sample(Format("%d tasks, %zu eligible, policies:%s", spec.task_info_size(), want.size(), text.c_str()));
  }
}

// ---- phases ------------------------------------------------------------------------------

// What a report is made of.
struct Report1 {
  absl::Status error;
  std::string message, task;
  NetworkStats net;
  ExampleStats ex;
  absl::Time a, b, ref;  // start of the phase, of the download, of the run
  std::optional<int64_t> index;
};

using E = OperationalStats::Event;
using H = HistogramCounters;

struct Call {
  const char* published;
  Kind kind;
  std::function<absl::Status(PhaseLoggerImpl&, const Report1&)> call;
  Phase::Phase starts = Phase::UNSPECIFIED;
  bool ends = false;
  const char* prefix = nullptr;  // of an error; "" for a message that is passed on
  bool hides = false;            // the message, unless it is allowed
  bool net = false, ex = false;
  int since = 0;  // duration: 0 none, 1 since the start, 2 since the download
  std::vector<H> latency, end;
  bool names = false, counts = false, commits = false;
};

std::vector<Call> Calls() {
  std::vector<Call> c;
  const std::string checkin = "Error during eligibility check-in: ", eval = "Error during eligibility eval computation: ";
  const char* kEC = "Error during eligibility check-in: ";
  const char* kEE = "Error during eligibility eval computation: ";
  const char* kM = "Error during multiple task assignments: ";
  const char* kC = "Error during check-in: ";
  const char* kX = "Error during computation: ";
  const char* kR = "Error reporting results: ";
  const char* kF = "Error reporting computation failure: ";
  const char* kI = "Error during initialization: ";
  auto add = [&](Call x) { c.push_back(std::move(x)); };
  using L = PhaseLoggerImpl;
  using R = Report1;
#define DO(x) [](L& l, const R& q) { (void)q; l.x; return absl::OkStatus(); }
  add({"TaskNotStarted", E::EVENT_KIND_TRAIN_NOT_STARTED, DO(LogTaskNotStarted(q.message)), Phase::UNSPECIFIED, false, ""});
  add({"NonfatalInitializationError", E::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL, DO(LogNonfatalInitializationError(q.error)), Phase::UNSPECIFIED, false, kI});
  add({"FatalInitializationError", E::EVENT_KIND_INITIALIZATION_ERROR_FATAL, DO(LogFatalInitializationError(q.error)), Phase::UNSPECIFIED, false, kI});
  // Eligibility eval check-in.
  std::vector<H> el = {H::TRAINING_FL_ELIGIBILITY_EVAL_CHECKIN_LATENCY};
  add({"EligibilityEvalCheckin", E::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, DO(LogEligibilityEvalCheckinStarted()), Phase::ELIGIBILITY_EVAL_CHECKIN});
  add({"EligibilityEvalCheckinIoError", E::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO, DO(LogEligibilityEvalCheckinIOError(q.error, q.net, q.a)), Phase::UNSPECIFIED, true, kEC, false, true, false, 1, el});
  add({"EligibilityEvalCheckinErrorInvalidPayload", E::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_INVALID_PAYLOAD, DO(LogEligibilityEvalCheckinInvalidPayloadError(q.message, q.net, q.a)), Phase::UNSPECIFIED, true, "", false, true, false, 1, el});
  add({"EligibilityEvalCheckinClientInterrupted", E::EVENT_KIND_ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED, DO(LogEligibilityEvalCheckinClientInterrupted(q.error, q.net, q.a)), Phase::UNSPECIFIED, true, kEC, false, true, false, 1, el});
  add({"EligibilityEvalCheckinServerAborted", E::EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED, DO(LogEligibilityEvalCheckinServerAborted(q.error, q.net, q.a)), Phase::UNSPECIFIED, true, kEC, false, true, false, 1, el});
  add({"EligibilityEvalNotConfigured", E::EVENT_KIND_ELIGIBILITY_DISABLED, DO(LogEligibilityEvalNotConfigured(q.net, q.a)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, el});
  add({"EligibilityEvalRejected", E::EVENT_KIND_ELIGIBILITY_REJECTED, DO(LogEligibilityEvalCheckinTurnedAway(q.net, q.a)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, el});
  add({"EligibilityEvalPlanUriReceived", E::EVENT_KIND_ELIGIBILITY_PLAN_URI_RECEIVED, DO(LogEligibilityEvalCheckinPlanUriReceived(q.net, q.a)), Phase::UNSPECIFIED, false, nullptr, false, true, false, 1});
  add({"EligibilityEvalPlanReceived", E::EVENT_KIND_ELIGIBILITY_ENABLED, DO(LogEligibilityEvalCheckinCompleted(q.net, q.a, q.b)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 2, el});
  // Eligibility eval computation.
  std::vector<H> xl = {H::TRAINING_RUN_PHASE_LATENCY}, xe = {H::TRAINING_RUN_PHASE_END_TIME};
  add({"EligibilityEvalComputationStarted", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED, DO(LogEligibilityEvalComputationStarted()), Phase::ELIGIBILITY_COMPUTATION});
  add({"EligibilityEvalComputationInvalidArgument", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_INVALID_ARGUMENT, DO(LogEligibilityEvalComputationInvalidArgument(q.error, q.ex, q.a)), Phase::UNSPECIFIED, true, kEE, false, false, true, 1});
  add({"EligibilityEvalComputationExampleIteratorError", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_EXAMPLE_ITERATOR, DO(LogEligibilityEvalComputationExampleIteratorError(q.error, q.ex, q.a)), Phase::UNSPECIFIED, true, kEE, false, false, true, 1});
  add({"EligibilityEvalComputationTensorflowError", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_TENSORFLOW, DO(LogEligibilityEvalComputationTensorflowError(q.error, q.ex, q.a, q.ref)), Phase::UNSPECIFIED, true, kEE, true, false, true, 1, xl, xe});
  add({"EligibilityEvalComputationIOError", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_IO, DO(LogEligibilityEvalComputationIOError(q.error, q.ex, q.a, q.ref)), Phase::UNSPECIFIED, true, kEE, false, false, true, 1, xl, xe});
  add({"EligibilityEvalComputationInterrupted", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_CLIENT_INTERRUPTED, DO(LogEligibilityEvalComputationInterrupted(q.error, q.ex, q.a, q.ref)), Phase::UNSPECIFIED, true, kEE, false, false, true, 1, xl, xe});
  add({"EligibilityEvalComputationErrorNonfatal", E::EVENT_KIND_UNRECOGNIZED, DO(LogEligibilityEvalComputationErrorNonfatal(q.error)), Phase::UNSPECIFIED, false, kEE});
  add({"EligibilityEvalComputationCompleted", E::EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED, DO(LogEligibilityEvalComputationCompleted(q.ex, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, false, true, 1, xl, xe, false, true});
  // Multiple task assignments.
  std::vector<H> ml = {H::TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_LATENCY}, me = {H::TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_END_TIME};
  add({"MultipleTaskAssignmentsStarted", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED, DO(LogMultipleTaskAssignmentsStarted()), Phase::MULTIPLE_TASK_ASSIGNMENTS});
  add({"MultipleTaskAssignmentsIOError", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_IO, DO(LogMultipleTaskAssignmentsIOError(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kM, false, true, false, 1, ml, me});
  add({"MultipleTaskAssignmentsPayloadIOError", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_PAYLOAD_IO, DO(LogMultipleTaskAssignmentsPayloadIOError(q.error)), Phase::UNSPECIFIED, false, kM});
  add({"MultipleTaskAssignmentsInvalidPayload", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_INVALID_PAYLOAD, DO(LogMultipleTaskAssignmentsInvalidPayload(q.message)), Phase::UNSPECIFIED, false, ""});
  add({"MultipleTaskAssignmentsClientInterrupted", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_CLIENT_INTERRUPTED, DO(LogMultipleTaskAssignmentsClientInterrupted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kM, false, true, false, 1, ml, me});
  add({"MultipleTaskAssignmentsServerAborted", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_SERVER_ABORTED, DO(LogMultipleTaskAssignmentsServerAborted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kM, false, true, false, 1, ml, me});
  add({"MultipleTaskAssignmentsTurnedAway", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_REJECTED, DO(LogMultipleTaskAssignmentsTurnedAway(q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, ml, me});
  add({"MultipleTaskAssignmentsPlanUriReceived", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_RECEIVED, DO(LogMultipleTaskAssignmentsPlanUriReceived(q.net, q.a)), Phase::UNSPECIFIED, false, nullptr, false, true, false, 1});
  add({"MultipleTaskAssignmentsPlanUriPartialReceived", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_PARTIAL_RECEIVED, DO(LogMultipleTaskAssignmentsPlanUriPartialReceived(q.net, q.a)), Phase::UNSPECIFIED, false, nullptr, false, true, false, 1});
  add({"MultipleTaskAssignmentsPartialCompleted", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED, DO(LogMultipleTaskAssignmentsPartialCompleted(q.net, q.a, q.b, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 2, ml, me});
  add({"MultipleTaskAssignmentsCompleted", E::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED, DO(LogMultipleTaskAssignmentsCompleted(q.net, q.a, q.b, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 2, ml, me});
  // Check-in.
  std::vector<H> cl = {H::TRAINING_FL_CHECKIN_LATENCY}, ce = {H::TRAINING_FL_CHECKIN_END_TIME};
  add({"Checkin", E::EVENT_KIND_CHECKIN_STARTED, DO(LogCheckinStarted()), Phase::CHECKIN});
  add({"CheckinIoError", E::EVENT_KIND_CHECKIN_ERROR_IO, DO(LogCheckinIOError(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kC, false, true, false, 1, cl, ce});
  add({"CheckinInvalidPayload", E::EVENT_KIND_CHECKIN_ERROR_INVALID_PAYLOAD, DO(LogCheckinInvalidPayload(q.message, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, "", false, true, false, 1, cl, ce});
  add({"CheckinClientInterrupted", E::EVENT_KIND_CHECKIN_CLIENT_INTERRUPTED, DO(LogCheckinClientInterrupted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kC, false, true, false, 1, cl, ce});
  add({"CheckinServerAborted", E::EVENT_KIND_CHECKIN_SERVER_ABORTED, DO(LogCheckinServerAborted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kC, false, true, false, 1, cl, ce});
  add({"Rejected", E::EVENT_KIND_CHECKIN_REJECTED, DO(LogCheckinTurnedAway(q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, cl, ce});
  add({"CheckinPlanUriReceived", E::EVENT_KIND_CHECKIN_PLAN_URI_RECEIVED, DO(LogCheckinPlanUriReceived(q.task, q.net, q.a)), Phase::UNSPECIFIED, false, nullptr, false, true, false, 1, {}, {}, true});
  add({"CheckinFinishedV2", E::EVENT_KIND_CHECKIN_ACCEPTED, DO(LogCheckinCompleted(q.task, q.net, q.a, q.b, q.ref, q.index)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 2, cl, ce});
  // Computation.
  add({"ComputationStarted", E::EVENT_KIND_COMPUTATION_STARTED, DO(LogComputationStarted(q.task)), Phase::COMPUTATION, false, nullptr, false, false, false, 0, {}, {}, true});
  add({"ComputationInvalidArgument", E::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT, DO(LogComputationInvalidArgument(q.error, q.ex, q.net, q.a)), Phase::UNSPECIFIED, true, kX, false, true, true, 1});
  add({"ComputationIOError", E::EVENT_KIND_COMPUTATION_ERROR_IO, DO(LogComputationIOError(q.error, q.ex, q.net, q.a)), Phase::UNSPECIFIED, true, kX, false, true, true, 1});
  add({"ComputationExampleIteratorError", E::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR, DO(LogComputationExampleIteratorError(q.error, q.ex, q.net, q.a)), Phase::UNSPECIFIED, true, kX, false, true, true, 1});
  add({"ComputationTensorflowError", E::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, DO(LogComputationTensorflowError(q.error, q.ex, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kX, true, true, true, 1, xl, xe});
  add({"ComputationInterrupted", E::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED, DO(LogComputationInterrupted(q.error, q.ex, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kX, false, true, true, 1, xl, xe});
  add({"ComputationCompleted", E::EVENT_KIND_COMPUTATION_FINISHED, DO(LogComputationCompleted(q.ex, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, true, 1, xl, xe, false, true});
  // Upload.
  std::vector<H> rl = {H::TRAINING_FL_REPORT_RESULTS_LATENCY}, re = {H::TRAINING_FL_REPORT_RESULTS_END_TIME};
  add({"ResultUploadStarted", E::EVENT_KIND_RESULT_UPLOAD_STARTED, [](L& l, const R&) { return l.LogResultUploadStarted(); }, Phase::UPLOAD, false, nullptr, false, false, false, 0, {}, {}, false, false, true});
  add({"ResultUploadIOError", E::EVENT_KIND_RESULT_UPLOAD_ERROR_IO, DO(LogResultUploadIOError(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kR, false, true, false, 1, rl, re});
  add({"ResultUploadClientInterrupted", E::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED, DO(LogResultUploadClientInterrupted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kR, false, true, false, 1, rl, re});
  add({"ResultUploadServerAborted", E::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, DO(LogResultUploadServerAborted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kR, false, true, false, 1, rl, re});
  add({"ResultUploadCompleted", E::EVENT_KIND_RESULT_UPLOAD_FINISHED, DO(LogResultUploadCompleted(q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, rl, re});
  add({"FailureUploadStarted", E::EVENT_KIND_FAILURE_UPLOAD_STARTED, [](L& l, const R&) { return l.LogFailureUploadStarted(); }, Phase::UPLOAD, false, nullptr, false, false, false, 0, {}, {}, false, false, true});
  add({"FailureUploadIOError", E::EVENT_KIND_FAILURE_UPLOAD_ERROR_IO, DO(LogFailureUploadIOError(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kF, false, true, false, 1, rl, re});
  add({"FailureUploadClientInterrupted", E::EVENT_KIND_FAILURE_UPLOAD_CLIENT_INTERRUPTED, DO(LogFailureUploadClientInterrupted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kF, false, true, false, 1, rl, re});
  add({"FailureUploadServerAborted", E::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED, DO(LogFailureUploadServerAborted(q.error, q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, kF, false, true, false, 1, rl, re});
  add({"FailureUploadCompleted", E::EVENT_KIND_FAILURE_UPLOAD_FINISHED, DO(LogFailureUploadCompleted(q.net, q.a, q.ref)), Phase::UNSPECIFIED, true, nullptr, false, true, false, 1, rl, re});
#undef DO
  return c;
}

void Phases(Report& r) {
  const std::vector<Call> calls = Calls();
  std::vector<H> histograms;
  for (auto& c : calls) {
    for (H h : c.latency) histograms.push_back(h);
    for (H h : c.end) histograms.push_back(h);
  }
  std::sort(histograms.begin(), histograms.end());
  histograms.erase(std::unique(histograms.begin(), histograms.end()), histograms.end());
  for (int64_t i = 0; i < r.N(25000, 500000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x9A5E + i);
    Flags flags;
    flags.phase_stats = rng.Chance(0.6);
    flags.tf_messages = rng.Chance(0.5);
    OpStatsSequence store;
    bool broken = false;
    Model m;
    m.phases_on = flags.phase_stats;
    m.top.set_session_name("session");
    m.top.set_population_name("pop");
    Logs logs;
    Publisher publisher;
    auto opstats = std::make_unique<OpStatsLoggerImpl>(std::make_unique<MemoryDb>(&store, &broken), &logs, &flags, "session", "pop");
    PhaseLoggerImpl phases(&publisher, opstats.get(), &logs, &flags);
    std::string trace;
    bool bad = false;
    NetworkStats net;
    int steps = rng.Range(1, 20);
    for (int k = 0; k < steps && !bad; ++k) {
      size_t which = (i < static_cast<int64_t>(calls.size()) * 8 && k == steps / 2) ? (i / 8) % calls.size() : rng.Below(calls.size());
      const Call& c = calls[which];
      Report1 q;
      q.error = absl::Status(static_cast<absl::StatusCode>(rng.Range(1, 16)), Format("secret %d", k));
      q.message = Format("message %d", k);
      q.task = Format("task/%d", (int)rng.Below(3));
      net.bytes_downloaded += rng.Below(100000);
      if (rng.Chance(0.7)) net.bytes_uploaded += rng.Below(100000);
      net.network_duration += absl::Milliseconds(rng.Below(5000));
      q.net = net;
      q.ex = {static_cast<int>(rng.Below(1000)), static_cast<int64_t>(rng.Below(1000000))};
      q.a = absl::Now() - absl::Minutes(60) - absl::Seconds(rng.Below(100));
      q.b = absl::Now() - absl::Minutes(30) - absl::Seconds(rng.Below(100));
      q.ref = absl::Now() - absl::Minutes(120) - absl::Seconds(rng.Below(100));
      if (rng.Chance(0.5)) q.index = rng.Below(100);
      trace += std::string(" ") + c.published;
      r.Case(i, trace);
      auto fail = [&](const std::string& key, const std::string& d) {
        r.Violation(key, std::string(c.published) + ": " + d + ";" + trace);
        bad = true;
      };
      // What is to be recorded.
      Model before = m;
      int64_t lo = NowMicros();
      absl::Time t0 = absl::Now();
      size_t published = publisher.all.size();
      std::map<H, size_t> seen;
      for (H h : histograms) seen[h] = logs.of(h).size();
      size_t sizes = logs.of(H::TRAINING_OVERALL_EXAMPLE_SIZE).size();
      broken = c.commits && rng.Chance(0.3);
      // At the announcement of an upload the record is in the store.
      bool announced_stored = false;
      publisher.at = [&](const Published&) {
        if (!store.opstats_size()) return;
        const Stats& s = store.opstats(store.opstats_size() - 1);
        int n = s.phase_stats_size();
        const auto& events = flags.phase_stats ? (n ? s.phase_stats(n - 1).events() : s.events()) : s.events();
        announced_stored = !events.empty() && events.rbegin()->event_type() == c.kind;
      };
      absl::Status status = c.call(phases, q);
      publisher.at = nullptr;
      absl::Time t1 = absl::Now();
      int64_t hi = NowMicros();
      r.Eval(3);
      // The record.
      if (c.starts != Phase::UNSPECIFIED && m.phases_on) {
        m.Close();
        m.phase.set_phase(c.starts);
      }
      if (c.kind != E::EVENT_KIND_UNRECOGNIZED) m.Event(c.kind, lo, hi);
      std::string message;
      if (c.prefix) {
        if (!*c.prefix) {
          message = q.message;
        } else {
          std::string code = absl::StatusCodeToString(q.error.code());
          message = std::string(c.prefix) + "code: " + std::to_string(static_cast<int>(q.error.code())) + ", error: " +
                    (c.hides && !flags.tf_messages ? "" : std::string(q.error.message()));
        }
      }
      // Where an error was recorded, if anywhere.
      std::string want_error = message;
      if (c.names) {
        if (m.InPhase()) m.phase.set_task_name(q.task);
        else m.top.set_task_name(q.task);
      }
      if (q.index && std::string(c.published) == "CheckinFinishedV2") m.top.set_min_sep_policy_index(*q.index);
      // The announcement.
      bool announced = publisher.all.size() == published + 1;
      if (c.commits) {
        r.Count(broken ? "uploads that could not be recorded" : "uploads recorded");
        if (status.ok() == broken) fail("upload-not-recorded", status.ToString());
        if (broken ? publisher.all.size() != published : (!announced || !announced_stored)) {
          fail("announced-before-recorded", Format("%zu announcements", publisher.all.size() - published));
        }
      }
      if (!broken && !bad) {
        if (!announced || publisher.all.back().name != c.published) {
          fail("wrong-announcement", announced ? publisher.all.back().name : Format("%zu announcements", publisher.all.size() - published));
        } else {
          const Published& p = publisher.all.back();
          // Which part of a status makes up the message is free, but not
          // whether it contains what must stay hidden.
          if (p.has_error != (c.prefix != nullptr)) fail("wrong-announcement", "error");
          if (c.prefix && *c.prefix) {
            bool shows = p.error.find(std::string(q.error.message())) != std::string::npos;
            if (shows != !(c.hides && !flags.tf_messages)) fail(shows ? "message-not-hidden" : "message-lost", p.error);
            if (p.error.rfind(c.prefix, 0) != 0) fail("wrong-announcement", p.error);
          } else if (c.prefix && p.error != q.message) {
            fail("message-lost", p.error);
          }
          want_error = p.error;
          if (c.net && !(p.network == q.net)) fail("wrong-announcement", "network use");
          if (c.ex && !(p.examples == q.ex)) fail("wrong-announcement", "example counts");
          if (c.since) {
            absl::Time from = c.since == 1 ? q.a : q.b;
            if (!p.has_duration || p.duration < t0 - from || p.duration > t1 - from) fail("wrong-duration", absl::FormatDuration(p.duration));
          }
        }
      }
      if (c.prefix && c.kind != E::EVENT_KIND_UNRECOGNIZED) {
        if (m.InPhase()) {
          if (m.phase.error_message().empty()) m.phase.set_error_message(want_error);
        } else if (m.top.error_message().empty()) {
          m.top.set_error_message(want_error);
        }
        r.Count("errors reported");
      }
      if (c.ends) m.Close();
      // Times taken.
      for (H h : histograms) {
        auto all = logs.of(h);
        bool l = std::find(c.latency.begin(), c.latency.end(), h) != c.latency.end();
        bool e = std::find(c.end.begin(), c.end.end(), h) != c.end.end();
        if (all.size() - seen[h] != (l || e ? 1 : 0)) {
          fail("wrong-latency", Format("%zu values of %d", all.size() - seen[h], static_cast<int>(h)));
        } else if (l || e) {
          absl::Time from = l ? q.a : q.ref;
          if (all.back() < absl::ToInt64Milliseconds(t0 - from) - 1 || all.back() > absl::ToInt64Milliseconds(t1 - from) + 1) {
            fail("wrong-latency", Format("%lld for %d", (long long)all.back(), static_cast<int>(h)));
          }
        }
      }
      auto all = logs.of(H::TRAINING_OVERALL_EXAMPLE_SIZE), counts = logs.of(H::TRAINING_OVERALL_EXAMPLE_COUNT);
      if (all.size() - sizes != (c.counts ? 1 : 0) ||
          (c.counts && (all.back() != q.ex.example_size_bytes || counts.back() != q.ex.example_count))) {
        fail("wrong-example-counts", "");
      }
      broken = false;
      if (rng.Chance(0.2)) {
        RetryWindow w;
        w.set_retry_token("token");
        w.mutable_delay_min()->set_seconds(k);
        phases.UpdateRetryWindowAndNetworkStats(w, net);
        w.clear_retry_token();
        *m.top.mutable_retry_window() = w;
        if (m.InPhase()) {
          NetworkStats d = net - m.seen;
          m.seen = net;
          m.phase.set_bytes_downloaded(m.phase.bytes_downloaded() + d.bytes_downloaded);
          m.phase.set_bytes_uploaded(m.phase.bytes_uploaded() + d.bytes_uploaded);
          *m.phase.mutable_network_duration() = TimeUtil::MillisecondsToDuration(
              TimeUtil::DurationToMilliseconds(m.phase.network_duration()) + absl::ToInt64Milliseconds(d.network_duration));
        } else {
          m.top.set_chunking_layer_bytes_downloaded(net.bytes_downloaded);
          m.top.set_chunking_layer_bytes_uploaded(net.bytes_uploaded);
          *m.top.mutable_network_duration() = TimeUtil::MillisecondsToDuration(absl::ToInt64Milliseconds(net.network_duration));
        }
        trace += " use";
      }
      if (!bad && status.ok() && c.commits) {
        std::string d = store.opstats_size() == 1 ? Differs(m, store.opstats(0)) : Format("%d records", store.opstats_size());
        // What was added after the commit is not in it.
        if (!d.empty() && trace.substr(trace.size() - 4) != " use") fail("record-wrong", d);
      }
    }
    if (bad) continue;
    opstats.reset();
    r.Eval();
    std::string d = store.opstats_size() == 1 ? Differs(m, store.opstats(0)) : Format("%d records", store.opstats_size());
    if (!d.empty()) r.Violation("record-wrong", d + ";" + trace);
    r.Count("runs");
    r.Distinct(trace);
    if (r.WantsSample()) r.Sample(trace);
  }
}

// ---- interruption ----------------------------------------------------------------------

using fcp::client::InterruptibleRunner;
using fcp::client::ProdDiagCode;
const ProdDiagCode kInterrupted = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP,
                   kTimeout = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
                   kExtended = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
                   kTimeoutExtended = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT;

void Runner(Report& r, bool exits) {
  const InterruptibleRunner::DiagnosticsConfig diags = {kInterrupted, kTimeout, kExtended, kTimeoutExtended};
  for (int64_t i = 0; i < r.N(5000, 60000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x1177 + i);
    r.Case(i);
    if (exits && rng.Chance(0.02)) {
      // Work that never ends takes the process with it, without a crash.
      // It is given all the time it should have until then.
      int grace = rng.Range(1, 60), extended = rng.Range(5, 120);
      struct Noted {
        int code;
        int64_t at;
      };
      int fd[2];
      if (pipe(fd)) Report::Broken("pipe");
      pid_t pid = fork();
      if (pid == 0) {
        alarm(60);
        close(fd[0]);
        static auto note = [](int fd, int code) {
          timespec t;
          clock_gettime(CLOCK_MONOTONIC, &t);
          Noted n = {code, t.tv_sec * int64_t{1000000} + t.tv_nsec / 1000};
          if (write(fd, &n, sizeof n) != sizeof n) _exit(9);
        };
        struct PipeLogs : public verif::Logs {
          int fd;
          void LogDiag(ProdDiagCode c) override {
            note(fd, c);
          }
        };
        auto* logs = new PipeLogs;
        logs->fd = fd[1];
        auto* go = new std::atomic<bool>(false);
        auto* never = new std::atomic<bool>(false);
        InterruptibleRunner runner(logs, [go] { return go->load(); }, {absl::Milliseconds(1), absl::Milliseconds(grace), absl::Milliseconds(extended)}, diags);
        (void)runner.Run(
            [go, never]() -> absl::Status {
              *go = true;
              while (!*never) usleep(1000);
              return absl::OkStatus();
            },
            [&] { note(fd[1], -1); });
        _exit(8);
      }
      close(fd[1]);
      std::vector<int> codes;
      std::vector<int64_t> at;
      Noted n;
      while (read(fd[0], &n, sizeof n) == sizeof n) {
        codes.push_back(n.code);
        at.push_back(n.at);
      }
      close(fd[0]);
      int status = 0;
      waitpid(pid, &status, 0);
      r.Eval();
      r.Count("endless work");
      if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) r.Violation("endless-work-goes-on", Format("status %d", status));
      if (codes != std::vector<int>{-1, kTimeout, kTimeoutExtended}) {
        r.Violation("wrong-diagnosis", "endless work");
      } else if (at[1] - at[0] < grace * 1000 - 3000 || at[2] - at[1] < extended * 1000 - 3000) {
        r.Violation("given-up-early", Format("after %lld of %d ms and %lld of %d ms", static_cast<long long>((at[1] - at[0]) / 1000), grace,
                                             static_cast<long long>((at[2] - at[1]) / 1000), extended));
      }
      continue;
    }
    verif::Perturb(rng);
    Logs logs;
    std::atomic<bool> stop{false};
    std::atomic<int> polls{0};
    std::atomic<int> stop_at_poll{-1};
    auto should = [&] { return stop || (stop_at_poll >= 0 && ++polls > stop_at_poll); };
    bool short_grace = rng.Chance(0.3);
    InterruptibleRunner::TimingConfig timing = {absl::Microseconds(rng.Range(1, 2000)), short_grace ? absl::Milliseconds(1) : absl::Seconds(500), absl::Seconds(500)};
    {
      InterruptibleRunner runner(&logs, should, timing, diags);
      int runs = rng.Range(1, 4);
      for (int k = 0; k < runs; ++k) {
        stop = false;
        polls = 0;
        stop_at_poll = -1;
        int kind = rng.Below(5);
        std::atomic<int> running{0};
        std::atomic<bool> told{false};
        int ran = 0, aborts = 0;  // not atomic: the runner orders them
        absl::Status result = rng.Chance(0.5) ? absl::OkStatus() : absl::Status(static_cast<absl::StatusCode>(rng.Range(1, 16)), "of the work");
        int nap = rng.Below(3000);
        auto before = logs.prod();
        std::function<absl::Status()> f;
        switch (kind) {
          case 0:  // nothing stops it
            f = [&] { usleep(nap / 10); return result; };
            break;
          case 1:  // stopped beforehand
            stop = true;
            f = [&] { return result; };
            break;
          case 2:  // stops when told
            f = [&] {
              stop = true;
              while (!told) usleep(50);
              return result;
            };
            break;
          case 3:  // stops late
            f = [&] {
              stop = true;
              while (!told) usleep(50);
              while (short_grace && logs.of(kTimeout) == (before.count(kTimeout) ? before[kTimeout] : 0)) usleep(50);
              return result;
            };
            break;
          case 4:  // a race
            stop_at_poll = rng.Range(0, 3);
            f = [&] { usleep(nap); return result; };
            break;
        }
        auto work = [&]() -> absl::Status {
          ++running;
          ++ran;
          absl::Status s = f();
          --running;
          return s;
        };
        absl::Status got = runner.Run(work, [&] {
          ++aborts;
          told = true;
        });
        r.Eval(2);
        auto after = logs.prod();
        auto logged = [&](ProdDiagCode c) { return after[c] - before[c]; };
        std::string what = Format("kind %d: %s, %d runs, %d aborts, diagnoses %d %d %d %d", kind, got.ToString().c_str(), ran, aborts,
                                  logged(kInterrupted), logged(kTimeout), logged(kExtended), logged(kTimeoutExtended));
        if (running != 0) {
          r.Violation("returned-while-running", what);
          told = true;
          break;
        }
        bool cancelled = aborts > 0;
        if (kind == 1 || (kind == 4 && ran == 0)) {
          r.Count("stopped beforehand");
          if (ran || aborts || got.code() != absl::StatusCode::kCancelled) r.Violation("ran-though-stopped", what);
          continue;
        }
        if (ran != 1) r.Violation("not-run-once", what);
        if (aborts > 1) r.Violation("aborted-twice", what);
        if (kind == 0 && cancelled) r.Violation("aborted-for-nothing", what);
        if ((kind == 2 || kind == 3) && !cancelled) r.Violation("not-aborted", what);
        if (cancelled) {
          r.Count("aborted");
          if (got.code() != absl::StatusCode::kCancelled) r.Violation("interruption-not-reported", what);
          bool late = logged(kTimeout) == 1;
          if (late) r.Count("aborted late");
          if (logged(kTimeoutExtended) || logged(kInterrupted) + logged(kExtended) != 1 || logged(kExtended) != logged(kTimeout) ||
              (kind == 3 && short_grace && !late) || (!short_grace && late)) {
            r.Violation("wrong-diagnosis", what);
          }
        } else {
          r.Count("finished");
          if (got != result) r.Violation("wrong-result", what);
          if (logged(kInterrupted) || logged(kTimeout) || logged(kExtended)) r.Violation("wrong-diagnosis", what);
        }
      }
    }
    r.Distinct(Format("%d %d", (int)short_grace, (int)(i % 1000)));
    if (r.WantsSample()) r.Sample(short_grace ? "with little patience" : "with patience");
  }
  r.Count("schedule perturbations", verif::Points());
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "eligibility") Eligibility(r);
  else if (r.mode == "phases") Phases(r);
  else if (r.mode == "runner") Runner(r, true);
  else if (r.mode == "runner-threads") Runner(r, false);
  else Report::Broken("mode?");
  return r.Finish();
}
