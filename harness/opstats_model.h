// What operational statistics should look like: a reference for the record of
// a run, and a generator of histories with the view each task has of them.
#ifndef VERIF_HARNESS_OPSTATS_MODEL_H_
#define VERIF_HARNESS_OPSTATS_MODEL_H_

#include <filesystem>
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "absl/time/clock.h"
#include "client_fakes.h"
#include "common.h"
#include "fcp/client/flags.h"
#include "fcp/client/opstats/opstats_db.h"
#include "fcp/client/stats.h"
#include "fcp/protos/opstats.pb.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"

namespace {
using namespace fcp::client::opstats;  // NOLINT
using fcp::client::NetworkStats;
using google::internal::federatedml::v2::RetryWindow;
using google::protobuf::Timestamp;
using google::protobuf::util::MessageDifferencer;
using google::protobuf::util::TimeUtil;
using verif::Format;
using verif::Logs;
using verif::Report;
using verif::Rng;
namespace fs = std::filesystem;
using Stats = OperationalStats;
using Phase = OperationalStats::PhaseStats;
using Kind = OperationalStats::Event::EventKind;

class Flags : public fcp::client::Flags {
 public:
  bool phase_stats = false, tf_messages = false, query_result = false, min_sep_trust = false, lightweight_id = false;
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return tf_messages; }
  bool use_example_query_result_for_data_avail() const override { return query_result; }
  bool check_trustworthiness_for_min_sep_policy() const override { return min_sep_trust; }
  bool enable_lightweight_computation_id() const override { return lightweight_id; }
  bool enable_phase_stats_logging() const override { return phase_stats; }
};

int64_t Micros(const Timestamp& t) { return TimeUtil::TimestampToMicroseconds(t); }
int64_t NowMicros() { return Micros(TimeUtil::GetCurrentTime()); }

// ---- the logger -----------------------------------------------------------------

struct MemoryDb : public OpStatsDb {
  OpStatsSequence* data;
  bool* fail;
  MemoryDb(OpStatsSequence* d, bool* f) : data(d), fail(f) {}
  absl::StatusOr<OpStatsSequence> Read() override { return *data; }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
    OpStatsSequence copy = *data;
    f(copy);
    if (*fail) return absl::InternalError("disk full");
    *data = copy;
    return absl::OkStatus();
  }
};

// The record as it should be; times of events are brackets, kept beside.
struct Model {
  Stats top;
  Phase phase;
  bool phases_on = false;
  std::map<std::string, absl::Time> first;
  NetworkStats seen;
  std::vector<std::pair<int64_t, int64_t>> top_times, phase_times;
  std::vector<std::vector<std::pair<int64_t, int64_t>>> done_times;

  bool InPhase() const { return phases_on && phase.phase() != Phase::UNSPECIFIED; }
  void Event(Kind k, int64_t lo, int64_t hi) {
    if (InPhase()) {
      phase.add_events()->set_event_type(k);
      phase_times.push_back({lo, hi});
    } else {
      top.add_events()->set_event_type(k);
      top_times.push_back({lo, hi});
    }
  }
  void Close() {
    if (!InPhase()) return;
    *top.add_phase_stats() = phase;
    done_times.push_back(phase_times);
    phase.Clear();
    phase_times.clear();
  }
};

// Compares a stored record with the model; "" if they agree.
std::string Differs(const Model& m, const Stats& got) {
  Model want = m;
  want.Close();
  if (got.events_size() != want.top.events_size()) {
    return Format("%d events outside phases, want %d", got.events_size(), want.top.events_size());
  }
  if (got.phase_stats_size() != want.top.phase_stats_size()) {
    return Format("%d phases, want %d", got.phase_stats_size(), want.top.phase_stats_size());
  }
  auto times = [](const auto& got_events, auto* want_events,
                  const std::vector<std::pair<int64_t, int64_t>>& t) -> std::string {
    int64_t last = 0;
    if (got_events.size() != want_events->size()) {
      return Format("%d events in a phase, want %d", got_events.size(), want_events->size());
    }
    for (int i = 0; i < got_events.size(); ++i) {
      int64_t at = Micros(got_events[i].timestamp());
      if (at < t[i].first || at > t[i].second) return Format("event %d at another time", i);
      if (at < last) return Format("event %d earlier than the one before", i);
      last = at;
      *(*want_events)[i].mutable_timestamp() = got_events[i].timestamp();
    }
    return "";
  };
  std::string s = times(got.events(), want.top.mutable_events(), want.top_times);
  if (!s.empty()) return s;
  for (int p = 0; p < got.phase_stats_size(); ++p) {
    s = times(got.phase_stats(p).events(), want.top.mutable_phase_stats(p)->mutable_events(),
              want.done_times[p]);
    if (!s.empty()) return Format("phase %d: ", p) + s;
  }
  std::string diff;
  MessageDifferencer d;
  d.ReportDifferencesToString(&diff);
  if (!d.Compare(want.top, got)) return diff;
  return "";
}

Kind AnyKind(Rng& rng) { return static_cast<Kind>(rng.Range(1, 62)); }
Phase::Phase AnyPhase(Rng& rng) { return static_cast<Phase::Phase>(rng.Range(1, 6)); }
const std::vector<std::string> kTasks = {"", "task/1", "task/2", "pop/task#3"};
const std::vector<std::string> kUris = {"app:/a", "app:/b", "", "internal:/opstats"};

struct Gen {
  Rng& rng;
  int64_t ms = 1700000000000;
  Stats::Event Event(Kind k) {
    Stats::Event e;
    e.set_event_type(k);
    ms += rng.Chance(0.1) ? 0 : rng.Range(1, 5000);
    *e.mutable_timestamp() = TimeUtil::MillisecondsToTimestamp(ms);
    return e;
  }
  template <class T>
  void Datasets(T* t) {
    for (const auto& u : kUris) {
      if (!rng.Chance(0.3)) continue;
      auto& d = (*t->mutable_dataset_stats())[u];
      d.set_num_examples_read(rng.Below(100));
      d.set_num_bytes_read(rng.Below(100000));
      *d.mutable_first_access_timestamp() = TimeUtil::MillisecondsToTimestamp(ms - rng.Below(100000));
    }
  }
  template <class T>
  void Upload(T* t) {
    int n = rng.Chance(0.8) ? 1 : 2;
    for (int k = 0; k < n; ++k) *t->add_events() = Event(Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);
    double d = rng.Unit();
    if (d < 0.25) *t->add_events() = Event(Stats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED);
    else if (d < 0.45) *t->add_events() = Event(Stats::Event::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED);
    else if (d < 0.55) *t->add_events() = Event(Stats::Event::EVENT_KIND_RESULT_UPLOAD_ERROR_IO);
    else if (d < 0.9) *t->add_events() = Event(Stats::Event::EVENT_KIND_RESULT_UPLOAD_FINISHED);
  }
};

const std::vector<std::string> kNames = {"pop/a", "pop/b", "pop/ab", "other"};

// A run, and the view of each of its tasks.
void AddRun(Gen& g, int n, OpStatsSequence* seq, std::vector<Stats>* views) {
  Rng& rng = g.rng;
  Stats* s = seq->add_opstats();
  s->set_session_name(Format("s%d", n));
  s->set_population_name(rng.Pick(kNames));
  if (rng.Chance(0.5)) {
    s->mutable_retry_window()->mutable_delay_min()->set_seconds(rng.Below(100));
    s->mutable_retry_window()->mutable_delay_max()->set_seconds(rng.Below(1000));
  }
  if (rng.Chance(0.4)) s->set_min_sep_policy_index(rng.Below(50));
  if (rng.Chance(0.4)) {  // the old shape
    if (rng.Chance(0.9)) s->set_task_name(rng.Pick(kNames));
    for (int k = rng.Below(3); k > 0; --k) *s->add_events() = g.Event(Stats::Event::EVENT_KIND_CHECKIN_STARTED);
    if (rng.Chance(0.7)) g.Upload(s);
    g.Datasets(s);
    if (rng.Chance(0.2)) s->set_error_message(Format("e%d", n));
    s->set_chunking_layer_bytes_downloaded(rng.Below(1000));
    s->set_chunking_layer_bytes_uploaded(rng.Below(1000));
    *s->mutable_network_duration() = TimeUtil::MillisecondsToDuration(rng.Below(10000));
    views->push_back(*s);
    return;
  }
  auto phase = [&](Phase::Phase p, const std::string& task, Kind kind) {
    Phase* q = s->add_phase_stats();
    q->set_phase(p);
    if (!task.empty()) q->set_task_name(task);
    *q->add_events() = g.Event(kind);
    if (rng.Chance(0.2)) q->set_error_message(Format("e%d.%d", n, s->phase_stats_size()));
    q->set_bytes_downloaded(rng.Below(1000));
    q->set_bytes_uploaded(rng.Below(1000));
    if (rng.Chance(0.7)) *q->mutable_network_duration() = TimeUtil::MillisecondsToDuration(rng.Below(10000));
    return q;
  };
  // Which phases make up the view of each task.
  std::vector<std::vector<int>> of_task;
  std::vector<int> shared;
  int assignment = -1;
  auto last = [&] { return s->phase_stats_size() - 1; };
  if (rng.Chance(0.7)) {
    phase(Phase::ELIGIBILITY_EVAL_CHECKIN, "", Stats::Event::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED);
    shared.push_back(last());
    if (rng.Chance(0.6)) {
      g.Datasets(phase(Phase::ELIGIBILITY_COMPUTATION, "pop/eet", Stats::Event::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED));
      shared.push_back(last());
    }
  }
  for (int round = rng.Below(3); round > 0; --round) {
    bool multiple = rng.Chance(0.4);
    int tasks = multiple ? rng.Range(1, 3) : 1;
    if (rng.Chance(0.9)) {
      phase(multiple ? Phase::MULTIPLE_TASK_ASSIGNMENTS : Phase::CHECKIN, multiple ? "" : "",
            Stats::Event::EVENT_KIND_CHECKIN_STARTED);
      assignment = last();
    }
    if (rng.Chance(0.2)) continue;  // rejected
    for (int t = 0; t < tasks; ++t) {
      std::string name = rng.Pick(kNames);
      g.Datasets(phase(Phase::COMPUTATION, name, Stats::Event::EVENT_KIND_COMPUTATION_STARTED));
      std::vector<int> view = shared;
      if (assignment >= 0) view.push_back(assignment);
      view.push_back(last());
      if (rng.Chance(0.8)) {
        Phase* q = phase(Phase::UPLOAD, rng.Chance(0.5) ? name : "", Stats::Event::EVENT_KIND_COMPUTATION_FINISHED);
        if (rng.Chance(0.9)) g.Upload(q);
        view.push_back(last());
      }
      of_task.push_back(view);
    }
  }
  if (s->phase_stats_size() == 0) {
    views->push_back(*s);
    return;
  }
  if (of_task.empty()) {
    std::vector<int> view = shared;
    if (assignment >= 0) view.push_back(assignment);
    of_task.push_back(view);
  }
  for (auto& view : of_task) {
    Stats v;
    v.set_session_name(s->session_name());
    v.set_population_name(s->population_name());
    if (s->has_retry_window()) *v.mutable_retry_window() = s->retry_window();
    if (s->has_min_sep_policy_index()) v.set_min_sep_policy_index(s->min_sep_policy_index());
    int64_t ms = 0, down = 0, up = 0;
    std::map<std::string, std::vector<Stats::DatasetStats>> data;
    for (int k : view) {
      const Phase& p = s->phase_stats(k);
      if (!p.task_name().empty()) v.set_task_name(p.task_name());
      if (!p.error_message().empty()) v.set_error_message(p.error_message());
      for (auto& e : p.events()) *v.add_events() = e;
      for (auto& [u, d] : p.dataset_stats()) data[u].push_back(d);
      down += p.bytes_downloaded();
      up += p.bytes_uploaded();
      ms += TimeUtil::DurationToMilliseconds(p.network_duration());
    }
    for (auto& [u, ds] : data) {
      auto& d = (*v.mutable_dataset_stats())[u];
      int64_t examples = 0, bytes = 0, first = INT64_MAX;
      for (auto& x : ds) {
        examples += x.num_examples_read();
        bytes += x.num_bytes_read();
        first = std::min(first, TimeUtil::TimestampToMilliseconds(x.first_access_timestamp()));
      }
      d.set_num_examples_read(examples);
      d.set_num_bytes_read(bytes);
      *d.mutable_first_access_timestamp() = TimeUtil::MillisecondsToTimestamp(first);
    }
    v.set_chunking_layer_bytes_downloaded(down);
    v.set_chunking_layer_bytes_uploaded(up);
    if (ms != 0) *v.mutable_network_duration() = TimeUtil::MillisecondsToDuration(ms);
    views->push_back(v);
  }
}

bool Contributed(const Stats& v) {
  bool started = false, aborted = false;
  for (auto& e : v.events()) {
    started |= e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED;
    aborted |= e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED;
  }
  return started && !aborted;
}

}  // namespace

#endif  // VERIF_HARNESS_OPSTATS_MODEL_H_
