// Operational statistics: how runs are recorded, stored and looked up.
#include <sys/wait.h>

#include <atomic>
#include <filesystem>
#include <fstream>
#include <memory>
#include <thread>

#include "absl/time/clock.h"
#include "client_fakes.h"
#include "common.h"
#include "fcp/client/flags.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "opstats_model.h"
#include "perturb.h"
#include "tensorflow/core/example/example.pb.h"

namespace {

void Logger(Report& r) {
  for (int64_t i = 0; i < r.N(6000, 200000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x0951 + i);
    Flags flags;
    flags.phase_stats = rng.Chance(0.6);
    r.Case(i, flags.phase_stats ? "with phases" : "without phases");
    OpStatsSequence store;
    bool fail = false;
    Logs logs;
    std::vector<Stats> earlier;
    int runs = rng.Range(1, 3);
    std::string trace;
    bool bad = false;
    for (int run = 0; run < runs && !bad; ++run) {
      Model m;
      m.phases_on = flags.phase_stats;
      std::string session = Format("session%d", run), pop = rng.Chance(0.1) ? "" : "pop";
      m.top.set_session_name(session);
      m.top.set_population_name(pop);
      bool stored = false;
      auto logger = std::make_unique<OpStatsLoggerImpl>(std::make_unique<MemoryDb>(&store, &fail),
                                                        &logs, &flags, session, pop);
      auto check = [&](const std::string& when) {
        r.Eval();
        int want = earlier.size() + (stored ? 1 : 0);
        if (store.opstats_size() != want) {
          r.Violation("wrong-number-of-runs",
                      Format("%s: %d runs stored, want %d;%s", when.c_str(), store.opstats_size(),
                             want, trace.c_str()));
          bad = true;
          return;
        }
        for (size_t k = 0; k < earlier.size(); ++k) {
          if (!MessageDifferencer::Equals(store.opstats(k), earlier[k])) {
            r.Violation("earlier-run-changed",
                        Format("%s: run %zu is no longer as it was;%s", when.c_str(), k, trace.c_str()));
            bad = true;
            return;
          }
        }
        if (!stored) return;
        std::string d = Differs(m, store.opstats(want - 1));
        if (!d.empty()) {
          r.Violation("record-wrong", Format("%s: %s;%s", when.c_str(), d.c_str(), trace.c_str()));
          bad = true;
        }
      };
      int steps = rng.Range(0, 25);
      NetworkStats net;
      for (int k = 0; k < steps && !bad; ++k) {
        int64_t lo = NowMicros();
        switch (rng.Below(12)) {
          case 0: {
            Kind e = AnyKind(rng);
            std::string t = rng.Pick(kTasks);
            logger->AddEventAndSetTaskName(t, e);
            m.Event(e, lo, NowMicros());
            if (m.InPhase()) {
              m.phase.set_task_name(t);
            } else {
              m.top.set_task_name(t);
            }
            trace += " task";
            break;
          }
          case 1:
          case 2: {
            Kind e = AnyKind(rng);
            logger->AddEvent(e);
            m.Event(e, lo, NowMicros());
            trace += " event";
            break;
          }
          case 3: {
            Kind e = AnyKind(rng);
            std::string msg = rng.Chance(0.2) ? "" : rng.Bytes(0) + Format("error %d", k);
            logger->AddEventWithErrorMessage(e, msg);
            m.Event(e, lo, NowMicros());
            if (m.InPhase()) {
              if (m.phase.error_message().empty()) m.phase.set_error_message(msg);
            } else if (m.top.error_message().empty()) {
              m.top.set_error_message(msg);
            }
            r.Count("errors recorded");
            trace += " error";
            break;
          }
          case 4: {
            std::string uri = rng.Pick(kUris);
            int n = rng.Below(1000);
            int64_t b = rng.Chance(0.1) ? (1ll << 40) : rng.Below(100000);
            logger->UpdateDatasetStats(uri, n, b);
            auto& d = m.InPhase() ? (*m.phase.mutable_dataset_stats())[uri]
                                  : (*m.top.mutable_dataset_stats())[uri];
            d.set_num_examples_read(d.num_examples_read() + n);
            d.set_num_bytes_read(d.num_bytes_read() + b);
            if (m.first.count(uri)) {
              *d.mutable_first_access_timestamp() =
                  TimeUtil::NanosecondsToTimestamp(absl::ToUnixNanos(m.first[uri]));
            }
            r.Count("dataset reads recorded");
            trace += " dataset";
            break;
          }
          case 5: {
            std::string uri = rng.Pick(kUris);
            absl::Time t = absl::FromUnixMillis(1600000000000 + rng.Below(1000000));
            logger->RecordCollectionFirstAccessTime(uri, t);
            m.first.insert({uri, t});
            trace += " access";
            break;
          }
          case 6: {
            if (rng.Chance(0.7)) net.bytes_downloaded += rng.Below(100000);
            if (rng.Chance(0.7)) net.bytes_uploaded += rng.Below(100000);
            if (rng.Chance(0.7)) net.network_duration += absl::Milliseconds(rng.Below(5000));
            logger->SetNetworkStats(net);
            if (m.InPhase()) {
              NetworkStats d = net - m.seen;
              m.seen = net;
              m.phase.set_bytes_downloaded(m.phase.bytes_downloaded() + d.bytes_downloaded);
              m.phase.set_bytes_uploaded(m.phase.bytes_uploaded() + d.bytes_uploaded);
              *m.phase.mutable_network_duration() = TimeUtil::MillisecondsToDuration(
                  TimeUtil::DurationToMilliseconds(m.phase.network_duration()) +
                  absl::ToInt64Milliseconds(d.network_duration));
            } else {
              m.top.set_chunking_layer_bytes_downloaded(net.bytes_downloaded);
              m.top.set_chunking_layer_bytes_uploaded(net.bytes_uploaded);
              *m.top.mutable_network_duration() =
                  TimeUtil::MillisecondsToDuration(absl::ToInt64Milliseconds(net.network_duration));
            }
            r.Count("network use recorded");
            trace += " network";
            break;
          }
          case 7: {
            RetryWindow w;
            if (rng.Chance(0.8)) w.set_retry_token("secret");
            if (rng.Chance(0.7)) w.mutable_delay_min()->set_seconds(rng.Below(100));
            if (rng.Chance(0.7)) w.mutable_delay_max()->set_seconds(100 + rng.Below(100));
            logger->SetRetryWindow(w);
            w.clear_retry_token();
            *m.top.mutable_retry_window() = w;
            trace += " retry";
            break;
          }
          case 8: {
            int64_t n = rng.Range(-3, 1000);
            logger->SetMinSepPolicyIndex(n);
            m.top.set_min_sep_policy_index(n);
            trace += " minsep";
            break;
          }
          case 9: {
            Phase::Phase p = AnyPhase(rng);
            logger->StartLoggingForPhase(p);
            if (m.phases_on) {
              m.Close();
              m.phase.set_phase(p);
              r.Count("phases started");
            }
            trace += " start";
            break;
          }
          case 10:
            logger->StopLoggingForTheCurrentPhase();
            m.Close();
            trace += " stop";
            break;
          case 11: {
            fail = rng.Chance(0.25);
            OpStatsSequence before = store;
            absl::Status s = logger->CommitToStorage();
            trace += fail ? " commit-that-fails" : " commit";
            r.Count(fail ? "commits that fail" : "commits");
            if (s.ok() == fail) {
              r.Violation("commit-status-wrong",
                          Format("a commit that %s reports %s", fail ? "failed" : "succeeded",
                                 s.ToString().c_str()));
              bad = true;
            }
            if (!fail) stored = true;
            if (fail) {
              if (!MessageDifferencer::Equals(before, store)) Report::Broken("store changed");
            } else {
              check("commit");
            }
            fail = false;
            break;
          }
        }
        if (m.InPhase() && !m.phase.task_name().empty()) {
          r.Eval();
          if (logger->GetCurrentTaskName() != m.phase.task_name()) {
            r.Violation("wrong-task-name", logger->GetCurrentTaskName() + ";" + trace);
            bad = true;
          }
        } else if (m.phases_on) {
          // Of the phases that are over, the last one that had a name.
          std::string name;
          for (auto& p : m.top.phase_stats()) {
            if (!p.task_name().empty()) name = p.task_name();
          }
          if (!name.empty()) {
            r.Eval();
            r.Count("names of earlier phases");
            if (logger->GetCurrentTaskName() != name) {
              r.Violation("wrong-task-name", logger->GetCurrentTaskName() + ";" + trace);
              bad = true;
            }
          }
        } else if (logger->GetCurrentTaskName() != m.top.task_name()) {
          r.Violation("wrong-task-name", logger->GetCurrentTaskName() + ";" + trace);
          bad = true;
        }
      }
      if (bad) break;
      logger.reset();
      stored = true;
      trace += " end";
      check("end of the run");
      if (bad) break;
      earlier.push_back(store.opstats(store.opstats_size() - 1));
      r.Count("runs");
    }
    r.Distinct(trace);
    if (r.WantsSample()) r.Sample(Format("%d runs:%s", runs, trace.c_str()));
  }
}

void LoggerThreads(Report& r) {
  for (int64_t i = 0; i < r.N(1500, 30000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x09517 + i);
    r.Case(i);
    verif::Perturb(rng);
    Flags flags;
    flags.phase_stats = rng.Chance(0.5);
    OpStatsSequence store;
    bool fail = false;
    Logs logs;
    int threads = rng.Range(2, 4), each = rng.Range(3, 20);
    {
      OpStatsLoggerImpl logger(std::make_unique<MemoryDb>(&store, &fail), &logs, &flags, "s", "p");
      if (flags.phase_stats) logger.StartLoggingForPhase(Phase::COMPUTATION);
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t) {
        ts.emplace_back([&, t] {
          for (int k = 0; k < each; ++k) {
            logger.AddEvent(static_cast<Kind>(t + 1));
            logger.UpdateDatasetStats("app:/x", 1, t + 1);
            if (k % 5 == t) (void)logger.CommitToStorage();
            if (k % 7 == 3) logger.SetMinSepPolicyIndex(t);
            if (k % 7 == 4) logger.RecordCollectionFirstAccessTime("app:/x", absl::FromUnixSeconds(t));
            if (t == 0 && k % 4 == 3) logger.StartLoggingForPhase(Phase::UPLOAD);
            if (k % 6 == 5) (void)logger.GetCurrentTaskName();
          }
        });
      }
      for (auto& t : ts) t.join();
    }
    r.Eval();
    r.Count("runs with threads");
    if (store.opstats_size() != 1) {
      r.Violation("wrong-number-of-runs", Format("%d instead of 1", store.opstats_size()));
      continue;
    }
    std::map<int, int> kinds;
    int64_t n = 0, b = 0;
    const Stats& s = store.opstats(0);
    for (auto& e : s.events()) ++kinds[e.event_type()];
    for (auto& [u, d] : s.dataset_stats()) n += d.num_examples_read(), b += d.num_bytes_read();
    for (auto& p : s.phase_stats()) {
      for (auto& e : p.events()) ++kinds[e.event_type()];
      for (auto& [u, d] : p.dataset_stats()) n += d.num_examples_read(), b += d.num_bytes_read();
    }
    bool ok = n == threads * each && b == each * threads * (threads + 1) / 2;
    for (int t = 0; t < threads; ++t) ok &= kinds[t + 1] == each;
    if (!ok) {
      r.Violation("record-wrong", Format("%d threads of %d events: %lld reads of %lld bytes",
                                         threads, each, (long long)n, (long long)b));
    }
    r.Distinct(Format("%d %d %d", threads, each, flags.phase_stats));
  }
  r.Count("schedule perturbations", verif::Points());
}

// ---- the database ----------------------------------------------------------------

// One run, with events at the given ages.
Stats MakeRun(Rng& rng, int64_t first_sec, int64_t last_sec, int n) {
  Stats s;
  s.set_session_name(Format("run%d", n));
  bool phases = rng.Chance(0.5);
  int events = rng.Range(1, 4);
  auto add = [&](Stats::Event* e, int k) {
    e->set_event_type(AnyKind(rng));
    int64_t at = events == 1 ? last_sec : first_sec + (last_sec - first_sec) * k / (events - 1);
    e->mutable_timestamp()->set_seconds(at);
    e->mutable_timestamp()->set_nanos(rng.Below(1000) * 1000000);
  };
  if (phases) {
    Phase* p = s.add_phase_stats();
    p->set_phase(AnyPhase(rng));
    for (int k = 0; k < events; ++k) {
      if (k && rng.Chance(0.3)) {
        p = s.add_phase_stats();
        p->set_phase(AnyPhase(rng));
      }
      add(p->add_events(), k);
    }
    if (rng.Chance(0.3)) s.add_phase_stats()->set_phase(Phase::UPLOAD);
  } else {
    for (int k = 0; k < events; ++k) add(s.add_events(), k);
  }
  s.set_error_message(std::string(rng.Below(rng.Chance(0.5) ? 20 : 200), 'e'));
  return s;
}

struct Known {
  Stats stats;
  int64_t last_sec;
};

void Db(Report& r) {
  std::string dir = r.scratch + "/d";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(1600, 60000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xD8 + i);
    const std::string base = dir + "/w";
    fs::remove_all(base);
    fs::create_directories(base);
    const int64_t ttl = rng.Chance(0.2) ? 30 * 86400 : rng.Range(1000, 100000);
    const int64_t max = rng.Chance(0.5) ? 1000000 : rng.Range(60, 1500);
    r.Case(i, Format("ttl %lld s, limit %lld bytes", (long long)ttl, (long long)max));
    Logs logs;
    std::unique_ptr<OpStatsDb> db;
    std::vector<Known> model;       // what is stored
    std::vector<int64_t> lost;      // last updates of what is no longer stored
    std::string trace;
    bool bad = false;
    auto complain = [&](const std::string& key, const std::string& s) {
      r.Violation(key, s + ";" + trace);
      bad = true;
    };
    auto open = [&] {
      auto d = PdsBackedOpStatsDb::Create(base, absl::Seconds(ttl), logs, max);
      if (!d.ok()) {
        complain("database-does-not-open", d.status().ToString());
        return;
      }
      db = std::move(*d);
    };
    auto compare = [&](const std::string& when) {
      auto got = db->Read();
      r.Eval();
      if (!got.ok()) return complain("read-fails", when + ": " + got.status().ToString());
      if (got->opstats_size() != static_cast<int>(model.size())) {
        return complain("wrong-number-of-runs",
                        Format("%s: %d stored, want %zu", when.c_str(), got->opstats_size(), model.size()));
      }
      for (size_t k = 0; k < model.size(); ++k) {
        if (!MessageDifferencer::Equals(got->opstats(k), model[k].stats)) {
          return complain("run-changed", Format("%s: entry %zu", when.c_str(), k));
        }
      }
      if (!got->has_earliest_trustworthy_time()) {
        return complain("no-trustworthy-time", when);
      }
      int64_t trust = got->earliest_trustworthy_time().seconds();
      for (int64_t l : lost) {
        if (l > trust + 2) {
          return complain("trustworthy-time-too-early",
                          Format("%s: claims to be complete since %lld, but a run updated at %lld is gone",
                                 when.c_str(), (long long)trust, (long long)l));
        }
      }
      if (trust > NowMicros() / 1000000 + 2) complain("trustworthy-time-in-the-future", when);
    };
    const int64_t now = NowMicros() / 1000000;
    // Runs come in the order of time; the clock is the real one, so they start
    // in the past.
    int64_t at = now - 2 * ttl - 1000;
    int runs = 0;
    open();
    int steps = rng.Range(3, 25);
    for (int k = 0; k < steps && !bad; ++k) {
      double d = rng.Unit();
      if (d < 0.65) {
        int add = rng.Chance(0.2) ? rng.Range(2, 6) : 1;
        std::vector<Known> fresh;
        for (int a = 0; a < add; ++a) {
          at += rng.Range(1, std::max<int64_t>(2, ttl / 6));
          int64_t last = at + rng.Range(0, 50);
          // Not where the age is a matter of moments.
          if (std::llabs(now - ttl - last) < 60) last = now - ttl + 120;
          if (last > now - 120) break;
          fresh.push_back({MakeRun(rng, at, last, runs++), last});
          at = last;
        }
        bool rewrite = rng.Chance(0.2);
        absl::Status s = db->Transform([&](OpStatsSequence& data) {
          for (auto& f : fresh) *data.add_opstats() = f.stats;
          if (rewrite && data.opstats_size() > 0) {
            data.mutable_opstats(data.opstats_size() - 1)->set_task_name("rewritten");
          }
        });
        trace += Format(" add %zu", fresh.size());
        if (!s.ok()) {
          complain("transform-fails", s.ToString());
          break;
        }
        // What the time to live takes goes before the change is made.
        std::vector<Known> after;
        for (auto& e : model) {
          if (e.last_sec < now - ttl) {
            lost.push_back(e.last_sec);
            r.Count("runs past their time");
          } else {
            after.push_back(e);
          }
        }
        for (auto& f : fresh) after.push_back(f);
        if (rewrite && !after.empty()) {
          after.back().stats.set_task_name("rewritten");
          r.Count("runs rewritten");
        }
        // What the size limit takes: from the front, and not more than needed.
        auto got = db->Read();
        r.Eval();
        if (!got.ok()) {
          complain("read-fails", got.status().ToString());
          break;
        }
        int dropped = static_cast<int>(after.size()) - got->opstats_size();
        auto size = [&](int from) {
          OpStatsSequence q;
          for (size_t x = from; x < after.size(); ++x) *q.add_opstats() = after[x].stats;
          *q.mutable_earliest_trustworthy_time() = got->earliest_trustworthy_time();
          return static_cast<int64_t>(q.ByteSizeLong());
        };
        if (dropped < 0) {
          complain("wrong-number-of-runs", Format("%d stored, want %zu", got->opstats_size(), after.size()));
          break;
        }
        if (got->opstats_size() > 0 && static_cast<int64_t>(got->ByteSizeLong()) > max + 16) {
          complain("database-over-limit",
                   Format("%zu bytes, limit %lld", got->ByteSizeLong(), (long long)max));
          break;
        }
        if (dropped > 0) {
          r.Count("runs dropped for room", dropped);
          if (size(dropped - 1) <= max - 8 * dropped - 16) {
            complain("more-dropped-than-needed",
                     Format("%d dropped although %lld bytes would have fitted %lld", dropped,
                            (long long)size(dropped - 1), (long long)max));
            break;
          }
          for (int x = 0; x < dropped; ++x) lost.push_back(after[x].last_sec);
          after.erase(after.begin(), after.begin() + dropped);
        }
        model = after;
        compare("change");
      } else if (d < 0.8) {
        db.reset();
        open();
        trace += " reopen";
        r.Count("opened again");
        if (!bad) compare("opening again");
      } else if (d < 0.9) {
        // Only one at a time, here and in another process.
        std::string spelled = rng.Pick(std::vector<std::string>{base, base + "/", base + "/.", dir + "/./w"});
        r.Eval();
        r.Count("second openers");
        if (rng.Chance(0.7)) {
          auto second = PdsBackedOpStatsDb::Create(spelled, absl::Seconds(ttl), logs, max);
          if (second.ok()) {
            complain("opened-twice", "within one process as " + spelled);
            break;
          }
        } else {
          pid_t pid = fork();
          if (pid == 0) {
            // The other process has files of its own open.
            Logs l;
            auto second = PdsBackedOpStatsDb::Create(spelled + "/../w", absl::Seconds(ttl), l, max);
            _exit(second.ok() ? 1 : 0);
          }
          int st = 0;
          waitpid(pid, &st, 0);
          if (!WIFEXITED(st)) Report::Broken("child");
          r.Count("second openers in another process");
          if (WEXITSTATUS(st) != 0) {
            complain("opened-twice", "in two processes");
            break;
          }
        }
        compare("second opener");
      } else if (d < 0.95) {
        auto other = PdsBackedOpStatsDb::Create(dir + "/other", absl::Seconds(ttl), logs, max);
        r.Eval();
        if (!other.ok()) complain("other-database-does-not-open", other.status().ToString());
        other = absl::InternalError("");
        fs::remove_all(dir + "/other");
      } else {
        // The file is damaged while closed.
        db.reset();
        fs::path file;
        for (auto& f : fs::recursive_directory_iterator(base)) {
          if (f.is_regular_file()) file = f.path();
        }
        if (file.empty()) Report::Broken("no database file");
        std::string content;
        {
          std::ifstream in(file, std::ios::binary);
          content.assign(std::istreambuf_iterator<char>(in), {});
        }
        if (rng.Chance(0.5)) {
          content.resize(rng.Range(1, content.size() - 1));
        } else {
          content[rng.Below(content.size())] ^= 1 << rng.Below(8);
        }
        { std::ofstream(file, std::ios::binary | std::ios::trunc) << content; }
        trace += " damage";
        r.Count("damaged files");
        int64_t before = NowMicros();
        open();
        if (bad) break;
        for (auto& e : model) lost.push_back(e.last_sec);
        model.clear();
        if (rng.Chance(0.5)) {
          auto got = db->Read();
          r.Eval();
          if (got.ok()) {
            complain("damaged-data-read", "a damaged file was read as good");
            break;
          }
          compare("first look after damage");
          auto again = db->Read();
          if (!bad && (!again.ok() || Micros(again->earliest_trustworthy_time()) < before - 1000000)) {
            complain("trustworthy-time-too-early", "claims to be complete although all was lost");
          }
        } else {
          int64_t last = std::max(at + 1, now - ttl + 200);
          if (last > now - 120) break;
          Known f{MakeRun(rng, last, last, runs++), last};
          at = last;
          absl::Status s = db->Transform([&](OpStatsSequence& data) {
            if (data.opstats_size() != 0) {
              complain("damaged-data-read", "the change was made on damaged data");
            }
            *data.add_opstats() = f.stats;
          });
          if (bad) break;
          if (!s.ok()) {
            complain("transform-fails", "after damage: " + s.ToString());
            break;
          }
          model.push_back(f);
          if (static_cast<int64_t>(f.stats.ByteSizeLong()) + 40 > max) {
            // The limit may leave nothing of it.
            break;
          }
          compare("change after damage");
        }
      }
    }
    db.reset();
    r.Distinct(trace);
    if (r.WantsSample()) r.Sample(Format("ttl %lld, limit %lld:%s", (long long)ttl, (long long)max, trace.c_str()));
  }
}

void DbThreads(Report& r) {
  std::string dir = r.scratch + "/d";
  fs::create_directories(dir);
  verif::BecomeNobody(r, {r.scratch, dir});
  for (int64_t i = 0; i < r.N(1000, 20000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xD87 + i);
    r.Case(i);
    verif::Perturb(rng);
    fs::remove_all(dir + "/w");
    fs::create_directories(dir + "/w");
    Logs logs;
    int threads = rng.Range(2, 4);
    // First they all want to open it.
    std::vector<std::unique_ptr<OpStatsDb>> got(threads);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        ++ready;
        while (ready < threads) {
        }
        auto d = PdsBackedOpStatsDb::Create(dir + "/w", absl::Hours(24), logs, 1000000);
        if (d.ok()) got[t] = std::move(*d);
      });
    }
    for (auto& t : ts) t.join();
    ts.clear();
    int owners = 0;
    OpStatsDb* db = nullptr;
    for (auto& g : got) {
      if (g != nullptr) ++owners, db = g.get();
    }
    r.Eval();
    r.Count("races to open");
    if (owners != 1) {
      r.Violation("opened-twice", Format("%d of %d threads got the database", owners, threads));
      continue;
    }
    int each = rng.Range(3, 15);
    int64_t sec = NowMicros() / 1000000;
    std::atomic<int> torn{0};
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        for (int k = 0; k < each; ++k) {
          absl::Status s = db->Transform([&](OpStatsSequence& d) {
            if (d.opstats_size() == 0) {
              auto* o = d.add_opstats();
              auto* e = o->add_events();
              e->mutable_timestamp()->set_seconds(sec);
              o->set_chunking_layer_bytes_uploaded(0);
              o->set_chunking_layer_bytes_downloaded(0);
            }
            auto* o = d.mutable_opstats(0);
            o->set_chunking_layer_bytes_uploaded(o->chunking_layer_bytes_uploaded() + 1);
            o->set_chunking_layer_bytes_downloaded(o->chunking_layer_bytes_downloaded() + 1);
          });
          auto now = db->Read();
          if (!s.ok() || !now.ok() || now->opstats_size() != 1 ||
              now->opstats(0).chunking_layer_bytes_uploaded() !=
                  now->opstats(0).chunking_layer_bytes_downloaded()) {
            ++torn;
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    auto end = db->Read();
    r.Eval(threads * each);
    r.Count("changes by several threads", threads * each);
    if (torn != 0) r.Violation("run-changed", "a torn state was read");
    if (!end.ok() || end->opstats_size() != 1 ||
        end->opstats(0).chunking_layer_bytes_uploaded() != threads * each) {
      r.Violation("change-lost", Format("%d changes made, %lld found", threads * each,
                                        end.ok() && end->opstats_size() ? (long long)end->opstats(0).chunking_layer_bytes_uploaded() : -1ll));
    }
    got.clear();
    auto again = PdsBackedOpStatsDb::Create(dir + "/w", absl::Hours(24), logs, 1000000);
    if (!again.ok()) r.Violation("database-does-not-open", again.status().ToString());
    r.Distinct(Format("%d %d", threads, each));
  }
  r.Count("schedule perturbations", verif::Points());
}

// ---- looking things up ---------------------------------------------------------------

struct FixedLogger : public OpStatsLogger {
  OpStatsSequence seq;
  std::string task;
  MemoryDb db{&seq, &no};
  bool no = false;
  OpStatsDb* GetOpStatsDb() override { return &db; }
  std::string GetCurrentTaskName() override { return task; }
};

// What an example should say; "" if it does.
std::string ExampleDiffers(const std::string& bytes, const Stats& v, int64_t trust) {
  tensorflow::Example ex;
  if (!ex.ParseFromString(bytes)) return "not an example";
  auto& f = ex.features().feature();
  auto str = [&](const char* k) {
    auto it = f.find(k);
    return it == f.end() || it->second.bytes_list().value_size() != 1 ? std::string("(none)") : it->second.bytes_list().value(0);
  };
  auto num = [&](const char* k) -> int64_t {
    auto it = f.find(k);
    return it == f.end() || it->second.int64_list().value_size() != 1 ? -12345 : it->second.int64_list().value(0);
  };
  auto nums = [&](const char* k) {
    std::vector<int64_t> o;
    auto it = f.find(k);
    if (it != f.end()) o.assign(it->second.int64_list().value().begin(), it->second.int64_list().value().end());
    return o;
  };
  if (str("population_name") != v.population_name()) return "population";
  if (str("session_name") != v.session_name()) return "session";
  if (str("task_name") != v.task_name()) return "task";
  if (str("error_message") != v.error_message()) return "error message";
  if (num("chunking_layer_bytes_downloaded") != v.chunking_layer_bytes_downloaded()) return "downloaded";
  if (num("chunking_layer_bytes_uploaded") != v.chunking_layer_bytes_uploaded()) return "uploaded";
  if (num("network_duration") != TimeUtil::DurationToMilliseconds(v.network_duration())) return "network duration";
  if (num("retry_window-delay_min") != TimeUtil::DurationToMilliseconds(v.retry_window().delay_min())) return "least delay";
  if (num("retry_window-delay_max") != TimeUtil::DurationToMilliseconds(v.retry_window().delay_max())) return "most delay";
  if (num("earliest_trustworthy_time") != trust) return "trustworthy time";
  std::vector<int64_t> kinds, times;
  for (auto& e : v.events()) {
    kinds.push_back(e.event_type());
    times.push_back(TimeUtil::TimestampToMilliseconds(e.timestamp()));
  }
  if (nums("events-event_type") != kinds || nums("events-timestamp") != times) return "events";
  auto it = f.find("dataset_stats-uri");
  auto n = nums("dataset_stats-num_examples_read"), b = nums("dataset_stats-num_bytes_read");
  if (it == f.end() || it->second.bytes_list().value_size() != static_cast<int>(v.dataset_stats().size()) ||
      n.size() != v.dataset_stats().size() || b.size() != n.size()) {
    return "datasets";
  }
  for (size_t k = 0; k < n.size(); ++k) {
    auto d = v.dataset_stats().find(it->second.bytes_list().value(k));
    if (d == v.dataset_stats().end() || d->second.num_examples_read() != n[k] || d->second.num_bytes_read() != b[k]) {
      return "dataset " + it->second.bytes_list().value(k);
    }
  }
  return "";
}

void Query(Report& r) {
  for (int64_t i = 0; i < r.N(6000, 200000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x9E4 + i);
    Gen g{rng};
    FixedLogger logger;
    std::vector<Stats> views;
    int runs = rng.Chance(0.1) ? 0 : rng.Range(1, 8);
    for (int n = 0; n < runs; ++n) AddRun(g, n, &logger.seq, &views);
    *logger.seq.mutable_earliest_trustworthy_time() =
        TimeUtil::MillisecondsToTimestamp(1700000000000 - rng.Below(100000));
    int64_t trust = TimeUtil::TimestampToMilliseconds(logger.seq.earliest_trustworthy_time());
    r.Case(i, Format("%d runs, %zu tasks", runs, views.size()));
    auto fail = [&](const std::string& key, const std::string& s) {
      r.Violation(key, s + "; data: " + logger.seq.ShortDebugString().substr(0, 1500));
    };
    // The last contribution to a task.
    for (const std::string& task : {kNames[0], kNames[1], kNames[2], kNames[3], std::string("absent"), std::string("")}) {
      const Stats* want = nullptr;
      for (auto& v : views) {
        if (v.task_name() == task && Contributed(v)) want = &v;
      }
      r.Eval(4);
      auto got = GetLastSuccessfulContribution(logger.seq, task);
      if (got.has_value() != (want != nullptr) || (want && !MessageDifferencer::Equals(*got, *want))) {
        fail("wrong-last-contribution",
             Format("task '%s': %s, want %s", task.c_str(), got ? got->ShortDebugString().c_str() : "none",
                    want ? want->ShortDebugString().c_str() : "none"));
        continue;
      }
      r.Count(want ? "contributions found" : "no contribution");
      const Timestamp* when = nullptr;
      if (want) {
        for (auto& e : want->events()) {
          if (!when && e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED) when = &e.timestamp();
        }
      }
      auto t = GetLastSuccessfulContributionTime(logger.seq, task);
      if (t.has_value() != (when != nullptr) || (when && Micros(*t) != Micros(*when))) {
        fail("wrong-contribution-time", "task " + task);
      }
      auto m = GetPreviousCollectionFirstAccessTimeMap(logger.seq, task);
      bool same = m.has_value() == (want != nullptr);
      if (want && same) {
        same = m->size() == want->dataset_stats().size();
        for (auto& [u, d] : want->dataset_stats()) {
          auto it = m->find(u);
          same = same && it != m->end() && Micros(it->second) == Micros(d.first_access_timestamp());
        }
      }
      if (!same) fail("wrong-first-access-times", "task " + task);
      auto idx = GetLastSuccessfulContributionMinSepPolicyIndex(logger.seq, task);
      bool has = want && want->has_min_sep_policy_index();
      if (idx.has_value() != has || (has && *idx != want->min_sep_policy_index())) {
        fail("wrong-policy-index",
             Format("task %s: %s, want %s", task.c_str(), idx ? std::to_string(*idx).c_str() : "none",
                    has ? std::to_string(want->min_sep_policy_index()).c_str() : "none"));
      }
      if (has) r.Count("policy indices found");
      // The same through the example store.
      logger.task = task;
      Logs logs;
      OpStatsExampleIteratorFactory factory(&logger, &logs);
      google::internal::federated::plan::ExampleSelector sel;
      sel.set_collection_uri(kOpStatsCollectionUri);
      OpStatsSelectionCriteria crit;
      crit.set_last_successful_contribution(true);
      if (rng.Chance(0.3)) *crit.mutable_start_time() = TimeUtil::MillisecondsToTimestamp(1);
      sel.mutable_criteria()->PackFrom(crit);
      auto it = factory.CreateExampleIterator(sel);
      if (!it.ok()) {
        fail("example-store-fails", it.status().ToString());
        continue;
      }
      auto ex = (*it)->Next();
      std::string d = ex.ok() ? ExampleDiffers(*ex, want ? *want : Stats(), trust) : ex.status().ToString();
      if (!d.empty()) fail("wrong-example", "last contribution: " + d);
      if ((*it)->Next().ok()) fail("wrong-example", "more than one last contribution");
      (*it)->Close();
    }
    for (const char* pattern : {"pop/.*", "pop/a", ".*b", "", "other|pop/ab", "x+"}) {
      RE2 re(pattern);
      const Timestamp* when = nullptr;
      for (auto& v : views) {
        if (!RE2::FullMatch(v.task_name(), re) || !Contributed(v)) continue;
        when = nullptr;
        for (auto& e : v.events()) {
          if (!when && e.event_type() == Stats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED) when = &e.timestamp();
        }
      }
      auto t = GetLastSuccessfulContributionTimeForPattern(logger.seq, re);
      r.Eval();
      if (t.has_value() != (when != nullptr) || (when && Micros(*t) != Micros(*when))) {
        fail("wrong-contribution-time", Format("pattern %s", pattern));
      }
    }
    // A span of time, as a list and as examples.
    for (int q = 0; q < 4; ++q) {
      std::vector<int64_t> edges;
      for (auto& v : views) {
        if (v.events_size()) edges.push_back(TimeUtil::TimestampToMilliseconds(v.events().rbegin()->timestamp()));
      }
      auto edge = [&]() -> std::optional<int64_t> {
        if (edges.empty() || rng.Chance(0.2)) return std::nullopt;
        return rng.Pick(edges) + (rng.Chance(0.6) ? 0 : rng.Range(-2, 2));
      };
      std::optional<int64_t> lo = edge(), hi = edge();
      if (lo && hi && *lo > *hi) std::swap(*lo, *hi);
      std::vector<const Stats*> want;
      for (auto v = views.rbegin(); v != views.rend(); ++v) {
        if (v->events_size() == 0) {
          if (!lo) want.push_back(&*v);
          continue;
        }
        int64_t at = TimeUtil::TimestampToMilliseconds(v->events().rbegin()->timestamp());
        if ((!lo || at >= *lo) && (!hi || at <= *hi)) want.push_back(&*v);
      }
      auto got = GetOperationalStatsForTimeRange(logger.seq, lo ? absl::FromUnixMillis(*lo) : absl::InfinitePast(),
                                                 hi ? absl::FromUnixMillis(*hi) : absl::InfiniteFuture());
      r.Eval(2);
      r.Count("runs selected by time", got.size());
      bool same = got.size() == want.size();
      for (size_t k = 0; same && k < got.size(); ++k) same = MessageDifferencer::Equals(got[k], *want[k]);
      if (!same) {
        fail("wrong-time-range", Format("%zu entries, want %zu", got.size(), want.size()));
        continue;
      }
      Logs logs;
      OpStatsExampleIteratorFactory factory(&logger, &logs);
      google::internal::federated::plan::ExampleSelector sel;
      sel.set_collection_uri(kOpStatsCollectionUri);
      if (lo || hi || rng.Chance(0.5)) {
        OpStatsSelectionCriteria crit;
        if (lo) *crit.mutable_start_time() = TimeUtil::MillisecondsToTimestamp(*lo);
        if (hi) *crit.mutable_end_time() = TimeUtil::MillisecondsToTimestamp(*hi);
        sel.mutable_criteria()->PackFrom(crit);
      }
      auto it = factory.CreateExampleIterator(sel);
      if (!it.ok()) {
        fail("example-store-fails", it.status().ToString());
        continue;
      }
      Stats nothing;
      if (want.empty()) want.push_back(&nothing);
      for (size_t k = 0; k < want.size(); ++k) {
        auto ex = (*it)->Next();
        r.Eval();
        std::string d = ex.ok() ? ExampleDiffers(*ex, *want[k], trust) : ex.status().ToString();
        if (!d.empty()) {
          fail("wrong-example", Format("number %zu: %s", k, d.c_str()));
          break;
        }
        r.Count("examples compared");
      }
      auto after = (*it)->Next();
      if (after.ok() || after.status().code() != absl::StatusCode::kOutOfRange) fail("wrong-example", "no end");
      (*it)->Close();
    }
    // What it must refuse.
    {
      Logs logs;
      OpStatsExampleIteratorFactory factory(&logger, &logs);
      google::internal::federated::plan::ExampleSelector sel;
      sel.set_collection_uri("app:/other");
      r.Eval();
      if (factory.CanHandle(sel) || factory.CreateExampleIterator(sel).ok()) fail("foreign-collection-served", "");
      sel.set_collection_uri(kOpStatsCollectionUri);
      if (!factory.CanHandle(sel)) fail("collection-not-served", "");
      OpStatsSelectionCriteria crit;
      *crit.mutable_start_time() = TimeUtil::MillisecondsToTimestamp(2000);
      *crit.mutable_end_time() = TimeUtil::MillisecondsToTimestamp(1999);
      sel.mutable_criteria()->PackFrom(crit);
      if (factory.CreateExampleIterator(sel).ok()) fail("impossible-span-served", "");
    }
    r.Distinct(logger.seq.SerializeAsString());
    if (r.WantsSample()) r.Sample(Format("%d runs with %zu tasks", runs, views.size()));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  if (r.mode == "logger") Logger(r);
  else if (r.mode == "logger-threads") LoggerThreads(r);
  else if (r.mode == "db") Db(r);
  else if (r.mode == "db-threads") DbThreads(r);
  else if (r.mode == "query") Query(r);
  else Report::Broken("mode?");
  return r.Finish();
}
