// How a computation gets at its data: slices fetched from the server, datasets
// read by several threads at once, and the registry that leads to them.
#include <sys/resource.h>

#include <algorithm>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/example_iterator_query_recorder.h"
#include "fcp/client/federated_select.h"
#include "fcp/client/files.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/tensorflow/external_dataset.h"
#include "fcp/tensorflow/host_object.h"
#include "http_fake.h"
#include "opstats_model.h"
#include "perturb.h"

namespace {
using fcp::client::ExampleIterator;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;

std::string ReadAll(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
int FilesIn(const std::string& dir) {
  int n = 0;
  for (auto& e : fs::directory_iterator(dir)) n += e.exists();
  return n;
}
std::string Replaced(std::string s, const std::string& what, const std::string& with) {
  std::string out;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, what.size(), what) == 0) {
      out += with;
      i += what.size();
    } else {
      out += s[i++];
    }
  }
  return out;
}

class Scratch : public fcp::client::Files {
 public:
  std::string dir;
  bool fails = false;
  std::atomic<int> n{0};
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string& suffix) override {
    if (fails) return absl::UnavailableError("no space left");
    std::string path = Format("%s/%s%d%s", dir.c_str(), prefix.c_str(), ++n, suffix.c_str());
    std::ofstream(path).close();
    return path;
  }
};

// ---- slices -------------------------------------------------------------------------

void Slices(Report& r) {
  std::string base = verif::FreshDir(r, "slices");
  verif::BecomeNobody(r, {base});
  struct rlimit unlimited;
  getrlimit(RLIMIT_FSIZE, &unlimited);
  signal(SIGXFSZ, SIG_IGN);
  for (int64_t i = 0; i < r.N(4000, 40000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x511 + i);
    r.Case(i);
    r.Eval();
    Logs logs;
    Scratch files;
    files.dir = Format("%s/%lld", base.c_str(), (long long)i);
    fs::create_directory(files.dir);
    verif::Client client;
    client.seed = rng.U64();
    client.threads = rng.Chance(0.3);
    static const std::vector<std::string> kTemplates = {
        "https://slices/{served_at_id}/{key_base10}", "https://slices/{key_base10}?at={served_at_id}&again={key_base10}",
        "https://slices/{served_at_id}/{served_at_id}/{key_base10}.bin", "https://slices/x{key_base10}"};
    std::string uri_template = rng.Pick(kTemplates);
    bool no_template = rng.Chance(0.03), no_file = rng.Chance(0.03), odd_criteria = rng.Chance(0.03);
    double broken = rng.Chance(0.2) ? 0.3 : 0;
    bool whole = rng.Chance(0.02);
    if (whole) client.result = absl::InternalError("scripted");
    if (no_template) uri_template = "";
    files.fails = no_file;

    // What the server has.
    std::map<std::string, verif::Script> served;
    struct Query {
      std::string at;
      std::vector<int> keys;
      std::vector<std::string> slices;
      bool fails = false;
    };
    std::vector<Query> queries(1 + rng.Below(3));
    static const std::vector<int> kSizes = {0, 1, 100, 4999, 5000, 5001, 8191, 8192, 20000};
    std::multiset<std::string> due;
    int64_t sent = 0, received = 0;
    bool refused = no_template || no_file || odd_criteria;
    for (size_t q = 0; q < queries.size(); ++q) {
      queries[q].at = Format("place%d-%zu", (int)rng.Below(3), q);
      int keys = rng.Below(6);
      for (int k = 0; k < keys; ++k) {
        int key = rng.Chance(0.1) ? rng.Range(-2147483647, 2147483647) : rng.Below(12);
        queries[q].keys.push_back(key);
        std::string uri = Replaced(Replaced(uri_template, "{served_at_id}", queries[q].at), "{key_base10}", std::to_string(key));
        auto [it, fresh] = served.try_emplace(uri);
        verif::Script& s = it->second;
        if (fresh) {
          s.body = rng.Bytes(rng.Pick(kSizes));
          s.chunks = {static_cast<int>(rng.Range(1, 6000))};
          s.sent = rng.Below(1000);
          s.received = rng.Below(100000);
          if (rng.Chance(broken)) {
            int how = rng.Below(4);
            if (how == 0) s.code = rng.Pick(std::vector<int>{404, 503, 500, 403});
            if (how == 1) s.end = verif::Script::kErrorBefore, s.error = absl::UnavailableError("scripted");
            if (how >= 2) s.end = verif::Script::kErrorInBody, s.error = absl::UnavailableError("scripted"), s.cut = s.body.size() / 2;
          }
        }
        if (s.code != 200 || s.end != verif::Script::kComplete) queries[q].fails = true;
        queries[q].slices.push_back(s.body);
        if (!refused) {
          due.insert(uri);
          sent += s.sent;
          received += s.received;
        }
      }
      if (whole && keys > 0) queries[q].fails = true;
    }
    client.script = [&](const fcp::client::http::HttpRequest& request) {
      auto it = served.find(std::string(request.uri()));
      return it == served.end() ? verif::Script{.code = 404} : it->second;
    };
    fcp::client::HttpFederatedSelectManager manager(&logs, &files, &client, [] { return false; }, verif::Timing());
    auto factory = manager.CreateExampleIteratorFactoryForUriTemplate(uri_template);
    auto selector = [&](const Query& q) {
      ExampleSelector s;
      s.set_collection_uri(fcp::client::kFederatedSelectCollectionUri);
      SlicesSelector slices;
      slices.set_served_at_id(q.at);
      for (int k : q.keys) slices.add_keys(k);
      s.mutable_criteria()->PackFrom(slices);
      if (odd_criteria) s.mutable_criteria()->set_type_url("type.googleapis.com/other");
      return s;
    };
    ExampleSelector other;
    other.set_collection_uri(rng.Pick(std::vector<std::string>{"app:/x", "internal:/federated_select/", "", "internal:/federated"}));
    if (!factory->CanHandle(selector(queries[0])) || factory->CanHandle(other) || factory->ShouldCollectStats()) {
      r.Violation("wrong-queries-taken", "takes other queries than those for slices, or counts them");
    }
    // Several queries at once.
    std::vector<std::unique_ptr<ExampleIterator>> open(queries.size());
    std::vector<absl::Status> opened(queries.size());
    auto start = [&](size_t q) {
      auto it = factory->CreateExampleIterator(selector(queries[q]));
      opened[q] = it.status();
      if (it.ok()) open[q] = std::move(*it);
    };
    if (client.threads) {
      std::vector<std::thread> all;
      for (size_t q = 0; q < queries.size(); ++q) all.emplace_back(start, q);
      for (auto& t : all) t.join();
    } else {
      for (size_t q = 0; q < queries.size(); ++q) start(q);
    }
    int good = 0;
    for (size_t q = 0; q < queries.size(); ++q) {
      bool want = !refused && !queries[q].fails;
      good += want;
      if (whole && queries[q].keys.empty()) continue;
      if (opened[q].ok() != want) {
        r.Violation(want ? "fetch-refused" : "failed-fetch-taken",
                    Format("%zu keys: ", queries[q].keys.size()) + opened[q].ToString());
      }
    }
    r.Count("queries", queries.size());
    r.Count("queries served", good);
    std::multiset<std::string> asked;
    bool get = true;
    for (auto& s : client.seen) asked.insert(s.uri), get &= s.method == verif::Method::kGet && s.body.empty();
    if (asked != due || !get) {
      r.Violation("wrong-requests", Format("%zu requests for %zu; template %s", asked.size(), due.size(), uri_template.c_str()));
    }
    auto traffic = manager.GetNetworkStats();
    if (whole) {
      sent = traffic.bytes_uploaded;
      received = traffic.bytes_downloaded;
    }
    if (traffic.bytes_uploaded != sent || traffic.bytes_downloaded != received || traffic.network_duration < absl::ZeroDuration()) {
      r.Violation("wrong-traffic", Format("%lld/%lld bytes for %lld/%lld", (long long)traffic.bytes_uploaded,
                                          (long long)traffic.bytes_downloaded, (long long)sent, (long long)received));
    }
    // Files of failed queries are gone.
    int now = FilesIn(files.dir), live = std::count_if(open.begin(), open.end(), [](auto& o) { return o != nullptr; });
    if (now > live) r.Violation("file-left", Format("%d files for %d open queries", now, live));
    // Reading, the queries interleaved.
    std::vector<size_t> at(queries.size(), 0);
    std::vector<bool> stopped(queries.size(), false);
    std::set<std::string> names;
    std::vector<bool> retried(queries.size());
    for (int step = 0; step < 40; ++step) {
      size_t q = rng.Below(queries.size());
      if (open[q] == nullptr) continue;
      double what = rng.Unit();
      if (what < 0.03) {
        open[q]->Close();
        stopped[q] = true;
        continue;
      }
      if (what < 0.06) {
        open[q] = nullptr;
        continue;
      }
      bool full = rng.Chance(0.15);
      if (full) {
        struct rlimit l = unlimited;
        l.rlim_cur = 5000;
        setrlimit(RLIMIT_FSIZE, &l);
      }
      auto x = open[q]->Next();
      setrlimit(RLIMIT_FSIZE, &unlimited);
      bool more = !stopped[q] && at[q] < queries[q].slices.size();
      if (!more) {
        r.Count("ends");
        if (x.status().code() != absl::StatusCode::kOutOfRange) {
          r.Violation("no-end", "after the last slice: " + x.status().ToString());
        }
        stopped[q] = true;
        continue;
      }
      const std::string& slice = queries[q].slices[at[q]];
      if (full && slice.size() > 5000) {
        r.Count("full disks");
        if (x.ok()) r.Violation("cut-slice", Format("%zu bytes of %zu handed out", ReadAll(*x).size(), slice.size()));
        // Whoever asks again must not be given what comes after it.
        retried[q] = true;
        if (rng.Chance(0.5)) open[q] = nullptr;
        continue;
      }
      if (retried[q] && !x.ok() && x.status().code() != absl::StatusCode::kOutOfRange) {
        open[q] = nullptr;
        continue;
      }
      if (retried[q]) r.Count("slices asked for again");
      retried[q] = false;
      if (!x.ok()) {
        r.Violation("slice-refused", x.status().ToString());
        open[q] = nullptr;
        continue;
      }
      ++at[q];
      r.Count("slices");
      std::string got = ReadAll(*x);
      if (got != slice) {
        r.Violation("wrong-slice", Format("query %zu of %zu, slice %zu: %zu bytes of %zu", q, queries.size(), at[q], got.size(), slice.size()));
      }
      if (fs::path(*x).parent_path() != files.dir) r.Violation("file-elsewhere", *x);
      r.Distinct(Format("%zu %zu %d", queries.size(), at[q], full));
    }
    // What has ended or gone needs no file.
    int allowed = 0;
    for (size_t q = 0; q < queries.size(); ++q) allowed += open[q] != nullptr && !stopped[q];
    now = FilesIn(files.dir);
    if (now > allowed) r.Violation("file-left", Format("%d files for %d unfinished queries", now, allowed));
    open.clear();
    now = FilesIn(files.dir);
    if (now > 0) r.Violation("file-left", Format("%d files left behind", now));
    if (client.live != 0) r.Violation("request-left", "requests outlive the queries");
    std::error_code ec;
    fs::remove_all(files.dir, ec);
  }
}

// ---- datasets -----------------------------------------------------------------------

struct Collection {
  std::string uri;
  int count = 0;
  bool stats = true;
  int empty_at = -1;  // an example of no bytes
  absl::Status fails;  // how the data ends, if not well
  std::string Example(int x) const { return x == empty_at ? "" : Format("%s#%d", uri.c_str(), x); }
  std::atomic<int> handed{0}, closed{0}, after{0}, inside{0}, overlap{0};
};
// Not safe for use by several threads at once, as applications' iterators.
class Lone : public ExampleIterator {
 public:
  explicit Lone(Collection* c) : c_(c) {}
  absl::StatusOr<std::string> Next() override {
    if (++c_->inside > 1) ++c_->overlap;
    absl::StatusOr<std::string> x = absl::OutOfRangeError("no more");
    if (closed_) ++c_->after;
    if (at_ < c_->count) {
      x = c_->Example(at_);
      ++at_;
      ++c_->handed;
    } else if (!c_->fails.ok()) {
      x = c_->fails;
    }
    --c_->inside;
    return x;
  }
  void Close() override {
    closed_ = true;
    ++c_->closed;
  }

 private:
  Collection* c_;
  int at_ = 0;
  bool closed_ = false;
};
class Factory : public fcp::client::engine::ExampleIteratorFactory {
 public:
  std::vector<std::unique_ptr<Collection>>* all;
  bool stats;
  bool CanHandle(const ExampleSelector& s) override { return Find(s) != nullptr; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    return std::make_unique<Lone>(Find(s));
  }
  bool ShouldCollectStats() override { return stats; }

 private:
  Collection* Find(const ExampleSelector& s) {
    for (auto& c : *all) {
      if (c->uri == s.collection_uri() && c->stats == stats) return c.get();
    }
    return nullptr;
  }
};

void Datasets(Report& r) {
  for (int64_t i = 0; i < r.N(2400, 24000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0xDA7A + i);
    r.Case(i);
    r.Eval();
    verif::Perturb(rng);
    Logs logs;
    ::Flags flags;
    flags.phase_stats = rng.Chance(0.5);
    OpStatsSequence history;
    bool fail = false;
    std::vector<std::unique_ptr<Collection>> all;
    int n = 1 + rng.Below(4);
    for (int k = 0; k < n; ++k) {
      all.push_back(std::make_unique<Collection>());
      all.back()->uri = Format("app:/%d", k);
      all.back()->count = rng.Below(40);
      all.back()->stats = rng.Chance(0.75);
      if (rng.Chance(0.3)) all.back()->empty_at = rng.Below(40);
      if (rng.Chance(0.15)) {
        all.back()->fails = absl::Status(rng.Pick(std::vector<absl::StatusCode>{absl::StatusCode::kInternal, absl::StatusCode::kUnavailable,
                                                                                absl::StatusCode::kCancelled, absl::StatusCode::kNotFound}),
                                         Format("no data of %d", k));
      }
    }
    Factory counted, uncounted;
    counted.all = uncounted.all = &all;
    counted.stats = true;
    uncounted.stats = false;
    fcp::client::SelectorContext context;
    context.mutable_computation_properties()->set_session_name("session");
    fcp::client::ExampleIteratorQueryRecorderImpl recorder(context);
    fcp::client::engine::ExampleIteratorStatus status;
    std::atomic<int> total{0};
    std::atomic<int64_t> bytes{0};
    absl::flat_hash_map<std::string, std::string> inputs;
    std::mutex m;
    std::vector<std::string> got;
    int64_t want_total = 0, want_bytes = 0;
    {
      OpStatsLoggerImpl logger(std::make_unique<MemoryDb>(&history, &fail), &logs, &flags, "session", "population");
      auto registration = fcp::client::engine::AddDatasetTokenToInputsForTfLite(
          {&counted, &uncounted}, &logger, &recorder, &inputs, "token", &total, &bytes, &status);
      std::string token = inputs["token"];
      if (inputs.size() != 1 || token.size() != 16) r.Violation("no-token", Format("token of %zu bytes", token.size()));
      // Every thread looks the data up by itself; one collection is read by several of them.
      auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token));
      if (!provider.has_value()) {
        r.Violation("no-data", "the token leads nowhere");
        continue;
      }
      std::vector<std::shared_ptr<fcp::ExternalDatasetIterator>> iterators(n);
      std::vector<std::thread> threads;
      std::atomic<int> wrong_end{0};
      auto read = [&](int k, int limit) {
        std::vector<std::string> mine;
        for (int x = 0; x < limit; ++x) {
          auto e = iterators[k]->GetNext();
          if (!e.ok()) {
            if (e.status() != all[k]->fails && (!all[k]->fails.ok() || e.status().code() != absl::StatusCode::kOutOfRange)) ++wrong_end;
            continue;
          }
          mine.push_back(*e);
        }
        std::lock_guard<std::mutex> l(m);
        got.insert(got.end(), mine.begin(), mine.end());
      };
      std::vector<std::thread> makers;
      for (int k = 0; k < n; ++k) {
        makers.emplace_back([&, k] {
          auto p = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token));
          ExampleSelector s;
          s.set_collection_uri(all[k]->uri);
          auto dataset = (*p)->MakeDataset(s.SerializeAsString());
          if (dataset.ok()) iterators[k] = (*dataset)->MakeIterator();
        });
      }
      for (auto& t : makers) t.join();
      bool made = true;
      for (auto& it : iterators) made &= it != nullptr;
      if (!made) {
        r.Violation("no-iterator", "a dataset cannot be made");
        continue;
      }
      for (int k = 0; k < n; ++k) {
        int readers = 1 + rng.Below(3);
        for (int t = 0; t < readers; ++t) threads.emplace_back(read, k, all[k]->count + 2);
      }
      for (auto& t : threads) t.join();
      if (wrong_end.load() != 0) r.Violation("wrong-end", "a dataset does not end as its data does");
      // A failure stays known whatever ends well afterwards; ends are none.
      absl::Status known = status.GetStatus();
      bool failed = false, one_of = false;
      for (auto& c : all) {
        failed |= !c->fails.ok();
        one_of |= known == c->fails;
      }
      if (failed) r.Count("failing data");
      if (failed ? known.ok() || !one_of : !known.ok()) r.Violation("wrong-data-status", known.ToString());
      iterators.clear();
      std::vector<std::string> want;
      for (auto& c : all) {
        for (int x = 0; x < c->count; ++x) {
          want.push_back(c->Example(x));
          if (c->stats) ++want_total, want_bytes += want.back().size();
        }
        r.Count("examples", c->count);
        if (c->overlap.load() != 0) r.Violation("iterator-shared", "an application's iterator is used by two threads at once");
        if (c->after.load() != 0) r.Violation("read-after-close", "an application's iterator is read after being closed");
        if (c->closed.load() > 1) r.Violation("closed-twice", "an application's iterator is closed twice");
      }
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      if (got != want) r.Violation("wrong-examples", Format("%zu examples for %zu", got.size(), want.size()));
      if (total.load() != want_total || bytes.load() != want_bytes) {
        r.Violation("wrong-totals", Format("%d examples, %lld bytes counted for %lld, %lld", total.load(), (long long)bytes.load(),
                                           (long long)want_total, (long long)want_bytes));
      }
      auto queries = recorder.StopRecordingAndGetQueries();
      std::multiset<std::string> noted, should;
      for (auto& q : queries.query()) noted.insert(Format("%s %d", q.collection_uri().c_str(), q.example_count()));
      for (auto& c : all) should.insert(Format("%s %d", c->uri.c_str(), c->count));
      if (noted != should) r.Violation("wrong-record", Format("%zu queries recorded for %zu", noted.size(), should.size()));
      if (!MessageDifferencer::Equals(queries.selector_context(), context)) r.Violation("wrong-record-context", "");
      if (recorder.StopRecordingAndGetQueries().query_size() != 0) r.Violation("record-repeated", "queries are recorded twice");
      auto held = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token));
      { auto gone = std::move(registration); }
      if (fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token)).has_value()) {
        r.Violation("reachable-after-end", "data can still be reached after its registration ended");
      }
    }
    // The run history counts what was read.
    if (history.opstats_size() == 1) {
      const auto& o = history.opstats(0);
      auto size_of = [](const Collection& c) {
        int64_t n = 0;
        for (int x = 0; x < c.count; ++x) n += c.Example(x).size();
        return n;
      };
      for (auto& c : all) {
        auto d = o.dataset_stats().find(c->uri);
        bool there = d != o.dataset_stats().end();
        if (there != c->stats) {
          r.Violation("wrong-history", Format("%s %s in the history", c->uri.c_str(), there ? "wrongly" : "not"));
        } else if (there && (d->second.num_examples_read() != c->count ||
                             d->second.num_bytes_read() != size_of(*c))) {
          r.Violation("wrong-history", Format("%lld examples in the history for %d", (long long)d->second.num_examples_read(), c->count));
        }
      }
    } else {
      r.Violation("no-history", "nothing in the run history");
    }
    // A query noted by several threads at once.
    {
      fcp::client::ExampleIteratorQueryRecorderImpl notes(context);
      ExampleSelector s;
      s.set_collection_uri("app:/shared");
      auto* shared = notes.RecordQuery(s);
      int each = rng.Range(1, 50);
      std::vector<std::thread> threads;
      for (int t = 0; t < 3; ++t) {
        threads.emplace_back([&, t] {
          ExampleSelector own;
          own.set_collection_uri(Format("app:/own%d", t));
          auto* mine = notes.RecordQuery(own);
          for (int x = 0; x < each; ++x) {
            shared->Increment();
            if (x % (t + 1) == 0) mine->Increment();
          }
        });
      }
      for (auto& t : threads) t.join();
      std::map<std::string, int> noted;
      auto queries = notes.StopRecordingAndGetQueries();
      for (auto& q : queries.query()) noted[q.collection_uri()] += q.example_count();
      bool right = queries.query_size() == 4 && noted["app:/shared"] == 3 * each;
      for (int t = 0; t < 3; ++t) right &= noted[Format("app:/own%d", t)] == (each + t) / (t + 1);
      if (!right) r.Violation("wrong-record", Format("%d of %d examples noted by several threads", noted["app:/shared"], 3 * each));
    }
    r.Distinct(Format("%d %zu", n, got.size()));
  }
}

// ---- the registry -------------------------------------------------------------------

struct Thing {
  int number;
  std::atomic<int>* alive;
  Thing(int n, std::atomic<int>* a) : number(n), alive(a) { ++*a; }
  ~Thing() { --*alive; }
};
struct Other {
  int x = 0;
};

void Registry(Report& r) {
  for (int64_t i = 0; i < r.N(1200, 12000); ++i) {
    if (!r.Mine(i)) continue;
    Rng rng(r.seed, 0x4E61 + i);
    r.Case(i);
    r.Eval();
    verif::Perturb(rng);
    std::atomic<int> alive{0};
    std::mutex m;
    // Tokens others may look up; ended ones are marked before the registration ends.
    struct Slot {
      fcp::RandomToken token = fcp::RandomToken::Generate();
      int number = -1;
      std::atomic<int> state{0};  // 1 registered, 2 ended
    };
    std::vector<std::shared_ptr<Slot>> slots;
    std::set<std::string> tokens;
    std::atomic<int> looked{0};
    auto work = [&](uint64_t seed) {
      Rng rr(seed, 1);
      std::vector<std::pair<fcp::HostObjectRegistration, std::shared_ptr<Slot>>> mine;
      for (int step = 0; step < 40; ++step) {
        int what = rr.Below(4);
        if (what == 0 || mine.empty()) {
          int number = rr.Below(1000000);
          auto registration = fcp::HostObjectRegistry<Thing>::Register(std::make_shared<Thing>(number, &alive));
          auto s = std::make_shared<Slot>();
          s->token = registration.token();
          s->number = number;
          s->state = 1;
          {
            std::lock_guard<std::mutex> l(m);
            if (!tokens.insert(s->token.ToString()).second) r.Violation("token-repeated", "a token is given out twice");
            slots.push_back(s);
          }
          mine.emplace_back(std::move(registration), s);
        } else if (what == 1) {
          size_t k = rr.Below(mine.size());
          auto s = mine[k].second;
          std::swap(mine[k], mine.back());
          s->state = 2;
          {
            // Moving a registration keeps it.
            auto last = std::move(mine.back().first);
            mine.pop_back();
            auto x = fcp::HostObjectRegistry<Thing>::TryLookup(s->token);
            if (!x.has_value() || (*x)->number != s->number) r.Violation("moved-lost", "a registration is lost by moving it");
          }
          if (fcp::HostObjectRegistry<Thing>::TryLookup(s->token).has_value()) {
            r.Violation("found-after-end", "an object is found after its registration ended");
          }
        } else {
          std::shared_ptr<Slot> s;
          {
            std::lock_guard<std::mutex> l(m);
            if (!slots.empty()) s = slots[rr.Below(slots.size())];
          }
          if (s == nullptr) continue;
          auto x = fcp::HostObjectRegistry<Thing>::TryLookup(fcp::RandomToken::FromBytes(s->token.ToString()));
          ++looked;
          if (x.has_value() && ((*x) == nullptr || (*x)->number != s->number)) {
            r.Violation("wrong-object", "a token leads to another object");
          }
          if (!x.has_value() && s->state == 1) r.Violation("object-lost", "a registered object is not found");
          if (fcp::HostObjectRegistry<Other>::TryLookup(s->token).has_value()) {
            r.Violation("wrong-kind", "a token leads to an object of another kind");
          }
        }
      }
      for (auto& [reg, s] : mine) s->state = 2;
    };
    std::vector<std::thread> threads;
    int n = 2 + rng.Below(3);
    for (int t = 0; t < n; ++t) threads.emplace_back(work, rng.U64());
    for (auto& t : threads) t.join();
    for (auto& s : slots) {
      if (fcp::HostObjectRegistry<Thing>::TryLookup(s->token).has_value()) {
        r.Violation("found-after-end", "an object is found after its registration ended");
      }
    }
    if (alive.load() != 0) r.Violation("object-kept", Format("%d objects outlive their registrations", alive.load()));
    r.Count("lookups", looked.load());
    r.Count("registrations", slots.size());
    r.Distinct(Format("%zu", slots.size()));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report report(argc, argv);
  if (report.mode == "slices") {
    Slices(report);
  } else if (report.mode == "datasets") {
    Datasets(report);
  } else if (report.mode == "registry") {
    Registry(report);
  } else {
    Report::Broken("unknown mode");
  }
  return report.Finish();
}
