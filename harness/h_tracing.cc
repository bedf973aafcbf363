// Tracing: spans, events and recorders on several threads. Everything traced
// carries a number of its own, so that the logs can be compared with what was
// traced, line by line.
#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <streambuf>
#include <thread>
#include <type_traits>

#include "absl/time/time.h"
#include "common.h"
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/test/tracing_schema.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_span.h"

namespace {
using fcp::TracingSpanRef;
using verif::Format;
using verif::Report;
using verif::Rng;

#if defined(VERIF_SHIM_SYNC_H_)
void Perturbation(Rng& rng) {
  verif_sched::seed().store(rng.U64() | 1);
  static const uint32_t kRates[] = {0, 2, 3, 5, 9, 20};
  verif_sched::rate().store(kRates[rng.Below(6)]);
}
int64_t Points() { return static_cast<int64_t>(verif_sched::points().load()); }
#else
void Perturbation(Rng&) {}
int64_t Points() { return 1; }
#endif

// Takes the place of standard error, where the recorder of last resort writes.
class Catch : public std::streambuf {
 public:
  std::string Take() {
    std::lock_guard<std::mutex> l(mu_);
    return std::move(text_);
  }

 protected:
  int overflow(int c) override {
    std::lock_guard<std::mutex> l(mu_);
    if (c != EOF) text_ += static_cast<char>(c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::lock_guard<std::mutex> l(mu_);
    text_.append(s, n);
    return n;
  }

 private:
  std::mutex mu_;
  std::string text_;
};
Catch* g_stderr = nullptr;

constexpr int kLastResort = -1;
constexpr int kEither = -2;

struct Traced {
  enum Kind { kEvent, kBegin, kEnd } kind;
  int64_t number;       // carried by the event or span
  int64_t id;           // of the span, or of the span the event belongs to
  std::string body;     // the line without the time
  int log = kEither;    // where it has to be, if known
  int64_t with = -1;    // number of the span whose log it has to be in, if any
};

struct Line {
  int log;
  size_t at;
};

struct SpanInfo {
  int64_t number = -1;
  int64_t id = 0;
};

struct World {
  Report* r = nullptr;
  std::atomic<int64_t> next{1};
  // References to spans, free for use by any thread.
  std::mutex mu;
  std::vector<std::pair<TracingSpanRef, SpanInfo>> refs;
  std::vector<std::vector<Traced>> done;  // per thread, in order
};

class Tracer {
 public:
  Tracer(World* w, int thread, Rng rng, int budget)
      : w_(w), log_(&w->done[thread]), rng_(rng), budget_(budget) {}

  // Where things go that are traced outside of any span.
  int home = kEither;

  void Play(int depth) {
    int ops = static_cast<int>(rng_.Range(1, 6));
    for (int k = 0; k < ops && budget_ > 0; ++k) {
      --budget_;
      switch (rng_.Below(9)) {
        case 0:
        case 1:
        case 2:
          EventOnTop();
          break;
        case 3:
          EventOnRef();
          break;
        case 4:
        case 5:
          if (depth < 6) Scoped(depth);
          break;
        case 6:
          Unscoped();
          break;
        case 7:
          if (!open_.empty()) CloseOne();
          break;
        default:
          std::this_thread::yield();
      }
    }
  }
  void CloseAll() {
    while (!open_.empty()) CloseOne();
  }
  bool busy() const { return budget_ > 0; }

 private:
  SpanInfo Top() const { return stack_.empty() ? SpanInfo() : stack_.back(); }
  void Note(Traced t, const SpanInfo& in) {
    if (in.number >= 0) t.with = in.number;
    else t.log = home;
    log_->push_back(std::move(t));
  }
  int32_t Value() { return static_cast<int32_t>(rng_.Range(1, 1000000)); }
  std::string Text() {
    std::string s(rng_.Range(1, rng_.Chance(0.1) ? 3000 : 30), 'a');
    for (auto& c : s) c = "abcdefghijklmnopqrstuvwxyz 0123456789:-"[rng_.Below(39)];
    return s;
  }
  void EventOnTop() {
    SpanInfo in = Top();
    int64_t u = w_->next.fetch_add(1);
    std::string body;
    switch (rng_.Below(3)) {
      case 0: {
        int32_t v = Value();
        fcp::Trace<EventFoo>(static_cast<int32_t>(u), v);
        body = Format("%lld: INFO EventFoo{ first: %lld, second: %d }", (long long)in.id, (long long)u, v);
        break;
      }
      case 1: {
        std::string s = Text();
        fcp::Trace<EventBar>(static_cast<int32_t>(u), s);
        body = Format("%lld: INFO EventBar{ first: %lld, second: \"%s\" }", (long long)in.id,
                      (long long)u, s.c_str());
        break;
      }
      default: {
        std::string s = "e" + std::to_string(u);
        auto e = fcp::TraceError<ErrorEvent>(s);
        (void)e;
        body = Format("%lld: ERROR ErrorEvent{ cause: \"%s\" }", (long long)in.id, s.c_str());
      }
    }
    Note({Traced::kEvent, u, in.id, body}, in);
  }
  bool AnyRef(TracingSpanRef* ref, SpanInfo* info) {
    std::lock_guard<std::mutex> l(w_->mu);
    if (w_->refs.empty()) return false;
    auto& p = w_->refs[rng_.Below(w_->refs.size())];
    *ref = p.first;
    *info = p.second;
    return true;
  }
  void Publish(const TracingSpanRef& ref, const SpanInfo& info) {
    std::lock_guard<std::mutex> l(w_->mu);
    if (w_->refs.size() < 12) w_->refs.push_back({ref, info});
    else w_->refs[rng_.Below(12)] = {ref, info};
  }
  void EventOnRef() {
    TracingSpanRef ref(nullptr, fcp::TracingSpanId(0));
    SpanInfo in;
    if (!AnyRef(&ref, &in)) return;
    int64_t u = w_->next.fetch_add(1);
    int32_t v = Value();
    fcp::Trace<EventFoo>(TracingSpanRef(ref), static_cast<int32_t>(u), v);
    Note({Traced::kEvent, u, in.id,
          Format("%lld: INFO EventFoo{ first: %lld, second: %d }", (long long)in.id, (long long)u, v)},
         in);
    w_->r->Count("events on spans of others");
  }
  template <typename Span>
  SpanInfo Begun(Span& span, int64_t u, const SpanInfo& parent) {
    SpanInfo me{u, span.Ref().span_id().value};
    Note({Traced::kBegin, u, me.id,
          Format("%lld: BEGIN SpanWithId { id: %lld } parent: %lld", (long long)me.id, (long long)u,
                 (long long)parent.id)},
         parent);
    if (rng_.Chance(0.5)) Publish(span.Ref(), me);
    return me;
  }
  void Ended(const SpanInfo& me) {
    Note({Traced::kEnd, me.number, me.id,
          Format("%lld: END SpanWithId { id: %lld }", (long long)me.id, (long long)me.number)},
         me);
  }
  void Inside(int depth, const SpanInfo& me) {
    stack_.push_back(me);
    if (TracingSpanRef::Top().span_id().value != me.id)
      w_->r->Violation("innermost-span", "the innermost span is not the last one opened");
    Play(depth + 1);
    stack_.pop_back();
  }
  void Scoped(int depth) {
    int64_t u = w_->next.fetch_add(1);
    SpanInfo me;
    TracingSpanRef ref(nullptr, fcp::TracingSpanId(0));
    SpanInfo parent;
    if (rng_.Chance(0.3) && AnyRef(&ref, &parent)) {
      fcp::TracingSpan<SpanWithId> span(TracingSpanRef(ref), static_cast<int32_t>(u));
      me = Begun(span, u, parent);
      Inside(depth, me);
      w_->r->Count("spans below spans of others");
    } else {
      parent = Top();
      fcp::TracingSpan<SpanWithId> span(static_cast<int32_t>(u));
      me = Begun(span, u, parent);
      Inside(depth, me);
    }
    Ended(me);
    int64_t top = stack_.empty() ? 0 : stack_.back().id;
    if (TracingSpanRef::Top().span_id().value != top)
      w_->r->Violation("innermost-span", "closing a span did not bring back the one before");
  }
  void Unscoped() {
    int64_t u = w_->next.fetch_add(1);
    TracingSpanRef ref(nullptr, fcp::TracingSpanId(0));
    SpanInfo parent;
    std::unique_ptr<fcp::UnscopedTracingSpan<SpanWithId>> span;
    if (rng_.Chance(0.5) && AnyRef(&ref, &parent)) {
      span = std::make_unique<fcp::UnscopedTracingSpan<SpanWithId>>(TracingSpanRef(ref),
                                                                     static_cast<int32_t>(u));
    } else {
      parent = Top();
      span = std::make_unique<fcp::UnscopedTracingSpan<SpanWithId>>(static_cast<int32_t>(u));
    }
    SpanInfo me = Begun(*span, u, parent);
    open_.push_back({std::move(span), me});
  }
  void CloseOne() {
    size_t k = rng_.Below(open_.size());
    SpanInfo me = open_[k].second;
    open_.erase(open_.begin() + k);
    Ended(me);
  }

  World* w_;
  std::vector<Traced>* log_;
  Rng rng_;
  int budget_;
  std::vector<SpanInfo> stack_;
  std::vector<std::pair<std::unique_ptr<fcp::UnscopedTracingSpan<SpanWithId>>, SpanInfo>> open_;
};

// Compares what is in the logs with what was traced.
void Judge(Report& r, World& w, const std::map<int, std::string>& logs, absl::Time t0, absl::Time t1) {
  std::map<std::string, Line> found;
  for (auto& [log, text] : logs) {
    std::istringstream is(text);
    std::string line;
    size_t at = 0;
    std::vector<std::string> bodies;
    while (std::getline(is, line)) {
      ++at;
      size_t sp = line.find(' ');
      absl::Time t;
      std::string err;
      if (sp == std::string::npos || !absl::ParseTime(absl::RFC3339_full, line.substr(0, sp), &t, &err)) {
        r.Violation("torn-line", Format("log %d line %zu: %s", log, at, line.substr(0, 300).c_str()));
        return;
      }
      if (t < t0 - absl::Seconds(1) || t > t1 + absl::Seconds(1)) {
        r.Violation("wrong-time", line.substr(0, 200));
      }
      std::string body = line.substr(sp + 1);
      bodies.push_back(body);
      if (body == "0: BEGIN" || body == "0: END") {
        if (log == kLastResort) continue;
        if (body == "0: BEGIN" && at != 1) r.Violation("root-begin", "not the first line");
        continue;
      }
      if (!found.insert({body, {log, at}}).second) {
        r.Violation("logged-twice", body.substr(0, 300));
        return;
      }
    }
    if (!text.empty() && text.back() != '\n') r.Violation("torn-line", "the log does not end with a line");
    if (log != kLastResort) {
      if (bodies.empty() || bodies.front() != "0: BEGIN") r.Violation("root-begin", Format("log %d", log));
      if (bodies.empty() || bodies.back() != "0: END")
        r.Violation("root-end", Format("log %d ends with %s", log, bodies.empty() ? "" : bodies.back().c_str()));
      if (std::count(bodies.begin(), bodies.end(), "0: END") != 1) r.Violation("root-end", "not once");
    }
  }
  std::map<int64_t, Line> begin, end;  // by number of the span
  std::set<int64_t> ids;
  int64_t lines = 0;
  for (auto& per_thread : w.done) {
    for (auto& t : per_thread) {
      ++lines;
      auto it = found.find(t.body);
      if (it == found.end()) {
        r.Violation(t.kind == Traced::kEvent ? "event-lost" : t.kind == Traced::kBegin ? "begin-lost" : "end-lost",
                    "not in any log: " + t.body.substr(0, 300));
        return;
      }
      if (t.kind == Traced::kBegin) {
        begin[t.number] = it->second;
        if (t.id == 0 || !ids.insert(t.id).second)
          r.Violation("span-id-used-twice", Format("%lld", (long long)t.id));
      }
      if (t.kind == Traced::kEnd) end[t.number] = it->second;
    }
  }
  if (static_cast<int64_t>(found.size()) != lines) {
    r.Violation("logged-but-not-traced", Format("%zu lines for %lld", found.size(), (long long)lines));
  }
  for (auto& per_thread : w.done) {
    std::map<int, size_t> last;
    for (auto& t : per_thread) {
      Line l = found[t.body];
      r.Eval();
      if (t.with < 0 && t.log != kEither && l.log != t.log) {
        r.Violation("wrong-recorder", Format("log %d instead of %d: %s", l.log, t.log, t.body.c_str()));
      }
      if (t.with >= 0) {
        if (begin[t.with].log != l.log) r.Violation("wrong-recorder", "not with its span: " + t.body);
        if (t.kind != Traced::kEnd && begin[t.with].at >= l.at) r.Violation("before-its-span", t.body);
      }
      if (last[l.log] >= l.at) r.Violation("out-of-order", t.body);
      last[l.log] = l.at;
    }
  }
  for (auto& [u, l] : begin) {
    if (!end.count(u)) r.Violation("end-lost", "");
    else if (end[u].log != l.log || end[u].at <= l.at) r.Violation("end-before-begin", "");
  }
}

// What was traced on each thread, by kind and nesting.
uint64_t Shape(const World& w) {
  uint64_t h = 7;
  for (auto& d : w.done) {
    h = verif::Mix(h + 1000);
    for (auto& t : d) h = verif::Mix(h + t.kind * 2 + (t.with >= 0));
  }
  return h;
}

std::string ReadLog(const std::string& path) {
  std::ifstream f(path);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}

void GlobalCase(Report& r, int64_t c, const std::string& dir) {
  Rng rng(r.seed, c);
  int threads = static_cast<int>(rng.Range(1, 4));
  int way = static_cast<int>(rng.Below(4));
  r.Case(c, Format("%d threads, take-down %d", threads, way));
  World w;
  w.r = &r;
  w.done.resize(threads);
  g_stderr->Take();
  std::string path = dir + "/g" + std::to_string(c);
  absl::Time t0 = absl::Now();
  // The end of the recorder of last resort is never seen; the others' is.
  auto recorder = std::make_unique<fcp::TextTracingRecorder>(path, absl::UTCTimeZone());
  recorder->InstallAsGlobal();
  Perturbation(rng);
  std::atomic<int> started{0};
  std::atomic<bool> gone{false};
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      Tracer tracer(&w, t, Rng(r.seed, verif::Mix(c) + t), 60);
      // While the recorder may go away, things outside of spans may still
      // reach it or not.
      tracer.home = way == 0 ? 0 : kEither;
      started.fetch_add(1);
      while (tracer.busy()) tracer.Play(0);
      tracer.CloseAll();
    });
  }
  if (way != 0) {
    while (started.load() < threads) std::this_thread::yield();
    if (rng.Chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(rng.Below(600)));
  }
  switch (way) {
    case 1:  // explicitly, then given up
      recorder->UninstallAsGlobal();
      recorder.reset();
      break;
    case 2:  // given up while in use
    case 3:
      recorder.reset();
      r.Count("recorders given up in use");
      break;
    default:
      break;
  }
  for (auto& t : ts) t.join();
  w.refs.clear();
  if (way == 0) {
    fcp::Trace<EventFoo>(0x7fffffff, 1);
    w.done.emplace_back();
    w.done.back().push_back({Traced::kEvent, -5, 0, "0: INFO EventFoo{ first: 2147483647, second: 1 }", 0, -1});
    recorder.reset();
  }
#if defined(VERIF_SHIM_SYNC_H_)
  verif_sched::rate().store(0);
#endif
  // With everything given up nothing is installed any more.
  fcp::Trace<EventFoo>(0x7ffffffe, 1);
  w.done.emplace_back();
  w.done.back().push_back(
      {Traced::kEvent, -6, 0, "0: INFO EventFoo{ first: 2147483646, second: 1 }", kLastResort, -1});
  absl::Time t1 = absl::Now();
  std::map<int, std::string> logs;
  logs[0] = ReadLog(path);
  logs[kLastResort] = g_stderr->Take();
  Judge(r, w, logs, t0, t1);
  unlink(path.c_str());
  int64_t total = 0;
  for (auto& d : w.done) total += d.size();
  r.Count("lines compared", total);
  r.Distinct(Shape(w));
  if (r.WantsSample()) r.Sample(Format("%d threads, take-down %d: %lld lines as traced", threads, way, (long long)total));
}

void LocalCase(Report& r, int64_t c, const std::string& dir) {
  Rng rng(r.seed, c);
  int threads = static_cast<int>(rng.Range(1, 4));
  int recorders = static_cast<int>(rng.Range(1, 3));
  r.Case(c, Format("%d threads, %d recorders", threads, recorders));
  World w;
  w.r = &r;
  w.done.resize(threads);
  g_stderr->Take();
  absl::Time t0 = absl::Now();
  std::vector<std::shared_ptr<fcp::TextTracingRecorder>> rec;
  for (int k = 0; k < recorders; ++k) {
    rec.push_back(std::make_shared<fcp::TextTracingRecorder>(dir + Format("/l%lld_%d", (long long)c, k),
                                                             absl::UTCTimeZone()));
  }
  Perturbation(rng);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      Rng g(r.seed, verif::Mix(c) + 100 + t);
      Tracer tracer(&w, t, Rng(r.seed, verif::Mix(c) + t), 60);
      while (tracer.busy()) {
        if (g.Chance(0.2)) {
          tracer.home = kLastResort;
          tracer.Play(0);
          continue;
        }
        int k = static_cast<int>(g.Below(recorders));
        auto mine = rec[k];
        {
          fcp::ScopedTracingRecorder scope(mine.get());
          tracer.home = k;
          tracer.Play(0);
          if (g.Chance(0.4)) {
            {
              fcp::ScopedTracingRecorder again(mine.get());
              tracer.Play(0);
              r.Count("recorders installed again");
            }
            tracer.Play(0);
          }
        }
        if (g.Chance(0.3)) {
          tracer.home = kLastResort;
          tracer.Play(0);
        }
      }
      tracer.CloseAll();
    });
  }
  for (auto& t : ts) t.join();
#if defined(VERIF_SHIM_SYNC_H_)
  verif_sched::rate().store(0);
#endif
  w.refs.clear();
  rec.clear();
  absl::Time t1 = absl::Now();
  std::map<int, std::string> logs;
  for (int k = 0; k < recorders; ++k) {
    std::string p = dir + Format("/l%lld_%d", (long long)c, k);
    logs[k] = ReadLog(p);
    unlink(p.c_str());
  }
  logs[kLastResort] = g_stderr->Take();
  Judge(r, w, logs, t0, t1);
  int64_t total = 0;
  for (auto& d : w.done) total += d.size();
  r.Count("lines compared", total);
  r.Distinct(Shape(w));
}

// Identifiers drawn by several threads at once, and identifiers beyond 32 bits.
void Ids(Report& r) {
  constexpr int kThreads = 4, kEach = 20000;
  std::vector<std::vector<int64_t>> got(kThreads);
  std::vector<std::thread> ts;
  for (int t = 0; t < kThreads; ++t) {
    ts.emplace_back([&, t] {
      for (int k = 0; k < kEach; ++k) got[t].push_back(fcp::TracingSpanId::NextUniqueId().value);
    });
  }
  for (auto& t : ts) t.join();
  std::set<int64_t> all;
  for (auto& v : got) {
    for (size_t k = 0; k < v.size(); ++k) {
      if (v[k] == 0 || !all.insert(v[k]).second) r.Violation("span-id-used-twice", Format("%lld", (long long)v[k]));
      if (k > 0 && v[k] <= v[k - 1]) r.Violation("span-id-order", "");
    }
  }
  r.Eval(kThreads * kEach);
  for (int s = 30; s < 60; ++s) {
    int64_t v = (int64_t{1} << s) + 7;
    r.Eval();
    if (fcp::TracingSpanId(v).value != v)
      r.Violation("span-id-narrowed", Format("%lld became %lld", (long long)v, (long long)fcp::TracingSpanId(v).value));
  }
}

}  // namespace

int main(int argc, char** argv) {
  Report r(argc, argv);
  std::string dir = verif::FreshDir(r, "tracing");
  g_stderr = new Catch();
  std::cerr.rdbuf(g_stderr);
  int64_t n = r.N(2400, 60000);
  if (r.mode == "global") {
    Ids(r);
    for (int64_t c = 0; c < n; ++c)
      if (r.Mine(c)) GlobalCase(r, c, dir);
  } else if (r.mode == "local") {
    for (int64_t c = 0; c < n; ++c)
      if (r.Mine(c)) LocalCase(r, c, dir);
  } else {
    Report::Broken("mode");
  }
  r.Count("schedule perturbations", Points());
  std::cerr.rdbuf(nullptr);
  return r.Finish();
}
