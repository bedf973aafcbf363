// Drops all trace output; without it every session writes to standard error.
#ifndef VERIF_HARNESS_NULL_TRACING_H_
#define VERIF_HARNESS_NULL_TRACING_H_

#include <memory>

#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span_impl.h"
#include "fcp/tracing/tracing_span_ref.h"

namespace verif {

class NullRecorder : public fcp::tracing_internal::TracingRecorderImpl {
 public:
  static std::shared_ptr<NullRecorder>& Instance() {
    static auto* r = new std::shared_ptr<NullRecorder>();
    return *r;
  }
  static void Install() {
    Instance() = std::make_shared<NullRecorder>();
    static_cast<fcp::tracing_internal::TracingRecorderImpl*>(Instance().get())->InstallAsGlobal();
  }
  void InstallAsGlobal() { TracingRecorderImpl::InstallAsGlobal(); }
  void TraceImpl(fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
                 const fcp::TracingTraitsBase&) override {}
  fcp::tracing_internal::TracingSpanImpl* GetRootSpan() override { return &root_; }
  std::unique_ptr<fcp::tracing_internal::TracingSpanImpl> CreateChildSpan(
      fcp::TracingSpanId, flatbuffers::DetachedBuffer&&, const fcp::TracingTraitsBase&) override {
    auto s = std::make_unique<Span>();
    s->recorder = this;
    return s;
  }

  NullRecorder() { root_.recorder = this; }

 private:
  class Span : public fcp::tracing_internal::TracingSpanImpl {
   public:
    NullRecorder* recorder = nullptr;
    void TraceImpl(flatbuffers::DetachedBuffer&&, const fcp::TracingTraitsBase&) override {}
    fcp::TracingSpanRef Ref() override {
      return fcp::TracingSpanRef(recorder->shared_from_this(), fcp::TracingSpanId(1));
    }
  };
  Span root_;
};

}  // namespace verif

#endif  // VERIF_HARNESS_NULL_TRACING_H_
