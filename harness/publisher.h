// An event publisher that remembers what was published.
#ifndef VERIF_HARNESS_PUBLISHER_H_
#define VERIF_HARNESS_PUBLISHER_H_

#include <functional>
#include <string>
#include <vector>

#include "fcp/client/event_publisher.h"

namespace verif {

struct Published {
  std::string name;
  bool has_error = false, has_network = false, has_examples = false, has_duration = false;
  std::string error;
  fcp::client::NetworkStats network;
  fcp::client::ExampleStats examples;
  absl::Duration duration;
  void Take(absl::string_view e) { has_error = true, error = std::string(e); }
  void Take(const fcp::client::NetworkStats& n) { has_network = true, network = n; }
  void Take(const fcp::client::ExampleStats& x) { has_examples = true, examples = x; }
  void Take(absl::Duration d) { has_duration = true, duration = d; }
};

class Publisher : public fcp::client::EventPublisher {
 public:
  std::vector<Published> all;
  std::vector<std::string> models;
  // Called at each publication.
  std::function<void(const Published&)> at;

  void PublishEligibilityEvalCheckin() override { Note("EligibilityEvalCheckin"); }
  void PublishEligibilityEvalPlanUriReceived(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalPlanUriReceived", n, d); }
  void PublishEligibilityEvalPlanReceived(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalPlanReceived", n, d); }
  void PublishEligibilityEvalNotConfigured(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalNotConfigured", n, d); }
  void PublishEligibilityEvalRejected(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalRejected", n, d); }
  void PublishCheckin() override { Note("Checkin"); }
  void PublishCheckinFinished(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinFinished", n, d); }
  void PublishRejected() override { Note("Rejected"); }
  void PublishTensorFlowError(int, absl::string_view e) override { Note("TensorFlowError", e); }
  void PublishIoError(absl::string_view e) override { Note("IoError", e); }
  void PublishExampleSelectorError(int, absl::string_view e) override { Note("ExampleSelectorError", e); }
  void PublishInterruption(const fcp::client::ExampleStats& x, absl::Time) override { Note("Interruption", x); }
  void PublishTaskNotStarted(absl::string_view e) override { Note("TaskNotStarted", e); }
  void PublishNonfatalInitializationError(absl::string_view e) override { Note("NonfatalInitializationError", e); }
  void PublishFatalInitializationError(absl::string_view e) override { Note("FatalInitializationError", e); }
  void PublishEligibilityEvalCheckinIoError(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalCheckinIoError", e, n, d); }
  void PublishEligibilityEvalCheckinClientInterrupted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalCheckinClientInterrupted", e, n, d); }
  void PublishEligibilityEvalCheckinServerAborted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalCheckinServerAborted", e, n, d); }
  void PublishEligibilityEvalCheckinErrorInvalidPayload(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("EligibilityEvalCheckinErrorInvalidPayload", e, n, d); }
  void PublishEligibilityEvalComputationStarted() override { Note("EligibilityEvalComputationStarted"); }
  void PublishEligibilityEvalComputationInvalidArgument(absl::string_view e, const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationInvalidArgument", e, x, d); }
  void PublishEligibilityEvalComputationIOError(absl::string_view e, const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationIOError", e, x, d); }
  void PublishEligibilityEvalComputationExampleIteratorError(absl::string_view e, const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationExampleIteratorError", e, x, d); }
  void PublishEligibilityEvalComputationTensorflowError(absl::string_view e, const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationTensorflowError", e, x, d); }
  void PublishEligibilityEvalComputationInterrupted(absl::string_view e, const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationInterrupted", e, x, d); }
  void PublishEligibilityEvalComputationErrorNonfatal(absl::string_view e) override { Note("EligibilityEvalComputationErrorNonfatal", e); }
  void PublishEligibilityEvalComputationCompleted(const fcp::client::ExampleStats& x, absl::Duration d) override { Note("EligibilityEvalComputationCompleted", x, d); }
  void PublishMultipleTaskAssignmentsStarted() override { Note("MultipleTaskAssignmentsStarted"); }
  void PublishMultipleTaskAssignmentsIOError(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsIOError", e, n, d); }
  void PublishMultipleTaskAssignmentsPayloadIOError(absl::string_view e) override { Note("MultipleTaskAssignmentsPayloadIOError", e); }
  void PublishMultipleTaskAssignmentsInvalidPayload(absl::string_view e) override { Note("MultipleTaskAssignmentsInvalidPayload", e); }
  void PublishMultipleTaskAssignmentsClientInterrupted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsClientInterrupted", e, n, d); }
  void PublishMultipleTaskAssignmentsServerAborted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsServerAborted", e, n, d); }
  void PublishMultipleTaskAssignmentsTurnedAway(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsTurnedAway", n, d); }
  void PublishMultipleTaskAssignmentsPlanUriReceived(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsPlanUriReceived", n, d); }
  void PublishMultipleTaskAssignmentsPlanUriPartialReceived(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsPlanUriPartialReceived", n, d); }
  void PublishMultipleTaskAssignmentsPartialCompleted(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsPartialCompleted", n, d); }
  void PublishMultipleTaskAssignmentsCompleted(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("MultipleTaskAssignmentsCompleted", n, d); }
  void PublishCheckinIoError(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinIoError", e, n, d); }
  void PublishCheckinClientInterrupted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinClientInterrupted", e, n, d); }
  void PublishCheckinServerAborted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinServerAborted", e, n, d); }
  void PublishCheckinInvalidPayload(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinInvalidPayload", e, n, d); }
  void PublishRejected(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("Rejected", n, d); }
  void PublishCheckinPlanUriReceived(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinPlanUriReceived", n, d); }
  void PublishCheckinFinishedV2(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("CheckinFinishedV2", n, d); }
  void PublishComputationStarted() override { Note("ComputationStarted"); }
  void PublishComputationInvalidArgument(absl::string_view e, const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationInvalidArgument", e, x, n, d); }
  void PublishComputationIOError(absl::string_view e, const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationIOError", e, x, n, d); }
  void PublishComputationExampleIteratorError(absl::string_view e, const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationExampleIteratorError", e, x, n, d); }
  void PublishComputationTensorflowError(absl::string_view e, const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationTensorflowError", e, x, n, d); }
  void PublishComputationInterrupted(absl::string_view e, const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationInterrupted", e, x, n, d); }
  void PublishComputationCompleted(const fcp::client::ExampleStats& x, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ComputationCompleted", x, n, d); }
  void PublishResultUploadStarted() override { Note("ResultUploadStarted"); }
  void PublishResultUploadIOError(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ResultUploadIOError", e, n, d); }
  void PublishResultUploadClientInterrupted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ResultUploadClientInterrupted", e, n, d); }
  void PublishResultUploadServerAborted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ResultUploadServerAborted", e, n, d); }
  void PublishResultUploadCompleted(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("ResultUploadCompleted", n, d); }
  void PublishFailureUploadStarted() override { Note("FailureUploadStarted"); }
  void PublishFailureUploadIOError(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("FailureUploadIOError", e, n, d); }
  void PublishFailureUploadClientInterrupted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("FailureUploadClientInterrupted", e, n, d); }
  void PublishFailureUploadServerAborted(absl::string_view e, const fcp::client::NetworkStats& n, absl::Duration d) override { Note("FailureUploadServerAborted", e, n, d); }
  void PublishFailureUploadCompleted(const fcp::client::NetworkStats& n, absl::Duration d) override { Note("FailureUploadCompleted", n, d); }
  void SetModelIdentifier(const std::string& m) override { models.push_back(m); }
  fcp::client::SecAggEventPublisher* secagg_event_publisher() override { return nullptr; }

 private:
  template <class... A>
  void Note(const char* name, const A&... a) {
    Published p;
    p.name = name;
    (p.Take(a), ...);
    all.push_back(p);
    if (at) at(all.back());
  }
};

}  // namespace verif

#endif  // VERIF_HARNESS_PUBLISHER_H_
