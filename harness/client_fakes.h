// Stand-ins for what the host application gives the client runtime.
#ifndef VERIF_HARNESS_CLIENT_FAKES_H_
#define VERIF_HARNESS_CLIENT_FAKES_H_

#include <map>
#include <mutex>
#include <string>
#include <vector>

#include "fcp/client/log_manager.h"

namespace verif {

// Remembers how often each code was logged.
class Logs : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override {
    std::lock_guard<std::mutex> l(m_);
    ++prod_[c];
  }
  void LogDiag(fcp::client::DebugDiagCode c) override {
    std::lock_guard<std::mutex> l(m_);
    ++debug_[c];
  }
  void LogToLongHistogram(fcp::client::HistogramCounters c, int, int,
                          fcp::client::engine::DataSourceType, int64_t v) override {
    std::lock_guard<std::mutex> l(m_);
    histograms_[c].push_back(v);
  }
  void SetModelIdentifier(const std::string& m) override {
    std::lock_guard<std::mutex> l(m_);
    model_ = m;
  }
  int of(fcp::client::ProdDiagCode c) {
    std::lock_guard<std::mutex> l(m_);
    return prod_[c];
  }
  int of(fcp::client::DebugDiagCode c) {
    std::lock_guard<std::mutex> l(m_);
    return debug_[c];
  }
  std::vector<int64_t> of(fcp::client::HistogramCounters c) {
    std::lock_guard<std::mutex> l(m_);
    return histograms_[c];
  }
  std::map<int, int> prod() {
    std::lock_guard<std::mutex> l(m_);
    return prod_;
  }
  std::map<int, int> debug() {
    std::lock_guard<std::mutex> l(m_);
    return debug_;
  }

 private:
  std::mutex m_;
  std::map<int, int> prod_, debug_;
  std::map<int, std::vector<int64_t>> histograms_;
  std::string model_;
};

}  // namespace verif

#endif  // VERIF_HARNESS_CLIENT_FAKES_H_
