// Stand-in for protostore's ProtoDataStore: a checksummed message in one file,
// written in place, cached after the first read.
#ifndef VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#define VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_

#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <utility>

#include "protostore/file-storage.h"

namespace protostore {

template <typename ProtoT>
class ProtoDataStore {
 public:
  ProtoDataStore(const FileStorage& storage, absl::string_view filename)
      : storage_(storage), filename_(filename) {}
  ProtoDataStore(const ProtoDataStore&) = delete;
  ProtoDataStore& operator=(const ProtoDataStore&) = delete;

  absl::StatusOr<const ProtoT*> Read() const {
    if (cache_ != nullptr) return cache_.get();
    absl::StatusOr<std::string> data = storage_.ReadAll(filename_);
    if (!data.ok()) return data.status();
    if (data->size() < 8) return absl::InternalError("Invalid header");
    uint64_t sum;
    std::memcpy(&sum, data->data(), 8);
    std::string body = data->substr(8);
    if (sum != Checksum(body)) return absl::InternalError("Checksum mismatch");
    auto p = std::make_unique<ProtoT>();
    if (!p->ParseFromString(body)) return absl::InternalError("Parse failed");
    cache_ = std::move(p);
    return cache_.get();
  }

  absl::Status Write(std::unique_ptr<ProtoT> proto) {
    std::string body = proto->SerializeAsString();
    uint64_t sum = Checksum(body);
    std::string data(8, '\0');
    std::memcpy(&data[0], &sum, 8);
    data += body;
    auto& faults = verif_protostore::Faults();
    bool fail = faults.writes++ == faults.fail_write_at;
    if (fail && static_cast<size_t>(faults.keep) < data.size()) {
      data.resize(faults.keep);
    }
    absl::StatusOr<std::unique_ptr<OutputStream>> out =
        storage_.OpenForWrite(filename_);
    if (!out.ok()) return out.status();
    absl::Status s = (*out)->Append(data);
    if (!s.ok()) return s;
    s = (*out)->Close();
    if (!s.ok()) return s;
    if (fail) {
      if (faults.crash) _exit(77);
      return absl::InternalError("injected write failure");
    }
    cache_ = std::move(proto);
    return absl::OkStatus();
  }

 private:
  static uint64_t Checksum(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
  }
  const FileStorage& storage_;
  const std::string filename_;
  mutable std::unique_ptr<ProtoT> cache_;
};

}  // namespace protostore

#endif
