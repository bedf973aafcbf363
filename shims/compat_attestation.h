#ifndef VERIF_COMPAT_ATTESTATION_H_
#define VERIF_COMPAT_ATTESTATION_H_
#include <string>
#include "google/protobuf/message.h"
#include "absl/strings/cord.h"
// The installed protobuf cannot parse from a cord.
#define ParseFromCord(c) ParseFromString(std::string(c))
#endif
