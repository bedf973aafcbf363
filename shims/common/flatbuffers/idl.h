// Adds the newer spelling GenText to the installed flatbuffers.
#ifndef VERIF_SHIM_FLATBUFFERS_IDL_H_
#define VERIF_SHIM_FLATBUFFERS_IDL_H_
#include_next <flatbuffers/idl.h>
namespace flatbuffers {
inline const char* GenText(const Parser& parser, const void* flatbuffer,
                           std::string* text) {
  return GenerateText(parser, flatbuffer, text) ? nullptr : "error";
}
}  // namespace flatbuffers
#endif
