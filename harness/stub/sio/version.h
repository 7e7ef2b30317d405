#pragma once
#include "sio/definitions.h"
namespace sio {
struct version {
  static constexpr version_type encode_version(uint16_t major, uint16_t minor) { return (uint32_t(major) << 16) | minor; }
  static constexpr uint16_t major_version(version_type v) { return v >> 16; }
  static constexpr uint16_t minor_version(version_type v) { return v & 0xffff; }
};
} // namespace sio
