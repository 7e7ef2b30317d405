#pragma once
#include "sio/buffer.h"
namespace sio {
// "compression": a marker and the length in front of the bytes
class zlib_compression {
public:
  static constexpr uint64_t marker = 0x7a6c69625f5f7376;
  void set_level(int l) {
    if (l < -1 || l > 9)
      SIO_THROW(error_code::compress_error, "unknown compression level");
  }
  void compress(buffer_span in, buffer& out) {
    out.bytes().clear();
    const uint64_t head[2] = {marker, in.size()};
    append(out.bytes(), head, sizeof(head));
    append(out.bytes(), in.data(), in.size());
  }
  void uncompress(buffer_span in, buffer& out) {
    uint64_t head[2] = {0, 0};
    if (in.size() >= sizeof(head))
      std::memcpy(head, in.data(), sizeof(head));
    if (head[0] != marker || head[1] != in.size() - sizeof(head))
      SIO_THROW(error_code::compress_error, "not compressed data");
    if (out.max_size() < head[1])
      SIO_THROW(error_code::compress_error, "the buffer is too small for the uncompressed data");
    out.bytes().clear();
    append(out.bytes(), in.data() + sizeof(head), head[1]);
  }
};
} // namespace sio
#include "sio/api.h"
