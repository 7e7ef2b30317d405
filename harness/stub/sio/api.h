#pragma once
#include "sio/block.h"
#include "sio/buffer.h"
#include "sio/compression/zlib.h"
#include "sio/definitions.h"
#include "sio/io_device.h"
#include "sio/version.h"
namespace sio {
// A record: header (marker, options, lengths, name), then the blocks: (marker, length of the data, version, name, data)
struct api {
  static constexpr uint32_t record_marker = 0xabadcafe, block_marker = 0xdeadbeef;
  struct head {
    uint32_t marker, options, data_length, uncompressed_length, name_length;
  };
  static void put_head(std::vector<char>& out, std::size_t at, const record_info& i) {
    const head h{record_marker, i._options, uint32_t(i._data_length), uint32_t(i._uncompressed_length), uint32_t(i._name.size())};
    std::memcpy(out.data() + at, &h, sizeof(h));
  }
  static record_info write_record(const std::string& name, buffer& buf, const block_list& blocks, options_type opts) {
    record_info i;
    i._name = name;
    i._options = opts;
    auto& out = buf.bytes();
    out.assign(sizeof(head), 0);
    append(out, name.data(), name.size());
    i._header_length = out.size();
    for (auto& b : blocks) {
      if (!b)
        SIO_THROW(error_code::bad_state, "there is no block to write");
      std::vector<char> data;
      write_device d(data);
      b->write(d);
      const uint32_t h[4] = {block_marker, uint32_t(data.size()), b->version(), uint32_t(b->name().size())};
      append(out, h, sizeof(h));
      append(out, b->name().data(), b->name().size());
      append(out, data.data(), data.size());
    }
    i._data_length = i._uncompressed_length = out.size() - i._header_length;
    put_head(out, 0, i);
    return i;
  }
  template <typename Compression>
  static void compress_record(record_info& i, buffer& rec, buffer& com, Compression& c) {
    c.compress(rec.span(i._header_length, rec.size() - i._header_length), com);
    i._data_length = com.size();
    i._options |= 1;
    put_head(rec.bytes(), 0, i);
  }
  static void write_record(ofstream& s, buffer_span rec, record_info& i) { write_record(s, rec, buffer_span{}, i); }
  static void write_record(ofstream& s, buffer_span header, buffer_span data, record_info& i) {
    if (!s.is_open() || !s.good())
      SIO_THROW(error_code::not_open, "the output stream is not open");
    i._file_start = s.tellp();
    s.write(header.data(), header.size());
    s.write(data.data(), data.size());
    i._file_end = s.tellp();
  }
  static void read_record_info(ifstream& s, record_info& i, buffer&) {
    if (!s.is_open())
      SIO_THROW(error_code::not_open, "the input stream is not open");
    i._file_start = s.tellg();
    head h{};
    s.read(reinterpret_cast<char*>(&h), sizeof(h));
    if (!s.good())
      SIO_THROW(error_code::eof, "the end of the file");
    if (h.marker != record_marker)
      SIO_THROW(error_code::io_failure, "not the start of a record");
    i._options = h.options;
    i._data_length = h.data_length;
    i._uncompressed_length = h.uncompressed_length;
    i._header_length = sizeof(h) + h.name_length;
    i._name.resize(h.name_length);
    s.read(i._name.data(), h.name_length);
    if (!s.good())
      SIO_THROW(error_code::eof, "the end of the file");
    i._file_end = i._file_start + long(i._header_length + i._data_length);
  }
  static void read_record_data(ifstream& s, const record_info& i, buffer& buf) {
    s.seekg(i._file_start + long(i._header_length));
    buf.bytes().assign(i._data_length, 0);
    s.read(buf.bytes().data(), i._data_length);
    if (!s.good())
      SIO_THROW(error_code::eof, "the end of the file");
  }
  static void go_to_record(ifstream& s, const std::string& name) {
    for (;;) {
      record_info i;
      buffer b(max_record_info_len);
      read_record_info(s, i, b);
      s.seekg(i._name == name ? i._file_start : i._file_end);
      if (i._name == name)
        return;
    }
  }
  static void read_blocks(buffer_span rec, const block_list& blocks) {
    std::size_t pos = 0;
    while (pos < rec.size()) {
      uint32_t h[4];
      auto hs = rec.subspan(pos, sizeof(h));
      std::memcpy(h, hs.data(), sizeof(h));
      if (h[0] != block_marker)
        SIO_THROW(error_code::io_failure, "not the start of a block");
      auto ns = rec.subspan(pos + sizeof(h), h[3]);
      auto ds = rec.subspan(pos + sizeof(h) + h[3], h[1]);
      pos += sizeof(h) + h[3] + h[1];
      for (auto& b : blocks) {
        const auto& bn = b->name();
        if (bn.size() == ns.size() && std::memcmp(bn.data(), ns.data(), ns.size()) == 0) {
          read_device d(ds);
          b->read(d, h[2]);
          break;
        }
      }
    }
  }
};
} // namespace sio
