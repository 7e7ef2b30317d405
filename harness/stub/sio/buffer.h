#pragma once
#include "sio/definitions.h"
namespace sio {
using byte = char;
struct buffer_span {
  const char* ptr = nullptr;
  std::size_t n = 0;
  const char* data() const { return ptr; }
  std::size_t size() const { return n; }
  buffer_span subspan(std::size_t start, std::size_t count) const {
    if (start > n || count > n - start)
      SIO_THROW(error_code::bad_state, "span out of range");
    return {ptr + start, count};
  }
};
// the size given to the constructor is only a capacity until something has been written
class buffer {
public:
  using container = std::vector<char>;
  explicit buffer(std::size_t cap) : m_cap(cap) {}
  explicit buffer(container&& bytes) : m_cap(bytes.size()), m_bytes(std::move(bytes)) {}
  const char* data() const { return m_bytes.data(); }
  buffer(const buffer&) = delete;
  buffer& operator=(const buffer&) = delete;
  buffer(buffer&&) = default;
  buffer& operator=(buffer&&) = default;
  buffer_span span() const { return {m_bytes.data(), m_bytes.size()}; }
  buffer_span span(std::size_t start, std::size_t count) const { return span().subspan(start, count); }
  std::size_t size() const { return m_bytes.size(); }
  std::size_t max_size() const { return m_cap; }
  std::vector<char>& bytes() { return m_bytes; }
private:
  std::size_t m_cap;
  std::vector<char> m_bytes{};
};
} // namespace sio
