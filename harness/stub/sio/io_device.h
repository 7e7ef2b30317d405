#pragma once
#include "sio/buffer.h"
#include "sio/version.h"
#include <type_traits>
namespace sio {
class write_device {
public:
  explicit write_device(std::vector<char>& out) : m_out(out) {}
  template <typename T>
  void data(const T& v) {
    static_assert(std::is_trivially_copyable_v<T> && !std::is_pointer_v<T>);
    append(m_out, &v, sizeof(T));
  }
  void data(const std::string& s) {
    data(int(s.size()));
    append(m_out, s.data(), s.size());
  }
  template <typename T>
  void data(const std::vector<T>& v) {
    data(int(v.size()));
    if constexpr (std::is_arithmetic_v<T>)
      append(m_out, v.data(), v.size() * sizeof(T));
    else
      for (auto& e : v)
        data(e);
  }
  template <typename T>
  void data(T* const p, std::size_t count) {
    append(m_out, p, count * sizeof(T));
  }
private:
  std::vector<char>& m_out;
};
class read_device {
public:
  explicit read_device(buffer_span s) : m_in(s) {}
  template <typename T>
  void data(T& v) {
    static_assert(std::is_trivially_copyable_v<T> && !std::is_pointer_v<T>);
    take(&v, sizeof(T));
  }
  void data(std::string& s) {
    int n = 0;
    data(n);
    s.resize(check(n));
    take(s.data(), n);
  }
  template <typename T>
  void data(std::vector<T>& v) {
    int n = 0;
    data(n);
    v.resize(check(n));
    if constexpr (std::is_arithmetic_v<T>)
      take(v.data(), n * sizeof(T));
    else
      for (auto& e : v)
        data(e);
  }
  template <typename T>
  void data(T* const p, std::size_t count) {
    take(p, count * sizeof(T));
  }
  std::size_t left() const { return m_in.n - m_pos; }
private:
  int check(int n) const {
    if (n < 0 || std::size_t(n) > left())
      SIO_THROW(error_code::eof, "more elements than bytes in the buffer");
    return n;
  }
  void take(void* p, std::size_t n) {
    if (n > left())
      SIO_THROW(error_code::eof, "reading past the end of the buffer");
    if (n)
      std::memcpy(p, m_in.ptr + m_pos, n);
    m_pos += n;
  }
  buffer_span m_in;
  std::size_t m_pos = 0;
};
} // namespace sio
