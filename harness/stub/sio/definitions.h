// A model of the parts of the SIO library that podio uses: records made of named, versioned blocks in an in-memory file system.
// Mistakes a real file would punish (reading past the end, not uncompressing, a wrong position) end in an exception here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <ios>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace sio {
using version_type = uint32_t;
using size_type = std::size_t;
using options_type = uint32_t;
class block;
using block_ptr = std::shared_ptr<block>;
using block_list = std::vector<block_ptr>;
static constexpr std::size_t kbyte = 1024, mbyte = 1024 * 1024, max_record_info_len = 64;
enum class error_code { no_error, not_open, eof, bad_state, io_failure, compress_error, bad_alloc };
class exception : public std::runtime_error {
public:
  exception(error_code c, const std::string& m) : std::runtime_error(m), m_code(c) {}
  error_code code() const { return m_code; }
private:
  error_code m_code;
};
#define SIO_THROW(code, msg) throw sio::exception(code, msg)

// the file system
struct file {
  std::string name;
  std::vector<char> bytes;
  bool open_for_writing = false;
};
inline std::vector<std::unique_ptr<file>>& disk() {
  static std::vector<std::unique_ptr<file>> d;
  return d;
}
inline file* find_file(const std::string& n) {
  for (auto& f : disk())
    if (f->name == n)
      return f.get();
  return nullptr;
}
inline void append(std::vector<char>& v, const void* p, std::size_t n) {
  const auto k = v.size();
  v.resize(k + n);
  if (n)
    std::memcpy(v.data() + k, p, n);
}
class ofstream {
public:
  using pos_type = long;
  ofstream() = default;
  ofstream(const ofstream&) = delete;
  ofstream& operator=(const ofstream&) = delete;
  ofstream(ofstream&&) = delete;
  ~ofstream() { close(); }
  void open(const std::string& n, std::ios_base::openmode = std::ios_base::out) {
    if (m_f || n.empty())
      return;
    m_f = find_file(n);
    if (!m_f) {
      disk().push_back(std::make_unique<file>());
      m_f = disk().back().get();
      m_f->name = n;
    }
    m_f->bytes.clear();
    m_f->open_for_writing = true;
  }
  bool is_open() const { return m_f != nullptr; }
  ofstream& write(const char* p, long n) {
    if (m_f)
      append(m_f->bytes, p, n);
    else
      m_bad = true;
    return *this;
  }
  pos_type tellp() const { return m_f ? (long)m_f->bytes.size() : -1; }
  void flush() {}
  bool good() const { return m_f && !m_bad; }
  void close() {
    if (m_f)
      m_f->open_for_writing = false;
    m_f = nullptr;
  }
private:
  file* m_f = nullptr;
  bool m_bad = false;
};
class ifstream {
public:
  using pos_type = long;
  ifstream() = default;
  ifstream(const ifstream&) = delete;
  ifstream& operator=(const ifstream&) = delete;
  ifstream(ifstream&&) = delete;
  void open(const std::string& n, std::ios_base::openmode = std::ios_base::in) {
    if (m_f)
      return;
    m_f = find_file(n);
    if (m_f && m_f->open_for_writing)
      m_f = nullptr; // what has not been closed is not there yet
    m_pos = 0;
    m_fail = m_f == nullptr;
  }
  bool is_open() const { return m_f != nullptr; }
  void close() { m_f = nullptr; }
  ifstream& seekg(pos_type p) {
    if (!m_fail)
      m_pos = p;
    if (m_f && (p < 0 || p > (long)m_f->bytes.size()))
      m_fail = true;
    return *this;
  }
  ifstream& seekg(pos_type off, std::ios_base::seekdir d) {
    const long base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? m_pos : m_f ? (long)m_f->bytes.size() : 0;
    return seekg(base + off);
  }
  ifstream& read(char* p, long n) {
    if (m_fail || !m_f || m_pos + n > (long)m_f->bytes.size()) {
      m_fail = true;
      return *this;
    }
    if (n)
      std::memcpy(p, m_f->bytes.data() + m_pos, n);
    m_pos += n;
    return *this;
  }
  pos_type tellg() const { return m_fail ? -1 : m_pos; }
  void clear() { m_fail = m_f == nullptr; }
  bool good() const { return !m_fail; }
  explicit operator bool() const { return !m_fail; }
private:
  file* m_f = nullptr;
  long m_pos = 0;
  bool m_fail = true;
};

struct record_info {
  long _file_start{0}, _file_end{0};
  std::size_t _header_length{0};
  options_type _options{0};
  std::size_t _data_length{0}, _uncompressed_length{0};
  std::string _name{};
};
} // namespace sio
