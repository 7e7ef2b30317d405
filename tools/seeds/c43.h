// a data source on readers with their entries in memory
#pragma once
#include "demo.h"
#include "podio/Reader.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/Glob.h"
#include <algorithm>
#include "podio/DataSource.h"
#include "DataSource.cc"
using Ints = podio::UserDataCollection<int32_t>;
static size_t g_entries = 0;
struct MemReader {
  std::unique_ptr<RawData> readNextEntry(std::string_view, const std::vector<std::string>& = {}) { return nullptr; }
  std::unique_ptr<RawData> readEntry(std::string_view, size_t index, const std::vector<std::string>& = {}) {
    if (index >= g_entries)
      return nullptr;
    podio::Frame out;
    auto raw = std::make_unique<RawData>();
    for (const char* n : {"x", "y", "z"}) {
      Ints c;
      c.push_back(100 * index + n[0]);
      out.put(std::move(c), n);
      raw->add(store<int32_t>(*out.get(n), n));
    }
    return raw;
  }
  size_t getEntries(std::string_view) const { return g_entries; }
  podio::version::Version currentFileVersion() const { return {}; }
  std::optional<podio::version::Version> currentFileVersion(std::string_view) const { return std::nullopt; }
  std::vector<std::string_view> getAvailableCategories() const { return {"events"}; }
  const std::string_view getDatamodelDefinition(std::string_view) const { return {}; }
  std::vector<std::string> getAvailableDatamodels() const { return {}; }
};
namespace podio {
template <typename T>
Reader::Reader(std::unique_ptr<T> reader) : m_self(std::make_unique<ReaderModel<T>>(std::move(reader))) {
}
Reader makeReader(const std::vector<std::string>&) { return Reader(std::make_unique<MemReader>()); }
Reader makeReader(const std::string&) { return Reader(std::make_unique<MemReader>()); }
} // namespace podio
