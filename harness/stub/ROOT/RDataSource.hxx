#pragma once
// the interface of a data source of RDataFrame
#include <algorithm>
#include <memory>
#include <string>
#include <string_view>
#include <typeinfo>
#include <utility>
#include <vector>
using ULong64_t = unsigned long long;
namespace ROOT {
namespace RDF {
  class RDataSource {
  public:
    virtual ~RDataSource() = default;
    virtual void SetNSlots(unsigned int nSlots) = 0;
    virtual const std::vector<std::string>& GetColumnNames() const = 0;
    virtual bool HasColumn(std::string_view) const = 0;
    virtual std::string GetTypeName(std::string_view) const = 0;
    template <typename T>
    std::vector<T**> GetColumnReaders(std::string_view columnName) {
      std::vector<T**> r;
      for (void* p : GetColumnReadersImpl(columnName, typeid(T)))
        r.push_back(static_cast<T**>(p));
      return r;
    }
    virtual std::vector<std::pair<ULong64_t, ULong64_t>> GetEntryRanges() = 0;
    virtual bool SetEntry(unsigned int slot, ULong64_t entry) = 0;
    virtual void Initialize() {}
    virtual void InitSlot(unsigned int, ULong64_t) {}
    virtual void FinalizeSlot(unsigned int) {}
    virtual void Finalize() {}
    virtual std::string GetLabel() { return "Custom Datasource"; }

  protected:
    virtual std::string AsString() { return "generic data source"; }
    virtual std::vector<void*> GetColumnReadersImpl(std::string_view name, const std::type_info&) = 0;
  };
} // namespace RDF
} // namespace ROOT
