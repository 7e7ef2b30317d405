#include "rootmodel.h"
// only used for files written before names were used for relations (see createCollectionBranchesIndexBased)
struct TClass {
  const rootmodel::Type* type;
  static TClass* GetClass(const char* name) {
    static std::map<std::string, TClass> c;
    auto* t = rootmodel::find(name);
    VP_ASSERT(t != nullptr, "ROOT model: an unknown class is asked for");
    return &c.emplace(name, TClass{t}).first->second;
  }
  void* New() const { return type->make(); }
};
