// A minimal I/O layer: what a podio writer/reader backend does with the type-erased buffers, kept in memory.
// It is the environment of the code under test (ROOT / RNTuple / SIO are replaced by plain copies of the vectors).
#pragma once
#include "vp.h"
#include "podio/CollectionBase.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionIDTable.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include "podio/ObjectID.h"
#include "podio/SchemaEvolution.h"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace vio {
// what is on disk for one collection
struct Stored {
  std::string name;
  std::string type;
  uint32_t id = 0;
  bool subset = false;
  podio::SchemaVersionT version = 1;
  std::function<void(podio::CollectionReadBuffers&)> fill; // copy the stored bytes into freshly created buffers
  std::vector<std::vector<podio::ObjectID>> refs;
};

template <typename T>
std::function<void(void*)> vecCopier(const std::vector<T>* v) {
  std::vector<T> snap(*v);
  return [snap](void* dst) { *static_cast<std::vector<T>*>(dst) = snap; };
}

// Data: stored POD type, VM...: types of the vector members in order of declaration
template <typename Data, typename... VM>
Stored store(const podio::CollectionBase& cc, const std::string& name) {
  auto& c = const_cast<podio::CollectionBase&>(cc);
  auto wb = c.getBuffers();
  Stored s;
  s.name = name;
  s.type = std::string(c.getTypeName());
  s.id = c.getID();
  s.subset = c.isSubsetCollection();
  s.version = c.getSchemaVersion();
  std::vector<std::function<void(void*)>> cps;
  if (wb.references)
    for (auto& r : *wb.references)
      s.refs.push_back(*r);
  if (s.subset) {
    VP_ASSERT(s.refs.size() == 1, "a subset collection has exactly one reference buffer");
    auto refs = s.refs;
    s.fill = [refs](podio::CollectionReadBuffers& b) { *(*b.references)[0] = refs[0]; };
    return s;
  }
  VP_ASSERT(*static_cast<std::vector<Data>**>(wb.data) == wb.vecPtr, "both data pointers of the write buffers agree");
  cps.push_back(vecCopier<Data>(wb.dataAsVector<Data>()));
  size_t i = 0;
  if (wb.vectorMembers)
    VP_ASSERT(wb.vectorMembers->size() == sizeof...(VM), "one buffer per vector member");
  (void)i;
  ((cps.push_back(vecCopier<VM>(*reinterpret_cast<std::vector<VM>**>((*wb.vectorMembers)[i++].second)))), ...);
  auto refs = s.refs;
  s.fill = [cps, refs](podio::CollectionReadBuffers& b) {
    cps[0](b.data);
    if (b.references) {
      VP_ASSERT(b.references->size() == refs.size(), "read and write side agree on the number of reference buffers");
      for (size_t k = 0; k < refs.size(); ++k)
        *(*b.references)[k] = refs[k];
    }
    for (size_t k = 1; k < cps.size(); ++k)
      cps[k]((*b.vectorMembers)[k - 1].second);
  };
  return s;
}

inline podio::CollectionReadBuffers load(const Stored& s) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.subset);
  VP_ASSERT(b.has_value(), "the buffer factory knows every stored collection type");
  VP_ASSERT((b->data == nullptr) == s.subset, "only subset collections come without a data buffer");
  s.fill(*b);
  return std::move(*b);
}

// FrameData as a reader backend hands it to the Frame
struct RawData {
  std::vector<Stored> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::shared_ptr<podio::GenericParameters> params = std::make_shared<podio::GenericParameters>();
  int unpacked = 0;
  bool consume = true; // ROOT/RNTuple hand out every collection's buffers once
  podio::CollectionIDTable getIDTable() const { return {ids, names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    for (size_t i = 0; i < colls.size(); ++i)
      if (colls[i].name == name) {
        auto b = load(colls[i]);
        if (consume)
          colls.erase(colls.begin() + i);
        unpacked++;
        return b;
      }
    return std::nullopt;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (auto& c : colls)
      r.push_back(c.name);
    return r;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(*params); }
  // in the table, but not among the data (not read, for example)
  void known(const podio::CollectionBase& c, const std::string& name) {
    ids.push_back(c.getID());
    names.push_back(name);
  }
  void add(Stored s) {
    ids.push_back(s.id);
    names.push_back(s.name);
    colls.push_back(std::move(s));
  }
};

inline podio::Frame read(RawData&& d) { return podio::Frame(std::make_unique<RawData>(std::move(d))); }

// bitwise comparison: also distinguishes NaN payloads and signed zeros
template <typename T>
bool same(const T& a, const T& b) {
  auto x = reinterpret_cast<const unsigned char*>(&a);
  auto y = reinterpret_cast<const unsigned char*>(&b);
  bool eq = true;
  for (size_t i = 0; i < sizeof(T); ++i)
    eq &= x[i] == y[i];
  return eq;
}
} // namespace vio
