// helpers of the demonstrations: a plain in-memory backend as any reader/writer of podio implements it
#pragma once
#include "podio/CollectionBase.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionIDTable.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include "podio/ObjectID.h"
#include "podio/SchemaEvolution.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#define CHECK(c, msg)                                                                                                  \
  do {                                                                                                                 \
    if (!(c)) {                                                                                                        \
      std::printf("FAILED: %s (%s)\n", msg, #c);                                                                       \
      std::exit(1);                                                                                                    \
    }                                                                                                                  \
  } while (0)
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
struct Stored {
  std::string name, type;
  uint32_t id = 0;
  bool subset = false;
  podio::SchemaVersionT version = 1;
  std::function<void(podio::CollectionReadBuffers&)> fill;
  std::vector<std::vector<podio::ObjectID>> refs;
};
template <typename T>
std::function<void(void*)> vecCopier(const std::vector<T>* v) {
  std::vector<T> snap(*v);
  return [snap](void* dst) { *static_cast<std::vector<T>*>(dst) = snap; };
}
template <typename Data, typename... VM>
Stored store(const podio::CollectionBase& cc, const std::string& name) {
  auto& c = const_cast<podio::CollectionBase&>(cc);
  c.prepareForWrite();
  auto wb = c.getBuffers();
  Stored s;
  s.name = name;
  s.type = std::string(c.getTypeName());
  s.id = c.getID();
  s.subset = c.isSubsetCollection();
  s.version = c.getSchemaVersion();
  if (wb.references)
    for (auto& r : *wb.references)
      s.refs.push_back(*r);
  auto refs = s.refs;
  if (s.subset) {
    s.fill = [refs](podio::CollectionReadBuffers& b) { *(*b.references)[0] = refs[0]; };
    return s;
  }
  std::vector<std::function<void(void*)>> cps;
  cps.push_back(vecCopier<Data>(wb.dataAsVector<Data>()));
  [[maybe_unused]] size_t i = 0;
  ((cps.push_back(vecCopier<VM>(*reinterpret_cast<std::vector<VM>**>((*wb.vectorMembers)[i++].second)))), ...);
  s.fill = [cps, refs](podio::CollectionReadBuffers& b) {
    cps[0](b.data);
    if (b.references)
      for (size_t k = 0; k < refs.size(); ++k)
        *(*b.references)[k] = refs[k];
    for (size_t k = 1; k < cps.size(); ++k)
      cps[k]((*b.vectorMembers)[k - 1].second);
  };
  return s;
}
inline podio::CollectionReadBuffers load(const Stored& s) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.subset);
  CHECK(b.has_value(), "buffers can be created");
  s.fill(*b);
  return std::move(*b);
}
struct RawData {
  std::vector<Stored> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  podio::GenericParameters params;
  podio::CollectionIDTable getIDTable() const { return {ids, names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    for (size_t i = 0; i < colls.size(); ++i)
      if (colls[i].name == name) {
        auto b = load(colls[i]);
        colls.erase(colls.begin() + i);
        return b;
      }
    return std::nullopt;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (auto& c : colls)
      r.push_back(c.name);
    return r;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(params); }
  void add(Stored s) {
    ids.push_back(s.id);
    names.push_back(s.name);
    colls.push_back(std::move(s));
  }
};
inline podio::Frame readFrame(RawData&& d) { return podio::Frame(std::make_unique<RawData>(std::move(d))); }
