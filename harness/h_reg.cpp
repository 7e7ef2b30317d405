// The registry of data models
#include "io.h"
#include "podio/DatamodelRegistry.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include "podio/utilities/ReaderCommon.h"
#include "vm/DatamodelDefinition.h"
#include "vm/HitCollection.h"
#include "vm/HitILinkCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/HolderCollection.h"
#include "vm/MixedCollection.h"
#include "vm/PartCollection.h"
#include "vm/VecsCollection.h"
#include "vm/EnergyI.h"
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
using SV = std::string_view;
using V = podio::version::Version;
static V symVersion() { return V{vp_sym<uint16_t>("major"), vp_sym<uint16_t>("minor"), vp_sym<uint16_t>("patch")}; }

static const podio::RelationNameMapping relA = {{"ns::A", {"r1", "r2"}, {"v1"}}, {"B", {}, {}}};
static const podio::RelationNameMapping relB = {{"C", {"only"}, {}}};
static const podio::RelationNameMapping relNone = {};
// names that contain the word that is added for collections
static const podio::RelationNameMapping relD = {{"D", {"d"}, {}},
                                                {"DCollectionInfo", {"i1", "i2"}, {"iv"}},
                                                {"DCollection", {"c"}, {"cv"}},
                                                {"Collection", {"cc"}, {}}};
extern "C" void hm_registry() {
  auto& r = podio::DatamodelRegistry::mutInstance();
  const size_t base = podio::DatamodelRegistry::instance().getDatamodelName(0) == "vm" ? 1 : 0;
  struct M {
    const char* name;
    const char* def;
    const podio::RelationNameMapping* rel;
    bool versioned;
    V version;
    size_t index;
  } models[3] = {{"alpha", "{\"a\":1}", &relA}, {"beta", "{\"b\":2}", &relB}, {"alphabet", "{}", &relNone}};
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "n");
  const bool rev = vp_flip("reverse");
  for (int k = 0; k < n; ++k) {
    auto& m = models[rev ? n - 1 - k : k];
    m.versioned = vp_flip("versioned");
    if (m.versioned) {
      m.version = symVersion();
      m.index = r.registerDatamodel(m.name, m.def, *m.rel, m.version);
    } else
      m.index = r.registerDatamodel(m.name, m.def, *m.rel);
    VP_ASSERT(m.index == base + k, "every data model gets the next index");
  }
  for (int k = 0; k < n; ++k) { // registering again changes nothing
    auto& m = models[k];
    VP_ASSERT(r.registerDatamodel(m.name, "{\"other\":0}", relNone) == m.index, "a data model is registered once");
  }
  for (int k = 0; k < n; ++k) {
    auto& m = models[k];
    VP_ASSERT(r.getDatamodelDefinition(SV(m.name)) == m.def && r.getDatamodelDefinition(m.index) == m.def, "the definition is the one registered first");
    VP_ASSERT(r.getDatamodelName(m.index) == m.name, "the name of the data model");
    auto v = r.getDatamodelVersion(m.name);
    VP_ASSERT(v.has_value() == m.versioned, "the version is known if it was given");
    if (v)
      VP_ASSERT(*v == m.version, "the version that was given");
  }
  const size_t idx = vp_sym<size_t>("index");
  VP_ASSUME(idx >= base + n);
  VP_ASSERT(r.getDatamodelDefinition(idx) == "{}" && r.getDatamodelName(idx) == "", "other indices have no data model");
  VP_ASSERT(r.getDatamodelDefinition("gamma") == "{}" && !r.getDatamodelVersion("gamma"), "other names have no data model");
  for (auto* nm : {"ns::A", "ns::ACollection"}) {
    auto a = r.getRelationNames(nm);
    if (n > 0) {
      VP_ASSERT(a.relations.size() == 2 && a.relations[0] == "r1" && a.relations[1] == "r2", "the relations of a data type");
      VP_ASSERT(a.vectorMembers.size() == 1 && a.vectorMembers[0] == "v1", "the vector members of a data type");
    } else
      VP_ASSERT(a.relations.empty() && a.vectorMembers.empty(), "unknown types have no relations");
  }
  auto c = r.getRelationNames("CCollection");
  VP_ASSERT((c.relations.size() == 1) == (n > 1) && c.vectorMembers.empty(), "the relations of a data type");
  VP_ASSERT(r.getRelationNames("ECollection").relations.empty() && r.getRelationNames("").relations.empty() && r.getRelationNames("A").relations.empty(), "unknown types have no relations");
  if (vp_flip("names with Collection")) {
    r.registerDatamodel("collections", "{}", relD);
    auto is = [&](const char* type, SV rel, SV vm) {
      auto x = r.getRelationNames(type);
      return x.relations.size() >= 1 && x.relations[0] == rel && (vm.empty() ? x.vectorMembers.empty() : x.vectorMembers.size() == 1 && x.vectorMembers[0] == vm);
    };
    VP_ASSERT(is("D", "d", "") && is("DCollectionInfo", "i1", "iv") && is("DCollectionInfoCollection", "i1", "iv"), "the names of a type with Collection in its name");
    VP_ASSERT(is("DCollectionCollection", "c", "cv") && is("Collection", "cc", "") && is("CollectionCollection", "cc", ""), "the names of a type with Collection at the end of its name");
    VP_ASSERT(r.getRelationNames("DCollectionInfoX").relations.empty() && r.getRelationNames("DC").relations.empty(), "unknown types have no relations");
  }
  auto u = r.getRelationNames("podio::UserDataCollection<float>");
  VP_ASSERT(u.relations.empty() && u.vectorMembers.empty(), "user data have no relations");
  auto l = r.getRelationNames("podio::LinkCollection<Hit,vns::Part>");
  VP_ASSERT(l.relations.size() == 2 && l.relations[0] == "from" && l.relations[1] == "to" && l.vectorMembers.empty(), "links have two relations");
  vp_cover("done");
}
template <typename C>
static void names(const char* type, std::vector<SV> rel, std::vector<SV> vm) {
  auto n = podio::DatamodelRegistry::instance().getRelationNames(type);
  VP_ASSERT(n.relations.size() == rel.size() && std::equal(rel.begin(), rel.end(), n.relations.begin()), "the relations, in the order of the buffers");
  VP_ASSERT(n.vectorMembers.size() == vm.size() && std::equal(vm.begin(), vm.end(), n.vectorMembers.begin()), "the vector members, in the order of the buffers");
  C c;
  VP_ASSERT(c.getTypeName() == type, "type name");
  VP_ASSERT(podio::DatamodelRegistry::instance().getDatamodelName(c.getDatamodelRegistryIndex()) == "vm", "the data model of the collection");
  auto b = c.getBuffers();
  VP_ASSERT((b.references ? b.references->size() : 0) == rel.size() && (b.vectorMembers ? b.vectorMembers->size() : 0) == vm.size(), "one buffer per relation and vector member");
}
extern "C" void hm_registry_names() {
  names<HitCollection>("HitCollection", {}, {});
  names<PartCollection>("vns::PartCollection", {"parents", "daughters", "hits", "mother", "hit"}, {});
  names<MixedCollection>("MixedCollection", {"hits", "hit"}, {"counts"});
  names<VecsCollection>("VecsCollection", {}, {"counts", "weights", "comps"});
  names<HolderCollection>("HolderCollection", {"many", "one"}, {});
  auto n = podio::DatamodelRegistry::instance().getRelationNames("podio::LinkCollection<Hit,vns::Part>");
  VP_ASSERT(n.relations.size() == 2 && n.relations[0] == "from" && n.relations[1] == "to", "the relations of a link");
  // the names belong to the buffers with the same position
  HitCollection h;
  auto hit = h.create();
  h.setID(vp_sym<uint32_t>("id"));
  VP_ASSUME(hit.getObjectID().collectionID != (uint32_t)-1 && hit.getObjectID().collectionID != (uint32_t)-2);
  PartCollection p;
  auto a = p.create();
  p.setID(7);
  const int which = vp_choose(5, "relation");
  switch (which) {
  case 0: a.addToParents(a); break;
  case 1: a.addToDaughters(a); break;
  case 2: a.addToHits(hit); break;
  case 3: a.setMother(a); break;
  case 4: a.setHit(hit); break;
  }
  p.prepareForWrite();
  auto b = p.getBuffers();
  for (int i = 0; i < 5; ++i) {
    auto& v = *(*b.references)[i];
    int used = 0;
    for (auto& id : v)
      used += id.index == 0;
    VP_ASSERT(used == (i == which), "a relation is written to the buffer with the position of its name");
  }
  vp_cover("done");
}
// definitions to write: of all data models that are used, once
extern "C" void hm_collector() {
  podio::DatamodelDefinitionCollector col;
  bool vm = false;
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "n");
  for (int k = 0; k < n; ++k)
    switch (vp_choose(3, "type")) {
    case 0: {
      HitCollection c;
      col.registerDatamodelDefinition(&c, "hits");
      vm = true;
      break;
    }
    case 1: {
      PartCollection c;
      col.registerDatamodelDefinition(&c, "parts");
      vm = true;
      break;
    }
    case 2: {
      podio::UserDataCollection<float> c;
      col.registerDatamodelDefinition(&c, "user");
      break;
    }
    }
  auto w = col.getDatamodelDefinitionsToWrite();
  VP_ASSERT(w.size() == (vm ? 1u : 0u), "every data model that is used is written once");
  if (vm) {
    VP_ASSERT(std::get<0>(w[0]) == "vm", "with its name");
    VP_ASSERT(std::get<1>(w[0]) == vm::meta::vm__JSONDefinition, "with its definition");
  }
  vp_cover("done");
}
struct Reader : podio::ReaderCommon {
  Reader(podio::DatamodelDefinitionHolder&& h, V v, std::vector<std::string> cats) {
    m_datamodelHolder = std::move(h);
    m_fileVersion = v;
    m_availableCategories = std::move(cats);
  }
};
extern "C" void hm_holder() {
  std::vector<std::tuple<std::string, std::string>> defs;
  std::vector<std::tuple<std::string, V>> versions;
  const char* N[3] = {"one", "two", "three, with a name that is not short"};
  const char* D[3] = {"{\"a\": 1}", "{}", "{\"c\": \"some longer definition\"}"};
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "n");
  V v[3];
  bool has[3] = {};
  for (int i = 0; i < n; ++i) {
    defs.emplace_back(N[i], D[i]);
    has[i] = vp_flip("versioned");
    v[i] = symVersion();
    if (has[i])
      versions.emplace_back(N[i], v[i]);
  }
  podio::DatamodelDefinitionHolder h(std::move(defs), std::move(versions));
  const V fv = symVersion();
  Reader r(std::move(h), fv, {"events", "runs"});
  VP_ASSERT(r.currentFileVersion() == fv, "the version of the file");
  VP_ASSERT(r.getAvailableCategories().size() == 2 && r.getAvailableCategories()[1] == "runs", "the categories");
  auto names = r.getAvailableDatamodels();
  VP_ASSERT((int)names.size() == n, "all data models of the file");
  for (int i = 0; i < 3; ++i) {
    VP_ASSERT(r.getDatamodelDefinition(N[i]) == (i < n ? SV(D[i]) : SV("{}")), "the definition stored under the name");
    auto x = r.currentFileVersion(N[i]);
    VP_ASSERT(x.has_value() == (i < n && has[i]), "the version is known if it was stored");
    if (x)
      VP_ASSERT(*x == v[i], "the version stored under the name");
    if (i < n)
      VP_ASSERT(names[i] == N[i], "the names of the data models");
  }
  vp_cover("done");
}
// ---- versions
extern "C" void hm_version() {
  const V a = symVersion(), b = symVersion();
  // order by major, minor, patch
  const uint64_t x = ((uint64_t)a.major << 32) | ((uint64_t)a.minor << 16) | a.patch;
  const uint64_t y = ((uint64_t)b.major << 32) | ((uint64_t)b.minor << 16) | b.patch;
  VP_ASSERT((a < b) == (x < y), "less");
  VP_ASSERT((a <= b) == (x <= y), "less or equal");
  VP_ASSERT((a > b) == (x > y), "greater");
  VP_ASSERT((a >= b) == (x >= y), "greater or equal");
  VP_ASSERT((a == b) == (x == y), "equal");
  VP_ASSERT((a != b) == (x != y), "not equal");
  // the encoding
  const uint64_t maUL = a.major, miUL = a.minor, paUL = a.patch;
  const uint64_t mbUL = b.major, nbUL = b.minor, pbUL = b.patch;
  const uint64_t ea = PODIO_VERSION(ma, mi, pa), eb = PODIO_VERSION(mb, nb, pb);
  VP_ASSERT(PODIO_MAJOR_VERSION(ea) == a.major && PODIO_MINOR_VERSION(ea) == a.minor && PODIO_PATCH_VERSION(ea) == a.patch, "an encoded version can be taken apart again");
  VP_ASSERT((ea < eb) == (a < b) && (ea == eb) == (a == b), "encoded versions are ordered like versions");
  vp_cover("done");
}
extern "C" void hm_version_const() {
  constexpr auto d = podio::version::decode_version(PODIO_VERSION(1, 65535, 258));
  VP_ASSERT(d == (V{1, 65535, 258}), "versions are decoded");
  constexpr auto e = podio::version::decode_version(PODIO_VERSION(65535, 0, 65535));
  VP_ASSERT(e == (V{65535, 0, 65535}), "versions are decoded");
  constexpr auto bv = podio::version::decode_version(PODIO_BUILD_VERSION);
  VP_ASSERT(bv == podio::version::build_version, "the version of the build");
  constexpr auto pv = podio::version::decode_version(podio_VERSION);
  VP_ASSERT(pv == podio::version::build_version && podio::version::build_version.major == podio_VERSION_MAJOR && podio::version::build_version.minor == podio_VERSION_MINOR &&
                podio::version::build_version.patch == podio_VERSION_PATCH, "the version of the build");
  vp_cover("done");
}
