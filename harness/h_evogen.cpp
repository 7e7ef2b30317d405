// Data written by older versions of a data model, read by the code generated for the newest one
#include "io.h"
#include "ev/DatamodelDefinition.h"
#include "evrules.h"
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
constexpr uint32_t collID = 0x77, otherID = 0x78;

template <typename New, typename Old>
static New evolved(const Old& o) {
  New n{};
  evolve(o, n);
  return n;
}
static podio::ObjectID oid(int index, uint32_t id) { return podio::ObjectID{index, id}; }

static bool sameInts(const std::vector<int>& a, podio::RelationRange<int> r) {
  if (a.size() != r.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != r[i])
      return false;
  return true;
}
template <typename OldComp>
static bool sameComp(const OldComp& o, const nsp::Comp& n) {
  int y;
  if constexpr (requires { o.y_original; })
    y = o.y_original;
  else
    y = o.y;
  return n.x == o.x && n.y_renamed == y && n.extra == 0.f;
}
template <typename OldOuter>
static bool sameOuter(const OldOuter& o, const nsp::Outer& n) {
  return sameComp(o.inner, n.inner) && n.z == o.z;
}
// one file of version V
template <int V, typename FTrack, typename FComp, typename FOuter>
static void trackFile() {
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "objects");
  std::vector<FTrack> onfile(n);
  std::vector<nsp::TrackData> data;
  std::vector<int> ints;
  std::vector<FComp> vcomps;
  std::vector<FOuter> vouter;
  std::vector<podio::ObjectID> daughters, mothers;
  std::vector<int> nInts(n), nComps(n), nOuter(n), nDau(n), mother(n);
  std::vector<std::vector<int>> dau(n);
  for (int i = 0; i < n; ++i) {
    auto& d = onfile[i];
    vp_symbolic(&d, sizeof(d), "track");
    nInts[i] = vp_choose(VP_DEPTH ? 3 : 2, "ints");
    nComps[i] = i == 0 ? vp_choose(2, "comps") : 1;
    nOuter[i] = i == 0 ? 1 : vp_choose(2, "outer");
    nDau[i] = i == 0 ? 1 : 2 - i;
    mother[i] = vp_choose(i == 0 ? n + 1 : 2, "mother") - 1;
    d.ints_begin = ints.size(), d.ints_end = ints.size() + nInts[i];
    for (int k = 0; k < nInts[i]; ++k)
      ints.push_back(vp_sym<int>("int"));
    d.vcomps_begin = vcomps.size(), d.vcomps_end = vcomps.size() + nComps[i];
    for (int k = 0; k < nComps[i]; ++k)
      vcomps.push_back(vp_sym<FComp>("vcomp"));
    d.vouter_begin = vouter.size(), d.vouter_end = vouter.size() + nOuter[i];
    for (int k = 0; k < nOuter[i]; ++k)
      vouter.push_back(vp_sym<FOuter>("vouter"));
    d.daughters_begin = daughters.size(), d.daughters_end = daughters.size() + nDau[i];
    for (int k = 0; k < nDau[i]; ++k) {
      dau[i].push_back(k == 0 ? vp_choose(n, "daughter") : 0);
      daughters.push_back(oid(dau[i].back(), collID));
    }
    mothers.push_back(mother[i] < 0 ? oid(podio::ObjectID::invalid, podio::ObjectID::invalid) : oid(mother[i], collID));
    data.push_back(evolved<nsp::TrackData>(d));
  }
  auto bufs = podio::CollectionBufferFactory::instance().createBuffers("nsp::TrackCollection", V, false);
  VP_ASSERT(bufs.has_value(), "buffers for older versions can be created");
  VP_ASSERT(bufs->type == "nsp::TrackCollection", "the buffers have the type of the collection");
  *static_cast<std::vector<nsp::TrackData>*>(bufs->data) = data;
  VP_ASSERT(bufs->references->size() == 2 && bufs->vectorMembers->size() == 3, "one buffer for each relation and each vector member");
  *(*bufs->references)[0] = daughters;
  *(*bufs->references)[1] = mothers;
  *static_cast<std::vector<int>*>((*bufs->vectorMembers)[0].second) = ints;
  for (auto& c : vcomps)
    static_cast<std::vector<nsp::Comp>*>((*bufs->vectorMembers)[1].second)->push_back(evolved<nsp::Comp>(c));
  for (auto& c : vouter)
    static_cast<std::vector<nsp::Outer>*>((*bufs->vectorMembers)[2].second)->push_back(evolved<nsp::Outer>(c));
  struct Data {
    podio::CollectionReadBuffers b;
    bool given = false;
    podio::CollectionIDTable getIDTable() const { return {{collID}, {"tracks"}}; }
    std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
      if (given || name != "tracks")
        return std::nullopt;
      given = true;
      return std::move(b);
    }
    std::vector<std::string> getAvailableCollections() const { return {"tracks"}; }
    std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
  };
  auto rd = std::make_unique<Data>();
  rd->b = podio::SchemaEvolution::instance().evolveBuffers(std::move(*bufs), V, "nsp::TrackCollection");
  VP_ASSERT(rd->b.data != nullptr, "the buffers come out of the schema evolution with their content");
  const podio::Frame frame(std::move(rd));
  auto& tracks = frame.get<nsp::TrackCollection>("tracks");
  VP_ASSERT(tracks.isValid() && tracks.size() == (size_t)n, "all objects are read");
  VP_ASSERT(tracks.getSchemaVersion() == 3, "what is in memory has the current version");
  for (int i = 0; i < n; ++i) {
    const auto& o = onfile[i];
    auto t = tracks[i];
    VP_ASSERT(t.getUnchanged() == o.unchanged, "members that did not change keep their values");
    if constexpr (requires { o.oldEnergy; })
      VP_ASSERT(same(t.getEnergy(), o.oldEnergy), "a renamed member has the value it had under its old name");
    else
      VP_ASSERT(same(t.getEnergy(), o.midEnergy), "a renamed member has the value it had under its old name");
    VP_ASSERT(same(t.getMass(), o.oldMass), "another renamed member of the same type has its own value");
    VP_ASSERT(t.getArr() == o.oldArr, "a renamed array has the values it had");
    VP_ASSERT(same(t.getNarrow(), static_cast<double>(o.narrow)), "a member with a wider type has the value it had");
    VP_ASSERT(t.getAdded() == 0, "a new member has its default value");
    VP_ASSERT(sameComp(o.comp, t.getComp()), "components are evolved as members");
    VP_ASSERT(sameComp(o.comps[0], t.getComps(0)) && sameComp(o.comps[1], t.getComps(1)), "components are evolved in arrays");
    VP_ASSERT(sameOuter(o.outer, t.getOuter()), "components are evolved in components");
    VP_ASSERT(sameInts({ints.begin() + o.ints_begin, ints.begin() + o.ints_end}, t.getInts()), "vector members keep their values");
    VP_ASSERT(t.getVcomps().size() == (size_t)nComps[i] && t.getVouter().size() == (size_t)nOuter[i], "vector members keep their length");
    for (int k = 0; k < nComps[i]; ++k)
      VP_ASSERT(sameComp(vcomps[o.vcomps_begin + k], t.getVcomps(k)), "components are evolved in vector members");
    for (int k = 0; k < nOuter[i]; ++k)
      VP_ASSERT(sameOuter(vouter[o.vouter_begin + k], t.getVouter(k)), "nested components are evolved in vector members");
    VP_ASSERT(t.getDaughters().size() == dau[i].size(), "relations keep their number");
    for (size_t k = 0; k < dau[i].size(); ++k)
      VP_ASSERT(t.getDaughters(k) == tracks[dau[i][k]], "relations point to the same objects");
    if (mother[i] >= 0)
      VP_ASSERT(t.getMother() == tracks[mother[i]], "relations point to the same object");
    else
      VP_ASSERT(!t.getMother().isAvailable(), "an unset relation stays unset");
  }
  if (n == 2)
    vp_cover("two");
}
extern "C" void hm_evo_track1() { trackFile<1, file_v1::nsp::TrackData, file_v1::nsp::Comp, file_v1::nsp::Outer>(); }
extern "C" void hm_evo_track2() { trackFile<2, file_v2::nsp::TrackData, file_v2::nsp::Comp, file_v2::nsp::Outer>(); }

// a datatype that has a new name
template <typename F>
static void renamed(int V) {
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "objects");
  auto b = podio::CollectionBufferFactory::instance().createBuffers("nsp::OldNameCollection", V, false);
  VP_ASSERT(b.has_value(), "files with the old name can be read");
  VP_ASSERT(b->type == "nsp::NewNameCollection", "and become collections with the new name");
  std::vector<F> onfile(n);
  std::vector<float> ws;
  auto& data = *static_cast<std::vector<nsp::NewNameData>*>(b->data);
  for (auto& o : onfile) {
    vp_symbolic(&o, sizeof(o), "obj");
    o.ws_begin = ws.size();
    const int k = vp_choose(3, "ws");
    for (int j = 0; j < k; ++j)
      ws.push_back(vp_sym<float>("w"));
    o.ws_end = ws.size();
    o.tracks_begin = 0, o.tracks_end = 0;
    data.push_back(evolved<nsp::NewNameData>(o));
  }
  *static_cast<std::vector<float>*>((*b->vectorMembers)[0].second) = ws;
  auto bb = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), V, "nsp::OldNameCollection");
  auto coll = bb.createCollection(std::move(bb), false);
  VP_ASSERT(coll->getTypeName() == "nsp::NewNameCollection", "the collection has the new type");
  auto* c = dynamic_cast<nsp::NewNameCollection*>(coll.get());
  VP_ASSERT(c, "the collection can be used with the new type");
  coll->setID(collID);
  coll->prepareAfterRead();
  VP_ASSERT(c->size() == (size_t)n, "all objects are read");
  for (int i = 0; i < n; ++i) {
    auto& o = onfile[i];
    auto t = (*c)[i];
    VP_ASSERT(t.getI() == o.i && same(t.getD(), o.d), "members of a renamed type have the values they had");
    VP_ASSERT(sameComp(o.c, t.getC()), "components are evolved in members of renamed types");
    VP_ASSERT(t.getWs().size() == o.ws_end - o.ws_begin, "vector members keep their length");
    for (size_t k = 0; k < t.getWs().size(); ++k)
      VP_ASSERT(same(t.getWs(k), ws[o.ws_begin + k]), "vector members keep their values");
  }
  vp_cover("done");
}
extern "C" void hm_evo_renamed() {
  if (vp_flip("version"))
    renamed<file_v1::nsp::OldNameData>(1);
  else
    renamed<file_v2::nsp::OldNameData>(2);
}
// subset collections of old versions
extern "C" void hm_evo_subset() {
  const int v = 1 + vp_choose(3, "version");
  const bool old = v < 3 && vp_flip("renamed type");
  const char* name = old ? "nsp::OldNameCollection" : vp_flip("same") ? "SameCollection" : "nsp::TrackCollection";
  auto b = podio::CollectionBufferFactory::instance().createBuffers(name, v, true);
  VP_ASSERT(b.has_value() && b->data == nullptr, "subset collections can be read from all versions");
  VP_ASSERT(b->references->size() == 1, "they have the reference buffer");
  (*b->references)[0]->push_back(oid(vp_sym<int>("index"), otherID));
  auto bb = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, name);
  auto coll = bb.createCollection(std::move(bb), true);
  VP_ASSERT(coll->isSubsetCollection(), "they are subset collections");
  VP_ASSERT(coll->getTypeName() == std::string_view(old ? "nsp::NewNameCollection" : name), "of the current type");
  vp_cover("done");
}
// what did not change
extern "C" void hm_evo_same() {
  const int v = 1 + vp_choose(3, "version");
  const int n = vp_choose(3, "objects");
  auto b = podio::CollectionBufferFactory::instance().createBuffers("SameCollection", v, false);
  VP_ASSERT(b.has_value(), "buffers for older versions can be created");
  std::vector<file_v1::SameData> onfile(n);
  for (auto& o : onfile) {
    vp_symbolic(&o, sizeof(o), "obj");
    static_cast<std::vector<SameData>*>(b->data)->push_back(evolved<SameData>(o));
  }
  auto bb = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, "SameCollection");
  auto coll = bb.createCollection(std::move(bb), false);
  coll->setID(collID);
  coll->prepareAfterRead();
  auto* c = dynamic_cast<SameCollection*>(coll.get());
  VP_ASSERT(c && c->size() == (size_t)n, "all objects are read");
  for (int i = 0; i < n; ++i)
    VP_ASSERT((*c)[i].getL() == onfile[i].l, "values of types that did not change stay the same");
  vp_cover("done");
}
// the dictionary
static int classVersion(const std::string& n) {
  for (auto& c : classVersions)
    if (n == c.name)
      return c.version;
  return -1;
}
extern "C" void hm_evo_dict() {
  VP_ASSERT(brokenRules.empty(), "all rules for reading older versions compile");
  const char* now[] = {"nsp::Comp", "nsp::Outer", "nsp::TrackData", "nsp::NewNameData", "SameData"};
  for (auto* n : now) {
    VP_ASSERT(classVersion(n) == 3, "stored classes have the current schema version");
    VP_ASSERT(classVersion("std::vector<" + std::string(n) + ">") == 3, "containers of stored classes have the current schema version");
  }
  VP_ASSERT(classVersion("nsp::v1::TrackData") == 1 && classVersion("nsp::v2::TrackData") == 2 && classVersion("nsp::v1::Comp") == 1 && classVersion("nsp::v2::Comp") == 2 &&
                classVersion("v1::Gone") == 1 && classVersion("v2::Gone") == 2 && classVersion("nsp::v1::OldNameData") == 1 && classVersion("nsp::v2::OldNameData") == 2,
            "definitions of older versions are in the dictionary with their version");
  VP_ASSERT(ev::meta::schemaVersion == 3, "the schema version of the model");
  vp_cover("done");
}
// definitions of older versions are what these versions wrote
#define SAME(m)                                                                                                        \
  VP_ASSERT(offsetof(F, m) == offsetof(G, m) && sizeof(f.m) == sizeof(g.m), "members of old definitions are where they were: " #m);
extern "C" void hm_evo_defs() {
  {
    using F = file_v1::nsp::TrackData;
    using G = nsp::v1::TrackData;
    F f{};
    G g{};
    VP_ASSERT(sizeof(F) == sizeof(G), "old definitions have the size they had");
    SAME(unchanged) SAME(outer) SAME(outer.inner.y_original) SAME(outer.g.b) SAME(oldEnergy) SAME(oldMass) SAME(narrow) SAME(comp.y_original) SAME(comps) SAME(gone) SAME(oldArr)
    SAME(ints_begin) SAME(ints_end) SAME(vcomps_begin) SAME(vouter_end) SAME(daughters_begin) SAME(daughters_end)
  }
  {
    using F = file_v2::nsp::TrackData;
    using G = nsp::v2::TrackData;
    F f{};
    G g{};
    VP_ASSERT(sizeof(F) == sizeof(G), "old definitions have the size they had");
    SAME(unchanged) SAME(outer) SAME(outer.inner.y) SAME(outer.g.b) SAME(midEnergy) SAME(oldMass) SAME(narrow) SAME(comp.y) SAME(comps) SAME(gone) SAME(oldArr)
    SAME(ints_begin) SAME(ints_end) SAME(vcomps_begin) SAME(vouter_end) SAME(daughters_begin) SAME(daughters_end)
  }
  {
    using F = file_v1::nsp::OldNameData;
    using G = nsp::v1::OldNameData;
    F f{};
    G g{};
    VP_ASSERT(sizeof(F) == sizeof(G), "old definitions have the size they had");
    SAME(i) SAME(d) SAME(c.y_original) SAME(ws_begin) SAME(ws_end) SAME(tracks_begin) SAME(tracks_end)
  }
  vp_cover("done");
}
