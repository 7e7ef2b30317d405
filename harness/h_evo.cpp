// The registries for evolution functions and for buffer creation
#include "io.h"
#include "podio/UserDataCollection.h"
#include "podio/detail/LinkCollectionImpl.h"
#include "podio/LinkCollection.h"
#include "vm/HitCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/MixedCollection.h"
#include "vm/PartCollection.h"
using namespace vio;
using namespace vns;
using SE = podio::SchemaEvolution;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static int calls[8], lastFrom;
static int deleted;
template <int ID>
static podio::CollectionReadBuffers evo(podio::CollectionReadBuffers&& b, podio::SchemaVersionT v) {
  calls[ID]++;
  lastFrom = v;
  return std::move(b);
}
static podio::CollectionReadBuffers someBuffers(void* tag) {
  podio::CollectionReadBuffers b;
  b.data = tag;
  b.schemaVersion = 1;
  b.type = "T";
  b.deleteBuffers = [](podio::CollectionReadBuffers& x) {
    if (x.data)
      deleted++;
    x.data = nullptr;
  };
  return b;
}
using F = podio::CollectionReadBuffers (*)(podio::CollectionReadBuffers&&, podio::SchemaVersionT);
static F autoF[4] = {evo<0>, evo<1>, evo<2>, evo<3>};
static F userF[4] = {evo<4>, evo<5>, evo<6>, evo<7>};

// functions for all versions below the current one, registered in any order, some of them by the user
extern "C" void hm_evolve() {
  const int cur = 1 + vp_choose(VP_DEPTH ? 4 : 3, "current version");
  auto& se = SE::mutInstance();
  bool user[5] = {};
  // the generated code registers first for all versions, or after the user
  const int userFirst = vp_choose(2, "user first");
  const bool desc = vp_flip("descending");
  auto registerAuto = [&] {
    for (int i = 0; i < cur; ++i) {
      const int v = desc ? cur - i : 1 + i;
      se.registerEvolutionFunc("T", v, cur, autoF[v - 1], SE::Priority::AutoGenerated);
    }
  };
  auto registerUser = [&] {
    for (int i = 0; i < cur; ++i) {
      const int v = desc ? 1 + i : cur - i;
      if (vp_flip("user")) {
        user[v] = true;
        if (vp_flip("default"))
          se.registerEvolutionFunc("T", v, cur, userF[v - 1]);
        else
          se.registerEvolutionFunc("T", v, cur, userF[v - 1], SE::Priority::UserDefined);
      }
    }
  };
  if (vp_flip("other types before"))
    se.registerEvolutionFunc("Other", 1, 2, evo<3>, SE::Priority::AutoGenerated);
  if (userFirst)
    registerUser(), registerAuto();
  else
    registerAuto(), registerUser();
  if (vp_flip("other types after"))
    se.registerEvolutionFunc("Another", 1, 2, evo<3>, SE::Priority::UserDefined);
  // the version of the buffers may be anything; there is no version 0
  const uint32_t from = vp_sym<uint32_t>("from");
  int tag = 0;
  {
    auto out = SE::instance().evolveBuffers(someBuffers(&tag), from, "T");
    VP_ASSERT(out.data == &tag && out.type == "T", "the buffers are passed through the evolution");
    VP_ASSERT(deleted == 0, "the buffers stay alive");
    int total = 0;
    for (int c : calls)
      total += c;
    if (from >= 1 && from < (uint32_t)cur) {
      VP_ASSERT(total == 1 && lastFrom == (int)from, "exactly one function evolves the buffers, and it gets their version");
      for (int v = 1; v < cur; ++v)
        if (from == (uint32_t)v)
          VP_ASSERT(calls[(user[v] ? 4 : 0) + v - 1] == 1, "it is the one registered for that version, by the user if there is one");
      vp_cover("evolved");
    } else {
      VP_ASSERT(total == 0, "buffers that have the current version (or a newer one) are not evolved");
      vp_cover("not evolved");
    }
  }
  VP_ASSERT(deleted == 1, "the buffers are freed once");
  {
    auto out = SE::instance().evolveBuffers(someBuffers(&tag), from, "unknown type");
    VP_ASSERT(out.data == &tag, "buffers of unknown types are left alone");
  }
}
// what the generated types and the built-in ones registered
extern "C" void hm_evolve_known() {
  const char* types[] = {"HitCollection", "MixedCollection", "vns::PartCollection"};
  const int t = vp_choose(3, "type");
  const uint32_t from = vp_sym<uint32_t>("from");
  int tag = 0;
  auto out = SE::instance().evolveBuffers(someBuffers(&tag), from, types[t]);
  VP_ASSERT(out.data == &tag, "buffers of generated types come through unchanged");
  auto out2 = SE::instance().evolveBuffers(std::move(out), from, types[t]);
  VP_ASSERT(out2.data == &tag && out.data == nullptr, "buffers are moved, not copied");
  vp_cover("done");
}
// ---- creation of buffers
static int made[8];
template <int ID>
static podio::CollectionReadBuffers make(bool sub) {
  made[ID]++;
  podio::CollectionReadBuffers b;
  b.schemaVersion = 100 * ID + sub;
  return b;
}
using M = podio::CollectionReadBuffers (*)(bool);
static M makers[5] = {make<0>, make<1>, make<2>, make<3>, make<4>};
extern "C" void hm_factory() {
  auto& fac = podio::CollectionBufferFactory::mutInstance();
  int slot[8] = {}; // expected creation function per version, 0: none
  int have = 0;
  const int steps = VP_DEPTH ? 3 : 2;
  fac.registerCreationFunc("Z", 2, makers[0]);
  for (int s = 1; s <= steps; ++s) {
    const int v = 1 + vp_choose(4, "version");
    fac.registerCreationFunc("T", v, makers[s]);
    if (have == 0 || have < v)
      for (int i = have + 1; i <= v; ++i)
        slot[i] = s;
    else
      slot[v] = s;
    have = std::max(have, v);
  }
  const uint32_t q = vp_sym<uint32_t>("version");
  const bool sub = vp_flip("subset");
  auto b = podio::CollectionBufferFactory::instance().createBuffers("T", q, sub);
  VP_ASSERT(b.has_value() == (q >= 1 && q <= (uint32_t)have), "buffers exist for all versions up to the latest one, from 1");
  for (int v = 1; v <= have; ++v)
    if (q == (uint32_t)v)
      VP_ASSERT(b->schemaVersion == (uint32_t)(100 * slot[v] + sub) && made[slot[v]] == 1, "they are made by the function registered for the version");
  VP_ASSERT(!podio::CollectionBufferFactory::instance().createBuffers("unknown", q, sub), "unknown types have no buffers");
  auto z = podio::CollectionBufferFactory::instance().createBuffers("Z", 1, sub);
  VP_ASSERT(z && z->schemaVersion == (uint32_t)sub, "types do not interfere");
  vp_cover("done");
}
// the buffers of real types: shape, and that the collection made from them is the right one
template <typename C>
static void known(const char* name, const char* valueType, size_t nrefs, size_t nvm, uint32_t maxVersion) {
  const uint32_t v = vp_sym<uint32_t>("version");
  const bool sub = vp_flip("subset");
  const uint64_t heap = vp_heap_count();
  {
    auto b = podio::CollectionBufferFactory::instance().createBuffers(name, v, sub);
    VP_ASSERT(b.has_value() == (v >= 1 && v <= maxVersion), "buffers exist for all schema versions up to the current one");
    if (!b)
      return;
    VP_ASSERT(b->type == name, "they carry their type");
    VP_ASSERT((b->data == nullptr) == sub, "only subset collections come without data");
    VP_ASSERT((b->references ? b->references->size() : 0) == (sub ? 1 : nrefs), "one list of references per relation, one for subset collections");
    if (b->references)
      for (auto& r : *b->references)
        VP_ASSERT(r && r->empty(), "the lists are usable");
    VP_ASSERT((b->vectorMembers ? b->vectorMembers->size() : 0) == (sub ? 0 : nvm), "one buffer per vector member");
    if (b->vectorMembers)
      for (auto& m : *b->vectorMembers)
        VP_ASSERT(m.second, "the buffers of vector members are usable");
    switch (vp_choose(3, "then")) {
    case 0: break; // never used
    case 1: {
      podio::CollectionReadBuffers o(std::move(*b));
      VP_ASSERT(o.type == name && (o.data == nullptr) == sub, "moved buffers are complete");
      break;
    }
    case 2: {
      const auto cv = b->schemaVersion;
      auto c = b->createCollection(std::move(*b), sub);
      VP_ASSERT(c && c->getTypeName() == name && c->getValueTypeName() == valueType, "the collection has the right type");
      VP_ASSERT(dynamic_cast<C*>(c.get()) != nullptr, "the collection can be used as its type");
      VP_ASSERT(c->isSubsetCollection() == sub && c->size() == 0, "the collection is empty");
      VP_ASSERT(cv == c->getSchemaVersion(), "buffers carry the schema version");
      c->prepareAfterRead();
      if (!sub)
        static_cast<C&>(*c).create(), VP_ASSERT(c->size() == 1, "the collection is usable");
      break;
    }
    }
  }
  VP_ASSERT(vp_heap_count() == heap, "buffers are freed completely, exactly once");
  vp_cover("done");
}
extern "C" void hm_factory_known() {
  switch (vp_choose(4, "type")) {
  case 0: known<HitCollection>("HitCollection", "Hit", 0, 0, 3); break;
  case 1: known<PartCollection>("vns::PartCollection", "vns::Part", 5, 0, 3); break;
  case 2: known<MixedCollection>("MixedCollection", "Mixed", 2, 1, 3); break;
  case 3: known<HitPartLinkCollection>("podio::LinkCollection<Hit,vns::Part>", "podio::Link<Hit,vns::Part>", 2, 0, 1); break;
  }
}
extern "C" void hm_factory_user() {
  const uint32_t v = vp_sym<uint32_t>("version");
  const uint64_t heap = vp_heap_count();
  {
    auto b = podio::CollectionBufferFactory::instance().createBuffers("podio::UserDataCollection<double>", v, false);
    VP_ASSERT(b.has_value() == (v == 1), "buffers exist for the schema version of user data");
    if (!b)
      return;
    b->dataAsVector<double>()->push_back(4.5);
    if (vp_flip("use")) {
      auto c = b->createCollection(std::move(*b), false);
      VP_ASSERT(c->getTypeName() == "podio::UserDataCollection<double>" && c->size() == 1, "the collection has the data");
      VP_ASSERT(static_cast<podio::UserDataCollection<double>&>(*c)[0] == 4.5, "the collection has the data");
    }
  }
  VP_ASSERT(vp_heap_count() == heap, "buffers are freed completely, exactly once");
  vp_cover("done");
}
