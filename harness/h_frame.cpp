// The Frame: putting, getting, lazy unpacking, naming and IDs
#include "io.h"
#include "podio/LinkCollection.h"
#include "podio/ROOTFrameData.h"
#include "podio/UserDataCollection.h"
#include "vm/HitCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/PartCollection.h"
#include <algorithm>
#include <map>
#include <set>
#include "ROOTFrameData.cc"
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const char* NAMES[] = {"alpha", "b", "alpha2"};

static bool sameNames(std::vector<std::string> got, std::vector<std::string> want) {
  if (got.size() != want.size())
    return false;
  for (auto& w : want)
    if (std::count(got.begin(), got.end(), w) != 1)
      return false;
  return true;
}

// ---- C14: puts and gets against a map
extern "C" void hm_put_get() {
  const uint64_t heap = vp_heap_count();
  {
    podio::Frame f;
    struct Ent {
      int kind = -1; // 0 hits, 1 parts, 2 user data
      int tag = 0;
      const podio::CollectionBase* ptr = nullptr;
      uint32_t id = 0;
    };
    Ent ent[3];
    const int steps = VP_DEPTH ? 4 : 3;
    for (int s = 0; s < steps; ++s) {
      const int n = vp_choose(3, "name"), kind = vp_choose(3, "kind");
      const bool byPtr = vp_flip("unique_ptr");
      const int tag = 10 * s + 1;
      const bool dup = ent[n].kind >= 0;
      const podio::CollectionBase* p = nullptr;
      bool thrown = vp_throws<std::invalid_argument>([&] {
        if (kind == 0) {
          HitCollection c;
          c.create().setT(tag);
          if (byPtr)
            f.put(std::make_unique<HitCollection>(std::move(c)), NAMES[n]);
          else
            p = &f.put(std::move(c), NAMES[n]);
        } else if (kind == 1) {
          PartCollection c;
          c.create().setPdg(tag);
          c.create().setPdg(tag + 1);
          if (byPtr)
            f.put(std::make_unique<PartCollection>(std::move(c)), NAMES[n]);
          else
            p = &f.put(std::move(c), NAMES[n]);
        } else {
          podio::UserDataCollection<int> c;
          c.push_back(tag);
          if (byPtr)
            f.put(std::make_unique<podio::UserDataCollection<int>>(std::move(c)), NAMES[n]);
          else
            p = &f.put(std::move(c), NAMES[n]);
        }
      });
      VP_ASSERT(thrown == dup, "a name can be used exactly once");
      if (!dup) {
        ent[n].kind = kind;
        ent[n].tag = tag;
        ent[n].ptr = f.get(NAMES[n]);
        VP_ASSERT(byPtr || p == ent[n].ptr, "put returns the collection that is in the frame");
        ent[n].id = ent[n].ptr->getID();
      }
      // the whole state after every step
      std::vector<std::string> have;
      for (int k = 0; k < 3; ++k) {
        const auto* c = f.get(NAMES[k]);
        VP_ASSERT((c != nullptr) == (ent[k].kind >= 0), "a collection is there iff it was put");
        if (!c) {
          VP_ASSERT(vp_throws<std::runtime_error>([&] { f.get<HitCollection>(NAMES[k]); }), "a missing collection is reported");
          VP_ASSERT(!f.getCollectionForWrite(NAMES[k]), "a missing collection cannot be written");
          VP_ASSERT(!f.getCollectionIDTableForWrite().present(NAMES[k]), "a name that was never used has no ID");
          continue;
        }
        have.push_back(NAMES[k]);
        VP_ASSERT(c == ent[k].ptr, "a collection stays where it is");
        VP_ASSERT(c->getID() == ent[k].id && c->hasID(), "a collection keeps its ID");
        VP_ASSERT(f.getName(*c) == std::optional<std::string>(NAMES[k]) && f.getName(ent[k].id) == std::optional<std::string>(NAMES[k]),
                  "ID and name belong together");
        VP_ASSERT(f.getCollectionIDTableForWrite().collectionID(NAMES[k]) == ent[k].id, "the ID table has the ID of the collection");
        VP_ASSERT(vp_throws<std::runtime_error>([&] { f.get<HitCollection>(NAMES[k]); }) == (ent[k].kind != 0), "only the type that was put can be retrieved");
        VP_ASSERT(vp_throws<std::runtime_error>([&] { f.get<PartCollection>(NAMES[k]); }) == (ent[k].kind != 1), "only the type that was put can be retrieved");
        if (ent[k].kind == 0) {
          auto& h = f.get<HitCollection>(NAMES[k]);
          VP_ASSERT(h.size() == 1 && h[0].getT() == ent[k].tag, "the contents are those that were put");
          VP_ASSERT((h[0].getObjectID() == podio::ObjectID{0, ent[k].id}), "the objects carry the ID of their collection");
        } else if (ent[k].kind == 1) {
          auto& h = f.get<PartCollection>(NAMES[k]);
          VP_ASSERT(h.size() == 2 && h[0].getPdg() == ent[k].tag && h[1].getPdg() == ent[k].tag + 1, "the contents are those that were put");
          VP_ASSERT((h[1].getObjectID() == podio::ObjectID{1, ent[k].id}), "the objects carry the ID of their collection");
        } else {
          auto& h = f.get<podio::UserDataCollection<int>>(NAMES[k]);
          VP_ASSERT(h.size() == 1 && h[0] == ent[k].tag, "the contents are those that were put");
        }
        for (int j = 0; j < k; ++j)
          VP_ASSERT(ent[j].kind < 0 || ent[j].id != ent[k].id, "different names have different IDs");
      }
      VP_ASSERT(sameNames(f.getAvailableCollections(), have), "exactly the collections that were put are listed, once each");
    }
    VP_ASSERT(f.get("other") == nullptr && f.getName(12345u) == std::nullopt, "unknown names and IDs are reported as such");
    const int how = vp_choose(3, "move");
    if (how) {
      podio::Frame g = how == 1 ? std::move(f) : podio::Frame();
      if (how == 2) {
        g.put(HitCollection(), "x");
        g = std::move(f);
        VP_ASSERT(!g.get("x"), "assigning a frame replaces its contents");
      }
      for (int k = 0; k < 3; ++k)
        VP_ASSERT(g.get(NAMES[k]) == ent[k].ptr, "moving a frame leaves its collections in place");
    }
  }
  VP_ASSERT(vp_heap_count() == heap, "nothing is leaked");
  vp_cover("done");
}
extern "C" void hm_frame_null() {
  VP_ASSERT(vp_throws<std::invalid_argument>([&] { podio::Frame f(std::unique_ptr<RawData>(nullptr)); }), "a frame cannot be built without data");
  VP_ASSERT(vp_throws<std::invalid_argument>([&] { podio::Frame f(std::unique_ptr<podio::ROOTFrameData>(nullptr)); }), "a frame cannot be built without data");
  podio::Frame f;
  VP_ASSERT(f.getAvailableCollections().empty() && f.getCollectionIDTableForWrite().empty(), "a new frame is empty");
  vp_cover("done");
}

// ---- C15: a frame with collections that refer to each other, written out
struct Src {
  podio::Frame out;
  int t[2], pdg[2], opdg, u;
  Src() {
    HitCollection hits, sub;
    PartCollection parts, other;
    podio::UserDataCollection<int> user;
    HitPartLinkCollection links;
    for (int i = 0; i < 2; ++i) {
      t[i] = vp_sym<int>("t");
      hits.create().setT(t[i]);
      pdg[i] = vp_sym<int>("pdg");
      parts.create().setPdg(pdg[i]);
    }
    opdg = vp_sym<int>("opdg");
    auto o = other.create();
    o.setPdg(opdg);
    // parts -> other -> parts, everything -> hits
    parts[0].setMother(o);
    parts[0].addToDaughters(parts[1]);
    parts[1].setMother(parts[0]);
    parts[1].addToHits(hits[1]);
    o.setMother(parts[1]);
    o.addToParents(o);
    o.setHit(hits[0]);
    sub.setSubsetCollection();
    sub.push_back(hits[1]);
    user.push_back(u = vp_sym<int>("u"));
    auto l = links.create();
    l.setFrom(hits[0]);
    l.setTo(o);
    out.put(std::move(hits), "hits");
    out.put(std::move(parts), "parts");
    out.put(std::move(other), "other");
    out.put(std::move(sub), "sub");
    out.put(std::move(user), "user");
    out.put(std::move(links), "links");
  }
  static RawData write(const podio::Frame& f) {
    RawData r;
    r.add(store<HitData>(*f.getCollectionForWrite("hits"), "hits"));
    r.add(store<PartData>(*f.getCollectionForWrite("parts"), "parts"));
    r.add(store<PartData>(*f.getCollectionForWrite("other"), "other"));
    r.add(store<HitData>(*f.getCollectionForWrite("sub"), "sub"));
    r.add(store<int>(*f.getCollectionForWrite("user"), "user"));
    r.add(store<podio::LinkData>(*f.getCollectionForWrite("links"), "links"));
    return r;
  }
  void checkColl(const podio::Frame& in, int k) const {
    switch (k) {
    case 0: {
      auto& h = in.get<HitCollection>("hits");
      VP_ASSERT(h.size() == 2 && h[0].getT() == t[0] && h[1].getT() == t[1], "contents of a collection without relations");
      break;
    }
    case 1: {
      auto& p = in.get<PartCollection>("parts");
      VP_ASSERT(p.size() == 2 && p[0].getPdg() == pdg[0] && p[1].getPdg() == pdg[1], "contents of a collection with relations");
      VP_ASSERT(p[0].getMother().isAvailable() && p[0].getMother().getPdg() == opdg, "a single relation into another collection");
      VP_ASSERT(p[0].daughters_size() == 1 && p[0].getDaughters(0) == p[1], "a multi relation into the same collection");
      VP_ASSERT(p[1].getMother() == p[0], "a single relation into the same collection");
      VP_ASSERT(p[1].hits_size() == 1 && p[1].getHits(0).getT() == t[1], "a multi relation into another collection");
      VP_ASSERT(p[0].getMother().getMother() == p[1], "relations of related objects are there as well");
      break;
    }
    case 2: {
      auto& o = in.get<PartCollection>("other");
      VP_ASSERT(o.size() == 1 && o[0].getPdg() == opdg && o[0].getMother().isAvailable() && o[0].getMother().getPdg() == pdg[1], "a relation back");
      VP_ASSERT(o[0].parents_size() == 1 && o[0].getParents(0) == o[0] && o[0].getHit().getT() == t[0], "a relation to itself");
      VP_ASSERT(o[0].getMother().hits_size() == 1 && o[0].getMother().getHits(0).getT() == t[1], "relations of related objects are there as well");
      break;
    }
    case 3: {
      auto& s = in.get<HitCollection>("sub");
      VP_ASSERT(s.isSubsetCollection() && s.size() == 1 && s[0].getT() == t[1], "a subset collection refers to the objects");
      VP_ASSERT(s[0] == in.get<HitCollection>("hits")[1], "and to no copies of them");
      break;
    }
    case 4: {
      auto& us = in.get<podio::UserDataCollection<int>>("user");
      VP_ASSERT(us.size() == 1 && us[0] == u, "contents of user data");
      break;
    }
    case 5: {
      auto& l = in.get<HitPartLinkCollection>("links");
      VP_ASSERT(l.size() == 1 && l[0].getFrom().getT() == t[0] && l[0].getTo().getPdg() == opdg, "a link leads to its objects");
      VP_ASSERT(l[0].getTo().getMother().getPdg() == pdg[1], "and relations of these are there as well");
      break;
    }
    }
  }
};
static const char* CN[] = {"hits", "parts", "other", "sub", "user", "links"};
static const std::vector<std::string> ALL(CN, CN + 6);

// the frame data of the ROOT based readers
static podio::Frame rootFrame(RawData&& r) {
  podio::ROOTFrameData::BufferMap m;
  for (auto& s : r.colls)
    m.emplace(s.name, load(s));
  auto tab = std::make_shared<podio::CollectionIDTable>(r.ids, r.names);
  return podio::Frame(std::make_unique<podio::ROOTFrameData>(std::move(m), std::move(tab), std::move(*r.params)));
}

static podio::Frame openFrame(const Src& src, int how) {
  RawData r = Src::write(src.out);
  r.params->set("par", 42);
  if (how == 0)
    return read(std::move(r));
  if (how == 1) {
    r.consume = false;
    return read(std::move(r));
  }
  return rootFrame(std::move(r));
}

extern "C" void hm_lazy() {
  const uint64_t heap = vp_heap_count();
  {
    Src src;
    podio::Frame in = openFrame(src, vp_flip("root") ? 2 : 0);
    VP_ASSERT(sameNames(in.getAvailableCollections(), ALL), "everything that was written is listed before anything is read");
    VP_ASSERT(in.getParameter<int>("par") == 42, "parameters are there");
    const podio::CollectionBase* seen[6] = {};
    const int steps = VP_DEPTH ? 4 : 3;
    for (int s = 0; s < steps; ++s) {
      const int k = vp_choose(7, "which");
      if (k == 6) {
        VP_ASSERT(in.get("unknown") == nullptr && vp_throws<std::runtime_error>([&] { in.get<HitCollection>("unknown"); }), "an unknown name is reported");
      } else {
        const auto* c = vp_flip("for write") ? in.getCollectionForWrite(CN[k]) : in.get(CN[k]);
        VP_ASSERT(c != nullptr && (!seen[k] || seen[k] == c), "a collection is unpacked once and stays where it is");
        VP_ASSERT(c->getID() == src.out.get(CN[k])->getID(), "the ID is the one that was written");
        VP_ASSERT(in.getName(c->getID()) == std::optional<std::string>(CN[k]), "the ID belongs to the name");
        seen[k] = c;
        src.checkColl(in, k);
      }
      VP_ASSERT(sameNames(in.getAvailableCollections(), ALL), "what is listed does not depend on what was read");
    }
    for (int k = 0; k < 6; ++k)
      VP_ASSERT(!seen[k] || seen[k] == in.get(CN[k]), "a collection stays where it is");
    vp_cover("done");
  }
  VP_ASSERT(vp_heap_count() == heap, "nothing is leaked, whatever was read");
}
// after any read history, a second generation has everything
extern "C" void hm_rewrite() {
  Src src;
  podio::Frame in = openFrame(src, vp_choose(3, "kind"));
  const int steps = VP_DEPTH ? 3 : 2;
  for (int s = 0; s < steps; ++s) {
    const int k = vp_choose(7, "which");
    if (k < 6)
      (void)in.get(CN[k]);
  }
  if (vp_flip("moved")) {
    podio::Frame other(std::move(in));
    in = std::move(other);
  }
  RawData again = Src::write(in);
  podio::Frame in2 = read(std::move(again));
  const int first = vp_choose(6, "first");
  for (int k = 0; k < 6; ++k)
    src.checkColl(in2, (first + k) % 6);
  VP_ASSERT(sameNames(in2.getAvailableCollections(), ALL), "everything is there after a second round trip");
  for (int k = 0; k < 6; ++k)
    VP_ASSERT(in2.get(CN[k])->getID() == src.out.get(CN[k])->getID(), "IDs are kept from file to file");
  vp_cover("done");
}
// adding collections to a frame that was read
extern "C" void hm_raw_put() {
  Src src;
  podio::Frame in = openFrame(src, vp_flip("root") ? 2 : 0);
  const int k = vp_choose(6, "read first"); // read something before (or after)
  const bool before = vp_flip("before");
  if (before)
    (void)in.get(CN[k]);
  const auto avail = in.getAvailableCollections();
  PartCollection nw;
  auto np = nw.create();
  np.setPdg(77);
  np.addToDaughters(in.get<PartCollection>("parts")[1]);
  auto& put = in.put(std::move(nw), "new");
  for (int j = 0; j < 6; ++j)
    VP_ASSERT(put.getID() != in.get(CN[j])->getID(), "a new collection gets an ID of its own");
  VP_ASSERT(in.getName(put.getID()) == std::optional<std::string>("new"), "a new collection can be found by its ID");
  for (int j = 0; j < 6; ++j)
    src.checkColl(in, j);
  auto names = ALL;
  names.push_back("new");
  VP_ASSERT(sameNames(in.getAvailableCollections(), names), "a new collection is listed with the others");
  RawData again = Src::write(in);
  again.add(store<PartData>(*in.getCollectionForWrite("new"), "new"));
  podio::Frame in2 = read(std::move(again));
  auto& r = in2.get<PartCollection>("new");
  VP_ASSERT(r.size() == 1 && r[0].getPdg() == 77 && r[0].getDaughters(0) == in2.get<PartCollection>("parts")[1], "relations between old and new collections survive");
  vp_cover("done");
}
// a name that is taken by a collection in the file is taken
extern "C" void hm_raw_clash() {
  Src src;
  podio::Frame in = openFrame(src, vp_flip("root") ? 2 : 0);
  const int k = vp_choose(6, "name");
  if (vp_flip("read before"))
    (void)in.get(CN[vp_choose(6, "which")]);
  HitCollection c;
  c.create();
  VP_ASSERT(vp_throws<std::invalid_argument>([&] { in.put(std::move(c), CN[k]); }), "the name of a collection that was read cannot be used again");
  VP_ASSERT(sameNames(in.getAvailableCollections(), ALL), "a refused collection is not listed");
  for (int j = 0; j < 6; ++j)
    src.checkColl(in, j);
  vp_cover("done");
}
// a name that is in the ID table but not among the collections of this frame is free, and keeps its ID
extern "C" void hm_raw_reuse() {
  Src src;
  RawData r = Src::write(src.out);
  const int k = vp_choose(2, "dropped") ? 4 : 3; // user data or subset: nothing refers to them
  const uint32_t id = src.out.get(CN[k])->getID();
  r.colls.erase(r.colls.begin() + k);
  podio::Frame in = vp_flip("root") ? rootFrame(std::move(r)) : read(std::move(r));
  auto names = ALL;
  names.erase(names.begin() + k);
  VP_ASSERT(sameNames(in.getAvailableCollections(), names), "a collection that was not written is not listed");
  VP_ASSERT(in.get(CN[k]) == nullptr && vp_throws<std::runtime_error>([&] { in.get<HitCollection>(CN[k]); }), "a collection that was not written is reported as missing");
  HitCollection c;
  c.create().setT(5);
  in.put(std::move(c), CN[k]);
  VP_ASSERT(in.get<HitCollection>(CN[k])[0].getT() == 5 && in.get(CN[k])->getID() == id, "its name can be used, with the ID it always had");
  VP_ASSERT(sameNames(in.getAvailableCollections(), ALL), "and is listed then");
  for (int j = 0; j < 6; ++j)
    if (j != k)
      src.checkColl(in, j);
  vp_cover("done");
}
