// Interface types: a value holding one of several datatypes
#include "io.h"
#include "vm/EnergyI.h"
#include "vm/HitCollection.h"
#include "vm/HolderCollection.h"
#include "vm/PartCollection.h"
#include <map>
#include <set>
#include <unordered_set>
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

// handles of the objects of a small world: where the objects live makes no difference to what they are
struct W {
  HitCollection hits, moreHits;
  PartCollection parts;
  std::vector<MutableHit> h;
  std::vector<MutablePart> p;
  double e[4];
  podio::ObjectID id[4];
  // 0: one collection per type, 1: objects of their own, 2: one of each in a collection, 3: two collections of hits
  W(int where) {
    hits.setID(7);
    moreHits.setID(8);
    parts.setID(9);
    for (int i = 0; i < 2; ++i) {
      e[i] = vp_sym<double>("e");
      const bool own = where == 1 || (where == 2 && i);
      h.push_back(own ? MutableHit() : where == 3 && i ? moreHits.create() : hits.create());
      h[i].setEnergy(e[i]);
      id[i] = own ? podio::ObjectID{} : where == 3 ? podio::ObjectID{0, 7u + i} : podio::ObjectID{i, 7u};
    }
    for (int i = 0; i < 2; ++i) {
      e[2 + i] = vp_sym<double>("e");
      const bool own = where == 1 || (where == 2 && i);
      p.push_back(own ? MutablePart() : parts.create());
      p[i].setEnergy(e[2 + i]);
      id[2 + i] = own ? podio::ObjectID{} : podio::ObjectID{i, 9u};
    }
  }
  EnergyI get(int k, bool mut) {
    if (mut)
      return k < 2 ? EnergyI(h[k]) : EnergyI(p[k - 2]);
    return k < 2 ? EnergyI(Hit(h[k])) : EnergyI(Part(p[k - 2]));
  }
};

extern "C" void hm_iface_value() {
  W w(vp_choose(4, "where"));
  const int k = vp_choose(4, "object");
  const bool mut = vp_flip("from mutable");
  EnergyI v = w.get(k, mut);
  VP_ASSERT(v.isAvailable(), "an interface value of an object is available");
  VP_ASSERT(same(v.getEnergy(), w.e[k]), "the shared member is the one of the object");
  VP_ASSERT(v.isA<Hit>() == (k < 2) && v.isA<Part>() == (k >= 2), "exactly the type of the object is reported");
  VP_ASSERT(v.getObjectID() == w.id[k] && v.id() == v.getObjectID(), "the ID is the one of the object");
  if (k < 2) {
    VP_ASSERT(v.as<Hit>() == w.h[k], "the very object comes out again");
    VP_ASSERT(vp_throws<std::runtime_error>([&] { v.as<Part>(); }), "asking for another type is refused");
  } else {
    VP_ASSERT(v.as<Part>() == w.p[k - 2], "the very object comes out again");
    VP_ASSERT(vp_throws<std::runtime_error>([&] { v.as<Hit>(); }), "asking for another type is refused");
  }
  // copies
  const int how = vp_choose(6, "copy");
  EnergyI c = how == 0 ? EnergyI(v) : EnergyI(w.get((k + 1) % 4, false));
  if (how == 1)
    c = v;
  else if (how == 2) {
    EnergyI t(v);
    c = std::move(t);
  } else if (how == 3) {
    c = v;
    c = *&c; // self assignment
  } else if (how == 4) {
    EnergyI t(v);
    EnergyI u(std::move(t));
    std::swap(c, u);
    VP_ASSERT(u == w.get((k + 1) % 4, false), "swapped values keep their objects");
  } else if (how == 5) {
    std::vector<EnergyI> vec{c, v};
    vec.insert(vec.begin(), v);
    vec.erase(vec.begin() + 1);
    c = vec[0];
    VP_ASSERT(vec[1] == v, "values can be kept in a vector");
  }
  VP_ASSERT(c == v && !(c != v) && !(c < v) && !(v < c), "a copy is the same value");
  VP_ASSERT(same(c.getEnergy(), w.e[k]) && c.isA<Hit>() == v.isA<Hit>(), "a copy has the same type and members");
  // values follow the object
  const double ne = vp_sym<double>("new");
  if (k < 2)
    w.h[k].setEnergy(ne);
  else
    w.p[k - 2].setEnergy(ne);
  VP_ASSERT(same(v.getEnergy(), ne) && same(c.getEnergy(), ne), "an interface value refers to the object, not to a copy");
  c.unlink();
  VP_ASSERT(!c.isAvailable() && v.isAvailable(), "unlinking a copy leaves the original intact");
  VP_ASSERT(!EnergyI::makeEmpty().isAvailable(), "an empty value is not available");
  vp_cover("done");
}

extern "C" void hm_iface_order() {
  W w(vp_choose(4, "where"));
  const int a = vp_choose(4, "a"), b = vp_choose(4, "b"), c = vp_choose(4, "c");
  EnergyI x = w.get(a, vp_flip("mutable")), y = w.get(b, false), z = w.get(c, false);
  VP_ASSERT((x == y) == (a == b) && (x != y) == (a != b), "values are equal iff they hold the same object");
  VP_ASSERT((x == y) == (!(x < y) && !(y < x)), "order and equality agree");
  VP_ASSERT(!(x < y && y < x) && !(x < x), "order is asymmetric");
  VP_ASSERT(!(x < y && y < z) || x < z, "order is transitive");
  if (a == b)
    VP_ASSERT(std::hash<EnergyI>{}(x) == std::hash<EnergyI>{}(y), "equal values hash equally");
  std::set<EnergyI> s{x, y, z};
  const size_t distinct = 1 + (b != a) + (c != a && c != b);
  VP_ASSERT(s.size() == distinct && s.count(x) && s.count(y) && s.count(z), "a set holds every object once");
  std::unordered_set<EnergyI> us;
  us.insert(x), us.insert(y), us.insert(z);
  VP_ASSERT(us.size() == distinct && us.count(x) && us.count(y) && us.count(z), "an unordered set holds every object once");
  if (distinct == 3)
    vp_cover("three");
}

extern "C" void hm_iface_life() {
  const uint64_t before = vp_heap_count();
  {
    std::optional<EnergyI> keep;
    double e = vp_sym<double>("e");
    const bool part = vp_flip("part");
    {
      MutableHit h;
      h.setEnergy(e);
      MutablePart p;
      p.setEnergy(e);
      if (part)
        keep = EnergyI(p);
      else
        keep = EnergyI(h);
    }
    VP_ASSERT(keep->isAvailable() && same(keep->getEnergy(), e), "an interface value keeps an object of its own alive");
    VP_ASSERT(keep->getObjectID().index == podio::ObjectID::untracked, "that object belongs to no collection");
    HolderCollection hc;
    auto h = hc.create();
    VP_ASSERT(!h.getOne().isAvailable() && h.many_size() == 0, "a new object has no related objects");
    h.setOne(*keep);
    h.addToMany(*keep);
    h.addToMany(h.getOne());
    keep.reset();
    VP_ASSERT(h.getOne().isAvailable() && same(h.getOne().getEnergy(), e), "a relation keeps it alive");
    VP_ASSERT(h.many_size() == 2 && h.getMany(0) == h.getOne() && h.getMany(1) == h.getMany(0), "all relations lead to the same object");
    VP_ASSERT(h.getOne().isA<Part>() == part, "with the type it had");
    auto cl = h.clone(vp_flip("clone relations"));
    (void)cl;
  }
  VP_ASSERT(vp_heap_count() == before, "nothing is leaked");
  vp_cover("done");
}
