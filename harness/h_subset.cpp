// Subset collections: reference semantics, rules, round trip
#include "io.h"
#include "vm/HitCollection.h"
#include "vm/PartCollection.h"
#include "vm/MixedCollection.h"
#include "vm/VecsCollection.h"
#include "podio/LinkCollection.h"
#include "vm/HitPartLinkCollection.h"
#include <ranges>
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

// subset of elements of two collections, any picks with repetition, stored and read in any access order
extern "C" void hm_subset_rt() {
  podio::Frame out;
  HitCollection a, b;
  uint64_t cell[3];
  for (int i = 0; i < 3; ++i) {
    cell[i] = vp_sym<uint64_t>("cell");
    (i < 2 ? a : b).create().setCellID(cell[i]);
  }
  HitCollection sub;
  sub.setSubsetCollection();
  VP_ASSERT(sub.isSubsetCollection(), "a collection can be made a subset collection");
  const int n = vp_choose(4, "n");
  std::vector<int> pick;
  for (int k = 0; k < n; ++k) {
    pick.push_back(vp_choose(3, "pick"));
    int p = pick.back();
    if (vp_flip("immutable"))
      sub.push_back(Hit(p < 2 ? a[p] : b[p - 2]));
    else
      sub.push_back(p < 2 ? a[p] : b[p - 2]);
  }
  // collections may be put into the frame in any order
  const bool subFirst = vp_flip("subFirst");
  if (subFirst)
    out.put(std::move(sub), "sub");
  out.put(std::move(a), "a");
  out.put(std::move(b), "b");
  if (!subFirst)
    out.put(std::move(sub), "sub");
  auto check = [&](const podio::Frame& f, bool noB) {
    auto& s = f.get<HitCollection>("sub");
    VP_ASSERT(s.isSubsetCollection(), "subset collections stay subset collections");
    VP_ASSERT((int)s.size() == n, "a subset collection has one entry per added element");
    for (int k = 0; k < n; ++k) {
      if (pick[k] == 2 && noB) {
        VP_ASSERT(!s[k].isAvailable(), "an entry whose collection is missing is not available");
        continue;
      }
      auto& orig = f.get<HitCollection>(pick[k] < 2 ? "a" : "b");
      VP_ASSERT(s[k] == orig[pick[k] % 2], "entries of a subset collection are the original objects");
      VP_ASSERT(s[k].getObjectID().collectionID == orig.getID() && s[k].getObjectID().index == pick[k] % 2,
                "objects keep the identity of the collection that owns them");
      VP_ASSERT(s[k].getCellID() == cell[pick[k]], "data is seen through the subset collection");
    }
    if (f.get("a"))
      VP_ASSERT(!f.get<HitCollection>("a").isSubsetCollection(), "normal collections stay normal");
  };
  check(out, false);
  const bool noB = vp_flip("noB");
  RawData raw;
  raw.add(store<HitData>(*out.getCollectionForWrite("sub"), "sub"));
  raw.add(store<HitData>(*out.getCollectionForWrite("a"), "a"));
  if (!noB)
    raw.add(store<HitData>(*out.getCollectionForWrite("b"), "b"));
  else if (subFirst) // in the table nevertheless
    raw.known(*out.get("b"), "b");
  VP_ASSERT(raw.colls[0].subset && !raw.colls[1].subset, "stored as a subset collection");
  VP_ASSERT((int)raw.colls[0].refs[0].size() == n, "one stored reference per entry");
  auto in = read(std::move(raw));
  if ((n + noB) % 2)
    in.get("a");
  check(in, noB);
  // second round trip
  RawData r2;
  if (!noB) {
    r2.add(store<HitData>(*in.getCollectionForWrite("sub"), "sub"));
    r2.add(store<HitData>(*in.getCollectionForWrite("a"), "a"));
    r2.add(store<HitData>(*in.getCollectionForWrite("b"), "b"));
    auto in2 = read(std::move(r2));
    check(in2, false);
  }
  if (n == 3)
    vp_cover("three");
  if (noB && n > 0 && pick[0] == 2)
    vp_cover("missing");
}

// subset of objects with relations, and of links
extern "C" void hm_subset_rel() {
  podio::Frame out;
  PartCollection parts;
  int pdg[2];
  for (int i = 0; i < 2; ++i) {
    pdg[i] = vp_sym<int>("pdg");
    parts.create().setPdg(pdg[i]);
  }
  int rel = vp_choose(3, "rel");
  if (rel < 2)
    parts[0].setMother(parts[rel]);
  parts[1].addToParents(parts[0]);
  HitCollection hits;
  hits.create();
  PartCollection sub;
  sub.setSubsetCollection(true);
  int pick = vp_choose(2, "pick");
  sub.push_back(parts[pick]);
  sub.push_back(parts[1]);
  HitPartLinkCollection links, lsub;
  float w[2];
  for (int i = 0; i < 2; ++i) {
    auto l = links.create();
    l.setFrom(hits[0]);
    l.setTo(parts[i]);
    w[i] = vp_sym<float>("w");
    l.setWeight(w[i]);
  }
  lsub.setSubsetCollection(true);
  int lp = vp_choose(2, "lpick");
  lsub.push_back(links[lp]);
  // collections may be put into the frame in any order
  const bool subFirst = vp_flip("subFirst");
  if (subFirst) {
    out.put(std::move(lsub), "lsub");
    out.put(std::move(sub), "sub");
  }
  out.put(std::move(links), "links");
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  if (!subFirst) {
    out.put(std::move(lsub), "lsub");
    out.put(std::move(sub), "sub");
  }
  auto check = [&](const podio::Frame& f) {
    auto& s = f.get<PartCollection>("sub");
    auto& p = f.get<PartCollection>("parts");
    VP_ASSERT(s.size() == 2 && s[0] == p[pick] && s[1] == p[1], "a subset collection of objects with relations holds the original objects");
    VP_ASSERT(s[0].getPdg() == pdg[pick], "data is seen through the subset collection");
    VP_ASSERT(s[1].parents_size() == 1 && s[1].getParents(0) == p[0], "relations are seen through the subset collection");
    VP_ASSERT(p[0].getMother().isAvailable() == (rel < 2), "one-to-one relation state is kept");
    if (rel < 2)
      VP_ASSERT(p[0].getMother() == p[rel], "one-to-one relation is kept");
    auto& ls = f.get<HitPartLinkCollection>("lsub");
    auto& l = f.get<HitPartLinkCollection>("links");
    for (int i = 0; i < 2; ++i)
      VP_ASSERT(l[i].getObjectID() == (podio::ObjectID{i, l.getID()}) && p[i].getObjectID() == (podio::ObjectID{i, p.getID()}),
                "objects keep the identity of the collection that owns them");
    VP_ASSERT(ls.isSubsetCollection() && ls.size() == 1 && ls[0] == l[lp], "a subset collection of links holds the original links");
    VP_ASSERT(same(ls[0].getWeight(), w[lp]) && ls[0].getTo() == p[lp] && ls[0].getFrom() == f.get<HitCollection>("hits")[0],
              "links are usable through the subset collection");
  };
  check(out);
  RawData raw;
  raw.add(store<PartData>(*out.getCollectionForWrite("sub"), "sub"));
  raw.add(store<podio::LinkData>(*out.getCollectionForWrite("lsub"), "lsub"));
  VP_ASSERT(raw.colls[1].subset && raw.colls[1].refs[0].size() == 1 && raw.colls[1].refs[0][0] == (podio::ObjectID{lp, out.get("links")->getID()}),
            "the stored references are the identities of the entries");
  raw.add(store<podio::LinkData>(*out.getCollectionForWrite("links"), "links"));
  raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
  raw.add(store<PartData>(*out.getCollectionForWrite("parts"), "parts"));
  auto in = read(std::move(raw));
  const char* names[] = {"sub", "lsub", "links", "hits", "parts"};
  in.get(names[vp_choose(5, "first")]);
  check(in);
  vp_cover("done");
}

template <typename C>
static void rules(bool hasElems) {
  using V = typename C::value_type;
  using M = typename C::mutable_type;
  C owner;
  owner.create();
  C c;
  const bool subset = vp_flip("subset");
  c.setSubsetCollection(subset);
  VP_ASSERT(c.isSubsetCollection() == subset, "the character of an empty collection can be chosen");
  c.setSubsetCollection(subset);
  M loose;
  if (hasElems) {
    if (subset)
      c.push_back(owner[0]);
    else
      c.create();
  }
  const size_t n = c.size();
  VP_ASSERT(n == (hasElems ? 1u : 0u), "element was added");
  switch (vp_choose(7, "op")) {
  case 0:
    if (subset)
      VP_ASSERT(vp_throws<std::logic_error>([&] { c.create(); }), "a subset collection can't create elements");
    else {
      c.create();
      VP_ASSERT(c.size() == n + 1, "create adds one element");
    }
    break;
  case 1: // tracked mutable
    if (subset) {
      c.push_back(owner[0]);
      VP_ASSERT(c.size() == n + 1 && c[n] == owner[0], "a subset collection takes elements of other collections");
    } else {
      VP_ASSERT(vp_throws<std::invalid_argument>([&] { c.push_back(owner[0]); }), "an object can't be in two collections");
      VP_ASSERT(c.size() == n, "a rejected object isn't added");
    }
    break;
  case 2: // tracked immutable
    if (subset) {
      c.push_back(V(owner[0]));
      VP_ASSERT(c.size() == n + 1 && c[n] == owner[0], "a subset collection takes elements of other collections");
    } else {
      VP_ASSERT(vp_throws<std::invalid_argument>([&] { c.push_back(V(owner[0])); }), "immutable objects only go to subset collections");
      VP_ASSERT(c.size() == n, "a rejected object isn't added");
    }
    break;
  case 3: // untracked mutable
    if (subset) {
      VP_ASSERT(vp_throws<std::invalid_argument>([&] { c.push_back(loose); }), "subset collections only take tracked objects");
      VP_ASSERT(c.size() == n, "a rejected object isn't added");
      VP_ASSERT(loose.isAvailable() && loose.getObjectID().index == podio::ObjectID::untracked, "a rejected object is unchanged");
    } else {
      c.push_back(loose);
      VP_ASSERT(c.size() == n + 1 && c[n] == loose, "an untracked object can be added");
    }
    break;
  case 4:
    VP_ASSERT(vp_throws_any([&] { c.push_back(V(loose)); }), "untracked immutable objects can't be added");
    VP_ASSERT(c.size() == n, "a rejected object isn't added");
    break;
  case 5:
    if (hasElems) {
      VP_ASSERT(vp_throws<std::logic_error>([&] { c.setSubsetCollection(!subset); }), "the character of a filled collection is fixed");
      VP_ASSERT(c.isSubsetCollection() == subset && c.size() == n, "a rejected change has no effect");
    } else if (!subset) {
      c.setSubsetCollection(true);
      VP_ASSERT(c.isSubsetCollection(), "the character of an empty collection can be changed");
      c.push_back(owner[0]);
    }
    break;
  case 6:
    c.clear();
    VP_ASSERT(c.empty() && c.isSubsetCollection() == subset, "clearing keeps the character");
    VP_ASSERT(owner.size() == 1 && owner[0].isAvailable(), "clearing a subset collection leaves the objects alone");
    if (subset) {
      c.push_back(owner[0]);
      VP_ASSERT(c.size() == 1 && c[0] == owner[0], "a cleared subset collection can be filled again");
    } else
      c.create();
    VP_ASSERT(c.size() == 1, "a cleared collection can be filled again");
    break;
  }
  c.prepareForWrite();
  auto b = c.getBuffers();
  VP_ASSERT((b.data == nullptr) == c.isSubsetCollection(), "only normal collections have data to write");
  if (c.isSubsetCollection()) {
    VP_ASSERT(b.references->size() == 1 && (*b.references)[0]->size() == c.size(), "one reference per entry of a subset collection");
    for (size_t i = 0; i < c.size(); ++i)
      VP_ASSERT((*(*b.references)[0])[i] == c[i].getObjectID(), "references are the identities of the entries");
  }
  VP_ASSERT(owner.size() == 1 && owner[0].getObjectID().index == 0, "the owner is unaffected");
}
extern "C" void hm_subset_rules() {
  bool e = vp_flip("hasElems");
  switch (vp_choose(4, "type")) {
  case 0:
    rules<HitCollection>(e);
    break;
  case 1:
    rules<PartCollection>(e);
    break;
  case 2:
    rules<MixedCollection>(e);
    break;
  case 3:
    rules<HitPartLinkCollection>(e);
    break;
  }
  vp_cover("done");
}
// an object can only be in a subset collection and its owner; both orders of destruction work
extern "C" void hm_subset_life() {
  uint64_t base = vp_heap_count();
  {
    auto owner = std::make_unique<MixedCollection>();
    auto sub = std::make_unique<MixedCollection>();
    sub->setSubsetCollection();
    int v[2];
    for (int i = 0; i < 2; ++i) {
      v[i] = vp_sym<int>("v");
      auto m = owner->create();
      m.setId(v[i]);
      m.addToCounts(v[i]);
      sub->push_back(m);
    }
    switch (vp_choose(4, "order")) {
    case 0:
      sub.reset();
      VP_ASSERT((*owner)[0].getId() == v[0] && (*owner)[1].getCounts(0) == v[1], "destroying a subset collection leaves the objects alone");
      break;
    case 1:
      owner.reset();
      break; // entries now dangle and are not touched by the destructor
    case 2:
      sub->clear();
      VP_ASSERT((*owner)[1].getId() == v[1], "clearing a subset collection leaves the objects alone");
      break;
    case 3: {
      MixedCollection moved(std::move(*sub));
      VP_ASSERT(moved.size() == 2 && moved[1].getId() == v[1] && moved.isSubsetCollection(), "moving keeps the entries");
    }
      VP_ASSERT((*owner)[1].getId() == v[1], "destroying a moved subset collection leaves the objects alone");
      break;
    }
  }
  VP_ASSERT(vp_heap_count() == base, "everything is released");
  vp_cover("done");
}
// 'from' chooses the character by the element type
template <typename C, typename V, typename SetT, typename GetT>
static void subsetFrom(SetT setT, GetT getT) {
  using Im = typename C::value_type;
  using Mu = typename C::mutable_type;
  C owner;
  int n = vp_choose(4, "n");
  V t[3];
  std::vector<Im> im;
  std::vector<Mu> mu;
  std::vector<int> ix;
  for (int i = 0; i < 3; ++i) {
    t[i] = vp_sym<V>("t");
    auto h = owner.create();
    setT(h, t[i]);
    if (i < n) {
      ix.push_back(i);
      im.push_back(h);
      Mu m;
      setT(m, t[i]);
      mu.push_back(m);
    }
  }
  const C& cowner = owner;
  C s, c;
  switch (vp_choose(4, "range")) {
  case 0: // vectors
    s = C::from(im);
    c = C::from(mu);
    break;
  case 1: // temporary vectors
    s = C::from(std::vector<Im>(im));
    c = C::from(std::vector<Mu>(mu));
    break;
  case 2: // views
    s = C::from(ix | std::views::transform([&](int i) { return cowner[i]; }));
    c = C::from(mu | std::views::filter([](const auto&) { return true; }));
    break;
  case 3: // part of a collection
    s = C::from(std::ranges::subrange(cowner.begin(), cowner.end()) | std::views::take(n));
    c = C::from(std::ranges::subrange(mu.begin(), mu.end()));
    break;
  }
  VP_ASSERT(s.isSubsetCollection() && !c.isSubsetCollection(), "a range of immutable handles gives a subset collection");
  VP_ASSERT((int)s.size() == n && (int)c.size() == n, "every element of the range is added");
  for (int i = 0; i < n; ++i) {
    VP_ASSERT(s[i] == owner[i] && c[i] == mu[i], "elements are added in order");
    VP_ASSERT(same(getT(c[i]), t[i]) && c[i].getObjectID().index == i, "elements keep data and get their index");
  }
  // mutable handles of collected objects cannot become part of a second collection
  bool thrown = false;
  try {
    C::from(std::vector<Mu>{Mu{}, owner[2]});
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  VP_ASSERT(thrown && owner.size() == 3 && same(getT(owner[2]), t[2]), "objects of a collection are not taken over");
  // loose objects cannot be referred to
  thrown = false;
  Mu loose;
  setT(loose, t[0]);
  try {
    C::from(std::vector<Im>{owner[0], loose});
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  VP_ASSERT(thrown && same(getT(loose), t[0]) && loose.getObjectID().index < 0, "objects without collection are not referred to");
  if (n == 3)
    vp_cover("three");
}
extern "C" void hm_subset_from() {
  subsetFrom<HitCollection, int>([](auto& h, int t) { h.setT(t); }, [](const auto& h) { return h.getT(); });
}
extern "C" void hm_subset_from_link() {
  subsetFrom<HitPartLinkCollection, float>([](auto& h, float w) { h.setWeight(w); }, [](const auto& h) { return h.getWeight(); });
}
