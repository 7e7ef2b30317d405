// Links between objects and the navigation over them
#include "io.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include "vm/EnergyI.h"
#include "vm/HitCollection.h"
#include "vm/HitILinkCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/PartCollection.h"
#include "vm/VecsCollection.h"
#include <set>
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const int NL = VP_DEPTH ? 3 : 2;

static RawData writeAll(podio::Frame& out, std::initializer_list<const char*> names) {
  RawData raw;
  for (auto n : names) {
    std::string s(n);
    const auto* c = out.getCollectionForWrite(s);
    VP_ASSERT(c != nullptr, "every collection of the frame can be written");
    if (s == "hits")
      raw.add(store<HitData>(*c, s));
    else if (s == "parts" || s == "other")
      raw.add(store<PartData>(*c, s));
    else
      raw.add(store<podio::LinkData>(*c, s));
  }
  return raw;
}

// ---- round trip of plain links
extern "C" void hm_link_rt() {
  podio::Frame out;
  HitCollection hits;
  PartCollection parts;
  hits.create().setCellID(vp_sym<uint64_t>("cell0"));
  hits.create().setCellID(vp_sym<uint64_t>("cell1"));
  parts.create().setPdg(vp_sym<int>("pdg0"));
  parts.create().setPdg(vp_sym<int>("pdg1"));
  HitPartLinkCollection links;
  const int n = vp_choose(NL + 1, "n");
  int f[4], t[4];
  float w[4];
  for (int i = 0; i < n; ++i) {
    auto l = links.create();
    VP_ASSERT(l.getWeight() == 1.0f, "the weight of a new link is one");
    w[i] = vp_sym<float>("w");
    l.setWeight(w[i]);
    f[i] = vp_choose(3, "from");
    t[i] = vp_choose(3, "to");
    if (f[i])
      l.setFrom(hits[f[i] - 1]);
    if (t[i])
      l.setTo(parts[t[i] - 1]);
  }
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(links), "links");
  const bool dropParts = vp_flip("parts not written"), dropHits = vp_flip("hits not written");
  auto write = [&](podio::Frame& fr) {
    if (dropHits)
      return dropParts ? writeAll(fr, {"links"}) : writeAll(fr, {"links", "parts"});
    return dropParts ? writeAll(fr, {"links", "hits"}) : writeAll(fr, {"links", "hits", "parts"});
  };
  auto raw = write(out);
  if ((dropParts || dropHits) && vp_flip("known")) { // what is not there may still be in the table
    if (dropParts)
      raw.known(*out.get("parts"), "parts");
    if (dropHits)
      raw.known(*out.get("hits"), "hits");
  }
  auto& oh = out.get<HitCollection>("hits");
  auto& op = out.get<PartCollection>("parts");
  podio::Frame in = read(std::move(raw));
  auto check = [&](podio::Frame& fr) {
    const auto& rl = fr.get<HitPartLinkCollection>("links");
    VP_ASSERT((int)rl.size() == n, "all links come back");
    for (int i = 0; i < n; ++i) {
      auto l = rl[i];
      const bool hasFrom = f[i] && !dropHits, hasTo = t[i] && !dropParts;
      VP_ASSERT(same(l.getWeight(), w[i]), "the weight of a link survives the round trip");
      VP_ASSERT((l.getObjectID() == podio::ObjectID{i, rl.getID()}), "a link knows its position");
      VP_ASSERT(l.getFrom().isAvailable() == hasFrom, "a link has a from object iff one was set and is there");
      if (hasFrom) {
        VP_ASSERT(l.getFrom() == fr.get<HitCollection>("hits")[f[i] - 1], "a link leads to the very from object it was set to");
        VP_ASSERT(l.getFrom().getCellID() == oh[f[i] - 1].getCellID(), "the from object has its data");
      }
      VP_ASSERT(l.getTo().isAvailable() == hasTo, "a link has a to object iff one was set and is there");
      if (hasTo) {
        VP_ASSERT(l.getTo() == fr.get<PartCollection>("parts")[t[i] - 1], "a link leads to the very to object it was set to");
        VP_ASSERT(l.getTo().getPdg() == op[t[i] - 1].getPdg(), "the to object has its data");
      }
      VP_ASSERT(l.get<Hit>().isAvailable() == hasFrom && l.get<Part>().isAvailable() == hasTo && same(l.get<2>(), w[i]), "access by type and position leads to the same");
    }
  };
  check(in);
  if (!dropParts && !dropHits) {
    podio::Frame in2 = read(write(in));
    check(in2);
    vp_cover("second round trip");
  }
  if ((dropParts || dropHits) && n)
    vp_cover("missing target");
}

// ---- links to interface types, with targets in several collections
extern "C" void hm_link_iface_rt() {
  podio::Frame out;
  HitCollection hits;
  PartCollection parts, other;
  hits.create().setEnergy(1.5);
  hits.create().setEnergy(2.5);
  parts.create().setEnergy(3.5);
  other.create().setEnergy(4.5);
  other.create().setEnergy(5.5);
  HitILinkCollection links;
  const int n = vp_choose(NL, "n") + 1;
  int t[4];
  float w[4];
  for (int i = 0; i < n; ++i) {
    auto l = links.create();
    w[i] = vp_sym<float>("w");
    l.setWeight(w[i]);
    l.setFrom(hits[i % 2]);
    t[i] = vp_choose(6, "to");
    switch (t[i]) {
    case 0: break;
    case 1: l.setTo(hits[0]); break;
    case 2: l.setTo(hits[1]); break;
    case 3: l.setTo(parts[0]); break;
    case 4: l.setTo(other[0]); break;
    case 5: l.setTo(other[1]); break;
    }
  }
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(other), "other");
  out.put(std::move(links), "links");
  // one of the collections may be missing
  const int drop = vp_choose(4, "not written");
  static const char* DROPPED[] = {"", "hits", "parts", "other"};
  RawData raw = (drop == 0 ? writeAll(out, {"parts", "links", "other", "hits"}) : drop == 1 ? writeAll(out, {"parts", "links", "other"}) :
                         drop == 2 ? writeAll(out, {"other", "links", "hits"}) : writeAll(out, {"hits", "links", "parts"}));
  if (drop && vp_flip("known"))
    raw.known(*out.get(DROPPED[drop]), DROPPED[drop]);
  podio::Frame in = read(std::move(raw));
  const auto& rl = in.get<HitILinkCollection>("links");
  VP_ASSERT((int)rl.size() == n, "all links come back");
  const HitCollection noHits;
  const PartCollection noParts;
  auto& h = drop == 1 ? noHits : in.get<HitCollection>("hits");
  auto& p = drop == 2 ? noParts : in.get<PartCollection>("parts");
  auto& o = drop == 3 ? noParts : in.get<PartCollection>("other");
  const double en[] = {0, 1.5, 2.5, 3.5, 4.5, 5.5};
  const int home[] = {0, 1, 1, 2, 3, 3};
  for (int i = 0; i < n; ++i) {
    auto to = rl[i].getTo();
    const bool there = t[i] > 0 && home[t[i]] != drop;
    VP_ASSERT(same(rl[i].getWeight(), w[i]), "the weight survives");
    VP_ASSERT(rl[i].getFrom().isAvailable() == (drop != 1), "the from object is there iff its collection is");
    if (drop != 1)
      VP_ASSERT(rl[i].getFrom() == h[i % 2], "the from object is the one that was set");
    VP_ASSERT(to.isAvailable() == there, "an interface target is there iff it was set and its collection is there");
    if (!there)
      continue;
    VP_ASSERT(to.getEnergy() == en[t[i]], "the interface target has the data of the object that was set");
    VP_ASSERT(to.isA<Hit>() == (t[i] <= 2) && to.isA<Part>() == (t[i] > 2), "the interface target has the type of the object that was set");
    if (t[i] <= 2)
      VP_ASSERT(to.as<Hit>() == h[t[i] - 1], "the interface target is the very object that was set");
    else
      VP_ASSERT(to.as<Part>() == (t[i] == 3 ? p[0] : o[t[i] - 4]), "the interface target is the very object that was set");
  }
  vp_cover("done");
}

// ---- subset collections of links
extern "C" void hm_link_subset() {
  podio::Frame out;
  HitCollection hits;
  hits.create();
  PartCollection parts;
  parts.create();
  HitPartLinkCollection links;
  float w[3];
  for (int i = 0; i < 3; ++i) {
    auto l = links.create();
    w[i] = vp_sym<float>("w");
    l.setWeight(w[i]);
    if (i)
      l.setFrom(hits[0]);
    if (i != 1)
      l.setTo(parts[0]);
  }
  HitPartLinkCollection sub;
  sub.setSubsetCollection();
  const int n = vp_choose(3, "n");
  int pick[3];
  for (int i = 0; i < n; ++i) {
    pick[i] = vp_choose(3, "pick");
    sub.push_back(links[pick[i]]);
  }
  VP_ASSERT(vp_throws<std::logic_error>([&] { sub.create(); }), "a subset collection cannot create links");
  VP_ASSERT(vp_throws<std::invalid_argument>([&] { sub.push_back(podio::Link<Hit, Part>()); }), "untracked links are refused by a subset collection");
  VP_ASSERT((int)sub.size() == n, "a refused link does not change the collection");
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(links), "links");
  out.put(std::move(sub), "sub");
  podio::Frame in = read(writeAll(out, {"sub", "links", "hits", "parts"}));
  const auto& rs = in.get<HitPartLinkCollection>("sub");
  VP_ASSERT((int)rs.size() == n && rs.isSubsetCollection(), "a subset collection of links stays one of the same size");
  const auto& rl = in.get<HitPartLinkCollection>("links");
  for (int i = 0; i < n; ++i) {
    VP_ASSERT(rs[i] == rl[pick[i]] && same(rs[i].getWeight(), w[pick[i]]), "the elements are the very links of the original collection");
    VP_ASSERT(rs[i].getFrom().isAvailable() == (pick[i] != 0) && rs[i].getTo().isAvailable() == (pick[i] != 1), "with their targets");
  }
  if (n == 2)
    vp_cover("two");
}

// ---- single links
extern "C" void hm_link_api() {
  HitCollection hits;
  auto h = hits.create();
  h.setCellID(vp_sym<uint64_t>("cell"));
  PartCollection parts;
  auto p = parts.create();
  p.setPdg(vp_sym<int>("pdg"));
  const float w = vp_sym<float>("w");
  VP_ASSUME(w == w);
  const bool sf = vp_flip("from set"), st = vp_flip("to set");
  const int how = vp_choose(4, "how");
  podio::MutableLink<Hit, Part> l;
  VP_ASSERT(l.getWeight() == 1.0f && !l.getFrom().isAvailable() && !l.getTo().isAvailable(), "a new link has weight one and no objects");
  VP_ASSERT(podio::Link<Hit, Part>(w).getWeight() == w, "a link can be constructed with a weight");
  l.setWeight(w);
  if (sf) {
    if (how == 0)
      l.setFrom(h);
    else if (how == 1)
      l.setFrom(Hit(h));
    else if (how == 2)
      l.set(Hit(h));
    else
      l.set(Hit(hits[0]));
  }
  if (st) {
    if (how == 0)
      l.setTo(p);
    else if (how == 1)
      l.setTo(Part(p));
    else if (how == 2)
      l.set(Part(p));
    else
      l.set(Part(parts[0]));
  }
  podio::Link<Hit, Part> c = l;
  VP_ASSERT(c == l && !(c != l) && l == podio::MutableLink<Hit, Part>(l), "a converted or copied link is the same link");
  VP_ASSERT(l == c && !(l != c) && !(l != podio::MutableLink<Hit, Part>(l)) && !(c < l) && !(l < podio::MutableLink<Hit, Part>(l)), "in either direction");
  VP_ASSERT(std::hash<podio::Link<Hit, Part>>{}(c) == std::hash<podio::MutableLink<Hit, Part>>{}(l), "equal links hash equally");
  auto check = [&](const auto& x, bool ef, bool et) {
    VP_ASSERT(x.getWeight() == w, "weight is the one that was set");
    VP_ASSERT(x.getFrom().isAvailable() == ef && x.getTo().isAvailable() == et, "objects are there iff set");
    VP_ASSERT(!ef || (x.getFrom() == h && x.getFrom().getCellID() == h.getCellID()), "the from object is the one that was set");
    VP_ASSERT(!et || (x.getTo() == p && x.getTo().getPdg() == p.getPdg()), "the to object is the one that was set");
    VP_ASSERT(x.template get<Hit>() == x.getFrom() && x.template get<Part>() == x.getTo(), "access by type agrees");
    VP_ASSERT(x.template get<0>() == x.getFrom() && x.template get<1>() == x.getTo() && x.template get<2>() == x.getWeight(), "access by index agrees");
    const auto& [f, t, ww] = x;
    VP_ASSERT(f == x.getFrom() && t == x.getTo() && ww == x.getWeight(), "structured bindings agree");
  };
  check(l, sf, st);
  check(c, sf, st);
  auto deep = c.clone();
  VP_ASSERT(deep != l && !(deep == l) && c != deep && !(c == deep) && deep != c && (deep < l) != (l < deep), "a clone is a different link");
  check(deep, sf, st);
  auto shallow = l.clone(false);
  check(shallow, false, false);
  VP_ASSERT(deep.getObjectID().index == podio::ObjectID::untracked && shallow.getObjectID().index == podio::ObjectID::untracked, "clones belong to no collection");
  deep.setWeight(3.0f);
  HitCollection hits2;
  deep.setFrom(hits2.create());
  check(l, sf, st);
  VP_ASSERT(deep.getWeight() == 3.0f && deep.getFrom() == hits2[0], "a clone can be changed independently");
  // in a collection the clone becomes part of that collection only
  HitPartLinkCollection coll;
  coll.push_back(l);
  auto fromColl = coll[0].clone();
  check(fromColl, sf, st);
  VP_ASSERT(fromColl.getObjectID().index == podio::ObjectID::untracked, "a clone of a collected link belongs to no collection");
  coll.push_back(fromColl);
  VP_ASSERT(coll.size() == 2 && coll[1] == fromColl && coll[0] == l, "it can be added to a collection");
  coll.setID(7);
  VP_ASSERT(coll[1].getObjectID() == podio::ObjectID({1, 7}) && coll[1].id() == coll[1].getObjectID() && l.id() == podio::ObjectID({0, 7}) && deep.id() == deep.getObjectID(),
            "a link knows its collection and index, by either name");
  auto e = podio::Link<Hit, Part>::makeEmpty();
  VP_ASSERT(!e.isAvailable() && c.isAvailable(), "an empty link is not available");
  c.unlink();
  VP_ASSERT(!c.isAvailable() && l.isAvailable(), "unlinking a handle leaves the link and other handles intact");
  // rebinding
  l = deep;
  VP_ASSERT(l == deep && coll[0] != l, "assignment rebinds the handle");
  vp_cover("done");
}

// ---- links with an interface at either end
extern "C" void hm_link_iface_api() {
  HitCollection hits;
  PartCollection parts;
  VecsCollection vecs;
  auto h = hits.create();
  h.setEnergy(vp_sym<double>("energy"));
  auto p = parts.create();
  p.setPdg(vp_sym<int>("pdg"));
  auto v = vecs.create();
  v.setId(vp_sym<int>("id"));
  podio::MutableLink<EnergyI, Vecs> l;
  podio::MutableLink<Vecs, EnergyI> r;
  VP_ASSERT(!l.getFrom().isAvailable() && !l.getTo().isAvailable() && !r.getFrom().isAvailable() && !r.getTo().isAvailable(), "new links have no objects");
  const bool other = vp_flip("other end first");
  if (other) {
    l.set(Vecs(v));
    r.setFrom(v);
    VP_ASSERT(l.getTo() == v && !l.getFrom().isAvailable() && r.getFrom() == v && !r.getTo().isAvailable(), "setting one end leaves the other one");
  }
  const int kind = vp_choose(4, "kind"), how = vp_choose(3, "how");
  auto setTo = [&](auto obj) {
    if (how == 0) {
      l.setFrom(obj);
      r.setTo(obj);
    } else if (how == 1) {
      l.set(obj);
      r.set(obj);
    } else {
      l.set(EnergyI(obj));
      r.setTo(EnergyI(obj));
    }
  };
  if (kind == 0)
    setTo(h);
  else if (kind == 1)
    setTo(Hit(h));
  else if (kind == 2)
    setTo(p);
  else
    setTo(Part(p));
  auto check = [&](const EnergyI& i, const Vecs& u) {
    VP_ASSERT(i.isAvailable(), "the object is there");
    if (kind < 2)
      VP_ASSERT(i.isA<Hit>() && !i.isA<Part>() && i == h && same(i.as<Hit>().getEnergy(), h.getEnergy()), "the object is the one that was set");
    else
      VP_ASSERT(i.isA<Part>() && !i.isA<Hit>() && i == p && i.as<Part>().getPdg() == p.getPdg(), "the object is the one that was set");
    VP_ASSERT(u.isAvailable() == other && (!other || (u == v && u.getId() == v.getId())), "and so is the other");
  };
  check(l.getFrom(), l.getTo());
  check(r.getTo(), r.getFrom());
  check(l.get<EnergyI>(), l.get<Vecs>());
  check(r.get<1>(), r.get<0>());
  check(l.clone().getFrom(), podio::Link<EnergyI, Vecs>(l).clone().getTo());
  check(r.clone().getTo(), podio::Link<Vecs, EnergyI>(r).clone().getFrom());
  vp_cover("done");
}

// ---- navigation
template <typename R, typename T>
static bool holds(const std::vector<R>& got, const T* obj, const float* w, const bool* want, int n) {
  // (in no particular order)
  bool used[8] = {};
  int cnt = 0;
  for (int i = 0; i < n; ++i)
    cnt += want[i];
  if ((int)got.size() != cnt)
    return false;
  for (auto& g : got) {
    bool found = false;
    for (int i = 0; i < n && !found; ++i)
      if (want[i] && !used[i] && g.o.isAvailable() == obj[i].isAvailable() && (!g.o.isAvailable() || g.o == obj[i]) && same(g.weight, w[i]))
        used[i] = found = true;
    if (!found)
      return false;
  }
  return true;
}
static const int NN = VP_DEPTH ? 4 : 3;
// any weights: all the same, or all different
static void weights(float* w, int n) {
  const bool one = vp_flip("one weight");
  for (int i = 0; i < n; ++i) {
    w[i] = one && i ? w[0] : vp_sym<float>("w");
    for (int j = 0; j < i && !one; ++j)
      VP_ASSUME(!same(w[i], w[j]));
  }
}
extern "C" void hm_nav() {
  HitCollection hits;
  PartCollection parts;
  for (int i = 0; i < 2; ++i) {
    hits.create();
    parts.create();
  }
  const int n = vp_choose(NN + 1, "n");
  HitPartLinkCollection links;
  std::vector<Hit> fo;
  std::vector<Part> to;
  float w[4];
  weights(w, n);
  int unset = 0;
  for (int i = 0; i < n; ++i) {
    auto l = links.create();
    l.setWeight(w[i]);
    // the first link may lack an end
    const int f = vp_choose(i ? 2 : 3, "from"), t = vp_choose(i || f == 2 ? 2 : 3, "to");
    fo.push_back(f < 2 ? Hit(hits[f]) : Hit::makeEmpty());
    to.push_back(t < 2 ? Part(parts[t]) : Part::makeEmpty());
    if (f < 2)
      l.setFrom(hits[f]);
    if (t < 2)
      l.setTo(parts[t]);
    unset += f == 2 || t == 2;
  }
  const podio::LinkNavigator nav(links);
  for (int k = 0; k < 2; ++k) {
    bool want[4];
    for (int i = 0; i < n; ++i)
      want[i] = to[i].isAvailable() && to[i] == Part(parts[k]);
    VP_ASSERT(holds(nav.getLinkedFrom(parts[k]), fo.data(), w, want, n), "the from objects of all links to an object, with their weights");
    VP_ASSERT(holds(nav.getLinked(Part(parts[k])), fo.data(), w, want, n), "the same by type");
    VP_ASSERT(holds(nav.getLinked(parts[k]), fo.data(), w, want, n), "the same with a mutable handle");
    for (int i = 0; i < n; ++i)
      want[i] = fo[i].isAvailable() && fo[i] == Hit(hits[k]);
    VP_ASSERT(holds(nav.getLinkedTo(hits[k]), to.data(), w, want, n), "the to objects of all links from an object, with their weights");
    VP_ASSERT(holds(nav.getLinked(Hit(hits[k])), to.data(), w, want, n), "the same by type");
    VP_ASSERT(holds(nav.getLinked(hits[k]), to.data(), w, want, n), "the same with a mutable handle");
  }
  auto stranger = MutableHit();
  VP_ASSERT(nav.getLinkedTo(stranger).empty() && nav.getLinkedFrom(MutablePart()).empty(), "an object without links has none");
  // a navigator is a value
  podio::LinkNavigator<HitPartLinkCollection> copy(nav), other(HitPartLinkCollection{});
  VP_ASSERT(other.getLinkedTo(hits[0]).empty(), "no links, no linked objects");
  other = std::move(copy);
  bool want[4];
  for (int i = 0; i < n; ++i)
    want[i] = fo[i].isAvailable() && fo[i] == Hit(hits[0]);
  VP_ASSERT(holds(other.getLinkedTo(hits[0]), to.data(), w, want, n), "a copied or moved navigator finds the same");
  if (n == NN && !unset)
    vp_cover("full");
}
// from and to of the same type: only the direction tells them apart
extern "C" void hm_nav_same() {
  HitCollection hits;
  for (int i = 0; i < 3; ++i)
    hits.create();
  const int n = vp_choose(3, "n");
  podio::LinkCollection<Hit, Hit> links;
  std::vector<Hit> fo, to;
  float w[4];
  weights(w, n);
  for (int i = 0; i < n; ++i) {
    auto l = links.create();
    l.setWeight(w[i]);
    const int f = vp_choose(3, "from"), t = vp_choose(3, "to");
    l.setFrom(hits[f]);
    l.setTo(hits[t]);
    fo.push_back(hits[f]);
    to.push_back(hits[t]);
  }
  const podio::LinkNavigator nav(links);
  for (int k = 0; k < 3; ++k) {
    bool want[4];
    for (int i = 0; i < n; ++i)
      want[i] = to[i] == Hit(hits[k]);
    VP_ASSERT(holds(nav.getLinkedFrom(hits[k]), fo.data(), w, want, n), "from objects");
    VP_ASSERT(holds(nav.getLinked(hits[k], podio::ReturnFrom), fo.data(), w, want, n), "from objects by tag");
    for (int i = 0; i < n; ++i)
      want[i] = fo[i] == Hit(hits[k]);
    VP_ASSERT(holds(nav.getLinkedTo(hits[k]), to.data(), w, want, n), "to objects");
    VP_ASSERT(holds(nav.getLinked(hits[k], podio::ReturnTo), to.data(), w, want, n), "to objects by tag");
  }
  if (n == 2)
    vp_cover("two");
}
// interface targets, and a navigator over links that were read back
extern "C" void hm_nav_iface() {
  podio::Frame out;
  HitCollection hits;
  PartCollection parts;
  hits.create();
  hits.create();
  parts.create();
  const int n = vp_choose(NL + 1, "n");
  HitILinkCollection links;
  int f[4], t[4];
  float w[4];
  weights(w, n);
  for (int i = 0; i < n; ++i) {
    auto l = links.create();
    l.setWeight(w[i]);
    f[i] = vp_choose(2, "from"), t[i] = vp_choose(3, "to");
    l.setFrom(hits[f[i]]);
    if (t[i] < 2)
      l.setTo(hits[t[i]]);
    else
      l.setTo(parts[0]);
  }
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(links), "links");
  podio::Frame in;
  podio::Frame* fr = &out;
  if (vp_flip("read back")) {
    in = read(writeAll(out, {"links", "parts", "hits"}));
    fr = &in;
  }
  const auto& h = fr->get<HitCollection>("hits");
  const auto& p = fr->get<PartCollection>("parts");
  const podio::LinkNavigator nav(fr->get<HitILinkCollection>("links"));
  std::vector<EnergyI> to;
  std::vector<Hit> fo;
  for (int i = 0; i < n; ++i) {
    fo.push_back(h[f[i]]);
    if (t[i] < 2)
      to.push_back(h[t[i]]);
    else
      to.push_back(p[0]);
  }
  for (int k = 0; k < 3; ++k) {
    bool want[4];
    for (int i = 0; i < n; ++i)
      want[i] = t[i] == k;
    EnergyI q = k < 2 ? EnergyI(h[k]) : EnergyI(p[0]);
    VP_ASSERT(holds(nav.getLinkedFrom(q), fo.data(), w, want, n), "from objects of an interface target");
    if (k == 2)
      break;
    for (int i = 0; i < n; ++i)
      want[i] = f[i] == k;
    VP_ASSERT(holds(nav.getLinkedTo(h[k]), to.data(), w, want, n), "interface targets of a from object");
  }
  if (n == 2)
    vp_cover("two");
}
