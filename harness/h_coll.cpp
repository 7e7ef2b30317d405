// Collections as containers, object identities, handles, lifetime
#include "io.h"
#include "podio/LinkCollection.h"
#include "podio/UserDataCollection.h"
#include "vm/HitCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/MixedCollection.h"
#include "vm/MultiCollection.h"
#include "vm/PartCollection.h"
#include "vm/VecsCollection.h"
#include <set>
#include <unordered_set>
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const int N = VP_DEPTH ? 5 : 3;

static int tagOf(const Hit& h) { return h.getT(); }
static int tagOf(const MutableHit& h) { return h.getT(); }
static int tagOf(const Part& h) { return h.getPdg(); }
static int tagOf(const MutablePart& h) { return h.getPdg(); }
static int tagOf(const Mixed& h) { return h.getId(); }
static int tagOf(const MutableMixed& h) { return h.getId(); }
template <typename F, typename T, bool M>
static int tagOf(const podio::LinkT<F, T, M>& l) { return (int)l.getWeight(); }
static void setTag(MutableHit h, int v) { h.setT(v); }
static void setTag(MutablePart h, int v) { h.setPdg(v); }
static void setTag(MutableMixed h, int v) { h.setId(v); }
template <typename F, typename T>
static void setTag(podio::LinkT<F, T, true> l, int v) { l.setWeight((float)v); }

// ---- C04: element access
template <typename C>
static void access() {
  const int n = vp_choose(N + 1, "n");
  C c;
  int tag[8];
  for (int i = 0; i < n; ++i) {
    tag[i] = 100 + i * i;
    setTag(c.create(), tag[i]);
  }
  const C& cc = c;
  VP_ASSERT((int)c.size() == n && c.empty() == (n == 0), "size and empty agree with the number of elements");
  VP_ASSERT(c.max_size() <= 0x7fffffff && c.max_size() >= c.size(), "max_size is a bound on what can be indexed");
  const size_t i = vp_sym<size_t>("i");
  bool t1 = vp_throws<std::out_of_range>([&] { c.at(i); });
  bool t2 = vp_throws<std::out_of_range>([&] { cc.at(i); });
  VP_ASSERT(t1 == (i >= (size_t)n) && t2 == t1, "at throws exactly for an index past the end");
  if (i < (size_t)n) {
    const int k = (int)vp_concrete(i);
    VP_ASSERT(tagOf(c.at(k)) == tag[k] && tagOf(cc.at(k)) == tag[k], "at returns the element of that index");
    VP_ASSERT(tagOf(c[k]) == tag[k] && tagOf(cc[k]) == tag[k], "subscript returns the element of that index");
    VP_ASSERT(c[k] == cc[k] && cc.at(k) == c[k], "every access leads to the same object");
    VP_ASSERT(c[k].getObjectID().index == k, "the index of an object is its position");
    setTag(c[k], 7);
    VP_ASSERT(tagOf(cc[k]) == 7, "changes through a mutable element are visible in the collection");
    setTag(c[k], tag[k]);
    vp_cover("valid index");
  }
  int k = 0;
  for (auto e : c)
    VP_ASSERT(k < n && tagOf(e) == tag[k], "iteration yields the elements in order"), ++k;
  VP_ASSERT(k == n, "iteration visits every element");
  k = 0;
  for (auto e : cc)
    VP_ASSERT(k < n && tagOf(e) == tag[k], "const iteration yields the elements in order"), ++k;
  VP_ASSERT(k == n, "const iteration visits every element");
  for (auto it = cc.cbegin(); it != cc.cend(); ++it)
    --k;
  VP_ASSERT(k == 0, "cbegin and cend delimit the elements");
  k = n;
  for (auto it = c.rbegin(); it != c.rend(); ++it)
    VP_ASSERT(k > 0 && tagOf(*it) == tag[--k], "reverse iteration yields the elements backwards");
  VP_ASSERT(k == 0, "reverse iteration visits every element");
  k = n;
  for (auto it = cc.rbegin(); it != cc.rend(); ++it)
    VP_ASSERT(k > 0 && tagOf(*it) == tag[--k], "const reverse iteration yields the elements backwards");
  VP_ASSERT(k == 0 && cc.crbegin() == cc.rbegin() && cc.crend() == cc.rend(), "const reverse iteration visits every element");
}
extern "C" void hm_access() {
  switch (vp_choose(4, "type")) {
  case 0: access<HitCollection>(); break;
  case 1: access<PartCollection>(); break;
  case 2: access<MixedCollection>(); break;
  case 3: access<HitPartLinkCollection>(); break;
  }
}

template <typename It, typename Tag>
static void iterLaws(It b, It e, int n, Tag tag) {
  const int i = vp_choose(n + 1, "i"), j = vp_choose(n + 1, "j");
  const ptrdiff_t d = (ptrdiff_t)vp_sym<int8_t>("d");
  It x = b + i, y = b;
  y += j;
  VP_ASSERT((x == y) == (i == j) && (x != y) == (i != j), "iterators are equal iff they are at the same position");
  VP_ASSERT((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterators are ordered by position");
  VP_ASSERT(y - x == j - i && e - b == n && e - x == n - i, "distance of iterators is the difference of positions");
  VP_ASSERT(i + b == x && x - i == b && x + (j - i) == y, "iterator arithmetic");
  if (i + d >= 0 && i + d <= n) {
    const int k = (int)vp_concrete((uint64_t)(i + d));
    It z = x;
    z += (k - i);
    VP_ASSERT(z - b == k, "advancing by an offset");
    It u = z;
    u -= (k - i);
    VP_ASSERT(u == x, "advancing back by the same offset");
    if (k < n) {
      VP_ASSERT(tagOf(x[k - i]) == tag(k), "offset access yields the element at that position");
      VP_ASSERT(tagOf(*z) == tag(k) && tagOf(*(z.operator->())) == tag(k), "dereferencing yields the element at that position");
    }
    vp_cover("offset");
  }
  if (i < n) {
    It p = x;
    It o = p++;
    VP_ASSERT(o == x && p == x + 1, "post-increment returns the old position");
    It q = x;
    VP_ASSERT(++q == p && tagOf(*x) == tag(i), "pre-increment returns the new position");
    It r = p;
    It s = r--;
    VP_ASSERT(s == p && r == x, "post-decrement returns the old position");
    VP_ASSERT(--p == x, "pre-decrement returns the new position");
    It ar = b;
    VP_ASSERT(tagOf(*(ar + i)) == tag(i), "iterators stay valid when copied");
    // operator-> keeps no reference to a previous element
    It w = x;
    w.operator->();
    if (i + 1 < n) {
      ++w;
      VP_ASSERT(tagOf(*w.operator->()) == tag(i + 1), "arrow after increment yields the new element");
    }
  }
}
extern "C" void hm_iter() {
  const int n = vp_choose(N, "n") + 1;
  auto tag = [](int k) { return 11 + 3 * k; };
  auto run = [&](auto& c) {
    for (int i = 0; i < n; ++i)
      setTag(c.create(), tag(i));
    const auto& cc = c;
    if (vp_flip("const"))
      iterLaws(cc.begin(), cc.end(), n, tag);
    else
      iterLaws(c.begin(), c.end(), n, tag);
  };
  if (vp_flip("link")) {
    HitPartLinkCollection c;
    run(c);
  } else if (vp_flip("part")) {
    PartCollection c;
    run(c);
  } else {
    HitCollection c;
    run(c);
  }
}

// access to one member of all elements
extern "C" void hm_members() {
  const int n = vp_choose(N + 1, "n");
  MultiCollection c;
  std::vector<int64_t> l;
  std::vector<double> d;
  std::vector<int> ar;
  for (int i = 0; i < n; ++i) {
    auto m = c.create();
    l.push_back(vp_sym<int64_t>("l"));
    d.push_back(vp_sym<double>("d"));
    ar.push_back(vp_sym<int>("ar"));
    m.setI64(l.back());
    m.setD(d.back());
    m.setC(Vec2{ar.back(), i});
    m.setArr(1, ar.back());
  }
  size_t k = vp_sym<size_t>("nElem");
  bool all = vp_flip("all");
  auto vl = all ? c.i64() : c.i64(k);
  auto vd = all ? c.d() : c.d(k);
  auto vc = all ? c.c() : c.c(k);
  auto va = all ? c.arr() : c.arr(k);
  const size_t want = all || k == 0 || k > (size_t)n ? n : k;
  VP_ASSERT(vl.size() == want && vd.size() == want && vc.size() == want && va.size() == want,
            "member access returns the requested number of elements, all of them for 0");
  for (size_t i = 0; i < vl.size(); ++i) {
    VP_ASSERT(vl[i] == l[i] && same(vd[i], d[i]) && vc[i].a == ar[i] && vc[i].b == (int)i && va[i][1] == ar[i] && va[i][0] == 0,
              "member access returns the values in order");
  }
  if (!all && k > 0 && k < (size_t)n)
    vp_cover("some");
}

// an element with content in all its buffers, and whether it is (still) complete
static void fill(HitCollection& c, int v) { setTag(c.create(), v); }
static void fill(PartCollection& c, int v) {
  auto p = c.create();
  setTag(p, v);
  p.setMother(p);
  p.addToParents(p);
  if (v & 1)
    p.addToParents(c[0]);
}
static void fill(MixedCollection& c, int v) {
  auto m = c.create();
  setTag(m, v);
  m.addToCounts(v);
  if (v & 1)
    m.addToCounts(v + 1);
}
static void fill(HitPartLinkCollection& c, int v) { setTag(c.create(), v); }
static bool whole(const Hit& h, int v, const HitCollection&) { return tagOf(h) == v; }
static bool whole(const Part& p, int v, const PartCollection& c) {
  return tagOf(p) == v && p.getMother() == p && (int)p.parents_size() == 1 + (v & 1) && p.getParents(0) == p && (!(v & 1) || p.getParents(1) == c[0]);
}
static bool whole(const Mixed& m, int v, const MixedCollection&) {
  return tagOf(m) == v && (int)m.counts_size() == 1 + (v & 1) && m.getCounts(0) == v && (!(v & 1) || m.getCounts(1) == v + 1);
}
static bool whole(const podio::Link<Hit, Part>& l, int v, const HitPartLinkCollection&) {
  return tagOf(l) == v && !l.getFrom().isAvailable() && !l.getTo().isAvailable();
}
template <typename C, typename D, typename... VM>
static void clearing() {
  C c;
  const int n = vp_choose(3, "n");
  for (int i = 0; i < n; ++i)
    fill(c, i);
  if (vp_flip("prepared"))
    c.prepareForWrite();
  c.clear();
  VP_ASSERT(c.size() == 0 && c.empty() && c.begin() == c.end(), "a cleared collection is empty");
  VP_ASSERT(vp_throws<std::out_of_range>([&] { c.at(0); }), "a cleared collection has no element");
  const int m = vp_choose(3, "m");
  for (int i = 0; i < m; ++i)
    fill(c, 50 + i);
  VP_ASSERT((int)c.size() == m, "a cleared collection can be filled again");
  for (int i = 0; i < m; ++i)
    VP_ASSERT(whole(c[i], 50 + i, c) && c[i].getObjectID().index == i, "elements added after clearing start at index 0");
  c.setID(4);
  c.prepareForWrite();
  auto b = c.getBuffers();
  const auto* written = b.template dataAsVector<D>();
  VP_ASSERT((int)written->size() == m, "what is written is what was added after clearing");
  RawData raw;
  raw.add(store<D, VM...>(c, "c"));
  auto in = read(std::move(raw));
  const auto& r = in.template get<C>("c");
  VP_ASSERT((int)r.size() == m, "what is written is what was added after clearing");
  for (int i = 0; i < m; ++i)
    VP_ASSERT(whole(r[i], 50 + i, r), "what is written is what was added after clearing");
  if (n == 2 && m == 2)
    vp_cover("refilled");
}
extern "C" void hm_clear() {
  switch (vp_choose(4, "type")) {
  case 0: clearing<HitCollection, HitData>(); break;
  case 1: clearing<PartCollection, PartData>(); break;
  case 2: clearing<MixedCollection, MixedData, int>(); break;
  case 3: clearing<HitPartLinkCollection, podio::LinkData>(); break;
  }
}
// a collection that was read can be cleared (and moved) like any other
template <typename C, typename D, typename... VM>
static void clearingRead() {
  podio::Frame in;
  C c = [&] {
    C o;
    fill(o, 6);
    fill(o, 7);
    o.setID(4);
    o.prepareForWrite();
    auto st = store<D, VM...>(o, "c");
    auto b = load(st);
    auto base = b.createCollection(std::move(b), st.subset);
    return C(std::move(static_cast<C&>(*base)));
  }();
  c.prepareAfterRead();
  VP_ASSERT(c.size() == 2 && tagOf(c[0]) == 6 && tagOf(c[1]) == 7, "a collection that was read can be moved");
  c.clear();
  VP_ASSERT(c.empty(), "a cleared collection is empty");
  c.setID(5);
  const int m = vp_choose(2, "m");
  for (int i = 0; i < m; ++i)
    fill(c, 51 + i);
  c.prepareForWrite();
  RawData raw;
  raw.add(store<D, VM...>(c, "c"));
  auto again = read(std::move(raw));
  const auto& r = again.template get<C>("c");
  VP_ASSERT((int)r.size() == m && r.getID() == 5, "what is written is what was added after clearing");
  for (int i = 0; i < m; ++i)
    VP_ASSERT(whole(r[i], 51 + i, r), "what is written is what was added after clearing");
  vp_cover("done");
}
extern "C" void hm_clear_read() {
  switch (vp_choose(4, "type")) {
  case 0: clearingRead<HitCollection, HitData>(); break;
  case 1: clearingRead<PartCollection, PartData>(); break;
  case 2: clearingRead<MixedCollection, MixedData, int>(); break;
  case 3: clearingRead<HitPartLinkCollection, podio::LinkData>(); break;
  }
}

// moving a collection moves everything
extern "C" void hm_move() {
  const int n = vp_choose(3, "n");
  int v[2];
  MixedCollection c;
  for (int i = 0; i < n; ++i) {
    v[i] = vp_sym<int>("v");
    auto m = c.create();
    m.setId(v[i]);
    m.addToCounts(v[i]);
  }
  c.setID(17);
  MixedCollection d;
  if (vp_flip("assign")) {
    if (vp_flip("nonempty"))
      d.create().addToCounts(1);
    d = std::move(c);
  } else {
    MixedCollection e(std::move(c));
    VP_ASSERT((int)e.size() == n, "moving keeps all elements");
    d = std::move(e);
  }
  VP_ASSERT((int)d.size() == n && d.getID() == 17, "moving keeps elements and ID");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(d[i].getId() == v[i] && d[i].getCounts(0) == v[i] && d[i].getObjectID().collectionID == 17, "moved elements keep data and identity");
  auto m = d.create();
  m.addToCounts(5);
  VP_ASSERT((int)d.size() == n + 1 && m.getObjectID().index == n, "a moved-to collection can be extended");
  RawData raw;
  podio::Frame f;
  f.put(std::move(d), "mixed");
  raw.add(store<MixedData, int>(*f.getCollectionForWrite("mixed"), "mixed"));
  auto in = read(std::move(raw));
  auto& r = in.get<MixedCollection>("mixed");
  VP_ASSERT((int)r.size() == n + 1 && r[n].getCounts(0) == 5, "a moved collection is written completely");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(r[i].getId() == v[i] && r[i].counts_size() == 1 && r[i].getCounts(0) == v[i], "a moved collection is written with its content");
  if (n == 2)
    vp_cover("two");
}

// ---- C05: identities
template <typename C>
static void identity() {
  using M = typename C::mutable_type;
  using V = typename C::value_type;
  C c, other;
  VP_ASSERT(M().getObjectID().index == podio::ObjectID::untracked, "a new object is untracked");
  std::vector<M> elems;
  std::vector<M> pool;
  const int ops = VP_DEPTH ? 5 : 4;
  uint32_t id = c.getID();
  bool idSet = false;
  for (int s = 0; s < ops; ++s) {
    switch (vp_choose(6, "op")) {
    case 0:
      elems.push_back(c.create());
      setTag(elems.back(), s + 1);
      break;
    case 1: { // a fresh object
      M m;
      setTag(m, s + 1);
      c.push_back(m);
      elems.push_back(m);
      break;
    }
    case 2: // the same object again
      if (elems.empty())
        vp_end_path();
      VP_ASSERT(vp_throws<std::invalid_argument>([&] { c.push_back(elems.back()); }), "an object that is in a collection is rejected");
      break;
    case 3: // owned by another collection
    {
      auto m = other.create();
      VP_ASSERT(vp_throws<std::invalid_argument>([&] { c.push_back(m); }), "an object of another collection is rejected");
      VP_ASSERT(m.getObjectID().index == (int)other.size() - 1 && m.getObjectID().collectionID == other.getID(), "a rejected object keeps its identity");
      break;
    }
    case 4:
      id = vp_sym<uint32_t>("id");
      c.setID(id);
      idSet = true;
      break;
    case 5: // a copy of an owned object is a new object
      if (elems.empty())
        vp_end_path();
      {
        M cl = elems[0].clone();
        VP_ASSERT(cl.getObjectID().index == podio::ObjectID::untracked && !(cl == elems[0]), "a clone is a new untracked object");
        c.push_back(cl);
        elems.push_back(cl);
      }
      break;
    }
    VP_ASSERT(c.size() == elems.size(), "size counts the accepted objects");
    for (size_t i = 0; i < elems.size(); ++i) {
      VP_ASSERT(c[i] == elems[i], "objects stay where they were added");
      VP_ASSERT(elems[i].getObjectID().index == (int)i, "the index is the position in the collection");
      VP_ASSERT(elems[i].getObjectID().collectionID == c.getID() && V(elems[i]).id() == elems[i].id(), "objects carry the ID of their collection");
    }
    VP_ASSERT(c.getID() == id, "the collection has the ID it was given");
    if (idSet)
      VP_ASSERT(c.hasID() == (id != 0xffffffffu && id != 0xfffffffeu), "hasID tells whether a valid ID was set");
  }
  if (elems.size() == (size_t)ops)
    vp_cover("all added");
}
extern "C" void hm_identity_hit() { identity<HitCollection>(); }
extern "C" void hm_identity_part() { identity<PartCollection>(); }
extern "C" void hm_identity_mixed() { identity<MixedCollection>(); }
extern "C" void hm_identity_link() { identity<HitPartLinkCollection>(); }

// create with values
extern "C" void hm_create_args() {
  HitCollection c;
  const int n = vp_choose(3, "n");
  c.setID(9);
  for (int i = 0; i < n; ++i) {
    uint64_t cell = vp_sym<uint64_t>("cell");
    double e = vp_sym<double>("e");
    int t = vp_sym<int>("t");
    auto h = c.create(cell, e, t);
    VP_ASSERT(h.getCellID() == cell && same(h.getEnergy(), e) && h.getT() == t, "create with values sets the members in order");
    VP_ASSERT(h.getObjectID().index == i && h.getObjectID().collectionID == 9 && (int)c.size() == i + 1, "create with values gives an identity");
    VP_ASSERT(c[i] == h, "create returns the element of the collection");
  }
  MutableHit m(vp_sym<uint64_t>("c"), 1.5, 3);
  VP_ASSERT(m.getT() == 3 && m.getEnergy() == 1.5, "constructor with values");
  Hit im(5, 2.5, 4);
  VP_ASSERT(im.getCellID() == 5 && im.getEnergy() == 2.5 && im.getT() == 4 && im.isAvailable(), "constructor with values");
  PartCollection pc;
  int pdg = vp_sym<int>("pdg");
  auto p = pc.create(pdg, 2.0);
  VP_ASSERT(p.getPdg() == pdg && p.getEnergy() == 2.0 && p.parents_size() == 0 && !p.getMother().isAvailable(), "relations of a new object are empty");
  p.addToParents(p);
  VP_ASSERT(p.parents_size() == 1 && p.getParents(0) == p, "relations can be added after creating with values");
  HitPartLinkCollection lc;
  auto l = lc.create();
  VP_ASSERT(l.getWeight() == 1.0f && !l.getFrom().isAvailable() && !l.getTo().isAvailable(), "a new link has weight one and no ends");
  if (n == 2)
    vp_cover("two");
}

// ---- C06: handles
template <typename M, typename V>
static void handles(int tag) {
  M a;
  VP_ASSERT(a.isAvailable() && tagOf(a) == tag, "a new object is available and has default values");
  M b = a;
  V im = a;
  const int v1 = vp_choose(3, "v") + 5;
  setTag(a, v1);
  VP_ASSERT(tagOf(b) == v1 && tagOf(im) == v1, "handles to one object see each other's changes");
  VP_ASSERT(a == b && im == a && a == im && !(a != b) && im == V(b), "handles to one object are equal");
  M c = a.clone();
  VP_ASSERT(!(c == a) && c != a && tagOf(c) == v1, "a clone is a different object with the same values");
  setTag(c, v1 + 1);
  VP_ASSERT(tagOf(a) == v1 && tagOf(im) == v1, "changing a clone leaves the original alone");
  M d = im.clone();
  VP_ASSERT(!(d == a) && tagOf(d) == v1, "an immutable handle can be cloned");
  setTag(d, v1 + 2);
  VP_ASSERT(tagOf(im) == v1, "changing a clone leaves the original alone");
  // rebinding a handle
  b = c;
  VP_ASSERT(b == c && tagOf(a) == v1, "assignment rebinds the handle, not the object");
  swap(b, a);
  VP_ASSERT(a == c && tagOf(b) == v1 && im == b, "swap exchanges the objects of two handles");
  V e = V::makeEmpty();
  VP_ASSERT(!e.isAvailable() && e.getObjectID().index == podio::ObjectID::untracked, "an empty handle is not available");
  VP_ASSERT(!(e == im) && e != im && e == V::makeEmpty(), "an empty handle differs from every object");
  e = im;
  VP_ASSERT(e == im && e.isAvailable(), "an empty handle can be rebound");
  e.unlink();
  VP_ASSERT(!e.isAvailable() && im.isAvailable() && tagOf(im) == v1, "unlinking a handle leaves the object alone");
  V self = im;
  self = self;
  VP_ASSERT(self == im && tagOf(self) == v1, "self assignment");
  vp_cover("done");
}
extern "C" void hm_handles() {
  switch (vp_choose(4, "type")) {
  case 0: handles<MutableHit, Hit>(0); break;
  case 1: handles<MutablePart, Part>(0); break;
  case 2: handles<MutableMixed, Mixed>(0); break;
  case 3: handles<podio::MutableLink<Hit, Part>, podio::Link<Hit, Part>>(1); break;
  }
}
// clones of objects with relations
extern "C" void hm_clone_rel() {
  HitCollection hits;
  for (int i = 0; i < 3; ++i)
    hits.create().setT(i);
  MixedCollection mc;
  const int nobj = vp_choose(2, "nobj") + 1;
  std::vector<std::vector<int>> cnt(nobj), hi(nobj);
  for (int i = 0; i < nobj; ++i) {
    auto m = mc.create();
    m.setId(10 + i);
    int nc = vp_choose(3, "nc"), nh = vp_choose(3, "nh");
    for (int k = 0; k < nc; ++k) {
      cnt[i].push_back(vp_sym<int>("cnt"));
      m.addToCounts(cnt[i].back());
    }
    for (int k = 0; k < nh; ++k) {
      hi[i].push_back((i + k) % 3);
      m.addToHits(hits[hi[i].back()]);
    }
    if (nh)
      m.setHit(hits[2]);
  }
  const bool rel = vp_flip("rel");
  // 0: clone of a mutable, 1: of an immutable handle, 2: of an object that has been read
  const int src = vp_choose(3, "src");
  podio::Frame in;
  const HitCollection* hp = &hits;
  podio::Frame out;
  const int which = vp_choose(nobj, "which");
  MutableMixed cl = [&] {
    if (src == 0)
      return mc[which].clone(rel);
    if (src == 1)
      return Mixed(mc[which]).clone(rel);
    auto& mref = out.put(std::move(mc), "mixed");
    (void)mref;
    hp = &out.put(std::move(hits), "hits");
    RawData raw;
    raw.add(store<MixedData, int>(*out.getCollectionForWrite("mixed"), "mixed"));
    raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
    in = read(std::move(raw));
    hp = &in.get<HitCollection>("hits");
    return in.get<MixedCollection>("mixed")[which].clone(rel);
  }();
  VP_ASSERT(cl.getId() == 10 + which, "a clone has the values of the original");
  VP_ASSERT(cl.getObjectID().index == podio::ObjectID::untracked, "a clone is untracked");
  VP_ASSERT(cl.counts_size() == (rel ? cnt[which].size() : 0) && cl.hits_size() == (rel ? hi[which].size() : 0),
            "a clone has the relations and vector members iff requested");
  if (rel) {
    for (size_t k = 0; k < cnt[which].size(); ++k)
      VP_ASSERT(cl.getCounts(k) == cnt[which][k], "a clone has the vector members of the original");
    for (size_t k = 0; k < hi[which].size(); ++k)
      VP_ASSERT(cl.getHits(k) == (*hp)[hi[which][k]], "a clone has the relations of the original");
  }
  VP_ASSERT(cl.getHit().isAvailable() == (rel && !hi[which].empty()), "a clone has the one-to-one relation iff requested");
  // the clone is independent
  cl.addToCounts(99);
  cl.addToHits((*hp)[0]);
  VP_ASSERT(cl.getCounts(cl.counts_size() - 1) == 99 && cl.getHits(cl.hits_size() - 1) == (*hp)[0], "a clone can be extended");
  const MixedCollection& orig = src == 2 ? in.get<MixedCollection>("mixed") : mc;
  for (int i = 0; i < nobj; ++i) {
    VP_ASSERT(orig[i].counts_size() == cnt[i].size() && orig[i].hits_size() == hi[i].size(), "the original keeps its relations");
    for (size_t k = 0; k < cnt[i].size(); ++k)
      VP_ASSERT(orig[i].getCounts(k) == cnt[i][k], "the original keeps its vector members");
  }
  // and can be stored
  MixedCollection mc2;
  mc2.push_back(cl);
  podio::Frame f2;
  VP_ASSERT(mc2[0].counts_size() == (rel ? cnt[which].size() : 0) + 1, "a clone can be put into a collection");
  if (src == 2 && rel && nobj == 2 && which == 1 && hi[1].size() == 2 && cnt[0].size() == 1)
    vp_cover("slice");
}

// clones of links: weight and, if asked for, exactly the ends that are set
extern "C" void hm_clone_link() {
  HitCollection hits;
  PartCollection parts;
  HitPartLinkCollection links;
  for (int i = 0; i < 2; ++i) {
    hits.create().setT(i);
    parts.create().setPdg(10 + i);
  }
  const float w = vp_sym<float>("w");
  const bool from = vp_flip("from"), to = vp_flip("to"), rel = vp_flip("rel");
  links.create().setWeight(2.f);
  auto l = links.create();
  l.setWeight(w);
  if (from)
    l.setFrom(hits[1]);
  if (to)
    l.setTo(parts[1]);
  podio::Frame out, in;
  const HitCollection* hp = &hits;
  const PartCollection* pp = &parts;
  const HitPartLinkCollection* lp = &links;
  const int src = vp_choose(3, "src");
  podio::MutableLink<Hit, Part> cl = [&] {
    if (src == 0)
      return l.clone(rel);
    if (src == 1)
      return podio::Link<Hit, Part>(l).clone(rel);
    out.put(std::move(links), "links");
    out.put(std::move(hits), "hits");
    out.put(std::move(parts), "parts");
    RawData raw;
    raw.add(store<podio::LinkData>(*out.getCollectionForWrite("links"), "links"));
    raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
    raw.add(store<PartData>(*out.getCollectionForWrite("parts"), "parts"));
    in = read(std::move(raw));
    hp = &in.get<HitCollection>("hits");
    pp = &in.get<PartCollection>("parts");
    lp = &in.get<HitPartLinkCollection>("links");
    return (*lp)[1].clone(rel);
  }();
  const podio::Link<Hit, Part> orig = (*lp)[1];
  VP_ASSERT(same(cl.getWeight(), w) && !(cl == orig), "a clone is a different link with the same weight");
  VP_ASSERT(cl.getObjectID().index == podio::ObjectID::untracked, "a clone is untracked");
  VP_ASSERT(cl.getFrom().isAvailable() == (rel && from) && cl.getTo().isAvailable() == (rel && to), "a clone has the ends of the original iff requested");
  if (rel && from)
    VP_ASSERT(cl.getFrom() == (*hp)[1], "a clone has the from end of the original");
  if (rel && to)
    VP_ASSERT(cl.getTo() == (*pp)[1], "a clone has the to end of the original");
  // neither changes with the other
  cl.setWeight(3.f);
  cl.setFrom((*hp)[0]);
  cl.setTo((*pp)[0]);
  VP_ASSERT(same(orig.getWeight(), w) && orig.getFrom().isAvailable() == from && orig.getTo().isAvailable() == to, "the original is independent of its clone");
  if (from)
    VP_ASSERT(orig.getFrom() == (*hp)[1], "the original is independent of its clone");
  if (to)
    VP_ASSERT(orig.getTo() == (*pp)[1], "the original is independent of its clone");
  HitPartLinkCollection l2;
  l2.push_back(cl);
  VP_ASSERT(l2[0] == cl && l2[0].getFrom() == (*hp)[0] && l2[0].getTo() == (*pp)[0], "a clone can be put into a collection");
  if (to && !from && rel)
    vp_cover("one end");
}

// ---- C12: equality, order, hash
extern "C" void hm_order() {
  PartCollection c;
  for (int i = 0; i < 2; ++i)
    c.create().setPdg(3);
  MutablePart loose;
  loose.setPdg(3);
  const PartCollection& cc = c;
  std::vector<Part> h = {c[0], cc[0], c[1], *cc.begin(), cc.at(1), loose, Part(loose), loose.clone(), Part::makeEmpty()};
  // the object behind each handle
  const int obj[] = {0, 0, 1, 0, 1, 2, 2, 3, 4};
  const int i = vp_choose(9, "i"), j = vp_choose(9, "j"), k = vp_choose(VP_DEPTH ? 9 : 3, "k");
  VP_ASSERT((h[i] == h[j]) == (obj[i] == obj[j]), "handles are equal iff they refer to the same object");
  VP_ASSERT((h[i] != h[j]) == !(h[i] == h[j]), "inequality is the negation of equality");
  VP_ASSERT(((h[i] < h[j]) || (h[j] < h[i])) == !(h[i] == h[j]), "different objects are ordered");
  VP_ASSERT(!((h[i] < h[j]) && (h[j] < h[i])), "the order is antisymmetric");
  if ((h[i] < h[j]) && (h[j] < h[k]))
    VP_ASSERT(h[i] < h[k], "the order is transitive");
  if (obj[i] == obj[j])
    VP_ASSERT(std::hash<Part>{}(h[i]) == std::hash<Part>{}(h[j]), "equal handles have equal hashes");
  if (obj[i] < 3) {
    MutablePart m = obj[i] < 2 ? c[obj[i]] : loose;
    VP_ASSERT(m == h[i] && h[i] == m && !(h[i] != m), "mutable and immutable handles to one object are equal");
    VP_ASSERT((m == h[j]) == (obj[i] == obj[j]) && (h[j] == m) == (obj[i] == obj[j]), "mutable and immutable handles compare by object");
  }
  std::set<Part> s(h.begin(), h.end());
  VP_ASSERT(s.size() == 5, "a set holds every object once");
  std::unordered_set<Part> us(h.begin(), h.end());
  VP_ASSERT(us.size() == 5 && us.count(h[i]) == 1, "a hash set holds every object once");
  if (i != j && obj[i] == obj[j])
    vp_cover("same object");
}
extern "C" void hm_order_link() {
  HitPartLinkCollection c;
  c.create();
  c.create();
  podio::MutableLink<Hit, Part> loose;
  const auto& cc = c;
  using L = podio::Link<Hit, Part>;
  std::vector<L> h = {c[0], cc[0], c[1], *cc.begin(), cc.at(1), loose, L(loose), loose.clone(), L::makeEmpty()};
  const int obj[] = {0, 0, 1, 0, 1, 2, 2, 3, 4};
  const int i = vp_choose(9, "i"), j = vp_choose(9, "j"), k = vp_choose(VP_DEPTH ? 9 : 3, "k");
  VP_ASSERT((h[i] == h[j]) == (obj[i] == obj[j]) && (h[i] != h[j]) == (obj[i] != obj[j]), "link handles are equal iff they refer to the same link");
  VP_ASSERT(((h[i] < h[j]) || (h[j] < h[i])) == !(h[i] == h[j]) && !((h[i] < h[j]) && (h[j] < h[i])), "links are ordered");
  if ((h[i] < h[j]) && (h[j] < h[k]))
    VP_ASSERT(h[i] < h[k], "the order is transitive");
  if (obj[i] == obj[j])
    VP_ASSERT(std::hash<L>{}(h[i]) == std::hash<L>{}(h[j]), "equal link handles have equal hashes");
  std::set<L> s(h.begin(), h.end());
  VP_ASSERT(s.size() == 5, "a set holds every link once");
  if (obj[i] < 2)
    VP_ASSERT(c[obj[i]] == h[i] && h[i] == c[obj[i]] && (c[obj[i]] == h[j]) == (obj[i] == obj[j]), "mutable and immutable link handles compare by link");
  vp_cover("done");
}
// ObjectIDs: equality is member-wise, equal IDs hash equally
extern "C" void hm_objectid() {
  podio::ObjectID a{vp_sym<int>("ai"), vp_sym<uint32_t>("ac")}, b{vp_sym<int>("bi"), vp_sym<uint32_t>("bc")};
  VP_ASSERT((a == b) == (a.index == b.index && a.collectionID == b.collectionID), "object IDs are equal iff index and collection are");
  VP_ASSERT((a != b) == !(a == b), "inequality is the negation of equality");
  if (a == b)
    VP_ASSERT(std::hash<podio::ObjectID>{}(a) == std::hash<podio::ObjectID>{}(b), "equal object IDs have equal hashes");
  VP_ASSERT(podio::ObjectID{}.index == podio::ObjectID::untracked && podio::ObjectID{}.collectionID == 0xffffffffu, "default object ID");
  vp_cover("done");
}

// ---- C07: lifetime. Any history of creating, copying, adding and dropping handles and collections
// leaks nothing and touches no released memory; data stays readable while a handle or its collection lives.
template <typename M, typename V>
static void history(int ops) {
  using C = typename V::collection_type;
  const uint64_t base = vp_heap_count();
  {
    std::optional<C> coll(std::in_place);
    std::vector<M> hm;
    std::vector<V> hv;
    std::vector<int> tm, tv;   // expected tags
    std::vector<bool> om, ov;  // owned by the collection
    for (int s = 0; s < ops; ++s) {
      switch (vp_choose(9, "op")) {
      case 0:
        hm.push_back(M());
        setTag(hm.back(), s + 1);
        tm.push_back(s + 1);
        om.push_back(false);
        break;
      case 1:
        if (!coll)
          vp_end_path();
        hm.push_back(coll->create());
        setTag(hm.back(), s + 1);
        tm.push_back(s + 1);
        om.push_back(true);
        break;
      case 2: // immutable handle to the last one
        if (hm.empty())
          vp_end_path();
        hv.push_back(hm.back());
        tv.push_back(tm.back());
        ov.push_back(om.back());
        break;
      case 3: // add it to the collection
        if (hm.empty() || !coll || om.back())
          vp_end_path();
        coll->push_back(hm.back());
        om.back() = true;
        for (size_t i = 0; i < hv.size(); ++i)
          if (hv[i] == hm.back())
            ov[i] = true;
        for (size_t i = 0; i < hm.size(); ++i)
          if (hm[i] == hm.back())
            om[i] = true;
        break;
      case 4: // drop the first mutable handle
        if (hm.empty())
          vp_end_path();
        hm.erase(hm.begin());
        tm.erase(tm.begin());
        om.erase(om.begin());
        break;
      case 5: // destroy the collection: handles into it become invalid, others stay
        if (!coll)
          vp_end_path();
        coll.reset();
        for (size_t i = hm.size(); i-- > 0;)
          if (om[i]) {
            hm.erase(hm.begin() + i);
            tm.erase(tm.begin() + i);
            om.erase(om.begin() + i);
          }
        for (size_t i = hv.size(); i-- > 0;)
          if (ov[i]) {
            hv.erase(hv.begin() + i);
            tv.erase(tv.begin() + i);
            ov.erase(ov.begin() + i);
          }
        vp_cover("collection destroyed");
        break;
      case 6: // clone
        if (hm.empty())
          vp_end_path();
        hm.push_back(hm.back().clone());
        tm.push_back(tm.back());
        om.push_back(false);
        break;
      case 7: // clone from an immutable handle
        if (hv.empty())
          vp_end_path();
        hm.push_back(hv.back().clone(s & 1));
        tm.push_back(tv.back());
        om.push_back(false);
        break;
      case 8: // rebind
        if (hm.size() < 2)
          vp_end_path();
        hm[0] = hm.back();
        tm[0] = tm.back();
        om[0] = om.back();
        break;
      }
      for (size_t i = 0; i < hm.size(); ++i)
        VP_ASSERT(tagOf(hm[i]) == tm[i], "a live handle reads its object");
      for (size_t i = 0; i < hv.size(); ++i)
        VP_ASSERT(tagOf(hv[i]) == tv[i], "a live handle reads its object");
    }
  }
  VP_ASSERT(vp_heap_count() == base, "everything is released");
}
extern "C" void hm_history_hit() { history<MutableHit, Hit>(VP_DEPTH ? 5 : 4); }
extern "C" void hm_history_mixed() { history<MutableMixed, Mixed>(VP_DEPTH ? 5 : 4); }
extern "C" void hm_history_part() { history<MutablePart, Part>(VP_DEPTH ? 5 : 4); }
extern "C" void hm_history_link() { history<podio::MutableLink<Hit, Part>, podio::Link<Hit, Part>>(VP_DEPTH ? 5 : 4); }

// relations keep untracked targets alive; frames and read buffers release everything in any order
extern "C" void hm_life_rel() {
  const uint64_t base = vp_heap_count();
  {
    MutableMixed m;
    {
      MutableHit h;
      h.setT(4);
      m.setHit(h);
      MutableHit h2;
      h2.setT(5);
      m.addToHits(h2);
      m.addToHits(h);
      m.addToCounts(3);
    }
    VP_ASSERT(m.getHit().getT() == 4 && m.getHits(0).getT() == 5 && m.getHits(1) == m.getHit(), "a relation keeps an untracked object alive");
    MutableMixed cl = m.clone(vp_flip("rel"));
    if (vp_flip("add")) {
      MixedCollection c;
      c.push_back(m);
      VP_ASSERT(c[0].getHits(0).getT() == 5, "relations survive adding to a collection");
      if (vp_flip("clear"))
        c.clear();
    }
    VP_ASSERT(cl.getId() == 0, "the clone is alive");
  }
  VP_ASSERT(vp_heap_count() == base, "everything is released");
  vp_cover("done");
}
extern "C" void hm_life_io() {
  const uint64_t base = vp_heap_count();
  {
    podio::Frame out;
    {
      HitCollection hits;
      PartCollection parts;
      MixedCollection mixed, sub;
      VecsCollection vecs;
      hits.create().setT(1);
      parts.create().addToHits(hits[0]);
      parts[0].setMother(parts[0]);
      auto m = mixed.create();
      m.addToCounts(3);
      m.setHit(hits[0]);
      sub.setSubsetCollection();
      sub.push_back(m);
      vecs.create().addToCounts(8);
      podio::LinkCollection<Hit, Part> links, sublinks;
      auto l = links.create();
      l.setFrom(hits[0]);
      l.setTo(parts[0]);
      links.create();
      sublinks.setSubsetCollection();
      sublinks.push_back(l);
      podio::UserDataCollection<int> user;
      user.push_back(6);
      out.put(std::move(hits), "hits");
      out.put(std::move(parts), "parts");
      out.put(std::move(mixed), "mixed");
      out.put(std::move(sub), "sub");
      out.put(std::move(vecs), "vecs");
      out.put(std::move(links), "links");
      out.put(std::move(sublinks), "sublinks");
      out.put(std::move(user), "user");
    }
    RawData raw;
    raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
    raw.add(store<PartData>(*out.getCollectionForWrite("parts"), "parts"));
    raw.add(store<MixedData, int>(*out.getCollectionForWrite("mixed"), "mixed"));
    raw.add(store<MixedData>(*out.getCollectionForWrite("sub"), "sub"));
    raw.add(store<VecsData, int, double, Vec2>(*out.getCollectionForWrite("vecs"), "vecs"));
    raw.add(store<podio::LinkData>(*out.getCollectionForWrite("links"), "links"));
    raw.add(store<podio::LinkData>(*out.getCollectionForWrite("sublinks"), "sublinks"));
    raw.add(store<int>(*out.getCollectionForWrite("user"), "user"));
    if (vp_flip("dropOut"))
      out = podio::Frame();
    auto in = read(std::move(raw));
    const char* names[] = {"hits", "parts", "mixed", "sub", "vecs", "links", "sublinks", "user"};
    int k = vp_choose(9, "touch");
    if (k < 8)
      in.get(names[k]);
    if (vp_flip("second"))
      in.get(names[(k + 2) % 8]);
    if (vp_flip("move")) {
      podio::Frame f(std::move(in));
      f.get("mixed");
      in = std::move(f);
    }
    // buffers that are never turned into a collection
    auto b = podio::CollectionBufferFactory::instance().createBuffers("MixedCollection", 3, vp_flip("subset"));
    auto b2 = podio::CollectionBufferFactory::instance().createBuffers("VecsCollection", 3, false);
    auto b3 = podio::CollectionBufferFactory::instance().createBuffers(std::string(podio::LinkCollection<Hit, Part>::typeName), 1, vp_flip("subset"));
    auto b4 = podio::CollectionBufferFactory::instance().createBuffers(std::string(podio::UserDataCollection<int>::typeName), 1, false);
    VP_ASSERT(b && b2 && b3 && b4, "buffers can be created");
    podio::CollectionReadBuffers moved(std::move(*b));
    moved = std::move(*b2);
  }
  VP_ASSERT(vp_heap_count() == base, "everything is released");
  vp_cover("done");
}
// reference counting of handles across threads: the last one to go releases the object, exactly once
