// What every backend has to do: B names the classes of one, and what it does not promise (h_sio.cpp, h_root.cpp)
#pragma once
#include "vp.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include "podio/LinkCollection.h"
#include "vm/HitCollection.h"
#include "vm/HitILinkCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/HolderCollection.h"
#include "vm/MixedCollection.h"
#include "vm/MultiCollection.h"
#include "vm/PartCollection.h"
#include "vm/VecsCollection.h"
#include "vm/DatamodelDefinition.h"
#include <algorithm>
#include <map>
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

template <typename T>
static bool same(const T& a, const T& b) {
  auto x = reinterpret_cast<const unsigned char*>(&a);
  auto y = reinterpret_cast<const unsigned char*>(&b);
  bool eq = true;
  for (size_t i = 0; i < sizeof(T); ++i)
    eq &= x[i] == y[i];
  return eq;
}

template <typename D>
static podio::Frame frameOf(std::unique_ptr<D> d) {
  VP_ASSERT(d != nullptr, "an entry that was written can be read");
  return podio::Frame(std::move(d));
}
template <typename B>
static std::unique_ptr<typename B::Reader> reader(const std::string& name) {
  auto r = std::make_unique<typename B::Reader>();
  r->openFile(name);
  return r;
}

static bool sameNames(std::vector<std::string> got, std::vector<std::string> want) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  return got == want;
}

// ---- what is written is what is read
// data members of every kind, vector members, user data, parameters
template <typename B>
static void b_data() {
  MultiData md[2];
  int vi[3];
  double vd[3];
  Vec2 vc[3];
  podio::Frame out;
  const int n = vp_choose(3, "objects");
  {
    MultiCollection mc;
    for (int i = 0; i < n; ++i) {
      auto m = mc.create();
      auto& d = md[i];
      d.flag = vp_flip("flag");
      m.setFlag(d.flag);
      m.setI16(d.i16 = vp_sym<int16_t>("i16"));
      m.setU32(d.u32 = vp_sym<uint32_t>("u32"));
      m.setI64(d.i64 = vp_sym<int64_t>("i64"));
      m.setF(d.f = vp_sym<float>("f"));
      m.setD(d.d = vp_sym<double>("d"));
      for (int k = 0; k < 3; ++k)
        d.arr[k] = vp_sym<int>("arr");
      m.setArr(d.arr);
      d.c = {vp_sym<int>("ca"), vp_sym<int>("cb")};
      m.setC(d.c);
      d.n.v = {vp_sym<int>("na"), vp_sym<int>("nb")};
      d.n.arr = {vp_sym<int16_t>("n0"), vp_sym<int16_t>("n1")};
      m.setN(d.n);
      for (int k = 0; k < 2; ++k)
        d.pairs[k] = {vp_sym<float>("px"), vp_sym<uint16_t>("py")};
      m.setPairs(d.pairs);
    }
    out.put(std::move(mc), "multi");
  }
  int cnt[2][3]; // [object][member]
  const int nv = vp_choose(3, "vecs");
  {
    VecsCollection vcoll;
    int at[3] = {0, 0, 0};
    for (int i = 0; i < nv; ++i) {
      auto v = vcoll.create();
      v.setId(10 + i);
      for (int k = 0; k < 3; ++k)
        cnt[i][k] = i == 0 ? vp_choose(2, "n") : (k == 0 ? 2 : 1);
      for (int k = 0; k < cnt[i][0]; ++k)
        v.addToCounts(vi[at[0]++] = vp_sym<int>("vi"));
      for (int k = 0; k < cnt[i][1]; ++k)
        v.addToWeights(vd[at[1]++] = vp_sym<double>("vd"));
      for (int k = 0; k < cnt[i][2]; ++k)
        v.addToComps(vc[at[2]++] = Vec2{vp_sym<int>("va"), vp_sym<int>("vb")});
    }
    out.put(std::move(vcoll), "vecs");
  }
  const uint32_t idm = out.get("multi")->getID(), idv = out.get("vecs")->getID();
  {
    typename B::Writer w("a" + B::ext());
    w.writeFrame(out, "events");
    if (vp_flip("finish"))
      w.finish();
  }
  auto r = reader<B>("a" + B::ext());
  podio::Frame in = frameOf(vp_flip("next") ? r->readNextEntry("events") : r->readEntry("events", 0));
  VP_ASSERT(sameNames(in.getAvailableCollections(), {"multi", "vecs"}), "all collections are there");
  auto& m = in.get<MultiCollection>("multi");
  VP_ASSERT((int)m.size() == n && m.getID() == idm, "all objects are there, under the same ID");
  for (int i = 0; i < n; ++i) {
    auto& d = md[i];
    VP_ASSERT(m[i].getFlag() == d.flag && m[i].getI16() == d.i16 && m[i].getU32() == d.u32 && m[i].getI64() == d.i64, "numbers come back unchanged");
    VP_ASSERT(same(m[i].getF(), d.f) && same(m[i].getD(), d.d), "floating point numbers come back unchanged");
    VP_ASSERT(m[i].getArr() == d.arr && same(m[i].getC(), d.c) && same(m[i].getN(), d.n), "arrays and components come back unchanged");
    for (int k = 0; k < 2; ++k)
      VP_ASSERT(same(m[i].getPairs()[k].x, d.pairs[k].x) && m[i].getPairs()[k].y == d.pairs[k].y, "arrays of components come back unchanged");
  }
  auto& v = in.get<VecsCollection>("vecs");
  VP_ASSERT((int)v.size() == nv && v.getID() == idv, "all objects are there, under the same ID");
  int at[3] = {0, 0, 0};
  for (int i = 0; i < nv; ++i) {
    VP_ASSERT(v[i].getId() == 10 + i, "members next to vector members");
    VP_ASSERT((int)v[i].counts_size() == cnt[i][0] && (int)v[i].weights_size() == cnt[i][1] && (int)v[i].comps_size() == cnt[i][2], "as many elements as were written");
    for (int k = 0; k < cnt[i][0]; ++k)
      VP_ASSERT(v[i].getCounts(k) == vi[at[0]++], "the elements of vector members come back unchanged");
    for (int k = 0; k < cnt[i][1]; ++k)
      VP_ASSERT(same(v[i].getWeights(k), vd[at[1]++]), "the elements of vector members come back unchanged");
    for (int k = 0; k < cnt[i][2]; ++k) {
      VP_ASSERT(same(v[i].getComps(k), vc[at[2]]), "the elements of vector members come back unchanged");
      at[2]++;
    }
  }
  if (n == 2 && nv == 2)
    vp_cover("full");
}

// relations, interfaces, links and subset collections; any of the collections may not be written; a second trip
template <typename B>
static void b_rel() {
  int pdg[2];
  uint64_t cell[2];
  float wgt[2];
  podio::Frame out;
  HitCollection hits, sub;
  PartCollection parts;
  MixedCollection mixed;
  HolderCollection holder;
  HitPartLinkCollection links, lsub;
  HitILinkCollection ilinks;
  sub.setSubsetCollection();
  lsub.setSubsetCollection();
  for (int i = 0; i < 2; ++i) {
    auto h = hits.create();
    h.setCellID(cell[i] = vp_sym<uint64_t>("cell"));
    auto p = parts.create();
    p.setPdg(pdg[i] = vp_sym<int>("pdg"));
  }
  const int mother = vp_choose(3, "mother"), nd = vp_choose(3, "daughters");
  const bool hit = vp_flip("hit");
  if (mother < 2)
    parts[0].setMother(parts[mother]);
  if (hit)
    parts[1].setHit(hits[0]);
  for (int k = 0; k < nd; ++k)
    parts[0].addToDaughters(parts[1 - k]);
  parts[1].addToHits(hits[1]);
  parts[1].addToParents(parts[0]);
  auto x = mixed.create();
  x.setId(7);
  x.addToCounts(4);
  x.setHit(hits[1]);
  x.addToHits(hits[0]);
  x.addToHits(hits[1]);
  auto o = holder.create();
  const bool onePart = vp_flip("interface to a part");
  if (onePart)
    o.setOne(parts[1]);
  else
    o.setOne(hits[1]);
  o.addToMany(hits[0]);
  o.addToMany(parts[0]);
  sub.push_back(hits[1]);
  sub.push_back(hits[0]);
  for (int i = 0; i < 2; ++i) {
    auto l = links.create();
    l.setWeight(wgt[i] = vp_sym<float>("weight"));
    l.setFrom(hits[i]);
    if (i == 0 || hit)
      l.setTo(parts[1 - i]);
  }
  lsub.push_back(links[1]);
  auto il = ilinks.create();
  il.setFrom(hits[0]);
  if (onePart)
    il.setTo(EnergyI(parts[0]));
  else
    il.setTo(EnergyI(hits[1]));
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(mixed), "mixed");
  out.put(std::move(holder), "holder");
  out.put(std::move(sub), "sub");
  out.put(std::move(links), "links");
  out.put(std::move(lsub), "lsub");
  out.put(std::move(ilinks), "ilinks");
  std::vector<std::string> all = {"hits", "parts", "mixed", "holder", "sub", "links", "lsub", "ilinks"};
  const int drop = vp_choose(4, "missing"); // hits, parts, links or nothing
  if (drop < 3)
    all.erase(std::find(all.begin(), all.end(), drop == 0 ? "hits" : drop == 1 ? "parts" : "links"));
  if (vp_flip("reversed"))
    std::reverse(all.begin(), all.end());
  {
    typename B::Writer w("a" + B::ext());
    w.writeFrame(out, "events", all);
  }
  auto check = [&](const podio::Frame& in) {
    VP_ASSERT(sameNames(in.getAvailableCollections(), all), "exactly the collections that were written are there");
    const bool haveHits = drop != 0, haveParts = drop != 1, haveLinks = drop != 2;
    VP_ASSERT((in.get("hits") != nullptr) == haveHits && (in.get("parts") != nullptr) == haveParts && (in.get("links") != nullptr) == haveLinks, "what was not written is not there");
    for (auto& name : all) {
      VP_ASSERT(in.get(name) != nullptr, "a collection that was written is there");
      VP_ASSERT(in.get(name)->getID() == out.get(name)->getID(), "a collection keeps its ID");
      VP_ASSERT(in.get(name)->getTypeName() == out.get(name)->getTypeName() && in.get(name)->isSubsetCollection() == out.get(name)->isSubsetCollection(), "a collection keeps its kind");
      VP_ASSERT(in.get(name)->size() == out.get(name)->size(), "all objects are there");
    }
    auto isHit = [&](const Hit& h, int i) { // i < 0: must not be available
      VP_ASSERT(h.isAvailable() == (i >= 0 && haveHits), "available iff it was set and stored");
      if (i >= 0 && haveHits)
        VP_ASSERT(h == in.get<HitCollection>("hits")[i] && h.getCellID() == cell[i], "a relation leads to the object it was set to");
    };
    auto isPart = [&](const Part& p, int i) {
      VP_ASSERT(p.isAvailable() == (i >= 0 && haveParts), "available iff it was set and stored");
      if (i >= 0 && haveParts)
        VP_ASSERT(p == in.get<PartCollection>("parts")[i] && p.getPdg() == pdg[i], "a relation leads to the object it was set to");
    };
    if (haveParts) {
      auto& pc = in.get<PartCollection>("parts");
      isPart(pc[0].getMother(), mother < 2 ? mother : -1);
      isPart(pc[1].getMother(), -1);
      isHit(pc[0].getHit(), -1);
      isHit(pc[1].getHit(), hit ? 0 : -1);
      VP_ASSERT((int)pc[0].daughters_size() == nd && pc[0].parents_size() == 0 && pc[0].hits_size() == 0, "as many related objects as were added");
      for (int k = 0; k < nd; ++k)
        isPart(pc[0].getDaughters(k), 1 - k);
      VP_ASSERT(pc[1].daughters_size() == 0 && pc[1].parents_size() == 1 && pc[1].hits_size() == 1, "as many related objects as were added");
      isHit(pc[1].getHits(0), 1);
      isPart(pc[1].getParents(0), 0);
    }
    auto mx = in.get<MixedCollection>("mixed")[0];
    VP_ASSERT(mx.getId() == 7 && mx.counts_size() == 1 && mx.getCounts(0) == 4 && mx.hits_size() == 2, "members next to relations");
    isHit(mx.getHit(), 1);
    isHit(mx.getHits(0), 0);
    isHit(mx.getHits(1), 1);
    auto ho = in.get<HolderCollection>("holder")[0];
    auto one = ho.getOne();
    VP_ASSERT(one.isAvailable() == (onePart ? haveParts : haveHits), "available iff it was set and stored");
    if (one.isAvailable())
      VP_ASSERT(onePart ? one == in.get<PartCollection>("parts")[1] : one == in.get<HitCollection>("hits")[1], "an interface relation leads to the object it was set to");
    VP_ASSERT(ho.many_size() == 2, "as many related objects as were added");
    if (haveHits)
      VP_ASSERT(ho.getMany(0) == in.get<HitCollection>("hits")[0], "an interface relation leads to the object it was set to");
    if (haveParts)
      VP_ASSERT(ho.getMany(1) == in.get<PartCollection>("parts")[0], "an interface relation leads to the object it was set to");
    if (haveHits) {
      auto& s = in.get<HitCollection>("sub");
      VP_ASSERT(s.isSubsetCollection(), "a subset collection stays one");
      isHit(s[0], 1);
      isHit(s[1], 0);
    }
    if (haveLinks) {
      auto& lc = in.get<HitPartLinkCollection>("links");
      for (int i = 0; i < 2; ++i) {
        VP_ASSERT(same(lc[i].getWeight(), wgt[i]), "a link keeps its weight");
        isHit(lc[i].getFrom(), i);
        isPart(lc[i].getTo(), i == 0 || hit ? 1 - i : -1);
      }
      auto& ls = in.get<HitPartLinkCollection>("lsub");
      VP_ASSERT(ls.isSubsetCollection() && ls[0] == lc[1], "a subset collection of links leads to the links");
    }
    auto& ic = in.get<HitILinkCollection>("ilinks");
    isHit(ic[0].getFrom(), 0);
    auto to = ic[0].getTo();
    VP_ASSERT(to.isAvailable() == (onePart ? haveParts : haveHits), "available iff it was set and stored");
    if (to.isAvailable())
      VP_ASSERT(onePart ? to == in.get<PartCollection>("parts")[0] : to == in.get<HitCollection>("hits")[1], "a link to an interface leads to the object it was set to");
  };
  auto r = reader<B>("a" + B::ext());
  podio::Frame in = frameOf(r->readEntry("events", 0));
  const int first = vp_choose(3, "first");
  if (first)
    (void)in.get(first == 1 ? "links" : "sub");
  if (vp_flip("rewrite before looking")) {
    typename B::Writer w("b" + B::ext());
    w.writeFrame(in, "again", all);
    w.finish();
    auto r2 = reader<B>("b" + B::ext());
    check(frameOf(r2->readNextEntry("again")));
    vp_cover("second file");
  } else
    check(in);
  vp_cover("done");
}

template <typename B, typename T>
static void user(int n) {
  T v[2];
  podio::Frame out;
  podio::UserDataCollection<T> c, e;
  for (int i = 0; i < n; ++i)
    c.push_back(v[i] = vp_sym<T>("v"));
  e.push_back(T(3));
  out.put(std::move(c), "user");
  out.put(std::move(e), "other");
  {
    typename B::Writer w("u" + B::ext());
    w.writeFrame(out, "events");
  }
  auto r = reader<B>("u" + B::ext());
  podio::Frame in = frameOf(r->readNextEntry("events"));
  auto& u = in.get<podio::UserDataCollection<T>>("user");
  VP_ASSERT((int)u.size() == n && u.getID() == out.get("user")->getID(), "all numbers are there");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(same(u[i], v[i]), "numbers come back unchanged");
  auto& o = in.get<podio::UserDataCollection<T>>("other");
  VP_ASSERT(o.size() == 1 && o[0] == T(3), "collections do not mix");
}
template <typename B>
static void b_user() {
  const int n = vp_choose(3, "n");
  switch (vp_choose(10, "type")) {
  case 0: return user<B, float>(n);
  case 1: return user<B, double>(n);
  case 2: return user<B, int8_t>(n);
  case 3: return user<B, int16_t>(n);
  case 4: return user<B, int32_t>(n);
  case 5: return user<B, int64_t>(n);
  case 6: return user<B, uint8_t>(n);
  case 7: return user<B, uint16_t>(n);
  case 8: return user<B, uint32_t>(n);
  default: user<B, uint64_t>(n); vp_cover("all");
  }
}

// parameters of all types, with up to two keys and up to two values
template <typename B>
static void b_params() {
  int iv[2];
  float fv[2];
  double dv[2];
  char sv[2];
  const int n[4] = {vp_choose(3, "ints"), vp_choose(2, "floats"), vp_choose(3, "doubles"), vp_choose(3, "strings")};
  podio::Frame out;
  std::vector<int> iw;
  std::vector<float> fw;
  std::vector<double> dw;
  std::vector<std::string> sw;
  for (int i = 0; i < n[0]; ++i)
    iw.push_back(iv[i] = vp_sym<int>("i"));
  for (int i = 0; i < n[1]; ++i)
    fw.push_back(fv[i] = vp_sym<float>("f"));
  for (int i = 0; i < n[2]; ++i)
    dw.push_back(dv[i] = vp_sym<double>("d"));
  for (int i = 0; i < n[3]; ++i)
    sw.push_back(std::string(i, 'x') + (sv[i] = vp_sym<char>("c")) + (i ? " a longer string" : ""));
  const bool two = vp_flip("two keys");
  out.putParameter("key", iw);
  out.putParameter("key", fw);
  out.putParameter("key", dw);
  out.putParameter("key", sw);
  if (two) {
    out.putParameter("other", 3);
    out.putParameter("another", std::string());
    out.putParameter("other", 2.5);
  }
  {
    typename B::Writer w("p" + B::ext());
    w.writeFrame(out, "runs");
  }
  auto r = reader<B>("p" + B::ext());
  podio::Frame in = frameOf(r->readNextEntry("runs"));
  VP_ASSERT(in.getAvailableCollections().empty(), "no collections were written");
  auto i2 = in.getParameter<std::vector<int>>("key");
  auto f2 = in.getParameter<std::vector<float>>("key");
  auto d2 = in.getParameter<std::vector<double>>("key");
  auto s2 = in.getParameter<std::vector<std::string>>("key");
  VP_ASSERT(i2 && *i2 == iw, "parameters come back unchanged");
  VP_ASSERT(f2 && (int)f2->size() == n[1], "parameters come back unchanged");
  for (int i = 0; i < n[1]; ++i)
    VP_ASSERT(same((*f2)[i], fv[i]), "parameters come back unchanged");
  VP_ASSERT(d2 && (int)d2->size() == n[2], "parameters come back unchanged");
  for (int i = 0; i < n[2]; ++i)
    VP_ASSERT(same((*d2)[i], dv[i]), "parameters come back unchanged");
  VP_ASSERT(s2 && *s2 == sw, "parameters come back unchanged");
  VP_ASSERT(in.getParameter<int>("other").has_value() == two && in.getParameter<std::string>("another").has_value() == two && in.getParameter<double>("other").has_value() == two,
            "exactly the parameters that were put are there");
  VP_ASSERT(!in.getParameter<float>("other") && !in.getParameter<int>("another"), "parameters do not change their type");
  if (two)
    VP_ASSERT(*in.getParameter<int>("other") == 3 && in.getParameter<std::string>("another")->empty() && *in.getParameter<double>("other") == 2.5, "parameters come back unchanged");
  VP_ASSERT(in.getParameterKeys<int>().size() == 1u + two && in.getParameterKeys<float>().size() == 1u && in.getParameterKeys<std::string>().size() == 1u + two,
            "exactly the parameters that were put are there");
  vp_cover("done");
}

// ---- the file: categories, entries in any order, limits, what is stored along
template <typename B>
static void b_file() {
  static const std::string CAT[] = {"events", "a category with a rather long name"}; // (names may be temporary strings or part of longer ones)
  static const std::string LONG[] = {"events of this kind", "a category with a rather long name, and more"};
  std::vector<int> tags[2]; // per category: the tag of every entry
  std::vector<bool> odd[2];
  const int steps = VP_DEPTH ? 4 : 3;
  const int n = vp_choose(steps + 1, "frames");
  std::vector<int> firstSeen;
  {
    typename B::Writer w("f" + B::ext());
    for (int s = 0; s < n; ++s) {
      const int c = vp_choose(2, "category");
      const int tag = vp_sym<int>("tag");
      if (tags[c].empty())
        firstSeen.push_back(c);
      tags[c].push_back(tag);
      odd[c].push_back(s % 2);
      podio::Frame f;
      HitCollection h;
      h.create().setT(tag);
      if (s % 2) // entries of one category need not have the same collections
        h.create().setT(tag);
      f.put(std::move(h), s % 2 || !B::differentEntries ? "odd" : "even");
      f.putParameter("tag", tag);
      w.writeFrame(f, std::string_view(LONG[c]).substr(0, CAT[c].size()));
    }
    if (vp_flip("finish")) {
      w.finish();
      if (vp_flip("twice"))
        w.finish();
    }
  }
  auto r = reader<B>("f" + B::ext());
  auto cats = r->getAvailableCategories();
  VP_ASSERT(cats.size() == firstSeen.size(), "exactly the categories that were written");
  for (int c = 0; c < 2; ++c) {
    VP_ASSERT(std::count(cats.begin(), cats.end(), CAT[c]) == !tags[c].empty(), "exactly the categories that were written");
    VP_ASSERT(r->getEntries(CAT[c]) == tags[c].size(), "every category has the entries that were written");
  }
  VP_ASSERT(r->getEntries("other") == 0 && !r->readNextEntry("other") && !r->readEntry("other", 0), "a category that was never written has no entries");
  VP_ASSERT(r->currentFileVersion() == podio::version::build_version, "the file knows the version it was written with");
  auto models = r->getAvailableDatamodels();
  VP_ASSERT(models.size() == (n ? 1u : 0u), "the definitions of exactly the datamodels that were used");
  if (n) {
    VP_ASSERT(models[0] == "vm" && r->getDatamodelDefinition("vm") == vm::meta::vm__JSONDefinition, "the definition of the datamodel is stored");
    VP_ASSERT(!r->currentFileVersion("vm").has_value(), "a datamodel without version has none");
  }
  unsigned next[2] = {0, 0};
  for (int s = 0; s < (VP_DEPTH ? 4 : 3); ++s) {
    const int c = vp_choose(2, "read category");
    const int k = vp_choose(n + 3, "entry"); // n + 2: the next one
    const unsigned want = k == n + 2 ? next[c] : k;
    auto d = k == n + 2 ? r->readNextEntry(std::string(CAT[c])) : r->readEntry(std::string(CAT[c]), k);
    VP_ASSERT((d != nullptr) == (want < tags[c].size()), "an entry can be read iff it was written");
    if (d || B::failureMoves)
      next[c] = d ? want + 1 : want;
    if (!d) {
      vp_cover("beyond the end");
      continue;
    }
    podio::Frame f(std::move(d));
    VP_ASSERT(f.getParameter<int>("tag") == tags[c][want], "it is the right entry");
    auto names = f.getAvailableCollections();
    VP_ASSERT(names.size() == 1 && (names[0] == "odd" || names[0] == "even"), "the entry has its collections");
    auto& h = f.get<HitCollection>(names[0]);
    VP_ASSERT((h.size() == 2u) == odd[c][want] && h[0].getT() == tags[c][want], "the entry has its contents");
  }
  vp_cover("done");
}

// only some collections are written, and only some of these are asked for
template <typename B>
static void b_limit() {
  static const char* N[] = {"one", "two", "three"};
  podio::Frame out;
  int tag[3];
  for (int i = 0; i < 3; ++i) {
    HitCollection h;
    h.create().setT(tag[i] = vp_sym<int>("tag"));
    out.put(std::move(h), N[i]);
  }
  const std::string second = B::differentEntries ? "events" : "more";
  const int wmask = vp_choose(8, "written"), order = vp_choose(2, "order"), rmask = vp_choose(16, "read");
  std::vector<std::string> wn, rn, have;
  for (int i = 0; i < 3; ++i) {
    const int k = order ? 2 - i : i;
    if (wmask >> k & 1)
      wn.push_back(N[k]);
  }
  bool bad = rmask >> 3;
  for (int i = 0; i < 3; ++i)
    if (rmask >> i & 1) {
      rn.push_back(N[i]);
      bad |= !(wmask >> i & 1);
    }
  if (rmask >> 3)
    rn.push_back("unknown");
  {
    typename B::Writer w("l" + B::ext());
    w.writeFrame(out, "events", wn);
    w.writeFrame(out, second);
  }
  auto r = reader<B>("l" + B::ext());
  decltype(r->readEntry("events", 0)) d;
  const bool thrown = vp_throws<std::invalid_argument>([&] { d = r->readEntry("events", 0, rn); });
  VP_ASSERT(thrown == (bad && !rn.empty()), "asking for a collection that is not in the file is an error");
  if (!thrown) {
    VP_ASSERT(d != nullptr, "the entry is there");
    for (int i = 0; i < 3; ++i)
      if ((rn.empty() || (rmask >> i & 1)) && (wmask >> i & 1))
        have.push_back(N[i]);
    VP_ASSERT(sameNames(d->getAvailableCollections(), have), "exactly what was asked for is available");
    podio::Frame in(std::move(d));
    for (int pass = 0; pass < 2; ++pass) {
      VP_ASSERT(sameNames(in.getAvailableCollections(), have), "exactly what was asked for is available");
      for (int i = 0; i < 3; ++i) {
        const bool there = std::count(have.begin(), have.end(), N[i]);
        VP_ASSERT((in.get(N[i]) != nullptr) == there, "exactly what was asked for can be retrieved");
        if (there)
          VP_ASSERT(in.get<HitCollection>(N[i])[0].getT() == tag[i], "under its own name");
      }
    }
  }
  // another entry is not affected
  podio::Frame in2 = frameOf(r->readEntry(second, B::differentEntries ? 1 : 0));
  for (int i = 0; i < 3; ++i)
    VP_ASSERT(in2.get(N[i]) && in2.get<HitCollection>(N[i])[0].getT() == tag[i], "the next entry is complete");
  vp_cover(thrown ? "refused" : "read");
}

template <typename B>
static void b_open() {
  VP_ASSERT(vp_throws<std::runtime_error>([] { reader<B>("nothing" + B::ext()); }), "a missing file is reported");
  if constexpr (B::refusesToWrite)
    VP_ASSERT(vp_throws_any([] { typename B::Writer w(""); }), "a file that cannot be opened is reported");
  // two files at the same time
  int tag[2];
  {
    typename B::Writer a("a" + B::ext()), b("b" + B::ext());
    for (int s = 0; s < 2; ++s)
      for (int k = 0; k < 2; ++k) {
        podio::Frame f;
        f.putParameter("tag", s == 0 ? (tag[k] = vp_sym<int>("tag")) : k);
        (k ? b : a).writeFrame(f, s ? "late" : "early");
      }
  }
  auto a = reader<B>("a" + B::ext()), b = reader<B>("b" + B::ext());
  for (int k = 0; k < 2; ++k) {
    auto& r = k ? b : a;
    podio::Frame l = frameOf(r->readNextEntry("late")), e = frameOf(r->readNextEntry("early"));
    VP_ASSERT(e.getParameter<int>("tag") == tag[k] && l.getParameter<int>("tag") == k, "files do not mix");
    VP_ASSERT(!r->readNextEntry("late") && !r->readNextEntry("early"), "no further entries");
  }
  vp_cover("done");
}
