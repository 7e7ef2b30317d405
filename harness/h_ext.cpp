// A model that extends another one: upstream components, types, interfaces and links across models
#include "io.h"
#include "vm/HitCollection.h"
#include "vm/PartCollection.h"
#include "vx/ExtCollection.h"
#include "vx/ExtHitLinkCollection.h"
#include "vx/ScoredCollection.h"
#include "vx/XI.h"
using namespace vio;
using namespace vns;
using namespace xns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
struct XM {
  int first = 0;
  int va = 0, vb = 0, num = 3;
  float x = 0;
  uint16_t y = 0;
  int a = 4, b = 5;
  int ua[2] = {}, ub[2] = {};
  float last = 0.25f;
};
template <typename T>
static void check(const T& t, const XM& m) {
  VP_ASSERT(t.getFirst() == m.first && same(t.getLast(), m.last), "own members");
  VP_ASSERT(t.getComp().vec.a == m.va && t.getComp().vec.b == m.vb && t.getVec().a == m.va && t.getVec().b == m.vb, "upstream component in a component");
  VP_ASSERT(t.getComp().num == m.num && t.getNum() == m.num, "member of a component");
  VP_ASSERT(same(t.getComp().pair.x, m.x) && t.getPair().y == m.y && t.getComp().pair.y == m.y, "upstream component of a namespace");
  VP_ASSERT(t.getUp().a == m.a && t.getUp().b == m.b && t.getA() == m.a && t.getB() == m.b, "upstream component with exposed members");
  for (int i = 0; i < 2; ++i)
    VP_ASSERT(t.getUps(i).a == m.ua[i] && t.getUps()[i].b == m.ub[i], "array of upstream components");
}
constexpr int nOps = 12;
static void mutate(MutableExt& t, XM& m, int op) {
  switch (op) {
  case 0: m.first = vp_sym<int>("v"), t.setFirst(m.first); break;
  case 1: {
    XComp c;
    c.vec = {m.va = vp_sym<int>("v"), m.vb = vp_sym<int>("v")};
    c.num = m.num = vp_sym<int>("v");
    c.pair.x = m.x = vp_sym<float>("v"), c.pair.y = m.y = vp_sym<uint16_t>("v");
    t.setComp(c);
    break;
  }
  case 2: t.setVec({m.va = vp_sym<int>("v"), m.vb = vp_sym<int>("v")}); break;
  case 3: m.num = vp_sym<int>("v"), t.setNum(m.num); break;
  case 4: m.x = vp_sym<float>("v"), m.y = vp_sym<uint16_t>("v"), t.setPair({m.x, m.y}); break;
  case 5: t.setUp({m.a = vp_sym<int>("v"), m.b = vp_sym<int>("v")}); break;
  case 6: m.a = vp_sym<int>("v"), t.setA(m.a); break;
  case 7: m.b = vp_sym<int>("v"), t.setB(m.b); break;
  case 8: m.b = vp_sym<int>("v"), t.getUp().b = m.b; break;
  case 9: {
    const size_t i = vp_sym<size_t>("index");
    const Vec2 v{vp_sym<int>("v"), vp_sym<int>("v")};
    const bool thrown = vp_throws<std::out_of_range>([&] { t.setUps(i, v); });
    VP_ASSERT(thrown == (i >= 2), "setting an array element is refused exactly outside of the array");
    if (!thrown)
      m.ua[vp_concrete(i)] = v.a, m.ub[vp_concrete(i)] = v.b;
    break;
  }
  case 10: m.last = vp_sym<float>("v"), t.setLast(m.last); break;
  case 11: m.num = vp_sym<int>("v"), t.getComp().num = m.num; break;
  }
}
extern "C" void hm_ext_set() {
  XM m;
  MutableExt t;
  check(t, m);
  for (int op : {0, 1, 5, 10})
    mutate(t, m, op);
  check(t, m);
  for (int i = 0; i < (VP_DEPTH ? 3 : 2); ++i)
    mutate(t, m, vp_choose(nOps, "op"));
  check(t, m);
  check(Ext(t), m);
  vp_cover("done");
}
// everything goes through a file together with the upstream collections
extern "C" void hm_ext_rt() {
  ExtCollection exts;
  ScoredCollection scored;
  HitCollection hits;
  PartCollection parts;
  double e[4];
  for (int i = 0; i < 2; ++i) {
    e[i] = vp_sym<double>("e"), hits.create().setEnergy(e[i]);
    e[2 + i] = vp_sym<double>("e");
    auto s = scored.create();
    s.setEnergy(e[2 + i]);
    s.setScore(i);
    parts.create().setPdg(i);
  }
  const int n = 1 + vp_choose(2, "objects");
  std::vector<XM> m(n);
  std::vector<int> hit(n), en(n), self(n);
  std::vector<std::vector<int>> ps(n), xs(n);
  std::vector<std::vector<int>> vecs(n);
  for (int i = 0; i < n; ++i) {
    auto x = exts.create();
    for (int op : {0, 1, 5, 10})
      mutate(x, m[i], op);
    hit[i] = VP_DEPTH || i == 0 ? vp_choose(3, "hit") - 1 : 1;
    if (hit[i] >= 0)
      x.setHit(hits[hit[i]]);
    en[i] = i == 0 ? vp_choose(4, "energetic") - 1 : 1;
    if (en[i] >= 0)
      x.setEnergetic(en[i] < 2 ? EnergyI(hits[en[i]]) : EnergyI(parts[en[i] - 2]));
    if (i == 1)
      x.setSelf(exts[0]);
    for (int k = 0, c = i == 0 ? vp_choose(VP_DEPTH ? 3 : 2, "parts") : 1; k < c; ++k)
      ps[i].push_back(VP_DEPTH || i == 1 ? vp_flip("part") : 1), x.addToParts(parts[ps[i].back()]);
    for (int k = 0, c = i == 0 ? 1 : vp_choose(VP_DEPTH ? 3 : 2, "xis"); k < c; ++k) {
      xs[i].push_back(VP_DEPTH || i == 0 ? vp_choose(4, "xi") : 2);
      x.addToXis(xs[i].back() < 2 ? XI(hits[xs[i].back()]) : XI(scored[xs[i].back() - 2]));
    }
    for (int k = 0, c = i == 0 ? vp_choose(2, "vecs") : 2; k < c; ++k) {
      vecs[i].push_back(vp_sym<int>("vec"));
      x.addToVecs({vecs[i].back(), i});
      x.addToXcomps({{i, vecs[i].back()}, k, {}});
    }
  }
  ExtHitLinkCollection links;
  auto l = links.create();
  const float w = vp_sym<float>("w");
  l.setWeight(w);
  l.setFrom(exts[n - 1]);
  l.setTo(hits[1]);
  exts.setID(1), scored.setID(2), hits.setID(3), parts.setID(4), links.setID(5);
  for (podio::CollectionBase* c : std::initializer_list<podio::CollectionBase*>{&exts, &scored, &hits, &parts, &links})
    c->prepareForWrite();
  RawData rd;
  rd.add(store<ExtData, Vec2, XComp>(exts, "exts"));
  rd.add(store<HitData>(hits, "hits"));
  rd.add(store<PartData>(parts, "parts"));
  rd.add(store<ScoredData>(scored, "scored"));
  rd.add(store<podio::LinkData>(links, "links"));
  const podio::Frame f = read(std::move(rd));
  auto& rl = f.get<ExtHitLinkCollection>("links");
  auto& rx = f.get<ExtCollection>("exts");
  auto& rh = f.get<HitCollection>("hits");
  auto& rp = f.get<PartCollection>("parts");
  auto& rs = f.get<ScoredCollection>("scored");
  VP_ASSERT(rx.size() == (size_t)n && rh.size() == 2 && rp.size() == 2 && rs.size() == 2 && rl.size() == 1, "all objects are read");
  VP_ASSERT(rl[0].getFrom() == rx[n - 1] && rl[0].getTo() == rh[1] && same(rl[0].getWeight(), w), "links across models");
  for (int i = 0; i < n; ++i) {
    auto x = rx[i];
    check(x, m[i]);
    VP_ASSERT(hit[i] >= 0 ? x.getHit() == rh[hit[i]] : !x.getHit().isAvailable(), "relation to an upstream type");
    if (en[i] < 0)
      VP_ASSERT(!x.getEnergetic().isAvailable(), "unset relation to an upstream interface");
    else if (en[i] < 2)
      VP_ASSERT(x.getEnergetic().isA<Hit>() && x.getEnergetic() == rh[en[i]] && same(x.getEnergetic().getEnergy(), e[en[i]]), "relation to an upstream interface");
    else
      VP_ASSERT(x.getEnergetic().isA<Part>() && x.getEnergetic() == rp[en[i] - 2], "relation to an upstream interface");
    VP_ASSERT(i == 1 ? x.getSelf() == rx[0] : !x.getSelf().isAvailable(), "relation to the own type");
    VP_ASSERT(x.getParts().size() == ps[i].size() && x.getXis().size() == xs[i].size(), "number of relations");
    for (size_t k = 0; k < ps[i].size(); ++k)
      VP_ASSERT(x.getParts(k) == rp[ps[i][k]], "relations to an upstream type");
    for (size_t k = 0; k < xs[i].size(); ++k) {
      const XI v = x.getXis(k);
      if (xs[i][k] < 2)
        VP_ASSERT(v.isA<Hit>() && v == rh[xs[i][k]] && same(v.getEnergy(), e[xs[i][k]]), "relation to an interface over both models");
      else
        VP_ASSERT(v.isA<Scored>() && v == rs[xs[i][k] - 2] && same(v.getEnergy(), e[xs[i][k]]), "relation to an interface over both models");
    }
    VP_ASSERT(x.getVecs().size() == vecs[i].size() && x.getXcomps().size() == vecs[i].size(), "length of vector members");
    for (size_t k = 0; k < vecs[i].size(); ++k) {
      VP_ASSERT(x.getVecs(k).a == vecs[i][k] && x.getVecs(k).b == i, "vector member of upstream components");
      VP_ASSERT(x.getXcomps(k).vec.b == vecs[i][k] && x.getXcomps(k).num == (int)k, "vector member of components");
    }
  }
  vp_cover("done");
}
