// JSON output of collections, objects, components and links
#include "vp.h"
#include "nlohmann/json.hpp"
#include "podio/LinkCollection.h"
#include "vm/EnergyI.h"
#include "vm/HitCollection.h"
#include "vm/HitILinkCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/HolderCollection.h"
#include "vm/MixedCollection.h"
#include "vm/MultiCollection.h"
#include "vm/PartCollection.h"
#include "vm/VecsCollection.h"
#include <cstring>
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
using nlohmann::json;
static const int N = VP_DEPTH ? 3 : 2;

static uint64_t bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
template <typename T>
static bool num(const json& j, T v) {
  if constexpr (std::is_same_v<T, bool>)
    return j.is_boolean() && j.get<bool>() == v;
  else if constexpr (std::is_floating_point_v<T>)
    return j.is_number_float() && (bits(j.get<double>()) == bits((double)v) || ((double)v != (double)v && j.get<double>() != j.get<double>()));
  else if constexpr (std::is_signed_v<T>)
    return j.is_number_integer() && !j.is_number_unsigned() && j.get<int64_t>() == (int64_t)v;
  else
    return j.is_number_unsigned() && j.get<uint64_t>() == (uint64_t)v;
}
static bool oid(const json& j, const podio::ObjectID& id) {
  return j.is_object() && j.size() == 2 && num(j.at("collectionID"), id.collectionID) && num(j.at("index"), id.index);
}
static bool keys(const json& j, std::initializer_list<const char*> ks) {
  if (!j.is_object() || j.size() != ks.size())
    return false;
  for (auto k : ks)
    if (!j.contains(k))
      return false;
  return true;
}
static bool vec2(const json& j, const Vec2& v) { return keys(j, {"a", "b"}) && num(j.at("a"), v.a) && num(j.at("b"), v.b); }

// members of every kind
extern "C" void hm_json_multi() {
  MultiCollection c;
  const int n = vp_choose(N + 1, "n");
  std::vector<MutableMulti> m;
  for (int i = 0; i < n; ++i) {
    auto o = c.create();
    o.setFlag(vp_sym<uint8_t>("flag") & 1);
    o.setI16(vp_sym<int16_t>("i16"));
    o.setU32(vp_sym<uint32_t>("u32"));
    o.setI64(vp_sym<int64_t>("i64"));
    o.setF(vp_sym<float>("f"));
    o.setD(vp_sym<double>("d"));
    o.setArr({vp_sym<int>("a"), vp_sym<int>("a"), vp_sym<int>("a")});
    o.setC({vp_sym<int>("ca"), vp_sym<int>("cb")});
    o.setN({{vp_sym<int>("na"), vp_sym<int>("nb")}, {vp_sym<int16_t>("n0"), vp_sym<int16_t>("n1")}});
    o.setPairs({vns::Pair{vp_sym<float>("px"), vp_sym<uint16_t>("py")}, vns::Pair{vp_sym<float>("px"), vp_sym<uint16_t>("py")}});
    m.push_back(o);
  }
  const json j = c;
  VP_ASSERT(j.is_array() && (int)j.size() == n, "one entry per object");
  for (int i = 0; i < n; ++i) {
    const json& e = j.at(i);
    VP_ASSERT(keys(e, {"flag", "i16", "u32", "i64", "f", "d", "arr", "c", "n", "pairs"}), "exactly the members");
    VP_ASSERT(num<bool>(e.at("flag"), m[i].getFlag()), "bool");
    VP_ASSERT(num<int64_t>(e.at("i16"), m[i].getI16()), "16 bit integer");
    VP_ASSERT(num<uint64_t>(e.at("u32"), m[i].getU32()), "unsigned integer");
    VP_ASSERT(num<int64_t>(e.at("i64"), m[i].getI64()), "64 bit integer");
    VP_ASSERT(num<float>(e.at("f"), m[i].getF()) && num<double>(e.at("d"), m[i].getD()), "floating point numbers");
    VP_ASSERT(e.at("arr").is_array() && e.at("arr").size() == 3, "array");
    for (int k = 0; k < 3; ++k)
      VP_ASSERT(num<int>(e.at("arr").at(k), m[i].getArr()[k]), "elements of arrays");
    VP_ASSERT(vec2(e.at("c"), m[i].getC()), "component");
    VP_ASSERT(keys(e.at("n"), {"v", "arr"}) && vec2(e.at("n").at("v"), m[i].getN().v), "nested component");
    VP_ASSERT(e.at("n").at("arr").size() == 2 && num<int64_t>(e.at("n").at("arr").at(0), m[i].getN().arr[0]) && num<int64_t>(e.at("n").at("arr").at(1), m[i].getN().arr[1]),
              "array in a component");
    VP_ASSERT(e.at("pairs").size() == 2, "array of components");
    for (int k = 0; k < 2; ++k)
      VP_ASSERT(keys(e.at("pairs").at(k), {"x", "y"}) && num<float>(e.at("pairs").at(k).at("x"), m[i].getPairs()[k].x) &&
                    num<uint64_t>(e.at("pairs").at(k).at("y"), m[i].getPairs()[k].y),
                "components in an array");
  }
  if (n == N)
    vp_cover("full");
}

// vector members and relations
extern "C" void hm_json_rel() {
  HitCollection hits;
  hits.setID(vp_sym<uint32_t>("hits"));
  PartCollection parts;
  parts.setID(vp_sym<uint32_t>("parts"));
  std::vector<MutableHit> h = {hits.create(), hits.create()};
  const int n = vp_choose(2, "n") + 1;
  std::vector<MutablePart> p;
  std::vector<std::vector<podio::ObjectID>> dau(n), hit(n);
  std::vector<podio::ObjectID> mo(n), sh(n);
  for (int i = 0; i < n; ++i)
    p.push_back(parts.create(vp_sym<int>("pdg"), vp_sym<double>("e")));
  for (int i = 0; i < n; ++i) {
    if (vp_flip("mother")) {
      p[i].setMother(p[n - 1 - i]);
      mo[i] = p[n - 1 - i].getObjectID();
    }
    const int k = vp_choose(3, "hit");
    if (k < 2) {
      p[i].setHit(h[k]);
      sh[i] = h[k].getObjectID();
    }
    const int nd = vp_choose(i ? 2 : 3, "daughters"), nh = vp_choose(3, "hits");
    for (int d = 0; d < nd; ++d) {
      p[i].addToDaughters(p[d % n]);
      dau[i].push_back(p[d % n].getObjectID());
    }
    for (int d = 0; d < nh; ++d) {
      const int kind = i == 0 && d == 1 ? vp_choose(3, "kind") : 0;
      if (kind) { // nothing, or an object that is in no collection
        p[i].addToHits(kind == 1 ? Hit::makeEmpty() : Hit(MutableHit()));
        hit[i].push_back(podio::ObjectID{});
        continue;
      }
      p[i].addToHits(h[(i + d) % 2]);
      hit[i].push_back(h[(i + d) % 2].getObjectID());
    }
  }
  const json j = parts;
  VP_ASSERT(j.is_array() && (int)j.size() == n, "one entry per object");
  for (int i = 0; i < n; ++i) {
    const json& e = j.at(i);
    VP_ASSERT(keys(e, {"pdg", "energy", "mother", "hit", "parents", "daughters", "hits"}), "members and relations");
    VP_ASSERT(num<int64_t>(e.at("pdg"), p[i].getPdg()) && num<double>(e.at("energy"), p[i].getEnergy()), "members");
    auto one = [&](const json& r, const podio::ObjectID& id) { return r.is_array() ? r.size() == 1 && oid(r.at(0), id) : oid(r, id); };
    VP_ASSERT(one(e.at("mother"), mo[i]) && one(e.at("hit"), sh[i]), "one-to-one relations");
    VP_ASSERT(e.at("parents").is_array() && e.at("parents").empty(), "empty relation");
    VP_ASSERT(e.at("daughters").size() == dau[i].size() && e.at("hits").size() == hit[i].size(), "one entry per related object");
    for (size_t k = 0; k < dau[i].size(); ++k)
      VP_ASSERT(oid(e.at("daughters").at(k), dau[i][k]), "related objects in order");
    for (size_t k = 0; k < hit[i].size(); ++k)
      VP_ASSERT(oid(e.at("hits").at(k), hit[i][k]), "related objects in order");
  }
  // references only
  PartCollection sub;
  sub.setSubsetCollection();
  const int pick = vp_choose(n, "pick");
  sub.push_back(p[pick]);
  const json s = sub;
  VP_ASSERT(s.is_array() && s.size() == 1 && oid(s.at(0), p[pick].getObjectID()), "a subset collection lists the object IDs");
  vp_cover("done");
}

extern "C" void hm_json_vecs() {
  VecsCollection c;
  const int n = vp_choose(N + 1, "n");
  std::vector<MutableVecs> o;
  for (int i = 0; i < n; ++i) {
    o.push_back(c.create());
    o[i].setId(vp_sym<int>("id"));
    const int nc = vp_choose(3, "counts"), nw = vp_choose(2, "weights"), nv = vp_choose(3, "comps");
    for (int k = 0; k < nc; ++k)
      o[i].addToCounts(vp_sym<int>("count"));
    for (int k = 0; k < nw; ++k)
      o[i].addToWeights(vp_sym<double>("weight"));
    for (int k = 0; k < nv; ++k)
      o[i].addToComps({vp_sym<int>("a"), vp_sym<int>("b")});
  }
  const json j = c;
  VP_ASSERT(j.is_array() && (int)j.size() == n, "one entry per object");
  for (int i = 0; i < n; ++i) {
    const json& e = j.at(i);
    VP_ASSERT(keys(e, {"id", "counts", "weights", "comps"}) && num<int64_t>(e.at("id"), o[i].getId()), "members");
    VP_ASSERT(e.at("counts").is_array() && e.at("counts").size() == o[i].getCounts().size() && e.at("weights").is_array() &&
                  e.at("weights").size() == o[i].getWeights().size() && e.at("comps").is_array() && e.at("comps").size() == o[i].getComps().size(),
              "vector members have all entries");
    for (size_t k = 0; k < o[i].getCounts().size(); ++k)
      VP_ASSERT(num<int64_t>(e.at("counts").at(k), o[i].getCounts()[k]), "integers");
    for (size_t k = 0; k < o[i].getWeights().size(); ++k)
      VP_ASSERT(num<double>(e.at("weights").at(k), o[i].getWeights()[k]), "floating point numbers");
    for (size_t k = 0; k < o[i].getComps().size(); ++k)
      VP_ASSERT(vec2(e.at("comps").at(k), o[i].getComps()[k]), "components");
  }
  if (n == N)
    vp_cover("full");
}

// links and interface relations
extern "C" void hm_json_link() {
  HitCollection hits;
  hits.setID(vp_sym<uint32_t>("hits"));
  PartCollection parts;
  parts.setID(vp_sym<uint32_t>("parts"));
  std::vector<MutableHit> h = {hits.create(), hits.create()};
  std::vector<MutablePart> p = {parts.create(), parts.create()};
  HitPartLinkCollection c;
  HitILinkCollection ci;
  HolderCollection ho;
  const int n = vp_choose(N + 1, "n");
  std::vector<podio::ObjectID> f(n), t(n), ti(n);
  std::vector<float> w(n);
  for (int i = 0; i < n; ++i) {
    auto l = c.create();
    auto li = ci.create();
    w[i] = vp_sym<float>("w");
    l.setWeight(w[i]);
    li.setWeight(w[i]);
    const int a = vp_choose(3, "from"), b = vp_choose(3, "to");
    if (a < 2) {
      l.setFrom(h[a]);
      li.setFrom(h[a]);
      f[i] = h[a].getObjectID();
    }
    if (b < 2) {
      l.setTo(p[b]);
      t[i] = p[b].getObjectID();
    }
    auto o = ho.create();
    if ((a + b) % 2) {
      li.setTo(EnergyI(h[b % 2]));
      o.setOne(EnergyI(h[b % 2]));
      ti[i] = h[b % 2].getObjectID();
    } else {
      li.setTo(EnergyI(p[b % 2]));
      o.setOne(EnergyI(p[b % 2]));
      ti[i] = p[b % 2].getObjectID();
    }
    o.addToMany(EnergyI(p[0]));
    o.addToMany(EnergyI(h[1]));
  }
  const json j = c, ji = ci, jo = ho;
  VP_ASSERT(j.is_array() && (int)j.size() == n && ji.is_array() && (int)ji.size() == n && jo.is_array() && (int)jo.size() == n, "one entry per link");
  for (int i = 0; i < n; ++i) {
    VP_ASSERT(keys(j.at(i), {"weight", "from", "to"}) && keys(ji.at(i), {"weight", "from", "to"}), "the parts of a link");
    VP_ASSERT(num<float>(j.at(i).at("weight"), w[i]) && num<float>(ji.at(i).at("weight"), w[i]), "weight");
    VP_ASSERT(oid(j.at(i).at("from"), f[i]) && oid(j.at(i).at("to"), t[i]) && oid(ji.at(i).at("from"), f[i]), "from and to");
    VP_ASSERT(oid(ji.at(i).at("to"), ti[i]), "to an interface type");
    const json& one = jo.at(i).at("one");
    VP_ASSERT(oid(one.is_array() ? one.at(0) : one, ti[i]), "relation to an interface type");
    VP_ASSERT(jo.at(i).at("many").size() == 2 && oid(jo.at(i).at("many").at(0), p[0].getObjectID()) && oid(jo.at(i).at("many").at(1), h[1].getObjectID()), "relations to an interface type");
  }
  if (n == N)
    vp_cover("full");
}
