// Round trip of plain members and vector members through the I/O buffers
#include "io.h"
#include "vm/HitCollection.h"
#include "vm/MultiCollection.h"
#include "vm/VecsCollection.h"
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

struct MultiVals {
  bool flag;
  int16_t i16;
  uint32_t u32;
  int64_t i64;
  float f;
  double d;
  std::array<int, 3> arr;
  Vec2 c;
  int n0, n1;
  int16_t a0, a1;
  float px[2];
  uint16_t py[2];
};
static MultiVals symVals() {
  MultiVals v;
  v.flag = vp_sym<uint8_t>("flag") & 1;
  v.i16 = vp_sym<int16_t>("i16");
  v.u32 = vp_sym<uint32_t>("u32");
  v.i64 = vp_sym<int64_t>("i64");
  v.f = vp_sym<float>("f");
  v.d = vp_sym<double>("d");
  v.arr = {vp_sym<int>("arr0"), vp_sym<int>("arr1"), vp_sym<int>("arr2")};
  v.c = {vp_sym<int>("ca"), vp_sym<int>("cb")};
  v.n0 = vp_sym<int>("nva");
  v.n1 = vp_sym<int>("nvb");
  v.a0 = vp_sym<int16_t>("narr0");
  v.a1 = vp_sym<int16_t>("narr1");
  for (int i = 0; i < 2; ++i) {
    v.px[i] = vp_sym<float>("px");
    v.py[i] = vp_sym<uint16_t>("py");
  }
  return v;
}
static void setVals(MutableMulti m, const MultiVals& v) {
  m.setFlag(v.flag);
  m.setI16(v.i16);
  m.setU32(v.u32);
  m.setI64(v.i64);
  m.setF(v.f);
  m.setD(v.d);
  m.setArr(v.arr);
  m.setC(v.c);
  Nest n;
  n.v = {v.n0, v.n1};
  n.arr = {v.a0, v.a1};
  m.setN(n);
  for (int i = 0; i < 2; ++i)
    m.setPairs(i, vns::Pair{v.px[i], v.py[i]});
}
template <typename M>
static void checkVals(const M& m, const MultiVals& v) {
  VP_ASSERT(m.getFlag() == v.flag, "bool member keeps its value");
  VP_ASSERT(m.getI16() == v.i16, "int16 member keeps its value");
  VP_ASSERT(m.getU32() == v.u32, "uint32 member keeps its value");
  VP_ASSERT(m.getI64() == v.i64, "int64 member keeps its value");
  VP_ASSERT(same(m.getF(), v.f), "float member keeps its value bit for bit");
  VP_ASSERT(same(m.getD(), v.d), "double member keeps its value bit for bit");
  VP_ASSERT(m.getArr()[0] == v.arr[0] && m.getArr()[1] == v.arr[1] && m.getArr()[2] == v.arr[2], "array member keeps its elements");
  VP_ASSERT(m.getArr(0) == v.arr[0] && m.getArr(1) == v.arr[1] && m.getArr(2) == v.arr[2], "indexed array access returns that element");
  VP_ASSERT(m.getC().a == v.c.a && m.getC().b == v.c.b, "component member keeps its values");
  VP_ASSERT(m.getN().v.a == v.n0 && m.getN().v.b == v.n1, "nested component keeps its values");
  VP_ASSERT(m.getN().arr[0] == v.a0 && m.getN().arr[1] == v.a1, "array in a component keeps its values");
  for (int i = 0; i < 2; ++i) {
    VP_ASSERT(same(m.getPairs()[i].x, v.px[i]) && m.getPairs()[i].y == v.py[i], "array of components keeps its values");
    VP_ASSERT(same(m.getPairs(i).x, v.px[i]) && m.getPairs(i).y == v.py[i], "indexed access to an array of components");
  }
}

// every member kind, N objects, written twice through the same buffers (second prepareForWrite is idempotent)
extern "C" void hm_multi() {
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "n");
  const bool viaPush = vp_flip("viaPush");
  const bool twice = vp_flip("twice");
  std::vector<MultiVals> vals;
  podio::Frame out;
  {
    MultiCollection c;
    for (int i = 0; i < n; ++i) {
      vals.push_back(symVals());
      if (viaPush) {
        MutableMulti m;
        setVals(m, vals.back());
        c.push_back(m);
      } else {
        setVals(c.create(), vals.back());
      }
    }
    out.put(std::move(c), "multi");
  }
  auto* w = out.getCollectionForWrite("multi");
  VP_ASSERT(w && (int)w->size() == n, "collection to write has all elements");
  if (twice)
    w = out.getCollectionForWrite("multi");
  RawData raw;
  raw.add(store<MultiData>(*w, "multi"));
  if (n == 2)
    vp_cover("two");
  // the collection that has been written is still intact
  auto& orig = out.get<MultiCollection>("multi");
  for (int i = 0; i < n; ++i)
    checkVals(orig[i], vals[i]);
  auto in = read(std::move(raw));
  auto& rc = in.get<MultiCollection>("multi");
  VP_ASSERT((int)rc.size() == n, "same number of objects after reading");
  VP_ASSERT(rc.getID() == w->getID(), "collection ID survives the round trip");
  for (int i = 0; i < n; ++i) {
    checkVals(rc[i], vals[i]);
    VP_ASSERT(rc[i].getObjectID() == orig[i].getObjectID(), "object identity survives the round trip");
    VP_ASSERT(rc[i].isAvailable(), "objects that have been read are available");
  }
  // write what has been read once more: nothing changes
  auto* w2 = in.getCollectionForWrite("multi");
  RawData raw2;
  raw2.add(store<MultiData>(*w2, "multi"));
  auto in2 = read(std::move(raw2));
  auto& rc2 = in2.get<MultiCollection>("multi");
  VP_ASSERT((int)rc2.size() == n, "same number of objects after a second round trip");
  for (int i = 0; i < n; ++i)
    checkVals(rc2[i], vals[i]);
}

static const int NC = VP_DEPTH ? 3 : 2; // max number of entries per vector member
// vector members: slices of several objects must not mix
extern "C" void hm_vecs() {
  const int n = vp_choose(VP_DEPTH ? 4 : 3, "n");
  std::vector<int> ids;
  std::vector<std::vector<int>> counts(n);
  std::vector<std::vector<double>> weights(n);
  std::vector<std::vector<Vec2>> comps(n);
  podio::Frame out;
  {
    VecsCollection c;
    for (int i = 0; i < n; ++i) {
      MutableVecs m = c.create();
      ids.push_back(vp_sym<int>("id"));
      m.setId(ids.back());
      int nc = vp_choose(NC + 1, "nc"), nw = vp_choose(i == 1 ? NC + 1 : 2, "nw"), np = i == 0 ? 1 : vp_choose(2, "np");
      for (int k = 0; k < nc; ++k) {
        counts[i].push_back(vp_sym<int>("count"));
        m.addToCounts(counts[i].back());
      }
      for (int k = 0; k < nw; ++k) {
        weights[i].push_back(vp_sym<double>("weight"));
        m.addToWeights(weights[i].back());
      }
      for (int k = 0; k < np; ++k) {
        comps[i].push_back(Vec2{vp_sym<int>("pa"), vp_sym<int>("pb")});
        m.addToComps(comps[i].back());
      }
    }
    out.put(std::move(c), "vecs");
  }
  auto check = [&](const VecsCollection& c) {
    VP_ASSERT((int)c.size() == n, "same number of objects");
    for (int i = 0; i < n; ++i) {
      auto e = c[i];
      VP_ASSERT(e.getId() == ids[i], "member next to vector members keeps its value");
      VP_ASSERT(e.counts_size() == counts[i].size() && e.weights_size() == weights[i].size() && e.comps_size() == comps[i].size(),
                "vector member has the same length");
      VP_ASSERT(e.getCounts().size() == counts[i].size(), "range over a vector member has the same length");
      for (size_t k = 0; k < counts[i].size(); ++k) {
        VP_ASSERT(e.getCounts(k) == counts[i][k], "int vector member keeps every entry");
        VP_ASSERT(*(e.counts_begin() + k) == counts[i][k], "iteration over a vector member yields every entry");
      }
      for (size_t k = 0; k < weights[i].size(); ++k)
        VP_ASSERT(same(e.getWeights(k), weights[i][k]), "double vector member keeps every entry");
      for (size_t k = 0; k < comps[i].size(); ++k)
        VP_ASSERT(e.getComps(k).a == comps[i][k].a && e.getComps(k).b == comps[i][k].b, "component vector member keeps every entry");
      VP_ASSERT(vp_throws<std::out_of_range>([&] { e.getCounts(counts[i].size()); }), "reading past a vector member throws");
      VP_ASSERT(vp_throws<std::out_of_range>([&] { e.getWeights(weights[i].size()); }), "reading past a vector member throws");
    }
  };
  check(out.get<VecsCollection>("vecs"));
  auto* w = out.getCollectionForWrite("vecs");
  RawData raw;
  raw.add(store<VecsData, int, double, Vec2>(*w, "vecs"));
  check(out.get<VecsCollection>("vecs")); // writing has no effect on the content
  auto in = read(std::move(raw));
  check(in.get<VecsCollection>("vecs"));
  auto* w2 = in.getCollectionForWrite("vecs");
  RawData raw2;
  raw2.add(store<VecsData, int, double, Vec2>(*w2, "vecs"));
  auto in2 = read(std::move(raw2));
  check(in2.get<VecsCollection>("vecs"));
  if (n == 2)
    vp_cover("two");
}
