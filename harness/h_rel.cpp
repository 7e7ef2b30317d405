// Relations: what is set is what is returned, in memory and after a round trip through the I/O buffers
#include "io.h"
#include "vm/HitCollection.h"
#include "vm/HolderCollection.h"
#include "vm/MixedCollection.h"
#include "vm/PartCollection.h"
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

// a target: collection 0 = hits, 1 = parts, 2 = other parts; -1 = unset
struct Tgt {
  int coll = -1;
  int idx = 0;
};

struct World {
  podio::Frame out;
  HitCollection hits;
  PartCollection parts, other;
  std::vector<int> pdg, opdg;
  std::vector<uint64_t> cell;
  void make(int nh, int np, int no) {
    for (int i = 0; i < nh; ++i) {
      cell.push_back(vp_sym<uint64_t>("cell"));
      auto h = hits.create();
      h.setCellID(cell.back());
    }
    for (int i = 0; i < np; ++i) {
      pdg.push_back(vp_sym<int>("pdg"));
      parts.create().setPdg(pdg.back());
    }
    for (int i = 0; i < no; ++i) {
      opdg.push_back(vp_sym<int>("opdg"));
      other.create().setPdg(opdg.back());
    }
  }
  Part part(Tgt t) {
    return t.coll == 1 ? Part(parts[t.idx]) : Part(other[t.idx]);
  }
  int pdgOf(Tgt t) {
    return t.coll == 1 ? pdg[t.idx] : opdg[t.idx];
  }
  void put() {
    out.put(std::move(hits), "hits");
    out.put(std::move(parts), "parts");
    out.put(std::move(other), "other");
  }
  // what a writer stores, in any order
  RawData write(bool dropHits = false, bool dropOther = false, bool reversed = false) {
    RawData raw;
    if ((dropHits || dropOther) && vp_flip("known")) { // what is not there may still be in the table
      if (dropHits)
        raw.known(*out.get("hits"), "hits");
      if (dropOther)
        raw.known(*out.get("other"), "other");
    }
    auto one = [&](int k) {
      if (k == 0 && !dropHits)
        raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
      if (k == 1)
        raw.add(store<PartData>(*out.getCollectionForWrite("parts"), "parts"));
      if (k == 2 && !dropOther)
        raw.add(store<PartData>(*out.getCollectionForWrite("other"), "other"));
    };
    for (int k = 0; k < 3; ++k)
      one(reversed ? 2 - k : k);
    return raw;
  }
};

// a part target is one of: unset, parts[0..np), other[0..no)
static Tgt chooseTgt(int np, int no, bool unset, const char* name) {
  int k = vp_choose(np + no + (unset ? 1 : 0), name);
  if (k < np)
    return {1, k};
  if (k < np + no)
    return {2, k - np};
  return {-1, 0};
}
static const char* collName(int c) {
  return c == 0 ? "hits" : c == 1 ? "parts" : "other";
}
static void touchFirst(const podio::Frame& in, int first) {
  if (first < 3)
    in.get(collName(first));
}

static void checkPart(World& w, const podio::Frame& f, const Part& p, Tgt t, bool missing) {
  if (t.coll < 0 || missing) {
    VP_ASSERT(!p.isAvailable(), "a relation that is unset, or whose target was not stored, is not available");
    return;
  }
  VP_ASSERT(p.isAvailable(), "a relation that was set is available");
  auto& tc = f.get<PartCollection>(collName(t.coll));
  VP_ASSERT(p == tc[t.idx], "a relation leads to the very object it was set to");
  VP_ASSERT(p.getPdg() == w.pdgOf(t), "the related object carries its data");
  VP_ASSERT(p.getObjectID().index == t.idx && p.getObjectID().collectionID == tc.getID(), "the related object has its identity");
}
static void checkHit(World& w, const podio::Frame& f, const Hit& h, Tgt t, bool missing) {
  if (t.coll < 0 || missing) {
    VP_ASSERT(!h.isAvailable(), "a relation that is unset, or whose target was not stored, is not available");
    return;
  }
  VP_ASSERT(h.isAvailable(), "a relation that was set is available");
  auto& tc = f.get<HitCollection>("hits");
  VP_ASSERT(h == tc[t.idx], "a relation leads to the very object it was set to");
  VP_ASSERT(h.getCellID() == w.cell[t.idx], "the related object carries its data");
  VP_ASSERT(h.getObjectID().index == t.idx && h.getObjectID().collectionID == tc.getID(), "the related object has its identity");
}

// one-to-one relations of two objects (including cycles and self relations), any of the targets, any first access
extern "C" void hm_single() {
  World w;
  w.make(2, 2, 1);
  Tgt m[2], h[2];
  for (int i = 0; i < 2; ++i) {
    m[i] = chooseTgt(2, 1, true, "mother");
    int k = vp_choose(3, "hit");
    h[i] = k < 2 ? Tgt{0, k} : Tgt{};
    auto p = w.parts[i];
    if (m[i].coll >= 0)
      p.setMother(w.part(m[i]));
    if (h[i].coll >= 0)
      p.setHit(w.hits[h[i].idx]);
  }
  w.put();
  auto check = [&](const podio::Frame& f, bool noHits, bool noOther) {
    auto& pc = f.get<PartCollection>("parts");
    VP_ASSERT(pc.size() == 2, "all objects are there");
    for (int i = 0; i < 2; ++i) {
      checkPart(w, f, pc[i].getMother(), m[i], m[i].coll == 2 && noOther);
      checkHit(w, f, pc[i].getHit(), h[i], noHits);
      VP_ASSERT(pc[i].parents_size() == 0 && pc[i].daughters_size() == 0 && pc[i].hits_size() == 0, "empty relations stay empty");
    }
    if (!noOther)
      VP_ASSERT(!f.get<PartCollection>("other")[0].getMother().isAvailable(), "relations of other objects stay unset");
  };
  check(w.out, false, false);
  int miss = vp_choose(4, "missing");
  auto in = read(w.write(miss & 1, miss & 2));
  touchFirst(in, VP_DEPTH ? vp_choose(4, "first") : (m[0].coll + h[0].idx + m[1].idx + 1) % 4);
  check(in, miss & 1, miss & 2);
  if (m[0].coll == 1 && m[0].idx == 1 && m[1].coll == 1 && m[1].idx == 0)
    vp_cover("cycle");
  if (m[0].coll == 2 && miss == 2)
    vp_cover("missing target");
}

// one-to-many relations of two objects: every list of up to 2 targets in either relation, slices do not mix
extern "C" void hm_multi() {
  World w;
  const int np = 2, no = 1;
  w.make(2, np, no);
  std::vector<Tgt> par[2], dau[2];
  std::vector<int> hi[2];
  for (int i = 0; i < np; ++i) {
    auto p = w.parts[i];
    int n = vp_choose(3, "nparents");
    for (int k = 0; k < n; ++k) {
      par[i].push_back(chooseTgt(np, no, false, "parent"));
      p.addToParents(w.part(par[i].back()));
    }
    int nd = vp_choose(VP_DEPTH ? 3 : 2, "ndaughters");
    for (int k = 0; k < nd; ++k) {
      dau[i].push_back(Tgt{1, (i + k + 1) % 2});
      p.addToDaughters(w.part(dau[i].back()));
    }
    // hits: the first object has up to one, the second all of them in reverse order
    for (int k = 1; k >= (i == 0 ? 1 : 0); --k) {
      hi[i].push_back(k);
      p.addToHits(w.hits[k]);
    }
  }
  w.put();
  auto check = [&](const podio::Frame& f, bool noHits, bool noOther) {
    auto& pc = f.get<PartCollection>("parts");
    VP_ASSERT(pc.size() == 2, "all objects are there");
    for (int i = 0; i < np; ++i) {
      auto p = pc[i];
      VP_ASSERT(p.parents_size() == par[i].size() && p.daughters_size() == dau[i].size() && p.hits_size() == hi[i].size(),
                "a relation has as many entries as were added");
      VP_ASSERT(p.getParents().size() == par[i].size(), "the range has as many entries as were added");
      int k = 0;
      for (const auto& q : p.getParents())
        checkPart(w, f, q, par[i][k], par[i][k].coll == 2 && noOther), ++k;
      VP_ASSERT(k == (int)par[i].size(), "iterating visits every entry once");
      for (size_t j = 0; j < par[i].size(); ++j) {
        checkPart(w, f, p.getParents(j), par[i][j], par[i][j].coll == 2 && noOther);
        checkPart(w, f, *(p.parents_begin() + j), par[i][j], par[i][j].coll == 2 && noOther);
      }
      VP_ASSERT(p.parents_end() - p.parents_begin() == (long)par[i].size(), "begin and end delimit the entries");
      for (size_t j = 0; j < dau[i].size(); ++j)
        checkPart(w, f, p.getDaughters(j), dau[i][j], false);
      for (size_t j = 0; j < hi[i].size(); ++j)
        checkHit(w, f, p.getHits(j), Tgt{0, hi[i][j]}, noHits);
      VP_ASSERT(vp_throws<std::out_of_range>([&] { p.getParents(par[i].size()); }), "access past the last entry throws");
      VP_ASSERT(vp_throws<std::out_of_range>([&] { p.getHits(hi[i].size()); }), "access past the last entry throws");
      VP_ASSERT(vp_throws<std::out_of_range>([&] { p.getDaughters().at(dau[i].size()); }), "range access past the end throws");
    }
  };
  check(w.out, false, false);
  int miss = VP_DEPTH ? vp_choose(3, "missing") : (int)(par[0].size() + par[1].size()) % 3;
  auto in = read(w.write(miss == 1, miss == 2, par[1].size() == 1));
  touchFirst(in, (par[0].size() + dau[1].size()) % 4);
  check(in, miss == 1, miss == 2);
  // reading and writing once more changes nothing
  if (miss == 0) {
    RawData r2;
    r2.add(store<PartData>(*in.getCollectionForWrite("parts"), "parts"));
    r2.add(store<HitData>(*in.getCollectionForWrite("hits"), "hits"));
    r2.add(store<PartData>(*in.getCollectionForWrite("other"), "other"));
    auto in2 = read(std::move(r2));
    check(in2, false, false);
    vp_cover("second round trip");
  }
  if (par[0].size() == 2 && par[1].size() == 2)
    vp_cover("full");
}

// unset entries inside a one-to-many relation can't be stored silently as something else
extern "C" void hm_untracked() {
  HitCollection hits;
  hits.create();
  PartCollection parts;
  auto p = parts.create();
  MutableHit loose;
  loose.setCellID(vp_sym<uint64_t>("cell"));
  int pos = vp_choose(3, "pos");
  for (int k = 0; k < 3; ++k) {
    if (k == pos)
      p.addToHits(loose);
    else
      p.addToHits(hits[0]);
  }
  podio::Frame f;
  f.put(std::move(hits), "hits");
  auto& pc = f.put(std::move(parts), "parts");
  VP_ASSERT(pc[0].getHits(pos).getCellID() == loose.getCellID(), "in memory the relation leads to the object");
  VP_ASSERT(vp_throws<std::runtime_error>([&] { f.getCollectionForWrite("parts"); }), "storing a relation to an untracked object is refused");
  vp_cover("refused");
}

// vector members and relations next to each other
extern "C" void hm_mixed() {
  const int n = vp_choose(3, "n");
  HitCollection hits;
  std::vector<int> t;
  for (int i = 0; i < 3; ++i) {
    t.push_back(vp_sym<int>("t"));
    hits.create().setT(t.back());
  }
  MixedCollection mc;
  std::vector<int> ids;
  std::vector<std::vector<int>> counts(n), hi(n);
  std::vector<int> one(n);
  for (int i = 0; i < n; ++i) {
    MutableMixed m;
    bool pushed = vp_flip("pushed");
    if (!pushed)
      m = mc.create();
    ids.push_back(vp_sym<int>("id"));
    m.setId(ids.back());
    int nc = vp_choose(3, "nc"), nh = vp_choose(3, "nh");
    for (int k = 0; k < nc; ++k) {
      counts[i].push_back(vp_sym<int>("count"));
      m.addToCounts(counts[i].back());
    }
    for (int k = 0; k < nh; ++k) {
      hi[i].push_back((i + 2 * k) % 3);
      m.addToHits(hits[hi[i].back()]);
    }
    one[i] = (nc + nh) % 4 - 1;
    if (one[i] >= 0)
      m.setHit(hits[one[i]]);
    if (pushed)
      mc.push_back(m);
  }
  podio::Frame out;
  out.put(std::move(mc), "mixed");
  out.put(std::move(hits), "hits");
  auto check = [&](const podio::Frame& f) {
    auto& c = f.get<MixedCollection>("mixed");
    auto& h = f.get<HitCollection>("hits");
    VP_ASSERT((int)c.size() == n && h.size() == 3, "all objects are there");
    for (int i = 0; i < n; ++i) {
      auto m = c[i];
      VP_ASSERT(m.getId() == ids[i], "plain member keeps its value");
      VP_ASSERT(m.counts_size() == counts[i].size() && m.hits_size() == hi[i].size(), "lengths are kept");
      for (size_t k = 0; k < counts[i].size(); ++k)
        VP_ASSERT(m.getCounts(k) == counts[i][k], "vector member next to relations keeps every entry");
      for (size_t k = 0; k < hi[i].size(); ++k) {
        VP_ASSERT(m.getHits(k) == h[hi[i][k]], "relation next to vector members keeps every entry");
        VP_ASSERT(m.getHits(k).getT() == t[hi[i][k]], "related object carries its data");
      }
      VP_ASSERT(m.getHit().isAvailable() == (one[i] >= 0), "one-to-one relation is set exactly if it was set");
      if (one[i] >= 0)
        VP_ASSERT(m.getHit() == h[one[i]], "one-to-one relation next to vector members");
    }
  };
  check(out);
  RawData raw;
  raw.add(store<MixedData, int>(*out.getCollectionForWrite("mixed"), "mixed"));
  raw.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
  check(out);
  auto in = read(std::move(raw));
  check(in);
  if (n == 2)
    vp_cover("two");
}

// relations through an interface type: the concrete type, the identity and the order survive
extern "C" void hm_iface() {
  World w;
  w.make(2, 2, 0);
  const int n = vp_choose(2, "n") + 1;
  HolderCollection hc;
  std::vector<Tgt> one(n);
  std::vector<std::vector<Tgt>> many(n);
  auto ch = [&](bool unset) {
    int k = vp_choose(unset ? 5 : 4, "target");
    return k < 2 ? Tgt{0, k} : k < 4 ? Tgt{1, k - 2} : Tgt{};
  };
  auto obj = [&](Tgt t) { return t.coll == 0 ? EnergyI(w.hits[t.idx]) : EnergyI(Part(w.parts[t.idx])); };
  std::vector<double> he, pe;
  for (int i = 0; i < 2; ++i) {
    he.push_back(vp_sym<double>("he"));
    pe.push_back(vp_sym<double>("pe"));
    w.hits[i].setEnergy(he[i]);
    w.parts[i].setEnergy(pe[i]);
  }
  for (int i = 0; i < n; ++i) {
    auto h = hc.create();
    one[i] = ch(true);
    if (one[i].coll >= 0)
      h.setOne(obj(one[i]));
    int m = vp_choose(i == 0 ? 3 : 2, "nmany");
    for (int k = 0; k < m; ++k) {
      many[i].push_back(ch(false));
      h.addToMany(obj(many[i].back()));
    }
  }
  w.out.put(std::move(hc), "holders");
  w.put();
  auto chk = [&](const podio::Frame& f, const EnergyI& e, Tgt t) {
    VP_ASSERT(e.isAvailable(), "an interface relation that was set is available");
    if (t.coll == 0) {
      VP_ASSERT(e.isA<Hit>() && !e.isA<Part>(), "the concrete type behind the interface is kept");
      VP_ASSERT(e.as<Hit>() == f.get<HitCollection>("hits")[t.idx], "an interface relation leads to the very object it was set to");
      VP_ASSERT(same(e.getEnergy(), he[t.idx]), "values are accessible through the interface");
    } else {
      VP_ASSERT(e.isA<Part>() && !e.isA<Hit>(), "the concrete type behind the interface is kept");
      VP_ASSERT(e.as<Part>() == f.get<PartCollection>("parts")[t.idx], "an interface relation leads to the very object it was set to");
      VP_ASSERT(same(e.getEnergy(), pe[t.idx]), "values are accessible through the interface");
    }
  };
  auto check = [&](const podio::Frame& f) {
    auto& c = f.get<HolderCollection>("holders");
    VP_ASSERT((int)c.size() == n, "all objects are there");
    for (int i = 0; i < n; ++i) {
      if (one[i].coll >= 0)
        chk(f, c[i].getOne(), one[i]);
      else
        VP_ASSERT(!c[i].getOne().isAvailable(), "an unset interface relation is not available");
      VP_ASSERT(c[i].many_size() == many[i].size(), "an interface relation has as many entries as were added");
      for (size_t k = 0; k < many[i].size(); ++k)
        chk(f, c[i].getMany(k), many[i][k]);
    }
  };
  check(w.out);
  auto raw = w.write();
  raw.add(store<HolderData>(*w.out.getCollectionForWrite("holders"), "holders"));
  auto in = read(std::move(raw));
  check(in);
  if (many[0].size() == 2 && many[0][0].coll != many[0][1].coll)
    vp_cover("mixed types");
}
