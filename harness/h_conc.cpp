// The same Frame (and what it consists of) used from several threads
#include "io.h"
#include "podio/ROOTFrameData.h"
#include "podio/UserDataCollection.h"
#include "podio/LinkCollection.h"
#include "vm/HitCollection.h"
#include "vm/HitPartLinkCollection.h"
#include "vm/PartCollection.h"
#include "ROOTFrameData.cc"
#include <algorithm>
#include <iostream>
using namespace vio;
using namespace vns;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

static podio::Frame rootFrame(RawData&& r) {
  podio::ROOTFrameData::BufferMap m;
  for (auto& s : r.colls)
    m.emplace(s.name, load(s));
  auto tab = std::make_shared<podio::CollectionIDTable>(r.ids, r.names);
  return podio::Frame(std::make_unique<podio::ROOTFrameData>(std::move(m), std::move(tab), std::move(*r.params)));
}

// hits; parts -> other -> parts, all -> hits
static podio::Frame makeFrame() {
  podio::Frame out;
  HitCollection hits;
  PartCollection parts, other;
  for (int i = 0; i < 2; ++i) {
    hits.create().setT(i + 1);
    parts.create().setPdg(10 + i);
  }
  auto o = other.create();
  o.setPdg(20);
  parts[0].setMother(o);
  parts[1].addToHits(hits[1]);
  o.setMother(parts[1]);
  o.setHit(hits[0]);
  HitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[1]);
  out.put(std::move(hits), "hits");
  out.put(std::move(parts), "parts");
  out.put(std::move(other), "other");
  out.put(std::move(sub), "sub");
  RawData r;
  r.add(store<HitData>(*out.getCollectionForWrite("hits"), "hits"));
  r.add(store<PartData>(*out.getCollectionForWrite("parts"), "parts"));
  r.add(store<PartData>(*out.getCollectionForWrite("other"), "other"));
  r.add(store<HitData>(*out.getCollectionForWrite("sub"), "sub"));
  r.params->set("par", 42);
  return rootFrame(std::move(r));
}
static void look(const podio::Frame& f, int k) {
  switch (k) {
  case 0: {
    const auto* c = f.get("parts");
    VP_ASSERT(c != nullptr, "a collection that is there is found");
    auto& p = *static_cast<const PartCollection*>(c);
    VP_ASSERT(p.size() == 2 && p[0].getPdg() == 10 && p[1].getPdg() == 11, "with its contents");
    VP_ASSERT(p[0].getMother().isAvailable() && p[0].getMother().getPdg() == 20, "with its single relations");
    VP_ASSERT(p[1].hits_size() == 1 && p[1].getHits(0).getT() == 2, "with its multi relations");
    VP_ASSERT(p[0].getMother().getHit().isAvailable() && p[0].getMother().getHit().getT() == 1, "and those of related objects");
    break;
  }
  case 1: {
    const auto* c = f.get("other");
    VP_ASSERT(c != nullptr, "a collection that is there is found");
    auto& p = *static_cast<const PartCollection*>(c);
    VP_ASSERT(p.size() == 1 && p[0].getPdg() == 20 && p[0].getHit().isAvailable() && p[0].getHit().getT() == 1, "with its contents and relations");
    VP_ASSERT(p[0].getMother().isAvailable() && p[0].getMother().getPdg() == 11 && p[0].getMother().hits_size() == 1, "and those of related objects");
    break;
  }
  case 2: {
    const auto* c = f.get("sub");
    VP_ASSERT(c != nullptr, "a collection that is there is found");
    auto& h = *static_cast<const HitCollection*>(c);
    VP_ASSERT(h.size() == 1 && h[0].isAvailable() && h[0].getT() == 2, "a subset collection is found with its objects");
    break;
  }
  case 3: {
    const auto* c = f.get("hits");
    VP_ASSERT(c != nullptr, "a collection that is there is found");
    auto& h = *static_cast<const HitCollection*>(c);
    VP_ASSERT(h.size() == 2 && h[0].getT() == 1 && h[1].getT() == 2, "with its contents");
    break;
  }
  }
}
struct FA {
  podio::Frame* f;
  int k;
  const podio::CollectionBase* got = nullptr;
};
static void getter(void* a) {
  auto* x = static_cast<FA*>(a);
  look(*x->f, x->k);
  static const char* n[] = {"parts", "other", "sub", "hits"};
  x->got = x->f->get(n[x->k]);
}
// ---- two threads read
extern "C" void hm_conc_get() {
  podio::Frame f = makeFrame();
  FA a{&f, vp_choose(4, "first")}, b{&f, vp_choose(4, "second")};
  VP_ASSUME(a.k <= b.k);
  vp_spawn(getter, &a);
  vp_spawn(getter, &b);
  vp_join_all();
  if (a.k == b.k)
    VP_ASSERT(a.got == b.got, "both threads see the same collection");
  VP_ASSERT(f.getAvailableCollections().size() == 4, "every collection is listed once");
  vp_cover("done");
}
// ---- one thread reads, one puts and asks
static void putter(void* a) {
  auto* x = static_cast<FA*>(a);
  if (x->k == 2) {
    const auto n = x->f->getAvailableCollections().size();
    VP_ASSERT(n == 5 || n == 4, "a list of collections is complete");
    VP_ASSERT(x->f->getName(x->f->get("hits")->getID()) == std::optional<std::string>("hits"), "names can be looked up meanwhile");
    return;
  }
  HitCollection c;
  c.create().setT(33 + x->k);
  const char* n = x->k ? "second" : "first";
  auto& p = x->f->put(std::move(c), n);
  VP_ASSERT(p.size() == 1 && p[0].getT() == 33 + x->k && p[0].getObjectID().collectionID == p.getID(), "what was put is there");
  VP_ASSERT(x->f->get(n) == &p, "and found under its name");
  VP_ASSERT(x->f->getName(p.getID()) == std::optional<std::string>(n), "and its ID");
  x->got = &p;
}
extern "C" void hm_conc_put_get() {
  podio::Frame f = makeFrame();
  FA a{&f, vp_choose(4, "read")}, b{&f, 0};
  vp_spawn(getter, &a);
  vp_spawn(putter, &b);
  vp_join_all();
  VP_ASSERT(f.getAvailableCollections().size() == 5, "every collection is listed once");
  vp_cover("done");
}
extern "C" void hm_conc_put_put() {
  podio::Frame f;
  HitCollection h;
  h.create();
  f.put(std::move(h), "hits");
  FA a{&f, vp_flip("observer") ? 2 : 1}, b{&f, 0};
  if (a.k == 2) {
    HitCollection m[3];
    f.put(std::move(m[0]), "m0");
    f.put(std::move(m[1]), "m1");
    f.put(std::move(m[2]), "m2");
  }
  vp_spawn(putter, &a);
  vp_spawn(putter, &b);
  vp_join_all();
  if (a.k == 1) {
    VP_ASSERT(a.got->getID() != b.got->getID(), "collections put at the same time get different IDs");
    VP_ASSERT(f.getAvailableCollections().size() == 3, "every collection is listed once");
  }
  vp_cover("done");
}
// the same name from two threads: exactly one wins
struct DA {
  podio::Frame* f;
  int v;
  bool ok = false;
};
static void dupPutter(void* a) {
  auto* x = static_cast<DA*>(a);
  HitCollection c;
  c.create().setT(x->v);
  try {
    x->f->put(std::move(c), "same");
    x->ok = true;
  } catch (const std::invalid_argument&) {
  }
}
extern "C" void hm_conc_dup() {
  podio::Frame f;
  DA a{&f, 1}, b{&f, 2};
  vp_spawn(dupPutter, &a);
  vp_spawn(dupPutter, &b);
  vp_join_all();
  VP_ASSERT(a.ok != b.ok, "exactly one of two puts with the same name succeeds");
  VP_ASSERT(f.get<HitCollection>("same")[0].getT() == (a.ok ? 1 : 2), "and its collection is the one in the frame");
  vp_cover("done");
}
// ---- parameters
struct PA {
  podio::Frame* f;
  int k;
  bool out = false;
};
static void parWorker(void* a) {
  auto* x = static_cast<PA*>(a);
  switch (x->k) {
  case 0:
    x->f->putParameter("i", 2);
    break;
  case 1: {
    auto v = x->f->getParameter<int>("i");
    VP_ASSERT(v == 1 || v == 2, "a parameter that is being set has the old or the new value");
    break;
  }
  case 2:
    x->f->putParameter("s", std::string("a rather long string value, not inlined"));
    break;
  case 3: {
    auto v = x->f->getParameter<std::string>("s");
    VP_ASSERT(v == "old value, also longer than inlined" || v == "a rather long string value, not inlined", "a string parameter is never seen half set");
    break;
  }
  case 4: {
    auto k = x->f->getParameterKeys<int>();
    VP_ASSERT(k.size() >= 1 && std::count(k.begin(), k.end(), "i") == 1, "keys can be listed meanwhile");
    VP_ASSERT(x->f->getParameterKeys<std::string>().size() == 1, "keys can be listed meanwhile");
    break;
  }
  case 5:
    x->f->putParameter("new", 3);
    VP_ASSERT(x->f->getParameter<int>("new") == 3, "a parameter is there once it is set");
    break;
  case 6: {
    x->f->putParameter("d", std::vector<double>{1, 2, 3});
    VP_ASSERT(x->f->getParameter<std::vector<double>>("d")->size() == 3, "a parameter is there once it is set");
    break;
  }
  case 7: {
    podio::GenericParameters copy(x->f->getParameters());
    auto v = copy.get<int>("i");
    VP_ASSERT(v == 1 || v == 2, "parameters can be copied meanwhile");
    VP_ASSERT(copy.get<std::string>("s").has_value(), "a copy has everything");
    break;
  }
  case 8: {
    auto [k, v] = x->f->getParameters().getKeysAndValues<int>();
    VP_ASSERT(k.size() == v.size() && k.size() >= 1, "keys and values belong together");
    VP_ASSERT(x->f->getParameters().getN<int>("i") == 1, "the size of a parameter");
    break;
  }
  case 9:
    VP_ASSERT(!x->f->getParameters().empty(), "parameters do not go away meanwhile");
    break;
  case 10:
    x->f->getParameters().print(x->out ? std::cerr : std::cout, false); // streams are not shared
    break;
  }
}
extern "C" void hm_conc_params() {
  podio::Frame f;
  f.putParameter("i", 1);
  f.putParameter("s", std::string("old value, also longer than inlined"));
  f.putParameter("f", 1.f);
  PA a{&f, vp_choose(11, "a")}, b{&f, vp_choose(11, "b"), true};
  VP_ASSUME(a.k <= b.k);
  vp_spawn(parWorker, &a);
  vp_spawn(parWorker, &b);
  vp_join_all();
  if (a.k == 0 || b.k == 0)
    VP_ASSERT(f.getParameter<int>("i") == 2, "the value set last stays");
  vp_cover("done");
}
// ---- the ID table
struct TA {
  podio::CollectionIDTable* t;
  int k;
  uint32_t id = 0;
};
static void tabWorker(void* a) {
  auto* x = static_cast<TA*>(a);
  switch (x->k) {
  case 0: x->id = x->t->add("one"); break;
  case 1: x->id = x->t->add("two"); break;
  case 2: {
    auto n = x->t->name(7);
    VP_ASSERT(n && *n == "seven", "an existing ID is found meanwhile");
    break;
  }
  case 3:
    VP_ASSERT(x->t->collectionID("seven") == std::optional<uint32_t>(7), "an existing name is found meanwhile");
    VP_ASSERT(x->t->present("seven") && x->t->present(7u), "an existing entry is present meanwhile");
    break;
  }
}
extern "C" void hm_conc_table() {
  podio::CollectionIDTable t({7}, {"seven"});
  TA a{&t, vp_choose(4, "a")}, b{&t, vp_choose(4, "b")};
  VP_ASSUME(a.k <= b.k);
  vp_spawn(tabWorker, &a);
  vp_spawn(tabWorker, &b);
  vp_join_all();
  if (a.k <= 1 && b.k <= 1) {
    VP_ASSERT((a.id == b.id) == (a.k == b.k), "a name has one ID");
    VP_ASSERT(t.names().size() == (a.k == b.k ? 2 : 3) && t.ids().size() == t.names().size(), "no entry is lost or doubled");
  }
  if (a.k <= 1)
    VP_ASSERT(t.collectionID(a.k ? "two" : "one") == std::optional<uint32_t>(a.id) && t.name(a.id) == std::optional<std::string>(a.k ? "two" : "one"), "an entry is there once it was added");
  vp_cover("done");
}
// ---- preparing the same collection for writing
struct WA {
  const podio::Frame* f;
  int k;
};
static void writer(void* a) {
  auto* x = static_cast<WA*>(a);
  static const char* n[] = {"parts", "links", "sub"};
  const auto* c = x->f->getCollectionForWrite(n[x->k]);
  VP_ASSERT(c && c->size() == (x->k == 0 ? 2u : 1u), "the collection is there");
}
extern "C" void hm_conc_write() {
  podio::Frame f;
  HitCollection h, sub;
  h.create().setT(1);
  PartCollection p;
  p.create().setPdg(2);
  p.create().addToHits(h[0]);
  HitPartLinkCollection l;
  auto ll = l.create();
  ll.setFrom(h[0]);
  ll.setTo(p[1]);
  sub.setSubsetCollection();
  sub.push_back(h[0]);
  f.put(std::move(h), "hits");
  f.put(std::move(p), "parts");
  f.put(std::move(l), "links");
  f.put(std::move(sub), "sub");
  WA a{&f, vp_choose(3, "a")}, b{&f, vp_choose(3, "b")};
  VP_ASSUME(a.k <= b.k);
  vp_spawn(writer, &a);
  vp_spawn(writer, &b);
  vp_join_all();
  auto rp = store<PartData>(*f.getCollectionForWrite("parts"), "parts");
  VP_ASSERT(rp.refs[4].size() == 1 || rp.refs[2].size() == 1 || rp.refs[3].size() == 1 || rp.refs[1].size() == 1, "references are written once");
  auto rl = store<podio::LinkData>(*f.getCollectionForWrite("links"), "links");
  VP_ASSERT(rl.refs[0].size() == 1 && rl.refs[1].size() == 1, "links are written once");
  auto rs = store<HitData>(*f.getCollectionForWrite("sub"), "sub");
  VP_ASSERT(rs.refs[0].size() == 1, "a subset collection is written once");
  auto wb = const_cast<podio::CollectionBase*>(f.get("parts"))->getBuffers();
  VP_ASSERT(wb.dataAsVector<PartData>()->size() == 2, "data are written once");
  vp_cover("done");
}
// ---- handles shared between threads
struct HA {
  Hit* h;
  Part* p;
  int k;
};
static void handler(void* a) {
  auto* x = static_cast<HA*>(a);
  switch (x->k) {
  case 0: {
    Hit c(*x->h);
    VP_ASSERT(c.getT() == 5, "a copy of a handle made in another thread");
    break;
  }
  case 1: {
    Part c(*x->p);
    Part d = c;
    VP_ASSERT(d.getHit().getT() == 5 && d.getPdg() == 6, "related objects from another thread");
    break;
  }
  case 2: {
    auto c = x->p->clone();
    VP_ASSERT(c.getPdg() == 6 && c.getHit() == *x->h, "a clone made in another thread");
    break;
  }
  case 3: {
    Hit c = *x->h;
    Hit e = std::move(c);
    *x->h = Hit::makeEmpty(); // each thread has its own handle here
    VP_ASSERT(e.getT() == 5, "dropping a handle leaves the others intact");
    break;
  }
  }
}
extern "C" void hm_conc_handles() {
  const uint64_t heap = vp_heap_count();
  {
    MutableHit mh;
    mh.setT(5);
    MutablePart mp;
    mp.setPdg(6);
    mp.setHit(mh);
    Hit h1(mh), h2(mh);
    Part p1(mp), p2(mp);
    HA a{&h1, &p1, vp_choose(4, "a")}, b{&h2, &p2, vp_choose(4, "b")};
    VP_ASSUME(a.k <= b.k);
    if (vp_flip("threads own it")) {
      mh = MutableHit();
      mp = MutablePart();
    }
    vp_spawn(handler, &a);
    vp_spawn(handler, &b);
    vp_join_all();
    VP_ASSERT(p1.getHit().getT() == 5 && p2.getPdg() == 6, "the objects are still there");
  }
  VP_ASSERT(vp_heap_count() == heap, "and gone with the last handle");
  vp_cover("done");
}
// the last two handles dropped at the same time
struct DropA {
  std::unique_ptr<Hit> h;
};
static void dropper(void* a) {
  auto* x = static_cast<DropA*>(a);
  VP_ASSERT(x->h->getT() == 5, "the object is there as long as there is a handle");
  x->h.reset();
}
extern "C" void hm_conc_drop() {
  const uint64_t heap = vp_heap_count();
  {
    DropA a, b;
    {
      MutableHit mh;
      mh.setT(5);
      a.h = std::make_unique<Hit>(mh);
      b.h = std::make_unique<Hit>(mh);
    }
    vp_spawn(dropper, &a);
    vp_spawn(dropper, &b);
    vp_join_all();
  }
  VP_ASSERT(vp_heap_count() == heap, "an object is freed exactly once");
  vp_cover("done");
}
// ---- two frames with the same data types are independent
static void framer(void* a) {
  auto* x = static_cast<FA*>(a);
  look(*x->f, x->k);
  auto b = podio::CollectionBufferFactory::instance().createBuffers("HitCollection", 3, x->k == 2);
  VP_ASSERT(b.has_value(), "buffers can be created in every thread");
}
extern "C" void hm_conc_frames() {
  podio::Frame f = makeFrame(), g = makeFrame();
  FA a{&f, vp_choose(4, "first")}, b{&g, vp_choose(4, "second")};
  vp_spawn(framer, &a);
  vp_spawn(framer, &b);
  vp_join_all();
  vp_cover("done");
}
