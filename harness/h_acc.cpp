// Accessors and the in-memory relation API of generated classes (no get/set prefix, members of components exposed)
#include "io.h"
#include "OtherCollection.h"
#include "ThingCollection.h"
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif

// what the object should contain
struct Model {
  int first, second;
  struct P {
    int px;
    double py;
  };
  P corner;
  float size;
  int sides[3];
  uint16_t kind;
  P point;
  int ex;
  short es;
  int64_t el;
  P points[2];
  double numbers[4];
  char letter;
  bool yes;
  unsigned u;
  long lo;
  unsigned long ul;
  float third;
  uint64_t big;
};
static Point pt(const Model::P& p) {
  Point r;
  r.px = p.px, r.py = p.py;
  return r;
}
static bool eq(const Point& a, const Model::P& b) { return a.px == b.px && same(a.py, b.py); }
static Model::P symP() { return {vp_sym<int>("px"), vp_sym<double>("py")}; }
template <typename T>
static void check(const T& t, const Model& m) {
  VP_ASSERT(t.first() == m.first, "first");
  VP_ASSERT(t.second() == m.second, "second");
  VP_ASSERT(eq(t.shape().corner, m.corner) && eq(t.corner(), m.corner), "member of a component, directly and through the component");
  VP_ASSERT(same(t.shape().size, m.size) && same(t.size(), m.size), "float member of a component");
  for (int i = 0; i < 3; ++i)
    VP_ASSERT(t.shape().sides[i] == m.sides[i] && t.sides()[i] == m.sides[i], "array in a component");
  VP_ASSERT(t.shape().kind == m.kind && t.kind() == m.kind, "fixed width member of a component");
  VP_ASSERT(eq(t.point(), m.point) && t.px() == m.point.px && same(t.py(), m.point.py), "component and its exposed members");
  VP_ASSERT(t.extra().x == m.ex && t.x() == m.ex && t.extra().twice() == int(2u * unsigned(m.ex)), "component with extra code");
  VP_ASSERT(t.extra().in.s == m.es && t.in().s == m.es && t.in().l == m.el && t.extra().in.l == m.el, "component in a component");
  for (int i = 0; i < 2; ++i)
    VP_ASSERT(eq(t.points()[i], m.points[i]) && eq(t.points(i), m.points[i]), "array of components");
  for (int i = 0; i < 4; ++i)
    VP_ASSERT(same(t.numbers()[i], m.numbers[i]) && same(t.numbers(i), m.numbers[i]), "array of numbers");
  VP_ASSERT(t.letter() == m.letter && t.yes() == m.yes && t.u() == m.u && t.lo() == m.lo && t.ul() == m.ul, "integer members");
  VP_ASSERT(same(t.third(), m.third) && t.big() == m.big, "remaining members");
}
static Model defaults() {
  Model m{};
  m.first = 11;
  m.second = 0;
  m.corner = {0, 2.5};
  m.size = 1.5f;
  m.sides[0] = 7, m.sides[1] = 8, m.sides[2] = 0;
  m.kind = 0xffff;
  m.point = {0, 2.5};
  m.points[0] = m.points[1] = {0, 2.5};
  m.numbers[0] = 1, m.numbers[1] = 2;
  m.letter = 'x';
  m.yes = true;
  m.lo = -5;
  m.ul = ~0ul;
  m.third = -0.5f;
  m.big = 1ull << 63;
  return m;
}
constexpr int nOps = 33;
// one way of changing an object
static void mutate(MutableThing& t, Model& m, int op) {
  switch (op) {
  case 0: m.first = vp_sym<int>("v"), t.first(m.first); break;
  case 1: m.first = vp_sym<int>("v"), t.first() = m.first; break;
  case 2: m.second = vp_sym<int>("v"), t.second(m.second); break;
  case 3: {
    Shape s;
    m.corner = symP(), s.corner = pt(m.corner);
    m.size = vp_sym<float>("v"), s.size = m.size;
    for (int i = 0; i < 3; ++i)
      s.sides[i] = m.sides[i] = vp_sym<int>("v");
    s.kind = m.kind = vp_sym<uint16_t>("v");
    t.shape(s);
    break;
  }
  case 4: m.size = vp_sym<float>("v"), t.shape().size = m.size; break;
  case 5: m.corner = symP(), t.corner(pt(m.corner)); break;
  case 6: m.corner.px = vp_sym<int>("v"), t.corner().px = m.corner.px; break;
  case 7: m.size = vp_sym<float>("v"), t.size(m.size); break;
  case 8: {
    std::array<int, 3> a;
    for (int i = 0; i < 3; ++i)
      a[i] = m.sides[i] = vp_sym<int>("v");
    t.sides(a);
    break;
  }
  case 9: m.sides[1] = vp_sym<int>("v"), t.sides()[1] = m.sides[1]; break;
  case 10: m.kind = vp_sym<uint16_t>("v"), t.kind(m.kind); break;
  case 11: m.point = symP(), t.point(pt(m.point)); break;
  case 12: m.point.px = vp_sym<int>("v"), t.px(m.point.px); break;
  case 13: m.point.py = vp_sym<double>("v"), t.py(m.point.py); break;
  case 14: m.point.py = vp_sym<double>("v"), t.point().py = m.point.py; break;
  case 15: {
    m.ex = vp_sym<int>("v");
    cns::Extra e(m.ex);
    e.in.s = m.es = vp_sym<short>("v"), e.in.l = m.el = vp_sym<int64_t>("v");
    t.extra(e);
    break;
  }
  case 16: m.ex = vp_sym<int>("v"), t.x(m.ex); break;
  case 17: {
    cns::Inner in;
    in.s = m.es = vp_sym<short>("v"), in.l = m.el = vp_sym<int64_t>("v");
    t.in(in);
    break;
  }
  case 18: m.el = vp_sym<int64_t>("v"), t.in().l = m.el; break;
  case 19: {
    std::array<Point, 2> a;
    for (int i = 0; i < 2; ++i)
      m.points[i] = symP(), a[i] = pt(m.points[i]);
    t.points(a);
    break;
  }
  case 20: {
    const size_t i = vp_sym<size_t>("index");
    const auto p = symP();
    const bool thrown = vp_throws<std::out_of_range>([&] { t.points(i, pt(p)); });
    VP_ASSERT(thrown == (i >= 2), "setting an array element is refused exactly outside of the array");
    if (!thrown)
      m.points[vp_concrete(i)] = p;
    break;
  }
  case 21: m.points[1].px = vp_sym<int>("v"), t.points()[1].px = m.points[1].px; break;
  case 22: {
    std::array<double, 4> a;
    for (int i = 0; i < 4; ++i)
      a[i] = m.numbers[i] = vp_sym<double>("v");
    t.numbers(a);
    break;
  }
  case 23: {
    const size_t i = vp_sym<size_t>("index");
    const double v = vp_sym<double>("v");
    const bool thrown = vp_throws<std::out_of_range>([&] { t.numbers(i, v); });
    VP_ASSERT(thrown == (i >= 4), "setting an array element is refused exactly outside of the array");
    if (!thrown)
      m.numbers[vp_concrete(i)] = v;
    break;
  }
  case 24: m.letter = vp_sym<char>("v"), t.letter(m.letter); break;
  case 25: m.yes = vp_sym<uint8_t>("v") & 1, t.yes(m.yes); break;
  case 26: m.u = vp_sym<unsigned>("v"), t.u(m.u); break;
  case 27: m.lo = vp_sym<long>("v"), t.lo(m.lo); break;
  case 28: m.ul = vp_sym<unsigned long>("v"), t.ul() = m.ul; break;
  case 29: m.third = vp_sym<float>("v"), t.third(m.third); break;
  case 30: m.big = vp_sym<uint64_t>("v"), t.big(m.big); break;
  case 31: m.first = m.second = vp_sym<int>("v"), t.reset(m.first); break;
  case 32: {
    // the indexed getters
    const size_t i = vp_sym<size_t>("index");
    VP_ASSERT(vp_throws<std::out_of_range>([&] { t.numbers(i); }) == (i >= 4), "an array element is refused exactly outside of the array");
    VP_ASSERT(vp_throws<std::out_of_range>([&] { Thing(t).points(i); }) == (i >= 2), "an array element is refused exactly outside of the array");
    break;
  }
  }
}
static void symAll(MutableThing& t, Model& m) {
  for (int op : {0, 2, 3, 11, 15, 19, 22, 24, 25, 26, 27, 28, 29, 30})
    mutate(t, m, op);
}
// every change affects exactly the member it is meant for, whatever the object contains
extern "C" void hm_acc_set() {
  Model m = defaults();
  ThingCollection coll;
  auto neighbour = coll.create();
  const int where = vp_choose(2, "in a collection");
  MutableThing t = where ? coll.create() : MutableThing();
  auto after = coll.create();
  const Model dflt = m;
  check(t, m);
  symAll(t, m);
  check(t, m);
  const int k = VP_DEPTH ? 2 : 1;
  for (int i = 0; i < k; ++i)
    mutate(t, m, vp_choose(nOps, "op"));
  check(t, m);
  const Thing view = t;
  check(view, m);
  VP_ASSERT(view.sum() == int(unsigned(m.first) + unsigned(m.second)), "extra code sees the members");
  check(neighbour, dflt);
  check(after, dflt);
  vp_cover("done");
}
// arguments of constructors end up in the members they are named after
extern "C" void hm_acc_ctor() {
  Model m = defaults();
  MutableThing src;
  symAll(src, m);
  ThingCollection coll;
  const int how = vp_choose(3, "how");
  auto mk = [&](auto&& f) {
    return f(src.first(), src.second(), src.shape(), src.point(), src.extra(), src.points(), src.numbers(), src.letter(), src.yes(), src.u(), src.lo(), src.ul(), src.third(), src.big());
  };
  if (how == 0) {
    const auto t = mk([](auto&&... a) { return MutableThing(a...); });
    check(t, m);
  } else if (how == 1) {
    const auto t = mk([](auto&&... a) { return Thing(a...); });
    check(t, m);
  } else {
    mk([&](auto&&... a) { return coll.create(a...); });
    coll.create();
    check(coll[0], m);
    check(coll[1], defaults());
    const auto& cc = coll;
    check(cc[0], m);
    check(cc.at(0), m);
  }
  vp_cover("done");
}
template <typename T, typename V, typename Eq>
static void checkRange(T first, T last, size_t n, const V& expected, Eq&& eqf) {
  VP_ASSERT((size_t)(last - first) == n && n == expected.size(), "number of entries");
  size_t i = 0;
  for (auto it = first; it != last; ++it, ++i)
    VP_ASSERT(eqf(*it, expected[i]), "entries in the order in which they were added");
}
// relations and vector members in memory
template <typename T>
static void checkRel(const T& t, const std::vector<Thing>& things, const std::vector<cns::Other>& others, const std::vector<double>& vals, const std::vector<Model::P>& pts, const Thing* next, const cns::Other* other) {
  auto id = [](const auto& a, const auto& b) { return a == b; };
  checkRange(t.things_begin(), t.things_end(), t.things_size(), things, id);
  checkRange(t.things().begin(), t.things().end(), t.things().size(), things, id);
  checkRange(t.others_begin(), t.others_end(), t.others_size(), others, id);
  checkRange(t.others().begin(), t.others().end(), t.others().size(), others, id);
  checkRange(t.vals_begin(), t.vals_end(), t.vals_size(), vals, [](double a, double b) { return same(a, b); });
  checkRange(t.vals().begin(), t.vals().end(), t.vals().size(), vals, [](double a, double b) { return same(a, b); });
  checkRange(t.pts_begin(), t.pts_end(), t.pts_size(), pts, [](const Point& a, const Model::P& b) { return eq(a, b); });
  checkRange(t.pts().begin(), t.pts().end(), t.pts().size(), pts, [](const Point& a, const Model::P& b) { return eq(a, b); });
  VP_ASSERT(t.ids_size() == 0 && t.ids().empty(), "nothing was added here");
  const size_t i = vp_sym<size_t>("index");
  VP_ASSERT(vp_throws<std::out_of_range>([&] { t.things(i); }) == (i >= things.size()), "indexed access to a relation is refused exactly outside");
  VP_ASSERT(vp_throws<std::out_of_range>([&] { t.vals(i); }) == (i >= vals.size()), "indexed access to a vector member is refused exactly outside");
  VP_ASSERT(vp_throws<std::out_of_range>([&] { t.things().at(i); }) == (i >= things.size()), "checked access to a range is refused exactly outside");
  for (size_t k = 0; k < things.size(); ++k)
    VP_ASSERT(t.things(k) == things[k] && t.things()[k] == things[k] && t.things().at(k) == things[k], "indexed access to a relation");
  for (size_t k = 0; k < others.size(); ++k)
    VP_ASSERT(t.others(k) == others[k] && t.others()[k] == others[k], "indexed access to a relation");
  for (size_t k = 0; k < vals.size(); ++k)
    VP_ASSERT(same(t.vals(k), vals[k]) && same(t.vals()[k], vals[k]), "indexed access to a vector member");
  VP_ASSERT(t.things().empty() == things.empty(), "emptiness of a range");
  if (next)
    VP_ASSERT(t.next().isAvailable() && t.next() == *next, "a single relation refers to the object it was last set to");
  else
    VP_ASSERT(!t.next().isAvailable(), "a single relation that was not set is unavailable");
  if (other)
    VP_ASSERT(t.other().isAvailable() && t.other() == *other, "a single relation refers to the object it was last set to");
  else
    VP_ASSERT(!t.other().isAvailable(), "a single relation that was not set is unavailable");
}
extern "C" void hm_acc_rel() {
  ThingCollection coll;
  cns::OtherCollection oc;
  MutableThing free1, free2;
  coll.create(), coll.create();
  oc.create(), oc.create();
  const int where = vp_choose(2, "in a collection");
  MutableThing t = where ? coll[0] : free1;
  MutableThing quiet = where ? coll[1] : free2;
  std::vector<Thing> things;
  std::vector<cns::Other> others;
  std::vector<double> vals;
  std::vector<Model::P> pts;
  std::optional<Thing> next;
  std::optional<cns::Other> other;
  if (vp_flip("filled before"))
    for (int k = 0; k < 2; ++k) {
      things.push_back(coll[k]), t.addthings(things.back());
      vals.push_back(k), t.addvals(vals.back());
    }
  const int steps = VP_DEPTH ? 3 : 2;
  for (int s = 0; s < steps; ++s) {
    switch (vp_choose(8, "op")) {
    case 0: things.push_back(coll[vp_flip("which")]), t.addthings(things.back()); break;
    case 1: things.push_back(t), t.addthings(t); break;
    case 2: others.push_back(oc[vp_flip("which")]), t.addothers(others.back()); break;
    case 3: vals.push_back(vp_sym<double>("val")), t.addvals(vals.back()); break;
    case 4: pts.push_back(symP()), t.addpts(pt(pts.back())); break;
    case 5: next = coll[vp_flip("which")], t.next(*next); break;
    case 6: other = oc[vp_flip("which")], t.other(*other); break;
    case 7: break;
    }
  }
  checkRel(t, things, others, vals, pts, next ? &*next : nullptr, other ? &*other : nullptr);
  checkRel(Thing(t), things, others, vals, pts, next ? &*next : nullptr, other ? &*other : nullptr);
  checkRel(quiet, {}, {}, {}, {}, nullptr, nullptr);
  vp_cover("done");
}
