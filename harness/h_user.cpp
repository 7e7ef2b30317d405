// Collections of plain numbers
#include "io.h"
#include "podio/UserDataCollection.h"
#include <ranges>
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const int N = VP_DEPTH ? 4 : 3;

template <typename T>
static void roundTrip(const char* tn, const char* cn) {
  using C = podio::UserDataCollection<T>;
  podio::Frame out;
  T v[8];
  const int n = vp_choose(N + 1, "n");
  C c;
  const int how = vp_choose(6, "how");
  std::vector<T> src;
  for (int i = 0; i < n; ++i)
    src.push_back(v[i] = vp_sym<T>("v"));
  switch (how) {
  case 0:
    for (auto& x : src)
      c.push_back(x);
    break;
  case 1:
    for (auto& x : src)
      c.create() = x;
    break;
  case 2: c = C(std::vector<T>(src)); break;
  case 3: c = C::from(src); break;
  case 4:
    c.resize(n);
    for (int i = 0; i < n; ++i)
      c[i] = src[i];
    break;
  case 5:
    c.vec() = src;
    break;
  }
  VP_ASSERT(c.getTypeName() == cn && c.getValueTypeName() == tn && c.getDataTypeName() == tn, "type names");
  VP_ASSERT((int)c.size() == n && c.empty() == (n == 0), "size of the collection");
  VP_ASSERT(!c.isSubsetCollection(), "never a subset collection");
  if (vp_flip("buffers before")) // the buffers of a collection that is moved later
    (void)c.getBuffers();
  const bool moved = vp_flip("moved");
  C c2;
  if (moved)
    c2 = std::move(c);
  C& use = moved ? c2 : c;
  {
    auto b = use.getBuffers();
    auto* w = b.template dataAsVector<T>();
    VP_ASSERT((int)w->size() == n, "all elements are handed to the writer");
    for (int i = 0; i < n; ++i)
      VP_ASSERT(same((*w)[i], v[i]), "the elements are handed to the writer unchanged");
  }
  out.put(std::move(use), "u");
  RawData raw;
  raw.add(store<T>(*out.getCollectionForWrite("u"), "u"));
  podio::Frame in = read(std::move(raw));
  const auto& r = in.get<C>("u");
  VP_ASSERT((int)r.size() == n, "all elements come back");
  for (int i = 0; i < n; ++i) {
    VP_ASSERT(same(r[i], v[i]), "the elements come back unchanged");
    VP_ASSERT(same(r.at(i), v[i]) && same(r.vec()[i], v[i]), "every access yields the same element");
  }
  VP_ASSERT(vp_throws<std::out_of_range>([&] { r.at(n); }), "access past the end is refused");
  VP_ASSERT(r.getID() == out.get<C>("u").getID(), "the collection keeps its ID");
  int k = 0;
  for (auto x : r)
    VP_ASSERT(same(x, v[k]), "iteration yields the elements in order"), k++;
  VP_ASSERT(k == n, "iteration visits all elements");
  for (auto it = r.rbegin(); it != r.rend(); ++it)
    --k, VP_ASSERT(same(*it, v[k]), "reverse iteration yields the elements backwards");
  VP_ASSERT(k == 0, "reverse iteration visits all elements");
  // and once more
  RawData raw2;
  raw2.add(store<T>(*in.getCollectionForWrite("u"), "u"));
  podio::Frame in2 = read(std::move(raw2));
  const auto& r2 = in2.get<C>("u");
  VP_ASSERT((int)r2.size() == n, "all elements come back a second time");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(same(r2[i], v[i]), "the elements come back unchanged a second time");
  if (n == N)
    vp_cover("full");
}
extern "C" void hm_user_i() {
  switch (vp_choose(8, "type")) {
  case 0: roundTrip<int8_t>("int8_t", "podio::UserDataCollection<int8_t>"); break;
  case 1: roundTrip<int16_t>("int16_t", "podio::UserDataCollection<int16_t>"); break;
  case 2: roundTrip<int32_t>("int32_t", "podio::UserDataCollection<int32_t>"); break;
  case 3: roundTrip<int64_t>("int64_t", "podio::UserDataCollection<int64_t>"); break;
  case 4: roundTrip<uint8_t>("uint8_t", "podio::UserDataCollection<uint8_t>"); break;
  case 5: roundTrip<uint16_t>("uint16_t", "podio::UserDataCollection<uint16_t>"); break;
  case 6: roundTrip<uint32_t>("uint32_t", "podio::UserDataCollection<uint32_t>"); break;
  case 7: roundTrip<uint64_t>("uint64_t", "podio::UserDataCollection<uint64_t>"); break;
  }
}
extern "C" void hm_user_f() {
  if (vp_flip("double"))
    roundTrip<double>("double", "podio::UserDataCollection<double>");
  else
    roundTrip<float>("float", "podio::UserDataCollection<float>");
}
// a short program over the collection against a plain vector
extern "C" void hm_user_ops() {
  using C = podio::UserDataCollection<int32_t>;
  C c;
  std::vector<int32_t> m;
  const int steps = VP_DEPTH ? 5 : 4;
  for (int s = 0; s < steps; ++s) {
    const int32_t x = vp_sym<int32_t>("x");
    switch (vp_choose(7, "op")) {
    case 0: c.push_back(x), m.push_back(x); break;
    case 1: c.create() = x, m.push_back(x); break;
    case 2: {
      int n = vp_choose(3, "size");
      c.resize(n), m.resize(n);
      break;
    }
    case 3: c.clear(), m.clear(); break;
    case 4:
      if (!m.empty())
        c[m.size() - 1] = x, m.back() = x;
      break;
    case 5:
      c.prepareForWrite();
      break;
    case 6: {
      C d(std::move(c));
      c = std::move(d);
      break;
    }
    }
    VP_ASSERT(c.size() == m.size() && c.empty() == m.empty(), "size follows the operations");
    auto b = c.getBuffers();
    VP_ASSERT(*b.dataAsVector<int32_t>() == m && c.vec() == m, "contents follow the operations");
    VP_ASSERT(std::equal(c.begin(), c.end(), m.begin(), m.end()), "iteration follows the operations");
  }
  vp_cover("done");
}
