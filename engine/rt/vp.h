// Harness interface. The same harness is (a) executed symbolically, (b) compiled natively to replay counterexamples.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_symbolic(void* p, size_t n, const char* name);
void vp_assume(bool c);
void vp_assert_msg(bool c, const char* msg);
void vp_cover(const char* name);
uint64_t vp_concrete(uint64_t v);
void vp_trace(const char* name, uint64_t v);
bool vp_in_engine();
uint64_t vp_heap_count();
int vp_spawn(void (*fn)(void*), void* arg);
void vp_join_all();
void vp_yield();
int vp_tid();
void vp_end_path();
void vp_dbg(const char* name, uint64_t v);
bool vp_valid(const void* p, size_t n);
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
// the message carries no line number so that it identifies the asserted fact
#define VP_ASSERT(...) vp_check(__VA_ARGS__)
#define VP_ASSUME(c) vp_assume(static_cast<bool>(c))
template <typename T>
__attribute__((always_inline, nodebug)) inline void vp_check(const T& c, const char* msg) {
  vp_assert_msg(static_cast<bool>(c), msg);
}

template <typename T>
inline T vp_sym(const char* name) {
  T t;
  vp_symbolic(&t, sizeof(T), name);
  return t;
}
// symbolic integer in [lo, hi]
inline int vp_range(int lo, int hi, const char* name) {
  int v = vp_sym<int>(name);
  vp_assume(v >= lo && v <= hi);
  return v;
}
// a symbolic choice in [0, n) on which the path is split
inline int vp_choose(int n, const char* name) {
  uint8_t v = vp_sym<uint8_t>(name);
  vp_assume(v < n);
  return (int)vp_concrete(v);
}
inline bool vp_flip(const char* name) { return vp_choose(2, name) == 1; }
// does fn throw an exception of type X?  (any other exception escapes and is reported)
template <typename X, typename F>
inline bool vp_throws(F&& fn) {
  try {
    fn();
  } catch (const X&) {
    return true;
  }
  return false;
}
// does fn throw at all?
template <typename F>
inline bool vp_throws_any(F&& fn) {
  try {
    fn();
  } catch (...) {
    return true;
  }
  return false;
}
extern "C" void harness_main();
