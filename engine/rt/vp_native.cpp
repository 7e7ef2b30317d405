// Native implementation of the harness interface: replays one path with concrete inputs against the real code.
// usage: binary <input-file>     (input-file: lines "in <name> <hex>"; optional "entry <fn>")
#include "vp.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {
struct In {
  std::string name;
  std::vector<unsigned char> bytes;
};
// plain malloc'ed storage so that the heap counter is not affected
std::vector<In>* ins;
size_t pos = 0;
std::atomic<long> live{0};
bool quiet = false;
std::vector<std::thread>* threads;
std::atomic<int> ready{0};
std::atomic<bool> go{false};
thread_local int tid = 0;
std::atomic<bool> failed{false};
unsigned jitter = 0;
thread_local unsigned rng = 1, ops = 0;
} // namespace

// operator new/delete count live allocations (sanitizers still see malloc/free underneath)
static void* cnt(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p)
    std::abort();
  live++;
  return p;
}
#ifndef VP_TSAN // the TSan runtime defines these itself
void* operator new(std::size_t n) { return cnt(n); }
void* operator new[](std::size_t n) { return cnt(n); }
void operator delete(void* p) noexcept {
  if (p)
    live--;
  std::free(p);
}
void operator delete[](void* p) noexcept {
  if (p)
    live--;
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }

#endif

extern "C" {
void vp_symbolic(void* p, size_t n, const char* name) {
  if (pos >= ins->size() || (*ins)[pos].name != name || (*ins)[pos].bytes.size() != n) {
    std::printf("VP-DIVERGED: input %zu '%s' not in the replay file\n", pos, name);
    std::fflush(stdout);
    _exit(78);
  }
  std::memcpy(p, (*ins)[pos].bytes.data(), n);
  pos++;
}
void vp_assume(bool c) {
  if (!c) {
    std::printf("VP-DIVERGED: assumption does not hold\n");
    std::fflush(stdout);
    _exit(78);
  }
}
void vp_assert_msg(bool c, const char* msg) {
  if (!c) {
    std::printf("VP-ASSERT-FAILED: %s\n", msg);
    std::fflush(stdout);
    _exit(101);
  }
}
void vp_cover(const char*) {}
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_trace(const char* name, uint64_t v) { std::printf("VP-TRACE: %s=%llu\n", name, (unsigned long long)v); }
bool vp_in_engine() { return false; }
uint64_t vp_heap_count() { return (uint64_t)live.load(); }
// Run k delays one thread at one of its synchronisation operations, long enough for the other one to finish; runs
// beyond the sweep over all of them perturb the schedule at random on top.
static void wiggle() {
  if (!jitter || !tid)
    return;
  const unsigned k = jitter - 1, op = ops++;
  if ((unsigned)tid == 1 + k % 2 && op == k / 2 % 48) {
    usleep(4000);
    return;
  }
  if (k < 96)
    return;
  rng = rng * 1664525u + 1013904223u;
  unsigned r = (rng >> 16) % 64;
  if (r < 8)
    std::this_thread::yield();
  else if (r < 11)
    usleep(r * 7);
}
int vp_spawn(void (*fn)(void*), void* arg) {
  int id = (int)threads->size() + 1;
  threads->emplace_back([=] {
    tid = id;
    rng = jitter * 7919u + id * 104729u;
    ready++;
    while (!go)
      ;
    wiggle();
    fn(arg);
  });
  return id;
}
void vp_join_all() {
  while (ready < (int)threads->size())
    ;
  go = true;
  for (auto& t : *threads)
    t.join();
  threads->clear();
  ready = 0;
  go = false;
}
void vp_yield() { wiggle(); }
int vp_tid() { return tid; }
void vp_end_path() {
  std::printf("VP-DONE\n");
  std::fflush(stdout);
  _exit(0);
}
void vp_dbg(const char*, uint64_t) {}
bool vp_valid(const void*, size_t) { return true; }

typedef int (*lockfn)(void*);
#ifdef VP_TSAN // (linked with --wrap: the interceptors of the TSan runtime stay in place)
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  wiggle();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  wiggle();
  return r;
}
#endif
#ifdef VP_JITTER
// perturb the schedule at synchronisation operations
int pthread_mutex_lock(pthread_mutex_t* m) {
  static lockfn real = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  wiggle();
  int r = real((void*)m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static lockfn real = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real((void*)m);
  wiggle();
  return r;
}
#endif
}

int main(int argc, char** argv) {
  ins = new std::vector<In>;
  threads = new std::vector<std::thread>;
  std::string entry = "harness_main";
  if (const char* j = getenv("VP_JITTER"))
    jitter = (unsigned)atoi(j);
  FILE* f = argc > 1 ? std::fopen(argv[1], "r") : nullptr;
  if (!f) {
    std::fprintf(stderr, "usage: %s <input-file>\n", argv[0]);
    return 79;
  }
  char buf[1 << 16];
  while (std::fgets(buf, sizeof buf, f)) {
    std::string l(buf);
    while (!l.empty() && (l.back() == '\n' || l.back() == ' '))
      l.pop_back();
    size_t a = l.find(' ');
    if (a == std::string::npos)
      continue;
    std::string k = l.substr(0, a);
    if (k == "entry")
      entry = l.substr(a + 1);
    else if (k == "in") {
      size_t b = l.rfind(' ');
      if (b <= a)
        b = l.size();
      In i;
      i.name = l.substr(a + 1, b - a - 1);
      for (size_t p = b + 1; p + 1 < l.size(); p += 2)
        i.bytes.push_back((unsigned char)strtol(l.substr(p, 2).c_str(), nullptr, 16));
      ins->push_back(i);
    }
  }
  std::fclose(f);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
  if (!fn) {
    std::fprintf(stderr, "no entry %s\n", entry.c_str());
    return 79;
  }
  fn();
  std::printf("VP-DONE\n");
  std::fflush(stdout);
  _exit(0);
}
