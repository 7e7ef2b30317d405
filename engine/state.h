// Program state of one symbolic path
#pragma once
#include "expr.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <set>

namespace vp {

struct Val {
  uint64_t c = 0;
  E e = nullptr;
};

enum ObjKind : uint8_t { KGlobal, KConst, KStack, KHeap, KExt };

struct CFunc;
struct CInst;

struct Obj {
  uint32_t size = 0;
  ObjKind kind = KHeap;
  bool alive = true;
  bool array = false;   // allocated with new[]
  bool viaNew = false;  // operator new (vs. malloc)
  const CInst* site = nullptr;
  const char* name = "";
  std::vector<uint8_t> data;
  std::vector<E> sym;  // empty: fully concrete
};

constexpr unsigned OBJ_SHIFT = 24;
constexpr uint64_t FUNC_BASE = 0x7f00000000000000ull;

struct Chunk {
  std::shared_ptr<Obj> o[64];
};

struct Mem {
  std::vector<std::shared_ptr<Chunk>> chunks;
  uint64_t next = 16;
  const Obj* get(uint64_t id) const {
    uint64_t ch = id >> 6;
    if (ch >= chunks.size() || !chunks[ch])
      return nullptr;
    return chunks[ch]->o[id & 63].get();
  }
  Obj* getW(uint64_t id) {
    auto& ch = chunks[id >> 6];
    if (ch.use_count() > 1)
      ch = std::make_shared<Chunk>(*ch);
    auto& o = ch->o[id & 63];
    if (o.use_count() > 1)
      o = std::make_shared<Obj>(*o);
    return o.get();
  }
  uint64_t alloc(std::shared_ptr<Obj> o) {
    uint64_t id = next++;
    if ((id >> 6) >= chunks.size())
      chunks.resize((id >> 6) + 1);
    auto& ch = chunks[id >> 6];
    if (!ch)
      ch = std::make_shared<Chunk>();
    else if (ch.use_count() > 1)
      ch = std::make_shared<Chunk>(*ch);
    ch->o[id & 63] = std::move(o);
    return id;
  }
};

struct Frame {
  CFunc* fn = nullptr;
  uint32_t block = 0, prevBlock = 0;
  uint32_t ip = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  const CInst* callSite = nullptr;  // in the caller's frame
  std::vector<Val> varargs;
};

using VC = std::vector<uint32_t>;
inline void vcJoin(VC& a, const VC& b) {
  if (a.size() < b.size())
    a.resize(b.size());
  for (size_t i = 0; i < b.size(); ++i)
    a[i] = std::max(a[i], b[i]);
}
inline uint32_t vcAt(const VC& a, size_t i) { return i < a.size() ? a[i] : 0; }

struct Thread {
  std::vector<Frame> stack;
  bool done = false;
  // blocked on: 0 nothing, 1 mutex, 2 rwlock read, 3 rwlock write, 4 join all, 5 guard/once
  int blockKind = 0;
  uint64_t blockAddr = 0;
  bool atSync = false;  // a scheduling decision for the pending instruction has been taken
  VC vc;
};

struct Lock {
  int owner = -1;
  int count = 0;
  std::vector<int> readers;
  VC vc;
  bool destroyed = false;
};

struct Shadow {
  int wTid = -1;
  uint32_t wClk = 0;
  const CInst* wInst = nullptr;
  VC rd;
  const CInst* rInst = nullptr;
};

struct SymGroup {
  std::string name;
  uint32_t first = 0, n = 0;  // symbol index range
};

struct ModelBox {
  Model m;
  std::unordered_map<E, u128> memo;
};

struct State {
  uint64_t id = 0;
  Mem mem;
  std::vector<Thread> threads;
  int cur = 0;
  std::vector<E> pc;
  std::shared_ptr<ModelBox> model;
  std::unordered_map<E, u128> known;
  std::vector<SymGroup> groups;
  std::vector<std::pair<int, std::string>> schedule;  // (thread, reason) per scheduling decision with > 1 option
  int preemptions = 0;
  std::map<uint64_t, Lock> locks;
  std::unordered_map<uint64_t, Shadow> shadow;
  std::map<uint64_t, VC> atomics;
  std::map<uint64_t, int> guards;  // 1 = in progress, owner in Lock
  uint64_t steps = 0;
  uint32_t depth = 0;
  std::set<std::string> covers;
  std::vector<std::pair<std::string, Val>> trace;
  std::map<uint64_t, std::string> tags;
  bool raceOff = false;
  std::map<std::string, int> symCount;
  bool multi() const { return threads.size() > 1; }
  Thread& T() { return threads[cur]; }
  Frame& F() { return threads[cur].stack.back(); }
};
}  // namespace vp
