#pragma once
#include "state.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

namespace vp {
struct Leaf {
  uint32_t off = 0;   // byte offset in memory
  uint32_t w = 0;     // bit width
  uint32_t bytes = 0;
};
struct Operand {
  int base = 0;  // >=0: register slot; <0: constant pool index ~base
  int n = 1;
};
struct Engine;
enum class R { Next, Jumped, Retry, Kill };
struct CInst;
using Handler = R (*)(Engine&, State&, const CInst&, std::vector<Val>&, Val&);

struct GepIdx {
  Operand op;
  uint32_t w;
  uint64_t scale;
};
struct CInst {
  const llvm::Instruction* I = nullptr;
  unsigned opc = 0, sub = 0;
  int dst = -1, nd = 0;
  std::vector<Operand> ops;
  std::vector<uint32_t> ws;  // width of each operand (scalar / element)
  uint32_t w = 0;            // result (element) width
  std::vector<Leaf> leaves;
  uint64_t imm = 0;
  uint32_t tgt[2] = {0, 0};
  std::vector<std::pair<uint64_t, uint32_t>> cases;
  std::vector<GepIdx> gidx;
  CFunc* callee = nullptr;
  Handler handler = nullptr;
  std::vector<int> mask;
  std::vector<uint64_t> byval;  // per argument: size or 0
  std::vector<uint32_t> argw;   // width per flattened argument leaf
  struct Clause {
    bool isCatch;
    uint64_t ti;
    std::vector<uint64_t> filter;
  };
  std::vector<Clause> clauses;
  bool cleanup = false;
  bool isAtomic = false;
};
struct PhiCopy {
  Operand src;
  int dst;
  int n;
};
struct CBlock {
  std::vector<CInst> insts;
  std::unordered_map<uint32_t, std::vector<PhiCopy>> phis;  // by predecessor
};
struct CFunc {
  const llvm::Function* F = nullptr;
  std::string name;
  bool compiled = false;
  int nslots = 0;
  std::vector<Operand> args;
  int nargSlots = 0;
  std::vector<CBlock> blocks;
  Handler handler = nullptr;
  uint64_t calls = 0;
};
}  // namespace vp
