// A bounded symbolic executor for LLVM 18 IR with an SMT (Z3) back end.
//
// It executes the IR clang produces from the real sources.  Memory is byte granular, every byte may be symbolic;
// every feasible path is explored; every load/store is checked; assertions are decided by the solver for all
// values of the symbolic inputs on the path; threads are interleaved at synchronisation operations with a
// happens-before race detector.
#include "engine.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

using namespace llvm;
namespace vp {

struct Violation {
  std::string kind, msg, where;
  std::vector<std::string> stack;
  std::string inputs;    // JSON
  std::string schedule;  // JSON
  bool usesUninit = false;
};

static std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

static std::map<std::string, Handler>& handlerTable() {
  static std::map<std::string, Handler> t;
  return t;
}

struct Engine {
  Ctx cx;
  Solver sol{cx};
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Function*, CFunc*> funcs;
  std::vector<CFunc*> funcByIdx;
  std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
  std::vector<Val> pool;
  std::unordered_map<const Constant*, std::vector<Val>> constMemo;
  std::vector<State*> work;
  State* initState = nullptr;

  // options / limits
  uint64_t maxSteps = 3000000;
  double timeLimit = 600;
  uint64_t maxPaths = 1000000;
  int preemptBound = 2;
  int maxViolations = 4;
  int nSamples = 6;
  bool verbose = false;
  uint64_t maxConcretize = 4096;

  // statistics
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  uint64_t paths = 0, infeasible = 0, forks = 0, insts = 0, asserts = 0, assertQueries = 0, memChecks = 0, nextId = 1,
           killed = 0, assertsSymbolic = 0, schedForks = 0;
  std::vector<Violation> violations;
  std::set<std::string> violationKeys;
  std::map<std::string, uint64_t> covers;
  std::vector<std::string> samples;
  std::string incomplete;  // reason, empty = exhausted
  std::map<std::string, uint64_t> notes;
  uint64_t siVT = 0, vmiVT = 0;

  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ------------------------------------------------------------------ types
  static uint32_t scalarW(const DataLayout& DL, Type* T) {
    if (T->isPointerTy())
      return 64;
    if (T->isIntegerTy())
      return T->getIntegerBitWidth();
    if (T->isFloatTy())
      return 32;
    if (T->isDoubleTy())
      return 64;
    if (T->isX86_FP80Ty())
      return 80;
    if (T->isHalfTy())
      return 16;
    return 0;
  }
  void leavesOf(Type* T, uint32_t off, std::vector<Leaf>& out) {
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy())
      return;
    if (auto* ST = dyn_cast<StructType>(T)) {
      auto* SL = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        leavesOf(ST->getElementType(i), off + SL->getElementOffset(i), out);
      return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(AT->getElementType());
      for (uint64_t i = 0; i < AT->getNumElements(); ++i)
        leavesOf(AT->getElementType(), off + i * es, out);
      return;
    }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(VT->getElementType());
      for (unsigned i = 0; i < VT->getNumElements(); ++i)
        leavesOf(VT->getElementType(), off + i * es, out);
      return;
    }
    uint32_t w = scalarW(*DL, T);
    out.push_back({off, w, (w + 7) / 8});
  }
  int nLeaves(Type* T) {
    std::vector<Leaf> l;
    leavesOf(T, 0, l);
    return (int)l.size();
  }

  // -------------------------------------------------------------- constants
  Val mk(u128 v, uint32_t w) {
    Val r;
    v &= maskW(w);
    if (w <= 64)
      r.c = (uint64_t)v;
    else
      r.e = cx.cst(v, w);
    return r;
  }
  Val fromE(E e) {
    Val r;
    if (Ctx::isC(e) && e->w <= 64)
      r.c = (uint64_t)e->c;
    else
      r.e = e;
    return r;
  }
  E toE(const Val& v, uint32_t w) { return v.e ? v.e : cx.cst(v.c, w); }

  CFunc* getFunc(const Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end())
      return it->second;
    auto* c = new CFunc;
    c->F = F;
    c->name = F->getName().str();
    auto& ht = handlerTable();
    auto h = ht.find(c->name);
    if (h != ht.end())
      c->handler = h->second;
    else if (F->isDeclaration()) {
      c->handler = prefixHandler(c->name);
    }
    funcs[F] = c;
    return c;
  }
  Handler prefixHandler(const std::string& n);
  uint64_t funcAddr(const Function* F) {
    auto* c = getFunc(F);
    for (size_t i = 0; i < funcByIdx.size(); ++i)
      ;
    auto it = fidx.find(c);
    if (it == fidx.end()) {
      it = fidx.emplace(c, funcByIdx.size()).first;
      funcByIdx.push_back(c);
    }
    return FUNC_BASE + it->second * 16;
  }
  std::unordered_map<CFunc*, size_t> fidx;

  void constLeaves(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
      const APInt& a = CI->getValue();
      uint32_t w = a.getBitWidth();
      u128 v = a.getLoBits(std::min(64u, w)).getZExtValue();
      if (w > 64)
        v |= (u128)a.lshr(64).getLoBits(64).getZExtValue() << 64;
      out.push_back(mk(v, w));
      return;
    }
    if (auto* CF = dyn_cast<ConstantFP>(C)) {
      APInt a = CF->getValueAPF().bitcastToAPInt();
      u128 v = a.getLoBits(std::min(64u, a.getBitWidth())).getZExtValue();
      if (a.getBitWidth() > 64)
        v |= (u128)a.lshr(64).getLoBits(64).getZExtValue() << 64;
      out.push_back(mk(v, a.getBitWidth()));
      return;
    }
    if (isa<ConstantPointerNull>(C)) {
      out.push_back(mk(0, 64));
      return;
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
      std::vector<Leaf> l;
      leavesOf(T, 0, l);
      for (auto& x : l)
        out.push_back(mk(0, x.w));
      return;
    }
    if (auto* CDS = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < CDS->getNumElements(); ++i)
        constLeaves(CDS->getElementAsConstant(i), out);
      return;
    }
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
      for (unsigned i = 0; i < CA->getNumOperands(); ++i)
        constLeaves(cast<Constant>(CA->getOperand(i)), out);
      return;
    }
    if (auto* F = dyn_cast<Function>(C)) {
      out.push_back(mk(funcAddr(F), 64));
      return;
    }
    if (auto* GV = dyn_cast<GlobalVariable>(C)) {
      out.push_back(mk(gaddr.at(GV), 64));
      return;
    }
    if (auto* GA = dyn_cast<GlobalAlias>(C)) {
      constLeaves(GA->getAliasee(), out);
      return;
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
      auto sub = [&](unsigned i) {
        std::vector<Val> v;
        constLeaves(CE->getOperand(i), v);
        return v[0];
      };
      switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* GO = cast<GEPOperator>(CE);
        APInt off(64, 0);
        if (!GO->accumulateConstantOffset(*DL, off))
          die("non-constant GEP constant expression");
        Val b = sub(0);
        out.push_back(mk(b.c + off.getZExtValue(), 64));
        return;
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::Trunc:
      case Instruction::ZExt:
        out.push_back(mk(sub(0).c, scalarW(*DL, T)));
        return;
      case Instruction::Sub: out.push_back(mk(sub(0).c - sub(1).c, scalarW(*DL, T))); return;
      case Instruction::Add: out.push_back(mk(sub(0).c + sub(1).c, scalarW(*DL, T))); return;
      case Instruction::ICmp: {
        bool eq = sub(0).c == sub(1).c;
        auto p = CE->getPredicate();
        out.push_back(mk(p == CmpInst::ICMP_EQ ? eq : !eq, 1));
        return;
      }
      default: break;
      }
      std::string s;
      raw_string_ostream os(s);
      CE->print(os);
      die("unsupported constant expression " + s);
    }
    if (isa<BlockAddress>(C) || isa<ConstantTokenNone>(C)) {
      out.push_back(mk(0, 64));
      return;
    }
    if (isa<DSOLocalEquivalent>(C) || isa<NoCFIValue>(C)) {
      constLeaves(cast<Constant>(C->getOperand(0)), out);
      return;
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    die("unsupported constant " + s);
  }
  [[noreturn]] void die(const std::string& m) {
    fprintf(stderr, "engine: %s\n", m.c_str());
    _exit(3);
  }

  // ---------------------------------------------------------------- compile
  void compile(CFunc* f) {
    if (f->compiled)
      return;
    f->compiled = true;
    const Function* F = f->F;
    std::unordered_map<const Value*, Operand> vmap;
    int slots = 0;
    for (auto& A : F->args()) {
      int n = nLeaves(A.getType());
      vmap[&A] = {slots, n};
      f->args.push_back({slots, n});
      slots += n;
    }
    f->nargSlots = slots;
    std::unordered_map<const BasicBlock*, uint32_t> bidx;
    uint32_t nb = 0;
    for (auto& B : *F) {
      bidx[&B] = nb++;
      for (auto& I : B) {
        int n = nLeaves(I.getType());
        vmap[&I] = {slots, n};
        slots += n;
      }
    }
    f->nslots = slots;
    auto opnd = [&](const Value* v) -> Operand {
      auto it = vmap.find(v);
      if (it != vmap.end())
        return it->second;
      if (auto* C = dyn_cast<Constant>(v)) {
        std::vector<Val> l;
        constLeaves(C, l);
        Operand o{~(int)pool.size(), (int)l.size()};
        for (auto& x : l)
          pool.push_back(x);
        return o;
      }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v))
        return {~0, 0};
      die("operand");
    };
    f->blocks.resize(nb);
    for (auto& B : *F) {
      auto& CB = f->blocks[bidx[&B]];
      for (auto& I : B) {
        if (auto* P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
            uint32_t pb = bidx[P->getIncomingBlock(i)];
            // several edges from the same block carry the same value
            auto& v = CB.phis[pb];
            int d = vmap[P].base;
            bool dup = false;
            for (auto& c : v)
              dup |= c.dst == d;
            if (!dup)
              v.push_back({opnd(P->getIncomingValue(i)), d, vmap[P].n});
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I))
          continue;
        CInst c;
        c.I = &I;
        c.opc = I.getOpcode();
        c.dst = vmap[&I].base;
        c.nd = vmap[&I].n;
        Type* T = I.getType();
        Type* ET = T->isVectorTy() ? T->getScalarType() : T;
        c.w = scalarW(*DL, ET);
        if (auto* CB2 = dyn_cast<CallBase>(&I)) {
          compileCall(c, CB2, opnd, bidx);
          CB.insts.push_back(std::move(c));
          continue;
        }
        switch (I.getOpcode()) {
        case Instruction::Br: {
          auto* BI = cast<BranchInst>(&I);
          if (BI->isConditional()) {
            c.sub = 1;
            c.ops.push_back(opnd(BI->getCondition()));
            c.tgt[0] = bidx[BI->getSuccessor(0)];
            c.tgt[1] = bidx[BI->getSuccessor(1)];
          } else
            c.tgt[0] = bidx[BI->getSuccessor(0)];
          break;
        }
        case Instruction::Switch: {
          auto* SI = cast<SwitchInst>(&I);
          c.ops.push_back(opnd(SI->getCondition()));
          c.w = scalarW(*DL, SI->getCondition()->getType());
          c.tgt[0] = bidx[SI->getDefaultDest()];
          for (auto& cs : SI->cases())
            c.cases.push_back({cs.getCaseValue()->getZExtValue(), bidx[cs.getCaseSuccessor()]});
          break;
        }
        case Instruction::GetElementPtr: {
          auto* G = cast<GetElementPtrInst>(&I);
          if (T->isVectorTy())
            die("vector GEP");
          c.ops.push_back(opnd(G->getPointerOperand()));
          for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
            const Value* ix = gti.getOperand();
            if (StructType* ST = gti.getStructTypeOrNull()) {
              c.imm += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              uint64_t sc = gti.getSequentialElementStride(*DL);
              if (auto* CI = dyn_cast<ConstantInt>(ix))
                c.imm += (uint64_t)CI->getSExtValue() * sc;
              else
                c.gidx.push_back({opnd(ix), scalarW(*DL, ix->getType()), sc});
            }
          }
          break;
        }
        case Instruction::Alloca: {
          auto* A = cast<AllocaInst>(&I);
          c.imm = DL->getTypeAllocSize(A->getAllocatedType());
          c.ops.push_back(opnd(A->getArraySize()));
          c.ws.push_back(scalarW(*DL, A->getArraySize()->getType()));
          break;
        }
        case Instruction::Load: {
          leavesOf(T, 0, c.leaves);
          c.ops.push_back(opnd(I.getOperand(0)));
          c.isAtomic = cast<LoadInst>(&I)->isAtomic();
          c.sub = (unsigned)cast<LoadInst>(&I)->getOrdering();
          break;
        }
        case Instruction::Store: {
          leavesOf(I.getOperand(0)->getType(), 0, c.leaves);
          c.ops.push_back(opnd(I.getOperand(0)));
          c.ops.push_back(opnd(I.getOperand(1)));
          c.isAtomic = cast<StoreInst>(&I)->isAtomic();
          c.sub = (unsigned)cast<StoreInst>(&I)->getOrdering();
          break;
        }
        case Instruction::ExtractValue: {
          auto* EV = cast<ExtractValueInst>(&I);
          Operand o = opnd(EV->getAggregateOperand());
          Operand r{o.base, c.nd};
          int off = leafOffset(EV->getAggregateOperand()->getType(), EV->getIndices());
          r.base = o.base >= 0 ? o.base + off : ~(~o.base + off);
          c.ops.push_back(r);
          break;
        }
        case Instruction::InsertValue: {
          auto* IV = cast<InsertValueInst>(&I);
          c.ops.push_back(opnd(IV->getAggregateOperand()));
          c.ops.push_back(opnd(IV->getInsertedValueOperand()));
          c.imm = leafOffset(IV->getAggregateOperand()->getType(), IV->getIndices());
          break;
        }
        case Instruction::LandingPad: {
          auto* LP = cast<LandingPadInst>(&I);
          c.cleanup = LP->isCleanup();
          for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
            CInst::Clause cl;
            cl.isCatch = LP->isCatch(i);
            std::vector<Val> l;
            constLeaves(LP->getClause(i), l);
            if (cl.isCatch)
              cl.ti = l[0].c;
            else {
              cl.ti = 0;
              for (auto& v : l)
                cl.filter.push_back(v.c);
            }
            c.clauses.push_back(cl);
          }
          break;
        }
        case Instruction::ShuffleVector: {
          auto* SV = cast<ShuffleVectorInst>(&I);
          c.ops.push_back(opnd(SV->getOperand(0)));
          c.ops.push_back(opnd(SV->getOperand(1)));
          for (int m : SV->getShuffleMask())
            c.mask.push_back(m);
          break;
        }
        default:
          for (auto& U : I.operands()) {
            c.ops.push_back(opnd(U.get()));
            Type* OT = U->getType();
            c.ws.push_back(scalarW(*DL, OT->isVectorTy() ? OT->getScalarType() : OT));
          }
          if (auto* CI = dyn_cast<CmpInst>(&I))
            c.sub = CI->getPredicate();
          if (auto* RM = dyn_cast<AtomicRMWInst>(&I))
            c.sub = RM->getOperation();
          if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I))
            c.isAtomic = true;
        }
        CB.insts.push_back(std::move(c));
      }
    }
  }
  int leafOffset(Type* T, ArrayRef<unsigned> idx) {
    int off = 0;
    for (unsigned i : idx) {
      if (auto* ST = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; ++k)
          off += nLeaves(ST->getElementType(k));
        T = ST->getElementType(i);
      } else {
        auto* AT = cast<ArrayType>(T);
        off += i * nLeaves(AT->getElementType());
        T = AT->getElementType();
      }
    }
    return off;
  }
  template <class OP, class BM>
  void compileCall(CInst& c, const CallBase* CB, OP& opnd, BM& bidx) {
    c.opc = Instruction::Call;
    if (auto* II = dyn_cast<InvokeInst>(CB)) {
      c.opc = Instruction::Invoke;
      c.tgt[0] = bidx[II->getNormalDest()];
      c.tgt[1] = bidx[II->getUnwindDest()];
    }
    unsigned i = 0;
    for (auto& A : CB->args()) {
      c.ops.push_back(opnd(A.get()));
      uint64_t bv = 0;
      if (CB->paramHasAttr(i, Attribute::ByVal))
        bv = DL->getTypeAllocSize(CB->getParamByValType(i));
      c.byval.push_back(bv);
      std::vector<Leaf> l;
      leavesOf(A->getType(), 0, l);
      for (auto& x : l)
        c.argw.push_back(x.w);
      ++i;
    }
    const Value* cv = CB->getCalledOperand()->stripPointerCasts();
    if (auto* GA = dyn_cast<GlobalAlias>(cv))
      cv = GA->getAliaseeObject();
    if (auto* F = dyn_cast<Function>(cv)) {
      c.callee = getFunc(F);
      c.sub = 1;
      c.imm = F->getIntrinsicID();
    } else if (isa<InlineAsm>(cv)) {
      c.sub = 2;
    } else {
      c.sub = 0;
      c.ops.push_back(opnd(CB->getCalledOperand()));  // callee last
    }
  }

  // ---------------------------------------------------------------- reports
  std::string where(const CInst* c) {
    if (!c || !c->I)
      return "?";
    auto loc = c->I->getDebugLoc();
    std::string fn = demangle(c->I->getFunction()->getName().str());
    if (fn.size() > 160)
      fn = fn.substr(0, 160) + "...";
    if (!loc)
      return fn;
    std::string file = loc->getFilename().str();
    return file + ":" + std::to_string(loc.getLine()) + " (" + fn + ")";
  }
  std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r;
    for (auto it = s.T().stack.rbegin(); it != s.T().stack.rend() && r.size() < 24; ++it) {
      auto& b = it->fn->blocks[it->block];
      const CInst* ci = it->ip < b.insts.size() ? &b.insts[it->ip] : nullptr;
      r.push_back(where(ci));
    }
    return r;
  }
  std::string inputsJson(State& s, const Model& m) {
    std::string o = "[";
    bool first = true;
    for (auto& g : s.groups) {
      if (!first)
        o += ",";
      first = false;
      o += "{\"name\":\"" + jsonEsc(g.name) + "\",\"bytes\":\"";
      for (uint32_t i = 0; i < g.n; ++i) {
        auto it = m.find(g.first + i);
        char b[4];
        snprintf(b, sizeof b, "%02x", it == m.end() ? 0 : (unsigned)(it->second & 0xff));
        o += b;
      }
      o += "\"}";
    }
    return o + "]";
  }
  std::string schedJson(State& s) {
    std::string o = "[";
    for (size_t i = 0; i < s.schedule.size(); ++i) {
      if (i)
        o += ",";
      o += "[" + std::to_string(s.schedule[i].first) + ",\"" + jsonEsc(s.schedule[i].second) + "\"]";
    }
    return o + "]";
  }
  void violate(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr, bool uninit = false) {
    auto st = stackOf(s);
    std::string key = kind + "|" + msg + "|" + (st.empty() ? "" : st[0]);
    if (!violationKeys.insert(key).second)
      return;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = st.empty() ? "" : st[0];
    v.stack = st;
    v.usesUninit = uninit;
    v.inputs = inputsJson(s, m ? *m : s.model->m);
    v.schedule = schedJson(s);
    violations.push_back(v);
    if (verbose)
      fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
  }

  // ------------------------------------------------------------ path control
  bool evalBool(State& s, E e) { return evalE(e, s.model->m, s.model->memo) & 1; }
  void addPC(State& s, E c) {
    if (Ctx::isC(c))
      return;
    if (c->op == Op::And && c->w == 1) {
      addPC(s, c->k[0]);
      addPC(s, c->k[1]);
      s.known[c] = 1;
      return;
    }
    if (s.known.count(c) && s.known[c] == 1)
      return;
    s.pc.push_back(c);
    learn(s, c, 1);
  }
  void learn(State& s, E c, u128 v) {
    if (Ctx::isC(c))
      return;
    s.known[c] = v;
    if (c->w == 1) {
      E n = cx.bnot(c);
      s.known[n] = v ^ 1;
      if (v && c->op == Op::Eq && Ctx::isC(c->k[1]))
        s.known[c->k[0]] = c->k[1]->c;
      if (!v && n->op == Op::Eq && Ctx::isC(n->k[1]))
        s.known[n->k[0]] = n->k[1]->c;
    }
  }
  void setModel(State& s, Model&& m) {
    s.model = std::make_shared<ModelBox>();
    s.model->m = std::move(m);
  }
  Sat solve(State& s, E cond, Model* m) {
    Sat r = sol.check(s.pc, cond, m);
    if (r == Sat::Unknown) {
      notes["solver returned unknown"]++;
      if (incomplete.empty())
        incomplete = "solver timeout";
    }
    return r;
  }
  // decide a condition: 0 / 1 = only this side feasible, 2 = both (model of the side the current model
  // does not take is returned)
  int decide(State& s, E c, Model& other) {
    if (Ctx::isC(c))
      return (int)c->c;
    auto k = s.known.find(c);
    if (k != s.known.end())
      return (int)k->second;
    bool b = evalBool(s, c);
    E o = b ? cx.bnot(c) : c;
    Sat r = solve(s, o, &other);
    if (r == Sat::Sat)
      return 2;
    learn(s, c, b);
    return b;
  }
  State* clone(State& s) {
    forks++;
    State* n = new State(s);
    n->id = nextId++;
    n->depth++;
    return n;
  }
  // concretise v; may fork other values off (those re-execute the current instruction)
  bool concretize(State& s, const Val& v, uint32_t w, uint64_t& out) {
    if (!v.e) {
      out = v.c;
      return true;
    }
    if (Ctx::isC(v.e)) {
      out = (uint64_t)v.e->c;
      return true;
    }
    auto k = s.known.find(v.e);
    if (k != s.known.end()) {
      out = (uint64_t)k->second;
      return true;
    }
    u128 val = evalE(v.e, s.model->m, s.model->memo);
    E eq = cx.bin(Op::Eq, v.e, cx.cst(val, w));
    Model m;
    int d = decide(s, eq, m);
    if (d == 2) {
      if (v.e->uninit && !onlyFree(v.e)) {
        violate(s, "uninit", "value used as address/size/selector depends on uninitialised memory", nullptr, true);
        return false;
      }
      State* n = clone(s);
      addPC(*n, cx.bnot(eq));
      setModel(*n, std::move(m));
      work.push_back(n);
    }
    addPC(s, eq);
    s.known[v.e] = val;
    out = (uint64_t)val;
    return true;
  }
  bool onlyFree(E) { return false; }

  // ------------------------------------------------------------------ memory
  uint64_t allocObj(State& s, uint32_t size, ObjKind k, const CInst* site, const char* name, bool zero) {
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->kind = k;
    o->site = site;
    o->name = name;
    o->data.assign(size, 0);
    if (!zero)
      o->sym.assign(size, UNINIT());
    uint64_t id = s.mem.alloc(o);
    return id << OBJ_SHIFT;
  }
  E uninitSent = nullptr;
  E UNINIT() {
    if (!uninitSent) {
      static Expr x;
      uninitSent = &x;
    }
    return uninitSent;
  }
  void killObj(State& s, uint64_t addr) {
    Obj* o = s.mem.getW(addr >> OBJ_SHIFT);
    o->alive = false;
    o->data.clear();
    o->data.shrink_to_fit();
    o->sym.clear();
    o->sym.shrink_to_fit();
  }
  std::string descObj(const Obj* o) {
    if (!o)
      return "no object";
    static const char* kn[] = {"global", "constant", "stack variable", "heap block", "external"};
    return std::string(kn[o->kind]) + " of " + std::to_string(o->size) + " bytes" +
        (o->name[0] ? std::string(" '") + demangle(o->name) + "'" : "") + (o->site ? " allocated at " + where(o->site) : "");
  }
  // validity of a concrete access; reports
  const Obj* access(State& s, uint64_t addr, uint64_t n, bool write, const CInst* ci) {
    memChecks++;
    uint64_t id = addr >> OBJ_SHIFT, off = addr & ((1u << OBJ_SHIFT) - 1);
    const Obj* o = s.mem.get(id);
    if (!o) {
      violate(s, "memory", addr < 4096 ? std::string("null pointer dereference") : std::string("access through wild pointer"));
      return nullptr;
    }
    if (!o->alive) {
      violate(s, "memory", "use after free/scope of " + descObj(o));
      return nullptr;
    }
    if (off + n > o->size) {
      violate(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) +
                  " bytes at offset " + std::to_string((int64_t)(off > (1u << 23) ? (int64_t)off - (1 << OBJ_SHIFT) : (int64_t)off)) + " in " + descObj(o));
      return nullptr;
    }
    if (write && o->kind == KConst) {
      violate(s, "memory", "write to " + descObj(o));
      return nullptr;
    }
    if (s.multi() && ci)
      race(s, addr, n, write, ci);
    return o;
  }
  void race(State& s, uint64_t addr, uint64_t n, bool write, const CInst* ci) {
    if (s.raceOff)
      return;
    int t = s.cur;
    auto& vc = s.T().vc;
    for (uint64_t a = addr; a < addr + n; ++a) {
      auto& sh = s.shadow[a];
      if (sh.wTid >= 0 && sh.wTid != t && sh.wClk > vcAt(vc, sh.wTid)) {
        violate(s, "data-race", std::string(write ? "write" : "read") + " races with write at " + where(sh.wInst));
        return;
      }
      if (write) {
        for (size_t i = 0; i < sh.rd.size(); ++i)
          if ((int)i != t && sh.rd[i] > vcAt(vc, i)) {
            violate(s, "data-race", "write races with read at " + where(sh.rInst));
            return;
          }
        sh.wTid = t;
        sh.wClk = vcAt(vc, t);
        sh.wInst = ci;
        sh.rd.clear();
      } else {
        if (sh.rd.size() <= (size_t)t)
          sh.rd.resize(t + 1);
        sh.rd[t] = vcAt(vc, t);
        sh.rInst = ci;
      }
    }
  }
  Val loadLeaf(State& s, const Obj* o, uint64_t id, uint32_t off, const Leaf& l) {
    uint32_t n = l.bytes;
    bool conc = true;
    if (!o->sym.empty())
      for (uint32_t i = 0; i < n; ++i)
        if (o->sym[off + i]) {
          conc = false;
          break;
        }
    if (conc) {
      if (n <= 8) {
        uint64_t v = 0;
        memcpy(&v, &o->data[off], n);
        if (l.w < 64)
          v &= (1ull << l.w) - 1;
        return {v, nullptr};
      }
      u128 v = 0;
      memcpy(&v, &o->data[off], std::min(n, 16u));
      return mk(v, l.w);
    }
    // materialise uninitialised bytes
    bool anyU = false;
    for (uint32_t i = 0; i < n; ++i)
      anyU |= o->sym[off + i] == UNINIT();
    if (anyU) {
      Obj* ow = s.mem.getW(id);
      for (uint32_t i = 0; i < n; ++i)
        if (ow->sym[off + i] == UNINIT())
          ow->sym[off + i] = cx.newSym("uninit", 0, true);
      o = ow;
    }
    E r = nullptr;
    for (uint32_t i = 0; i < n; ++i) {
      E b = o->sym[off + i] ? o->sym[off + i] : cx.cst(o->data[off + i], 8);
      r = r ? cx.concat(b, r) : b;
    }
    if (l.w < n * 8)
      r = cx.extract(r, 0, l.w);
    if (!Ctx::isC(r)) {
      auto k = s.known.find(r);
      if (k != s.known.end() && l.w <= 64)
        return {(uint64_t)k->second, nullptr};
    }
    return fromE(r);
  }
  void storeLeaf(State& s, Obj* o, uint32_t off, const Leaf& l, const Val& v) {
    uint32_t n = l.bytes;
    if (!v.e) {
      uint64_t c = v.c;
      if (n <= 8)
        memcpy(&o->data[off], &c, n);
      else {
        memset(&o->data[off], 0, n);
        memcpy(&o->data[off], &c, 8);
      }
      if (!o->sym.empty())
        for (uint32_t i = 0; i < n; ++i)
          o->sym[off + i] = nullptr;
      return;
    }
    E e = v.e;
    if (e->w < n * 8)
      e = cx.zext(e, n * 8);
    for (uint32_t i = 0; i < n; ++i) {
      E b = cx.extract(e, 8 * i, 8);
      setByte(o, off + i, b);
    }
  }
  void setByte(Obj* o, uint32_t off, E b) {
    if (Ctx::isC(b)) {
      o->data[off] = (uint8_t)b->c;
      if (!o->sym.empty())
        o->sym[off] = nullptr;
    } else {
      if (o->sym.empty())
        o->sym.assign(o->size, nullptr);
      o->sym[off] = b;
    }
  }
  // helpers for handlers (concrete addresses, no checks beyond access)
  bool readBytes(State& s, uint64_t a, uint64_t n, std::vector<Val>& out, const CInst* ci) {
    if (!n)
      return true;
    const Obj* o = access(s, a, n, false, ci);
    if (!o)
      return false;
    uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
    Leaf l{0, 8, 1};
    for (uint64_t i = 0; i < n; ++i) {
      out.push_back(loadLeaf(s, o, a >> OBJ_SHIFT, off + i, l));
      o = s.mem.get(a >> OBJ_SHIFT);
    }
    return true;
  }
  bool readCStr(State& s, uint64_t a, std::string& out) {
    for (;;) {
      const Obj* o = s.mem.get(a >> OBJ_SHIFT);
      uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
      if (!o || !o->alive || off >= o->size)
        return false;
      if (!o->sym.empty() && o->sym[off])
        out += '?';
      else if (!o->data[off])
        return true;
      else
        out += (char)o->data[off];
      a++;
    }
  }
  uint64_t rdPtr(State& s, uint64_t a) {
    const Obj* o = s.mem.get(a >> OBJ_SHIFT);
    uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
    if (!o || !o->alive || off + 8 > o->size)
      return 0;
    uint64_t v;
    memcpy(&v, &o->data[off], 8);
    return v;
  }
  bool copyMem(State& s, uint64_t d, uint64_t src, uint64_t n, const CInst* ci) {
    if (!n)
      return true;
    const Obj* so = access(s, src, n, false, ci);
    if (!so)
      return false;
    const Obj* dc = access(s, d, n, true, ci);
    if (!dc)
      return false;
    uint32_t so_ = src & ((1u << OBJ_SHIFT) - 1), do_ = d & ((1u << OBJ_SHIFT) - 1);
    std::vector<uint8_t> buf(so->data.begin() + so_, so->data.begin() + so_ + n);
    std::vector<E> sb;
    if (!so->sym.empty())
      sb.assign(so->sym.begin() + so_, so->sym.begin() + so_ + n);
    Obj* dw = s.mem.getW(d >> OBJ_SHIFT);
    memcpy(&dw->data[do_], buf.data(), n);
    if (!sb.empty() && dw->sym.empty()) {
      bool any = false;
      for (auto* e : sb)
        any |= e != nullptr;
      if (any)
        dw->sym.assign(dw->size, nullptr);
    }
    if (!dw->sym.empty())
      for (uint64_t i = 0; i < n; ++i)
        dw->sym[do_ + i] = sb.empty() ? nullptr : sb[i];
    return true;
  }

  // ------------------------------------------------------------------- setup
  void allocGlobals(State& s) {
    for (auto& G : M->globals()) {
      if (G.getName().starts_with("llvm."))
        continue;
      uint32_t size = 0;
      Type* VT = G.getValueType();
      bool ext = G.isDeclaration();
      if (VT->isSized())
        size = (uint32_t)DL->getTypeAllocSize(VT);
      if (ext)
        size = std::max(size, 512u);
      auto nm = new std::string(G.getName().str());
      uint64_t a = allocObj(s, size, ext ? KExt : (G.isConstant() ? KConst : KGlobal), nullptr, nm->c_str(), true);
      gaddr[&G] = a;
      if (*nm == "_ZTVN10__cxxabiv120__si_class_type_infoE")
        siVT = a + 16;
      if (*nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
        vmiVT = a + 16;
    }
    for (auto& G : M->globals()) {
      if (G.isDeclaration() || G.getName().starts_with("llvm."))
        continue;
      std::vector<Leaf> l;
      std::vector<Val> v;
      const Constant* C = G.getInitializer();
      if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C))
        continue;
      leavesOf(C->getType(), 0, l);
      constLeaves(C, v);
      uint64_t a = gaddr[&G];
      Obj* o = s.mem.getW(a >> OBJ_SHIFT);
      for (size_t i = 0; i < l.size(); ++i)
        storeLeaf(s, o, l[i].off, l[i], v[i]);
    }
  }
  void pushFrame(State& s, CFunc* f, const std::vector<Val>& args, const CInst* site) {
    compile(f);
    f->calls++;
    s.T().stack.emplace_back();
    Frame& fr = s.T().stack.back();
    fr.fn = f;
    fr.regs.resize(f->nslots);
    fr.callSite = site;
    for (size_t i = 0; i < args.size(); ++i) {
      if ((int)i < f->nargSlots)
        fr.regs[i] = args[i];
      else
        fr.varargs.push_back(args[i]);
    }
  }
  Val get(State& s, const Operand& o, int i = 0) {
    const Val& v = o.base >= 0 ? s.F().regs[o.base + i] : pool[~o.base + i];
    if (v.e) {
      auto k = s.known.find(v.e);
      if (k != s.known.end() && v.e->w <= 64)
        return {(uint64_t)k->second, nullptr};
    }
    return v;
  }
  void popFrame(State& s) {
    Frame& f = s.F();
    for (uint64_t a : f.allocas)
      killObj(s, a);
    s.T().stack.pop_back();
  }
  void jump(State& s, uint32_t b) {
    Frame& f = s.F();
    f.prevBlock = f.block;
    f.block = b;
    f.ip = 0;
    auto& phis = f.fn->blocks[b].phis;
    if (phis.empty())
      return;
    auto it = phis.find(f.prevBlock);
    if (it == phis.end())
      return;
    auto& cp = it->second;
    if (cp.size() == 1) {
      for (int i = 0; i < cp[0].n; ++i)
        f.regs[cp[0].dst + i] = get(s, cp[0].src, i);
      return;
    }
    std::vector<Val> tmp;
    for (auto& c : cp)
      for (int i = 0; i < c.n; ++i)
        tmp.push_back(get(s, c.src, i));
    size_t k = 0;
    for (auto& c : cp)
      for (int i = 0; i < c.n; ++i)
        f.regs[c.dst + i] = tmp[k++];
  }
  // finishes a call instruction in the current (caller) frame
  void finishCall(State& s, const CInst& ci, const Val* ret, int n) {
    Frame& f = s.F();
    for (int i = 0; i < ci.nd && i < n; ++i)
      f.regs[ci.dst + i] = ret[i];
    if (ci.opc == Instruction::Invoke)
      jump(s, ci.tgt[0]);
    else
      f.ip++;
  }

  // -------------------------------------------------------------- exceptions
  bool typeMatches(State& s, uint64_t thrown, uint64_t want, int64_t& adj, int depth = 0) {
    adj = 0;
    if (thrown == want)
      return true;
    if (!thrown || depth > 20)
      return false;
    std::string a, b;
    uint64_t na = rdPtr(s, thrown + 8), nb = rdPtr(s, want + 8);
    if (na && nb && readCStr(s, na, a) && readCStr(s, nb, b) && !a.empty() && a == b)
      return true;
    uint64_t vt = rdPtr(s, thrown);
    if (vt == siVT && siVT)
      return typeMatches(s, rdPtr(s, thrown + 16), want, adj, depth + 1);
    if (vt == vmiVT && vmiVT) {
      uint64_t fl = rdPtr(s, thrown + 16);
      uint32_t n = (uint32_t)(fl >> 32);
      for (uint32_t i = 0; i < n; ++i) {
        uint64_t bt = rdPtr(s, thrown + 24 + 16 * i);
        int64_t of = (int64_t)rdPtr(s, thrown + 32 + 16 * i);
        int64_t sub = 0;
        if (!(of & 1) && typeMatches(s, bt, want, sub, depth + 1)) {
          adj = (of >> 8) + sub;
          return true;
        }
      }
    }
    return false;
  }
  std::string typeName(State& s, uint64_t ti) {
    std::string a;
    uint64_t n = rdPtr(s, ti + 8);
    if (n && readCStr(s, n, a))
      return demangle("_ZTS" + a).substr(0, 200);
    return "?";
  }
  // raise: unwinding starts in the top frame's caller. Returns R::Jumped or Kill
  R unwind(State& s, uint64_t obj, uint64_t ti, bool fresh) {
    auto& st = s.T().stack;
    if (fresh) {
      // phase 1: is there any handler?
      bool found = false;
      for (int i = (int)st.size() - 1; i >= 0 && !found; --i) {
        auto& fr = st[i];
        auto& ci = fr.fn->blocks[fr.block].insts[fr.ip];
        if (ci.opc != Instruction::Invoke)
          continue;
        auto& lp = fr.fn->blocks[ci.tgt[1]].insts[0];
        for (auto& cl : lp.clauses) {
          int64_t adj;
          if (cl.isCatch && (cl.ti == 0 || typeMatches(s, ti, cl.ti, adj)))
            found = true;
          if (!cl.isCatch)
            found = true;
        }
      }
      if (!found) {
        violate(s, "uncaught-exception", "exception of type " + typeName(s, ti).substr(0, 160) + " escapes");
        return R::Kill;
      }
    }
    while (!st.empty()) {
      Frame& fr = s.F();
      auto& ci = fr.fn->blocks[fr.block].insts[fr.ip];
      if (ci.opc == Instruction::Invoke) {
        auto& lp = fr.fn->blocks[ci.tgt[1]].insts[0];
        uint64_t sel = 0;
        bool enter = lp.cleanup;
        for (auto& cl : lp.clauses) {
          int64_t adj;
          if (cl.isCatch && (cl.ti == 0 || typeMatches(s, ti, cl.ti, adj))) {
            sel = cl.ti ? ((cl.ti >> OBJ_SHIFT) & 0x7fffffff) : 1;
            enter = true;
            s.mem.getW(obj >> OBJ_SHIFT);
            break;
          }
          if (!cl.isCatch) {
            sel = 0xffffffff;
            enter = true;
            break;
          }
        }
        if (enter) {
          jump(s, ci.tgt[1]);
          Frame& f2 = s.F();
          auto& lpi = f2.fn->blocks[f2.block].insts[0];
          f2.regs[lpi.dst] = {obj, nullptr};
          f2.regs[lpi.dst + 1] = {sel & 0xffffffff, nullptr};
          f2.ip = 1;
          return R::Jumped;
        }
      }
      popFrame(s);
    }
    violate(s, "uncaught-exception", "exception of type " + typeName(s, ti) + " escapes the thread");
    return R::Kill;
  }

  // ---------------------------------------------------------------- threads
  bool enabled(State& s, int t) {
    auto& T = s.threads[t];
    if (T.done)
      return false;
    switch (T.blockKind) {
    case 0: return true;
    case 1: {
      auto& l = s.locks[T.blockAddr];
      return l.owner < 0;
    }
    case 2: return s.locks[T.blockAddr].owner < 0;
    case 3: return s.locks[T.blockAddr].owner < 0 && s.locks[T.blockAddr].readers.empty();
    case 4:
      for (size_t i = 0; i < s.threads.size(); ++i)
        if ((int)i != t && !s.threads[i].done)
          return false;
      return true;
    case 5: return s.guards[T.blockAddr] != 1;
    }
    return true;
  }
  std::vector<Val> schedSyms;
  void recordSched(State& s, int t, const std::string& why) { s.schedule.push_back({t, why}); }
  // Scheduling decision before a synchronisation operation of the current thread.
  // Returns true if the current thread shall go on with the operation.
  bool schedPoint(State& s, const std::string& why) {
    if (!s.multi())
      return true;
    auto& T = s.T();
    if (T.atSync) {
      T.atSync = false;
      return true;
    }
    std::vector<int> opts;
    if (s.preemptions < preemptBound)
      for (size_t i = 0; i < s.threads.size(); ++i)
        if ((int)i != s.cur && enabled(s, (int)i))
          opts.push_back((int)i);
    for (int o : opts) {
      State* n = clone(s);
      schedForks++;
      n->preemptions++;
      n->cur = o;
      n->T().blockKind = 0;
      n->T().atSync = true;
      recordSched(*n, o, why);
      work.push_back(n);
    }
    if (s.threads.size() > 1)
      recordSched(s, s.cur, why);
    return true;
  }
  // the current thread cannot run: switch
  R mustSwitch(State& s) {
    std::vector<int> opts;
    bool allDone = true;
    for (size_t i = 0; i < s.threads.size(); ++i) {
      if (!s.threads[i].done)
        allDone = false;
      if (enabled(s, (int)i))
        opts.push_back((int)i);
    }
    if (opts.empty()) {
      if (!allDone)
        violate(s, "deadlock", "no thread can make progress");
      return R::Kill;
    }
    for (size_t k = 1; k < opts.size(); ++k) {
      State* n = clone(s);
      schedForks++;
      n->cur = opts[k];
      n->T().blockKind = 0;
      n->T().atSync = true;
      recordSched(*n, opts[k], "switch");
      work.push_back(n);
    }
    s.cur = opts[0];
    s.T().blockKind = 0;
    s.T().atSync = true;
    recordSched(s, opts[0], "switch");
    return R::Retry;
  }
  R block(State& s, int kind, uint64_t addr) {
    s.T().blockKind = kind;
    s.T().blockAddr = addr;
    return mustSwitch(s);
  }
  void tick(State& s) {
    auto& vc = s.T().vc;
    if (vc.size() <= (size_t)s.cur)
      vc.resize(s.cur + 1);
    vc[s.cur]++;
  }

  // ---------------------------------------------------------------- execution
  Val binop(State& s, unsigned opc, const Val& a, const Val& b, uint32_t w, bool& bad) {
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c, m = w >= 64 ? ~0ull : (1ull << w) - 1;
      switch (opc) {
      case Instruction::Add: return {(x + y) & m, nullptr};
      case Instruction::Sub: return {(x - y) & m, nullptr};
      case Instruction::Mul: return {(x * y) & m, nullptr};
      case Instruction::And: return {x & y, nullptr};
      case Instruction::Or: return {x | y, nullptr};
      case Instruction::Xor: return {x ^ y, nullptr};
      case Instruction::Shl: return {y >= w ? 0 : (x << y) & m, nullptr};
      case Instruction::LShr: return {y >= w ? 0 : x >> y, nullptr};
      default: break;
      }
    }
    Op op;
    switch (opc) {
    case Instruction::Add: op = Op::Add; break;
    case Instruction::Sub: op = Op::Sub; break;
    case Instruction::Mul: op = Op::Mul; break;
    case Instruction::UDiv: op = Op::UDiv; break;
    case Instruction::SDiv: op = Op::SDiv; break;
    case Instruction::URem: op = Op::URem; break;
    case Instruction::SRem: op = Op::SRem; break;
    case Instruction::And: op = Op::And; break;
    case Instruction::Or: op = Op::Or; break;
    case Instruction::Xor: op = Op::Xor; break;
    case Instruction::Shl: op = Op::Shl; break;
    case Instruction::LShr: op = Op::LShr; break;
    case Instruction::AShr: op = Op::AShr; break;
    case Instruction::FAdd: op = Op::FAdd; break;
    case Instruction::FSub: op = Op::FSub; break;
    case Instruction::FMul: op = Op::FMul; break;
    case Instruction::FDiv: op = Op::FDiv; break;
    default: die("binop");
    }
    E ea = toE(a, w), eb = toE(b, w);
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
      E z = cx.bin(Op::Eq, eb, cx.cst(0, w));
      Model m;
      int d = decide(s, z, m);
      bool zNow = d == 1 || (d == 2 && evalBool(s, z));
      if (d == 1) {
        violate(s, "div-by-zero", "integer division by zero");
        bad = true;
        return {};
      }
      if (d == 2) {
        if (zNow) {
          violate(s, "div-by-zero", "integer division by zero");
          setModel(s, std::move(m));
        } else
          violate(s, "div-by-zero", "integer division by zero", &m);
        addPC(s, cx.bnot(z));
      }
    }
    return fromE(cx.bin(op, ea, eb));
  }
  Val icmp(unsigned p, const Val& a, const Val& b, uint32_t w) {
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c;
      int64_t sx = (int64_t)sextW(x, w), sy = (int64_t)sextW(y, w);
      bool r = false;
      switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      default: break;
      }
      return {(uint64_t)r, nullptr};
    }
    E x = toE(a, w), y = toE(b, w), r = nullptr;
    switch (p) {
    case CmpInst::ICMP_EQ: r = cx.bin(Op::Eq, x, y); break;
    case CmpInst::ICMP_NE: r = cx.bnot(cx.bin(Op::Eq, x, y)); break;
    case CmpInst::ICMP_ULT: r = cx.bin(Op::Ult, x, y); break;
    case CmpInst::ICMP_ULE: r = cx.bin(Op::Ule, x, y); break;
    case CmpInst::ICMP_UGT: r = cx.bin(Op::Ult, y, x); break;
    case CmpInst::ICMP_UGE: r = cx.bin(Op::Ule, y, x); break;
    case CmpInst::ICMP_SLT: r = cx.bin(Op::Slt, x, y); break;
    case CmpInst::ICMP_SLE: r = cx.bin(Op::Sle, x, y); break;
    case CmpInst::ICMP_SGT: r = cx.bin(Op::Slt, y, x); break;
    case CmpInst::ICMP_SGE: r = cx.bin(Op::Sle, y, x); break;
    default: die("icmp");
    }
    return fromE(r);
  }
  Val fcmp(unsigned p, const Val& a, const Val& b, uint32_t w) {
    E x = toE(a, w), y = toE(b, w);
    E uno = cx.bin(Op::FUno, x, y), r = nullptr;
    E one = cx.cst(1, 1), zero = cx.cst(0, 1);
    auto OR = [&](E p_, E q) { return cx.bin(Op::Or, p_, q); };
    auto AND = [&](E p_, E q) { return cx.bin(Op::And, p_, q); };
    switch (p) {
    case CmpInst::FCMP_FALSE: r = zero; break;
    case CmpInst::FCMP_TRUE: r = one; break;
    case CmpInst::FCMP_OEQ: r = cx.bin(Op::FOeq, x, y); break;
    case CmpInst::FCMP_OLT: r = cx.bin(Op::FOlt, x, y); break;
    case CmpInst::FCMP_OLE: r = cx.bin(Op::FOle, x, y); break;
    case CmpInst::FCMP_OGT: r = cx.bin(Op::FOlt, y, x); break;
    case CmpInst::FCMP_OGE: r = cx.bin(Op::FOle, y, x); break;
    case CmpInst::FCMP_ONE: r = AND(cx.bnot(uno), cx.bnot(cx.bin(Op::FOeq, x, y))); break;
    case CmpInst::FCMP_ORD: r = cx.bnot(uno); break;
    case CmpInst::FCMP_UNO: r = uno; break;
    case CmpInst::FCMP_UEQ: r = OR(uno, cx.bin(Op::FOeq, x, y)); break;
    case CmpInst::FCMP_ULT: r = OR(uno, cx.bin(Op::FOlt, x, y)); break;
    case CmpInst::FCMP_ULE: r = OR(uno, cx.bin(Op::FOle, x, y)); break;
    case CmpInst::FCMP_UGT: r = OR(uno, cx.bin(Op::FOlt, y, x)); break;
    case CmpInst::FCMP_UGE: r = OR(uno, cx.bin(Op::FOle, y, x)); break;
    case CmpInst::FCMP_UNE: r = cx.bnot(cx.bin(Op::FOeq, x, y)); break;
    default: die("fcmp");
    }
    return fromE(r);
  }
  Val castv(unsigned opc, const Val& a, uint32_t wf, uint32_t wt) {
    if (!a.e && wf <= 64 && wt <= 64) {
      switch (opc) {
      case Instruction::ZExt: return a;
      case Instruction::Trunc: return {a.c & (wt >= 64 ? ~0ull : (1ull << wt) - 1), nullptr};
      case Instruction::SExt: return mk((u128)sextW(a.c, wf), wt);
      case Instruction::PtrToInt:
      case Instruction::IntToPtr: return mk(a.c, wt);
      default: break;
      }
    }
    E e = toE(a, wf);
    switch (opc) {
    case Instruction::ZExt: return fromE(cx.zext(e, wt));
    case Instruction::SExt: return fromE(cx.sext(e, wt));
    case Instruction::Trunc: return fromE(cx.extract(e, 0, wt));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: return fromE(wt <= wf ? cx.extract(e, 0, wt) : cx.zext(e, wt));
    case Instruction::FPExt: return fromE(cx.un(Op::FPExt, e, wt));
    case Instruction::FPTrunc: return fromE(cx.un(Op::FPTrunc, e, wt));
    case Instruction::SIToFP: return fromE(cx.un(Op::SIToFP, e, wt));
    case Instruction::UIToFP: return fromE(cx.un(Op::UIToFP, e, wt));
    case Instruction::FPToSI: return fromE(cx.un(Op::FPToSI, e, wt));
    case Instruction::FPToUI: return fromE(cx.un(Op::FPToUI, e, wt));
    default: die("cast");
    }
  }
  // resolve an address operand; forks on symbolic addresses
  bool address(State& s, const Val& p, uint64_t& a, uint64_t size) {
    if (!p.e) {
      a = p.c;
      return true;
    }
    auto k = s.known.find(p.e);
    if (k != s.known.end()) {
      a = (uint64_t)k->second;
      return true;
    }
    // first decide whether it can leave the object the current model points to
    uint64_t v = (uint64_t)evalE(p.e, s.model->m, s.model->memo);
    const Obj* o = s.mem.get(v >> OBJ_SHIFT);
    if (o && o->alive && (v & ((1u << OBJ_SHIFT) - 1)) + size <= o->size) {
      uint64_t base = v >> OBJ_SHIFT << OBJ_SHIFT;
      E off = cx.bin(Op::Sub, p.e, cx.cst(base, 64));
      E inb = cx.bin(Op::Ule, off, cx.cst(o->size - size, 64));
      Model m;
      int d = decide(s, inb, m);
      if (d == 2) {
        State* n = clone(s);
        addPC(*n, cx.bnot(inb));
        setModel(*n, std::move(m));
        work.push_back(n);
        addPC(s, inb);
      }
    }
    return concretize(s, p, 64, a);
  }
  R doBranch(State& s, const CInst& ci) {
    Val c = get(s, ci.ops[0]);
    if (!c.e) {
      jump(s, ci.tgt[c.c & 1 ? 0 : 1]);
      return R::Jumped;
    }
    Model m;
    int d = decide(s, c.e, m);
    if (d < 2) {
      jump(s, ci.tgt[d ? 0 : 1]);
      return R::Jumped;
    }
    if (c.e->uninit) {
      violate(s, "uninit", "branch depends on uninitialised memory", nullptr, true);
    }
    bool b = evalBool(s, c.e);
    State* n = clone(s);
    addPC(*n, b ? cx.bnot(c.e) : c.e);
    setModel(*n, std::move(m));
    jump(*n, ci.tgt[b ? 1 : 0]);
    work.push_back(n);
    addPC(s, b ? c.e : cx.bnot(c.e));
    jump(s, ci.tgt[b ? 0 : 1]);
    return R::Jumped;
  }

  void atomicSync(State& s, uint64_t a, AtomicOrdering o, bool rd, bool wr) {
    if (!s.multi())
      return;
    auto& v = s.atomics[a];
    if (rd && isAcquireOrStronger(o))
      vcJoin(s.T().vc, v);
    if (wr && isReleaseOrStronger(o)) {
      vcJoin(v, s.T().vc);
      tick(s);
    }
  }

  R step(State& s) {
    Frame& f = s.F();
    CBlock& b = f.fn->blocks[f.block];
    const CInst& ci = b.insts[f.ip];
    insts++;
    if (++s.steps > maxSteps) {
      violate(s, "no-termination", "instruction budget of one path exceeded (" + std::to_string(maxSteps) + ")");
      return R::Kill;
    }
    switch (ci.opc) {
    case Instruction::Br:
      if (!ci.sub) {
        jump(s, ci.tgt[0]);
        return R::Jumped;
      }
      return doBranch(s, ci);
    case Instruction::Switch: {
      Val v = get(s, ci.ops[0]);
      if (v.e) {
        // fork per case
        for (auto& cs : ci.cases) {
          E eq = cx.bin(Op::Eq, v.e, cx.cst(cs.first, ci.w));
          Model m;
          int d = decide(s, eq, m);
          if (d == 0)
            continue;
          if (d == 1) {
            jump(s, cs.second);
            return R::Jumped;
          }
          if (v.e->uninit)
            violate(s, "uninit", "switch depends on uninitialised memory", nullptr, true);
          bool nowEq = evalBool(s, eq);
          State* n = clone(s);
          if (nowEq) {
            // the clone takes "not equal" and re-executes; we jump
            addPC(*n, cx.bnot(eq));
            setModel(*n, std::move(m));
            work.push_back(n);
            addPC(s, eq);
            jump(s, cs.second);
            return R::Jumped;
          }
          addPC(*n, eq);
          setModel(*n, std::move(m));
          jump(*n, cs.second);
          work.push_back(n);
          addPC(s, cx.bnot(eq));
        }
        jump(s, ci.tgt[0]);
        return R::Jumped;
      }
      for (auto& cs : ci.cases)
        if (cs.first == v.c) {
          jump(s, cs.second);
          return R::Jumped;
        }
      jump(s, ci.tgt[0]);
      return R::Jumped;
    }
    case Instruction::Ret: {
      Val rv[64];
      int n = 0;
      if (!ci.ops.empty()) {
        n = std::min(ci.ops[0].n, 64);
        for (int i = 0; i < n; ++i)
          rv[i] = get(s, ci.ops[0], i);
      }
      const CInst* site = f.callSite;
      popFrame(s);
      if (s.T().stack.empty()) {
        s.T().done = true;
        tick(s);
        if (s.multi()) {
          bool all = true;
          for (auto& t : s.threads)
            all &= t.done;
          if (all)
            return R::Kill;
          return mustSwitch(s);
        }
        return R::Kill;
      }
      if (site)
        finishCall(s, *site, rv, n);
      return R::Jumped;
    }
    case Instruction::Unreachable:
      violate(s, "unreachable", "control reaches 'unreachable'");
      return R::Kill;
    case Instruction::GetElementPtr: {
      Val p = get(s, ci.ops[0]);
      if (!p.e) {
        uint64_t a = p.c + ci.imm;
        bool sym = false;
        for (auto& g : ci.gidx) {
          Val ix = get(s, g.op);
          if (ix.e) {
            sym = true;
            break;
          }
          a += (uint64_t)(int64_t)sextW(ix.c, g.w) * g.scale;
        }
        if (!sym) {
          f.regs[ci.dst] = {a, nullptr};
          f.ip++;
          return R::Next;
        }
      }
      E a = cx.bin(Op::Add, toE(p, 64), cx.cst(ci.imm, 64));
      for (auto& g : ci.gidx) {
        E ix = cx.sext(toE(get(s, g.op), g.w), 64);
        a = cx.bin(Op::Add, a, cx.bin(Op::Mul, ix, cx.cst(g.scale, 64)));
      }
      f.regs[ci.dst] = fromE(a);
      f.ip++;
      return R::Next;
    }
    case Instruction::Alloca: {
      uint64_t n;
      if (!concretize(s, get(s, ci.ops[0]), ci.ws[0], n))
        return R::Kill;
      uint64_t a = allocObj(s, (uint32_t)(n * ci.imm), KStack, &ci, "", false);
      s.F().allocas.push_back(a);
      s.F().regs[ci.dst] = {a, nullptr};
      s.F().ip++;
      return R::Next;
    }
    case Instruction::Load: {
      if (ci.isAtomic && !schedPoint(s, "atomic load"))
        return R::Retry;
      Val p = get(s, ci.ops[0]);
      uint64_t a, n = ci.leaves.empty() ? 0 : ci.leaves.back().off + ci.leaves.back().bytes;
      if (!address(s, p, a, n))
        return R::Kill;
      if (n) {
        const Obj* o = access(s, a, n, false, ci.isAtomic ? nullptr : &ci);
        if (!o)
          return R::Kill;
        if (ci.isAtomic)
          atomicSync(s, a, (AtomicOrdering)ci.sub, true, false);
        uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
        Frame& fr = s.F();
        for (size_t i = 0; i < ci.leaves.size(); ++i) {
          fr.regs[ci.dst + i] = loadLeaf(s, o, a >> OBJ_SHIFT, off + ci.leaves[i].off, ci.leaves[i]);
          o = s.mem.get(a >> OBJ_SHIFT);
        }
      }
      s.F().ip++;
      return R::Next;
    }
    case Instruction::Store: {
      if (ci.isAtomic && !schedPoint(s, "atomic store"))
        return R::Retry;
      Val p = get(s, ci.ops[1]);
      uint64_t a, n = ci.leaves.empty() ? 0 : ci.leaves.back().off + ci.leaves.back().bytes;
      if (!address(s, p, a, n))
        return R::Kill;
      if (n) {
        if (!access(s, a, n, true, ci.isAtomic ? nullptr : &ci))
          return R::Kill;
        if (ci.isAtomic)
          atomicSync(s, a, (AtomicOrdering)ci.sub, false, true);
        Obj* o = s.mem.getW(a >> OBJ_SHIFT);
        uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
        for (size_t i = 0; i < ci.leaves.size(); ++i)
          storeLeaf(s, o, off + ci.leaves[i].off, ci.leaves[i], get(s, ci.ops[0], (int)i));
      }
      s.F().ip++;
      return R::Next;
    }
    case Instruction::AtomicRMW: {
      if (!schedPoint(s, "atomic rmw"))
        return R::Retry;
      uint64_t a;
      uint32_t w = ci.w, n = (w + 7) / 8;
      if (!address(s, get(s, ci.ops[0]), a, n))
        return R::Kill;
      const Obj* o = access(s, a, n, true, nullptr);
      if (!o)
        return R::Kill;
      atomicSync(s, a, cast<AtomicRMWInst>(ci.I)->getOrdering(), true, true);
      Leaf l{0, w, n};
      uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
      Val old = loadLeaf(s, o, a >> OBJ_SHIFT, off, l), v = get(s, ci.ops[1]), nv;
      bool bad = false;
      switch ((AtomicRMWInst::BinOp)ci.sub) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, w, bad); break;
      case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, w, bad); break;
      case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, w, bad); break;
      case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, w, bad); break;
      case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, w, bad); break;
      default: die("atomicrmw");
      }
      storeLeaf(s, s.mem.getW(a >> OBJ_SHIFT), off, l, nv);
      s.F().regs[ci.dst] = old;
      s.F().ip++;
      return R::Next;
    }
    case Instruction::AtomicCmpXchg: {
      if (!schedPoint(s, "atomic cmpxchg"))
        return R::Retry;
      uint64_t a;
      uint32_t w = ci.ws[1], n = (w + 7) / 8;
      if (!address(s, get(s, ci.ops[0]), a, n))
        return R::Kill;
      const Obj* o = access(s, a, n, true, nullptr);
      if (!o)
        return R::Kill;
      atomicSync(s, a, cast<AtomicCmpXchgInst>(ci.I)->getSuccessOrdering(), true, true);
      Leaf l{0, w, n};
      uint32_t off = a & ((1u << OBJ_SHIFT) - 1);
      Val old = loadLeaf(s, o, a >> OBJ_SHIFT, off, l);
      Val eq = icmp(CmpInst::ICMP_EQ, old, get(s, ci.ops[1]), w);
      Val nv = get(s, ci.ops[2]);
      if (eq.e)
        nv = fromE(cx.ite(eq.e, toE(nv, w), toE(old, w)));
      else if (!eq.c)
        nv = old;
      storeLeaf(s, s.mem.getW(a >> OBJ_SHIFT), off, l, nv);
      s.F().regs[ci.dst] = old;
      s.F().regs[ci.dst + 1] = eq;
      s.F().ip++;
      return R::Next;
    }
    case Instruction::Fence:
      s.F().ip++;
      return R::Next;
    case Instruction::ICmp: {
      for (int i = 0; i < ci.nd; ++i)
        f.regs[ci.dst + i] = icmp(ci.sub, get(s, ci.ops[0], i), get(s, ci.ops[1], i), ci.ws[0]);
      f.ip++;
      return R::Next;
    }
    case Instruction::FCmp: {
      for (int i = 0; i < ci.nd; ++i)
        f.regs[ci.dst + i] = fcmp(ci.sub, get(s, ci.ops[0], i), get(s, ci.ops[1], i), ci.ws[0]);
      f.ip++;
      return R::Next;
    }
    case Instruction::FNeg:
      for (int i = 0; i < ci.nd; ++i) {
        Val v = get(s, ci.ops[0], i);
        f.regs[ci.dst + i] = fromE(cx.bin(Op::Xor, toE(v, ci.w), cx.cst((u128)1 << (ci.w - 1), ci.w)));
      }
      f.ip++;
      return R::Next;
    case Instruction::Select: {
      Val c0 = get(s, ci.ops[0]);
      for (int i = 0; i < ci.nd; ++i) {
        Val c = ci.ops[0].n > 1 ? get(s, ci.ops[0], i) : c0;
        Val x = get(s, ci.ops[1], i), y = get(s, ci.ops[2], i);
        if (!c.e)
          f.regs[ci.dst + i] = c.c & 1 ? x : y;
        else {
          uint32_t w = ci.w;
          if (!w) {
            std::vector<Leaf> l;
            leavesOf(ci.I->getType(), 0, l);
            w = l[i].w;
          }
          if (w == 64 && ci.I->getType()->isPointerTy() && (x.e || y.e || x.c != y.c)) {
            // keep pointers concrete: fork on the condition
            Model m;
            int d = decide(s, c.e, m);
            if (d == 2) {
              bool bv = evalBool(s, c.e);
              State* n = clone(s);
              addPC(*n, bv ? cx.bnot(c.e) : c.e);
              setModel(*n, std::move(m));
              work.push_back(n);
              addPC(s, bv ? c.e : cx.bnot(c.e));
              d = bv;
            }
            f.regs[ci.dst + i] = d ? x : y;
            continue;
          }
          f.regs[ci.dst + i] = fromE(cx.ite(c.e, toE(x, w), toE(y, w)));
        }
      }
      f.ip++;
      return R::Next;
    }
    case Instruction::Freeze:
      for (int i = 0; i < ci.nd; ++i) {
        Val v = get(s, ci.ops[0], i);
        if (v.e && v.e->uninit && v.e->w <= 64)
          v = fromE(cx.newSym("frozen", 0, false, v.e->w));
        f.regs[ci.dst + i] = v;
      }
      f.ip++;
      return R::Next;
    case Instruction::BitCast: {
      int n = ci.ops[0].n;
      if (n == ci.nd) {
        for (int i = 0; i < n; ++i)
          f.regs[ci.dst + i] = get(s, ci.ops[0], i);
      } else {
        // vector <-> scalar
        E e = nullptr;
        uint32_t sw = ci.ws[0];
        for (int i = 0; i < n; ++i) {
          E x = toE(get(s, ci.ops[0], i), sw);
          e = e ? cx.concat(x, e) : x;
        }
        for (int i = 0; i < ci.nd; ++i)
          f.regs[ci.dst + i] = fromE(cx.extract(e, i * ci.w, ci.w));
      }
      f.ip++;
      return R::Next;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP:
    case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      for (int i = 0; i < ci.nd; ++i)
        f.regs[ci.dst + i] = castv(ci.opc, get(s, ci.ops[0], i), ci.ws[0], ci.w);
      f.ip++;
      return R::Next;
    case Instruction::ExtractValue:
      for (int i = 0; i < ci.nd; ++i)
        f.regs[ci.dst + i] = get(s, ci.ops[0], i);
      f.ip++;
      return R::Next;
    case Instruction::InsertValue: {
      for (int i = 0; i < ci.nd; ++i)
        f.regs[ci.dst + i] = get(s, ci.ops[0], i);
      for (int i = 0; i < ci.ops[1].n; ++i)
        f.regs[ci.dst + (int)ci.imm + i] = get(s, ci.ops[1], i);
      f.ip++;
      return R::Next;
    }
    case Instruction::ExtractElement: {
      uint64_t ix;
      if (!concretize(s, get(s, ci.ops[1]), ci.ws[1], ix))
        return R::Kill;
      s.F().regs[ci.dst] = get(s, ci.ops[0], (int)ix);
      s.F().ip++;
      return R::Next;
    }
    case Instruction::InsertElement: {
      uint64_t ix;
      if (!concretize(s, get(s, ci.ops[2]), ci.ws[2], ix))
        return R::Kill;
      for (int i = 0; i < ci.nd; ++i)
        s.F().regs[ci.dst + i] = get(s, ci.ops[0], i);
      s.F().regs[ci.dst + (int)ix] = get(s, ci.ops[1]);
      s.F().ip++;
      return R::Next;
    }
    case Instruction::ShuffleVector: {
      int n0 = ci.ops[0].n;
      for (int i = 0; i < ci.nd; ++i) {
        int m = ci.mask[i];
        f.regs[ci.dst + i] = m < 0 ? Val{} : (m < n0 ? get(s, ci.ops[0], m) : get(s, ci.ops[1], m - n0));
      }
      f.ip++;
      return R::Next;
    }
    case Instruction::Resume: {
      Val o = get(s, ci.ops[0], 0);
      uint64_t obj = o.c;
      uint64_t ti = rdPtr(s, obj - 64);  // exception header, see rt.cpp
      popFrame(s);
      return unwind(s, obj, ti, false);
    }
    case Instruction::Call:
    case Instruction::Invoke: return doCall(s, ci);
    default:
      if (Instruction::isBinaryOp(ci.opc)) {
        bool bad = false;
        for (int i = 0; i < ci.nd; ++i) {
          f.regs[ci.dst + i] = binop(s, ci.opc, get(s, ci.ops[0], i), get(s, ci.ops[1], i), ci.w, bad);
          if (bad)
            return R::Kill;
        }
        f.ip++;
        return R::Next;
      }
      {
        std::string str;
        raw_string_ostream os(str);
        ci.I->print(os);
        unsupported(s, "instruction " + str);
        return R::Kill;
      }
    }
  }
  void unsupported(State& s, const std::string& m) {
    notes["unsupported: " + m]++;
    if (incomplete.empty())
      incomplete = "unsupported: " + m + " at " + (stackOf(s).empty() ? "" : stackOf(s)[0]);
  }
  R doIntrinsic(State& s, const CInst& ci, std::vector<Val>& a);

  R doCall(State& s, const CInst& ci) {
    CFunc* f = ci.callee;
    size_t nargs = ci.byval.size();
    std::vector<Val> args;
    args.reserve(ci.argw.size());
    for (size_t i = 0; i < nargs; ++i)
      for (int k = 0; k < ci.ops[i].n; ++k)
        args.push_back(get(s, ci.ops[i], k));
    if (ci.sub == 2) {  // inline asm: compiler barrier only
      s.F().ip++;
      return R::Next;
    }
    if (ci.sub == 1 && ci.imm)
      return doIntrinsic(s, ci, args);
    if (ci.sub == 0) {
      uint64_t fa;
      if (!concretize(s, get(s, ci.ops[nargs]), 64, fa))
        return R::Kill;
      if (fa < FUNC_BASE || (fa - FUNC_BASE) / 16 >= funcByIdx.size() || (fa & 15)) {
        violate(s, "memory", fa == 0 ? "call through null function pointer" : "call through invalid function pointer");
        return R::Kill;
      }
      f = funcByIdx[(fa - FUNC_BASE) / 16];
    }
    if (f->handler) {
      Val ret[8];
      Val rv;
      (void)ret;
      R r = f->handler(*this, s, ci, args, rv);
      if (r == R::Next) {
        finishCall(s, ci, &rv, 1);
        return R::Jumped;
      }
      return r;
    }
    if (f->F->isDeclaration()) {
      unsupported(s, "call to unmodelled external function " + demangle(f->name));
      return R::Kill;
    }
    // byval copies
    size_t leaf = 0;
    std::vector<uint64_t> tmp;
    for (size_t i = 0; i < nargs; ++i) {
      if (ci.byval[i]) {
        uint64_t src;
        if (!concretize(s, args[leaf], 64, src))
          return R::Kill;
        uint64_t d = allocObj(s, (uint32_t)ci.byval[i], KStack, &ci, "", false);
        if (!copyMem(s, d, src, ci.byval[i], &ci))
          return R::Kill;
        args[leaf] = {d, nullptr};
        tmp.push_back(d);
      }
      leaf += ci.ops[i].n;
    }
    if (s.T().stack.size() > 3000) {
      violate(s, "no-termination", "call depth limit exceeded");
      return R::Kill;
    }
    pushFrame(s, f, args, &ci);
    for (auto d : tmp)
      s.F().allocas.push_back(d);
    return R::Jumped;
  }

  void endPath(State& s, bool normal) {
    if (!normal) {
      killed++;
      return;
    }
    paths++;
    for (auto& c : s.covers)
      covers[c]++;
    if ((int)samples.size() < nSamples || (paths & (paths - 1)) == 0) {
      if ((int)samples.size() < nSamples * 3) {
        std::string o = "{\"inputs\":" + inputsJson(s, s.model->m) + ",\"schedule\":" + schedJson(s) + ",\"trace\":[";
        for (size_t i = 0; i < s.trace.size(); ++i) {
          auto& t = s.trace[i];
          uint64_t v = t.second.e ? (uint64_t)evalE(t.second.e, s.model->m, s.model->memo) : t.second.c;
          o += (i ? ",\"" : "\"") + jsonEsc(t.first + "=" + std::to_string(v)) + "\"";
        }
        o += "]}";
        samples.push_back(o);
      }
    }
  }

  void run(CFunc* entry) {
    State* s0 = new State;
    s0->model = std::make_shared<ModelBox>();
    s0->threads.resize(1);
    s0->T().vc.assign(1, 1);
    allocGlobals(*s0);
    // static initialisers, then the harness
    std::vector<std::pair<uint32_t, CFunc*>> ctors;
    if (auto* G = M->getGlobalVariable("llvm.global_ctors"))
      if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
        for (auto& U : CA->operands()) {
          auto* CS = cast<ConstantStruct>(U.get());
          if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
            ctors.push_back({(uint32_t)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), getFunc(F)});
        }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    ctors.push_back({1u << 30, entry});
    size_t next = 0;
    // run constructors one after the other in the initial state (they are concrete)
    for (; next + 1 < ctors.size(); ++next) {
      s0->T().done = false;
      pushFrame(*s0, ctors[next].second, {}, nullptr);
      while (!s0->T().stack.empty()) {
        R r = step(*s0);
        if (r == R::Kill && !s0->T().stack.empty()) {
          if (violations.empty())
            if (incomplete.empty())
              incomplete = "static initialisation did not complete";
          return;
        }
        if (!work.empty())
          die("fork during static initialisation in " + ctors[next].second->name);
      }
      s0->T().done = false;
    }
    s0->steps = 0;
    initInsts = insts;
    pushFrame(*s0, entry, {}, nullptr);
    work.push_back(s0);
    while (!work.empty()) {
      if ((int)violations.size() >= maxViolations) {
        if (incomplete.empty())
          incomplete = "stopped after violations";
        break;
      }
      State* s = work.back();
      work.pop_back();
      uint64_t cnt = 0;
      for (;;) {
        R r = step(*s);
        if (r == R::Kill) {
          bool done = true;
          for (auto& t : s->threads)
            done &= t.done;
          endPath(*s, done);
          delete s;
          break;
        }
        if ((++cnt & 0x3ff) == 0 && elapsed() > timeLimit) {
          incomplete = "time limit";
          break;
        }
      }
      if (!incomplete.empty() && incomplete == "time limit")
        break;
      if (paths > maxPaths) {
        incomplete = "path limit";
        break;
      }
      if (elapsed() > timeLimit) {
        incomplete = "time limit";
        break;
      }
    }
  }
  uint64_t initInsts = 0;
};

static R ret0(Engine&, State&, const CInst&, std::vector<Val>&, Val& r) {
  r = {};
  return R::Next;
}
static R retArg0(Engine&, State&, const CInst&, std::vector<Val>& a, Val& r) {
  r = a.empty() ? Val{} : a[0];
  return R::Next;
}

#include "handlers.inc"

}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  Engine en;
  std::string file, entry = "harness_main", out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") en.timeLimit = std::stod(nx());
    else if (a == "--steps") en.maxSteps = std::stoull(nx());
    else if (a == "--preempt") en.preemptBound = std::stoi(nx());
    else if (a == "--samples") en.nSamples = std::stoi(nx());
    else if (a == "--max-violations") en.maxViolations = std::stoi(nx());
    else if (a == "--solver-ms") en.sol.timeoutMs = std::stoi(nx());
    else if (a == "-v") en.verbose = true;
    else file = a;
  }
  en.sol.mk();
  LLVMContext C;
  SMDiagnostic err;
  en.M = parseIRFile(file, err, C);
  if (!en.M) {
    err.print("engine", errs());
    return 3;
  }
  en.DL = &en.M->getDataLayout();
  Function* F = en.M->getFunction(entry);
  if (!F || F->isDeclaration()) {
    fprintf(stderr, "no entry %s\n", entry.c_str());
    return 3;
  }
  en.run(en.getFunc(F));
  // report
  std::ostringstream o;
  o << "{\n \"entry\":\"" << entry << "\",\n \"complete\":" << (en.incomplete.empty() ? "true" : "false")
    << ",\n \"incomplete_reason\":\"" << jsonEsc(en.incomplete) << "\",\n \"paths\":" << en.paths << ",\n \"killed\":" << en.killed
    << ",\n \"infeasible\":" << en.infeasible << ",\n \"forks\":" << en.forks << ",\n \"sched_forks\":" << en.schedForks
    << ",\n \"instructions\":" << en.insts << ",\n \"init_instructions\":" << en.initInsts << ",\n \"asserts\":" << en.asserts
    << ",\n \"asserts_symbolic\":" << en.assertsSymbolic << ",\n \"mem_checks\":" << en.memChecks
    << ",\n \"queries\":" << en.sol.queries << ",\n \"sat\":" << en.sol.satN << ",\n \"unsat\":" << en.sol.unsatN
    << ",\n \"unknown\":" << en.sol.unknownN << ",\n \"solver_s\":" << en.sol.solverTime << ",\n \"max_query_s\":" << en.sol.maxQuery
    << ",\n \"wall_s\":" << en.elapsed() << ",\n \"covers\":{";
  bool first = true;
  for (auto& c : en.covers) {
    o << (first ? "" : ",") << "\"" << jsonEsc(c.first) << "\":" << c.second;
    first = false;
  }
  o << "},\n \"notes\":{";
  first = true;
  for (auto& c : en.notes) {
    o << (first ? "" : ",") << "\"" << jsonEsc(c.first) << "\":" << c.second;
    first = false;
  }
  o << "},\n \"functions\":[";
  first = true;
  for (auto& f : en.funcs) {
    if (!f.second->calls || !f.second->F->getSubprogram())
      continue;
    auto* sp = f.second->F->getSubprogram();
    o << (first ? "" : ",\n  ") << "[\"" << jsonEsc(sp->getDirectory().str() + "|" + sp->getFilename().str()) << "\",\"" << jsonEsc(demangle(f.second->name)) << "\"]";
    first = false;
  }
  o << "],\n \"samples\":[";
  for (size_t i = 0; i < en.samples.size(); ++i)
    o << (i ? ",\n  " : "") << en.samples[i];
  o << "],\n \"violations\":[";
  for (size_t i = 0; i < en.violations.size(); ++i) {
    auto& v = en.violations[i];
    o << (i ? ",\n" : "") << "{\"kind\":\"" << jsonEsc(v.kind) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\",\"where\":\"" << jsonEsc(v.where)
      << "\",\"uninit\":" << (v.usesUninit ? "true" : "false") << ",\"stack\":[";
    for (size_t k = 0; k < v.stack.size(); ++k)
      o << (k ? "," : "") << "\"" << jsonEsc(v.stack[k]) << "\"";
    o << "],\"inputs\":" << v.inputs << ",\"schedule\":" << v.schedule << "}";
  }
  o << "]\n}\n";
  if (out.empty())
    std::cout << o.str();
  else
    std::ofstream(out) << o.str();
  _exit(en.violations.empty() ? (en.incomplete.empty() ? 0 : 2) : 1);
}
