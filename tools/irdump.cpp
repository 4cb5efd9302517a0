// irdump: prints an LLVM IR module (textual .ll or bitcode) as JSON for the
// analyses in /verif/engine.  No transformation is applied.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace llvm;
using J = json::Value;
using JA = json::Array;
using JO = json::Object;

static Module* M;
static const DataLayout* DL;
static std::map<Type*, int> typeIds;
static std::vector<Type*> typeList;

static std::string tstr(Type* T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

static int tid(Type* T) {
  auto it = typeIds.find(T);
  if (it != typeIds.end())
    return it->second;
  int id = typeList.size();
  typeIds[T] = id;
  typeList.push_back(T);
  return id;
}

static std::string hexbits(const APInt& v) {
  SmallString<64> s;
  v.toStringUnsigned(s, 16);
  return std::string(s);
}

static std::string dec(const APInt& v) {
  SmallString<64> s;
  v.toStringUnsigned(s, 10);
  return std::string(s);
}

static J constant(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C))
    return JA{"c", dec(ci->getValue()), (int64_t)ci->getBitWidth()};
  if (auto* cf = dyn_cast<ConstantFP>(C))
    return JA{"f", hexbits(cf->getValueAPF().bitcastToAPInt()),
              tstr(cf->getType())};
  if (isa<ConstantPointerNull>(C))
    return JA{"n"};
  if (isa<UndefValue>(C))
    return JA{"u", tid(C->getType())};
  if (auto* gv = dyn_cast<GlobalValue>(C))
    return JA{"g", gv->getName().str(), 0};
  if (isa<ConstantAggregateZero>(C))
    return JA{"z", tid(C->getType())};
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
    JA a;
    for (auto& op : ca->operands())
      a.push_back(constant(cast<Constant>(op)));
    return JA{"agg", tid(C->getType()), std::move(a)};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    JA a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i)
      a.push_back(constant(cd->getElementAsConstant(i)));
    return JA{"agg", tid(C->getType()), std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(DL->getIndexTypeSizeInBits(ce->getType()), 0);
      auto* base =
          ce->stripAndAccumulateConstantOffsets(*DL, off, /*NonInb=*/true);
      if (auto* gv = dyn_cast<GlobalValue>(base))
        return JA{"g", gv->getName().str(), off.getSExtValue()};
      if (isa<ConstantPointerNull>(base))
        return JA{"np", off.getSExtValue()};
    }
    if (ce->isCast())
      return JA{"ce", ce->getOpcodeName(), tid(ce->getType()),
                constant(ce->getOperand(0))};
    JA a;
    for (auto& op : ce->operands())
      a.push_back(constant(cast<Constant>(op)));
    return JA{"ceo", ce->getOpcodeName(), tid(ce->getType()), std::move(a)};
  }
  return JA{"?", tstr(C->getType())};
}

static void flatten(const Constant* C, uint64_t off, JA& out) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    out.push_back(JA{(int64_t)off, (int64_t)DL->getTypeAllocSize(T).getFixedValue(),
                     isa<UndefValue>(C) ? J(JA{"u", tid(T)}) : J(JA{"z", tid(T)})});
    return;
  }
  if (auto* st = dyn_cast<StructType>(T)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(C->getAggregateElement(i),
              off + sl->getElementOffset(i).getFixedValue(), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
    for (unsigned i = 0; i < at->getNumElements(); ++i)
      flatten(C->getAggregateElement(i), off + i * es, out);
    return;
  }
  out.push_back(JA{(int64_t)off, (int64_t)DL->getTypeStoreSize(T).getFixedValue(),
                   constant(C), tid(T)});
}

int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) {
    err.print(argv[0], errs());
    return 2;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  JO root;
  root["ptr_bits"] = (int64_t)DL->getPointerSizeInBits();
  root["triple"] = M->getTargetTriple();

  JA globals;
  for (auto& g : M->globals()) {
    JO o;
    o["name"] = g.getName().str();
    o["dname"] = demangle(g.getName().str());
    o["const"] = g.isConstant();
    o["tls"] = g.isThreadLocal();
    o["ext"] = !g.hasInitializer();
    o["section"] = g.getSection().str();
    o["linkage"] = (int64_t)g.getLinkage();
    uint64_t sz = g.getValueType()->isSized()
                      ? DL->getTypeAllocSize(g.getValueType()).getFixedValue()
                      : 0;
    o["size"] = (int64_t)sz;
    o["align"] = (int64_t)(g.getAlign() ? g.getAlign()->value() : 1);
    o["type"] = tid(g.getValueType());
    if (g.hasInitializer()) {
      JA init;
      flatten(g.getInitializer(), 0, init);
      o["init"] = std::move(init);
    }
    SmallVector<DIGlobalVariableExpression*, 1> dis;
    g.getDebugInfo(dis);
    if (!dis.empty()) {
      o["file"] = dis[0]->getVariable()->getFilename().str();
      o["line"] = (int64_t)dis[0]->getVariable()->getLine();
    }
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);

  JA funcs;
  for (auto& f : *M) {
    JO o;
    o["name"] = f.getName().str();
    o["dname"] = demangle(f.getName().str());
    o["decl"] = f.isDeclaration();
    o["nounwind"] = f.doesNotThrow();
    o["noreturn"] = f.doesNotReturn();
    o["linkage"] = (int64_t)f.getLinkage();
    o["vararg"] = f.isVarArg();
    o["ret"] = tid(f.getReturnType());
    o["intrinsic"] = f.isIntrinsic();
    if (auto* sp = f.getSubprogram()) {
      o["file"] = sp->getFilename().str();
      o["line"] = (int64_t)sp->getLine();
    }
    std::map<const Value*, int> ids;
    JA params;
    for (auto& a : f.args()) {
      int id = ids.size();
      ids[&a] = id;
      JA p{id, tid(a.getType())};
      if (a.hasByValAttr())
        p.push_back((int64_t)DL->getTypeAllocSize(a.getParamByValType())
                        .getFixedValue());
      else
        p.push_back(0);
      params.push_back(std::move(p));
    }
    o["params"] = std::move(params);
    std::map<const BasicBlock*, int> bbs;
    for (auto& bb : f) {
      int id = bbs.size();
      bbs[&bb] = id;
      for (auto& i : bb)
        if (!i.getType()->isVoidTy()) {
          int id2 = ids.size();
          ids[&i] = id2;
        }
    }
    auto val = [&](const Value* v) -> J {
      auto it = ids.find(v);
      if (it != ids.end())
        return JA{"v", it->second};
      if (auto* c = dyn_cast<Constant>(v))
        return constant(c);
      if (isa<InlineAsm>(v))
        return JA{"asm"};
      return JA{"m"};
    };
    JA blocks;
    for (auto& bb : f) {
      JA insts;
      for (auto& i : bb) {
        if (isa<DbgInfoIntrinsic>(&i))
          continue;
        JO r;
        r["op"] = i.getOpcodeName();
        r["t"] = tid(i.getType());
        if (!i.getType()->isVoidTy())
          r["r"] = ids[&i];
        if (auto& dl = i.getDebugLoc()) {
          r["l"] = (int64_t)dl.getLine();
          auto* sc = cast<DIScope>(dl.getScope());
          std::string fn = sc->getFilename().str();
          r["fl"] = fn;
        }
        JA ops;
        if (auto* cb = dyn_cast<CallBase>(&i)) {
          for (auto& a : cb->args())
            ops.push_back(val(a.get()));
          r["callee"] = val(cb->getCalledOperand());
          r["nounwind"] = cb->doesNotThrow();
          r["noreturn"] = cb->doesNotReturn();
          if (auto* ii = dyn_cast<InvokeInst>(&i)) {
            r["ok"] = bbs[ii->getNormalDest()];
            r["uw"] = bbs[ii->getUnwindDest()];
          }
        } else if (auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
          MapVector<Value*, APInt> vars;
          unsigned bits = DL->getIndexTypeSizeInBits(gep->getType());
          APInt cst(bits, 0);
          if (!cast<GEPOperator>(gep)->collectOffset(*DL, bits, vars, cst))
            r["bad"] = true;
          ops.push_back(val(gep->getPointerOperand()));
          r["off"] = cst.getSExtValue();
          r["inbounds"] = gep->isInBounds();
          JA vs;
          for (auto& kv : vars)
            vs.push_back(JA{val(kv.first), kv.second.getSExtValue()});
          r["vars"] = std::move(vs);
        } else if (auto* br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) {
            ops.push_back(val(br->getCondition()));
            r["bb"] = JA{bbs[br->getSuccessor(0)], bbs[br->getSuccessor(1)]};
          } else {
            r["bb"] = JA{bbs[br->getSuccessor(0)]};
          }
        } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
          ops.push_back(val(sw->getCondition()));
          r["def"] = bbs[sw->getDefaultDest()];
          JA cs;
          for (auto& c : sw->cases())
            cs.push_back(JA{dec(c.getCaseValue()->getValue()),
                            bbs[c.getCaseSuccessor()]});
          r["cases"] = std::move(cs);
        } else if (auto* ph = dyn_cast<PHINode>(&i)) {
          JA in;
          for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
            in.push_back(JA{val(ph->getIncomingValue(k)),
                            bbs[ph->getIncomingBlock(k)]});
          r["in"] = std::move(in);
        } else {
          for (auto& a : i.operands())
            ops.push_back(val(a.get()));
        }
        r["o"] = std::move(ops);
        JA ots;
        if (!isa<PHINode>(&i))
          for (auto& a : i.operands())
            ots.push_back(tid(a->getType()));
        r["ot"] = std::move(ots);
        if (auto* c = dyn_cast<CmpInst>(&i))
          r["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto* a = dyn_cast<AllocaInst>(&i)) {
          r["asz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType())
                         .getFixedValue();
          r["align"] = (int64_t)a->getAlign().value();
          r["at"] = tid(a->getAllocatedType());
        }
        if (auto* l = dyn_cast<LoadInst>(&i)) {
          r["align"] = (int64_t)l->getAlign().value();
          r["vol"] = l->isVolatile() || l->isAtomic();
        }
        if (auto* s = dyn_cast<StoreInst>(&i)) {
          r["align"] = (int64_t)s->getAlign().value();
          r["vol"] = s->isVolatile() || s->isAtomic();
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
          JA ix;
          for (auto k : ev->indices())
            ix.push_back((int64_t)k);
          r["ix"] = std::move(ix);
        }
        if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
          JA ix;
          for (auto k : iv->indices())
            ix.push_back((int64_t)k);
          r["ix"] = std::move(ix);
        }
        if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
          r["cleanup"] = lp->isCleanup();
          JA cl;
          for (unsigned k = 0; k < lp->getNumClauses(); ++k)
            cl.push_back(JA{lp->isCatch(k) ? "catch" : "filter",
                            val(lp->getClause(k))});
          r["clauses"] = std::move(cl);
        }
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) {
          JA ix;
          for (int k : sv->getShuffleMask())
            ix.push_back((int64_t)k);
          r["ix"] = std::move(ix);
        }
        if (isa<OverflowingBinaryOperator>(&i)) {
          r["nuw"] = i.hasNoUnsignedWrap();
          r["nsw"] = i.hasNoSignedWrap();
        }
        if (auto* cx = dyn_cast<AtomicRMWInst>(&i))
          r["rmw"] = AtomicRMWInst::getOperationName(cx->getOperation()).str();
        insts.push_back(std::move(r));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    funcs.push_back(std::move(o));
  }
  root["functions"] = std::move(funcs);

  JA types;
  for (size_t k = 0; k < typeList.size(); ++k) {
    Type* T = typeList[k];
    JO o;
    o["s"] = tstr(T);
    if (T->isSized() && !T->isScalableTy()) {
      o["size"] = (int64_t)DL->getTypeAllocSize(T).getFixedValue();
      o["store"] = (int64_t)DL->getTypeStoreSize(T).getFixedValue();
      o["align"] = (int64_t)DL->getABITypeAlign(T).value();
    }
    if (T->isIntegerTy()) {
      o["k"] = "i";
      o["w"] = (int64_t)T->getIntegerBitWidth();
    } else if (T->isFloatingPointTy()) {
      o["k"] = "f";
    } else if (T->isPointerTy()) {
      o["k"] = "p";
    } else if (auto* st = dyn_cast<StructType>(T)) {
      o["k"] = "s";
      JA el;
      if (!st->isOpaque()) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
          el.push_back(JA{tid(st->getElementType(i)),
                          (int64_t)sl->getElementOffset(i).getFixedValue()});
      }
      o["e"] = std::move(el);
    } else if (auto* at = dyn_cast<ArrayType>(T)) {
      o["k"] = "a";
      o["n"] = (int64_t)at->getNumElements();
      o["et"] = tid(at->getElementType());
    } else if (auto* vt = dyn_cast<FixedVectorType>(T)) {
      o["k"] = "v";
      o["n"] = (int64_t)vt->getNumElements();
      o["et"] = tid(vt->getElementType());
    } else {
      o["k"] = "o";
    }
    types.push_back(std::move(o));
  }
  root["types"] = std::move(types);
  outs() << J(std::move(root)) << "\n";
  return 0;
}
