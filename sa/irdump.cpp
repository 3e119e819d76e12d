// Dumps an LLVM module (bitcode) as JSON for the Python analyses.
// Usage: irdump in.bc out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
using namespace llvm;
using json::Array; using json::Object;

typedef llvm::json::Value JV;
static const DataLayout *DL;
static std::map<const llvm::Value*, int> Ids;

static std::string tyStr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) if (S->hasName()) return S->getName().str();
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

static json::Value intVal(const APInt &A) {
  if (A.getSignificantBits() <= 64) return json::Value((int64_t)A.getSExtValue());
  SmallString<40> s; A.toString(s, 10, true); return json::Value(s.str().str());
}

static JV constVal(const Constant *C);

static JV operand(const llvm::Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  if (isa<BasicBlock>(V)) return Array{"b", Ids[V]};
  if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int)A->getArgNo()};
  if (isa<MetadataAsValue>(V)) return Array{"m"};
  if (isa<InlineAsm>(V)) return Array{"asm"};
  return Array{"v", Ids[V]};
}

static JV gepInfo(const GEPOperator *G) {
  // [srcty, inbounds-steps...] ; step: ["f", structname, idx, byteoff] | ["x", operand, elemsize]
  Array steps;
  Type *T = G->getSourceElementType();
  bool first = true;
  for (auto It = G->idx_begin(); It != G->idx_end(); ++It) {
    if (first) {
      steps.push_back(Array{"x", operand(*It), (int64_t)DL->getTypeAllocSize(T), tyStr(T)});
      first = false; continue;
    }
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned i = cast<ConstantInt>(*It)->getZExtValue();
      steps.push_back(Array{"f", tyStr(S), (int)i, (int64_t)DL->getStructLayout(S)->getElementOffset(i)});
      T = S->getElementType(i);
    } else {
      Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
      steps.push_back(Array{"x", operand(*It), (int64_t)DL->getTypeAllocSize(E), tyStr(E)});
      T = E;
    }
  }
  return Array{operand(G->getPointerOperand()), std::move(steps), tyStr(T)};
}

static JV constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return Array{"i", intVal(I->getValue()), (int)I->getBitWidth()};
  if (auto *F = dyn_cast<ConstantFP>(C)) { SmallString<40> s; F->getValueAPF().toString(s); return Array{"fp", s.str().str()}; }
  if (isa<ConstantPointerNull>(C)) return Array{"n"};
  if (isa<UndefValue>(C)) return Array{"u"};
  if (auto *F = dyn_cast<Function>(C)) return Array{"F", F->getName().str()};
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) return Array{"g", G->getName().str()};
  if (isa<ConstantAggregateZero>(C)) return Array{"z", tyStr(C->getType())};
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isCString()) { std::string s = D->getAsCString().str(); for (auto &c : s) if ((unsigned char)c >= 128) c = '?'; return Array{"s", s}; }
    Array a; for (unsigned i = 0; i < D->getNumElements(); ++i) a.push_back(constVal(D->getElementAsConstant(i)));
    return Array{"A", std::move(a)};
  }
  if (isa<ConstantAggregate>(C)) {
    Array a; for (auto &O : C->operands()) a.push_back(constVal(cast<Constant>(O)));
    if (auto *S = dyn_cast<StructType>(C->getType())) return Array{"S", tyStr(S), std::move(a)};
    return Array{"A", std::move(a)};
  }
  if (auto *G = dyn_cast<GEPOperator>(C)) return Array{"gep", gepInfo(G)};
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    Array a; for (auto &O : E->operands()) a.push_back(operand(O));
    return Array{"ce", E->getOpcodeName(), std::move(a)};
  }
  return Array{"?"};
}

static std::string ditype(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = D->getBaseType() ? ditype(D->getBaseType(), depth + 1) : "void";
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + "*";
      case dwarf::DW_TAG_const_type: return "const " + b;
      case dwarf::DW_TAG_typedef: return D->getName().str();
      case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type: case dwarf::DW_TAG_atomic_type: return b;
      default: return b;
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType(), depth + 1) + "[]";
    std::string k = C->getTag() == dwarf::DW_TAG_union_type ? "union " : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ";
    return k + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

static std::string relname(const std::string &f) { return f; }

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  // normalise: promote locals to registers
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass());
  for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);

  Object out; Array funcs, globals; Object structs, enums;
  for (auto &G : M->globals()) {
    Object g; g["name"] = G.getName().str(); g["internal"] = G.hasLocalLinkage(); g["const"] = G.isConstant();
    g["ty"] = tyStr(G.getValueType()); g["tls"] = G.isThreadLocal();
    if (G.getValueType()->isSized()) g["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    if (G.getValueType()->isArrayTy()) { g["nelem"] = (int64_t)G.getValueType()->getArrayNumElements(); g["elty"] = tyStr(G.getValueType()->getArrayElementType()); }
    g["init"] = G.hasInitializer() ? constVal(G.getInitializer()) : JV(nullptr);
    globals.push_back(std::move(g));
  }
  for (auto *S : M->getIdentifiedStructTypes()) {
    if (S->isOpaque()) continue;
    Array el; auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i) {
      Type *E = S->getElementType(i); int64_t n = 1; std::string et = tyStr(E); bool arr = false;
      if (E->isArrayTy()) { arr = true; n = E->getArrayNumElements(); et = tyStr(E->getArrayElementType()); E = E->getArrayElementType(); }
      el.push_back(Array{(int64_t)L->getElementOffset(i), et, arr ? n : (int64_t)-1, (int64_t)DL->getTypeAllocSize(E)});
    }
    structs[S->getName().str()] = Object{{"size", (int64_t)L->getSizeInBytes()}, {"el", std::move(el)}};
  }
  DebugInfoFinder Finder; Finder.processModule(*M);
  Object ditypes;
  for (auto *T : Finder.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        Object e; for (auto *E : C->getElements()) if (auto *X = dyn_cast<DIEnumerator>(E)) e[X->getName().str()] = intVal(X->getValue());
        std::string n = C->getName().str(); if (n.empty()) n = "anon@" + std::to_string(C->getLine()) + C->getFilename().str();
        enums[n] = std::move(e);
      } else if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
        if (C->getName().empty()) continue;
        Array mem;
        for (auto *E : C->getElements()) if (auto *X = dyn_cast<DIDerivedType>(E))
          if (X->getTag() == dwarf::DW_TAG_member)
            mem.push_back(Array{X->getName().str(), (int64_t)X->getOffsetInBits(), (int64_t)X->getSizeInBits(), ditype(X->getBaseType())});
        if (mem.empty()) continue;
        std::string k = C->getTag() == dwarf::DW_TAG_union_type ? "union." : "struct.";
        ditypes[k + C->getName().str()] = std::move(mem);
      }
    }
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    Ids.clear(); int n = 0, b = 0;
    for (auto &B : F) { Ids[&B] = b++; for (auto &I : B) Ids[&I] = n++; }
    Object f; f["name"] = F.getName().str(); f["internal"] = F.hasLocalLinkage();
    f["ret"] = tyStr(F.getReturnType()); f["vis"] = F.hasDefaultVisibility() && !F.hasLocalLinkage();
    f["vararg"] = F.isVarArg(); f["noreturn"] = F.doesNotReturn();
    if (auto *SP = F.getSubprogram()) {
      f["line"] = (int64_t)SP->getLine(); f["file"] = SP->getFilename().str(); f["dir"] = SP->getDirectory().str();
      std::vector<std::pair<std::string,std::string>> an(F.arg_size());
      Array tys; if (auto *ST = SP->getType()) { for (auto *T : ST->getTypeArray()) tys.push_back(ditype(T)); }
      f["dty"] = std::move(tys);
      Array names; std::vector<std::string> nm(F.arg_size());
      for (auto *N : SP->getRetainedNodes()) if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg() && V->getArg() <= nm.size()) nm[V->getArg()-1] = V->getName().str();
      for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) { auto *V = D->getVariable(); if (V->getArg() && V->getArg() <= nm.size() && !D->getDebugLoc()->getInlinedAt()) nm[V->getArg()-1] = V->getName().str(); }
      for (auto &s : nm) names.push_back(s);
      f["argn"] = std::move(names);
    }
    Array at; for (auto &A : F.args()) { std::string t = tyStr(A.getType()); if (A.hasByValAttr()) t = "byval " + tyStr(A.getParamByValType()); at.push_back(t); } f["args"] = std::move(at);
    Array blocks;
    for (auto &B : F) {
      Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue;
        Object o; o["i"] = Ids[&I]; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
        if (auto &Loc = I.getDebugLoc()) { o["l"] = (int64_t)Loc.getLine(); }
        if (auto *C = dyn_cast<CallBase>(&I)) {
          Array a; for (auto &A : C->args()) a.push_back(operand(A.get()));
          o["args"] = std::move(a); o["fn"] = operand(C->getCalledOperand()->stripPointerCasts());
          if (C->doesNotReturn()) o["nr"] = true;
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          Array a; for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) a.push_back(Array{Ids[P->getIncomingBlock(k)], operand(P->getIncomingValue(k))});
          o["in"] = std::move(a);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          o["gep"] = gepInfo(cast<GEPOperator>(G));
        } else if (auto *Al = dyn_cast<AllocaInst>(&I)) {
          o["aty"] = tyStr(Al->getAllocatedType()); o["asz"] = (int64_t)DL->getTypeAllocSize(Al->getAllocatedType());
          if (Al->getAllocatedType()->isArrayTy()) { o["nelem"] = (int64_t)Al->getAllocatedType()->getArrayNumElements(); }
          if (!isa<ConstantInt>(Al->getArraySize())) o["vla"] = operand(Al->getArraySize());
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          Array s; for (unsigned K = 0; K < Br->getNumSuccessors(); K++) s.push_back(Ids[Br->getSuccessor(K)]); o["succ"] = std::move(s);
          if (Br->isConditional()) o["cond"] = operand(Br->getCondition());
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          o["cond"] = operand(Sw->getCondition()); o["def"] = Ids[Sw->getDefaultDest()];
          Array cs; for (auto &K : Sw->cases()) cs.push_back(Array{intVal(K.getCaseValue()->getValue()), Ids[K.getCaseSuccessor()]}); o["cases"] = std::move(cs);
        } else {
          Array a; for (auto &O : I.operands()) a.push_back(operand(O.get())); o["args"] = std::move(a);
          if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); o["ord"] = toIRString(R->getOrdering()); }
          if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = toIRString(X->getSuccessOrdering()); o["ford"] = toIRString(X->getFailureOrdering()); o["weak"] = X->isWeak(); }
          if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) o["ord"] = toIRString(L->getOrdering()); o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()); if (L->isVolatile()) o["vol"] = true; }
          if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) o["ord"] = toIRString(S->getOrdering()); o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vty"] = tyStr(S->getValueOperand()->getType()); if (S->isVolatile()) o["vol"] = true; }
          if (auto *Fe = dyn_cast<FenceInst>(&I)) { o["ord"] = toIRString(Fe->getOrdering()); o["ss"] = (int)Fe->getSyncScopeID(); }
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { Array x; for (auto k : E->indices()) x.push_back((int)k); o["idx"] = std::move(x); }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { Array x; for (auto k : E->indices()) x.push_back((int)k); o["idx"] = std::move(x); }
          if (isa<CastInst>(&I)) o["sty"] = tyStr(I.getOperand(0)->getType());
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = OB->hasNoSignedWrap(); o["nuw"] = OB->hasNoUnsignedWrap(); }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    f["blocks"] = std::move(blocks);
    funcs.push_back(std::move(f));
  }
  Array decls; for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) decls.push_back(F.getName().str());
  out["functions"] = std::move(funcs); out["globals"] = std::move(globals); out["structs"] = std::move(structs);
  out["enums"] = std::move(enums); out["di"] = std::move(ditypes); out["decls"] = std::move(decls);
  std::error_code EC; raw_fd_ostream os(argv[2], EC); os << JV(std::move(out)); os << "\n";
  return 0;
}
