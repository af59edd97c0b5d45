// irdump: read LLVM bitcode/IR (after sroa), print one JSON document describing
// every function body, every global initialiser and every debug-info record type.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/FileSystem.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;
static std::map<const Value*, int> ids;
static const DataLayout *DL;
static json::Value jint(int64_t v) { return json::Value(v); }
static std::string fname(const Function *F) {
  if (auto *sp = F->getSubprogram()) {
    // method: qualify
    std::string n = sp->getName().str();
    if (auto *sc = dyn_cast_or_null<DICompositeType>(sp->getScope()))
      n = sc->getName().str() + "::" + n;
    return n;
  }
  std::string n = F->getName().str();
  if (n.rfind("_Z", 0) == 0) {
    ItaniumPartialDemangler D;
    if (!D.partialDemangle(n.c_str())) {
      size_t sz = 0;
      char *b = D.getFunctionName(nullptr, &sz);
      if (b) { std::string r = b; free(b); return r; }
    }
  }
  return n;
}
static json::Value opnd(const Value *V);
static bool constOff(const GEPOperator *G, APInt &off) { return G->accumulateConstantOffset(*DL, off); }
static json::Value cst(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    json::Object o;
    if (I->getBitWidth() <= 64) o["c"] = jint(I->getSExtValue()); else o["c"] = jint(0);
    o["w"] = jint(I->getBitWidth());
    return std::move(o);
  }
  if (isa<ConstantPointerNull>(C)) return json::Object{{"c", 0}, {"w", 64}};
  if (isa<UndefValue>(C)) return json::Object{{"u", 1}};
  if (auto *F = dyn_cast<Function>(C)) return json::Object{{"f", fname(F)}, {"ln", F->getName()}};
  if (auto *A = dyn_cast<GlobalAlias>(C)) return cst(A->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Object{{"g", G->getName()}};
  if (auto *F = dyn_cast<ConstantFP>(C)) { (void)F; return json::Object{{"fp", 1}}; }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) {
      APInt off(64, 0);
      if (constOff(G, off)) {
        json::Object o;
        o["e"] = "gep"; o["b"] = opnd(G->getPointerOperand()); o["o"] = jint(off.getSExtValue());
        return std::move(o);
      }
    }
    if (E->isCast()) return json::Object{{"e", "cast"}, {"b", opnd(E->getOperand(0))}};
    json::Array a; for (auto &op : E->operands()) a.push_back(opnd(op));
    return json::Object{{"e", E->getOpcodeName()}, {"a", std::move(a)}};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Object{{"z", 1}};
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString()) return json::Object{{"s", json::fixUTF8(D->getAsString())}};
  }
  return json::Object{{"x", "const"}};
}
static json::Value opnd(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return cst(C);
  if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"a", (int)A->getArgNo()}};
  if (isa<InlineAsm>(V)) return json::Object{{"asm", cast<InlineAsm>(V)->getAsmString()}};
  auto it = ids.find(V);
  if (it != ids.end()) return json::Object{{"i", it->second}};
  return json::Object{{"x", "val"}};
}
static void flatten(const Constant *C, int64_t off, json::Array &out) {
  Type *T = C->getType();
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < CS->getNumOperands(); i++) flatten(CS->getOperand(i), off + (int64_t)SL->getElementOffset(i), out);
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    int64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flatten(CA->getOperand(i), off + es * i, out);
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (!CD->isString() && CD->getElementType()->isIntegerTy()) {
      int64_t es = CD->getElementByteSize();
      for (unsigned i = 0; i < CD->getNumElements(); i++)
        out.push_back(json::Array{off + es * i, json::Object{{"c", (int64_t)CD->getElementAsInteger(i)}, {"w", (int)(es * 8)}}});
      return;
    }
  }
  out.push_back(json::Array{off, cst(C), (int64_t)DL->getTypeStoreSize(T)});
}
static std::string typeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: {
      // resolve typedef of anonymous record to typedef name, else to the record name
      std::string u = typeName(D->getBaseType());
      if (u.empty()) return D->getName().str();
      return u;
    }
    case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type: return typeName(D->getBaseType()) + "*";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_atomic_type: return typeName(D->getBaseType());
    case dwarf::DW_TAG_member: return typeName(D->getBaseType());
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return typeName(C->getBaseType()) + "[]";
    if (!C->getName().empty()) return C->getName().str();
    return "";
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) break;
    T = D->getBaseType();
  }
  return T;
}
static void members(const DICompositeType *C, int64_t base, const std::string &prefix, json::Array &out, int depth) {
  if (depth > 6) return;
  for (auto *E : C->getElements()) {
    auto *M = dyn_cast_or_null<DIDerivedType>(E);
    if (!M || (M->getTag() != dwarf::DW_TAG_member && M->getTag() != dwarf::DW_TAG_inheritance)) continue;
    if (M->isStaticMember()) continue;
    int64_t off = base + (int64_t)M->getOffsetInBits();
    std::string n = M->getName().str();
    std::string full = n.empty() ? prefix : (prefix.empty() ? n : prefix + "." + n);
    const DIType *u = strip(M->getBaseType());
    auto *uc = dyn_cast_or_null<DICompositeType>(u);
    int64_t cnt = 0; int64_t esz = 0;
    if (uc && uc->getTag() == dwarf::DW_TAG_array_type) {
      cnt = -1;
      esz = (int64_t)(uc->getBaseType() ? uc->getBaseType()->getSizeInBits() : 0);
    }
    if (!n.empty())
      out.push_back(json::Array{full, off, (int64_t)M->getSizeInBits(), typeName(M->getBaseType()), (bool)M->isBitField(), cnt, esz});
    if (uc && uc->getTag() != dwarf::DW_TAG_array_type && uc->getTag() != dwarf::DW_TAG_enumeration_type)
      members(uc, off, full, out, depth + 1);
  }
}
// --inline in.bc out.bc names: a file-local helper no rule names that is handed the
// address of a local variable is expanded in its caller, so that the variable stays
// a plain local.
static int expand(char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[2], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  std::set<std::string> keep; { std::ifstream f(argv[4]); std::string s; while (f >> s) keep.insert(s); }
  // which record the first member read or written belongs to (the expansion drops it)
  auto first = [](Value *P) -> StructType * {
    auto *G = dyn_cast<GetElementPtrInst>(P);
    return G && G->hasAllZeroIndices() && G->getNumIndices() > 1 ? dyn_cast<StructType>(G->getSourceElementType()) : nullptr;
  };
  for (auto &F : *M) for (auto &B : F) for (auto &I : B)
    if (isa<LoadInst>(I) || isa<StoreInst>(I))
      if (auto *T = first(getLoadStorePointerOperand(&I))) if (T->hasName()) I.setMetadata("verif.rec", MDNode::get(ctx, MDString::get(ctx, T->getName())));
  for (int round = 0; round < 4; round++) {
    std::vector<CallBase *> todo;
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || isa<IntrinsicInst>(C)) continue;
      auto *G = C->getCalledFunction();
      if (!G || G->isDeclaration() || !(G->hasInternalLinkage() || G->hasLinkOnceODRLinkage()) || G == &F || G->isVarArg()) continue;
      std::string n = demangle(G->getName().str());
      if (n.find("::operator()") == std::string::npos) n = n.substr(0, n.find('('));
      if (keep.count(n)) continue;
      bool rec = false;
      for (auto &B2 : *G) for (auto &J : B2) if (auto *D = dyn_cast<CallBase>(&J)) if (D->getCalledFunction() == G || D->getCalledFunction() == &F) rec = true;
      if (rec) continue;
      bool loc = false;
      for (auto &A : C->args()) if (A->getType()->isPointerTy()) if (auto *L = dyn_cast<AllocaInst>(A->stripPointerCasts())) {
        auto *T = L->getAllocatedType();
        if (T->isSingleValueType() || (T->isStructTy() && cast<StructType>(T)->hasName() && cast<StructType>(T)->getName().starts_with("class.anon"))) loc = true;
      }
      if (loc) todo.push_back(C);
    }
    if (todo.empty()) break;
    for (auto *C : todo) {
      auto *G = C->getCalledFunction();
      if (getenv("IRDUMP_VERBOSE")) errs() << "expand " << G->getName() << " in " << C->getFunction()->getName() << "\n";
      InlineFunctionInfo IFI;
      if (!InlineFunction(*C, IFI, false, nullptr, false).isSuccess()) continue;
      if (G->use_empty()) G->eraseFromParent();
    }
  }
  for (auto &F : *M) for (auto &B : F) for (auto &I : B)
    if (auto *N = I.getMetadata("verif.rec")) {
      auto *T = StructType::getTypeByName(ctx, cast<MDString>(N->getOperand(0))->getString());
      auto *P = getLoadStorePointerOperand(&I);
      I.setMetadata("verif.rec", nullptr);
      if (!T || first(P)) continue;
      auto *Z = ConstantInt::get(Type::getInt32Ty(ctx), 0);
      auto *G = GetElementPtrInst::CreateInBounds(T, P, {Z, Z}, "", &I);
      if (auto *L = dyn_cast<LoadInst>(&I)) L->setOperand(0, G); else I.setOperand(1, G);
    }
  std::error_code ec; raw_fd_ostream o(argv[3], ec);
  if (ec) return 2;
  WriteBitcodeToFile(*M, o);
  return 0;
}
int main(int argc, char **argv) {
  if (argc == 5 && std::string(argv[1]) == "--inline") return expand(argv);
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::Object root;
  json::Object types, typedefs, enums;
  DebugInfoFinder fin; fin.processModule(*M);
  for (auto *T : fin.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        for (auto *E : C->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(E)) enums[en->getName().str()] = en->getValue().getSExtValue();
        continue;
      }
      if (C->getTag() == dwarf::DW_TAG_array_type || C->isForwardDecl() || C->getName().empty()) continue;
      json::Array f; members(C, 0, "", f, 0);
      types[C->getName().str()] = json::Object{{"size", (int64_t)C->getSizeInBits() / 8}, {"fields", std::move(f)}};
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef) {
        auto *u = dyn_cast_or_null<DICompositeType>(strip(D));
        if (u && u->getTag() != dwarf::DW_TAG_array_type && u->getTag() != dwarf::DW_TAG_enumeration_type) {
          typedefs[D->getName().str()] = u->getName().empty() ? D->getName().str() : u->getName().str();
          if (u->getName().empty() && !u->isForwardDecl()) {
            json::Array f; members(u, 0, "", f, 0);
            types[D->getName().str()] = json::Object{{"size", (int64_t)u->getSizeInBits() / 8}, {"fields", std::move(f)}};
          }
        }
      }
    }
  }
  root["types"] = std::move(types); root["typedefs"] = std::move(typedefs); root["enums"] = std::move(enums);
  json::Object globals;
  for (auto &G : M->globals()) {
    json::Object g; g["const"] = G.isConstant(); g["internal"] = G.hasLocalLinkage(); g["tls"] = G.isThreadLocal();
    g["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> dbg; G.getDebugInfo(dbg);
    if (!dbg.empty()) { g["name"] = dbg[0]->getVariable()->getName().str(); g["type"] = typeName(dbg[0]->getVariable()->getType());
       g["line"] = (int)dbg[0]->getVariable()->getLine(); }
    if (G.hasInitializer()) { json::Array a; flatten(G.getInitializer(), 0, a); g["init"] = std::move(a); }
    globals[G.getName().str()] = std::move(g);
  }
  root["globals"] = std::move(globals);
  json::Array fns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    json::Object fo; fo["name"] = fname(&F); fo["ln"] = F.getName().str(); fo["internal"] = F.hasLocalLinkage();
    if (auto *sp = F.getSubprogram()) {
      fo["line"] = (int)sp->getLine(); fo["file"] = sp->getFilename().str();
      json::Array pt; bool first = true;
      if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) { pt.push_back(typeName(t)); first = false; }
      (void)first; fo["sig"] = std::move(pt);
    }
    fo["nargs"] = (int)F.arg_size();
    { json::Array an; for (auto &A : F.args()) an.push_back(A.getName()); fo["args"] = std::move(an); }
    ids.clear(); int n = 0; std::map<const BasicBlock *, int> bid; int b = 0;
    for (auto &BB : F) { bid[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    json::Array blocks;
    for (auto &BB : F) {
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["i"] = ids[&I];
        if (auto &L = I.getDebugLoc()) { o["l"] = (int)L.getLine(); 
          std::string fn = L->getFilename().str(); o["sf"] = fn; }
        Type *T = I.getType();
        if (T->isIntegerTy()) o["w"] = (int)T->getIntegerBitWidth(); else if (T->isPointerTy()) o["w"] = 64;
        if (T->isPointerTy()) o["p"] = 1;
        o["k"] = I.getOpcodeName();
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
          o["sz"] = A->isArrayAllocation() ? (int64_t)-1 : (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
          o["nm"] = A->getName();
          if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) if (ST->hasName()) o["st"] = ST->getName();
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          o["a"] = json::Array{opnd(Ld->getPointerOperand())}; o["sz"] = (int64_t)DL->getTypeStoreSize(T);
          if (Ld->isAtomic()) o["at"] = 1; if (Ld->isVolatile()) o["vo"] = 1;
        } else if (auto *St = dyn_cast<StoreInst>(&I)) {
          o["a"] = json::Array{opnd(St->getValueOperand()), opnd(St->getPointerOperand())};
          o["sz"] = (int64_t)DL->getTypeStoreSize(St->getValueOperand()->getType());
          if (St->isAtomic()) o["at"] = 1; if (St->isVolatile()) o["vo"] = 1;
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> var; APInt off(64, 0);
          bool ok = cast<GEPOperator>(G)->collectOffset(*DL, 64, var, off);
          o["a"] = json::Array{opnd(G->getPointerOperand())}; o["o"] = ok ? off.getSExtValue() : 0;
          if (!ok) o["bad"] = 1;
          json::Array va; for (auto &kv : var) va.push_back(json::Array{opnd(kv.first), kv.second.getSExtValue()});
          o["v"] = std::move(va);
          if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if (ST->hasName()) o["st"] = ST->getName();
          o["inb"] = G->isInBounds();
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          json::Array a; for (auto &x : C->args()) a.push_back(opnd(x));
          o["a"] = std::move(a);
          if (auto *cf = C->getCalledFunction()) { o["f"] = fname(cf); o["ln"] = cf->getName(); if (cf->isIntrinsic()) o["intr"] = 1; if (cf->doesNotReturn()) o["nr"] = 1; }
          else o["cv"] = opnd(C->getCalledOperand());
          if (C->doesNotReturn()) o["nr"] = 1;
          if (auto *V = dyn_cast<InvokeInst>(&I)) { o["nd"] = bid[V->getNormalDest()]; }
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { o["a"] = json::Array{opnd(Br->getCondition())}; o["t"] = json::Array{bid[Br->getSuccessor(0)], bid[Br->getSuccessor(1)]}; }
          else o["t"] = json::Array{bid[Br->getSuccessor(0)]};
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          o["a"] = json::Array{opnd(Sw->getCondition())}; o["d"] = bid[Sw->getDefaultDest()];
          json::Array cs; for (auto &c : Sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          o["cs"] = std::move(cs);
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array in; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) in.push_back(json::Array{bid[P->getIncomingBlock(k)], opnd(P->getIncomingValue(k))});
          o["in"] = std::move(in);
        } else if (auto *X = dyn_cast<CmpInst>(&I)) {
          o["pr"] = CmpInst::getPredicateName(X->getPredicate()); o["a"] = json::Array{opnd(X->getOperand(0)), opnd(X->getOperand(1))};
          if (X->getOperand(0)->getType()->isIntegerTy()) o["ow"] = (int)X->getOperand(0)->getType()->getIntegerBitWidth(); else o["ow"] = 64;
        } else {
          json::Array a; for (auto &x : I.operands()) a.push_back(opnd(x)); o["a"] = std::move(a);
          if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["rop"] = AtomicRMWInst::getOperationName(R->getOperation()); o["sz"] = (int64_t)DL->getTypeStoreSize(R->getValOperand()->getType()); }
          if (auto *R = dyn_cast<AtomicCmpXchgInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(R->getNewValOperand()->getType()); }
          if (auto *R = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : R->indices()) ix.push_back((int)k); o["ix"] = std::move(ix); }
          if (auto *R = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : R->indices()) ix.push_back((int)k); o["ix"] = std::move(ix); }
          if (I.isCast()) { Type *S = I.getOperand(0)->getType(); if (S->isIntegerTy()) o["ow"] = (int)S->getIntegerBitWidth(); else if (S->isPointerTy()) o["ow"] = 64; }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    fns.push_back(std::move(fo));
  }
  root["functions"] = std::move(fns);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
