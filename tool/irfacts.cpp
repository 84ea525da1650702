// irfacts: dump LLVM IR (after mem2reg) of one bitcode file as JSON facts for the python analyses.
// usage: irfacts IN.bc OUT.json [KNOWN.txt]
// Functions not listed in KNOWN.txt (the functions of the reference tree) and defined in IN.bc are
// inlined into their callers first, so that extracting a helper does not change what the rules see.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <fstream>
#include <string>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string tyStr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) if (S->hasName()) return S->getName().str();
  std::string s; raw_string_ostream os(s);
  if (auto *A = dyn_cast<ArrayType>(T)) { os << "[" << A->getNumElements() << " x " << tyStr(A->getElementType()) << "]"; return os.str(); }
  T->print(os, false, true); return os.str();
}
struct Dumper {
  Module &M; const DataLayout &DL; raw_ostream &O;
  std::map<const Value*, int> ids; int next = 0;
  Dumper(Module &M, raw_ostream &O) : M(M), DL(M.getDataLayout()), O(O) {}
  std::string constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<32> s; CI->getValue().toString(s, 10, CI->getBitWidth() > 1);
      return "{\"i\":" + std::string(s.str()) + "}";
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      char b[64]; APFloat v = F->getValueAPF(); bool li; 
      v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      snprintf(b, 64, "%.17g", v.convertToDouble());
      return std::string("{\"f\":\"") + b + "\"}";
    }
    if (isa<ConstantPointerNull>(C)) return "{\"n\":0}";
    if (isa<UndefValue>(C)) return "{\"u\":0}";
    if (auto *F = dyn_cast<Function>(C)) return "{\"fn\":" + esc(fname(F)) + "}";
    if (auto *G = dyn_cast<GlobalVariable>(C)) return "{\"g\":" + esc(gname(G)) + "}";
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        auto *G = cast<GEPOperator>(CE);
        std::string s = "{\"ge\":[" + esc(tyStr(G->getSourceElementType())) + "," + constant(cast<Constant>(G->getPointerOperand())) + ",[";
        bool f = true;
        for (auto &I : G->indices()) { if (!f) s += ","; f = false; s += constant(cast<Constant>(I.get())); }
        return s + "]]}";
      }
      std::string s = "{\"ce\":[" + esc(CE->getOpcodeName()) + ",[";
      for (unsigned i = 0; i < CE->getNumOperands(); i++) { if (i) s += ","; s += constant(CE->getOperand(i)); }
      return s + "]]}";
    }
    if (auto *DA = dyn_cast<ConstantDataSequential>(C)) {
      if (DA->isCString()) return "{\"s\":" + esc(DA->getAsCString()) + "}";
      std::string s = "{\"a\":[";
      for (unsigned i = 0; i < DA->getNumElements(); i++) { if (i) s += ","; s += constant(DA->getElementAsConstant(i)); }
      return s + "]}";
    }
    if (isa<ConstantAggregateZero>(C)) {
      if (auto *AT = dyn_cast<ArrayType>(C->getType())) {
        if (AT->getElementType()->isIntegerTy(8) && false) return "{\"s\":\"\"}";
        if (AT->getNumElements() <= 4096) {
          std::string s = "{\"a\":[";
          std::string e = constant(Constant::getNullValue(AT->getElementType()));
          for (uint64_t i = 0; i < AT->getNumElements(); i++) { if (i) s += ","; s += e; }
          return s + "]}";
        }
      }
      return "{\"z\":0}";
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      std::string s = "{\"a\":[";
      for (unsigned i = 0; i < CA->getNumOperands(); i++) { if (i) s += ","; s += constant(CA->getOperand(i)); }
      return s + "]}";
    }
    return "{\"x\":0}";
  }
  std::string fname(const Function *F) { return F->getName().str(); }
  std::string gname(const GlobalVariable *G) { return G->getName().str(); }
  std::string val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (isa<MetadataAsValue>(V)) return "{\"m\":0}";
    if (isa<InlineAsm>(V)) return "{\"asm\":0}";
    auto it = ids.find(V);
    if (it == ids.end()) return "{\"?\":0}";
    return std::to_string(it->second);
  }
  void structs() {
    // field names by struct name through debug info
    DebugInfoFinder Fd; Fd.processModule(M);
    std::map<std::string, const DICompositeType*> comp;
    for (auto *T : Fd.types()) {
      if (auto *D = dyn_cast<DIDerivedType>(T)) {
        if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
            if (C->getTag() == dwarf::DW_TAG_structure_type && C->getName().empty()) comp["struct." + D->getName().str()] = C;
      } else if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (!C->getName().empty() && (C->getTag() == dwarf::DW_TAG_structure_type)) comp["struct." + C->getName().str()] = C;
      }
    }
    O << "\"structs\":{";
    bool first = true;
    for (StructType *S : M.getIdentifiedStructTypes()) {
      if (S->isOpaque() || !S->hasName()) continue;
      auto it = comp.find(S->getName().str());
      if (!first) O << ",\n"; first = false;
      O << esc(S->getName()) << ":[";
      const StructLayout *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) {
        std::string nm = "f" + std::to_string(i);
        if (it != comp.end() && it->second->getElements())
          for (auto *E : it->second->getElements())
            if (auto *D = dyn_cast_or_null<DIDerivedType>(E))
              if (D->getTag() == dwarf::DW_TAG_member && D->getOffsetInBits() == L->getElementOffsetInBits(i)) nm = D->getName().str();
        if (i) O << ",";
        O << "[" << esc(nm) << "," << esc(tyStr(S->getElementType(i))) << "," << L->getElementOffset(i).getFixedValue() << "]";
      }
      O << "]";
    }
    O << "},\n\"enums\":{";
    first = true;
    for (auto *T : Fd.types())
      if (auto *C = dyn_cast<DICompositeType>(T))
        if (C->getTag() == dwarf::DW_TAG_enumeration_type)
          for (auto *E : C->getElements())
            if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
              if (!first) O << ","; first = false;
              O << esc(En->getName()) << ":" << En->getValue().getSExtValue();
            }
    O << "},\n\"sizes\":{";
    first = true;
    for (StructType *S : M.getIdentifiedStructTypes()) {
      if (S->isOpaque() || !S->hasName()) continue;
      if (!first) O << ","; first = false;
      O << esc(S->getName()) << ":" << DL.getTypeAllocSize(S).getFixedValue();
    }
    O << "},\n";
  }
  void func(Function &F) {
    ids.clear(); next = 0;
    auto *SP = F.getSubprogram();
    O << "{\"name\":" << esc(fname(&F)) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0)
      << ",\"file\":" << esc(SP ? SP->getFilename() : "") << ",\"line\":" << (SP ? SP->getLine() : 0)
      << ",\"ret\":" << esc(tyStr(F.getReturnType())) << ",\"vararg\":" << (F.isVarArg() ? 1 : 0) << ",\"args\":[";
    bool first = true;
    for (auto &A : F.args()) {
      ids[&A] = next++;
      if (!first) O << ","; first = false;
      O << "[" << esc(A.getName()) << "," << esc(tyStr(A.getType())) << "]";
    }
    O << "],\"argdi\":[";
    if (SP) {
      first = true;
      if (auto *ST = SP->getType()) {
        auto arr = ST->getTypeArray();
        for (unsigned i = 1; i < arr.size(); i++) {
          if (!first) O << ","; first = false;
          O << esc(ditype(arr[i]));
        }
      }
    }
    O << "]";
    if (SP && SP->getType() && SP->getType()->getTypeArray().size() > 0) O << ",\"retdi\":" << esc(ditype(SP->getType()->getTypeArray()[0]));
    std::map<const BasicBlock*, int> bb; int nb = 0;
    for (auto &B : F) { bb[&B] = nb++; for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = next++; }
    // names
    O << ",\"names\":{";
    first = true; std::set<std::pair<int,std::string>> seen;
    for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (D->getNumVariableLocationOps() != 1) continue;
      Value *V = D->getVariableLocationOp(0); if (!V || isa<Constant>(V)) continue;
      auto it = ids.find(V); if (it == ids.end()) continue;
      auto *Var = D->getVariable();
      std::string nm = Var->getName().str();
      if (!seen.insert({it->second, ""}).second) continue;
      if (!first) O << ","; first = false;
      O << "\"" << it->second << "\":[" << esc(nm) << "," << esc(Var->getType() ? ditype(Var->getType()) : "") << "]";
    }
    O << "},\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) O << ",\n"; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (!fi) O << ",\n"; fi = false;
        int line = 0; std::string file;
        if (auto &L = I.getDebugLoc()) { line = L.getLine(); if (SP && L->getFilename() != SP->getFilename()) file = L->getFilename().str(); }
        O << "[" << esc(I.getOpcodeName()) << "," << ids[&I] << "," << esc(tyStr(I.getType())) << "," << line << ",";
        if (auto *A = dyn_cast<AllocaInst>(&I)) O << esc(tyStr(A->getAllocatedType())) << "," << val(A->getArraySize());
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          O << esc(tyStr(G->getSourceElementType())) << "," << val(G->getPointerOperand()) << ",[";
          bool f = true; for (auto &X : G->indices()) { if (!f) O << ","; f = false; O << val(X); }
          O << "]";
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          O << val(C->getCalledOperand()) << ",[";
          bool f = true; for (auto &X : C->args()) { if (!f) O << ","; f = false; O << val(X); }
          O << "]";
          if (auto *IV = dyn_cast<InvokeInst>(&I)) O << "," << bb[IV->getNormalDest()] << "," << bb[IV->getUnwindDest()];
          else if (C->doesNotReturn()) O << ",\"noreturn\"";
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) O << val(Br->getCondition()) << "," << bb[Br->getSuccessor(0)] << "," << bb[Br->getSuccessor(1)];
          else O << "null," << bb[Br->getSuccessor(0)];
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          O << val(Sw->getCondition()) << "," << bb[Sw->getDefaultDest()] << ",[";
          bool f = true; for (auto &c : Sw->cases()) { if (!f) O << ","; f = false; O << "[" << c.getCaseValue()->getSExtValue() << "," << bb[c.getCaseSuccessor()] << "]"; }
          O << "]";
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          O << "[";
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(P->getIncomingValue(i)) << "," << bb[P->getIncomingBlock(i)] << "]"; }
          O << "]";
        } else if (auto *Cm = dyn_cast<CmpInst>(&I)) O << esc(CmpInst::getPredicateName(Cm->getPredicate())) << "," << val(I.getOperand(0)) << "," << val(I.getOperand(1));
        else {
          O << "[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; 
             if (isa<BasicBlock>(I.getOperand(i))) O << "{\"bb\":" << bb[cast<BasicBlock>(I.getOperand(i))] << "}"; else O << val(I.getOperand(i)); }
          O << "]";
          if (isa<StoreInst>(I)) O << "," << esc(tyStr(I.getOperand(0)->getType()));
          if (isa<CastInst>(I)) O << "," << esc(tyStr(I.getOperand(0)->getType()));
        }
        if (!file.empty()) O << ",{\"file\":" << esc(file) << "}";
        O << "]";
      }
      O << "]";
    }
    O << "]}";
  }
  std::string ditype(const Metadata *T0, int depth = 0) {
    auto *T = dyn_cast_or_null<DIType>(T0);
    if (!T) return "void"; if (depth > 6) return "...";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_const_type: return "const " + ditype(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return D->getName().str();
      default: return ditype(D->getBaseType(), depth + 1);
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType(), depth + 1) + "[]";
    }
    return T->getName().str();
  }
  void run() {
    O << "{\"source\":" << esc(M.getSourceFileName()) << ",\n";
    structs();
    O << "\"globals\":[";
    bool first = true;
    for (auto &G : M.globals()) {
      if (!first) O << ",\n"; first = false;
      std::string scope, di, file; unsigned line = 0;
      SmallVector<DIGlobalVariableExpression*, 1> DIs; G.getDebugInfo(DIs);
      for (auto *E : DIs) { auto *V = E->getVariable(); line = V->getLine(); file = V->getFilename().str(); di = V->getType() ? ditype(V->getType()) : "";
        if (auto *S = dyn_cast_or_null<DILocalScope>(V->getScope())) scope = S->getSubprogram()->getName().str(); 
        if (scope.empty()) scope = ""; }
      std::string nm = DIs.empty() ? "" : DIs[0]->getVariable()->getName().str();
      O << "{\"name\":" << esc(gname(&G)) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0)
        << ",\"decl\":" << (G.isDeclaration() ? 1 : 0) << ",\"ty\":" << esc(tyStr(G.getValueType())) << ",\"di\":" << esc(di) << ",\"var\":" << esc(nm) << ",\"scope\":" << esc(scope)
        << ",\"file\":" << esc(file) << ",\"line\":" << line << ",\"init\":" << (G.hasInitializer() ? constant(G.getInitializer()) : "null") << "}";
    }
    O << "],\n\"decls\":[";
    first = true;
    for (auto &F : M) if (F.isDeclaration()) { if (!first) O << ","; first = false; O << esc(fname(&F)); }
    O << "],\n\"functions\":[";
    first = true;
    for (auto &F : M) { if (F.isDeclaration()) continue; if (!first) O << ",\n"; first = false; func(F); }
    O << "]}\n";
  }
};
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irfacts", errs()); return 2; }
  std::set<std::string> known; bool haveKnown = false;
  if (argc > 3) { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) known.insert(l); haveKnown = !known.empty(); }
  bool any = false;
  if (haveKnown)
    for (auto &F : *M) if (!F.isDeclaration() && !known.count(F.getName().str()) && !F.isVarArg()) {
      bool self = false;
      for (auto &B : F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (CB->getCalledFunction() == &F) self = true;
      if (self) continue;
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline); any = true;
    }
  for (auto &F : *M) F.removeFnAttr(Attribute::OptimizeNone);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (any) MPM.addPass(AlwaysInlinerPass(false));
  MPM.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
  MPM.run(*M, MAM);
  std::error_code EC; raw_fd_ostream O(argv[2], EC);
  Dumper D(*M, O); D.run();
  return 0;
}
