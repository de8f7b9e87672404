#include "common.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IR/PassManager.h"

namespace vcsa {
static std::string RepoRoot;
void setRepoRoot(const std::string &r) { RepoRoot = r; }

std::string baseFile(const std::string &p) {
  auto i = p.rfind('/');
  return i == std::string::npos ? p : p.substr(i + 1);
}

static std::string subFile(const DISubprogram *SP) {
  std::string f = SP->getFilename().str();
  if (!f.empty() && f[0] != '/') f = SP->getDirectory().str() + "/" + f;
  return f;
}

bool isRepoFunc(const Function *F) {
  if (!F || F->isDeclaration()) return false;
  const DISubprogram *SP = F->getSubprogram();
  if (!SP) return false;
  return subFile(SP).rfind(RepoRoot, 0) == 0;
}

std::string demangled(const Function *F) { return llvm::demangle(F->getName().str()); }

static std::string stripParams(std::string d) {
  // cut at the first '(' that is not part of "operator()"
  size_t p = 0;
  int angle = 0;
  for (size_t i = 0; i < d.size(); i++) {
    if (d[i] == '<' && !(i >= 8 && d.substr(i - 8, 8) == "operator")) angle++;
    else if (d[i] == '>' && angle > 0) angle--;
    else if (d[i] == '(' && angle == 0) {
      if (i >= 8 && d.substr(i - 8, 8) == "operator") { i++; continue; }
      p = i; break;
    }
  }
  if (p) d = d.substr(0, p);
  auto b = d.find("[abi:");
  if (b != std::string::npos) d = d.substr(0, b);
  return d;
}

std::string shortName(const Function *F) { return stripParams(demangled(F)); }

bool isOutlined(const Function *F) { return F->getName().contains("omp_outlined"); }

std::string funcKey(const Function *F) {
  return stripParams(demangled(F));
}

bool debugLoc(const Instruction *I, std::string &file, unsigned &line) {
  const DebugLoc &D = I->getDebugLoc();
  if (!D) {
    // nearest located instruction in the block
    for (const Instruction *J = I; J; J = J->getPrevNode())
      if (J->getDebugLoc()) { line = J->getDebugLoc().getLine(); file = cast<DIScope>(J->getDebugLoc().getScope())->getFilename().str(); return true; }
    if (auto *SP = I->getFunction()->getSubprogram()) { line = SP->getLine(); file = SP->getFilename().str(); return true; }
    return false;
  }
  line = D.getLine();
  file = cast<DIScope>(D.getScope())->getFilename().str();
  return true;
}

std::string where(const Instruction *I) {
  std::string f; unsigned l = 0;
  if (!debugLoc(I, f, l)) return "?";
  return baseFile(f) + ":" + std::to_string(l);
}

const Function *calleeOf(const CallBase *CB) {
  const Value *V = CB->getCalledOperand()->stripPointerCasts();
  if (auto *A = dyn_cast<GlobalAlias>(V)) V = A->getAliaseeObject();
  return dyn_cast_or_null<Function>(V);
}

std::string varName(const Value *V, const Function *F) {
  if (!V) return "";
  SmallVector<DbgVariableIntrinsic *, 4> users;
  findDbgUsers(users, const_cast<Value *>(V));
  const DILocalVariable *best = nullptr; // the first variable that the value was given to
  for (auto *D : users)
    if (D->getVariable() && !D->getVariable()->getName().starts_with(".omp") && (!best || D->getVariable()->getLine() < best->getLine())) best = D->getVariable();
  if (best) return best->getName().str();
  if (auto *A = dyn_cast<Argument>(V)) {
    if (A->hasName()) {
      StringRef n = A->getName();
      return n.str();
    }
  }
  if (auto *G = dyn_cast<GlobalVariable>(V)) return llvm::demangle(G->getName().str());
  if (V->hasName()) {
    std::string n = V->getName().str();
    return n;
  }
  return "";
}

static std::string fieldName(const StructType *ST, unsigned idx, const Module *M) {
  (void)M; (void)ST;
  return "#" + std::to_string(idx);
}

// Field names through debug info: struct name -> list of (bit offset, name)
static std::map<std::string, std::map<uint64_t, std::string>> FieldsByStruct;
static void indexFields(const Module &M) {
  FieldsByStruct.clear();
  DebugInfoFinder DF;
  DF.processModule(M);
  for (auto *T : DF.types()) {
    auto *CT = dyn_cast<DICompositeType>(T);
    if (!CT || (CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_structure_type)) continue;
    auto &m = FieldsByStruct[CT->getName().str()];
    for (auto *E : CT->getElements()) {
      auto *DT = dyn_cast<DIDerivedType>(E);
      if (DT && DT->getTag() == dwarf::DW_TAG_member && !DT->isStaticMember()) m[DT->getOffsetInBits()] = DT->getName().str();
    }
  }
}

std::string fieldOf(const GEPOperator *G, const Module *M) {
  auto *ST = dyn_cast<StructType>(G->getSourceElementType());
  if (!ST || G->getNumIndices() < 2 || !ST->hasName()) return "";
  auto *CI = dyn_cast<ConstantInt>(G->getOperand(2)); if (!CI) return "";
  std::string sn = ST->getName().str();
  auto d = sn.find('.'); if (d != std::string::npos) sn = sn.substr(d + 1);
  auto it = FieldsByStruct.find(sn);
  std::string fn = "#" + std::to_string(CI->getZExtValue());
  if (it != FieldsByStruct.end()) {
    uint64_t off = M->getDataLayout().getStructLayout(ST)->getElementOffset(CI->getZExtValue()).getFixedValue() * 8;
    auto f = it->second.find(off); if (f != it->second.end()) fn = f->second;
  }
  return sn + "." + fn;
}

// the first field of the class a pointer points to, from its declared type
std::string firstField(const Value *P) {
  SmallVector<DbgVariableIntrinsic *, 4> users;
  findDbgUsers(users, const_cast<Value *>(P));
  for (auto *D : users) {
    const DIType *T = D->getVariable() ? D->getVariable()->getType() : nullptr; int ptrs = 0;
    while (auto *DT = dyn_cast_or_null<DIDerivedType>(T)) { if (DT->getTag() == dwarf::DW_TAG_pointer_type || DT->getTag() == dwarf::DW_TAG_reference_type) ptrs++; T = DT->getBaseType(); }
    auto *CT = dyn_cast_or_null<DICompositeType>(T);
    if (!CT || ptrs != 1 || (CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_structure_type)) continue;
    auto it = FieldsByStruct.find(CT->getName().str());
    if (it != FieldsByStruct.end()) { auto f = it->second.find(0); if (f != it->second.end()) return CT->getName().str() + "." + f->second; }
  }
  return "";
}

// same expression: equal constants and operators over equal operands (loads of one address count as equal)
bool sameExpr(const Value *A, const Value *B, int depth) {
  if (A == B) return true;
  if (depth > 12) return false;
  auto *I = dyn_cast<Instruction>(A), *J = dyn_cast<Instruction>(B);
  if (!I || !J || I->getOpcode() != J->getOpcode() || I->getNumOperands() != J->getNumOperands() || I->getType() != J->getType()) return false;
  if (isa<PHINode>(I) || isa<AllocaInst>(I)) return false;
  if (auto *CB = dyn_cast<CallBase>(I)) { // accessors without arguments other than the object
    auto *CJ = cast<CallBase>(J); if (calleeOf(CB) != calleeOf(CJ) || !calleeOf(CB)) return false;
  }
  for (unsigned k = 0; k < I->getNumOperands(); k++) if (!sameExpr(I->getOperand(k), J->getOperand(k), depth + 1)) return false;
  if (auto *C = dyn_cast<CmpInst>(I)) return C->getPredicate() == cast<CmpInst>(J)->getPredicate();
  return true;
}

// the named object an access belongs to: innermost class field, global, or source variable
std::string objectOf(const Value *P, const Function *F) {
  for (int i = 0; i < 40 && P; i++) {
    if (auto *G = dyn_cast<GEPOperator>(P)) { auto n = fieldOf(G, F->getParent()); if (!n.empty()) return n; P = G->getPointerOperand(); continue; }
    if (auto *L = dyn_cast<LoadInst>(P)) { if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand())) return varName(A); P = L->getPointerOperand(); continue; }
    if (auto *C = dyn_cast<CastInst>(P)) { P = C->getOperand(0); continue; }
    if (auto *G = dyn_cast<GlobalVariable>(P)) return llvm::demangle(G->getName().str());
    std::string n = varName(P);
    if (n == "this") { std::string k = shortName(F); auto q = k.rfind("::"); return (q == std::string::npos ? k : k.substr(0, q)) + ".#0"; }
    if (!n.empty()) return n;
    if (auto *C = dyn_cast<CallBase>(P)) { if (auto *H = calleeOf(C)) return shortName(H) + "()"; }
    return "object";
  }
  return "object";
}

std::string describe(const Value *V, int depth) {
  if (!V) return "?";
  if (depth > 6) return "..";
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64) return std::to_string(CI->getSExtValue());
    return "int";
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    if (&CF->getValueAPF().getSemantics() == &APFloat::IEEEdouble()) { char b[64]; snprintf(b, sizeof b, "%g", CF->getValueAPF().convertToDouble()); return b; }
    return "fp";
  }
  if (isa<ConstantPointerNull>(V)) return "null";
  if (isa<UndefValue>(V)) return "undef";
  SmallVector<DbgVariableIntrinsic *, 4> users;
  findDbgUsers(users, const_cast<Value *>(V));
  for (auto *D : users)
    if (D->getVariable()) return D->getVariable()->getName().str();
  if (auto *L = dyn_cast<LoadInst>(V)) {
    const Value *P = L->getPointerOperand();
    if (auto *A = dyn_cast<AllocaInst>(P)) { auto n = varName(A); return n.empty() ? "local" : n; }
    if (auto *A = dyn_cast<Argument>(P)) return "*" + varName(A);
    return describe(P, depth + 1);
  }
  if (auto *G = dyn_cast<GEPOperator>(V)) {
    std::string b = describe(G->getPointerOperand(), depth + 1);
    if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) {
      if (G->getNumIndices() == 2) {
        if (auto *CI = dyn_cast<ConstantInt>(G->getOperand(2))) {
          std::string sn = ST->hasName() ? ST->getName().str() : "";
          auto d = sn.find('.'); if (d != std::string::npos) sn = sn.substr(d + 1);
          const Module *M = nullptr;
          if (auto *I = dyn_cast<Instruction>(V)) M = I->getModule();
          std::string fn;
          if (M) {
            auto it = FieldsByStruct.find(sn);
            if (it != FieldsByStruct.end()) {
              uint64_t off = M->getDataLayout().getStructLayout(ST)->getElementOffset(CI->getZExtValue()).getFixedValue() * 8;
              auto f = it->second.find(off);
              if (f != it->second.end()) fn = f->second;
            }
          }
          if (fn.empty()) fn = fieldName(ST, CI->getZExtValue(), M);
          return b == "this" ? fn : b + "." + fn;
        }
      }
    }
    std::string s = b;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) s += "[" + describe(*it, depth + 1) + "]";
    return s;
  }
  if (auto *C = dyn_cast<CastInst>(V)) return describe(C->getOperand(0), depth);
  if (auto *B = dyn_cast<BinaryOperator>(V)) {
    const char *op = "?";
    switch (B->getOpcode()) {
    case Instruction::Add: case Instruction::FAdd: op = "+"; break;
    case Instruction::Sub: case Instruction::FSub: op = "-"; break;
    case Instruction::Mul: case Instruction::FMul: op = "*"; break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::FDiv: op = "/"; break;
    case Instruction::URem: case Instruction::SRem: op = "%"; break;
    case Instruction::Shl: op = "<<"; break;
    default: op = B->getOpcodeName();
    }
    return describe(B->getOperand(0), depth + 1) + op + describe(B->getOperand(1), depth + 1);
  }
  if (auto *CB = dyn_cast<CallBase>(V)) {
    if (const Function *F = calleeOf(CB)) return shortName(F) + "()";
    return "call()";
  }
  std::string n = varName(V);
  return n.empty() ? "expr" : n;
}

Finding mk(const char *rule, const Instruction *I, const std::string &key, const std::string &msg) {
  Finding f;
  f.rule = rule;
  debugLoc(I, f.file, f.line);
  f.file = baseFile(f.file);
  f.func = funcKey(I->getFunction());
  f.key = key;
  f.msg = msg;
  return f;
}

std::unique_ptr<Module> loadModule(LLVMContext &C, const std::string &path) {
  SMDiagnostic E;
  auto M = parseIRFile(path, E, C);
  if (!M) E.print("vcsa", errs());
  return M;
}

static bool isRecursive(Function *F, const std::set<std::string> &baseline) {
  // F reaches itself through calls of functions that are inlined as well
  std::set<const Function *> seen;
  std::vector<const Function *> w{F};
  while (!w.empty()) {
    const Function *G = w.back(); w.pop_back();
    for (auto &I : instructions(*G))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (const Function *H = calleeOf(CB)) {
          if (H == F) return true;
          if (!H->isDeclaration() && isRepoFunc(H) && !baseline.count(H->getName().str()) && seen.insert(H).second) w.push_back(H);
        }
  }
  return false;
}

// A condition kept in a variable is the condition itself: casts between its forms disappear, and a block that only
// decides a value known on the way in is skipped.
static void foldConditions(Function &F) {
  bool ch = true; int rounds = 0;
  while (ch && rounds++ < 2000) {
    ch = false; std::vector<Instruction *> dead;
    auto replace = [&](Instruction *I, Value *V) { I->replaceAllUsesWith(V); dead.push_back(I); ch = true; };
    for (auto &I : instructions(F)) {
      if (I.use_empty()) { if (auto *Z = dyn_cast<ZExtInst>(&I); Z && Z->getOperand(0)->getType()->isIntegerTy(1)) { dead.push_back(&I); ch = true; } continue; }
      if (auto *T = dyn_cast<TruncInst>(&I); T && T->getType()->isIntegerTy(1)) { if (auto *Z = dyn_cast<ZExtInst>(T->getOperand(0)); Z && Z->getOperand(0)->getType()->isIntegerTy(1)) replace(T, Z->getOperand(0)); }
      else if (auto *Cm = dyn_cast<ICmpInst>(&I); Cm && Cm->isEquality()) { auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1)); auto *Z = dyn_cast<ZExtInst>(Cm->getOperand(0)); if (K && K->isZero() && Z && Z->getOperand(0)->getType()->isIntegerTy(1)) { if (Cm->getPredicate() == ICmpInst::ICMP_NE) replace(Cm, Z->getOperand(0)); else { auto *N = BinaryOperator::CreateNot(Z->getOperand(0), "", Cm); N->setDebugLoc(Cm->getDebugLoc()); replace(Cm, N); } } }
      else if (auto *B = dyn_cast<BinaryOperator>(&I); B && B->getOpcode() == Instruction::Xor && B->getType()->isIntegerTy(1)) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne()) {
        if (auto *X = dyn_cast<BinaryOperator>(B->getOperand(0)); X && X->getOpcode() == Instruction::Xor) { if (auto *K2 = dyn_cast<ConstantInt>(X->getOperand(1)); K2 && K2->isOne()) { replace(B, X->getOperand(0)); continue; } }
        if (auto *Cm = dyn_cast<CmpInst>(B->getOperand(0)); Cm && Cm->hasOneUse()) { Cm->setPredicate(Cm->getInversePredicate()); replace(B, Cm); continue; }
      }
    }
    for (auto *I : dead) I->eraseFromParent();
    // a flag in a byte that only holds conditions is one bit
    for (auto &B : F) for (auto &ph : B.phis()) if (ph.getType()->isIntegerTy(8)) {
      bool ok = !ph.use_empty(); for (auto &x : ph.incoming_values()) { auto *Z = dyn_cast<ZExtInst>(x); auto *K = dyn_cast<ConstantInt>(x); ok = ok && ((Z && Z->getOperand(0)->getType()->isIntegerTy(1)) || (K && K->getZExtValue() < 2)); }
      for (auto *U : ph.users()) ok = ok && isa<TruncInst>(U) && U->getType()->isIntegerTy(1); if (!ok) continue;
      auto *N = PHINode::Create(Type::getInt1Ty(F.getContext()), ph.getNumIncomingValues(), "", &ph); N->setDebugLoc(ph.getDebugLoc());
      for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) { auto *x = ph.getIncomingValue(i); Value *v = isa<ZExtInst>(x) ? cast<ZExtInst>(x)->getOperand(0) : ConstantInt::get(N->getType(), cast<ConstantInt>(x)->getZExtValue()); N->addIncoming(v, ph.getIncomingBlock(i)); }
      std::vector<User *> us(ph.user_begin(), ph.user_end()); for (auto *U : us) { U->replaceAllUsesWith(N); cast<Instruction>(U)->eraseFromParent(); }
      std::vector<Instruction *> zs; for (auto &x : ph.incoming_values()) if (auto *Z = dyn_cast<ZExtInst>(x)) zs.push_back(Z);
      ph.eraseFromParent(); std::set<Instruction *> zz(zs.begin(), zs.end()); for (auto *Z : zz) if (Z->use_empty()) Z->eraseFromParent(); ch = true; goto next;
    }
    for (auto &B : F) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional()) {
      if (auto *X = dyn_cast<BinaryOperator>(Br->getCondition()); X && X->getOpcode() == Instruction::Xor) if (auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); K && K->isOne()) { Br->setCondition(X->getOperand(0)); Br->swapSuccessors(); if (X->use_empty()) X->eraseFromParent(); ch = true; goto next; }
      auto *ph = dyn_cast<PHINode>(Br->getCondition()); if (!ph || ph->getParent() != &B) continue;
      bool only = true; for (auto &I : B) if (&I != ph && &I != Br && !isa<DbgInfoIntrinsic>(I)) only = false;
      for (auto *U : ph->users()) if (U != Br && !isa<DbgInfoIntrinsic>(U)) only = false;
      if (!only) continue;
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (auto *K = dyn_cast<ConstantInt>(ph->getIncomingValue(i))) {
        BasicBlock *P = ph->getIncomingBlock(i), *T = Br->getSuccessor(K->isZero() ? 1 : 0); auto *Pt = P->getTerminator(); if (T == &B || isa<SwitchInst>(Pt) || P == &B) continue;
        bool isPred = false; for (auto *N : successors(P)) isPred |= N == T; int edges = 0; for (auto *N : successors(P)) edges += N == &B; if (edges != 1 || isPred) continue;
        for (auto &q : T->phis()) q.addIncoming(q.getIncomingValueForBlock(&B), P);
        Pt->replaceSuccessorWith(&B, T); ph->removeIncomingValue(i, false);
        if (ph->getNumIncomingValues() == 0) { ph->replaceAllUsesWith(UndefValue::get(ph->getType())); DeleteDeadBlock(&B); }
        ch = true; goto next;
      }
      if (ph->getNumIncomingValues() == 1) { ph->replaceAllUsesWith(ph->getIncomingValue(0)); ph->eraseFromParent(); ch = true; goto next; }
    }
  next:;
  }
}

void prepare(Module &M, const std::set<std::string> &baseline, Report &R, bool sroa) {
  // delete the debug-only outlined wrappers' distinction: they call the real body; inline the body wrapper
  LLVMContext &LC = M.getContext();
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  // 1. `.omp_outlined` (thunk) -> `.omp_outlined_debug__` (body): inline so each region is one function
  std::set<Function *> into;
  auto inlineAll = [&](std::function<bool(Function *)> want) {
    bool changed = true; int rounds = 0; long n = 0;
    while (changed && rounds++ < 50) {
      changed = false;
      for (Function &F : M) {
        if (F.isDeclaration()) continue;
        std::vector<CallBase *> calls;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *G = const_cast<Function *>(calleeOf(CB));
            if (G && G != &F && !G->isDeclaration() && want(G)) calls.push_back(CB);
          }
        for (auto *CB : calls) {
          InlineFunctionInfo IFI;
          if (InlineFunction(*CB, IFI).isSuccess()) { changed = true; n++; into.insert(&F); }
        }
      }
    }
    return n;
  };
  for (Function &F : M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
  inlineAll([&](Function *G) { return G->getName().contains("omp_outlined_debug__"); });
  if (!baseline.empty()) {
    std::set<Function *> helpers;
    for (Function &F : M)
      if (isRepoFunc(&F) && !baseline.count(F.getName().str()) && !isOutlined(&F) && F.getName() != "main" && !F.getName().starts_with("_GLOBAL__") && !F.getName().starts_with("__cxx_global") && !isRecursive(&F, baseline)) helpers.insert(&F);
    for (auto *F : helpers) R.sets["helpers_inlined"].insert(shortName(F));
    into.clear(); std::set<Function *> called; for (auto *F : helpers) if (!F->use_empty()) called.insert(F);
    R.counts["helper_calls_inlined"] = inlineAll([&](Function *G) { return helpers.count(G) > 0; });
    // what was seen in every place that calls it is not judged again without its callers
    for (bool more = true; more;) { more = false; for (auto *F : std::set<Function *>(called)) if (F->use_empty()) { called.erase(F); F->eraseFromParent(); more = true; } }
  }
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    if (sroa) SROAPass(SROAOptions::PreserveCFG).run(F, FAM);
    else if (!baseline.empty() && into.count(&F)) { // what inlining left behind (parameters, captured variables) is resolved; the function's own variables stay
      std::vector<Instruction *> keep; auto fn = M.getOrInsertFunction("vcsa.keep", Type::getVoidTy(LC), PointerType::getUnqual(LC));
      std::vector<AllocaInst *> own; for (auto &I : F.getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I)) { bool o = A->isArrayAllocation(); for (auto *D : findDbgDeclares(A)) if (!D->getDebugLoc() || !D->getDebugLoc()->getInlinedAt() || !D->getVariable()->getArg()) o = true; if (o) own.push_back(A); }
      for (auto *A : own) keep.push_back(CallInst::Create(fn, {A}, "", F.getEntryBlock().getTerminator()));
      SROAPass(SROAOptions::PreserveCFG).run(F, FAM); for (auto *K : keep) K->eraseFromParent();
    }
    if (!sroa) { // variables that are assigned once, before they are read
      DominatorTree DT(F); std::vector<AllocaInst *> once;
      for (auto &I : F.getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I); A && isAllocaPromotable(A) && A->getAllocatedType()->isIntegerTy(8)) {
        StoreInst *S = nullptr; int n = 0; for (auto *U : A->users()) if (auto *X = dyn_cast<StoreInst>(U)) { S = X; n++; }
        bool ok = n == 1; if (ok) for (auto *U : A->users()) if (auto *L = dyn_cast<LoadInst>(U)) ok = ok && DT.dominates(S, L); if (ok) once.push_back(A); }
      if (!once.empty()) PromoteMemToReg(once, DT);
    }
    foldConditions(F);
  }
  // constants on the right
  for (Function &F : M) for (auto &I : instructions(F)) {
    if (auto *Cm = dyn_cast<CmpInst>(&I)) { if (isa<Constant>(Cm->getOperand(0)) && !isa<Constant>(Cm->getOperand(1))) Cm->swapOperands(); }
    else if (auto *B = dyn_cast<BinaryOperator>(&I)) { if (B->isCommutative() && isa<Constant>(B->getOperand(0)) && !isa<Constant>(B->getOperand(1))) B->swapOperands(); }
  }
  indexFields(M);
}

std::set<const Function *> reachableFrom(const Function *Root, bool followAddressTaken) {
  std::set<const Function *> seen{Root};
  std::vector<const Function *> w{Root};
  while (!w.empty()) {
    const Function *G = w.back(); w.pop_back();
    if (G->isDeclaration()) continue;
    for (auto &I : instructions(*G)) {
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (const Function *H = calleeOf(CB)) if (seen.insert(H).second) w.push_back(H);
      if (followAddressTaken)
        for (auto &O : I.operands())
          if (auto *H = dyn_cast<Function>(O->stripPointerCasts())) if (seen.insert(H).second) w.push_back(H);
    }
  }
  return seen;
}
} // namespace vcsa
