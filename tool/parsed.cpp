// Whole numbers read from text are range-checked before they are stored as labels, used as subscripts or passed on.
// From the point where the number is obtained, the control flow is followed; an edge whose condition bounds the number
// closes the path; reaching a use first is a violation.
#include "facts.h"
namespace vcsa {
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
static bool isParseInt(const Function *H) { std::string d = shortName(H); return has(d, "string_to_size_t") || has(d, "string_to_int") || d == "atoi" || d == "atol" || d == "atoll" || d == "strtol" || d == "strtoul" || d == "strtoll" || d == "strtoull" || has(d, "std::stoi") || has(d, "std::stol") || has(d, "std::stoul") || has(d, "std::__cxx11::stoi") || has(d, "std::__cxx11::stol") || has(d, "std::__cxx11::stoul"); }
static bool isParseReal(const Function *H) { std::string d = shortName(H); return has(d, "string_to_double") || d == "atof" || d == "strtod" || has(d, "::stod"); }

void runParsed(Ctx &C) {
  ModSets MS(*C.M);
  long n = 0, uses = 0, bounded = 0;
  std::set<const Function *> parsers; // functions that hand the number to their caller unchecked
  for (auto &F : *C.M) if (isRepoFunc(&F) && isParseInt(&F)) parsers.insert(&F);
  for (auto &F : *C.M) {
    if (!isRepoFunc(&F) || F.isDeclaration() || parsers.count(&F) || isParseReal(&F)) continue;
    Facts FX(F, MS);
    std::vector<std::pair<const Instruction *, bool>> src; // value, lower bound wanted
    std::set<const Value *> realDer;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) {
      if (isParseInt(H)) { // numbers in a text of the program itself (the build date) are not input
        const Value *A = CB->arg_size() ? CB->getArgOperand(CB->arg_size() > 1 && !CB->getArgOperand(0)->getType()->isPointerTy() ? 1 : 0)->stripPointerCasts() : nullptr;
        while (auto *G = dyn_cast_or_null<GEPOperator>(A)) A = G->getPointerOperand();
        if (!isa_and_nonnull<GlobalVariable>(A)) src.push_back({CB, false});
      }
      if (isParseReal(H)) realDer.insert(CB);
      std::string d = demangled(H);
      if (has(d, "std::istream::operator>>(") && CB->arg_size() == 2) if (auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(1)->stripPointerCasts())) if (A->getAllocatedType()->isIntegerTy()) for (auto *U : A->users()) if (auto *L = dyn_cast<LoadInst>(U)) src.push_back({L, false});
    }
    for (bool ch = true; ch;) { ch = false; for (auto &I : instructions(F)) if (!realDer.count(&I) && I.getType()->isDoubleTy() && (isa<BinaryOperator>(I) || isa<CastInst>(I) || I.getOpcode() == Instruction::FNeg || (isa<CallBase>(I) && calleeOf(cast<CallBase>(&I)) && isMathName(calleeOf(cast<CallBase>(&I))->getName())))) for (auto &O : I.operands()) if (realDer.count(O)) { realDer.insert(&I); ch = true; break; } }
    for (auto &I : instructions(F)) if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) if (realDer.count(I.getOperand(0))) src.push_back({&I, isa<FPToSIInst>(I) && I.getType()->isIntegerTy(32)});
    for (auto &sp : src) {
      const Instruction *S = sp.first; bool lower = sp.second; n++;
      C.R.sets["functions_that_parse_numbers"].insert(funcKey(&F));
      // states: block, instruction, value followed, array followed
      struct St { const Instruction *I; const Value *cur; const Value *arr; };
      std::vector<St> w; std::set<std::tuple<const BasicBlock *, const Value *, const Value *>> seen;
      auto derived = [&](const Value *V, const Value *cur, Lx &l) { if (!V->getType()->isIntegerTy()) return false; l = FX.lin(V); Lx c = FX.lin(cur); return c.t.size() == 1 && l.t.count(c.t.begin()->first) > 0; };
      // does the condition, with this outcome, bound the number?  slack: bound <= X + slack
      auto boundsEdge = [&](const Instruction *T, unsigned k, const Value *cur, const Value *arr, std::vector<Fact> &out) {
        auto *Br = dyn_cast<BranchInst>(T); if (!Br || !Br->isConditional()) return;
        FX.fromCond(Br->getCondition(), k == 0, Br, out);
      };
      auto start = [&](const Instruction *I) { if (auto *IV = dyn_cast<InvokeInst>(I)) return (const Instruction *)&IV->getNormalDest()->front(); return (const Instruction *)I->getNextNode(); };
      // `facts` accumulated along a path are represented by cutting at an edge that bounds the number itself; the
      // strictness of the bound is checked against the uses that follow it
      w.push_back({start(S), S, nullptr});
      if (auto *IV = dyn_cast<InvokeInst>(S)) for (auto &ph : IV->getNormalDest()->phis()) if (ph.getIncomingValueForBlock(IV->getParent()) == S) w.push_back({start(S), &ph, nullptr});
      Finding bad; bool isBad = false;
      // strict uses of the number, wherever they are: for each, the facts that dominate it
      while (!w.empty() && !isBad) {
        St s = w.back(); w.pop_back();
        bool stop = false;
        const Instruction *I = s.I;
        for (; I; I = I->getNextNode()) {
          if (I == S) { stop = true; break; }
          if (I->isTerminator() && !isa<InvokeInst>(I) && !isa<ReturnInst>(I)) break;
          if (isa<PHINode>(I) || isa<CmpInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
          if (!s.arr) {
            Lx l;
            if (auto *St_ = dyn_cast<StoreInst>(I)) {
              if (derived(St_->getValueOperand(), s.cur, l)) {
                uses++;
                const Value *P = St_->getPointerOperand(); while (auto *G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand();
                if (isa<PHINode>(P) || isa<CallBase>(P)) { // an array of this function: follow it
                  if (seen.insert({I->getParent(), nullptr, P}).second) w.push_back({I->getNextNode(), nullptr, P});
                  continue;
                }
                bad = mk("unchecked-number", I, funcKey(&F) + "|" + objectOf(St_->getPointerOperand(), &F), "a number read from text is stored in '" + objectOf(St_->getPointerOperand(), &F) + "' on a path on which it was not compared with a bound (it was read at " + where(S) + ")"); isBad = true; break;
              }
            } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
              for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (derived(*it, s.cur, l)) { bad = mk("unchecked-number", I, funcKey(&F) + "|index:" + describe(G->getPointerOperand()), "a number read from text is used as a subscript without a bound"); isBad = true; }
              if (isBad) break;
            } else if (auto *CB = dyn_cast<CallBase>(I)) {
              auto *H = calleeOf(CB); std::string d = H ? demangled(H) : "";
              if (H && (H->getName().starts_with("llvm.") || has(d, "operator<<") || has(d, "operator>>"))) {}
              else for (auto &A : CB->args()) if (derived(A, s.cur, l)) { uses++; bad = mk("unchecked-number", I, funcKey(&F) + "|" + (H ? shortName(H) : "call"), "a number read from text is passed to " + (H ? shortName(H) : std::string("a function")) + " on a path on which it was not compared with a bound (it was read at " + where(S) + ")"); isBad = true; break; }
              if (isBad) break;
            }
          } else {
            if (auto *CB = dyn_cast<CallBase>(I)) {
              auto *H = calleeOf(CB);
              if (!(H && (H->getName().starts_with("llvm.") || H->getName().starts_with("_Zda") || H->getName().starts_with("_Zdl")))) for (auto &A : CB->args()) if (A->stripPointerCasts() == s.arr) { uses++; bad = mk("unchecked-number", I, funcKey(&F) + "|" + (H ? shortName(H) : "call") + "|" + describe(s.arr), "the numbers read from text in '" + describe(s.arr) + "' are passed to " + (H ? shortName(H) : std::string("a function")) + " on a path on which they were not compared with a bound"); isBad = true; break; }
              if (isBad) break;
            }
          }
          if (isa<ReturnInst>(I)) { stop = true; break; }
          if (isa<InvokeInst>(I)) break;
        }
        if (isBad || stop || !I) continue;
        for (unsigned k = 0; k < I->getNumSuccessors(); k++) {
          if (isa<InvokeInst>(I) && k == 1) continue;
          const BasicBlock *N = I->getSuccessor(k);
          std::vector<Fact> fs; boundsEdge(I, k, s.cur, s.arr, fs);
          bool cut = false;
          for (auto &f : fs) {
            if (f.neZero) continue;
            if (s.arr) { std::string want = "L(" + Facts::addrKey(s.arr); for (auto &p : f.e.t) if (p.second < 0 && p.first.rfind(want, 0) == 0) cut = true; continue; }
            Lx c = FX.lin(s.cur); if (c.t.size() != 1) continue; auto it = f.e.t.find(c.t.begin()->first); if (it == f.e.t.end()) continue;
            if (lower ? it->second > 0 : it->second < 0) {
              cut = true;
              if (!lower && f.e.t.size() > 1) {
                // v <= X + slack; labels and subscripts derived from v must stay below a variable X
                bool constX = false; for (auto &p : f.e.t) if (p.second > 0) for (auto &J : instructions(F)) { char b[40]; snprintf(b, sizeof b, "v%p", (const void *)&J); if (p.first == b) if (auto *CB = dyn_cast<CallBase>(&J)) if (CB->arg_size() == 0) constX = true; }
                if (!constX) for (auto &J : instructions(F)) {
                  const Value *used = nullptr; if (auto *St_ = dyn_cast<StoreInst>(&J)) used = St_->getValueOperand();
                  Lx l; if (!used || !derived(used, s.cur, l) || !FX.DT.dominates(N, J.getParent())) continue;
                  uses++;
                  long d = l.c, slack = f.e.c; // v <= X + slack, use = v + d
                  if (d + slack > -1) { bad = mk("unchecked-number", &J, funcKey(&F) + "|bound:" + objectOf(cast<StoreInst>(J).getPointerOperand(), &F), "the bound admits the number itself: the stored value can equal the size it is compared with"); isBad = true; }
                  else { // and from below, when it was shifted
                    if (d < 0) { std::vector<Fact> v; for (auto &g : FX.at(&J)) if (FX.valid(g, &J, {})) v.push_back(g); Lx g = l; if (!FX.prove([&] { Lx q; for (auto &p : l.t) q.t[p.first] = p.second; q.c = l.c; return q; }(), &J, v)) { bad = mk("unchecked-number", &J, funcKey(&F) + "|below:" + objectOf(cast<StoreInst>(J).getPointerOperand(), &F), "the number is decremented without a test that it is at least " + std::to_string(-d)); isBad = true; } }
                    bounded++;
                  }
                }
              }
              if (cut) bounded++;
            }
          }
          if (cut || isBad) continue;
          if (s.arr && FX.DT.dominates(N, S->getParent()) && FX.LI.isLoopHeader(N) && FX.LI.getLoopFor(S->getParent()) && FX.LI.getLoopFor(S->getParent())->getHeader() != N) continue; // the next row: the array is read again
          if (s.arr) { if (seen.insert({N, nullptr, s.arr}).second) w.push_back({&N->front(), nullptr, s.arr}); continue; }
          if (seen.insert({N, s.cur, nullptr}).second) w.push_back({&N->front(), s.cur, nullptr});
          for (auto &ph : N->phis()) { int b = ph.getBasicBlockIndex(I->getParent()); if (b >= 0 && ph.getIncomingValue(b) == s.cur && ph.getType()->isIntegerTy()) if (seen.insert({N, &ph, nullptr}).second) w.push_back({&N->front(), &ph, nullptr}); }
        }
      }
      if (isBad) C.R.add(bad);
    }
  }
  C.R.counts["numbers_parsed"] = n; C.R.counts["uses_examined"] = uses; C.R.counts["bounds_found"] = bounded;
}
} // namespace vcsa
