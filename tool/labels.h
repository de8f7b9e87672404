// Where the values of the options of the input file go: each KEY of the option file labels the values that are assigned under
// the comparison of a token with "KEY"; labels follow copies through variables, parameters, members and parallel regions.
#pragma once
#include "common.h"
namespace vcsa {
struct Lab { std::set<std::string> exact, derived; bool other = false; // an unchanged copy of ..., computed from ..., or from something else
  bool add(const Lab &o) { auto a = exact.size(), b = derived.size(); bool c = other; exact.insert(o.exact.begin(), o.exact.end()); derived.insert(o.derived.begin(), o.derived.end()); other |= o.other; return exact.size() != a || derived.size() != b || other != c; }
  std::set<std::string> all() const { auto r = exact; r.insert(derived.begin(), derived.end()); return r; } };
struct Labels {
  Module &M; std::map<std::string, Lab> tab; std::map<const BasicBlock *, std::string> blockKey; std::set<std::string> keys; std::map<const Value *, std::string> nameOf; int n = 0;
  std::map<std::string, std::vector<std::pair<const Instruction *, Lab>>> gives; // parameter, member or variable -> what it is given, and where
  Labels(Module &M) : M(M) { sources(); solve(); }
  static const Function *forked(const CallBase *CB, unsigned &first) { auto *H = CB->getCalledFunction(); if (!H || !H->getName().starts_with("__kmpc_fork_call")) return nullptr; first = 3; return dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); }
  static bool changes(const std::string &n) { for (auto p : {"::push_back(", "::emplace_back", "::operator=(", "::assign(", "::insert(", "::append(", "::basic_string("}) if (n.find(p) != std::string::npos) return true; return false; }
  static const CallBase *allocation(const Value *V, int d = 0) { V = V->stripPointerCasts(); if (d > 6) return nullptr; if (auto *P = dyn_cast<PHINode>(V)) { const CallBase *r = nullptr; for (auto &x : P->incoming_values()) if (auto *c = allocation(x, d + 1)) { if (r && r != c) return nullptr; r = c; } return r; } auto *CB = dyn_cast<CallBase>(V); return CB && calleeOf(CB) && calleeOf(CB)->getName().starts_with("_Znw") ? CB : nullptr; }
  std::string allocKey(const CallBase *CB) { auto &s = nameOf[CB]; if (s.empty()) s = "v" + std::to_string(++n); return "+" + s; }
  static std::string cstr(const Value *V) { auto *G = dyn_cast<GlobalVariable>(V->stripPointerCasts()); if (!G || !G->hasInitializer()) return ""; auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()); return D && D->isCString() ? D->getAsCString().str() : ""; }
  // a branch on the comparison of a string with a constant one
  static std::string keyTest(const Value *V, bool &neg, int d = 0) {
    if (d > 4) return ""; if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); if (!H) return ""; auto nm = demangled(H); bool eq = nm.find("operator==") != std::string::npos, ne = nm.find("operator!=") != std::string::npos, cmp = nm.find("::compare(") != std::string::npos || H->getName() == "strcmp"; if (!eq && !ne && !cmp) return ""; for (auto &a : CB->args()) if (a->getType()->isPointerTy()) { auto s = cstr(a); if (!s.empty()) { if (ne || cmp) neg = !neg; return s; } } return ""; }
    if (auto *X = dyn_cast<ICmpInst>(V)) if (auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); K && K->isZero() && X->isEquality()) { if (X->getPredicate() == CmpInst::ICMP_EQ) neg = !neg; return keyTest(X->getOperand(0), neg, d + 1); }
    if (auto *X = dyn_cast<CastInst>(V)) return keyTest(X->getOperand(0), neg, d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::Xor) { neg = !neg; return keyTest(B->getOperand(0), neg, d + 1); }
    return "";
  }
  static bool isKey(const std::string &k) { bool upper = k.size() >= 3; for (char c : k) upper &= isupper(c) || c == '_' || isdigit(c); return upper; }
  static void ins(std::set<std::string> &s, const std::string &k) { size_t a = 0; for (;;) { auto b = k.find('|', a); s.insert(k.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; } }
  static bool viaPhis(const Value *X, const Value *V) { std::set<const Value *> seen; std::vector<const Value *> w{X}; while (!w.empty()) { auto *Y = w.back(); w.pop_back(); if (!seen.insert(Y).second) continue; if (Y == V) return true; if (auto *P = dyn_cast<PHINode>(Y)) for (auto &x : P->incoming_values()) w.push_back(x); } return false; }
  void sources() {
    for (auto &F : M) if (isRepoFunc(&F) && !F.isDeclaration()) {
      std::unique_ptr<DominatorTree> DT;
      for (auto &B : F) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional()) {
        bool neg = false; auto k = keyTest(Br->getCondition(), neg); if (!isKey(k)) continue;
        if (!DT) DT.reset(new DominatorTree(F)); auto *T = Br->getSuccessor(neg ? 1 : 0); if (T->getSinglePredecessor() != &B) continue; keys.insert(k);
        for (auto &X : F) if (DT->dominates(T, &X)) blockKey[&X] = k;
      }
      for (auto &B : F) { std::set<std::string> ks; bool all = pred_size(&B) > 1; for (auto *P : predecessors(&B)) { auto *Br = dyn_cast<BranchInst>(P->getTerminator()); bool neg = false; auto k = Br && Br->isConditional() ? keyTest(Br->getCondition(), neg) : ""; if (!isKey(k) || Br->getSuccessor(neg ? 1 : 0) != &B) { all = false; break; } ks.insert(k); } if (!all || ks.size() < 2) continue; std::string j; for (auto &k : ks) { keys.insert(k); j += (j.empty() ? "" : "|") + k; } if (!DT) DT.reset(new DominatorTree(F)); for (auto &X : F) if (DT->dominates(&B, &X)) blockKey[&X] = j; } // "A" or "B"
      for (auto &I : instructions(F)) { bool neg = false; if (auto *CB = dyn_cast<CallBase>(&I)) { auto k = keyTest(CB, neg); if (!isKey(k)) continue; for (auto *U : CB->users()) if (!isa<BranchInst>(U)) for (auto *W : U->users()) if (isa<PHINode>(U) || isa<PHINode>(W) || isa<StoreInst>(U) || isa<StoreInst>(W) || isa<BinaryOperator>(W) || isa<SelectInst>(W)) keys.insert(k); } }
    }
  }
  std::string loc(const Value *P, int d = 0) { // the variable or member an address belongs to
    P = P->stripPointerCasts(); if (d > 6) return ""; auto nm = [&](const Value *V, const char *p) { auto &s = nameOf[V]; if (s.empty()) s = "v" + std::to_string(++n); return p + s; };
    if (isa<AllocaInst>(P)) return nm(P, "@"); if (isa<Argument>(P)) return nm(P, "*"); if (auto *G = dyn_cast<GlobalVariable>(P)) return "g:" + G->getName().str();
    if (auto *G = dyn_cast<GEPOperator>(P)) { if (G->getSourceElementType()->isStructTy()) { auto f = fieldOf(G, &M); if (!f.empty()) return "f:" + f; } }
    return "";
  }
  std::string argKey(const Argument *A) { auto &s = nameOf[A]; if (s.empty()) s = "v" + std::to_string(++n); return "=" + s; }
  std::map<const Value *, Lab> memo; std::set<const Value *> open;
  Lab derivedOf(const Lab &l) { Lab r; r.derived = l.all(); r.other = true; return r; }
  Lab object(const Value *P, int d = 0) { // what a string or container holds
    P = P->stripPointerCasts(); Lab r; if (d > 8) return r; auto k = loc(P); if (!k.empty()) { auto it = tab.find(k); if (it != tab.end()) r = it->second; return r; }
    if (auto *CB = dyn_cast<CallBase>(P)) { if (calleeOf(CB) && !isRepoFunc(calleeOf(CB))) for (auto &a : CB->args()) if (a->getType()->isPointerTy()) r.add(object(a, d + 1)); return r; }
    if (auto *L = dyn_cast<LoadInst>(P)) return object(L->getPointerOperand(), d + 1);
    if (auto *G = dyn_cast<GEPOperator>(P)) return object(G->getPointerOperand(), d + 1);
    return r;
  }
  Lab numbersIn(const CallBase *CB, int d) { Lab r; if (!CB->getType()->isFloatingPointTy() || (calleeOf(CB) && isRepoFunc(calleeOf(CB)))) return r; for (auto &a : CB->args()) if (a->getType()->isFloatingPointTy()) r.add(lab(a, d + 1)); return r; }
  Lab lab(const Value *V, int d = 0) {
    Lab r; if (isa<Constant>(V)) return r; if (d > 40) { r.other = true; return r; }
    auto it = memo.find(V); if (it != memo.end()) return it->second; if (!open.insert(V).second) return r;
    auto *I = dyn_cast<Instruction>(V); auto bk = I && blockKey.count(I->getParent()) ? blockKey[I->getParent()] : "";
    if (auto *N = isa<CallBase>(V) ? allocation(V) : nullptr) { auto t = tab.find(allocKey(N)); if (t != tab.end()) r = t->second; }
    else if (auto *A = dyn_cast<Argument>(V); A && A->getType()->isPointerTy()) { auto t = tab.find(argKey(A)); if (t != tab.end()) r = t->second; }
    else if (V->getType()->isPointerTy() && !isa<LoadInst>(V) && !isa<PHINode>(V)) r = object(V);
    else if (auto *A = dyn_cast<Argument>(V)) { auto t = tab.find(argKey(A)); if (t != tab.end()) r = t->second; }
    else if (auto *P = dyn_cast<PHINode>(V)) for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { auto *X = P->getIncomingValue(k); if (X == V) continue; auto b = blockKey.find(P->getIncomingBlock(k)); bool under = b != blockKey.end() && blockKey.find(P->getParent()) == blockKey.end(); if (isa<Constant>(X)) { if (b != blockKey.end()) ins(r.exact, b->second); } else { auto lx = lab(X, d + 1); if (under && !viaPhis(X, V) && lx.all().empty()) ins(r.exact, b->second); else r.add(lx); } }
    else if (auto *X = dyn_cast<CastInst>(V)) { r = lab(X->getOperand(0), d + 1); }
    else if (auto *L = dyn_cast<LoadInst>(V)) { auto k = loc(L->getPointerOperand()); if (k.empty()) { if (V->getType()->isPointerTy()) r = object(L->getPointerOperand()); r.other = true; } else { auto t = tab.find(k); if (t != tab.end()) r = t->second; } }
    else if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *H = calleeOf(CB); bool neg = false; auto kt = keyTest(CB, neg); if (isKey(kt)) r.exact.insert(kt); else if (Lab in = numbersIn(CB, d); !in.all().empty()) { if (H && H->getName() == "cos") for (auto &k : in.all()) r.exact.insert("cos " + k); else r = derivedOf(in); } else if (!bk.empty()) ins(r.exact, bk);
      else if (H && (H->getName() == "cos")) { auto l = lab(CB->getArgOperand(0), d + 1); r.other = l.other; for (auto &k : l.all()) r.exact.insert("cos " + k); }
      else if (H && !isRepoFunc(H)) { for (auto &a : CB->args()) if (!a->getType()->isPointerTy()) { auto l = derivedOf(lab(a, d + 1)); r.add(l); } r.other = true; }
      else r.other = true;
    }
    else if (I && (isa<BinaryOperator>(I) || isa<UnaryOperator>(I))) { for (auto &o : I->operands()) r.add(derivedOf(lab(o, d + 1))); r.other = true; }
    else if (auto *S = dyn_cast<SelectInst>(V)) { r.add(lab(S->getTrueValue(), d + 1)); r.add(lab(S->getFalseValue(), d + 1)); }
    else r.other = true;
    open.erase(V); if (open.empty()) memo[V] = r; return r;
  }
  void solve() {
    for (bool ch = true; ch;) {
      ch = false; memo.clear(); gives.clear();
      auto put = [&](const std::string &k, const Lab &l, const Instruction *I) { if (k.empty()) return; gives[k].push_back({I, l}); if (tab[k].add(l)) ch = true; };
      for (auto &F : M) if (isRepoFunc(&F) || isOutlined(&F)) for (auto &I : instructions(F)) {
        auto bk = blockKey.find(I.getParent());
        if (auto *S = dyn_cast<StoreInst>(&I)) { auto k = loc(S->getPointerOperand()); if (k.empty()) continue; Lab l = lab(S->getValueOperand()); if (bk != blockKey.end() && isa<Constant>(S->getValueOperand())) ins(l.exact, bk->second); put(k, l, S); }
        else if (auto *CB = dyn_cast<CallBase>(&I)) {
          unsigned first = 0; auto *H = calleeOf(CB); auto *O = forked(CB, first);
          if (O) { for (unsigned k = first; k < CB->arg_size() && k - first + 2 < O->arg_size(); k++) { auto *A = O->getArg(k - first + 2); auto *V = CB->getArgOperand(k); if (V->getType()->isPointerTy()) put(loc(A), object(V), CB); else put(argKey(A), lab(V), CB); } }
          else if (H && isRepoFunc(H) && !H->isDeclaration()) {
            if (auto *N = CB->arg_size() > 1 ? allocation(CB->getArgOperand(0)) : nullptr) for (unsigned k = 1; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) { auto o = object(CB->getArgOperand(k)); o.other = false; if (!o.exact.empty()) put(allocKey(N), o, CB); } // an object made from a file
            for (unsigned k = 0; k < CB->arg_size() && k < H->arg_size(); k++) { auto *V = CB->getArgOperand(k); if (V->getType()->isPointerTy()) { auto o = object(V); if (!o.exact.empty() || !o.derived.empty()) put(loc(H->getArg(k)), o, CB); if (!isa<AllocaInst>(V->stripPointerCasts())) put(argKey(H->getArg(k)), lab(V), CB); } else put(argKey(H->getArg(k)), lab(V), CB); } }
          else if (H && !isa<IntrinsicInst>(CB) && CB->arg_size() > 0 && CB->getArgOperand(0)->getType()->isPointerTy()) { auto k = loc(CB->getArgOperand(0)); if (k.empty() || k[0] != '@') continue; Lab l; if (bk != blockKey.end() && changes(demangled(H))) ins(l.exact, bk->second); if (CB->arg_size() > 1 || CB->hasStructRetAttr()) for (unsigned j = 1; j < CB->arg_size(); j++) if (CB->getArgOperand(j)->getType()->isPointerTy()) { auto o = object(CB->getArgOperand(j)); l.exact.insert(o.exact.begin(), o.exact.end()); l.derived.insert(o.derived.begin(), o.derived.end()); } put(k, l, CB); }
        }
      }
    }
  }
};
} // namespace vcsa
