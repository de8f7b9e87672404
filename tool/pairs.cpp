// Every list is handed on together with its own number of entries: what allocations, loops and the other calls say about which
// number belongs to which list decides calls (and guards) that pair a list with the number of another one.
#include "belief.h"
namespace vcsa {
namespace {
struct Pairs {
  Ctx &C; Belief B; std::vector<std::unique_ptr<Ext>> all; Pairs(Ctx &C) : C(C), B(C) {}
  typedef std::pair<std::string, std::string> LC;
  std::map<const Function *, std::map<LC, std::set<const Instruction *>>> ev; std::map<const Function *, std::set<LC>> sure; // sure: allocated with it
  std::map<std::string, std::string> names, up; std::set<const Instruction *> given;
  std::string root(std::string k) { for (;;) { auto it = up.find(k); if (it == up.end()) return k; k = it->second; } }
  void join(const std::string &a, const std::string &b) { if (a.empty() || b.empty()) return; auto x = root(a), y = root(b); if (x != y) up[x] = y; }
  static const Value *plainNum(const Value *V) { for (;;) { if (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0); else return V; } }
  std::string key(Ext &E, const Value *V) { auto k = B.key(E, plainNum(V)); if (!k.empty() && !names.count(k)) names[k] = E.nameOf(V); return k; }
  std::map<const Function *, const Function *> homes; const Function *home(const Function *F) { for (;;) { auto it = homes.find(F); if (it == homes.end()) return F; F = it->second; } }
  bool add(const Function *F, const std::string &l, const std::string &c, const Instruction *at) { if (l.empty() || c.empty() || l == c) return false; return ev[home(F)][{root(l), root(c)}].insert(at).second; }
  struct Arg { std::string caller, callee; bool list, byRef; const Value *V; };
  std::vector<Arg> args(Ext &E, const CallBase *CB, const Function *H) {
    std::vector<Arg> r; for (unsigned k = 0; k < CB->arg_size() && k < H->arg_size(); k++) { auto *A = CB->getArgOperand(k); auto h = H->getName().str() + "|"; auto n = "a" + std::to_string(k);
      if (A->getType()->isIntegerTy(64)) { auto v = isa<Constant>(A) ? "" : key(E, A); if (!v.empty()) r.push_back({root(v), h + n, false, false, A}); continue; }
      if (!A->getType()->isPointerTy()) continue;
      auto *P = A->stripPointerCasts(); Type *T = nullptr; if (auto *Al = dyn_cast<AllocaInst>(P)) T = Al->getAllocatedType(); else if (auto *G = dyn_cast<GEPOperator>(P); G && G->getSourceElementType()->isStructTy()) T = G->getResultElementType(); else if (isa<Argument>(P)) for (auto *U : P->users()) { if (auto *L = dyn_cast<LoadInst>(U)) T = L->getType(); else if (auto *S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == P) T = S->getValueOperand()->getType(); if (T) break; }
      bool refParam = isa<Argument>(P) && isRef(cast<Argument>(P));
      if (T && (isa<AllocaInst>(P) || isa<GEPOperator>(P) || refParam) && (T->isPointerTy() || T->isIntegerTy(64))) { auto s = B.slot(E, A); if (!s.empty()) { if (!names.count(s)) names[s] = E.nameOf(A); r.push_back({root(s), h + "*" + n, T->isPointerTy(), true, A}); } continue; }
      auto v = key(E, A); if (!v.empty()) r.push_back({root(v), h + n, true, false, A}); }
    return r; }
  static bool isRef(const Argument *A) { for (auto *U : A->users()) if (auto *L = dyn_cast<LoadInst>(U)) { if (L->getType()->isPointerTy()) return true; } else if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A && S->getValueOperand()->getType()->isPointerTy()) return true; } return false; }
  // the one number that an array's size is a multiple of
  static const Value *sizeBase(const Value *V, int d = 0) {
    V = plainNum(V); if (d > 8 || isa<Constant>(V)) return nullptr;
    if (auto *S = dyn_cast<SelectInst>(V)) { if (isa<Constant>(S->getTrueValue())) return sizeBase(S->getFalseValue(), d + 1); return nullptr; }
    if (auto *X = dyn_cast<ExtractValueInst>(V)) { auto *II = dyn_cast<IntrinsicInst>(X->getAggregateOperand()); if (!II) return nullptr; return isa<Constant>(II->getArgOperand(1)) ? sizeBase(II->getArgOperand(0), d + 1) : nullptr; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { if (B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Shl) { if (isa<Constant>(B->getOperand(1))) return sizeBase(B->getOperand(0), d + 1); if (isa<Constant>(B->getOperand(0))) return sizeBase(B->getOperand(1), d + 1); } return nullptr; }
    return V; }
  void local(Ext &E) {
    for (auto &I : instructions(E.F)) {
      if (auto *P = dyn_cast<PHINode>(&I); P && P->getType()->isPointerTy()) { auto k = key(E, P); for (auto &o : P->incoming_values()) if (!isa<Constant>(o)) join(k, key(E, o)); }
      if (auto *S = dyn_cast<StoreInst>(&I); S && Ext::isNew(S->getValueOperand())) join(B.slot(E, S->getPointerOperand()), key(E, S->getValueOperand()));
      if (auto *S = dyn_cast<StoreInst>(&I); S && isa<Argument>(S->getValueOperand()) && isa<AllocaInst>(S->getPointerOperand())) { unsigned n = 0; for (auto *U : S->getPointerOperand()->users()) n += isa<StoreInst>(U) && cast<StoreInst>(U)->getPointerOperand() == S->getPointerOperand(); if (n == 1 || S->getValueOperand()->getType()->isPointerTy()) join(B.slot(E, S->getPointerOperand()), key(E, S->getValueOperand())); }
      // the body of a parallel region belongs to its function
      if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); unsigned sh = 0; if (H && H->getName().starts_with("__kmpc_fork_call")) { H = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); sh = 1; } if (H && isOutlined(H)) { homes[H] = &E.F; for (unsigned k = 2; k + sh < CB->arg_size() && k < H->arg_size(); k++) { auto *A = CB->getArgOperand(k + sh); auto h = H->getName().str() + "|"; auto n = "a" + std::to_string(k); join(h + n, key(E, A)); if (A->getType()->isPointerTy()) join(h + "*" + n, B.slot(E, A)); } } }
    }
  }
  void evidence(Ext &E) {
    auto bi = E.byId();
    for (auto &I : instructions(E.F)) {
      if (Ext::isNew(&I)) { auto *V = sizeBase(cast<CallBase>(&I)->getArgOperand(0)); auto n = V ? key(E, V) : ""; if (!n.empty()) { auto l = key(E, &I); add(&E.F, l, n, &I); sure[home(&E.F)].insert({root(l), root(n)}); } continue; }
      const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand(); if (!P) continue;
      auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) continue; auto l = key(E, G->getPointerOperand()); if (l.empty()) continue;
      auto idx = E.value(G->getOperand(1), nullptr); if (!idx.ok) continue;
      for (auto &t : idx.t) for (auto &f : factors(t.first)) { auto w = bi.find(f); auto *Ph = w == bi.end() ? nullptr : dyn_cast<PHINode>(w->second); LinD s; double k; if (!Ph || !E.counter(Ph, s, k) || k != 1) continue; auto *Lp = E.LI.getLoopFor(Ph->getParent()); if (!Lp || !Lp->contains(I.getParent())) continue;
        auto *Br = dyn_cast<BranchInst>(Ph->getParent()->getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm) continue; const Value *X = Cm->getOperand(0), *Y = Cm->getOperand(1); if (Y == Ph) std::swap(X, Y); if (X != Ph || isa<Constant>(Y)) continue; auto c = key(E, Y); add(&E.F, l, c, Ph); }
    }
  }
  void run() {
    ModSets MS(*C.M); for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) all.push_back(std::make_unique<Ext>(C, F, MS));
    for (auto &e : all) local(*e);
    for (auto &e : all) evidence(*e);
    struct Call { Ext *E; const CallBase *CB; const Function *H; std::vector<Arg> a; }; std::vector<Call> calls;
    for (auto &e : all) for (auto &I : instructions(e->F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (H && !H->isDeclaration() && H != &e->F && isRepoFunc(H) && !isOutlined(H)) calls.push_back({e.get(), CB, H, args(*e, CB, H)}); }
    // what a function does with its parameters is what its callers hand over
    std::map<const Function *, std::set<LC>> rel; auto own = ev;
    for (int round = 0; round < 8; round++) { bool ch = false;
      for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list) { auto l = root(x.callee), n = root(y.callee); auto it = ev[c.H].find({l, n}); bool has = it != ev[c.H].end(); if (has) { bool mine = false; for (auto *s : it->second) mine |= home(s->getFunction()) == c.H; has = mine; } if (!has) continue; rel[c.H].insert({x.callee, y.callee}); ch |= add(&c.E->F, x.caller, y.caller, c.CB); }
      if (!ch) break; }
    // a pair of parameters that calls fill with a list and its number, again and again, is such a pair
    for (int round = 0; round < 2; round++) { std::map<std::pair<const Function *, LC>, std::pair<std::set<LC>, unsigned>> vote;
      for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list) { auto &m = ev[home(&c.E->F)]; bool known = false, yes = false; for (auto &p : m) if (p.first.first == x.caller) { for (auto *s : p.second) if (s != c.CB) { known = true; yes |= p.first.second == y.caller; } } if (!known) continue; auto &v = vote[{c.H, {x.callee, y.callee}}]; if (yes) v.first.insert({x.caller, y.caller}); else v.second++; }
      for (auto &v : vote) if (v.first.second.second.find("|*") == std::string::npos && v.second.first.size() >= 2 && v.second.first.size() > 2 * v.second.second) rel[v.first.first].insert(v.first.second);
      for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list && rel[c.H].count({x.callee, y.callee})) add(&c.E->F, x.caller, y.caller, c.CB); }
    // a pair of parameters that is filled with one list and one number at each of several places, another one each time
    { std::map<std::pair<const Function *, LC>, std::map<std::string, std::set<std::string>>> seen;
      for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list) seen[{c.H, {x.callee, y.callee}}][x.caller].insert(y.caller);
      std::map<std::pair<const Function *, std::string>, std::set<std::string>> cand; auto direct = ev; auto isNum = [&](const std::string &n) { for (auto &f : direct) for (auto &p : f.second) if (p.first.second == n) return true; return false; };
      for (auto &v : seen) { std::set<std::string> nums; unsigned off = 0; bool fine = true; if (v.first.first->arg_size() && v.first.second.first == v.first.first->getName().str() + "|a0" && varName(v.first.first->getArg(0), v.first.first) == "this") continue; for (auto &l : v.second) { off += l.second.size() > 1; for (auto &n : l.second) nums.insert(n); } if (v.first.second.second.find("|*") != std::string::npos || nums.size() < 3 || 3 * off > v.second.size() || v.second.size() < 3) continue; unsigned k = 0; for (auto &n : nums) k += isNum(n); if (3 * k < 2 * nums.size()) continue; cand[{v.first.first, v.first.second.first}].insert(v.first.second.second); }
      for (auto &p : cand) { for (auto &r : rel[p.first.first]) if (r.first == p.first.second) p.second.insert(r.second); if (p.second.size() == 1) rel[p.first.first].insert({p.first.second, *p.second.begin()}); }
      for (int round = 0; round < 8; round++) { bool ch = false; for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list) { if (!rel[c.H].count({x.callee, y.callee})) { auto it = ev[c.H].find({root(x.callee), root(y.callee)}); bool mine = false; if (it != ev[c.H].end()) for (auto *s : it->second) mine |= home(s->getFunction()) == c.H; if (!mine) continue; rel[c.H].insert({x.callee, y.callee}); ch = true; } ch |= add(&c.E->F, x.caller, y.caller, c.CB); } if (!ch) break; } }
    // what callers hand over is what the function has
    for (auto &c : calls) for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list && rel[c.H].count({x.callee, y.callee})) add(c.H, x.callee, y.callee, c.CB);
    for (auto &r : rel) C.R.counts["list_parameters_with_a_number"] += r.second.size();
    if (auto *d = getenv("PAIRDBG")) for (auto &f : ev) if (f.first->getName().contains(d)) for (auto &p : f.second) { fprintf(stderr, "%s: %s[%s] & %s[%s]:", shortName(f.first).c_str(), names[p.first.first].c_str(), p.first.first.c_str(), names[p.first.second].c_str(), p.first.second.c_str()); for (auto *s : p.second) fprintf(stderr, " %s", where(s).c_str()); fprintf(stderr, "\n"); }
    std::set<std::string> once;
    for (auto &c : calls) { auto *F = home(&c.E->F); auto &m = ev[F];
      for (auto &x : c.a) if (x.list) for (auto &y : c.a) if (!y.list && rel[c.H].count({x.callee, y.callee})) { C.R.counts["lists_handed_on_with_a_number"]++;
        unsigned same = 0, best = 0; std::string c0; std::set<std::string> mine; bool s0 = false;
        for (auto &p : m) if (p.first.first == x.caller) { unsigned n = 0; for (auto *s : p.second) n += s != c.CB; if (p.first.second == y.caller) same += n; else if (n) { mine.insert(p.first.second); bool su = sure[F].count(p.first); if ((su && !s0) || (su == s0 && n > best)) best = n, c0 = p.first.second, s0 = su; } }
        if (same || mine.empty() || best < 2) continue;
        if (mine.size() > 1) continue; // a list that goes with several numbers
        std::string other; for (auto &p : m) if (p.first.second == y.caller && p.first.first != x.caller) { bool off = false; for (auto *s : p.second) off |= s != c.CB; if (!off || m.count({p.first.first, c0})) continue; other = p.first.first; }
        if (other.empty()) continue; if (getenv("PAIRDBG")) fprintf(stderr, "%s %s / %s (%s of %u), list %s\n", where(c.CB).c_str(), names[x.caller].c_str(), names[y.caller].c_str(), names[c0].c_str(), best, names[other].c_str());
        // the number of its own list is not handed over with it in another place of the same call
        bool also = false; for (auto &z : c.a) if (!z.list && z.caller == c0) { bool swapped = false; for (auto &w : c.a) swapped |= w.list && w.caller != x.caller && rel[c.H].count({w.callee, z.callee}) && !m.count({w.caller, c0}) ; if (!swapped) for (auto &w : c.a) if (w.list && w.caller != x.caller && rel[c.H].count({w.callee, z.callee})) { bool off = false; for (auto *s : m[{w.caller, c0}]) off |= s != c.CB; swapped |= !off; } also |= !swapped; } if (also) continue;
        auto nm = names[x.caller], k = funcKey(F) + "|" + nm + "|" + shortName(c.H) + "|number"; if (!once.insert(k).second) continue;
        C.R.add(mk("index-space", c.CB, k, "'" + nm + "' is handed to " + shortName(c.H) + " with '" + names[y.caller] + "', the number of entries of '" + names[other] + "'; everywhere else it goes with '" + names[c0] + "'")); } }
    for (auto &e : all) guards(*e);
  }
  // what is done only if one list has entries is done with that list
  void guards(Ext &E) {
    auto &m = ev[home(&E.F)]; std::map<std::string, std::set<std::string>> numsOf, listsOf; for (auto &p : m) numsOf[p.first.first].insert(p.first.second), listsOf[p.first.second].insert(p.first.first);
    for (auto &BB : E.F) { auto *Br = dyn_cast<BranchInst>(BB.getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm) continue; auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1)); if (!K || !K->isZero()) continue; auto pr = Cm->getPredicate(); int in = pr == CmpInst::ICMP_NE || pr == CmpInst::ICMP_UGT ? 0 : pr == CmpInst::ICMP_EQ ? 1 : -1; if (in < 0) continue;
      auto c = root(key(E, Cm->getOperand(0))); if (c.empty() || !listsOf.count(c)) continue; auto *In = Br->getSuccessor(in), *Out = Br->getSuccessor(1 - in); if (In->getSinglePredecessor() != &BB || E.DT.dominates(In, Out)) continue; if (Out->getTerminator() && isa<ReturnInst>(Out->getTerminator()) && in == 1) continue;
      C.R.counts["guards_on_numbers_of_entries"]++; bool uses = false; std::map<std::string, unsigned> others; bool leaves = false;
      for (auto &X : E.F) if (E.DT.dominates(In, &X)) { leaves |= isa<ReturnInst>(X.getTerminator()); for (auto &I : X) for (auto &o : I.operands()) { if (isa<Constant>(o) || isa<BasicBlock>(o)) continue; if (!isa<Instruction>(o) && !isa<Argument>(o)) continue; for (int ref = 0; ref < 2; ref++) { if (ref && !o->getType()->isPointerTy()) continue; if (ref && !isa<CallBase>(I)) continue; auto k = root(ref ? B.slot(E, o) : key(E, o)); if (k.empty()) continue; uses |= k == c || listsOf[c].count(k); if (listsOf.count(k)) others[k]++; auto it = numsOf.find(k); if (it != numsOf.end() && it->second.size() == 1) others[*it->second.begin()]++; } } }
      if (uses || leaves || others.empty()) continue; std::string o; unsigned n = 0; for (auto &p : others) if (p.second > n && !names[p.first].empty()) n = p.second, o = p.first; if (n < 3) continue;
      C.R.add(mk("index-space", Cm, funcKey(&E.F) + "|guard " + names[c] + "|" + names[o], "what is done only if '" + names[c] + "' is not zero has nothing to do with the lists of that many entries, but with those of '" + names[o] + "'")); }
  }
};
} // namespace
void runPairs(Ctx &C) { Pairs P(C); P.run(); }
} // namespace vcsa
