// No sphere is made larger than the limits on its size, and no sphere grows once it is made.
#include <llvm/BinaryFormat/Dwarf.h>
#include "labels.h"
#include "facts.h"
namespace vcsa {
namespace {
struct Caps { bool top = false; std::set<std::string> t;
  static Caps all() { Caps c; c.top = true; return c; }
  Caps &join(const Caps &o) { top |= o.top; t.insert(o.t.begin(), o.t.end()); return *this; } // below both
  Caps &meet(const Caps &o) { std::set<std::string> r; for (auto &x : t) if (o.top || o.t.count(x)) r.insert(x); if (top) for (auto &x : o.t) r.insert(x); top = top && o.top; t = r; return *this; }
  std::string str() const { std::string s; for (auto &x : t) s += (s.empty() ? "" : ", ") + x; return s.empty() ? "nothing" : s; } };
struct Shared { Ctx &C; Labels L; ModSets MS; std::set<const Value *> sizes, counts, arrays; std::map<const Function *, int> told /* functions that report a change of a radius by their result */; Shared(Ctx &C) : C(C), L(*C.M), MS(*C.M) {} };
struct Size {
  Shared &S; Labels &L; Function &F; DominatorTree DT; LoopInfo LI; Size(Shared &S, Function &F) : S(S), L(S.L), F(F), DT(F), LI(DT) {}
  static const Function *repo(const Value *V) { auto *CB = dyn_cast<CallBase>(V); auto *H = CB ? calleeOf(CB) : nullptr; return H && isRepoFunc(H) ? H : nullptr; }
  static bool named(const Value *V, const char *n) { auto *H = repo(V); if (!H) return false; auto s = shortName(H); return s.rfind(n) != std::string::npos && s.rfind(n) + strlen(n) == s.size(); }
  static bool starts(const Value *V, const char *n) { auto *H = repo(V); if (!H) return false; auto s = shortName(H); auto p = s.rfind("::"); return s.compare(p == std::string::npos ? 0 : p + 2, strlen(n), n) == 0; }
  bool sizingTree(const Value *V) { auto l = L.lab(V); return l.exact.count("SIZING_FILE") > 0; }
  static bool elem(const Value *P, const Value *&base, long &k) { P = P->stripPointerCasts(); if (auto *A = dyn_cast<AllocaInst>(P); A && A->getAllocatedType()->isDoubleTy()) { base = A; k = 0; return true; } auto *G = dyn_cast<GEPOperator>(P); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) return false; auto *K = dyn_cast<ConstantInt>(G->getOperand(1)); if (!K) return false; base = G->getPointerOperand()->stripPointerCasts(); k = K->getSExtValue(); return true; }
  bool quiet(const Instruction *a, const Instruction *b, const Value *P) { // nothing between a and b (a before b) writes to P
    const Value *ob; long ok; bool isEl = elem(P, ob, ok); const Instruction *I = b; for (int n = 0; n < 400; n++) { I = I->getPrevNode() ? I->getPrevNode() : I->getParent()->getSinglePredecessor() ? I->getParent()->getSinglePredecessor()->getTerminator() : nullptr; if (!I) return false; if (I == a) return true; if (auto *T = dyn_cast<StoreInst>(I)) { if (T->getPointerOperand() == P) return false; const Value *b2; long k2; if (isEl && elem(T->getPointerOperand(), b2, k2) && sameBase(b2, ob) && k2 == ok) return false; } if (auto *CB = dyn_cast<CallBase>(I); CB && !isa<IntrinsicInst>(CB)) for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k) == P || (isEl && sameBase(CB->getArgOperand(k), ob))) { auto *H = calleeOf(CB); if (H && !H->isDeclaration()) { auto it = S.MS.writesArg.find(H); if (it != S.MS.writesArg.end() && !it->second.count(k)) continue; } return false; } } return false; }
  static bool sameBase(const Value *a, const Value *b) { if (a == b) return true; auto *x = dyn_cast<LoadInst>(a), *y = dyn_cast<LoadInst>(b); if (x && y) return sameBase(x->getPointerOperand(), y->getPointerOperand()); auto *g = dyn_cast<GEPOperator>(a), *h = dyn_cast<GEPOperator>(b); if (g && h && g->getNumIndices() == h->getNumIndices() && g->getSourceElementType() == h->getSourceElementType()) { for (unsigned k = 0; k < g->getNumOperands(); k++) if (!sameBase(g->getOperand(k), h->getOperand(k)) && !sameExpr(g->getOperand(k), h->getOperand(k))) return false; return true; } auto *i = dyn_cast<CastInst>(a), *j = dyn_cast<CastInst>(b); return i && j && i->getOpcode() == j->getOpcode() && sameBase(i->getOperand(0), j->getOperand(0)); }
  bool same(const Value *a, const Value *b, int d = 0) { // the same number
    if (a == b) return true; if (d > 6) return false; if (auto *x = dyn_cast<ConstantFP>(a)) { auto *y = dyn_cast<ConstantFP>(b); return y && x->isExactlyValue(y->getValueAPF()); }
    auto *x = dyn_cast<Instruction>(a), *y = dyn_cast<Instruction>(b); if (!x || !y || x->getOpcode() != y->getOpcode() || x->getNumOperands() != y->getNumOperands()) return false;
    if (auto *l = dyn_cast<LoadInst>(x)) { auto *m = cast<LoadInst>(y); if (l->getType() != m->getType() || !sameBase(l->getPointerOperand(), m->getPointerOperand())) return false; return DT.dominates(l, m) ? quiet(l, m, m->getPointerOperand()) : DT.dominates(m, l) && quiet(m, l, l->getPointerOperand()); }
    if (!isa<BinaryOperator>(x) && !isa<CastInst>(x)) return false; for (unsigned k = 0; k < x->getNumOperands(); k++) if (!same(x->getOperand(k), y->getOperand(k))) return false; return true;
  }
  std::string treeKey(const Value *T) { if (auto *A = dyn_cast<Argument>(T)) { return varName(A, &F); } if (auto *X = dyn_cast<LoadInst>(T)) { auto n = varName(X->getPointerOperand()->stripPointerCasts(), &F); if (n.empty()) if (auto *G = dyn_cast<GEPOperator>(X->getPointerOperand()->stripPointerCasts())) n = G->getSourceElementType()->isStructTy() ? fieldOf(G, S.C.M) : ""; if (!n.empty()) return n; } return describe(T); }
  // ---- facts on an edge: v is at most x
  struct Edge { std::vector<std::pair<const Value *, const Value *>> le; bool noSizing = false, few = false; std::set<std::string> noTree; };
  void cond(const Value *V, bool truth, Edge &e, int d = 0) {
    if (d > 6) return;
    if (auto *X = dyn_cast<FCmpInst>(V)) { auto P = truth ? X->getPredicate() : X->getInversePredicate(); auto *a = X->getOperand(0), *b = X->getOperand(1); if (P == CmpInst::FCMP_OLT || P == CmpInst::FCMP_OLE || P == CmpInst::FCMP_ULT || P == CmpInst::FCMP_ULE) e.le.push_back({a, b}); if (P == CmpInst::FCMP_OGT || P == CmpInst::FCMP_OGE || P == CmpInst::FCMP_UGT || P == CmpInst::FCMP_UGE) e.le.push_back({b, a}); return; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth)) { cond(B->getOperand(0), truth, e, d + 1); cond(B->getOperand(1), truth, e, d + 1); } if (B->getOpcode() == Instruction::Xor) cond(B->getOperand(0), !truth, e, d + 1); return; }
    if (isa<TruncInst>(V) || isa<ZExtInst>(V) || isa<FreezeInst>(V)) { cond(cast<Instruction>(V)->getOperand(0), truth, e, d + 1); return; }
    if (auto *X = dyn_cast<ICmpInst>(V); X && X->isEquality() && isFlag(X->getOperand(0))) if (auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); K && K->isZero()) { cond(X->getOperand(0), truth == (X->getPredicate() == CmpInst::ICMP_NE), e, d + 1); return; }
    if (auto *X = dyn_cast<ICmpInst>(V)) { auto P = truth ? X->getPredicate() : X->getInversePredicate(); auto *a = X->getOperand(0), *b = X->getOperand(1); if (isa<Constant>(a)) { std::swap(a, b); P = CmpInst::getSwappedPredicate(P); }
      if (isa<ConstantPointerNull>(b)) { if (P == CmpInst::ICMP_EQ && sizingTree(a)) e.noSizing = true; return; }
      auto *K = dyn_cast<ConstantInt>(b); if (!K) return; long k = K->getSExtValue(); bool zero = (P == CmpInst::ICMP_EQ && k == 0) || (P == CmpInst::ICMP_ULE && k == 0) || (P == CmpInst::ICMP_ULT && k == 1) || (P == CmpInst::ICMP_SLE && k == 0) || (P == CmpInst::ICMP_SLT && k == 1); bool small = zero || ((P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_SLE) && k <= 1) || ((P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_SLT) && k <= 2);
      if (small && !isa<CallBase>(a)) e.few = true; if (zero) { if (S.counts.count(root(a))) e.noSizing = true; if (auto *CB = dyn_cast<CallBase>(a); CB && named(a, "::get_num_tree_points")) { e.noTree.insert(treeKey(CB->getArgOperand(0))); if (sizingTree(CB->getArgOperand(0))) e.noSizing = true; } } }
  }
  Edge on(const BasicBlock *P, const BasicBlock *B) { Edge e; auto one = [&](const BasicBlock *p, const BasicBlock *b) { auto *Br = dyn_cast<BranchInst>(p->getTerminator()); if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) cond(Br->getCondition(), Br->getSuccessor(0) == b, e); };
    one(P, B); for (auto *N = DT.getNode(P); N && N->getIDom(); N = N->getIDom()) { auto *X = N->getBlock(); if (auto *Q = X->getSinglePredecessor()) one(Q, X); } return e; }
  Edge at(const BasicBlock *B) { Edge e; for (auto *N = DT.getNode(B); N && N->getIDom(); N = N->getIDom()) { auto *X = N->getBlock(); if (auto *Q = X->getSinglePredecessor()) { auto *Br = dyn_cast<BranchInst>(Q->getTerminator()); if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) cond(Br->getCondition(), Br->getSuccessor(0) == X, e); } } return e; }
  const Value *root(const Value *V, int d = 0) { if (auto *X = dyn_cast<CastInst>(V)) return root(X->getOperand(0), d + 1); if (auto *X = dyn_cast<LoadInst>(V)) if (d < 4) { auto *P = X->getPointerOperand()->stripPointerCasts(); if (isa<AllocaInst>(P) || isa<Argument>(P)) return P; } return V; }
  void vacuous(Caps &c, const Edge &e) { if (e.noSizing) c.t.insert("SIZING"); if (e.few) { c.t.insert("neighbour + Lip * distance"); c.t.insert("distance to neighbours"); } for (auto &k : e.noTree) { c.t.insert("closest in " + k); if (grown().count(k)) { c.t.insert("neighbour + Lip * distance"); c.t.insert("distance to neighbours"); } } }
  std::set<std::string> grownSet; bool grownDone = false; std::set<std::string> &grown() { if (!grownDone) { grownDone = true; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && named(CB, "::add_tree_point")) grownSet.insert(treeKey(CB->getArgOperand(0))); } return grownSet; }
  typedef std::pair<const BasicBlock *, std::pair<const Value *, long>> MK; std::map<const Value *, Caps> cur; std::map<MK, Caps> curM; std::set<const Value *> seen; std::set<MK> seenM; bool changed = false; int depth = 0;
  template <class K> Caps &put(std::map<K, Caps> &m, const K &k, const Caps &c) { auto &o = m.emplace(k, Caps::all()).first->second; if (o.top != c.top || o.t != c.t) { o = c; changed = true; } return o; }
  // the largest solution: start from "limited by everything" and go round until nothing changes
  Caps solve(const std::function<Caps()> &f) { if (depth) return f(); Caps r; depth = 1; for (int n = 0; n < 40; n++) { seen.clear(); seenM.clear(); changed = false; r = f(); if (!changed) break; } depth = 0; return r; }
  Caps caps(const Value *V) { return solve([&] { return caps1(V); }); }
  // the loop takes every entry: from the first one, one by one, up to their number, and ends only there
  bool visitsAll(const Loop *Lp) {
    SmallVector<BasicBlock *, 4> ex; Lp->getExitingBlocks(ex); auto *H = Lp->getHeader(); for (auto *B : ex) if (B != H && !(isa<InvokeInst>(B->getTerminator()) && Lp->contains(cast<InvokeInst>(B->getTerminator())->getNormalDest()))) { if (getenv("CAPDBG")) fprintf(stderr, "left early: %s\n", where(B->getTerminator()).c_str()); return false; }
    for (auto &P : H->phis()) if (P.getType()->isIntegerTy(64) || P.getType()->isIntegerTy(32)) for (auto *U : P.users()) { auto *X = dyn_cast<ICmpInst>(U); if (!X || X->getParent() != H || X != (H->getTerminator()->getNumOperands() ? H->getTerminator()->getOperand(0) : nullptr)) continue;
      for (unsigned k = 0; k < P.getNumIncomingValues(); k++) { auto *V = P.getIncomingValue(k); if (Lp->contains(P.getIncomingBlock(k))) { auto *A = dyn_cast<BinaryOperator>(V); auto *K = A ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr; if (!A || A->getOpcode() != Instruction::Add || A->getOperand(0) != &P || !K || !(K->isOne() || K->isMinusOne())) return false; } else { auto *K = dyn_cast<ConstantInt>(V); if (K && !K->isZero()) return false; } }
      auto *Y = X->getOperand(0) == &P ? X->getOperand(1) : X->getOperand(0); if (auto *A = dyn_cast<BinaryOperator>(Y)) if ((A->getOpcode() == Instruction::Sub || A->getOpcode() == Instruction::Add) && isa<ConstantInt>(A->getOperand(1)) && (A->getOpcode() == Instruction::Sub || cast<ConstantInt>(A->getOperand(1))->isNegative())) return false; }
    return true; }
  Caps caps1(const Value *V) {
    Caps c; if (isa<ConstantFP>(V)) return c; if (!seen.insert(V).second) { auto it = cur.find(V); return it == cur.end() ? Caps::all() : it->second; }
    auto l = L.lab(V); if (!isa<Constant>(V) && l.exact.size() == 1 && l.derived.empty() && l.exact.count("R_MAX") && !l.other) c.t.insert("R_MAX");
    if (auto *P = dyn_cast<PHINode>(V)) {
      Caps r = Caps::all(), latch = Caps::all(); bool header = LI.isLoopHeader(P->getParent()), anyLatch = false; auto *Lp = LI.getLoopFor(P->getParent());
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { auto *X = P->getIncomingValue(k); auto *Bk = P->getIncomingBlock(k); Caps x = caps(X); auto e = on(Bk, P->getParent()); for (auto &f : e.le) if (same(f.first, X)) x.join(caps(f.second)); vacuous(x, e); r.meet(x); if (header && Lp->contains(Bk)) { anyLatch = true; Caps y; y.t = x.t; if (!anyLatch || latch.top) latch = y; else latch.meet(y); } }
      if (header && anyLatch && visitsAll(Lp)) for (auto *n : {"neighbour + Lip * distance", "distance to neighbours"}) if (latch.t.count(n)) r.t.insert(n);
      c.join(r);
    } else if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *H = calleeOf(CB); auto n = H ? H->getName() : StringRef(); 
      if (n == "fmin" || n.starts_with("llvm.minnum")) { c.join(caps(CB->getArgOperand(0))); c.join(caps(CB->getArgOperand(1))); }
      else if (n == "fmax" || n.starts_with("llvm.maxnum")) { auto x = caps(CB->getArgOperand(0)); x.meet(caps(CB->getArgOperand(1))); c.join(x); }
      else if (n.starts_with("llvm.fmuladd")) { auto *m = CB->getArgOperand(0), *o = CB->getArgOperand(1); if (isLip(m) || isLip(o)) c.t.insert("neighbour + Lip * distance"); }
      else if (named(CB, "::get_tree_point_attrib") && V->getType()->isDoubleTy()) { if (sizingTree(CB->getArgOperand(0))) c.t.insert("SIZING"); }
    } else if (auto *Se = dyn_cast<SelectInst>(V)) { Edge t, f; cond(Se->getCondition(), true, t); cond(Se->getCondition(), false, f); Caps a = caps(Se->getTrueValue()), b = caps(Se->getFalseValue()); for (auto &x : t.le) if (same(x.first, Se->getTrueValue())) a.join(caps(x.second)); for (auto &x : f.le) if (same(x.first, Se->getFalseValue())) b.join(caps(x.second)); vacuous(a, t); vacuous(b, f); a.meet(b); c.join(a); }
    else if (auto *B = dyn_cast<BinaryOperator>(V)) {
      if (B->getOpcode() == Instruction::FMul) for (int s = 0; s < 2; s++) if (auto *K = dyn_cast<ConstantFP>(B->getOperand(s))) { double k = K->getValueAPF().convertToDouble(); if (k > 0 && k <= 0.5) { auto *X = B->getOperand(1 - s); auto t = closest(X); if (!t.empty()) c.t.insert("closest in " + t); } if (k > 0 && k <= 1) { auto x = caps(B->getOperand(1 - s)); c.join(x); } }
      if (B->getOpcode() == Instruction::FAdd) for (int s = 0; s < 2; s++) if (auto *M = dyn_cast<BinaryOperator>(B->getOperand(s))) if (M->getOpcode() == Instruction::FMul && (isLip(M->getOperand(0)) || isLip(M->getOperand(1)))) c.t.insert("neighbour + Lip * distance");
      if (B->getOpcode() == Instruction::FDiv && named(B->getOperand(0), "::distance")) c.t.insert("distance to neighbours");
    } else if (auto *Ld = dyn_cast<LoadInst>(V); Ld && std_(Ld->getPointerOperand())) { // std::min(a, b), std::max(a, b)
      auto *CB = cast<CallBase>(Ld->getPointerOperand()); Caps a = slot(CB, 0), b = slot(CB, 1); if (std_(CB) > 0) a.join(b); else a.meet(b); c.join(a);
    } else if (auto *Ld = dyn_cast<LoadInst>(V)) {
      auto *P = Ld->getPointerOperand()->stripPointerCasts(); const Value *b; long k;
      if (auto *G = dyn_cast<GEPOperator>(P)) { if (G->getSourceElementType()->isStructTy()) { auto f = fieldOf(G, S.C.M); if (f.find("._r_min_") != std::string::npos) { put(cur, V, Caps::all()); return Caps::all(); } } else if (S.arrays.count(root(G->getPointerOperand()))) c.t.insert("SIZING"); }
      if (isa<AllocaInst>(P) && elem(P, b, k)) c.join(mem(Ld, b, k)); else if (elem(P, b, k) && k == 3) { if (auto *CB = dyn_cast<CallBase>(b); CB && named(b, "::get_tree_point") && sizingTree(CB->getArgOperand(0))) c.t.insert("SIZING"); else { auto m = mem(Ld, b, k); auto q = m; q.t.erase("neighbour + Lip * distance"); q.t.erase("distance to neighbours"); if (q.t.empty() && !q.top) c.t.insert("radius of " + baseName(b)); c.join(m); } }
    }
    return put(cur, V, c);
  }
  std::set<const BasicBlock *> live; // blocks not behind a condition that is the constant false
  static int known(const Value *V, int d = 0) { if (auto *K = dyn_cast<ConstantInt>(V)) return K->isOne(); if (d > 4) return -1; if (auto *P = dyn_cast<PHINode>(V)) { int r = -2; for (auto &x : P->incoming_values()) { int k = known(x, d + 1); if (r == -2) r = k; if (k != r) r = -1; } return r == -2 ? -1 : r; } if (auto *B = dyn_cast<BinaryOperator>(V)) for (auto &x : B->operands()) { int k = known(x, d + 1); if (B->getOpcode() == Instruction::And && k == 0) return 0; if (B->getOpcode() == Instruction::Or && k == 1) return 1; } if (auto *Se = dyn_cast<SelectInst>(V)) { int a = known(Se->getTrueValue(), d + 1), b = known(Se->getFalseValue(), d + 1); return a == b ? a : -1; } return -1; }
  bool dead(const BasicBlock *B) { if (live.empty()) { std::vector<const BasicBlock *> w{&F.getEntryBlock()}; live.insert(w[0]); while (!w.empty()) { auto *X = w.back(); w.pop_back(); int k = -1; if (auto *Br = dyn_cast<BranchInst>(X->getTerminator()); Br && Br->isConditional()) k = known(Br->getCondition()); unsigned n = 0; for (auto *Y : successors(X)) { if (!(k >= 0 && n == (k ? 1u : 0u)) && live.insert(Y).second) w.push_back(Y); n++; } } } return !live.count(B); }
  // ---- a change of a radius is reported, or makes the loop around it go round again
  typedef std::map<const Value *, int> Env;
  static const Value *flagOf(const Value *P) { P = P->stripPointerCasts(); return isa<AllocaInst>(P) || isa<Argument>(P) ? P : nullptr; }
  int eval(const Value *V, const Env &e, int d = 0) { if (auto *K = dyn_cast<ConstantInt>(V)) return K->isZero() ? 0 : 1; if (d > 8) return -1; auto it = e.find(V); if (it != e.end()) return it->second;
    if (auto *X = dyn_cast<CastInst>(V)) return isa<TruncInst>(X) || isa<ZExtInst>(X) || isa<SExtInst>(X) || isa<FreezeInst>(X) ? eval(X->getOperand(0), e, d + 1) : -1;
    if (auto *X = dyn_cast<LoadInst>(V)) { auto *p = flagOf(X->getPointerOperand()); auto j = p ? e.find(p) : e.end(); return j == e.end() ? -1 : j->second; }
    if (auto *X = dyn_cast<ICmpInst>(V)) if (auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); K && X->isEquality() && (K->isZero() || K->isOne())) { int a = eval(X->getOperand(0), e, d + 1); if (a < 0) return -1; bool eq = a == (K->isZero() ? 0 : 1); return (X->getPredicate() == CmpInst::ICMP_EQ) == eq; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { int a = eval(B->getOperand(0), e, d + 1), b = eval(B->getOperand(1), e, d + 1); if (B->getOpcode() == Instruction::And) return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1; if (B->getOpcode() == Instruction::Or) return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1; if (B->getOpcode() == Instruction::Xor && a >= 0 && b >= 0) return a ^ b; }
    if (auto *Se = dyn_cast<SelectInst>(V)) { int c = eval(Se->getCondition(), e, d + 1); int a = eval(Se->getTrueValue(), e, d + 1), b = eval(Se->getFalseValue(), e, d + 1); return c == 1 ? a : c == 0 ? b : a == b ? a : -1; }
    return -1; }
  static bool isFlag(const Value *V) { return V->getType()->isIntegerTy(1) || V->getType()->isIntegerTy(8); }
  bool flagParam() { // a parameter that is a reference to bool
    auto *SP = F.getSubprogram(); if (!SP || !SP->getType()) return false; for (auto *T : SP->getType()->getTypeArray()) if (auto *D = dyn_cast_or_null<DIDerivedType>(T); D && D->getTag() == dwarf::DW_TAG_reference_type) if (auto *B = dyn_cast_or_null<DIBasicType>(D->getBaseType()); B && B->getEncoding() == dwarf::DW_ATE_boolean) return true; return false; }
  bool reporter() { if (flagParam()) return true; if (F.getReturnType()->isIntegerTy(1)) return true; for (auto &I : instructions(F)) if (auto *T = dyn_cast<StoreInst>(&I); T && isa<Argument>(T->getPointerOperand()) && isFlag(T->getValueOperand())) if (auto *K = dyn_cast<ConstantInt>(T->getValueOperand()); K && !K->isZero()) return true; return false; }
  // the instruction by which the function is left although the change made at 'site' is not reported
  const Instruction *unreported(const Instruction *site, Env env, const std::function<bool(const CallBase *, Env &)> &call = nullptr) {
    const Loop *out = LI.getLoopFor(site->getParent()); while (out && out->getParentLoop()) out = out->getParentLoop(); bool rep = reporter(); if (!rep && !out) return nullptr;
    bool given = false; auto facts = at(site->getParent()); for (auto *N = DT.getNode(site->getParent()); N && N->getIDom(); N = N->getIDom()) { auto *X = N->getBlock(); auto *Q = X->getSinglePredecessor(); auto *Br = Q ? dyn_cast<BranchInst>(Q->getTerminator()) : nullptr; if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue; for (auto &A : F.args()) if (A.getType()->isPointerTy()) { Env e1{{&A, 0}}; int k = eval(Br->getCondition(), e1); if (k >= 0 && (k == 1) != (Br->getSuccessor(0) == X)) given = true; } } (void)facts; if (given) return nullptr;
    struct St { const BasicBlock *B; const Instruction *from; Env e; }; std::vector<St> w{{site->getParent(), env.empty() ? nullptr : site, env}}; std::set<std::pair<const BasicBlock *, Env>> done; long n = 0;
    while (!w.empty()) { auto s = w.back(); w.pop_back(); if (++n > 60000) return nullptr; Env e = s.e; bool stop = false;
      for (auto *I = s.from ? s.from->getNextNode() : &s.B->front(); I && !stop; I = I->getNextNode()) {
        if (auto *T = dyn_cast<StoreInst>(I); T && isFlag(T->getValueOperand())) { if (auto *p = flagOf(T->getPointerOperand())) { int k = eval(T->getValueOperand(), e); if (k >= 0) e[p] = k; else e.erase(p); } }
        if (auto *CB = dyn_cast<CallBase>(I); CB && !isa<IntrinsicInst>(CB)) for (auto &a : CB->args()) if (auto *p = flagOf(a)) { if (auto *H = calleeOf(CB); isa<Argument>(p) && e.count(p) && e[p] == 1 && H && isRepoFunc(H)) continue; e.erase(p); }
        if (auto *R = dyn_cast<ReturnInst>(I)) { bool ok = false; for (auto &x : e) if (x.second == 1) ok |= isa<Argument>(x.first); if (auto *V = R->getReturnValue()) { if (V->getType()->isIntegerTy(1) && !ok && !flagParam()) { int k = eval(V, e); if (k >= 0 && (S.told.count(&F) == 0 || S.told[&F] == k)) { S.told[&F] = k; ok = true; } } if (auto *K = dyn_cast<ConstantInt>(V); K && V->getType()->isIntegerTy(32) && !K->isZero()) ok = true; } if (!ok) return R; } }
      int k = -1; if (auto *Br = dyn_cast<BranchInst>(s.B->getTerminator()); Br && Br->isConditional()) k = eval(Br->getCondition(), e); unsigned q = 0;
      for (auto *Y : successors(s.B)) { unsigned m = q++; if (k >= 0 && m == (k ? 1u : 0u)) continue; if (!rep && out && Y == out->getHeader()) continue; Env f = e; for (auto &P : Y->phis()) { if (!isFlag(&P)) continue; int v = eval(P.getIncomingValueForBlock(s.B), e); if (v >= 0) f[&P] = v; else f.erase(&P); }
        for (auto it = f.begin(); it != f.end();) { auto *J = dyn_cast<Instruction>(it->first); if (J && !isa<PHINode>(J) && !isa<AllocaInst>(J) && !isa<CallBase>(J)) it = f.erase(it); else ++it; }
        if (done.insert({Y, f}).second) w.push_back({Y, nullptr, f}); } }
    return nullptr; }
  std::string baseName(const Value *b) { auto n = varName(b, &F); return n.empty() ? describe(b) : n; }
  static int std_(const Value *V) { auto *CB = dyn_cast<CallBase>(V); auto *H = CB ? calleeOf(CB) : nullptr; if (!H || CB->arg_size() != 2) return 0; auto n = H->getName(); return n.starts_with("_ZSt3minId") ? 1 : n.starts_with("_ZSt3maxId") ? -1 : 0; }
  Caps slot(const CallBase *CB, unsigned k) { auto *P = CB->getArgOperand(k)->stripPointerCasts(); const Value *b; long j; if (elem(P, b, j)) return mem1(CB, b, j); const Instruction *I = CB; for (int n = 0; n < 200; n++) { I = I->getPrevNode() ? I->getPrevNode() : I->getParent()->getSinglePredecessor() ? I->getParent()->getSinglePredecessor()->getTerminator() : nullptr; if (!I) break; if (auto *T = dyn_cast<StoreInst>(I)) if (T->getPointerOperand() == P) { auto *X = const_cast<Value *>(T->getValueOperand()); Caps c = caps1(X); auto e = at(CB->getParent()); for (auto &f : e.le) if (same(f.first, X)) c.join(caps1(f.second)); return c; } } Caps c; auto v = L.object(P); if (v.exact.size() == 1 && v.exact.count("R_MAX") && v.derived.empty() && !v.other) c.t.insert("R_MAX"); return c; }
  bool isLip(const Value *V) { auto l = L.lab(V); return l.exact.size() == 1 && l.exact.count("LIP_CONST"); }
  std::string closest(const Value *V) { // the tree whose closest entry's distance this is
    auto *Ld = dyn_cast<LoadInst>(V); if (!Ld) return ""; auto *P = Ld->getPointerOperand()->stripPointerCasts(); const Instruction *I = Ld;
    for (int n = 0; n < 400; n++) { I = I->getPrevNode() ? I->getPrevNode() : I->getParent()->getSinglePredecessor() ? I->getParent()->getSinglePredecessor()->getTerminator() : nullptr; if (!I) return ""; if (auto *T = dyn_cast<StoreInst>(I)) if (T->getPointerOperand() == P) return ""; if (auto *CB = dyn_cast<CallBase>(I)) for (auto &a : CB->args()) if (a->stripPointerCasts() == P) return starts(CB, "get_closest") ? treeKey(CB->getArgOperand(0)) : ""; }
    return ""; }
  // ---- what element k of an array was capped by when it was last stored
  Caps mem(const Instruction *at, const Value *base, long k) { return solve([&] { return mem1(at, base, k); }); }
  Caps mem1(const Instruction *at, const Value *base, long k) {
    for (auto *I = at->getPrevNode(); I; I = I->getPrevNode()) { Caps r; if (step(I, base, k, r)) return r; }
    auto *B = at->getParent(); return before(B, base, k); }
  bool step(const Instruction *I, const Value *base, long k, Caps &r) {
    if (auto *T = dyn_cast<StoreInst>(I)) { const Value *b; long j; if (!elem(T->getPointerOperand(), b, j) || !sameBase(b, base)) return false; if (j != k) return false; r = caps(T->getValueOperand()); auto e = at2(T); for (auto &f : e.le) if (same(f.first, T->getValueOperand())) r.join(caps(f.second)); return true; }
    if (I == base) return true; // a new array
    if (auto *CB = dyn_cast<CallBase>(I); CB && !isa<IntrinsicInst>(CB)) for (unsigned a = 0; a < CB->arg_size(); a++) if (sameBase(CB->getArgOperand(a)->stripPointerCasts(), base)) { auto *H = calleeOf(CB); if (H && !H->isDeclaration()) { auto it = S.MS.writesArg.find(H); if (it != S.MS.writesArg.end() && !it->second.count(a)) continue; } return true; }
    return false; }
  Edge at2(const Instruction *I) { return at(I->getParent()); }
  Caps before(const BasicBlock *B, const Value *base, long k) {
    if (B == &F.getEntryBlock()) return Caps(); auto key = std::make_pair(B, std::make_pair(base, k)); if (!seenM.insert(key).second) { auto it = curM.find(key); return it == curM.end() ? Caps::all() : it->second; } Caps r = Caps::all(), latch = Caps::all(); bool any = false;
    for (auto *P : predecessors(B)) { any = true; Caps x; bool hit = false; for (auto it = P->rbegin(); it != P->rend() && !hit; ++it) hit = step(&*it, base, k, x); if (!hit) x = before(P, base, k);
      Edge e; auto *Br = dyn_cast<BranchInst>(P->getTerminator()); if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) cond(Br->getCondition(), Br->getSuccessor(0) == B, e);
      for (auto &f : e.le) if (auto *Ld = dyn_cast<LoadInst>(f.first)) { const Value *b; long j; if (Ld->getParent() == P && elem(Ld->getPointerOperand(), b, j) && j == k && sameBase(b, base) && quiet(Ld, P->getTerminator(), Ld->getPointerOperand())) x.join(caps(f.second)); }
      vacuous(x, e); r.meet(x); if (LI.isLoopHeader(B) && LI.getLoopFor(B)->contains(P)) latch.meet(x); }
    if (any && LI.isLoopHeader(B)) for (auto *n : {"neighbour + Lip * distance", "distance to neighbours"}) if (latch.t.count(n)) r.t.insert(n);
    return put(curM, key, any ? r : Caps()); }
  // ---- the radius an entry has now
  bool isRadiusOf(const Value *V, const Value *tree, const Value *idx) { // V is the radius of entry idx of the tree
    if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::FMul) for (int s = 0; s < 2; s++) if (auto *K = dyn_cast<ConstantFP>(B->getOperand(s))) { double k = K->getValueAPF().convertToDouble(); if (k > 0 && k <= 1) return isRadiusOf(B->getOperand(1 - s), tree, idx); }
    if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); auto n = H ? H->getName() : StringRef(); if (n == "fmin" || n.starts_with("llvm.minnum")) return isRadiusOf(CB->getArgOperand(0), tree, idx) || isRadiusOf(CB->getArgOperand(1), tree, idx); if (named(V, "::get_tree_point_attrib")) return sameBase(CB->getArgOperand(0), tree) && idxSame(CB->getArgOperand(1), idx); return false; }
    auto *Ld = dyn_cast<LoadInst>(V); if (!Ld) return false; const Value *b; long k; if (!elem(Ld->getPointerOperand(), b, k) || k != 3) return false;
    if (auto *CB = dyn_cast<CallBase>(b)) if (named(b, "::get_tree_point")) return sameBase(CB->getArgOperand(0), tree) && idxSame(CB->getArgOperand(1), idx);
    const Instruction *I = Ld; for (int n = 0; n < 400; n++) { I = I->getPrevNode() ? I->getPrevNode() : idom(I->getParent()); if (!I) return false; if (auto *CB = dyn_cast<CallBase>(I)) for (unsigned a = 1; a < CB->arg_size(); a++) if (sameBase(CB->getArgOperand(a)->stripPointerCasts(), b) && named(CB, "::get_tree_point")) return sameBase(CB->getArgOperand(0), tree) && idxSame(CB->getArgOperand(1), idx); }
    return false; }
  const Instruction *idom(const BasicBlock *B) { auto *N = DT.getNode(B); return N && N->getIDom() ? N->getIDom()->getBlock()->getTerminator() : nullptr; }
  static bool idxSame(const Value *a, const Value *b) { return a == b || sameExpr(a, b); }
  bool shrinks(const Value *V, const Instruction *I, const std::function<bool(const Value *)> &old) {
    if (old(V)) return true; auto e = at(I->getParent());
    for (auto &f : e.le) { const Value *v = f.first; bool hit = same(v, V); if (!hit) if (auto *B = dyn_cast<BinaryOperator>(v); B && (B->getOpcode() == Instruction::FMul || B->getOpcode() == Instruction::FAdd)) for (int s = 0; s < 2; s++) if (auto *K = dyn_cast<ConstantFP>(B->getOperand(s))) if (K->getValueAPF().convertToDouble() >= (B->getOpcode() == Instruction::FMul ? 1 : 0) && same(B->getOperand(1 - s), V)) hit = true; if (hit && old(f.second)) return true; }
    if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); auto n = H ? H->getName() : StringRef(); if (n == "fmin" || n.starts_with("llvm.minnum")) return shrinks(CB->getArgOperand(0), I, old) || shrinks(CB->getArgOperand(1), I, old); }
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) if (!shrinks(x, I, old)) return false; return true; }
    if (auto *Se = dyn_cast<SelectInst>(V)) { Edge t, f; cond(Se->getCondition(), true, t); cond(Se->getCondition(), false, f); auto ok = [&](const Value *X, Edge &e) { if (old(X)) return true; for (auto &y : e.le) if (same(y.first, X) && old(y.second)) return true; return false; }; return ok(Se->getTrueValue(), t) && ok(Se->getFalseValue(), f); }
    return false; }
};
}
struct Want { const char *f; int trees; bool lip, cov; int radii; };
void runCaps(Ctx &C) {
  Shared S(C); long nm = 0, nu = 0, given = 0, nrep = 0; std::set<const Function *> changers;
  std::map<const Function *, std::unique_ptr<Size>> an; auto get = [&](Function &F) -> Size & { auto &p = an[&F]; if (!p) p.reset(new Size(S, F)); return *p; };
  std::vector<Function *> fs; for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration() && !(F.hasLocalLinkage() && F.use_empty())) fs.push_back(&F);
  // ---- where the entries of the sizing function are copied to, and their number
  for (bool ch = true; ch;) { ch = false; auto add = [&](std::set<const Value *> &s, const Value *V) { if (s.insert(V).second) ch = true; };
    for (auto *F : fs) { auto &Z = get(*F); for (auto &I : instructions(*F)) {
      if (auto *T = dyn_cast<StoreInst>(&I)) { auto *P = T->getPointerOperand()->stripPointerCasts(); auto *V = T->getValueOperand();
        if (V->getType()->isDoubleTy()) { if (auto *G = dyn_cast<GEPOperator>(P); G && !G->getSourceElementType()->isStructTy() && isa<LoadInst>(V)) { const Value *b; long k; auto *X = cast<LoadInst>(V)->getPointerOperand(); bool sz = Z.elem(X, b, k) && k == 3 && Z.named(b, "::get_tree_point") && Z.sizingTree(cast<CallBase>(b)->getArgOperand(0)); if (sz) { auto *R = Z.root(G->getPointerOperand()); add(S.arrays, R); } } }
        else if (isa<AllocaInst>(P)) { if (S.arrays.count(Z.root(V)) ) add(S.arrays, P); if (S.counts.count(Z.root(V))) add(S.counts, P); } }
      if (auto *P = dyn_cast<PHINode>(&I)) { for (auto &x : P->incoming_values()) { if (S.arrays.count(Z.root(x))) add(S.arrays, P); if (S.counts.count(Z.root(x))) add(S.counts, P); } }
      if (auto *CB = dyn_cast<CallBase>(&I)) { if (Z.named(CB, "::get_num_tree_points") && Z.sizingTree(CB->getArgOperand(0))) add(S.counts, CB);
        unsigned first = 0; auto *O = Labels::forked(CB, first); auto *H = O ? O : calleeOf(CB); if (!H || H->isDeclaration() || !(isRepoFunc(H) || isOutlined(H))) continue;
        for (unsigned k = O ? first : 0; k < CB->arg_size(); k++) { unsigned j = O ? k - first + 2 : k; if (j >= H->arg_size()) break; auto *R = Z.root(CB->getArgOperand(k)->stripPointerCasts()); if (S.arrays.count(R)) add(S.arrays, H->getArg(j)); if (S.counts.count(R)) add(S.counts, H->getArg(j)); } } } } }
  std::map<std::string, std::vector<std::pair<const Instruction *, Caps>>> made; 
  static const Want wants[] = {{"MeshingVoroCrustSampler::generate_corner_spheres", 2, false, false, 0}, {"MeshingVoroCrustSampler::generate_edge_spheres", 3, true, true, 0}, {"MeshingVoroCrustSampler::sample_active_pool", 3, true, true, 0}, {"MeshingVoronoiMesher::generate_interior_seeds", 0, true, false, 0}};
  for (auto *F : fs) { auto &Z = get(*F);
    std::vector<std::pair<const Instruction *, Caps>> sinks; std::vector<const Value *> bases;
    for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && Z.named(CB, "::add_tree_point") && CB->arg_size() >= 3) if (auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(1)); K && K->getZExtValue() == 4) { auto *b = CB->getArgOperand(2)->stripPointerCasts(); bool stored = false; for (auto &J : instructions(*F)) if (auto *T = dyn_cast<StoreInst>(&J)) { const Value *x; long k; if (Z.elem(T->getPointerOperand(), x, k) && k == 3 && Z.sameBase(x, b) && !isa<ConstantFP>(T->getValueOperand())) stored = true; } if (!stored) continue; bases.push_back(b); sinks.push_back({CB, Z.mem(CB, b, 3)}); }
    for (auto &I : instructions(*F)) if (auto *T = dyn_cast<StoreInst>(&I); T && T->getValueOperand()->getType()->isDoubleTy() && !isa<LoadInst>(T->getValueOperand())) { auto *G = dyn_cast<GEPOperator>(T->getPointerOperand()->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy()) continue; auto *b = G->getPointerOperand()->stripPointerCasts(); bool seen = Z.named(b, "::get_tree_point"); for (auto *x : bases) seen |= Z.sameBase(x, b); if (seen) continue; auto c = Z.caps(T->getValueOperand()); bool rel = c.t.count("R_MAX") || (c.t.count("SIZING") && c.t.count("neighbour + Lip * distance")); for (auto &w : wants) if (w.trees == 0 && funcKey(F) == w.f) rel |= c.t.count("SIZING") || c.t.count("neighbour + Lip * distance"); for (auto &x : c.t) rel |= x.rfind("closest in ", 0) == 0; if (rel) sinks.push_back({T, c}); }
    for (auto &s : sinks) { if (getenv("CAPDBG")) fprintf(stderr, "%s %s: %s\n", funcKey(F).c_str(), where(s.first).c_str(), s.second.str().c_str());
      bool rad = false; long nr = 0, nt = 0; for (auto &x : s.second.t) { nr += x.rfind("radius of ", 0) == 0; nt += x.rfind("closest in ", 0) == 0 && x.find("izing") == std::string::npos; } rad = nr > 0 && !s.second.t.count("R_MAX");
      nm++; auto fk = funcKey(F); C.R.sets["functions_that_make_spheres"].insert(fk);
      if (rad) { if (nr != 3) C.R.add(mk("seed-size", s.first, fk + "|" + std::to_string(nr), "the size of a seed made here is limited by the radii of " + std::to_string(nr) + " spheres, it lies on three: " + s.second.str())); continue; }
      if (!s.second.t.count("R_MAX")) C.R.add(mk("size-limit", s.first, fk + "|R_MAX", "the radius of a sphere made here need not be at most R_MAX; it is limited by: " + s.second.str()));
      if (!s.second.t.count("SIZING")) C.R.add(mk("size-limit", s.first, fk + "|SIZING", "the radius of a sphere made here need not be at most the size of the closest point of the sizing function; it is limited by: " + s.second.str()));
      for (auto &w : wants) if (fk == w.f || C.selftest) { if (C.selftest && std::string(w.f).find("generate_edge") == std::string::npos) continue;
        if (nt < w.trees) C.R.add(mk("size-limit", s.first, fk + "|features", "the radius of a sphere made here is limited by the distances to the closest point in " + std::to_string(nt) + " of " + std::to_string(w.trees) + " sets of features (" + s.second.str() + ")"));
        if (w.lip && !s.second.t.count("neighbour + Lip * distance")) C.R.add(mk("size-limit", s.first, fk + "|Lip", "the radius of a sphere made here may exceed that of a neighbour by more than Lip times their distance; it is limited by: " + s.second.str()));
        if (w.cov && !s.second.t.count("distance to neighbours")) C.R.add(mk("size-limit", s.first, fk + "|coverage", "a sphere made here may cover the centre of an earlier one; its radius is limited by: " + s.second.str())); } }
    // ---- radii only shrink
    for (auto &I : instructions(*F)) {
      const Value *V = nullptr; std::function<bool(const Value *)> old; std::string what;
      if (auto *CB = dyn_cast<CallBase>(&I); CB && Z.named(CB, "::set_tree_point_attrib") && CB->arg_size() == 4 && CB->getArgOperand(3)->getType()->isDoubleTy()) { V = CB->getArgOperand(3); auto *t = CB->getArgOperand(0), *i = CB->getArgOperand(1); old = [&Z, t, i](const Value *x) { return Z.isRadiusOf(x, t, i); }; what = Z.treeKey(t); }
      else if (auto *T = dyn_cast<StoreInst>(&I)) { const Value *b; long k; if (Z.elem(T->getPointerOperand(), b, k) && k == 3 && Z.named(b, "::get_tree_point")) { auto *CB = cast<CallBase>(b); V = T->getValueOperand(); auto *t = CB->getArgOperand(0), *i = CB->getArgOperand(1); old = [&Z, t, i](const Value *x) { return Z.isRadiusOf(x, t, i); }; what = Z.treeKey(t); if (V->getType()->isDoubleTy() == false) V = nullptr; }
        else if (T->getValueOperand()->getType()->isDoubleTy() && isa<GEPOperator>(T->getPointerOperand()->stripPointerCasts()) && !cast<GEPOperator>(T->getPointerOperand()->stripPointerCasts())->getSourceElementType()->isStructTy() && !isa<LoadInst>(T->getValueOperand())) { auto c = Z.caps(T->getValueOperand()); if (c.t.size() == 1 && c.t.count("neighbour + Lip * distance") && !Z.mem(T, T->getPointerOperand(), -1).top) { auto *P = T->getPointerOperand()->stripPointerCasts(); V = T->getValueOperand(); old = [&Z, P](const Value *x) { auto *l = dyn_cast<LoadInst>(x); return l && Z.sameBase(l->getPointerOperand()->stripPointerCasts(), P); }; what = Z.baseName(cast<GEPOperator>(P)->getPointerOperand()->stripPointerCasts()); } } }
      if (!V || Z.dead(I.getParent())) continue; nu++;
      auto report = [&](const Instruction *at) { nrep++; changers.insert(F); if (auto *R = Z.unreported(at, {})) C.R.add(mk("shrink-unreported", at, funcKey(F) + "|" + what, "a radius of an entry of '" + what + "' is changed here, but the function can be left (" + where(R) + ") without telling its caller, or going round its loop again, to cover what it uncovered")); };
      if (Z.shrinks(V, &I, old)) { report(&I); continue; }
      // the new radii collected in an array first
      if (auto *Ld = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GEPOperator>(Ld->getPointerOperand()->stripPointerCasts())) { auto *A = Z.root(G->getPointerOperand()); bool ok = false, bad = false, lib = false; const Instruction *at = nullptr; std::vector<const Instruction *> put;
        for (auto &J : instructions(*F)) { if (auto *T = dyn_cast<StoreInst>(&J)) if (auto *H = dyn_cast<GEPOperator>(T->getPointerOperand()->stripPointerCasts()); H && Z.root(H->getPointerOperand()) == A && T->getValueOperand()->getType()->isDoubleTy()) { auto *W = T->getValueOperand(); auto *P = T->getPointerOperand()->stripPointerCasts(); auto *q = dyn_cast<CallBase>(W); bool init = q && Z.named(W, "::get_tree_point_attrib") && Z.idxSame(q->getArgOperand(1), H->getOperand(1)); bool fine = init || Z.shrinks(W, T, [&Z, P](const Value *x) { auto *l = dyn_cast<LoadInst>(x); return l && Z.sameBase(l->getPointerOperand()->stripPointerCasts(), P); }); if (fine && !init) put.push_back(T); if (fine) ok = true; else { bad = true; at = T; } } if (auto *CB = dyn_cast<CallBase>(&J)) for (auto &a : CB->args()) if (a->stripPointerCasts() == A && Z.starts(CB, "add_entry")) lib = true; }
        if (lib && !bad) { given++; report(&I); continue; } if (ok && !bad) { for (auto *T : put) report(T); continue; } if (at) { C.R.add(mk("radius-grows", at, funcKey(F) + "|" + what + "|array", "a radius collected here need not be below the one it replaces")); continue; } }
      C.R.add(mk("radius-grows", &I, funcKey(F) + "|" + what, "the radius stored for an entry of '" + what + "' need not be below the one it has: " + describe(V))); }
  }
  // ---- the caller of a function that reports a change goes round again
  for (auto *F : fs) { auto &Z = get(*F); for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H || !changers.count(H)) continue;
      if (S.told.count(H)) { nrep++; auto looked = [&] { std::vector<const Value *> w{CB}; std::set<const Value *> d; while (!w.empty()) { auto *X = w.back(); w.pop_back(); for (auto *U : X->users()) { if (isa<DbgInfoIntrinsic>(U)) continue; if (!isa<CastInst>(U) && !isa<PHINode>(U)) return true; if (d.insert(U).second) w.push_back(U); } } return false; }; if (!looked()) C.R.add(mk("shrink-unreported", CB, funcKey(F) + "|" + shortName(H), shortName(H) + " tells by its result that it shrank spheres, and the result is not looked at")); else if (auto *R = Z.unreported(CB, {{CB, S.told[H]}})) C.R.add(mk("shrink-unreported", CB, funcKey(F) + "|" + shortName(H), shortName(H) + " tells by its result that it shrank spheres, but the function can be left (" + where(R) + ") without going round its loop again to cover what that uncovered")); }
      for (unsigned a = 0; a < CB->arg_size() && a < H->arg_size(); a++) { bool set = false; for (auto &J : instructions(*H)) if (auto *T = dyn_cast<StoreInst>(&J); T && T->getPointerOperand() == H->getArg(a) && Z.isFlag(T->getValueOperand())) set = true; auto *p = Size::flagOf(CB->getArgOperand(a)); if (!set || !p || !isa<AllocaInst>(p)) continue; nrep++;
        if (auto *R = Z.unreported(CB, {{p, 1}})) C.R.add(mk("shrink-unreported", CB, funcKey(F) + "|" + shortName(H), shortName(H) + " reports here that it shrank spheres, but the function can be left (" + where(R) + ") without going round its loop again to cover what that uncovered")); } } }
  C.R.counts["changes_reported"] = nrep; C.R.counts["spheres_made"] = nm; C.R.counts["radii_changed"] = nu; C.R.counts["radii_from_resolve_sliver"] = given; C.R.counts["places_of_sizing_values"] = S.arrays.size() + S.counts.size();
}
} // namespace vcsa
