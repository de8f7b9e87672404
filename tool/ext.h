// Values of integer expressions as polynomials over named places, conditions that hold at a program point, and the arrays
// that accesses belong to: shared by the analyses of indices.
#pragma once
#include "common.h"
#include "facts.h"
#include "lin.h"
namespace vcsa {
struct Need { int arg; bool deref = false, row = false, inRow = false; LinD idx, rel; double es = 8; std::vector<Con> cs; std::string what; std::string str() const { return std::to_string(arg) + (deref ? "*" : "") + (row ? "r" : "") + (inRow ? "i" : "") + (arg < 0 ? rel.str() : idx.str()); } }; // accesses arg[idx], atoms "a<k>" are arguments
struct Ext {
  Ctx &C; Function &F; const ModSets &MS; DominatorTree DT; LoopInfo LI; std::map<std::string, std::string> nice;
  std::map<std::string, std::vector<const Instruction *>> defs; std::map<const Value *, std::string> ids;
  Ext(Ctx &C, Function &F, const ModSets &MS) : C(C), F(F), MS(MS), DT(F), LI(DT) {
    for (int pass = 0; pass < 3; pass++) {
      std::map<std::string, std::vector<const Instruction *>> d; bool any = false;
      for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) { bool elem = isa<GEPOperator>(S->getPointerOperand()->stripPointerCasts()) && !cast<GEPOperator>(S->getPointerOperand()->stripPointerCasts())->getSourceElementType()->isStructTy(); if (elem && !pass) continue; auto p = place(S->getPointerOperand()); if (!p.empty()) d[p].push_back(&I); }
      defs = d; loadMemo.clear(); (void)any;
    }
  }
  std::string id(const Value *V) { auto &s = ids[V]; if (s.empty()) { if (auto *A = dyn_cast<Argument>(V)) s = "a" + std::to_string(A->getArgNo()); else s = "%" + std::to_string(ids.size()); nice[s] = varName(V, &F); } return s; }
  static bool isNew(const Value *V) { auto *CB = dyn_cast<CallBase>(V); auto *H = CB ? CB->getCalledFunction() : nullptr; return H && (H->getName().starts_with("_Zna")); }
  std::string place(const Value *P, int d = 0) {
    P = P->stripPointerCasts(); if (d > 8) return "";
    if (isa<AllocaInst>(P) || isa<Argument>(P) || isNew(P)) return id(P);
    if (isa<GlobalVariable>(P)) return P->getName().str();
    if (auto *L = dyn_cast<LoadInst>(P)) { auto s = place(L->getPointerOperand(), d + 1); if (s.empty()) return ""; return "*" + s; }
    if (auto *G = dyn_cast<GEPOperator>(P)) {
      auto s = place(G->getPointerOperand(), d + 1); if (s.empty()) return "";
      if (G->getSourceElementType()->isStructTy()) { auto f = fieldOf(G, C.M); if (f.empty()) return ""; s += "." + f.substr(f.rfind('.') + 1); nice[s] = f.substr(f.rfind('.') + 1); return s; }
      LinD i = value(G->getOperand(G->getNumIndices()), nullptr, d + 1); if (!i.ok) return ""; return s + "[" + i.str() + "]";
    }
    return "";
  }
  // the definitions of a place that may reach an instruction; the entry counts as null
  std::set<const Instruction *> reaching(const std::string &p, const Instruction *at, const Value *P, const Instruction *stop = nullptr) {
    std::set<const Instruction *> r; std::set<const Instruction *> D(defs[p].begin(), defs[p].end()); std::string field; if (auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts())) if (G->getSourceElementType()->isStructTy()) field = fieldOf(G, C.M);
    const Value *O = P->stripPointerCasts(); bool elem = false; if (auto *G = dyn_cast<GEPOperator>(O)) elem = !G->getSourceElementType()->isStructTy();
    auto mod = [&](const Instruction *I) { if (I == stop || D.count(I)) return true; if (auto *S = dyn_cast<StoreInst>(I)) { if (!elem) return false; auto q = place(S->getPointerOperand()); auto base = p.substr(0, p.rfind('[')); return q.empty() ? S->getValueOperand()->getType() == (isa<LoadInst>(at) ? at->getType() : S->getValueOperand()->getType()) : q.compare(0, base.size() + 1, base + "[") == 0 && q != p; }
      auto *CB = dyn_cast<CallBase>(I); if (!CB || isa<IntrinsicInst>(CB)) return false; auto *H = calleeOf(CB); if (H && H->getName().starts_with("_Zda")) return false;
      if (!field.empty() && H) { auto it = MS.mod.find(H); if (it != MS.mod.end() && it->second.count(field)) return true; }
      for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) { auto q = place(CB->getArgOperand(k)); if (q.empty()) continue; bool hit = q == p || (elem && p.compare(0, q.size() + 1, q + "[") == 0) || (elem && q.compare(0, p.rfind('[') + 1, p.substr(0, p.rfind('[') + 1)) == 0); if (!hit) continue; if (H && H->getName().starts_with("__kmpc_fork_call") && k >= 3) { if (auto *O = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts())) { auto it = MS.writesArg.find(O); if (it != MS.writesArg.end() && !it->second.count(k - 1)) continue; } } if (H && !H->isDeclaration()) { auto it = MS.writesArg.find(H); if (it != MS.writesArg.end() && !it->second.count(k)) continue; } return true; }
      return false; };
    std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w; auto scan = [&](const BasicBlock *B, const Instruction *from) { for (auto it = from ? std::next(from->getReverseIterator()) : B->rbegin(); it != B->rend(); ++it) if (mod(&*it)) { r.insert(&*it); return true; } return false; };
    auto *B0 = at->getParent(); auto go = [&](const BasicBlock *B) { if (B == &F.getEntryBlock()) r.insert(nullptr); for (auto *Q : predecessors(B)) if (seen.insert(Q).second) w.push_back(Q); };
    if (!scan(B0, at)) go(B0);
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!scan(B, nullptr)) go(B); }
    return r;
  }
  std::map<std::string, std::vector<const LoadInst *>> loadsOf; bool listed = false;
  const LoadInst *earlier(const std::string &p, const LoadInst *L) { // a load that always gave the same value
    if (!listed) { listed = true; for (auto &I : instructions(F)) if (auto *M = dyn_cast<LoadInst>(&I); M && M->getType()->isIntegerTy()) { auto q = place(M->getPointerOperand()); if (!q.empty()) loadsOf[q].push_back(M); } }
    for (auto *E : loadsOf[p]) if (E != L && DT.dominates(E, L)) { auto D = reaching(p, L, L->getPointerOperand(), E); if (D.size() == 1 && *D.begin() == E) return E; }
    return nullptr;
  }
  std::map<const LoadInst *, LinD> loadMemo; std::set<const LoadInst *> open;
  LinD load(const LoadInst *L) {
    auto it = loadMemo.find(L); if (it != loadMemo.end()) return it->second; LinD bad; bad.ok = false; if (!open.insert(L).second) return bad;
    auto p = place(L->getPointerOperand()); LinD r = LinD::A(id(L)); nice[id(L)] = nice.count(p) ? nice[p] : varName(L->getPointerOperand()->stripPointerCasts(), &F);
    if (!p.empty()) { LinD v = content(p, L->getPointerOperand(), L); if (v.ok) r = v; else if (auto *E = earlier(p, L)) r = load(E); }
    open.erase(L); return loadMemo[L] = r;
  }
  // the number a place holds at an instruction
  LinD content(const std::string &p, const Value *P, const Instruction *at) {
    LinD r; r.ok = false; auto D = reaching(p, at, P); if (D.size() != 1) return r;
    auto *d = *D.begin(); auto *S = d ? dyn_cast<StoreInst>(d) : nullptr; auto q = S ? place(S->getPointerOperand()) : "";
    if (S && q == p) { LinD v = value(S->getValueOperand(), nullptr, 1); if (v.ok && stable(S->getValueOperand(), at)) r = v; else r = LinD::A(p + "@" + id(d)); }
    else r = LinD::A(p + (d ? "@" + id(d) : "@"));
    for (auto &t : r.t) if (!nice.count(t.first)) nice[t.first] = nice.count(p) ? nice[p] : varName(P->stripPointerCasts(), &F);
    return r;
  }
  bool stable(const Value *V, const Instruction *at, int d = 0) { // nothing V is computed from is computed anew before 'at'
    if (d > 12) return false; auto *I = dyn_cast<Instruction>(V); if (!I) return true; if (auto *Lp = LI.getLoopFor(I->getParent())) if (!Lp->contains(at)) return false;
    if (isa<PHINode>(I) || isa<LoadInst>(I) || isa<CallBase>(I)) return true; for (auto &o : I->operands()) if (!stable(o, at, d + 1)) return false; return true;
  }
  LinD value(const Value *V, const Instruction *, int d = 0) {
    LinD bad; bad.ok = false; if (d > 16) return bad;
    if (auto *K = dyn_cast<ConstantInt>(V)) return LinD::K((double)K->getSExtValue());
    if (auto *X = dyn_cast<CastInst>(V)) return X->getType()->isIntegerTy() && X->getSrcTy()->isIntegerTy() ? value(X->getOperand(0), nullptr, d + 1) : V->getType()->isIntegerTy() ? LinD::A(id(V)) : bad;
    if (!V->getType()->isIntegerTy()) return bad;
    if (auto *L = dyn_cast<LoadInst>(V)) return load(L);
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      auto a = value(B->getOperand(0), nullptr, d + 1), b = value(B->getOperand(1), nullptr, d + 1); if (!a.ok || !b.ok) return LinD::A(id(V));
      switch (B->getOpcode()) { case Instruction::Add: return a.add(b, 1); case Instruction::Sub: return a.add(b, -1); case Instruction::Mul: return polyMul(a, b); case Instruction::Shl: if (b.isConst() && b.c >= 0 && b.c < 40) return a.scale((double)(1ull << (int)b.c)); break; default: break; }
      return LinD::A(id(V));
    }
    if (auto *E = dyn_cast<ExtractValueInst>(V)) if (auto *CB = dyn_cast<CallBase>(E->getAggregateOperand())) if (auto *H = CB->getCalledFunction()) { auto a = value(CB->getArgOperand(0), nullptr, d + 1), b = value(CB->getArgOperand(1), nullptr, d + 1); if (a.ok && b.ok) { if (H->getName().contains("umul")) return polyMul(a, b); if (H->getName().contains("uadd")) return a.add(b, 1); } }
    if (auto *S = dyn_cast<SelectInst>(V)) if (auto *K = dyn_cast<ConstantInt>(S->getTrueValue()); K && K->isMinusOne()) return value(S->getFalseValue(), nullptr, d + 1);
    if (auto *P = dyn_cast<PHINode>(V); P && P->getNumIncomingValues() == 1) return value(P->getIncomingValue(0), nullptr, d + 1);
    return LinD::A(id(V));
  }
  std::map<std::string, const Value *> byId() { std::map<std::string, const Value *> r; for (auto &p : ids) r[p.second] = p.first; return r; }
  // conditions that hold at an instruction
  std::map<const BasicBlock *, std::vector<Con>> conMemo; std::map<const BasicBlock *, std::set<const BasicBlock *>> flagAt; std::map<const BasicBlock *, std::vector<LinD>> unequal; std::map<const BasicBlock *, bool> flagged;
  static bool flagLike(const Value *V, int d = 0) { // a truth value put together elsewhere
    if (d > 4) return false; if (auto *P = dyn_cast<PHINode>(V)) return P->getType()->getIntegerBitWidth() <= 8; if (auto *T = dyn_cast<CastInst>(V)) return T->getSrcTy()->isIntegerTy() && flagLike(T->getOperand(0), d + 1);
    if (auto *L = dyn_cast<LoadInst>(V)) return L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth() <= 8 && isa<AllocaInst>(L->getPointerOperand()->stripPointerCasts()); if (auto *B = dyn_cast<BinaryOperator>(V)) return B->getType()->isIntegerTy() && B->getType()->getIntegerBitWidth() <= 8 && (flagLike(B->getOperand(0), d + 1) || flagLike(B->getOperand(1), d + 1));
    if (auto *X = dyn_cast<ICmpInst>(V)) return X->getOperand(0)->getType()->isIntegerTy() && X->getOperand(0)->getType()->getIntegerBitWidth() <= 8 && flagLike(X->getOperand(0), d + 1); return false;
  }
  // a flag set to constants only, under conditions that compare no numbers (text comparisons, whether a file is open): says nothing about sizes
  static bool saysNothing(const Value *V) {
    std::set<const Value *> seen; std::vector<const Value *> w{V};
    auto plain = [](const Value *Cd) { if (isa<CallBase>(Cd)) return true; auto *X = dyn_cast<ICmpInst>(Cd); return X && isa<CallBase>(X->getOperand(0)) && isa<ConstantInt>(X->getOperand(1)) && (X->getOperand(0)->getType()->isIntegerTy(1) || X->getOperand(0)->getType()->isIntegerTy(8)); };
    while (!w.empty()) { auto *Y = w.back(); w.pop_back(); if (!seen.insert(Y).second) continue; if (isa<ConstantInt>(Y)) continue; if (auto *T = dyn_cast<CastInst>(Y)) { w.push_back(T->getOperand(0)); continue; } if (auto *X = dyn_cast<ICmpInst>(Y); X && isa<ConstantInt>(X->getOperand(1)) && X->getOperand(0)->getType()->isIntegerTy() && X->getOperand(0)->getType()->getIntegerBitWidth() <= 8) { w.push_back(X->getOperand(0)); continue; } if (auto *B = dyn_cast<BinaryOperator>(Y); B && B->getType()->getIntegerBitWidth() <= 8) { w.push_back(B->getOperand(0)); w.push_back(B->getOperand(1)); continue; }
      auto *P = dyn_cast<PHINode>(Y); if (!P || P->getType()->getIntegerBitWidth() > 8) return false;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { auto *x = P->getIncomingValue(i); w.push_back(x); if (!isa<ConstantInt>(x)) continue;
        std::set<std::pair<const BasicBlock *, const BasicBlock *>> se; std::vector<std::pair<const BasicBlock *, const BasicBlock *>> bw{{P->getIncomingBlock(i), P->getParent()}};
        while (!bw.empty()) { auto [B, S] = bw.back(); bw.pop_back(); if (!se.insert({B, S}).second) continue; auto *Br = dyn_cast<BranchInst>(B->getTerminator()); if (Br && Br->isConditional()) { if (!plain(Br->getCondition())) return false; continue; } if (se.size() > 40) return false; for (auto *Q : predecessors(B)) bw.push_back({Q, B}); } } }
    return true; }
  void branchCond(const BasicBlock *B, const BranchInst *Br, const BasicBlock *X, std::vector<Con> &r) { // what taking the branch to B says
    auto con = [&](LinD e) { Con c; c.e = e; if (e.ok) r.push_back(c); };
    auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (flagLike(Br->getCondition()) && !saysNothing(Br->getCondition())) { flagged[X] = true; flagAt[X].insert(Br->getParent()); } if (!Cm || !Cm->getOperand(0)->getType()->isIntegerTy()) return; auto a = value(Cm->getOperand(0), nullptr), b = value(Cm->getOperand(1), nullptr); if (!a.ok || !b.ok) return;
    auto p = Br->getSuccessor(0) == B ? Cm->getPredicate() : Cm->getInversePredicate(); LinD d = a.add(b, -1);
    switch (p) { case CmpInst::ICMP_EQ: con(d); con(d.scale(-1)); break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: con(d); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: con(d.add(LinD::K(1), -1)); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: con(d.scale(-1)); break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: con(d.scale(-1).add(LinD::K(1), -1)); break; case CmpInst::ICMP_NE: unequal[X].push_back(d); if (b.isConst() && b.c == 0) con(a.add(LinD::K(1), -1)); break; default: break; }
  }
  const std::vector<Con> &conditions(const BasicBlock *X) {
    auto it = conMemo.find(X); if (it != conMemo.end()) return it->second; std::vector<Con> r;
    for (auto *N = DT.getNode(X); N && N->getIDom(); N = N->getIDom()) {
      auto *B = N->getBlock(); auto *P = B->getSinglePredecessor(); if (!P) continue; auto *Br = dyn_cast<BranchInst>(P->getTerminator()); if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      branchCond(B, Br, X, r);
    }
    return conMemo[X] = r;
  }
  bool counter(const PHINode *P, LinD &start, double &step) {
    auto *L = LI.getLoopFor(P->getParent()); if (!L || L->getHeader() != P->getParent() || P->getNumIncomingValues() != 2 || !P->getType()->isIntegerTy()) return false;
    for (int k = 0; k < 2; k++) if (!L->contains(P->getIncomingBlock(k)) && L->contains(P->getIncomingBlock(1 - k))) { auto v = value(P->getIncomingValue(1 - k), nullptr).add(LinD::A(id(P)), -1); if (!v.isConst() || v.c == 0) return false; start = value(P->getIncomingValue(k), nullptr); step = v.c; return start.ok; }
    return false;
  }
  // what is known about the atoms of an expression at X
  std::vector<Con> known(const LinD &g, const BasicBlock *X) {
    std::vector<Con> r = conditions(X); std::set<std::string> done, todo; auto bi = byId(); auto put = [&](LinD e) { Con c; c.e = e; r.push_back(c); };
    auto note = [&](const LinD &e) { for (auto &t : e.t) for (auto &f : factors(t.first)) if (!done.count(f)) todo.insert(f); };
    note(g); for (auto &c : r) note(c.e);
    for (int n = 0; n < 200 && !todo.empty(); n++) {
      auto a = *todo.begin(); todo.erase(todo.begin()); if (!done.insert(a).second) continue; put(LinD::A(a));
      auto it = bi.find(a); if (it == bi.end()) continue;
      if (auto *P = dyn_cast<PHINode>(it->second)) { LinD s; double k; if (counter(P, s, k)) { auto e = LinD::A(a).add(s, -1); put(k > 0 ? e : e.scale(-1)); note(s); if (k == 1) upper(P, s, put, note); bi = byId(); } }
      else if (auto *B = dyn_cast<BinaryOperator>(it->second)) { auto q = value(B->getOperand(1), nullptr); auto x = value(B->getOperand(0), nullptr); if (B->getOpcode() == Instruction::UDiv && q.isConst() && q.c > 0 && x.ok) { put(x.add(LinD::A(a), -q.c)); note(x); } if (B->getOpcode() == Instruction::URem && q.ok) { put(q.add(LinD::A(a), -1).add(LinD::K(1), -1)); note(q); } bi = byId(); }
    }
    // bounds times a common factor
    std::set<std::pair<std::string, std::string>> pr; auto prods = [&](const LinD &e) { for (auto &t : e.t) { auto f = factors(t.first); if (f.size() == 2) { pr.insert({f[0], f[1]}); pr.insert({f[1], f[0]}); } } };
    prods(g); for (auto &c : std::vector<Con>(r)) prods(c.e);
    std::vector<Con> extra; for (auto &c : r) for (auto &p : pr) if (c.e.t.count(p.first) && extra.size() < 60) { bool small = true; for (auto &t : c.e.t) small &= factors(t.first).size() == 1; if (small && !(c.e.t.size() == 1 && c.e.c == 0)) { Con e; e.e = polyMul(c.e, LinD::A(p.second)); extra.push_back(e); } }
    r.insert(r.end(), extra.begin(), extra.end()); return r;
  }
  template <class P, class N> void upper(const PHINode *Ph, const LinD &start, P put, N note) { // a counter never passes the limit its loop tests first
    auto *H = Ph->getParent(); auto *Br = dyn_cast<BranchInst>(H->getTerminator()); if (!Br || !Br->isConditional()) return; auto *L = LI.getLoopFor(H); auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (!Cm) return;
    bool stay = L->contains(Br->getSuccessor(0)); auto p = stay ? Cm->getPredicate() : Cm->getInversePredicate(); if (Cm->getOperand(0) != Ph || (p != CmpInst::ICMP_ULT && p != CmpInst::ICMP_SLT)) return; auto lim = value(Cm->getOperand(1), nullptr); if (!lim.ok || !start.isConst() || start.c != 0) return; put(lim.add(LinD::A(id(Ph)), -1)); note(lim);
  }
  // ---- what array an address belongs to
  struct Arr { const CallBase *N = nullptr; int arg = -1; bool deref = false, null = false, row = false; bool same(const Arr &o) const { return N == o.N && arg == o.arg && deref == o.deref && row == o.row; } };
  static Type *elemType(const Value *P) { return nullptr; }
  double bytes(const CallBase *N, const Type *T) { return 0; }
  bool resolve(const Value *B, Arr &out, int d = 0) {
    B = B->stripPointerCasts(); if (d > 6) return false;
    if (isNew(B)) { out.N = cast<CallBase>(B); return true; }
    if (auto *A = dyn_cast<Argument>(B)) { out.arg = A->getArgNo(); return true; }
    if (isa<ConstantPointerNull>(B)) { out.null = true; return true; }
    if (auto *P = dyn_cast<PHINode>(B)) { bool have = false; for (auto &v : P->incoming_values()) { if (v == P) continue; Arr a; if (!resolve(v, a, d + 1)) return false; if (a.null) continue; if (have && !a.same(out)) { if (!a.N || !out.N) return false; auto x = sizeOf(a.N, 1), y = sizeOf(out.N, 1); if (!x.isConst() || !y.isConst()) return false; if (x.c < y.c) out = a; continue; } out = a; have = true; } out.null = !have; return true; }
    if (auto *L = dyn_cast<LoadInst>(B)) { auto p = place(L->getPointerOperand()); if (!p.empty() && resolvePlace(p, L->getPointerOperand(), L, out, d)) return true; out = Arr(); if (inRows) return false;
      auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) return false;
      Arr o; if (!resolve(G->getPointerOperand(), o, d + 1) || o.null || o.row) return false; if (o.N) { auto *R = rowOf(o.N); if (!R) return false; out.N = R; return true; } if (o.arg >= 0) { out = o; out.row = true; return true; } }
    return false;
  }
  // what the one place puts in that fills an array of arrays: rows of a size that does not change from row to row
  std::map<const CallBase *, const CallBase *> rowNewMemo; bool inRows = false;
  const CallBase *rowOf(const CallBase *N) {
    auto it = rowNewMemo.find(N); if (it != rowNewMemo.end()) return it->second; rowNewMemo[N] = nullptr; const StoreInst *one = nullptr; inRows = true; bool bad = false;
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isPointerTy()) { auto *G = dyn_cast<GEPOperator>(S->getPointerOperand()->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) { if (S->getValueOperand() == N && !isa<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) bad = true; continue; } Arr a; if (!resolve(G->getPointerOperand(), a)) { if (S->getValueOperand() == N) bad = true; continue; } if (a.N != N) continue; if (isa<ConstantPointerNull>(S->getValueOperand())) continue; if (one) bad = true; one = S; }
      else if (auto *CB = dyn_cast<CallBase>(&I); CB && !isa<IntrinsicInst>(CB)) { auto *H = calleeOf(CB); for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) { Arr a; if (!resolve(CB->getArgOperand(k), a) || a.N != N) continue; if (H && H->getName().starts_with("_Zda")) continue; auto w = H ? MS.writesArg.find(H) : MS.writesArg.end(); if (!H || H->isDeclaration() || w == MS.writesArg.end() || w->second.count(k)) bad = true; } } }
    inRows = false; if (bad || !one) return nullptr; auto *R = isNew(one->getValueOperand()) ? cast<CallBase>(one->getValueOperand()) : nullptr; if (!R) return nullptr;
    auto v = value(R->getArgOperand(0), nullptr); if (!v.ok) return nullptr; auto bi = byId(); auto *L = LI.getLoopFor(one->getParent()); while (L && L->getParentLoop()) L = L->getParentLoop();
    for (auto &t : v.t) for (auto &f : factors(t.first)) { if (f.find('[') != std::string::npos || f.find('.') != std::string::npos) return nullptr; auto w = bi.find(f.substr(0, f.find('@'))); if (w == bi.end()) return nullptr; auto *I = dyn_cast<Instruction>(w->second); if (f.find('@') != std::string::npos && f.back() != '@') { auto w2 = bi.find(f.substr(f.find('@') + 1)); I = w2 == bi.end() ? nullptr : dyn_cast<Instruction>(w2->second); if (!I) return nullptr; } if (I && L && L->contains(I)) return nullptr; }
    return rowNewMemo[N] = R; }
  bool resolvePlace(const std::string &p, const Value *P, const Instruction *at, Arr &out, int d) {
    auto D = reaching(p, at, P); bool have = false;
    for (auto *d1 : D) {
      Arr a; auto *S = d1 ? dyn_cast<StoreInst>(d1) : nullptr;
      if (!d1) { auto *A = dyn_cast<Argument>(P->stripPointerCasts()); if (A) { a.arg = A->getArgNo(); a.deref = true; } else if (isa<AllocaInst>(P->stripPointerCasts())) continue; else return false; }
      else if (!S || place(S->getPointerOperand()) != p || !resolve(S->getValueOperand(), a, d + 1)) return false;
      if (a.null) continue; if (have && !a.same(out)) return false; out = a; have = true;
    }
    out.null = !have; return true;
  }
  LinD sizeOf(const CallBase *N, double es) {
    auto v = value(N->getArgOperand(0), nullptr); if (!v.ok || es <= 0) return v; return v.scale(1 / es);
  }
  // an array of arrays whose rows are all put in by one loop: how many there are
  std::map<const CallBase *, LinD> rowMemo;
  LinD rowsOf(const CallBase *N) {
    auto it = rowMemo.find(N); if (it != rowMemo.end()) return it->second; LinD bad; bad.ok = false; rowMemo[N] = bad; const StoreInst *one = nullptr; LinD ix;
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isPointerTy()) { auto *G = dyn_cast<GEPOperator>(S->getPointerOperand()->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) { if (S->getValueOperand() == N && !isa<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) return bad; continue; } Arr a; if (!resolve(G->getPointerOperand(), a)) { if (S->getValueOperand() == N) return bad; continue; } if (a.N != N) continue; if (one) return bad; one = S; ix = value(G->getOperand(1), nullptr); }
      else if (auto *CB = dyn_cast<CallBase>(&I); CB && !isa<IntrinsicInst>(CB)) { auto *H = calleeOf(CB); for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) { Arr a; if (!resolve(CB->getArgOperand(k), a) || a.N != N) continue; if (H && H->getName().starts_with("_Zda")) continue; auto w = H ? MS.writesArg.find(H) : MS.writesArg.end(); if (!H || H->isDeclaration() || w == MS.writesArg.end() || w->second.count(k)) return bad; } } }
    if (!one || !ix.ok) return bad; auto *L = LI.getLoopFor(one->getParent()); if (!L) return bad; for (auto *P : predecessors(L->getHeader())) if (L->contains(P) && !DT.dominates(one->getParent(), P)) return bad;
    LinD s; double k; auto bi = byId(); if (ix.t.size() != 1 || ix.t.begin()->second != 1 || ix.c != 0) return bad; auto w = bi.find(ix.t.begin()->first); auto *P = w == bi.end() ? nullptr : dyn_cast<PHINode>(w->second); if (!P || LI.getLoopFor(P->getParent()) != L || !counter(P, s, k) || k != 1 || !s.isConst() || s.c != 0) return bad;
    auto m = largest(ix, one->getParent()); if (!m.ok) return bad; return rowMemo[N] = m.add(LinD::K(1), 1); }
  typedef std::map<const Function *, std::vector<Need>> Needs;
  // base[idx] is accessed at 'at'
  void access(const Value *base, const std::string &place_, const LinD &idx, const Instruction *at, double es, const std::string &what, Needs &out, bool translated = false, bool row = false, bool inRow = false) {
    Arr a; bool known_ = place_.empty() ? resolve(base, a) : resolvePlace(place_, base, at, a, 0);
    if (inRow && known_ && !a.null) { if (a.N) { a.N = rowOf(a.N); known_ = a.N != nullptr; } else if (a.row) known_ = false; else a.row = true; }
    if (!known_ || a.null || !idx.ok) { C.R.counts["accesses_to_arrays_from_elsewhere"]++; return; }
    C.R.counts["accesses_examined"]++; auto nm = place_.empty() ? nameOf(base) : nice.count(place_) && !nice[place_].empty() ? nice[place_] : varName(base->stripPointerCasts(), &F); auto w = what.empty() ? "'" + nm + "' is accessed at " + pretty(idx) : what;
    std::set<std::string> lim; LinD m = largest(idx, at->getParent(), &lim); bool counted = m.ok; if (counted && !translated) for (auto &t : m.t) for (auto &f : factors(t.first)) counted &= lim.count(f) > 0; if (!counted) m.ok = false;
    if (a.arg >= 0) { if (!m.ok || !inputs(m)) { C.R.counts["data_dependent_indices_not_decided"]++; return; } Need n; n.arg = a.arg; n.deref = a.deref; n.row = row; n.inRow = a.row; n.idx = m; n.es = es; n.what = w; give(out, n, at); return; }
    LinD size = sizeOf(a.N, es); if (!size.ok) { C.R.counts["data_dependent_indices_not_decided"]++; return; }
    if (row) { LinD R = rowsOf(a.N); if (R.ok) { C.R.counts["rows_compared"]++; goal(R.add(idx, -1).add(LinD::K(1), -1), m.ok ? R.add(m, -1).add(LinD::K(1), -1) : m, at, a.N, nm, w + ", but only " + pretty(R) + " rows of '" + nm + "' are allocated", out); } }
    goal(size.add(idx, -1).add(LinD::K(1), -1), m.ok ? size.add(m, -1).add(LinD::K(1), -1) : m, at, a.N, nm, w + ", but '" + nm + "' has " + pretty(size) + " elements", out);
  }
  // g >= 0 must hold at 'at'; most: the same for the last round of every loop
  void goal(const LinD &g, const LinD &most, const Instruction *at, const Instruction *N, const std::string &nm, const std::string &what, Needs &out, bool rel = false) {
    auto cs = known(g, at->getParent()); if (N) { auto atN = known(g, N->getParent()); cs.insert(cs.end(), atN.begin(), atN.end()); }
    if (entails(cs, g)) { C.R.counts["accesses_proved"]++; return; }
    if (most.ok) { auto c2 = known(most, at->getParent()); c2.insert(c2.end(), cs.begin(), cs.end()); if (entails(c2, most)) { C.R.counts["accesses_proved"]++; return; }
      bool wrong = most.isConst() && most.c < 0; auto neg = most.scale(-1).add(LinD::K(1), -1); if (!wrong && !most.isConst() && entails(c2, neg)) wrong = true;
      if (!wrong && inputs(most)) { if (onlyArgs(most)) { Need n; n.arg = -1; n.rel = most; n.what = what; give(out, n, at); C.R.counts["left_to_the_callers"]++; return; } wrong = free_(most); }
      if (!wrong && unlimited(most, c2)) wrong = true;
      if (rel && free_(most)) wrong = true; // two numbers handed over at one call, and nothing relates them
      if (wrong) { C.R.counts["violations"]++; C.R.add(mk("extent", at, funcKey(&F) + "|" + nm + "|" + pretty(most), what)); return; } }
    C.R.counts["data_dependent_indices_not_decided"]++; if (getenv("EXTDBG")) fprintf(stderr, "undecided %s %s most=%s\n", where(at).c_str(), what.c_str(), most.ok ? pretty(most).c_str() : "-");
  }
  // a total that grows by a number that is new in every round, and that nothing limits, is subtracted
  bool unlimited(const LinD &e, const std::vector<Con> &cs) {
    auto bi = byId();
    auto fresh = [&](const std::string &g, const Loop *L) { if (g.find('@') == std::string::npos || g.find('[') != std::string::npos) return false; auto d = bi.find(g.substr(g.find('@') + 1)); auto *DI = d == bi.end() ? nullptr : dyn_cast<CallBase>(d->second); return DI && L->contains(DI); };
    for (auto &t : e.t) { if (t.second >= 0) continue; auto f = factors(t.first); if (f.size() != 1) continue; auto it = bi.find(f[0]); if (it == bi.end()) continue; bool grows = false;
      if (auto *P = dyn_cast<PHINode>(it->second)) { auto *L = LI.getLoopFor(P->getParent()); if (!L || L->getHeader() != P->getParent()) continue; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (L->contains(P->getIncomingBlock(k))) { auto v = value(P->getIncomingValue(k), nullptr).add(LinD::A(f[0]), -1); grows |= v.ok && v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1 && fresh(v.t.begin()->first, L); } }
      else if (auto *Ld = dyn_cast<LoadInst>(it->second); Ld && isa<AllocaInst>(Ld->getPointerOperand())) { for (auto *U : Ld->getPointerOperand()->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == Ld->getPointerOperand()) for (auto *L = LI.getLoopFor(S->getParent()); L && L->contains(Ld); L = nullptr) { auto v = value(S->getValueOperand(), nullptr); if (!v.ok || v.c != 0 || v.t.size() != 2) continue; bool own = false, inc = false; for (auto &u : v.t) { if (u.second != 1) continue; auto w = bi.find(u.first); auto *L2 = w == bi.end() ? nullptr : dyn_cast<LoadInst>(w->second); if (L2 && L2->getPointerOperand() == Ld->getPointerOperand()) own = true; else if (fresh(u.first, L)) inc = true; } grows |= own && inc; } }
      if (!grows) continue; bool bounded = false; for (auto &c : cs) { auto q = c.e.t.find(f[0]); if (q != c.e.t.end() && q->second < 0) bounded = true; } for (auto &u : e.t) if (u.second > 0) { auto w = bi.find(u.first); if (w != bi.end() && isa<PHINode>(w->second)) bounded = true; }
      if (!bounded) return true; }
    return false; }
  void give(Needs &out, Need &n, const Instruction *at) { auto &v = out[&F]; if (v.size() > 80) return; for (auto &x : v) if (x.str() == n.str()) return; n.what += n.what.find(" (") == std::string::npos ? " (" + where(at) + ")" : ""; v.push_back(n); }
  // made of what the function was given, or got from a call, only
  bool inputs(const LinD &e) { bool method = F.arg_size() && varName(F.getArg(0), &F) == "this"; for (auto &t : e.t) for (auto &f : factors(t.first)) { if (method && f.compare(0, 3, "a0@") == 0) return false; if (f.find('[') != std::string::npos) return false; if (f.find('@') != std::string::npos) continue; if (f[0] == 'a') continue; return false; } return true; }
  bool onlyArgs(const LinD &e) { for (auto &t : e.t) for (auto &f : factors(t.first)) { if (f[0] != 'a' || (f.find('@') != std::string::npos && f.back() != '@') || f.find('.') != std::string::npos || f.find('[') != std::string::npos || f.find('*') != std::string::npos) return false; } return true; }
  bool free_(const LinD &e) { for (auto &t : e.t) for (auto &f : factors(t.first)) if (f.find('.') != std::string::npos || f.find('[') != std::string::npos || f.find('*') != std::string::npos) return false; return true; } // no object state
  // loop counters replaced by their largest values
  LinD largest(LinD e, const BasicBlock *X, std::set<std::string> *lim = nullptr) { bool oc = false; auto r = largest_(e, X, lim, oc); if (oc && !r.isConst()) r.ok = false; return r; }
  LinD largest_(LinD e, const BasicBlock *X, std::set<std::string> *lim, bool &onlyConst) {
    LinD bad; bad.ok = false;
    for (int r = 0; r < 12; r++) {
      bool again = false; auto bi = byId(); auto cs = known(e, X);
      for (auto &t : e.t) { for (auto &f : factors(t.first)) { auto it = bi.find(f); if (it == bi.end()) continue; auto *P = dyn_cast<PHINode>(it->second); LinD s; double k; if (!P || !counter(P, s, k)) continue;
          if (t.second < 0) { LinD m = LinD::K(e.c); if (k < 0) return bad; for (auto &u : e.t) { LinD term = LinD::K(u.second); for (auto &uf : factors(u.first)) term = polyMul(term, uf == f ? s : LinD::A(uf)); m = m.add(term, 1); } e = m; again = true; break; }
          LinD best; best.ok = false; if (k < 0) best = s; else for (auto &c : cs) { auto q = c.e.t.find(f); if (q == c.e.t.end() || q->second != -1) continue; LinD up = c.e.add(LinD::A(f), 1); bool self = false; for (auto &u : up.t) for (auto &uf : factors(u.first)) self |= uf == f; for (auto &u : up.t) for (auto &uf : factors(u.first)) { auto w = bi.find(uf); auto *Q = w == bi.end() ? nullptr : dyn_cast<PHINode>(w->second); auto *Lq = Q ? LI.getLoopFor(Q->getParent()) : nullptr; if (Lq && Lq->getHeader() == Q->getParent() && LI.getLoopFor(P->getParent())->contains(Lq) && Q != P) self = true; } if (self || !up.ok) continue; if (!best.ok) { best = up; continue; } auto d = best.add(up, -1); if (!d.isConst()) return bad; if (d.c > 0) best = up; }
          if (!best.ok) return bad; conditions(X); if (flagged[X]) { if (!best.isConst()) return bad; auto *Lf = LI.getLoopFor(P->getParent()); for (auto *fb : flagAt[X]) if (Lf->contains(fb)) return bad; onlyConst = true; } for (auto &ne : unequal[X]) if (ne.t.count(f) && !(ne.t.size() == 1 && ne.c == 0)) return bad; if (lim && k > 0) for (auto &u : best.t) for (auto &uf : factors(u.first)) lim->insert(uf); LinD m = LinD::K(e.c); for (auto &u : e.t) { LinD term = LinD::K(u.second); for (auto &uf : factors(u.first)) term = polyMul(term, uf == f ? best : LinD::A(uf)); m = m.add(term, 1); } e = m; again = true; break; } if (again) break; }
      if (!again) return e;
    }
    return bad;
  }
  std::string nameOf(const Value *B) { B = B->stripPointerCasts(); std::string s; if (auto *L = dyn_cast<LoadInst>(B)) { auto p = place(L->getPointerOperand()); s = nice.count(p) ? nice[p] : varName(L->getPointerOperand()->stripPointerCasts(), &F); } if (s.empty()) s = varName(B, &F); if (s.empty()) s = describe(B); return s; }
  std::string pretty(const LinD &v) { std::string s; char b[64]; for (auto &t : v.t) { std::string m; for (auto &f : factors(t.first)) { auto n = nice.count(f) ? nice[f] : ""; if (n.empty()) n = f; m += (m.empty() ? "" : "*") + n; } snprintf(b, sizeof b, t.second == 1 ? "" : t.second == -1 ? "-" : "%g*", t.second); s += (s.empty() || t.second < 0 ? "" : "+") + std::string(b) + m; } if (v.c != 0 || s.empty()) { snprintf(b, sizeof b, "%s%g", v.c > 0 && !s.empty() ? "+" : "", v.c); s += b; } return s; }
  void run(Needs &out) {
    auto &DL = C.M->getDataLayout();
    for (auto &I : instructions(F)) {
      const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand();
      if (!P) continue; auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) continue;
      access(G->getPointerOperand(), "", value(G->getOperand(1), nullptr), &I, (double)DL.getTypeAllocSize(G->getSourceElementType()), "", out, false, isa<LoadInst>(I) && I.getType()->isPointerTy());
    }
  }
  // what a call demands, in terms of the caller
  void call(const CallBase *CB, const std::vector<Need> &ns, unsigned shift, const Function *H, Needs &out) {
    for (auto &n : ns) {
      bool ok = true; auto op = [&](int k) -> const Value * { unsigned j = (unsigned)k + shift; return k < 0 || j >= CB->arg_size() || (shift && k < 2) ? nullptr : CB->getArgOperand(j); };
      auto tr = [&](const LinD &e) { LinD r = LinD::K(e.c); for (auto &t : e.t) { LinD m = LinD::K(t.second); for (auto &f : factors(t.first)) { LinD v; v.ok = false; int k = atoi(f.c_str() + 1); auto *A = op(k); if (A && f.back() == '@') { auto p = place(A); if (!p.empty()) v = content(p, A, CB); } else if (A) v = value(A, nullptr); if (!v.ok) { ok = false; return r; } m = polyMul(m, v); } r = r.add(m, 1); } return r; };
      if (n.arg < 0) { auto g = tr(n.rel); if (ok && g.ok) { C.R.counts["demands_on_callers"]++; goal(g, largest(g, CB->getParent()), CB, nullptr, shortName(H), n.what, out, true); } continue; }
      auto idx = tr(n.idx); auto *A = op(n.arg); if (!ok || !A || !idx.ok) { C.R.counts["demands_not_understood"]++; continue; } C.R.counts["demands_on_callers"]++;
      if (n.deref) { auto p = place(A); if (!p.empty()) access(A, p, idx, CB, n.es, n.what, out, true, n.row, n.inRow); } else access(A, "", idx, CB, n.es, n.what, out, true, n.row, n.inRow);
    }
  }
};
} // namespace vcsa
