// No scalar variable, out-parameter or class member is read before it was given a value.
// Locals: definite-assignment dataflow (declaration point to read), out-parameters through function summaries, then a
// path-sensitive search that drops paths contradicting the constants and conditions met on the way.
// Members: every constructor assigns every scalar member that is read anywhere.
#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"
namespace vcsa {
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
namespace {
enum Ef { Nothing, Init, ReadIt, Drop, Kill };
struct Sum { bool reads = false, writes = false, may = false; int miss = -1; const Instruction *at = nullptr; }; // miss: what is returned (0, 1 = not 0, -1 anything) when it is not written
struct An {
  Ctx &C; std::map<std::pair<const Function *, unsigned>, Sum> sums; std::set<std::pair<const Function *, unsigned>> busy;
  std::map<const Value *, const Argument *> homes; std::map<const Function *, bool> homed;
  An(Ctx &C) : C(C) {}
  void findHomes(const Function &F) {
    if (homed[&F]) return; homed[&F] = true;
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) {
      const Argument *arg = nullptr; int n = 0; bool esc = false;
      for (auto *U : A->users()) { if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A) { n++; if (auto *X = dyn_cast<Argument>(S->getValueOperand())) arg = X; } else esc = true; } else if (!isa<LoadInst>(U)) esc = true; }
      if (arg && n == 1 && !esc) homes[A] = arg;
    }
  }
  // the tracked location an address denotes: a local scalar or what a pointer parameter points to
  const Value *loc(const Value *P) {
    P = P->stripPointerCasts();
    if (isa<AllocaInst>(P) || isa<Argument>(P)) return P;
    if (auto *L = dyn_cast<LoadInst>(P)) { auto it = homes.find(L->getPointerOperand()); if (it != homes.end()) return it->second; }
    return nullptr;
  }
  static unsigned argIndex(const CallBase *CB, unsigned i, const Function *&H) { // callee and its parameter that receives operand i
    H = calleeOf(CB); if (!H) return ~0u;
    if (H->getName() == "__kmpc_fork_call") { H = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); return i >= 3 && H ? i - 1 : ~0u; }
    return i;
  }
  Ef effect(const Instruction *I, const Value *L, const Instruction *&deep) {
    deep = nullptr;
    if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getValueOperand()->stripPointerCasts() == L && isa<AllocaInst>(L)) return Drop; return loc(S->getPointerOperand()) == L ? Init : Nothing; }
    if (auto *Ld = dyn_cast<LoadInst>(I)) return loc(Ld->getPointerOperand()) == L ? ReadIt : Nothing;
    if (auto *D = dyn_cast<DbgVariableIntrinsic>(I)) { for (auto *o : D->location_ops()) if (o == L && isa<AllocaInst>(L)) { for (auto *J = I->getPrevNode(); J; J = J->getPrevNode()) if (auto *S = dyn_cast<StoreInst>(J); S && S->getPointerOperand() == L) return Nothing; return Kill; } return Nothing; } // a parameter's home is stored before it is declared
    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      bool t = false; for (auto &a : II->args()) t |= a->getType()->isPointerTy() && loc(a) == L; if (!t) return Nothing;
      if (II->getIntrinsicID() == Intrinsic::lifetime_start || II->getIntrinsicID() == Intrinsic::lifetime_end) return Nothing;
      return Init;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      Ef r = Nothing; bool wr = false;
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        auto *a = CB->getArgOperand(i); if (!a->getType()->isPointerTy() || loc(a) != L) continue;
        const Function *H; unsigned k = argIndex(CB, i, H);
        if (!H || H->isDeclaration() || k == ~0u || k >= H->arg_size() || !repo(H)) { r = Init; wr = true; continue; }
        const Sum &s = summary(H, k); if (s.reads) { deep = s.at; return ReadIt; } if (s.writes) wr = true;
      }
      return wr ? Init : r;
    }
    if (isa<PHINode>(I) || isa<SelectInst>(I)) for (auto &o : I->operands()) if (o == L) return Drop;
    return Nothing;
  }
  int want = -1; // -1: any return counts; 0 / 1: only returns that may return zero / non-zero
  // a call that writes the location on some paths only
  const Sum *partial(const CallBase *CB, const Value *L) {
    for (unsigned i = 0; i < CB->arg_size(); i++) { auto *a = CB->getArgOperand(i); if (!a->getType()->isPointerTy() || loc(a) != L) continue; const Function *H; unsigned k = argIndex(CB, i, H); if (!H || H->isDeclaration() || k == ~0u || k >= H->arg_size() || !repo(H)) continue; int w = want; want = -1; const Sum &s = summary(H, k); want = w; if (!s.writes && (s.may || s.miss >= 0)) return &s; }
    return nullptr;
  }
  static bool feeds(const Value *V, const CallBase *call, const std::set<const Value *> &co, int d = 0) {
    if (V == call) return true; if (d > 10) return false;
    if (auto *L = dyn_cast<LoadInst>(V)) if (co.count(L->getPointerOperand())) return true;
    if (auto *I = dyn_cast<Instruction>(V)) { if (isa<CallBase>(I) || isa<AllocaInst>(I)) return false; for (auto &o : I->operands()) if (!isa<BasicBlock>(o) && feeds(o, call, co, d + 1)) return true; }
    return false;
  }
  bool repo(const Function *H) { return isRepoFunc(H) || isOutlined(H); }
  const Sum &summary(const Function *H, unsigned k) {
    auto key = std::make_pair(H, k); auto it = sums.find(key); if (it != sums.end()) return it->second;
    static Sum opt; opt.writes = true; opt.reads = false; // recursion: what the other paths say decides
    if (busy.count(key)) return opt;
    busy.insert(key); findHomes(*H); Sum s; const Argument *A = H->getArg(k);
    std::vector<const Instruction *> bad, rets; flow(*H, A, bad, rets);
    if (!bad.empty()) { s.reads = true; s.at = bad[0]; bool ov = false; if (!pathTo(*H, A, bad, ov) && !ov) s.reads = false; }
    s.writes = true; for (auto *r : rets) { (void)r; s.writes = false; }
    if (!s.writes) { bool ov = false; if (!pathTo(*H, A, rets, ov) && !ov) s.writes = true; }
    if (!s.writes && H->getReturnType()->isIntegerTy()) for (int v = 0; v < 2 && s.miss < 0; v++) { bool ov = false; want = v ? 0 : 1; bool p = pathTo(*H, A, rets, ov); want = -1; if (!p && !ov) s.miss = v; }
    for (auto &I : instructions(*H)) { const Instruction *d; auto e = effect(&I, A, d); if (e == Init || e == Drop) s.may = true; if (auto *CB = dyn_cast<CallBase>(&I)) if (partial(CB, A)) s.may = true; }
    busy.erase(key); return sums[key] = s;
  }
  // reads reached, and returns reached, with the location possibly unassigned
  void flow(const Function &F, const Value *L, std::vector<const Instruction *> &reads, std::vector<const Instruction *> &rets) {
    std::map<const BasicBlock *, bool> in; std::vector<const BasicBlock *> w{&F.getEntryBlock()}; in[w[0]] = true; // true: may be unassigned
    if (isa<AllocaInst>(L)) in[w[0]] = false; // from its declaration on
    std::map<const BasicBlock *, bool> done;
    std::set<const Instruction *> rs; bool dropped = false;
    while (!w.empty() && !dropped) {
      auto *B = w.back(); w.pop_back(); bool u = in[B]; if (done.count(B) && done[B] == u) continue; done[B] = u;
      const Instruction *deep;
      for (auto &I : *B) {
        Ef e = effect(&I, L, deep);
        if (e == Drop) { if (u) dropped = true; u = false; if (dropped) break; }
        else if (e == Init) u = false; else if (e == Kill) u = true; else if (e == ReadIt && u) { if (rs.insert(&I).second) reads.push_back(&I); }
        if (isa<ReturnInst>(I) && u) rets.push_back(&I);
      }
      auto *T = B->getTerminator();
      for (unsigned i = 0; i < T->getNumSuccessors(); i++) { if (isa<InvokeInst>(T) && i == 1) continue; auto *S = T->getSuccessor(i); bool n = in.count(S) ? in[S] || u : u; if (!in.count(S) || n != in[S]) { in[S] = n; w.push_back(S); } else if (!done.count(S)) w.push_back(S); }
    }
    if (dropped) { reads.clear(); rets.clear(); }
  }
  // ---- path-sensitive confirmation
  struct Env { std::map<const Value *, int64_t> c, ssa; std::map<std::string, bool> cond; };
  static std::string id(const Value *V) { char b[32]; snprintf(b, sizeof b, "%p", (const void *)V); return b; }
  std::string expr(const Value *V, int d, bool &mem, std::set<const Value *> &deps) { // "" = not representable
    if (d > 12) return "";
    if (auto *K = dyn_cast<ConstantInt>(V)) return std::to_string(K->getSExtValue());
    if (isa<Constant>(V)) return "k" + id(V);
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    if (auto *L = dyn_cast<LoadInst>(V)) {
      auto *P = L->getPointerOperand(); auto h = homes.find(P); if (h != homes.end()) return "a" + std::to_string(h->second->getArgNo());
      if (isa<AllocaInst>(P)) { deps.insert(P); return "v" + id(P); }
      mem = true; auto s = expr(P, d + 1, mem, deps); return s.empty() ? "" : "*(" + s + ")";
    }
    if (auto *G = dyn_cast<GEPOperator>(V)) { std::string s = "g"; for (auto &o : G->operands()) { auto x = expr(o, d + 1, mem, deps); if (x.empty()) return ""; s += "," + x; } return s; }
    if (auto *Cm = dyn_cast<CmpInst>(V)) { auto a = expr(Cm->getOperand(0), d + 1, mem, deps), b = expr(Cm->getOperand(1), d + 1, mem, deps); if (a.empty() || b.empty()) return ""; return "(" + a + " p" + std::to_string(Cm->getPredicate()) + " " + b + ")"; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { auto a = expr(B->getOperand(0), d + 1, mem, deps), b = expr(B->getOperand(1), d + 1, mem, deps); if (a.empty() || b.empty()) return ""; return "(" + a + " o" + std::to_string(B->getOpcode()) + " " + b + ")"; }
    if (auto *X = dyn_cast<CastInst>(V)) return expr(X->getOperand(0), d + 1, mem, deps);
    if (auto *CB = dyn_cast<CallBase>(V)) { // a query of a container: the same as long as nothing is written
      auto *H = calleeOf(CB); if (!H || !(H->onlyReadsMemory() || has(demangled(H), "const"))) return ""; mem = true; std::string s = "c" + id(H); for (auto &a : CB->args()) { auto x = expr(a, d + 1, mem, deps); if (x.empty()) return ""; s += "," + x; } return s;
    }
    if (isa<AllocaInst>(V)) { deps.insert(V); return "&" + id(V); }
    return "";
  }
  bool val(const Env &e, const Value *V, int64_t &r) {
    if (auto *K = dyn_cast<ConstantInt>(V)) { if (K->getBitWidth() > 64) return false; r = K->getBitWidth() == 1 ? K->getZExtValue() : K->getSExtValue(); return true; }
    auto it = e.ssa.find(V); if (it == e.ssa.end()) return false; r = it->second; return true;
  }
  std::map<std::string, std::set<const Value *>> condDeps; std::map<std::string, bool> condMem;
  void clobber(Env &e, const Value *A, bool memory) {
    if (A) e.c.erase(A);
    for (auto it = e.cond.begin(); it != e.cond.end();) { bool k = (A && condDeps[it->first].count(A)) || (memory && condMem[it->first]); it = k ? e.cond.erase(it) : std::next(it); }
  }
  std::string str(const Env &e, const BasicBlock *B, bool u) {
    std::string s = id(B) + (u ? "u" : "d"); for (auto &p : e.c) s += "|" + id(p.first) + "=" + std::to_string(p.second); for (auto &p : e.cond) s += "|" + p.first + (p.second ? "T" : "F");
    for (auto &p : e.ssa) { bool cross = false; for (auto *U : p.first->users()) if (auto *I = dyn_cast<Instruction>(U)) cross |= I->getParent() != cast<Instruction>(p.first)->getParent(); if (cross) s += "|s" + id(p.first) + "=" + std::to_string(p.second); }
    return s;
  }
  std::string condKey(const Value *Cv, const Value *&X, bool &neg, bool &mem, std::set<const Value *> &deps) {
        X = Cv;
        while (auto *Bo = dyn_cast<BinaryOperator>(X)) { if (Bo->getOpcode() != Instruction::Xor || !isa<ConstantInt>(Bo->getOperand(1))) break; neg = !neg; X = Bo->getOperand(0); }
        while (auto *Tr = dyn_cast<TruncInst>(X)) X = Tr->getOperand(0);
        std::string k;
        if (auto *Cm = dyn_cast<CmpInst>(X)) { // one spelling for a comparison and its negation
          auto p = Cm->getPredicate(); auto a = expr(Cm->getOperand(0), 0, mem, deps), b = expr(Cm->getOperand(1), 0, mem, deps);
          if (!a.empty() && !b.empty()) { if (Cm->isIntPredicate() && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_SLE)) { p = CmpInst::getInversePredicate(p); neg = !neg; } if (b < a) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); } k = a + " p" + std::to_string(p) + " " + b; }
        } else k = expr(X, 0, mem, deps);
        return k;
  }
  std::map<std::string, int> keyUses;
  // can one of the targets be reached with L unassigned?
  bool pathTo(const Function &F, const Value *L, const std::vector<const Instruction *> &targets, bool &overflow) {
    std::set<const Instruction *> tg(targets.begin(), targets.end()); condDeps.clear(); condMem.clear(); keyUses.clear();
    for (auto &B : F) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional()) { bool m = false, ng = false; std::set<const Value *> d; const Value *X; auto k = condKey(Br->getCondition(), X, ng, m, d); if (!k.empty()) keyUses[k]++; }
    // which blocks can reach a target at all
    std::set<const BasicBlock *> useful; { std::vector<const BasicBlock *> w; for (auto *t : tg) if (useful.insert(t->getParent()).second) w.push_back(t->getParent()); while (!w.empty()) { auto *B = w.back(); w.pop_back(); bool kill = false; if (isa<AllocaInst>(L)) for (auto &I : *B) { const Instruction *d; if (isa<DbgVariableIntrinsic>(I) && effect(&I, L, d) == Kill) kill = true; if (kill) break; } if (!kill) for (auto *P : predecessors(B)) if (useful.insert(P).second) w.push_back(P); } }
    struct S { const BasicBlock *B; const BasicBlock *prev; Env e; bool u; const CallBase *soft = nullptr; const Instruction *from = nullptr; }; std::vector<S> w; std::set<std::string> seen; long n = 0;
    if (!isa<AllocaInst>(L)) w.push_back({&F.getEntryBlock(), nullptr, Env(), true});
    else for (auto &I : instructions(F)) { const Instruction *d; if (isa<DbgVariableIntrinsic>(I) && effect(&I, L, d) == Kill && useful.count(I.getParent())) w.push_back({I.getParent(), nullptr, Env(), true, nullptr, &I}); } // from its declaration on
    while (!w.empty()) {
      if (++n > 100000) { overflow = true; return false; }
      S s = std::move(w.back()); w.pop_back(); bool dead = false; const Instruction *deep;
      if (!s.from) { std::map<const Value *, int64_t> ph; for (auto &I : *s.B) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; int64_t r; if (s.prev && P->getBasicBlockIndex(s.prev) >= 0 && val(s.e, P->getIncomingValueForBlock(s.prev), r)) ph[P] = r; else s.e.ssa.erase(P); }
        for (auto &p : ph) s.e.ssa[p.first] = p.second; }
      for (auto &I : *s.B) {
        if (s.from) { if (&I == s.from) s.from = nullptr; continue; }
        if (isa<PHINode>(I)) continue;
        if (s.u && tg.count(&I)) { if (auto *Rt = dyn_cast<ReturnInst>(&I)) { int64_t r; if (want < 0 || !Rt->getReturnValue() || !val(s.e, Rt->getReturnValue(), r) || (r != 0) == (want != 0)) return true; continue; } if (effect(&I, L, deep) == ReadIt) return true; }
        Ef ef = effect(&I, L, deep);
        if (ef == Kill) { dead = true; break; } else if (ef == Init || ef == Drop) { s.u = false; }
        if (!s.u) { dead = true; break; } // assigned (a new declaration starts its own search)
        if (auto *St = dyn_cast<StoreInst>(&I)) { auto *P = St->getPointerOperand(); if (isa<AllocaInst>(P)) { int64_t r; bool k = val(s.e, St->getValueOperand(), r); clobber(s.e, P, false); if (k && r >= -1 && r <= 3) s.e.c[P] = r;/*flags, first rounds of counters*/ } else clobber(s.e, nullptr, true); continue; }
        if (auto *Ld = dyn_cast<LoadInst>(&I)) { auto it = s.e.c.find(Ld->getPointerOperand()); if (it != s.e.c.end() && Ld->getType()->isIntegerTy()) s.e.ssa[&I] = it->second; else s.e.ssa.erase(&I); continue; }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          s.e.ssa.erase(&I); auto *H = calleeOf(CB);
          if (H && H->doesNotReturn()) { dead = true; break; }
          bool ro = H && (isMathName(H->getName()) || H->onlyReadsMemory() || (has(demangled(H), " const") && !has(demangled(H), "(char const")));
          for (auto &a : CB->args()) { auto *P = a->stripPointerCasts(); if (isa<AllocaInst>(P) && !ro) clobber(s.e, P, false); }
          if (!ro) clobber(s.e, nullptr, true);
          if (s.u) if (auto *pm = partial(CB, L)) { // written or not: not written implies the value returned, or shows in what else the call gives back
            S m = s; if (pm->miss >= 0) m.e.ssa[CB] = pm->miss; m.soft = pm->may ? CB : nullptr; m.from = CB; bool inv = isa<InvokeInst>(CB);
            if (inv) { auto *N = cast<InvokeInst>(CB)->getNormalDest(); if (useful.count(N) && seen.insert(str(m.e, N, true) + "s" + id(m.soft)).second) w.push_back({N, s.B, m.e, true, m.soft}); }
            else w.push_back(std::move(m));
            if (!pm->may) { dead = true; break; }
            s.u = false; dead = true; break; // the written branch needs no following
          }
          continue;
        }
        if (I.isTerminator()) break;
        int64_t a, b; s.e.ssa.erase(&I);
        if (auto *Cm = dyn_cast<ICmpInst>(&I)) {
          if (val(s.e, Cm->getOperand(0), a) && val(s.e, Cm->getOperand(1), b)) { unsigned bw = Cm->getOperand(0)->getType()->isIntegerTy() ? Cm->getOperand(0)->getType()->getIntegerBitWidth() : 64; s.e.ssa[&I] = ICmpInst::compare(APInt(bw, (uint64_t)a, true), APInt(bw, (uint64_t)b, true), Cm->getPredicate()); }
        } else if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) { if (val(s.e, I.getOperand(0), a)) { if (isa<TruncInst>(I) && I.getType()->isIntegerTy(1)) a &= 1; s.e.ssa[&I] = a; } }
        else if (auto *Bo = dyn_cast<BinaryOperator>(&I)) { if (Bo->getType()->isIntegerTy() && val(s.e, Bo->getOperand(0), a) && val(s.e, Bo->getOperand(1), b)) { switch (Bo->getOpcode()) { case Instruction::Add: s.e.ssa[&I] = a + b; break; case Instruction::Sub: s.e.ssa[&I] = a - b; break; case Instruction::Mul: s.e.ssa[&I] = a * b; break; case Instruction::Xor: s.e.ssa[&I] = (a ^ b) & (I.getType()->isIntegerTy(1) ? 1 : -1); break; case Instruction::And: s.e.ssa[&I] = a & b; break; case Instruction::Or: s.e.ssa[&I] = a | b; break; default: break; } } }
      }
      if (dead || !s.u) continue;
      auto *T = s.B->getTerminator();
      auto go = [&](const BasicBlock *N, Env e) { if (!useful.count(N)) return; if (seen.insert(str(e, N, s.u) + id(s.soft) + (isa<PHINode>(N->front()) ? id(s.B) : "")).second) w.push_back({N, s.B, std::move(e), s.u, s.soft}); };
      if (auto *Br = dyn_cast<BranchInst>(T); Br && Br->isConditional()) {
        int64_t r; auto *Cv = Br->getCondition();
        if (s.u && s.soft) { std::set<const Value *> co; for (auto &a : s.soft->args()) { auto *P = a->stripPointerCasts(); if (isa<AllocaInst>(P) && P != L) co.insert(P); } if (feeds(Cv, s.soft, co) && !val(s.e, Cv, r)) continue; }
        if (val(s.e, Cv, r)) { go(Br->getSuccessor(r ? 0 : 1), s.e); continue; }
        bool mem = false, neg = false; std::set<const Value *> deps; const Value *X = Cv; std::string k = condKey(Cv, X, neg, mem, deps);
        if (!k.empty() && keyUses[k] < 2) k.clear(); // nothing else depends on it
        if (!k.empty()) {
          auto it = s.e.cond.find(k); if (it != s.e.cond.end()) { go(Br->getSuccessor(it->second != neg ? 0 : 1), s.e); continue; }
          condDeps[k] = deps; condMem[k] = mem;
          for (int i = 0; i < 2; i++) {
            Env e = s.e; bool t = (i == 0) != neg; e.cond[k] = t;
            if (auto *Ld = dyn_cast<LoadInst>(X); Ld && isa<AllocaInst>(Ld->getPointerOperand())) e.c[Ld->getPointerOperand()] = t; // a flag
            if (auto *Cm = dyn_cast<ICmpInst>(X); Cm && Cm->isEquality()) if (auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1))) if (auto *Ld = dyn_cast<LoadInst>(Cm->getOperand(0)); Ld && isa<AllocaInst>(Ld->getPointerOperand()) && ((i == 0) == (Cm->getPredicate() == CmpInst::ICMP_EQ)) && X == Cv) e.c[Ld->getPointerOperand()] = K->getSExtValue();
            go(Br->getSuccessor(i), e);
          }
          continue;
        }
        go(Br->getSuccessor(0), s.e); go(Br->getSuccessor(1), s.e); continue;
      }
      for (unsigned i = 0; i < T->getNumSuccessors(); i++) { if (isa<InvokeInst>(T) && i == 1) continue; go(T->getSuccessor(i), s.e); }
    }
    return false;
  }
  void locals(Function &F) {
    findHomes(F);
    for (auto &I : instructions(F)) {
      auto *A = dyn_cast<AllocaInst>(&I); if (!A || A->isArrayAllocation() || homes.count(A)) continue;
      auto *T = A->getAllocatedType(); if (!T->isIntegerTy() && !T->isFloatingPointTy() && !T->isPointerTy()) continue;
      std::string nm = varName(A, &F); bool decl = false; for (auto &J : instructions(F)) if (auto *D = dyn_cast<DbgDeclareInst>(&J)) if (D->getAddress() == A) { decl = true; if (D->getVariable()->isArtificial()) decl = false; }
      if (!decl || nm.empty()) continue;
      bool argHome = false; for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A && isa<Argument>(S->getValueOperand())) argHome = true; if (argHome) continue;
      C.R.counts["variables"]++;
      std::vector<const Instruction *> reads, rets; flow(F, A, reads, rets);
      if (reads.empty()) continue;
      C.R.counts["variables_followed_by_path"]++;
      bool ov = false; for (auto *rd : reads) {
        bool o = false; bool bad = pathTo(F, A, {rd}, o); if (o) { ov = true; }
        if (bad) { const Instruction *deep; effect(rd, A, deep); auto f = mk("uninitialised", rd, funcKey(&F) + "|" + nm, std::string("'") + nm + "' may be used before it is assigned"); if (deep) f.notes.push_back("it is read at " + where(deep)); C.R.add(f); break; }
      }
      if (ov) C.R.counts["path_limit_reached"]++;
    }
  }
};
} // namespace
// ---- members
static bool scalarType(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) { auto t = D->getTag(); if (t == dwarf::DW_TAG_pointer_type) return true; if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) { T = D->getBaseType(); continue; } return false; }
  if (isa_and_nonnull<DIBasicType>(T)) return true;
  auto *CT = dyn_cast_or_null<DICompositeType>(T); return CT && CT->getTag() == dwarf::DW_TAG_enumeration_type;
}
struct Members {
  Ctx &C; An &A; std::map<std::pair<const Function *, unsigned>, std::set<std::string>> memo; std::set<std::pair<const Function *, unsigned>> busy;
  Members(Ctx &C, An &A) : C(C), A(A) {}
  // the member at the start of an object: its address is the object's
  static std::string first(const Argument *X, const Type *T) {
    if (!T->isIntegerTy() && !T->isFloatingPointTy() && !T->isPointerTy()) return "";
    if (X->getArgNo() != 0) return ""; for (auto &I : instructions(*X->getParent())) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand() == X) return firstField(S->getPointerOperand());
    return "";
  }
  std::string fieldAt(const Value *P, const Argument *X) { // the member of *X an address denotes
    P = P->stripPointerCasts(); auto *G = dyn_cast<GEPOperator>(P);
    if (!G || G->getNumIndices() != 2 || A.loc(G->getPointerOperand()) != X) return ""; return fieldOf(G, C.M);
  }
  const std::set<std::string> &assigned(const Function *F, unsigned k) {
    auto key = std::make_pair(F, k); auto it = memo.find(key); if (it != memo.end()) return it->second;
    static std::set<std::string> none; if (!busy.insert(key).second) return none;
    A.findHomes(*F); const Argument *X = F->getArg(k);
    std::map<const BasicBlock *, std::set<std::string>> in; std::set<const BasicBlock *> have; std::vector<const BasicBlock *> w{&F->getEntryBlock()}; have.insert(w[0]); bool ret = false; std::set<std::string> out;
    std::map<const BasicBlock *, std::set<std::string>> atRet;
    while (!w.empty()) {
      auto *B = w.back(); w.pop_back(); auto s = in[B];
      for (auto &I : *B) {
        if (auto *S = dyn_cast<StoreInst>(&I)) { auto f = fieldAt(S->getPointerOperand(), X); if (f.empty() && A.loc(S->getPointerOperand()) == X) f = first(X, S->getValueOperand()->getType()); if (!f.empty()) s.insert(f); }
        else if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *H = calleeOf(CB);
          for (unsigned i = 0; i < CB->arg_size(); i++) { auto *a = CB->getArgOperand(i); if (!a->getType()->isPointerTy()) continue;
            if (A.loc(a) == X && H && !H->isDeclaration() && i < H->arg_size() && A.repo(H)) { auto r = assigned(H, i); s.insert(r.begin(), r.end()); }
            else { auto f = fieldAt(a, X); if (f.empty()) continue; if (!H || H->isDeclaration() || !A.repo(H) || i >= H->arg_size()) s.insert(f); else { auto &sm = A.summary(H, i); if (sm.writes) s.insert(f); } } }
        }
        if (isa<ReturnInst>(I)) atRet[B] = s;
      }
      auto *T = B->getTerminator();
      for (unsigned i = 0; i < T->getNumSuccessors(); i++) { if (isa<InvokeInst>(T) && i == 1) continue; auto *S = T->getSuccessor(i); if (have.insert(S).second) { in[S] = s; w.push_back(S); } else { std::set<std::string> m; for (auto &f : in[S]) if (s.count(f)) m.insert(f); if (m != in[S]) { in[S] = m; w.push_back(S); } } }
    }
    for (auto &p : atRet) { if (!ret) out = p.second; else { std::set<std::string> m; for (auto &f : out) if (p.second.count(f)) m.insert(f); out = m; } ret = true; }
    busy.erase(key); return memo[key] = out;
  }
  void run() {
    std::map<std::string, const Instruction *> read; std::map<std::string, std::set<std::string>> fields; std::map<std::string, std::vector<const Function *>> ctors;
    DebugInfoFinder DF; DF.processModule(*C.M);
    for (auto *T : DF.types()) { auto *CT = dyn_cast<DICompositeType>(T); if (!CT || (CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_structure_type) || CT->getName().empty()) continue;
      for (auto *E : CT->getElements()) { auto *DT = dyn_cast<DIDerivedType>(E); if (DT && DT->getTag() == dwarf::DW_TAG_member && !DT->isStaticMember() && !DT->isBitField() && scalarType(DT->getBaseType())) fields[CT->getName().str()].insert(CT->getName().str() + "." + DT->getName().str()); } }
    for (auto &F : *C.M) {
      if (!(isRepoFunc(&F) || isOutlined(&F)) || F.isDeclaration()) continue;
      for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (auto *X = dyn_cast_or_null<Argument>(A.loc(L->getPointerOperand()))) { auto f = first(X, L->getType()); if (!f.empty()) read[f] = &I; }
      if (isOutlined(&F)) goto uses;
      {auto n = shortName(&F); auto p = n.rfind("::"); if (p != std::string::npos && n.find("C1E") == std::string::npos) { auto cls = n.substr(0, p); auto q = cls.rfind("::"); if ((q == std::string::npos ? cls : cls.substr(q + 2)) == n.substr(p + 2)) { auto d = demangled(&F); if (d.find("(" + cls + " const&)") == std::string::npos && d.find("(" + cls + "&&)") == std::string::npos && F.getName().contains("C2E")) ctors[cls].push_back(&F); } }}
      uses:
      for (auto &I : instructions(F)) for (auto &o : I.operands()) if (auto *G = dyn_cast<GEPOperator>(o)) { if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getPointerOperand() == G) continue; auto f = fieldOf(G, C.M); if (!f.empty() && (!read.count(f) || isa<LoadInst>(I))) read[f] = &I; }
    }
    for (auto &kv : ctors) {
      auto it = fields.find(kv.first); if (it == fields.end()) continue; C.R.sets["classes"].insert(kv.first);
      for (auto *F : kv.second) { C.R.counts["constructors"]++; auto &s = assigned(F, 0);
        for (auto &f : it->second) { if (!read.count(f)) continue; C.R.counts["members"]++; if (s.count(f)) continue;
          const Instruction *at = &*inst_begin(*F); for (auto &I : instructions(*F)) if (I.getDebugLoc() && !I.getDebugLoc().isImplicitCode() && I.getDebugLoc().getLine()) { at = &I; break; }
          auto x = mk("member-uninitialised", at, f, "the constructor leaves '" + f + "' without a value on some path"); x.notes.push_back("it is read at " + where(read[f])); C.R.add(x); } }
    }
  }
};
void runUninit(Ctx &C) {
  An A(C);
  Members(C, A).run();
  for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) A.locals(F);
}
} // namespace vcsa
