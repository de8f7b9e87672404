// Loops over lists leave nothing out: the entries that the rounds of a counting loop use, together with those used by name
// next to it, reach from the first entry of the list to the last one its limit speaks of; and work that is divided into parts
// is divided without gaps and overlaps.
#include "ext.h"
namespace vcsa {
namespace {
struct Use { const Instruction *at; const PHINode *P; LinD k; LinD idx; std::string base, raw, name; bool called = false; int kind = 0; };
struct Range { LinD lo, hi; bool ok = false; };
struct Cover {
  Ctx &C; Ext E; Function &F; Cover(Ctx &C, Function &F, const ModSets &MS) : C(C), E(C, F, MS), F(F) {}
  Range range(const PHINode *P) {
    Range r; if (ompFor(P, r)) return r; double step; if (!E.counter(P, r.lo, step) || step != 1) return r; auto *L = E.LI.getLoopFor(P->getParent());
    SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
    for (auto *X : ex) { auto *Br = dyn_cast<BranchInst>(X->getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm || X != L->getHeader()) continue;
      auto pr = L->contains(Br->getSuccessor(0)) ? Cm->getPredicate() : Cm->getInversePredicate(); auto a = E.value(Cm->getOperand(0), nullptr), b = E.value(Cm->getOperand(1), nullptr); auto me = E.id(P);
      auto ka = a.t.find(me), kb = b.t.find(me); if (!a.ok || !b.ok) continue; bool ina = ka != a.t.end(), inb = kb != b.t.end(); if (ina == inb) continue; if (inb) { std::swap(a, b); pr = CmpInst::getSwappedPredicate(pr); ka = a.t.find(me); }
      if (ka->second != 1) continue; auto hi = b.add(a, -1).add(LinD::A(me), 1); // limit on the counter itself
      if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) hi.c += 1; else if (pr != CmpInst::ICMP_ULT && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_NE) continue;
      if (hi.has(me + " ")) continue; r.hi = hi; r.ok = true; return r; }
    return r;
  }
  static const Value *un1(const Value *V) { for (;;) { if (auto *B = dyn_cast<BinaryOperator>(V)) { auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); if (K && K->isOne() && (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::UDiv || B->getOpcode() == Instruction::Mul)) { V = B->getOperand(0); continue; } } if (auto *X = dyn_cast<CastInst>(V)) { if (!X->getType()->isIntegerTy() || !X->getSrcTy()->isIntegerTy()) return V; V = X->getOperand(0); continue; } return V; } }
  LinD plain(const Value *V, int d = 0) { V = un1(V); if (d < 8) if (auto *B = dyn_cast<BinaryOperator>(V)) { auto a = plain(B->getOperand(0), d + 1), b = plain(B->getOperand(1), d + 1); if (B->getOpcode() == Instruction::Add) return a.add(b, 1); if (B->getOpcode() == Instruction::Sub) return a.add(b, -1); } return E.value(V, nullptr); }
  // the rounds of a loop that the compiler hands out to the threads
  bool ompFor(const PHINode *P, Range &r) {
    auto *L = E.LI.getLoopFor(P->getParent()); if (!L || L->getHeader() != P->getParent()) return false;
    for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (!L->contains(P->getIncomingBlock(k))) { auto *Ld = dyn_cast<LoadInst>(P->getIncomingValue(k)); if (!Ld) return false; auto *lb = Ld->getPointerOperand()->stripPointerCasts();
      for (auto *U : lb->users()) if (auto *CB = dyn_cast<CallBase>(U)) { auto *H = CB->getCalledFunction(); if (!H || !H->getName().starts_with("__kmpc_for_static_init") || CB->getArgOperand(4)->stripPointerCasts() != lb) continue;
        auto *ub = CB->getArgOperand(5)->stripPointerCasts(); const StoreInst *a = nullptr, *b = nullptr; for (auto *V : lb->users()) if (auto *S = dyn_cast<StoreInst>(V)) if (E.DT.dominates(S, CB)) a = S; for (auto *V : ub->users()) if (auto *S = dyn_cast<StoreInst>(V)) if (E.DT.dominates(S, CB)) b = S;
        if (!a || !b) return false; r.lo = E.value(a->getValueOperand(), nullptr); r.hi = plain(b->getValueOperand()).add(LinD::K(1), 1); r.ok = r.lo.ok && r.hi.ok; C.R.counts["parallel_for_loops"]++; return r.ok; } }
    return false;
  }
  bool isOmp(const PHINode *P) { Range r; C.R.counts["parallel_for_loops"]--; if (!ompFor(P, r)) { C.R.counts["parallel_for_loops"]++; return false; } return true; }
  // the term of an index that moves with the counter, and how many entries after the counter's own the access lies
  bool shift(const LinD &idx, const std::string &me, LinD &k, std::string &rest) {
    std::string cof; int n = 0; double co = 0; for (auto &t : idx.t) { auto f = factors(t.first); int m = std::count(f.begin(), f.end(), me); if (!m) continue; if (m > 1 || ++n > 1) return false; f.erase(std::find(f.begin(), f.end(), me)); cof = f.empty() ? "" : product(f); co = t.second; }
    if (n != 1 || co <= 0) return false; LinD o = idx; for (auto &t : idx.t) { auto f = factors(t.first); if (std::count(f.begin(), f.end(), me)) o.t.erase(t.first); }
    if (cof.empty() && co == 1) { k = LinD::K(o.c); o.c = 0; rest = o.str(); return true; }
    if (cof.empty()) { double q = std::floor(o.c / co); k = LinD::K(q); o.c -= q * co; rest = std::to_string(co) + "*"; return true; }
    auto q = o.t.find(cof); k = LinD::K(q == o.t.end() ? 0 : std::floor(q->second / co)); rest = cof + "*"; return true;
  }
  std::vector<Use> uses; std::map<std::string, std::vector<std::pair<LinD, const Instruction *>>> named; static int kindOf(const Instruction *I) { return isa<LoadInst>(I) ? 1 : isa<StoreInst>(I) ? 2 : 3; } // by base: every index, whatever it is
  std::string baseOf(const Value *B) { B = B->stripPointerCasts(); if (auto *L = dyn_cast<LoadInst>(B)) { auto p = E.place(L->getPointerOperand()); if (!p.empty()) return "*" + p; } auto p = E.place(B); return p.empty() ? E.id(B) : p; }
  void collect() {
    for (auto &I : instructions(F)) {
      const Value *Pt = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) Pt = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) Pt = S->getPointerOperand();
      if (Pt) { auto *G = dyn_cast<GEPOperator>(Pt->stripPointerCasts()); std::string b; LinD idx; std::string nm;
        if (!G) { // entry 0 of an array
          auto *B = Pt->stripPointerCasts(); if (!isa<LoadInst>(B) && !Ext::isNew(B) && !isa<Argument>(B) && !isa<PHINode>(B)) continue; idx = LinD::K(0); b = baseOf(B); nm = E.nameOf(B); }
        else { if (G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) continue; idx = E.value(G->getOperand(1), nullptr); b = baseOf(G->getPointerOperand()); nm = E.nameOf(G->getPointerOperand()); }
        add(&I, b, nm, idx, false); continue; }
      auto *CB = dyn_cast<CallBase>(&I); if (!CB || isa<IntrinsicInst>(CB)) continue; auto *H = calleeOf(CB); if (!H || H->getName().starts_with("_Zna") || H->getName().starts_with("__kmpc")) continue;
      std::string obj; if (CB->arg_size() && CB->getArgOperand(0)->getType()->isPointerTy()) obj = baseOf(CB->getArgOperand(0));
      for (unsigned k = 0; k < CB->arg_size(); k++) if (auto *G = dyn_cast<GEPOperator>(CB->getArgOperand(k)->stripPointerCasts()); G && !G->getSourceElementType()->isStructTy() && G->getNumIndices() == 1) add(&I, baseOf(G->getPointerOperand()), E.nameOf(G->getPointerOperand()), E.value(G->getOperand(1), nullptr), false);
      if (!isRepoFunc(H) && H->getName().find("ixE") == StringRef::npos && H->getName().find("2atE") == StringRef::npos) continue;
      for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isIntegerTy(64)) add(&I, obj + " of " + H->getName().str() + "#" + std::to_string(k), shortName(H), E.value(CB->getArgOperand(k), nullptr), true);
    }
  }
  void add(const Instruction *I, const std::string &b, const std::string &nm, const LinD &idx, bool called) {
    if (!idx.ok) return; named[b].push_back({idx, I}); auto bi = E.byId();
    for (auto &t : idx.t) for (auto &f : factors(t.first)) { auto it = bi.find(f); auto *P = it == bi.end() ? nullptr : dyn_cast<PHINode>(it->second); LinD s; double st; if (!P || (!E.counter(P, s, st) && !isOmp(P))) continue; auto *L = E.LI.getLoopFor(P->getParent()); if (!L || !L->contains(I->getParent())) continue;
      Use u; u.at = I; u.P = P; u.kind = kindOf(I); u.idx = idx; u.name = nm; u.called = called; std::string rest; if (!shift(idx, f, u.k, rest)) continue; u.raw = b; u.base = b + " " + rest; uses.push_back(u); }
  }
  const PHINode *outer(const LinD &e, std::string &name) { if (e.t.size() != 1 || e.t.begin()->second != 1) return nullptr; auto bi = E.byId(); auto it = bi.find(e.t.begin()->first); auto *P = it == bi.end() ? nullptr : dyn_cast<PHINode>(it->second); LinD s; double st; if (!P || !E.counter(P, s, st)) return nullptr; name = e.t.begin()->first; return P; }
  bool top(const LinD &e) { return e.t.size() == 1 && e.t.begin()->second == 1; }
  std::set<std::string> reported;
  void judge(std::vector<Use *> &us, const Range &r, Loop *L, bool low, double from, double c, const std::string &partner, bool konst) {
    std::map<std::string, Use *> seen; bool array = false; for (auto *u : us) array |= !u->called; std::map<std::string, int> kinds; for (auto *u : us) kinds[u->base] |= u->kind; C.R.counts["loops_that_do_not_start_or_end_with_the_list"]++;
    for (auto *u : us) { if (seen.count(u->base)) continue; seen[u->base] = u; }
    if (low && partner.empty()) for (auto *B : L->blocks()) if (B != L->getHeader()) for (auto &I : *B) if (auto *Cm = dyn_cast<ICmpInst>(&I)) { auto pr = Cm->getPredicate(); auto *x = Cm->getOperand(0), *y = Cm->getOperand(1); if (E.value(y, nullptr).str() != LinD::A(E.id(us[0]->P)).str()) { std::swap(x, y); pr = CmpInst::getSwappedPredicate(pr); } if (E.value(y, nullptr).str() != LinD::A(E.id(us[0]->P)).str() || isa<Constant>(x)) continue; auto *XI = dyn_cast<Instruction>(x); if ((pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGE) && XI && L->contains(XI)) return; } // every round pairs its entry with entries before it
    for (auto &q : seen) { auto *u = q.second; if (array && u->called) continue; if (excused(u, r, L, low, from, c, partner, kinds[u->base])) { if (getenv("COVDBG")) fprintf(stderr, "excused %s by %s at %s\n", shortName(&F).c_str(), u->base.c_str(), where(u->at).c_str()); return; } }
    auto *u = us[0]; auto last = r.hi.add(LinD::K(1), -1); auto nm = u->name;
    C.R.counts["violations"]++; auto *T = E.LI.getLoopFor(u->P->getParent())->getHeader()->getTerminator();
    C.R.add(mk("cover", T, funcKey(&F) + "|" + nm + "|" + (low ? "first" : "last"), low ? "this loop over '" + nm + "' starts with entry " + E.pretty(r.lo) + ", and nothing else here uses the " + (partner.empty() ? "first one" : "entry before it") : "this loop over '" + nm + "' ends with entry " + E.pretty(last) + ", and nothing else here uses the last one"));
  }
  // are the entries that the loop leaves out used by name, or by another loop that belongs to this one, or is the list that short?
  bool excused(Use *u, const Range &r, Loop *L, bool low, double from, double c, const std::string &partner, int kinds) {
    auto me = E.id(u->P); LinD want; // an entry that is left out
    auto &b = u->raw; LinD other = u->idx; double co = 1; { LinD o; for (auto &t : u->idx.t) { auto f = factors(t.first); if (std::count(f.begin(), f.end(), me)) { other.t.erase(t.first); co = t.second; } } }
    if (!low) { auto *G = u->called ? nullptr : addr(u->at); Ext::Arr a; if (G && E.resolve(G->getPointerOperand(), a) && a.N) { auto &DL = C.M->getDataLayout(); auto sz = E.sizeOf(a.N, (double)DL.getTypeAllocSize(G->getSourceElementType())); auto d = sz.add(r.hi.add(u->k, 1), -1); if (sz.ok && d.isConst() && d.c <= 0) return true; } }
    std::string dummy; auto *Oc = low ? outer(LinD(r.hi).add(LinD::K(r.hi.c), -1), dummy) : nullptr; auto *OL = Oc ? E.LI.getLoopFor(Oc->getParent()) : nullptr;
    for (auto &n : named[b]) { if (n.second == u->at || (OL && !OL->contains(n.second)) || !(kindOf(n.second) & kinds)) continue; auto &x = n.first;
      LinD at = low ? (partner.empty() ? LinD::K(0) : r.lo) : r.hi; // compare with the entries [from, s) or [hi, hi - c)
      LinD d = x.add(other, -1).add(LinD::K(other.c), 1); // the part of the index that the counter would stand for
      if (low) { LinD e = partner.empty() ? d : d.add(LinD::A(partner), -1); if (e.isConst() && e.c / co >= from - 1e-9 && e.c / co < c - 1e-9) return true; if (e.isConst() && co != 1 && e.c >= 0 && e.c < c * co) return true; }
      else { LinD e = d.add(r.hi, -1); if (e.isConst() && e.c >= -1e-9 && e.c < -c - 1e-9) return true; }
      // another counter runs over the same list from its first entry on, inside this loop or around it
      auto bi = E.byId(); for (auto &t : x.t) { auto it = bi.find(t.first); auto *P = it == bi.end() ? nullptr : dyn_cast<PHINode>(it->second); if (!P || P == u->P || t.second != co) continue; auto q = range(P); if (!q.ok) continue; auto *M = E.LI.getLoopFor(P->getParent());
        if (low && L->contains(M) && M != L && q.lo.isConst() && q.lo.c <= from && partner.empty()) return true; }
    }
    return false;
  }
  static const GEPOperator *addr(const Instruction *I) { const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(I)) P = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(I)) P = S->getPointerOperand(); return P ? dyn_cast<GEPOperator>(P->stripPointerCasts()) : nullptr; }
  // ---- work divided among the threads
  typedef std::map<const Function *, Cover *> All;
  const CallBase *fork(All &all, Cover *&G) { for (auto &p : all) for (auto &I : instructions(p.second->F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (H && H->getName().starts_with("__kmpc_fork_call") && CB->getArgOperand(2)->stripPointerCasts() == &F) { G = p.second; return CB; } } return nullptr; }
  // a number of the parallel region in terms of the function around it
  LinD up(const LinD &e, const CallBase *CB, Cover *G) {
    LinD r = LinD::K(e.c); r.ok = e.ok;
    for (auto &t : e.t) { LinD m = LinD::K(t.second); for (auto &f : factors(t.first)) { LinD v = LinD::A(f); size_t i = 0; bool star = false; while (i < f.size() && f[i] == '*') i++, star = true; 
        if (CB && i < f.size() && f[i] == 'a' && isdigit(f[i + 1])) { unsigned k = atoi(f.c_str() + i + 1); auto rest = f.substr(i); rest = rest.substr(std::min(rest.find_first_not_of("0123456789", 1), rest.size())); if (k + 1 < CB->arg_size() && k >= 2) { auto *A = CB->getArgOperand(k + 1); if (rest == "@" && !star) { auto p = G->E.place(A); if (!p.empty()) v = G->E.content(p, A, CB); } else if (rest.empty() && !star) v = G->E.value(A, nullptr); else { v = LinD::A(E.nice.count(f) ? "~" + E.nice[f] : f); G->E.nice[v.t.begin()->first] = v.t.begin()->first.substr(v.t.begin()->first[0] == '~'); } } }
        if (!v.ok) v = LinD::A(f); m = polyMul(m, v); } r = r.add(m, 1); }
    return r; }
  static bool same(Cover *G, const LinD &a, const LinD &b) { auto d = a.add(b, -1); return (d.isConst() && d.c == 0) || G->E.pretty(a) == G->E.pretty(b); }
  LinD diff(Cover *G, const LinD &a, const LinD &b) { auto d = a.add(b, -1); if (d.isConst()) return d; auto x = a, y = b; double k = x.c - y.c; x.c = y.c = 0; if (G->E.pretty(x) == G->E.pretty(y)) return LinD::K(k); return d; }
  void bad(const Instruction *I, const std::string &key, const std::string &msg) { C.R.counts["violations"]++; if (reported.insert(key).second) C.R.add(mk("divide", I, funcKey(&F) + "|" + key, msg)); }
  void chunks(All &all) {
    std::set<std::string> tids; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = CB->getCalledFunction(); if (H && H->getName() == "omp_get_thread_num") tids.insert(E.id(CB)); }
    if (tids.empty() || !isOutlined(&F)) return; Cover *G = nullptr; auto *CB = fork(all, G); if (!CB) { return; } C.R.counts["parallel_regions"]++;
    // the number of threads that was set for this region
    LinD threads; threads.ok = false; const Instruction *setAt = nullptr; for (auto &I : instructions(G->F)) if (auto *S = dyn_cast<CallBase>(&I)) { auto *H = S->getCalledFunction(); if (H && H->getName() == "omp_set_num_threads" && G->E.DT.dominates(S, CB) && (!setAt || G->E.DT.dominates(setAt, S))) { setAt = S; threads = G->E.value(un1(S->getArgOperand(0)), nullptr); } }
    for (auto &I : instructions(F)) { auto *B = dyn_cast<BinaryOperator>(&I); if (!B || !B->getType()->isIntegerTy(64)) continue; auto v = E.value(B, nullptr); if (!v.ok) continue;
      LinD stride = LinD::K(0), rest = v; bool have = false; std::string tid; for (auto &t : v.t) { auto f = factors(t.first); for (auto &x : tids) { auto q = std::find(f.begin(), f.end(), x); if (q == f.end()) continue; f.erase(q); have = true; tid = x; rest.t.erase(t.first); stride = stride.add(f.empty() ? LinD::K(t.second) : LinD::A(product(f), t.second), 1); break; } }
      if (!have || stride.isConst()) continue; if (rest.t.size() != 1 || rest.t.begin()->second != 1) continue; auto bi = E.byId(); auto it = bi.find(rest.t.begin()->first); auto *P = it == bi.end() ? nullptr : dyn_cast<PHINode>(it->second); if (!P) continue; auto r = range(P); if (!r.ok) continue;
      bool used = false; for (auto *U : B->users()) used |= !isa<ICmpInst>(U); if (!used) continue;
      C.R.counts["divided_work"]++; std::string nm = varName(B, &F); if (nm.empty()) nm = "entry number";
      auto lo = r.lo.add(LinD::K(rest.c), 1); if (lo.isConst() && lo.c > 0) bad(B, "first", "the share of each thread starts with its entry " + E.pretty(lo) + ": the first entry of every share is left out");
      auto d = r.hi.add(LinD::K(rest.c), 1).add(stride, -1); if (!(d.isConst() && d.c == 0)) bad(B, "share", "thread t begins at t times " + E.pretty(stride) + ", but does " + E.pretty(r.hi) + " entries: " + (d.isConst() && d.c < 0 ? "entries between the shares are left out" : "shares overlap or leave gaps"));
      // the limit, and what was divided
            LinD items; items.ok = false; for (auto &J : instructions(F)) if (auto *Cm = dyn_cast<ICmpInst>(&J)) { auto pr = Cm->getPredicate(); if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE || !Cm->getOperand(0)->getType()->isIntegerTy(64)) continue; auto x = E.value(Cm->getOperand(0), nullptr), y = E.value(Cm->getOperand(1), nullptr); if (!x.ok || !y.ok) continue; auto dx = x.add(v, -1), dy = y.add(v, -1); if (!dx.isConst()) { if (!dy.isConst()) continue; std::swap(x, y); std::swap(dx, dy); pr = CmpInst::getSwappedPredicate(pr); } if (isa<PHINode>(Cm->getOperand(0)) && Cm->getOperand(0) == P) continue;
        auto t = y; t.c -= dx.c; if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_SGT) t.c += 1; if (!items.ok || diff(this, t, items).c > 0) items = t; }
      if (!items.ok) { bad(B, "limit", "nothing keeps the last thread's share within the list"); continue; }
      shareAtom = stride.t.size() == 1 ? stride.t.begin()->first : ""; division(up(stride, CB, G), up(items, CB, G), threads, B, G, CB);
    }
    // arrays with an entry for each thread
    for (auto &I : instructions(F)) { auto *Gp = addr(&I); if (!Gp || Gp->getSourceElementType()->isStructTy() || Gp->getNumIndices() != 1) continue; auto idx = E.value(Gp->getOperand(1), nullptr); std::string a; double k; if (!idx.single(a, k) || k != 1 || !tids.count(a)) continue;
      auto *Ld = dyn_cast<LoadInst>(Gp->getPointerOperand()->stripPointerCasts()); auto *A = Ld ? dyn_cast<Argument>(Ld->getPointerOperand()->stripPointerCasts()) : nullptr; if (!A || A->getArgNo() + 1 >= CB->arg_size() || !threads.ok) continue; auto *V = CB->getArgOperand(A->getArgNo() + 1); auto p = G->E.place(V); Ext::Arr ar; if (p.empty() || !G->E.resolvePlace(p, V, CB, ar, 0)) continue;
      if (!ar.N) { if (ar.arg < 0 || ar.deref || ar.row) continue; for (auto &q : all) for (auto &J : instructions(q.second->F)) if (auto *C2 = dyn_cast<CallBase>(&J); C2 && calleeOf(C2) == &G->F && (unsigned)ar.arg < C2->arg_size()) { auto &Q = *q.second; Ext::Arr b; if (!Q.E.resolve(C2->getArgOperand(ar.arg), b) || !b.N) continue; auto sz = Q.E.sizeOf(b.N, (double)C.M->getDataLayout().getTypeAllocSize(Gp->getSourceElementType())); C.R.counts["per_thread_arrays"]++; auto a = Q.E.pretty(sz), t = G->E.pretty(threads); if (a == t) continue; bool field = t.size() > 1 && t[0] == '_'; if (!field) continue; bad(&I, "threads " + Q.E.nameOf(C2->getArgOperand(ar.arg)), "'" + Q.E.nameOf(C2->getArgOperand(ar.arg)) + "' has " + a + " entries, one for each thread, but " + t + " threads run"); } continue; }
      auto sz = G->E.sizeOf(ar.N, (double)C.M->getDataLayout().getTypeAllocSize(Gp->getSourceElementType())); C.R.counts["per_thread_arrays"]++; if (!same(G, sz, threads)) { auto d = diff(G, sz, threads); if (!d.isConst() || d.c < 0) { auto nm = varName(V->stripPointerCasts(), &G->F); bad(&I, "threads " + nm, "'" + nm + "' has " + G->E.pretty(sz) + " entries, one for each thread, but " + G->E.pretty(threads) + " threads run"); } } }
  }
  // a share that is only sometimes more than total / parts: where it is not, the division must leave nothing over
  std::string shareAtom;
  static const BinaryOperator *quotient(const Value *V, double &k) { k = 0; V = un1(V); while (auto *A = dyn_cast<BinaryOperator>(V)) { if (A->getOpcode() == Instruction::UDiv) return A; auto *K = dyn_cast<ConstantInt>(A->getOperand(1)); if (A->getOpcode() != Instruction::Add || !K) return nullptr; k += (double)K->getSExtValue(); V = un1(A->getOperand(0)); } return nullptr; }
  static bool exact(Cover *G, const Value *Cond, bool when, const BinaryOperator *Q) { // the condition having this outcome means that the division leaves nothing over
    auto *Cm = dyn_cast<ICmpInst>(Cond); if (!Cm) return false; auto p = when ? Cm->getPredicate() : Cm->getInversePredicate(); auto *x = un1(Cm->getOperand(0)), *y = un1(Cm->getOperand(1)); auto T = G->E.value(Q->getOperand(0), nullptr), n = G->E.value(Q->getOperand(1), nullptr);
    for (int sw = 0; sw < 2; sw++, std::swap(x, y), p = CmpInst::getSwappedPredicate(p)) {
      if (auto *R = dyn_cast<BinaryOperator>(x); R && R->getOpcode() == Instruction::URem) { auto *K = dyn_cast<ConstantInt>(y); if (!K || !same(G, G->E.value(R->getOperand(0), nullptr), T) || !same(G, G->E.value(R->getOperand(1), nullptr), n)) continue; if ((p == CmpInst::ICMP_EQ && K->isZero()) || (p == CmpInst::ICMP_ULT && K->isOne()) || (p == CmpInst::ICMP_ULE && K->isZero())) return true; continue; }
      auto *Mu = dyn_cast<BinaryOperator>(x); if (!Mu || Mu->getOpcode() != Instruction::Mul || !same(G, G->E.value(y, nullptr), T)) continue; for (int w = 0; w < 2; w++) { auto a = G->E.value(Mu->getOperand(w), nullptr), b = G->E.value(Mu->getOperand(1 - w), nullptr), q = G->E.value(Q, nullptr); if (same(G, a, n) && same(G, b, q) && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_UGE)) return true; }
    }
    return false; }
  bool rounded(const LinD &stride, const Instruction *B, Cover *G, const CallBase *CB) {
    const BinaryOperator *Q = nullptr; double k = 0; bool fine = false; auto bi = G->E.byId(); const Value *X = nullptr;
    auto judge = [&](const Value *V, const BasicBlock *from, const BasicBlock *to) { double c; auto *q = quotient(V, c); if (!q) return; Q = q; k = c; if (c > 0) { fine = true; return; } auto *Br = from ? dyn_cast<BranchInst>(from->getTerminator()) : nullptr; fine = Br && Br->isConditional() && exact(G, Br->getCondition(), Br->getSuccessor(0) == to, q); };
    if (stride.t.size() == 1 && stride.t.begin()->second == 1) { auto it = bi.find(stride.t.begin()->first); if (it != bi.end()) X = it->second; }
    if (auto *P = dyn_cast_or_null<PHINode>(X)) { for (unsigned i = 0; i < P->getNumIncomingValues() && !Q; i++) judge(P->getIncomingValue(i), P->getIncomingBlock(i), P->getParent()); }
    else if (auto *Se = dyn_cast_or_null<SelectInst>(X)) { for (int i = 1; i < 3 && !Q; i++) { double c; if (auto *q = quotient(Se->getOperand(i), c)) Q = q, k = c, fine = c > 0 || exact(G, Se->getCondition(), i == 1, q); } }
    else if (shareAtom.size() > 2 && shareAtom[0] == 'a' && shareAtom.back() == '@') { unsigned a = atoi(shareAtom.c_str() + 1); if (a + 1 >= CB->arg_size()) return false; auto *A = CB->getArgOperand(a + 1)->stripPointerCasts(); const StoreInst *first = nullptr, *second = nullptr;
      for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A) { if (G->E.DT.dominates(S, CB)) { if (!first || G->E.DT.dominates(first, S)) first = S; } }
      if (auto *L = first ? dyn_cast<LoadInst>(un1(first->getValueOperand())) : nullptr) if (auto *Mx = dyn_cast<CallBase>(L->getPointerOperand())) { auto *H = calleeOf(Mx); if (!H || H->getName().find("St3max") == StringRef::npos) return false; const StoreInst *was = nullptr; for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S != first && S->getPointerOperand() == A && G->E.DT.dominates(S, Mx)) was = S; double c; Q = was ? quotient(was->getValueOperand(), c) : nullptr; if (!Q) return false; fine = c > 0; first = nullptr; }
      if (!first && !Q) return false; if (first) for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A && S != first && !G->E.DT.dominates(S, first)) { if (second) return false; second = S; }
      if (first) { if (!second) return false; double c; Q = quotient(first->getValueOperand(), c); if (!Q) return false; k = c; if (c > 0) fine = true; else { auto *BB = second->getParent(); auto *Pr = BB->getSinglePredecessor(); auto *Br = Pr ? dyn_cast<BranchInst>(Pr->getTerminator()) : nullptr; fine = Br && Br->isConditional() && exact(G, Br->getCondition(), Br->getSuccessor(0) != BB, Q); } } }
    if (!Q) return false; C.R.counts["divisions_examined"]++;
    if (!fine) { auto T = G->E.pretty(G->E.value(Q->getOperand(0), nullptr)), n = G->E.pretty(G->E.value(Q->getOperand(1), nullptr)); bad(B, "remainder", T + " divided by " + n + " is rounded down, and not only where nothing is left over: the last entries are given to no thread"); }
    return true; }
  // stride = total / parts + k must reach the last of the items
  void division(LinD stride, LinD items, const LinD &threads, const Instruction *B, Cover *G, const CallBase *CB) {
    auto bi = G->E.byId(); auto own = E.byId(); const BinaryOperator *Q = nullptr; double k = stride.c; bool local = false;
    if (stride.t.size() == 1 && stride.t.begin()->second == 1) { auto a = stride.t.begin()->first; auto it = bi.find(a); if (it != bi.end()) Q = dyn_cast<BinaryOperator>(it->second); if (!Q) { it = own.find(a); if (it != own.end()) { Q = dyn_cast<BinaryOperator>(it->second); local = true; } } }
    if (!Q || Q->getOpcode() != Instruction::UDiv) { if (!rounded(stride, B, G, CB)) C.R.counts["divisions_not_understood"]++; return; }
    C.R.counts["divisions_examined"]++; auto n = local ? up(E.value(Q->getOperand(1), nullptr), CB, G) : G->E.value(Q->getOperand(1), nullptr), T = local ? up(E.value(Q->getOperand(0), nullptr), CB, G) : G->E.value(Q->getOperand(0), nullptr);
    if (threads.ok && !same(G, n, threads)) bad(B, "parts", "the work is divided into " + G->E.pretty(n) + " parts, but " + G->E.pretty(threads) + " threads do one each");
    auto more = diff(G, T, items); if (getenv("COVDBG")) fprintf(stderr, "division: %s / %s + %g, items %s\n", G->E.pretty(T).c_str(), G->E.pretty(n).c_str(), k, G->E.pretty(items).c_str());
    if (k >= 1) { if (!more.isConst() || more.c < -1 || more.c > 0) bad(B, "total", "the number that is divided, " + G->E.pretty(T) + ", is not the number of entries, " + G->E.pretty(items)); return; }
    if (k < 0 || !same(G, T.add(n, -1).add(LinD::K(1), 1), items)) bad(B, "remainder", G->E.pretty(T) + " divided by " + G->E.pretty(n) + " is rounded down: the last entries are given to no thread");
  }
  // ---- work divided into parts that are done one after the other: the last part takes what the division leaves
  void parts() {
    for (auto &I : instructions(F)) { auto *M = dyn_cast<BinaryOperator>(&I); if (!M || M->getOpcode() != Instruction::Mul || !M->getType()->isIntegerTy(64)) continue;
      for (int k = 0; k < 2; k++) { std::set<const Value *> seen; std::vector<const Value *> w{M->getOperand(k)}; const BinaryOperator *Q = nullptr; while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (!seen.insert(V).second) continue; if (auto *P = dyn_cast<PHINode>(V)) { if (!E.LI.isLoopHeader(P->getParent())) for (auto &o : P->incoming_values()) w.push_back(o); } else if (auto *S = dyn_cast<SelectInst>(V)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); } else if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::UDiv && !isa<Constant>(B->getOperand(1))) Q = B; }
        if (!Q) continue; auto p = E.value(M->getOperand(1 - k), nullptr); if (!p.ok || p.isConst()) continue; auto n = E.value(Q->getOperand(1), nullptr), T = E.value(Q->getOperand(0), nullptr); if ((T.add(n, -1)).c != 0) { C.R.counts["divisions_not_understood"]++; continue; }
        C.R.counts["divisions_into_parts"]++; bool any = false, right = false; for (auto &J : instructions(F)) if (auto *Cm = dyn_cast<ICmpInst>(&J); Cm && Cm->getOperand(0)->getType()->isIntegerTy(64)) { auto a = E.value(Cm->getOperand(0), nullptr), b = E.value(Cm->getOperand(1), nullptr); if (!a.ok || !b.ok) continue; auto z = a.add(p, -1), y = b.add(p, -1); LinD other; double c; if (z.isConst()) other = b, c = z.c; else if (y.isConst()) other = a, c = y.c; else continue; if (other.isConst()) continue; auto oc = other; oc.c = 0; if (E.pretty(oc) != E.pretty(n) && !sharesPlace(oc, n)) continue; any = true; right |= other.c - c == -1; if (Cm->getPredicate() != ICmpInst::ICMP_EQ && Cm->getPredicate() != ICmpInst::ICMP_NE) right |= other.c - c == 0; }
        if (!any || !right) bad(M, "parts of " + E.pretty(T), E.pretty(T) + " divided by " + E.pretty(n) + " is rounded down" + (any ? ", and the part that takes what is left is not the last one (number " + E.pretty(n) + " - 1)" : ", and no part takes what is left")); } }
  }
  static bool sharesPlace(const LinD &a, const LinD &b) { for (auto &x : a.t) for (auto &y : b.t) { auto f = x.first.substr(0, x.first.find('@')), g = y.first.substr(0, y.first.find('@')); if (!f.empty() && f == g) return true; } return false; }
  void run() {
    collect(); std::map<const PHINode *, std::vector<Use *>> by; for (auto &u : uses) by[u.P].push_back(&u);
    for (auto &p : by) {
      auto r = range(p.first); if (!r.ok) continue; C.R.counts["loops_over_lists"]++; auto *L = E.LI.getLoopFor(p.first->getParent());
      std::map<std::string, std::pair<double, double>> ks; for (auto *u : p.second) { double k = u->k.c; if (!isOmp(u->P)) { if (k > 0 && !(r.hi.c < 0 && !r.hi.isConst() && k <= -r.hi.c)) k = 0; if (k < 0 && k < -r.lo.c) k = 0; } auto &q = ks.insert({u->base, {k, k}}).first->second; q.first = std::min(q.first, k); q.second = std::max(q.second, k); }
      bool omp = isOmp(p.first); double kmin = omp ? 1e9 : 0, kmax = omp ? -1e9 : 0; for (auto &q : ks) kmin = std::min(kmin, q.second.first), kmax = std::max(kmax, q.second.second);
      if (getenv("COVDBG")) fprintf(stderr, "%s:%s [%s, %s) k %g..%g %s\n", shortName(&F).c_str(), where(p.first->getParent()->getTerminator()).c_str(), E.pretty(r.lo).c_str(), E.pretty(r.hi).c_str(), kmin, kmax, p.second[0]->name.c_str());
      if (omp) { r.lo.c += kmin; r.hi.c += kmax; kmin = kmax = 0; }
      bool constLo = r.lo.isConst(), constHi = r.hi.isConst(); auto me = E.id(p.first);
      // ---- the first entries
      double from = 0; std::string partner; bool first = false; // first round that a complete loop would start with
      if (constLo) first = r.lo.c > 0; else { auto *Q = outer(r.lo, partner); if (Q) { from = 1; first = r.lo.c > 1; } }
      double s0 = constLo ? r.lo.c : r.lo.c; bool oneBased = constLo && s0 >= 1 && r.hi.c >= 1 && (!constHi || r.hi.c == 4); // rows of faces: their entries are numbered from 1, the last is the count itself
      if (oneBased) from = 1;
      if (first && s0 > from && kmin > -(s0 - from)) judge(p.second, r, L, true, from, s0, constLo ? "" : partner, constHi);
      // ---- the last entries
      if (!constHi && r.hi.c < 0 && top(r.hi) && kmax < -r.hi.c) judge(p.second, r, L, false, 0, r.hi.c, "", false);
      if (constHi && constLo && s0 == 0 && r.hi.c < 3) for (auto *u : p.second) { if (u->k.c != 0) continue; bool more = false, byName = false, vec = false; if (auto *Gp = addr(u->at); Gp && Gp->getSourceElementType()->isDoubleTy() && u->idx.t.size() == 1 && u->idx.c == 0) { Ext::Arr a; vec = true; if (E.resolve(Gp->getPointerOperand(), a) && a.N) { auto sz = E.sizeOf(a.N, 8); vec = sz.isConst() && sz.c > r.hi.c; } auto *O = Gp->getPointerOperand()->stripPointerCasts(); if (!isa<LoadInst>(O) && !isa<Argument>(O) && !a.N) vec = false; } if (u->idx.t.size() == 2 && !u->called) for (auto &t : u->idx.t) if (t.first != me && factors(t.first).size() == 1 && t.second >= 3 && t.second > r.hi.c + u->idx.c && u->idx.t.at(me) == 1) vec = true; for (auto &v : uses) if (v.P != u->P && v.base == u->base && v.k.c == 0) { auto q = range(v.P); more |= q.ok && q.lo.isConst() && q.lo.c == 0 && q.hi.isConst() && q.hi.c == 3; } for (auto &n : named[u->raw]) { auto d = n.first.add(u->idx, -1).add(LinD::A(me), 1); byName |= d.isConst() && d.c >= r.hi.c && d.c < 3; } if ((more || vec) && !byName) { bad(u->at, u->name + "|short", "this loop uses " + E.pretty(r.hi) + " of the three entries of '" + u->name + "' that the other loops here go over"); break; } }
      if (constHi && constLo && s0 == 1 && r.hi.c == 3) judge(p.second, r, L, false, 0, -1, "", true);
    }
  }
};
} // namespace
void runCover(Ctx &C) {
  ModSets MS(*C.M);
  std::vector<std::unique_ptr<Cover>> own; Cover::All all;
  for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) { own.push_back(std::make_unique<Cover>(C, F, MS)); all[&F] = own.back().get(); }
  for (auto &c : own) { c->run(); c->chunks(all); c->parts(); }
}
} // namespace vcsa
