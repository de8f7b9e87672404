// Numbers that index several lists laid end to end (surface, edge, corner spheres; seeds, then interior spheres): wherever such
// a number is used, the comparisons that lead there decide which list it falls into, the lists before it are subtracted, and
// it is that list that is accessed; and where numbers of one list are turned into such numbers, the same is added.
#include "ext.h"
namespace vcsa {
namespace {
typedef std::map<const Function *, std::set<unsigned>> IndexArgs;
// returns nothing but a member of its object
const LoadInst *gotten(const Function *H) {
  if (!H || H->isDeclaration() || H->arg_size() != 1 || !H->getReturnType()->isIntegerTy() || H->size() != 1) return nullptr;
  for (auto &I : instructions(*H)) if ((isa<CallBase>(I) && !isa<IntrinsicInst>(I)) || isa<BinaryOperator>(I) || isa<PHINode>(I)) return nullptr;
  auto *R = dyn_cast<ReturnInst>(H->front().getTerminator()); return R && R->getReturnValue() ? dyn_cast<LoadInst>(R->getReturnValue()) : nullptr;
}
typedef std::map<std::string, std::set<std::string>> Seen; // array variable -> limits below which, or minus which, it is indexed
struct Sp {
  Seen *below = nullptr, *minus = nullptr; bool learn = false;
  Ctx &C; const ModSets &MS; Ext E; const IndexArgs &IA;
  std::set<std::string> counts, lifted, objects; std::map<std::string, std::string> owner, canon; // count -> the object it is the number of; several numbers of one object are one
  std::map<std::string, LinD> decode; std::set<std::string> twice; // object -> what is subtracted from a number before it indexes that object
  Sp(Ctx &C, Function &F, const ModSets &MS, const IndexArgs &IA) : C(C), MS(MS), E(C, F, MS), IA(IA) {}
  std::string object(const Value *P) { P = P->stripPointerCasts(); if (auto *L = dyn_cast<LoadInst>(P)) { auto s = E.place(L->getPointerOperand()); return s.empty() ? "" : "*" + s; } return E.place(P); }
  bool grows(const Value *O, const std::string &obj, const std::string &field) { // the function may change the object's number
    for (auto &I : instructions(E.F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) { auto it = MS.mod.find(H); if (it == MS.mod.end() || !it->second.count(field)) continue; for (auto &a : CB->args()) if (a->getType()->isPointerTy() && object(a) == obj) return true; }
    return false;
  }
  LinD norm(const LinD &e) { if (!e.ok) return e; LinD r = LinD::K(e.c); for (auto &t : e.t) { LinD m = LinD::K(t.second); for (auto &f : factors(t.first)) m = polyMul(m, LinD::A(canon.count(f) ? canon[f] : f)); r = r.add(m, 1); } return r; }
  void collect() {
    auto note = [&](const LinD &e) { if (e.ok) for (auto &t : e.t) for (auto &f : factors(t.first)) counts.insert(f); };
    std::map<std::string, std::string> first;
    for (auto &I : instructions(E.F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (Ext::isNew(CB)) note(E.sizeOf(CB, 1));
        if (auto *L = gotten(calleeOf(CB))) {
          auto v = E.value(CB, nullptr); std::string a; double k; if (!v.single(a, k)) continue; counts.insert(a); auto o = object(CB->getArgOperand(0)); if (o.empty()) continue; owner[a] = o; objects.insert(o);
          auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()); auto fld = G ? fieldOf(G, C.M) : "0"; auto key = o + "|" + fld;
          if (fld.empty() || grows(CB->getArgOperand(0), o, fld)) continue; if (first.count(key)) canon[a] = first[key]; else first[key] = a;
        }
      }
      if (auto *L = dyn_cast<LoadInst>(&I)) if (isOutlined(&E.F) && L->getType()->isIntegerTy(64) && isa<Argument>(L->getPointerOperand()->stripPointerCasts())) { auto v = E.value(L, nullptr); std::string a; double k; if (v.single(a, k) && k == 1 && a.back() == '@') counts.insert(a); } // taken over from the enclosing function, and not changed
      if (auto *P = dyn_cast<PHINode>(&I)) { LinD s; double k; if (E.counter(P, s, k) && k > 0) E.upper(P, s, [](LinD) {}, note); }
    }
    // a counter is not a count
    auto bi = E.byId(); for (auto it = counts.begin(); it != counts.end();) { auto b = bi.find(*it); LinD s; double k; auto *P = b == bi.end() ? nullptr : dyn_cast<PHINode>(b->second); if (P && E.counter(P, s, k)) it = counts.erase(it); else ++it; }
    for (auto it = counts.begin(); it != counts.end();) if (canon.count(*it)) it = counts.erase(it); else ++it;
  }
  bool countsOnly(const LinD &e) { if (!e.ok || e.isConst()) return false; for (auto &t : e.t) { if (t.second <= 0) return false; for (auto &f : factors(t.first)) if (!counts.count(f)) return false; } return true; }
  // the bounds that conditions put on an index a: low <= a < up
  struct Bounds { LinD low, up; bool equal = false, any = false; Bounds() { low.ok = up.ok = false; } };
  Bounds bounds(const std::string &a, const std::vector<Con> &cs) {
    Bounds b; LinD eq; eq.ok = false;
    for (auto &c0 : cs) {
      auto e = norm(c0.e); auto q = e.t.find(a); if (q == e.t.end() || std::fabs(q->second) != 1) continue; LinD R = q->second > 0 ? LinD::A(a).add(e, -1) : e.add(LinD::A(a), 1); if (!R.ok) continue; // a >= R, or a <= R
      if (q->second > 0) { if (R.c != 0 || !countsOnly(R)) continue; b.any = true; if (!b.low.ok || countsOnly(R.add(b.low, -1))) b.low = R; }
      else { if (R.c == 0 && countsOnly(R)) { eq = R; continue; } LinD r1 = R.add(LinD::K(1), 1); if (r1.c != 0 || !countsOnly(r1)) continue; b.any = true; if (!b.up.ok || countsOnly(b.up.add(r1, -1))) b.up = r1; }
    }
    b.equal = b.low.ok && eq.ok && eq.add(b.low, -1).isConst(); return b;
  }
  // 'idx' indexes the object (or an array, when obj is empty)
  void site(const LinD &idx0, const std::vector<Con> &cs, const Instruction *at, const std::string &obj, const std::string &nm, int phase) {
    if (!idx0.ok) return; LinD idx = norm(idx0); bool up_ = false, own = false; for (auto &t : idx.t) if (t.second > 0) { if (factors(t.first).size() == 1 && counts.count(t.first)) up_ = true; else own = true; }
    auto arr = at->getDebugLoc() ? at->getDebugLoc()->getFilename().str() + "|" + nm : nm;
    if (up_ && own) { if (phase == 0) lifted.insert(obj); return; } if (phase == 0) return;
    for (auto &t : idx.t) {
      auto &a = t.first; double k = t.second; if (factors(a).size() != 1 || counts.count(a) || k <= 0) continue;
      auto b = bounds(a, cs); if (!b.any || b.equal) continue;
      LinD shift = LinD::K(0); for (auto &u : idx.t) if (u.second < 0) { bool only = true; for (auto &f : factors(u.first)) only &= counts.count(f) > 0; if (only) shift = shift.add(LinD::A(u.first), -u.second / k); }
      LinD want = b.low.ok ? b.low : LinD::K(0); auto d = shift.add(want, -1); if (learn) { if (obj.empty() && !nm.empty() && d.isConst() && d.c == 0) { if (b.low.ok) (*minus)[arr].insert(E.pretty(b.low)); else if (b.up.ok) (*below)[arr].insert(E.pretty(b.up)); } continue; }
      C.R.counts["combined_indices_examined"]++; if (b.low.ok) C.R.counts["shifted_indices_examined"]++;
      auto key = funcKey(&E.F) + "|" + nm + "|" + E.pretty(idx);
      if (!(d.isConst() && d.c == 0)) {
        if (!b.low.ok) { auto cs2 = E.known(idx0, at->getParent()); for (auto &c : cs2) c.e = norm(c.e); if (entails(cs2, LinD::A(a).add(shift, -1))) continue; }
        if (b.low.ok && obj.empty() && shift.isConst()) { auto L = E.pretty(b.low); Ext::Arr ar; bool mine = false; if (auto *P = getLoadStorePointerOperand(at)) if (auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts())) mine = E.resolve(G->getPointerOperand(), ar) && ar.N; if (mine || (!(*below)[arr].count(L) && !(*minus)[arr].count(L))) continue; }
        C.R.add(mk("shift", at, key, "'" + nm + "' is accessed at " + E.pretty(idx) + (b.low.ok ? " where " + E.pretty(LinD::A(a)) + " >= " + E.pretty(b.low) : " where nothing shows that " + E.pretty(LinD::A(a)) + " >= " + E.pretty(shift)))); continue; }
      if (obj.empty() || !objects.count(obj) || lifted.count(obj)) continue;
      if (b.low.ok || b.up.ok) { auto it = decode.find(obj); if (it == decode.end()) decode[obj] = want; else if (!(it->second.add(want, -1).isConst())) twice.insert(obj); }
      LinD room; room.ok = false; if (b.up.ok) room = b.up.add(want, -1); // how many entries the list has
      std::string cnt; double one;
      if (room.ok && room.single(cnt, one) && one == 1 && owner.count(cnt)) { C.R.counts["lists_identified"]++; if (owner[cnt] != obj) C.R.add(mk("list", at, key, "'" + nm + "' is accessed at " + E.pretty(idx) + ", which is below the number of entries of another list")); }
      else if (b.low.ok) for (auto &u : b.low.t) if (owner.count(u.first)) { C.R.counts["lists_identified"]++; if (owner[u.first] == obj) { C.R.add(mk("list", at, key, "'" + nm + "' is accessed at " + E.pretty(idx) + ", but its own entries are among those subtracted")); break; } }
    }
  }
  // a number handed to a call together with a list: either that list's number of entries (no entry), or an entry
  void translated(const PHINode *P, const CallBase *CB, const std::string &obj, const std::string &nm) {
    std::vector<std::pair<LinD, std::vector<Con>>> in; bool none = false; if (P->getNumIncomingValues() != 2) return;
    for (unsigned k = 0; k < 2; k++) {
      auto v = norm(E.value(P->getIncomingValue(k), nullptr)); if (!v.ok) return; std::string a; double one; auto *B = P->getIncomingBlock(k);
      if (v.single(a, one) && one == 1 && owner.count(a)) { none = true; C.R.counts["no_entry_marks_examined"]++; if (owner[a] != obj) { C.R.add(mk("mark", CB, funcKey(&E.F) + "|" + nm + "|mark", "the number that stands for no entry of '" + nm + "' is the number of entries of another list")); return; } continue; }
      auto cs = E.conditions(B); if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) E.branchCond(P->getParent(), Br, P->getParent(), cs);
      in.push_back({v, cs});
    }
    if (none) for (auto &x : in) { C.R.counts["translated_indices_examined"]++; site(x.first, x.second, CB, obj, nm, 1); }
  }
  // numbers that a call put into an array together with a list, moved on
  void encoded(const StoreInst *S) {
    auto v = norm(E.value(S->getValueOperand(), nullptr)); if (!v.ok || v.c != 0) return; std::string a; LinD lift = LinD::K(0);
    for (auto &t : v.t) { bool only = t.second > 0; for (auto &f : factors(t.first)) only &= counts.count(f) > 0; if (only) lift = lift.add(LinD::A(t.first), t.second); else if (!a.empty() || t.second != 1) return; else a = t.first; }
    if (a.empty() || lift.isConst()) return; const LoadInst *L = nullptr; { std::vector<const Value *> w{S->getValueOperand()}; while (!w.empty()) { auto *X = w.back(); w.pop_back(); if (auto *M = dyn_cast<LoadInst>(X)) { auto y = norm(E.value(M, nullptr)); std::string b; double k; if (y.single(b, k) && b == a) L = M; } else if (auto *O = dyn_cast<BinaryOperator>(X)) for (auto &o : O->operands()) w.push_back(o); } } if (!L) return;
    auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts()); auto *B = G ? dyn_cast<LoadInst>(G->getPointerOperand()->stripPointerCasts()) : nullptr; auto *Al = B ? dyn_cast<AllocaInst>(B->getPointerOperand()->stripPointerCasts()) : nullptr; if (!Al) return;
    std::set<std::string> from; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{nullptr};
    while (!w.empty()) {
      auto *X = w.back(); w.pop_back(); auto *Y = X ? X : S->getParent(); bool stop = false;
      for (const Instruction *I = X ? Y->getTerminator() : S->getPrevNode(); I && !stop; I = I->getPrevNode()) if (auto *CB = dyn_cast<CallBase>(I)) { bool has = false; std::string o; for (auto &q : CB->args()) { if (q->stripPointerCasts() == Al) has = true; else if (q->getType()->isPointerTy()) { auto n = object(q); if (objects.count(n)) o = n; } } if (has && !o.empty()) { from.insert(o); stop = E.DT.dominates(I, S); } }
      if (!stop) for (auto *Q : predecessors(Y)) if (seen.insert(Q).second) w.push_back(Q);
    }
    if (from.empty()) return; for (auto &o : from) if (!decode.count(o) || twice.count(o)) return;
    C.R.counts["numbers_moved_to_combined_range"]++; for (auto &o : from) { auto d = decode[o].add(lift, -1); if (d.isConst()) return; }
    C.R.add(mk("encode", S, funcKey(&E.F) + "|encode|" + E.pretty(lift), "numbers of entries have " + E.pretty(lift) + " added here, but have " + E.pretty(decode[*from.begin()]) + " subtracted where they are used"));
  }
  void run() {
    collect(); if (counts.empty()) return;
    for (int phase = learn ? 1 : 0; phase < (learn ? 2 : 3); phase++) for (auto &I : instructions(E.F)) {
      const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand();
      if (phase == 2) { if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isIntegerTy()) encoded(S); continue; }
      if (P) { auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) continue; site(E.value(G->getOperand(1), nullptr), E.conditions(I.getParent()), &I, "", E.nameOf(G->getPointerOperand()), phase); }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto it = IA.find(calleeOf(CB)); if (it != IA.end()) for (auto k : it->second) if (k < CB->arg_size()) site(E.value(CB->getArgOperand(k), nullptr), E.conditions(I.getParent()), &I, object(CB->getArgOperand(0)), E.nameOf(CB->getArgOperand(0)), phase);
        if (phase == 1 && !learn && calleeOf(CB) && isRepoFunc(calleeOf(CB))) { std::string o, nm; int n = 0; for (auto &q : CB->args()) if (q->getType()->isPointerTy()) { auto s = object(q); if (objects.count(s)) { o = s; nm = E.nameOf(q); n++; } } if (n == 1) for (auto &q : CB->args()) if (auto *Ph = dyn_cast<PHINode>(q)) if (Ph->getType()->isIntegerTy()) translated(Ph, CB, o, nm); }
      }
    }
  }
};
} // namespace
void runPairs(Ctx &C);
void runSpaces(Ctx &C) {
  ModSets MS(*C.M); IndexArgs IA;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration() && F.arg_size() > 1 && varName(F.getArg(0), &F) == "this") for (auto &I : instructions(F)) {
      auto use = [&](const Value *V) { auto *A = dyn_cast<Argument>(V->stripPointerCasts()); if (A && A->getArgNo() > 0 && A->getType()->isIntegerTy() && IA[&F].insert(A->getArgNo()).second) ch = true; };
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { if (!G->getSourceElementType()->isStructTy() && G->getNumIndices() == 1) if (auto *L = dyn_cast<LoadInst>(G->getPointerOperand()->stripPointerCasts())) { auto *B = L->getPointerOperand()->stripPointerCasts(); if (auto *FG = dyn_cast<GEPOperator>(B)) B = FG->getPointerOperand()->stripPointerCasts(); if (B == F.getArg(0)) use(G->getOperand(1)); } }
      else if (auto *CB = dyn_cast<CallBase>(&I)) { auto it = IA.find(calleeOf(CB)); if (it != IA.end() && CB->arg_size() && CB->getArgOperand(0) == F.getArg(0)) for (auto k : std::set<unsigned>(it->second)) if (k < CB->arg_size()) use(CB->getArgOperand(k)); } }
  }
  for (auto &p : IA) if (p.second.size()) C.R.counts["functions_that_index_their_object"]++;
  Seen below, minus; for (bool learn : {true, false}) for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) { Sp S(C, F, MS, IA); S.below = &below; S.minus = &minus; S.learn = learn; S.run(); }
  runPairs(C);
}
} // namespace vcsa
