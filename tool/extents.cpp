// Arrays and the loops that run over them: an index that is a known expression of loop counters stays below the number of
// elements the array was allocated with, also across calls (a function's need for its array parameters, in terms of its
// other parameters, is a demand on its callers).
#include "belief.h"
#include "facts.h"
namespace vcsa {
namespace {
// Scans without a counter limit: the only thing that stops them is an entry that compares equal with a value taken from the
// array itself, so the comparison must not go on at an equal entry; and a position that such a scan starts at is not moved
// below the first entry.
struct Scans {
  Ctx &C; Function &F; ModSets &MS; DominatorTree DT; LoopInfo LI; Scans(Ctx &C, Function &F, ModSets &MS) : C(C), F(F), MS(MS), DT(F), LI(DT) {}
  static const Value *strip(const Value *V) { while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0); return V; }
  // base and index of the innermost variable subscript an entry is loaded through
  static void trail(const Value *V, std::set<const Value *> &bases, std::set<const Value *> &idx, int d = 0) {
    if (d > 6) return; V = strip(V); auto *L = dyn_cast<LoadInst>(V); if (!L) { return; }
    const Value *P = L->getPointerOperand()->stripPointerCasts(); while (auto *G = dyn_cast<GEPOperator>(P)) { for (auto &o : G->indices()) { auto *x = strip(o.get()); if (isa<ConstantInt>(x)) continue; if (isa<LoadInst>(x)) trail(x, bases, idx, d + 1); else idx.insert(x); } P = G->getPointerOperand()->stripPointerCasts(); }
    if (auto *B = dyn_cast<LoadInst>(P)) { const Value *Q = B->getPointerOperand()->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(Q)) { bool konst = true; for (auto &o : G->indices()) konst &= isa<ConstantInt>(o.get()); if (konst) { bases.insert(Q); return; } } trail(P, bases, idx, d + 1); if (!isa<GEPOperator>(Q)) bases.insert(Q); }
    else bases.insert(P);
  }
  static bool sameBase(const std::set<const Value *> &a, const std::set<const Value *> &b) {
    for (auto *x : a) for (auto *y : b) { if (x == y) return true; auto *g = dyn_cast<GEPOperator>(x), *h = dyn_cast<GEPOperator>(y); if (g && h && g->getPointerOperand() == h->getPointerOperand() && g->getNumIndices() == h->getNumIndices() && std::equal(g->idx_begin(), g->idx_end(), h->idx_begin())) return true; }
    return false;
  }
  void run() {
    std::set<const Value *> positions; std::set<const Loop *> scanLoops;
    for (auto *L : LI.getLoopsInPreorder()) {
      if (!L->getSubLoops().empty()) continue; auto *X = L->getExitingBlock(); auto *Br = X ? dyn_cast<BranchInst>(X->getTerminator()) : nullptr; if (!Br || !Br->isConditional()) continue;
      auto *Cm = dyn_cast<CmpInst>(Br->getCondition()); if (!Cm) continue; bool stay = L->contains(Br->getSuccessor(0)); auto p = stay ? Cm->getPredicate() : Cm->getInversePredicate();
      for (int k = 0; k < 2; k++) {
        auto *E = dyn_cast<Instruction>(strip(Cm->getOperand(k))); auto *P = strip(Cm->getOperand(1 - k)); if (!E || !L->contains(E)) continue; if (auto *PI = dyn_cast<Instruction>(P); PI && L->contains(PI)) continue;
        std::set<const Value *> eb, ei, pb, pi; trail(E, eb, ei); trail(P, pb, pi); if (ei.empty()) continue;
        const PHINode *ph = nullptr; for (auto *x : ei) if (auto *q = dyn_cast<PHINode>(x); q && q->getParent() == L->getHeader()) ph = q; if (!ph) continue;
        bool step = true; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (L->contains(ph->getIncomingBlock(i))) { auto *B = dyn_cast<BinaryOperator>(ph->getIncomingValue(i)); auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; step &= B && K && B->getOpcode() == Instruction::Add && B->getOperand(0) == ph && (K->isOne() || K->isMinusOne()); }
        if (!step || !sameBase(eb, pb)) continue;
        C.R.counts["scans_stopped_by_an_entry"]++; positions.insert(ph); scanLoops.insert(L);
        if (CmpInst::isTrueWhenEqual(p) || p == CmpInst::FCMP_OLE || p == CmpInst::FCMP_OGE || p == CmpInst::FCMP_OEQ) C.R.add(mk("extent", Cm, funcKey(&F) + "|scan", "this loop has no limit and goes on at entries that equal the one it is compared with: it runs past the end of the array"));
      }
    }
    if (positions.empty()) return;
    // values that become the start of a scan
    std::set<const Value *> reach = positions; std::vector<const Value *> w(positions.begin(), positions.end());
    while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (auto *ph = dyn_cast<PHINode>(V)) for (auto &o : ph->incoming_values()) if (reach.insert(o).second) w.push_back(o); }
    for (auto *V : reach) { auto *B = dyn_cast<BinaryOperator>(V); if (!B || !B->getType()->isIntegerTy(64)) continue; bool inScan = false; for (auto *L : scanLoops) inScan |= L->contains(B); if (inScan) continue;
      auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); bool dec = K && ((B->getOpcode() == Instruction::Add && K->isMinusOne()) || (B->getOpcode() == Instruction::Sub && K->isOne())); if (!dec) continue;
      C.R.counts["positions_moved_down"]++; Facts FT(F, MS);
      if (!FT.nonZero(B->getOperand(0), B)) C.R.add(mk("extent", B, funcKey(&F) + "|down", "a position in the array is moved down although it may be the first one")); }
  }
};
} // namespace
void runExtents(Ctx &C) {
  ModSets MS(*C.M); Ext::Needs needs; std::vector<std::unique_ptr<Ext>> all;
  for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) { all.push_back(std::make_unique<Ext>(C, F, MS)); all.back()->run(needs); }
  Ext::Needs done; // demands already passed on
  for (int round = 0; round < 8; round++) {
    Ext::Needs fresh; for (auto &p : needs) { auto &d = done[p.first]; for (size_t i = d.size(); i < p.second.size(); i++) { fresh[p.first].push_back(p.second[i]); d.push_back(p.second[i]); } } if (fresh.empty()) break;
    for (auto &e : all) for (auto &I : instructions(e->F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(CB); unsigned shift = 0; if (H && H->getName().starts_with("__kmpc_fork_call")) { H = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); shift = 1; }
      if (!H || H == &e->F) continue; auto it = fresh.find(H); if (it != fresh.end()) { auto ns = it->second; e->call(CB, ns, shift, H, needs); }
    }
  }
  for (auto &e : all) Scans(C, const_cast<Function &>(e->F), MS).run();
  Belief B(C); for (auto &e : all) B.collect(*e); for (auto &e : all) B.calls(*e); B.judge(); for (auto &e : all) B.relations(*e); B.unrelated();
  for (auto &p : needs) C.R.counts["demands"] += p.second.size();
}
} // namespace vcsa
