// What the rest of the source believes about lists that come from elsewhere: where a list is always run over to the count kept
// with it, one loop that goes on to the entry with that very number contradicts the others.
#pragma once
#include "ext.h"
namespace vcsa {
struct Belief {
  struct Site { const Instruction *at; double c; std::string msg, key; };
  std::map<std::string, std::string> up; std::map<std::string, std::vector<Site>> sites; std::map<std::string, std::set<std::string>> arrays, numbers; Ctx &C; Belief(Ctx &C) : C(C) {}
  std::string root(std::string k) { for (;;) { auto it = up.find(k); if (it == up.end()) return k; k = it->second; } }
  void join(const std::string &a, const std::string &b) { auto x = root(a), y = root(b); if (x != y) up[x] = y; }
  std::string named(Ext &E, const std::string &s) { return E.F.getName().str() + "|" + s; }
  std::string slot(Ext &E, const Value *P) { P = P->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(P)) if (G->getSourceElementType()->isStructTy()) { auto f = fieldOf(G, C.M); if (!f.empty()) return "field " + f; } auto ff = firstField(P); if (!ff.empty()) return "field " + ff; auto s = E.place(P); if (s.empty()) return ""; return named(E, "*" + generic(s)); }
  static std::string generic(const std::string &s) { std::string r; int d = 0; for (char c : s) { if (c == '[') { if (!d++) r += "["; } else if (c == ']') { if (!--d) r += "]"; } else if (!d) r += c; } return r; }
  std::string key(Ext &E, const Value *V) { V = V->stripPointerCasts(); if (auto *L = dyn_cast<LoadInst>(V)) return slot(E, L->getPointerOperand()); if (isa<Constant>(V)) return ""; if (auto *A = dyn_cast<Argument>(V)) return named(E, "a" + std::to_string(A->getArgNo())); return named(E, E.id(V)); }
  std::string atomKey(Ext &E, const std::string &a, const std::map<std::string, const Value *> &bi) { auto it = bi.find(a); if (it != bi.end()) return key(E, it->second); auto q = a.find('@'); if (q != std::string::npos) { auto p = a.substr(0, q); for (auto &I : instructions(E.F)) { const Value *X = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) X = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) X = S->getPointerOperand(); if (X && E.place(X) == p) return slot(E, X); } return named(E, "*" + generic(p)); } if (a[0] == 'a') return named(E, a); return ""; }
  void collect(Ext &E) {
    for (auto &I : instructions(E.F)) {
      if (auto *S = dyn_cast<StoreInst>(&I); S && Ext::isNew(S->getValueOperand())) { auto sz = E.sizeOf(cast<CallBase>(S->getValueOperand()), 1); auto sl = slot(E, S->getPointerOperand()); if (!sl.empty() && sz.ok && sz.t.size() == 1 && factors(sz.t.begin()->first).size() == 1) { auto bi = E.byId(); double es = sz.t.begin()->second; auto nk = atomKey(E, sz.t.begin()->first, bi); if (!nk.empty() && (es == 8 || es == 4 || es == 1)) { double c = sz.c / es - 1; sites[sl + " & " + nk].push_back({c == -1 ? &I : nullptr, c, "allocated", ""}); } } }
      const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand();
      if (P) { auto *G = dyn_cast<GEPOperator>(P->stripPointerCasts()); if (!G || G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) continue;
        Ext::Arr a; if (E.resolve(G->getPointerOperand(), a) && a.N) continue; auto pk = key(E, G->getPointerOperand()); if (pk.empty()) continue;
        auto idx = E.value(G->getOperand(1), nullptr); if (!idx.ok || idx.t.size() != 1 || idx.t.begin()->second != 1) continue; auto at = idx.t.begin()->first; auto bi = E.byId(); auto w = bi.find(at); auto *Ph = w == bi.end() ? nullptr : dyn_cast<PHINode>(w->second); LinD s; double k; if (!Ph || !E.counter(Ph, s, k) || k != 1) continue;
        auto *Lp = E.LI.getLoopFor(Ph->getParent()); if (!Lp->contains(I.getParent())) continue; auto *Br = dyn_cast<BranchInst>(Ph->getParent()->getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm || Lp->contains(Br->getSuccessor(0)) == Lp->contains(Br->getSuccessor(1))) continue;
        auto pr = Lp->contains(Br->getSuccessor(0)) ? Cm->getPredicate() : Cm->getInversePredicate(); const Value *X = Cm->getOperand(0), *Y = Cm->getOperand(1); if (Y == Ph) { std::swap(X, Y); pr = CmpInst::getSwappedPredicate(pr); } if (X != Ph) continue;
        double c; if (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_NE) c = -1; else if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) c = 0; else continue;
        while (auto *Z = dyn_cast<ZExtInst>(Y)) Y = Z->getOperand(0);
        if (auto *A = dyn_cast<BinaryOperator>(Y)) { auto *K = dyn_cast<ConstantInt>(A->getOperand(1)); if (!K || (A->getOpcode() != Instruction::Add && A->getOpcode() != Instruction::Sub)) continue; bool kept = false; for (auto *U : A->users()) kept |= isa<StoreInst>(U) || isa<PHINode>(U); if (kept) continue; c += (A->getOpcode() == Instruction::Add ? 1 : -1) * (double)K->getSExtValue(); Y = A->getOperand(0); }
        c += idx.c; bool narrowed = false; auto *into = Lp->contains(Br->getSuccessor(0)) ? Br->getSuccessor(0) : Br->getSuccessor(1); unsigned ups = 0; for (auto &q : E.conditions(I.getParent())) { auto z = q.e.t.find(at); ups += z != q.e.t.end() && z->second < 0; } unsigned own = 0; for (auto &q : E.conditions(into)) { auto z = q.e.t.find(at); own += z != q.e.t.end() && z->second < 0; } narrowed = ups > own || E.flagged[I.getParent()]; for (auto &ne : E.unequal[I.getParent()]) narrowed |= ne.t.count(at) && !(ne.t.size() == 1 && ne.c == 0); if (narrowed) continue;
        auto nk = key(E, Y); if (nk.empty()) continue; LinD m = LinD::A(E.id(Y)); E.nice[E.id(Y)] = E.nameOf(Y); m.c = c;
        if (!s.isConst() || s.c + idx.c != 0) { sites[pk + " & " + nk].push_back({nullptr, c, "", ""}); continue; }
        auto nm = E.nameOf(G->getPointerOperand()); sites[pk + " & " + nk].push_back({&I, m.c, "'" + nm + "' is accessed at " + E.pretty(m), funcKey(&E.F) + "|" + nm + "|belief"}); arrays[pk].insert(nk); C.R.counts["loops_over_lists_from_elsewhere"]++; }
    }
  }
  void calls(Ext &E) {
    for (auto &I : instructions(E.F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); unsigned sh = 0; if (H && H->getName().starts_with("__kmpc_fork_call")) { H = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); sh = 1; } if (!H || H->isDeclaration() || H == &E.F) continue;
      std::vector<std::pair<std::string, std::string>> ks; for (unsigned k = sh ? 2 : 0; k + sh < CB->arg_size() && k < H->arg_size(); k++) { auto *A = CB->getArgOperand(k + sh); auto h = H->getName().str() + "|"; auto n = "a" + std::to_string(k); auto v = key(E, A); if (!v.empty()) ks.push_back({v, h + n}); if (A->getType()->isPointerTy()) { auto s = slot(E, A); if (!s.empty()) ks.push_back({s, h + "*" + n}); } }
      for (auto &a : ks) for (auto &b : ks) if (&a != &b) join(a.first + " & " + b.first, a.second + " & " + b.second); }
  }
  // what calls hand over: an array and its number of entries, in one fixed relation at every other call
  struct Rel { unsigned yes = 0; std::vector<std::pair<const Instruction *, std::string>> no; double c = 0; };
  std::map<std::string, std::map<double, unsigned>> votes; struct Try { const CallBase *CB; Ext *E; unsigned k; LinD bytes; std::vector<std::pair<unsigned, LinD>> nums; std::string nm; }; std::vector<Try> tries;
  void relations(Ext &E) {
    for (auto &I : instructions(E.F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H || H->isDeclaration() || H == &E.F || H->getName().starts_with("__kmpc") || !isRepoFunc(H)) continue;
      std::vector<std::pair<unsigned, LinD>> nums; for (unsigned j = 0; j < CB->arg_size(); j++) { auto *A = CB->getArgOperand(j); LinD v; v.ok = false; if (A->getType()->isIntegerTy(64)) v = E.value(A, nullptr); else if (A->getType()->isPointerTy() && isa<AllocaInst>(A->stripPointerCasts()) && cast<AllocaInst>(A->stripPointerCasts())->getAllocatedType()->isIntegerTy(64)) { auto p = E.place(A); if (!p.empty()) v = E.content(p, A, CB); } if (v.ok && !v.isConst()) nums.push_back({j, v}); }
      for (unsigned k = 0; k < CB->arg_size(); k++) { auto *A = CB->getArgOperand(k); if (!A->getType()->isPointerTy()) continue; Ext::Arr a; bool have = E.resolve(A, a) && a.N && !a.row; if (!have) { a = Ext::Arr(); auto p = E.place(A); have = isa<AllocaInst>(A->stripPointerCasts()) && cast<AllocaInst>(A->stripPointerCasts())->getAllocatedType()->isPointerTy() && !p.empty() && E.resolvePlace(p, A, CB, a, 0) && a.N && !a.row; } if (!have || !a.N) continue; auto b = E.sizeOf(a.N, 1); if (!b.ok || b.isConst()) continue;
        tries.push_back({CB, &E, k, b, nums, E.nameOf(A)}); for (auto &n : nums) { auto r = ratio(b, n.second); if (r > 0) votes[H->getName().str() + "#" + std::to_string(k) + "#" + std::to_string(n.first)][r]++; } } }
  }
  static double ratio(const LinD &b, const LinD &n) { auto it = n.t.begin(); auto q = b.t.find(it->first); if (q == b.t.end()) return 0; double r = q->second / it->second; auto d = b.add(n, -r); return d.isConst() && std::fabs(d.c) < 1e-9 ? r : 0; }
  void unrelated() {
    for (auto &t : tries) { auto *H = calleeOf(t.CB); for (auto &n : t.nums) { auto v = votes.find(H->getName().str() + "#" + std::to_string(t.k) + "#" + std::to_string(n.first)); if (v == votes.end()) continue; if (v->second.size() != 1) continue; double c = v->second.begin()->first; unsigned yes = v->second.begin()->second; unsigned all = 0; for (auto &u : tries) if (calleeOf(u.CB) == H && u.k == t.k) for (auto &m : u.nums) if (m.first == n.first) { auto e = u.bytes.add(m.second, -c); all += ratio(u.bytes, m.second) > 0 || !entails(u.E->known(e, u.CB->getParent()), e); } if (yes < 3 || all - yes > yes / 3) continue; C.R.counts["sizes_handed_over_compared"]++; if (ratio(t.bytes, n.second) > 0) continue; auto d = t.bytes.add(n.second, -c); auto cs = t.E->known(d, t.CB->getParent()); if (entails(cs, d)) continue; bool other = false; for (auto &m : t.nums) { auto w = votes.find(H->getName().str() + "#" + std::to_string(t.k) + "#" + std::to_string(m.first)); auto r = ratio(t.bytes, m.second); other |= m.first != n.first && r > 0 && w != votes.end() && w->second.count(r) && w->second[r] >= 3; } if (other) continue;
        C.R.add(mk("extent", t.CB, funcKey(&t.E->F) + "|" + t.nm + "|given to " + shortName(H), "'" + t.nm + "' of " + t.E->pretty(t.bytes) + " bytes is handed to " + shortName(H) + " for " + t.E->pretty(n.second) + " entries; every other call hands over " + std::to_string((int)c) + " bytes for each")); } }
  }
  void judge() {
    std::map<std::string, std::vector<Site>> cls; for (auto &p : sites) { auto &v = cls[root(p.first)]; v.insert(v.end(), p.second.begin(), p.second.end()); }
    for (auto &p : cls) { unsigned in = 0, ex = 0; for (auto &s : p.second) (s.c >= 0 ? in : ex)++; if (p.second.size() > 1) C.R.counts["lists_with_a_count"]++; if (getenv("BELDBG")) for (auto &s : p.second) fprintf(stderr, "%s: %g %s %s\n", p.first.c_str(), s.c, s.at ? where(s.at).c_str() : "-", s.msg.c_str());
      if (!in || in >= ex) continue; const Site *other = nullptr; for (auto &s : p.second) if (s.at && s.c == -1) other = &s; if (!other) continue; bool all = true; for (auto &s : p.second) if (s.c >= 0) all &= s.at && s.c == 0; if (!all) continue;
      for (auto &s : p.second) if (s.c >= 0) C.R.add(mk("extent", s.at, s.key, s.msg + ", while " + std::to_string(ex) + " other places stop before it (as at " + where(other->at) + ")")); }
  }
};
} // namespace vcsa
