// The kd-trees answer exactly.  Every recursive descent is followed path by path (relations between the query, the
// node and the search radius are linear over loads, distances and square roots) and at every return each child has to be
// absent, searched, or provably out of reach; insertion, balanced construction, re-numbering and the callers are held to
// the invariants that those proofs use.
#include "facts.h"
#include "lin.h"
#include <cmath>
#include <algorithm>
namespace vcsa {
static bool has(const std::string &s, const std::string &p) { return s.find(p) != std::string::npos; }
static std::string repl(std::string s, const std::string &a, const std::string &b) { size_t i = 0; while ((i = s.find(a, i)) != std::string::npos) { s.replace(i, a.size(), b); i += b.size(); } return s; }
namespace {
struct Ev { char kind; const Instruction *I; std::string a, b; LinD v; std::vector<LinD> args; }; // D descend, N node recorded, R ref store, C cell store, A array store, X call
struct St {
  const BasicBlock *B; const Instruction *I; std::map<const Value *, LinD> d; std::map<const Value *, int64_t> k;
  std::vector<Con> cons; std::map<std::string, bool> facts; std::map<std::string, LinD> cell; std::vector<Ev> ev; std::vector<std::pair<const Value *, bool>> conds; int ver = 0;
};

struct Fn {
  Function &F; DominatorTree DT; LoopInfo LI; const Module *M;
  int nodeArg = -1, dimArg = -1; std::set<const Value *> wrapped; std::map<const Value *, int> dimOff; std::string numDim;
  std::set<const Value *> ivs; std::map<const PHINode *, std::string> acc; // recognised sums of squares
  std::map<const Value *, unsigned> ids; std::map<std::string, LinD> sqOf;
  std::set<unsigned> cellArgs;
  bool overflow = false; long states = 0;
  Fn(Function &F) : F(F), DT(F), LI(DT), M(F.getParent()) { init(); }
  unsigned id(const Value *V) { auto it = ids.find(V); if (it != ids.end()) return it->second; unsigned n = ids.size() + 1; ids[V] = n; return n; }
  bool iv(const Value *V) const { return ivs.count(V) > 0; }
  std::string loopTag(const BasicBlock *H) { return "L" + std::to_string(id(H)) + ":"; }

  std::string key(const Value *V, int depth = 0) {
    if (depth > 30) return "?";
    if (wrapped.count(V)) return "dim";
    if (auto *C = dyn_cast<ConstantInt>(V)) return std::to_string(C->getSExtValue());
    if (auto *A = dyn_cast<Argument>(V)) { if ((int)A->getArgNo() == nodeArg) return "n"; return "a" + std::to_string(A->getArgNo()); }
    if (auto *P = dyn_cast<PHINode>(V)) { if (iv(P)) return "@"; if (LI.isLoopHeader(P->getParent())) return loopTag(P->getParent()) + std::to_string(id(P)); return "%" + std::to_string(id(P)); }
    if (auto *L = dyn_cast<LoadInst>(V)) { std::string a = addr(L->getPointerOperand(), depth + 1); return "*(" + a + ")"; }
    if (auto *C = dyn_cast<CastInst>(V)) { if (isa<ZExtInst>(C) || isa<SExtInst>(C) || isa<TruncInst>(C) || isa<BitCastInst>(C)) return key(C->getOperand(0), depth + 1); }
    if (auto *Fz = dyn_cast<FreezeInst>(V)) return key(Fz->getOperand(0), depth + 1);
    if (isa<GEPOperator>(V)) return addr(V, depth + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::Mul) {
      std::map<std::string, long> t; terms(V, 1, t, depth + 1); std::string s; // the running dimension comes last, so that "@" and "dim" can be exchanged
      for (int last = 0; last < 2; last++) for (auto &p : t) if (p.second && (p.first == "@" || p.first == "dim") == last) s += (s.empty() ? "" : "+") + (p.second == 1 ? "" : std::to_string(p.second) + "*") + p.first;
      return "(" + s + ")";
    }
    return "%" + std::to_string(id(V));
  }
  void terms(const Value *V, long k, std::map<std::string, long> &t, int depth) {
    if (auto *B = dyn_cast<BinaryOperator>(V); B && !wrapped.count(V) && depth < 30) {
      if (B->getOpcode() == Instruction::Add) { terms(B->getOperand(0), k, t, depth + 1); terms(B->getOperand(1), k, t, depth + 1); return; }
      if (B->getOpcode() == Instruction::Sub) { terms(B->getOperand(0), k, t, depth + 1); terms(B->getOperand(1), -k, t, depth + 1); return; }
      if (B->getOpcode() == Instruction::Mul) {
        std::map<std::string, long> x, y; terms(B->getOperand(0), 1, x, depth + 1); terms(B->getOperand(1), 1, y, depth + 1);
        for (auto &p : x) for (auto &q : y) { std::string a = p.first, b = q.first; if (a > b) std::swap(a, b); std::string m = a == "1" ? b : b == "1" ? a : a + "." + b; t[m] += k * p.second * q.second; }
        return;
      }
    }
    if (auto *C = dyn_cast<ConstantInt>(V)) { t["1"] += k * C->getSExtValue(); return; }
    t[key(V, depth + 1)] += k;
  }
  std::string addr(const Value *P, int depth = 0) {
    P = P->stripPointerCasts();
    if (auto *G = dyn_cast<GEPOperator>(P)) {
      auto n = fieldOf(G, M); if (!n.empty()) return "F." + n + (isa<Argument>(G->getPointerOperand()) ? "" : "@" + key(G->getPointerOperand(), depth + 1));
      std::string s = key(G->getPointerOperand(), depth + 1);
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) s += "[" + key(*it, depth + 1) + "]";
      return s;
    }
    if (auto n = firstField(P); !n.empty() && isa<Argument>(P)) return "F." + n;
    return key(P, depth + 1);
  }

  // --- structure -----------------------------------------------------------
  bool selfCall(const CallBase *CB) const { return calleeOf(CB) == &F; }
  std::vector<const CallBase *> selfCalls() const { std::vector<const CallBase *> r; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (selfCall(CB)) r.push_back(CB); return r; }
  void init() {
    for (auto *L : LI.getLoopsInPreorder()) for (auto &ph : L->getHeader()->phis()) {
      if (!ph.getType()->isIntegerTy(64) && !ph.getType()->isIntegerTy(32)) continue;
      bool zero = false, inc = false; for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) { auto *V = ph.getIncomingValue(i); if (L->contains(ph.getIncomingBlock(i))) { auto *B = dyn_cast<BinaryOperator>(V); auto *C = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; inc = B && B->getOpcode() == Instruction::Add && B->getOperand(0) == &ph && C && C->isOne(); } else { auto *C = dyn_cast<ConstantInt>(V); zero = C && C->isZero(); } }
      if (zero && inc && ph.getNumIncomingValues() == 2) ivs.insert(&ph);
    }
    for (unsigned i = 0; i < F.arg_size(); i++) { // scalar references: loaded or stored through directly
      auto *A = F.getArg(i); if (!A->getType()->isPointerTy()) continue;
      for (auto *U : A->users()) { if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A && S->getValueOperand()->getType()->isDoubleTy()) cellArgs.insert(i); if (auto *L = dyn_cast<LoadInst>(U); L && L->getType()->isDoubleTy()) cellArgs.insert(i); }
    }
  }
  // [0, bound) loops: the bound of an induction variable at its loop's exit test
  std::string boundOf(const Loop *L, const PHINode *v) {
    auto *T = dyn_cast<BranchInst>(L->getHeader()->getTerminator()); if (!T || !T->isConditional()) return "";
    auto *C = dyn_cast<ICmpInst>(T->getCondition()); if (!C) return "";
    bool inTrue = L->contains(T->getSuccessor(0)); auto p = C->getPredicate(); const Value *a = C->getOperand(0), *b = C->getOperand(1);
    if (!inTrue) p = CmpInst::getInversePredicate(p);
    auto s = [](const Value *V) { while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0); return V; };
    if (s(a) == v && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_NE)) return key(b);
    if (s(b) == v && (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_NE)) return key(a);
    return "";
  }
  // sums over all dimensions of (x_i - y_i)^2: returns the two coordinate keys
  bool squareSum(const PHINode *ph, std::string &k1, std::string &k2, std::string &bound) {
    auto *L = LI.getLoopFor(ph->getParent()); if (!L || L->getHeader() != ph->getParent() || ph->getNumIncomingValues() != 2) return false;
    const Value *init = nullptr, *upd = nullptr; for (unsigned i = 0; i < 2; i++) (L->contains(ph->getIncomingBlock(i)) ? upd : init) = ph->getIncomingValue(i);
    auto *Z = dyn_cast_or_null<ConstantFP>(init); if (!Z || !Z->isZero() || !upd) return false;
    const Value *x = nullptr, *y = nullptr;
    if (auto *II = dyn_cast<CallBase>(upd)) { auto *H = calleeOf(II); if (!H || !(H->getName().starts_with("llvm.fmuladd") || H->getName().starts_with("llvm.fma"))) return false; if (II->getArgOperand(2) != ph) return false; x = II->getArgOperand(0); y = II->getArgOperand(1); }
    else if (auto *B = dyn_cast<BinaryOperator>(upd); B && B->getOpcode() == Instruction::FAdd) { auto *m = dyn_cast<BinaryOperator>(B->getOperand(0) == ph ? B->getOperand(1) : B->getOperand(0)); if ((B->getOperand(0) != ph && B->getOperand(1) != ph) || !m || m->getOpcode() != Instruction::FMul) return false; x = m->getOperand(0); y = m->getOperand(1); }
    if (!x || !sameExpr(x, y)) return false;
    auto *S = dyn_cast<BinaryOperator>(x); if (!S || S->getOpcode() != Instruction::FSub) return false;
    k1 = key(S->getOperand(0)); k2 = key(S->getOperand(1));
    if (!has(k1, "@") || !has(k2, "@")) return false;
    for (auto &q : L->getHeader()->phis()) if (iv(&q)) bound = boundOf(L, &q);
    return true;
  }

  // --- evaluation along a path ---------------------------------------------
  LinD val(St &s, const Value *V) {
    if (auto *C = dyn_cast<ConstantFP>(V)) { double x = C->getValueAPF().convertToDouble(); if (x > 1e300) return LinD::A("MAX"); if (x < -1e300) return LinD::A("MAX", -1); return LinD::K(x); }
    if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() > 64) return LinD::A("big"); if (C->isMinusOne() && C->getBitWidth() == 64) return LinD::A("SIZE_MAX"); return LinD::K((double)C->getSExtValue()); }
    auto it = s.d.find(V); if (it != s.d.end()) return it->second;
    if (isa<Argument>(V)) return LinD::A(key(V));
    return LinD::A(key(V));
  }
  LinD mul(const LinD &a, const LinD &b) {
    if (a.isConst()) return b.scale(a.c); if (b.isConst()) return a.scale(b.c);
    auto lead = [](const LinD &x) { return x.t.begin()->second; };
    LinD u = a.scale(1 / lead(a)), v = b.scale(1 / lead(b)); LinD df = u.add(v, -1); if (df.t.empty() && std::fabs(df.c) < 1e-15) { std::string n = "sq(" + u.str() + ")"; sqOf[n] = u; return LinD::A(n, lead(a) * lead(b)); }
    // scaled squares: k*sq(u)
    std::string x = a.str(), y = b.str(); if (y < x) std::swap(x, y); return LinD::A("mul(" + x + "|" + y + ")");
  }
  LinD root(St &s, const LinD &e) {
    std::string a; double k;
    if (e.single(a, k) && k >= 0) { auto it = sqOf.find(a); if (it != sqOf.end()) return it->second.scale(std::sqrt(k)); LinD r = LinD::A("sqrt(" + a + ")"); s.cons.push_back({r}); return r.scale(std::sqrt(k)); }
    if (e.isConst() && e.c >= 0) return LinD::K(std::sqrt(e.c));
    LinD r = LinD::A("sqrt(" + e.str() + ")"); s.cons.push_back({r});
    for (auto &p : e.t) { auto it = sqOf.find(p.first); if (it != sqOf.end() && p.second > 0 && e.c >= 0) { bool nonneg = true; for (auto &q : e.t) if (q.second < 0 && q.first != p.first) nonneg = false; if (nonneg) s.cons.push_back({r.add(it->second, -std::sqrt(p.second))}); } }
    return r;
  }
  // truth of an ordering between two values, with comparisons of squared distances taken under the root
  void order(St &s, LinD a, LinD b, bool strict) { // a < b  or a <= b
    std::string n; double k;
    auto isS = [&](const LinD &x) { return x.single(n, k) && n.rfind("S:", 0) == 0 && k > 0; };
    s.cons.push_back({b.add(a, -1), strict});
    if (isS(a) || isS(b)) { if (!a.isConst() || a.c >= 0) if (!b.isConst() || b.c >= 0) { LinD ra = root(s, a), rb = root(s, b); s.cons.push_back({rb.add(ra, -1), strict}); } }
  }
  std::vector<St> assume(St s, const Value *C, bool truth) {
    std::vector<St> out;
    if (auto *K = dyn_cast<ConstantInt>(C)) { if (K->isZero() != truth) out.push_back(s); return out; }
    auto it = s.k.find(C); if (it != s.k.end()) { if ((it->second != 0) == truth) out.push_back(s); return out; }
    s.conds.push_back({C, truth});
    if (isa<ZExtInst>(C) || isa<TruncInst>(C) || isa<FreezeInst>(C)) { for (auto &r : assume(s, cast<Instruction>(C)->getOperand(0), truth)) { r.k[C] = truth; out.push_back(r); } return out; }
    if (auto *B = dyn_cast<BinaryOperator>(C)) {
      if (B->getOpcode() == Instruction::Xor) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne()) return assume(s, B->getOperand(0), !truth);
      bool an = B->getOpcode() == Instruction::And, orr = B->getOpcode() == Instruction::Or;
      if (an || orr) {
        if (truth == an) { for (auto &r : assume(s, B->getOperand(0), truth)) for (auto &q : assume(r, B->getOperand(1), truth)) out.push_back(q); return out; }
        for (auto &r : assume(s, B->getOperand(0), truth)) out.push_back(r);
        for (auto &r : assume(s, B->getOperand(0), !truth)) for (auto &q : assume(r, B->getOperand(1), truth)) out.push_back(q);
        return out;
      }
    }
    if (auto *S = dyn_cast<SelectInst>(C)) { for (int t = 0; t < 2; t++) for (auto &r : assume(s, S->getCondition(), t)) for (auto &q : assume(r, t ? S->getTrueValue() : S->getFalseValue(), truth)) out.push_back(q); return out; }
    if (auto *I = dyn_cast<ICmpInst>(C)) {
      auto *a = I->getOperand(0), *b = I->getOperand(1); auto p = I->getPredicate(); if (!truth) p = CmpInst::getInversePredicate(p);
      auto ka = s.k.find(a); int64_t ca; bool ha = ka != s.k.end(); if (ha) ca = ka->second; else if (auto *K = dyn_cast<ConstantInt>(a)) { ha = true; ca = K->getSExtValue(); }
      auto kb = s.k.find(b); int64_t cb; bool hb = kb != s.k.end(); if (hb) cb = kb->second; else if (auto *K = dyn_cast<ConstantInt>(b)) { hb = true; cb = K->getSExtValue(); }
      if (ha && hb && I->isEquality()) { if ((ca == cb) == (p == CmpInst::ICMP_EQ)) out.push_back(s); return out; }
      if (I->isEquality() && hb && cb == 0 && a->getType()->getIntegerBitWidth() <= 8 && a->getType()->isIntegerTy()) { return assume(s, a, p == CmpInst::ICMP_NE); }
      if (I->isEquality()) {
        std::string x = a->getType()->isPointerTy() ? key(a) : val(s, a).str(), y = b->getType()->isPointerTy() ? key(b) : val(s, b).str(); if (y < x) std::swap(x, y); std::string f = x + "==" + y;
        auto q = s.facts.find(f); bool eq = p == CmpInst::ICMP_EQ; if (q != s.facts.end()) { if (q->second == eq) out.push_back(s); return out; }
        s.facts[f] = eq;
        if (a->getType()->isIntegerTy()) { LinD df = val(s, a).add(val(s, b), -1); if (eq) { s.cons.push_back({df}); s.cons.push_back({df.scale(-1)}); } else { if (entails(s.cons, df)) s.cons.push_back({df, true}); else if (entails(s.cons, df.scale(-1))) s.cons.push_back({df.scale(-1), true}); } }
      } else if (a->getType()->isIntegerTy()) {
        LinD x = val(s, a), y = val(s, b);
        switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: { LinD e = y.add(x, -1); e.c -= 1; s.cons.push_back({e}); break; } case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: s.cons.push_back({y.add(x, -1)}); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: { LinD e = x.add(y, -1); e.c -= 1; s.cons.push_back({e}); break; } case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: s.cons.push_back({x.add(y, -1)}); break; default: break; }
      }
      s.k[C] = truth; if (!refute(s.cons)) out.push_back(s); return out;
    }
    if (auto *I = dyn_cast<FCmpInst>(C)) {
      LinD x = val(s, I->getOperand(0)), y = val(s, I->getOperand(1)); auto p = I->getPredicate(); if (!truth) p = CmpInst::getInversePredicate(p);
      switch (p) {
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: order(s, x, y, true); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: order(s, x, y, false); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: order(s, y, x, true); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: order(s, y, x, false); break;
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: s.cons.push_back({x.add(y, -1)}); s.cons.push_back({y.add(x, -1)}); break;
      default: break; }
      s.k[C] = truth; if (!refute(s.cons)) out.push_back(s); return out;
    }
    s.k[C] = truth; out.push_back(s); return out;
  }
  void drop(St &s, const std::string &tag) {
    std::vector<Con> c; for (auto &x : s.cons) if (!x.e.has(tag)) c.push_back(x); s.cons = c;
    for (auto it = s.facts.begin(); it != s.facts.end();) if (has(it->first, tag)) it = s.facts.erase(it); else ++it;
  }
  bool enter(std::vector<St> &w, St s, const BasicBlock *from, const BasicBlock *to) {
    bool hdr = LI.isLoopHeader(to); std::vector<std::pair<const PHINode *, const Value *>> in;
    std::map<const Value *, LinD> nd; std::map<const Value *, int64_t> nk; std::set<const Value *> noK;
    for (auto &ph : to->phis()) {
      const Value *V = ph.getIncomingValueForBlock(from);
      if (hdr) { nd[&ph] = LinD::A(acc.count(&ph) ? acc[&ph] : key(&ph)); noK.insert(&ph); continue; }
      if (ph.getType()->isDoubleTy() || ph.getType()->isIntegerTy() || (ph.getType()->isPointerTy() && !isa<ConstantPointerNull>(V))) nd[&ph] = wrapped.count(&ph) ? LinD::A("dim") : val(s, V);
      if (ph.getType()->isIntegerTy()) { if (auto *K = dyn_cast<ConstantInt>(V)) nk[&ph] = K->getBitWidth() == 1 ? K->getZExtValue() : K->getSExtValue(); else { auto it = s.k.find(V); if (it != s.k.end()) nk[&ph] = it->second; else { noK.insert(&ph); if (ph.getType()->getIntegerBitWidth() <= 8) { // an undecided flag: decide it now
              for (int t = 0; t < 2; t++) for (auto &r : assume(s, V, t)) { r.k[V] = t; if (!enter(w, r, from, to)) return false; } return true; } } } }
    }
    if (hdr) { drop(s, loopTag(to)); drop(s, "@"); }
    for (auto &x : nd) s.d[x.first] = x.second; for (auto *v : noK) s.k.erase(v); for (auto &x : nk) s.k[x.first] = x.second;
    s.B = to; s.I = to->getFirstNonPHI(); prune(s); w.push_back(s); return true;
  }
  std::function<bool(const std::string &)> core; // the atoms that the proofs speak about
  std::map<const BasicBlock *, std::set<const BasicBlock *>> reach; std::map<std::pair<const Value *, const BasicBlock *>, bool> usedMemo;
  bool usedFrom(const Instruction *I, const BasicBlock *B) { // may the value still be read when control is at the head of B?
    auto it = usedMemo.find({I, B}); if (it != usedMemo.end()) return it->second;
    auto &R = reach[B]; if (R.empty()) { std::vector<const BasicBlock *> w{B}; while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (R.insert(x).second) for (auto *n : successors(x)) w.push_back(n); } }
    bool u = false; for (auto &U : I->uses()) { auto *J = dyn_cast<Instruction>(U.getUser()); if (!J) continue; auto *P = dyn_cast<PHINode>(J); u = u || R.count(P ? P->getIncomingBlock(U) : J->getParent()); }
    return usedMemo[{I, B}] = u;
  }
  void prune(St &s) {
    auto gone = [&](const Value *V) { auto *I = dyn_cast<Instruction>(V); return I && (!DT.dominates(I->getParent(), s.B) || !usedFrom(I, s.B)); };
    for (auto it = s.d.begin(); it != s.d.end();) if (gone(it->first)) it = s.d.erase(it); else ++it;
    for (auto it = s.k.begin(); it != s.k.end();) if (gone(it->first)) it = s.k.erase(it); else ++it;
    if (!core) return;
    std::set<std::string> live; for (auto &p : s.d) for (auto &a : p.second.t) live.insert(a.first);
    std::vector<char> in(s.cons.size(), 0); bool ch = true; std::set<std::string> at;
    auto rel = [&](const std::string &a) { return at.count(a) || live.count(a) || core(a); };
    while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!in[i]) { bool r = false; for (auto &p : s.cons[i].e.t) r = r || rel(p.first); if (!r) continue; in[i] = 1; ch = true; for (auto &p : s.cons[i].e.t) at.insert(p.first); } }
    for (auto it = s.facts.begin(); it != s.facts.end();) if (!has(it->first, "[n])") && !has(it->first, "*(F.")) it = s.facts.erase(it); else ++it;
    std::vector<Con> c; std::set<std::string> sn; for (size_t i = 0; i < s.cons.size(); i++) if (in[i] && sn.insert(s.cons[i].str()).second) c.push_back(s.cons[i]); s.cons = c;
  }
  std::string sig(const St &s) {
    std::string r = std::to_string(id(s.B)); for (auto &p : s.d) if (isa<PHINode>(p.first)) r += "|" + std::to_string(id(p.first)) + "=" + p.second.str(); for (auto &p : s.k) if (isa<PHINode>(p.first)) r += "|" + std::to_string(id(p.first)) + ":" + std::to_string(p.second);
    std::set<std::string> c; for (auto &x : s.cons) c.insert(x.str()); for (auto &x : c) r += ";" + x; for (auto &f : s.facts) r += ";" + f.first + std::to_string(f.second); for (auto &x : s.cell) r += "$" + x.first + x.second.str(); for (auto &e : s.ev) r += "!" + std::to_string(id(e.I)); return r;
  }
  std::function<void(St &, const Instruction *)> onReturn; std::function<void(St &, const Instruction *)> onInst; std::function<void(St &, const BasicBlock *, const BasicBlock *)> onEdge;
  void walk(St s0) {
    std::vector<St> w; s0.B = &F.getEntryBlock(); s0.I = &s0.B->front(); w.push_back(s0); std::set<std::string> seen;
    while (!w.empty()) {
      if (++states > 60000) { overflow = true; if (getenv("KDDBG")) for (size_t i = 0; i < 6 && i < w.size(); i++) fprintf(stderr, "%s\n", sig(w[w.size() - 1 - i]).c_str()); return; }
      St s = std::move(w.back()); w.pop_back();
      if (s.I == s.B->getFirstNonPHI() && !seen.insert(sig(s)).second) continue;
      bool dead = false;
      for (const Instruction *I = s.I; I && !dead; I = I->getNextNode()) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        s.k.erase(I); s.d.erase(I);
        if (onInst) onInst(s, I);
        if (auto *R = dyn_cast<ReturnInst>(I)) { if (onReturn) onReturn(s, R); dead = true; break; }
        if (auto *Br = dyn_cast<BranchInst>(I)) {
          if (!Br->isConditional()) { if (onEdge) onEdge(s, s.B, Br->getSuccessor(0)); enter(w, s, s.B, Br->getSuccessor(0)); }
          else for (int t = 1; t >= 0; t--) for (auto &r : assume(s, Br->getCondition(), t)) { if (onEdge) onEdge(r, s.B, Br->getSuccessor(t ? 0 : 1)); enter(w, r, s.B, Br->getSuccessor(t ? 0 : 1)); }
          dead = true; break;
        }
        if (auto *IV = dyn_cast<InvokeInst>(I)) { call(s, IV); enter(w, s, s.B, IV->getNormalDest()); dead = true; break; }
        if (I->isTerminator()) { for (auto *N : successors(s.B)) enter(w, s, s.B, N); dead = true; break; }
        if (auto *L = dyn_cast<LoadInst>(I)) {
          if (auto *A = dyn_cast<Argument>(L->getPointerOperand()); A && L->getType()->isDoubleTy()) { std::string c = "a" + std::to_string(A->getArgNo()); if (!s.cell.count(c)) s.cell[c] = LinD::A(c + "'0"); s.d[L] = s.cell[c]; }
          else s.d[L] = LinD::A(stateKey(s, L));
          continue;
        }
        if (auto *S = dyn_cast<StoreInst>(I)) {
          const Value *P = S->getPointerOperand(), *V = S->getValueOperand();
          if (auto *A = dyn_cast<Argument>(P)) { std::string c = "a" + std::to_string(A->getArgNo()); if (V->getType()->isDoubleTy()) { Ev e{'C', S, c, "", val(s, V)}; e.args.push_back(s.cell.count(c) ? s.cell[c] : LinD::A(c + "'0")); s.ev.push_back(e); s.cell[c] = val(s, V); } else s.ev.push_back({'R', S, c, key(V), V->getType()->isIntegerTy() ? val(s, V) : LinD::A(key(V))}); }
          else if (V->getType()->isIntegerTy() && V->getType()->getIntegerBitWidth() >= 32) { int n = 0; for (auto &e : s.ev) n += e.I == S; if (n < 2) s.ev.push_back({'A', S, addr(P), key(V), val(s, V)}); }
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(I)) { // fabs, fmin, fmax fork
          auto *H = calleeOf(CB); std::string n = H ? H->getName().str() : "";
          bool ab = n == "fabs" || n.rfind("llvm.fabs", 0) == 0, mn = n == "fmin" || n.rfind("llvm.minnum", 0) == 0, mx = n == "fmax" || n.rfind("llvm.maxnum", 0) == 0;
          if (ab || mn || mx) {
            LinD a = val(s, CB->getArgOperand(0)), b = ab ? a.scale(-1) : val(s, CB->getArgOperand(1));
            for (int t = 0; t < 2; t++) { St r = s; LinD hi = t ? a : b, lo = t ? b : a; r.cons.push_back({hi.add(lo, -1), !t}); if (refute(r.cons)) continue; r.d[I] = mn ? lo : hi; r.I = I->getNextNode(); w.push_back(r); }
            dead = true; break;
          }
          call(s, CB); continue;
        }
        if (auto *Sel = dyn_cast<SelectInst>(I); Sel && !wrapped.count(Sel)) { for (int t = 0; t < 2; t++) for (auto &r : assume(s, Sel->getCondition(), t)) { auto *V = t ? Sel->getTrueValue() : Sel->getFalseValue(); r.d[I] = val(r, V); auto it = r.k.find(V); if (it != r.k.end()) r.k[I] = it->second; else if (auto *K = dyn_cast<ConstantInt>(V)) r.k[I] = K->getBitWidth() == 1 ? K->getZExtValue() : K->getSExtValue(); r.I = I->getNextNode(); w.push_back(r); } dead = true; break; }
        if (wrapped.count(I)) { s.d[I] = LinD::A("dim"); continue; }
        { // a condition that is kept in a variable is decided where it is computed
          const Value *cond = nullptr; if (auto *Z = dyn_cast<ZExtInst>(I); Z && Z->getOperand(0)->getType()->isIntegerTy(1)) cond = Z->getOperand(0);
          else if (I->getType()->isIntegerTy(1) && (isa<CmpInst>(I) || isa<BinaryOperator>(I))) for (auto *U : I->users()) if (auto *J = dyn_cast<Instruction>(U); J && J->getParent() != I->getParent() && !isa<PHINode>(J)) cond = I;
          if (cond && !s.k.count(cond)) { for (int t = 0; t < 2; t++) for (auto &r : assume(s, cond, t)) { r.k[cond] = t; r.k[I] = t; r.d[I] = LinD::K(t); r.I = I->getNextNode(); w.push_back(r); } dead = true; break; }
        }
        eval(s, I);
      }
    }
  }
  // the array behind a pointer that was selected on this path
  std::string baseKey(St &s, const Value *V) {
    if (isa<PHINode>(V) || isa<SelectInst>(V) || isa<LoadInst>(V)) { auto it = s.d.find(V); std::string a; double k; if (it != s.d.end() && it->second.single(a, k) && k == 1) return a; }
    return isa<LoadInst>(V) ? stateKey(s, cast<LoadInst>(V)) : key(V);
  }
  std::string stateKey(St &s, const LoadInst *L) {
    auto *P = L->getPointerOperand(); auto sel = [](const Value *V) { if (auto *X = dyn_cast<LoadInst>(V)) V = X->getPointerOperand(); return isa<PHINode>(V) || isa<SelectInst>(V); };
    if (sel(P)) return "*(" + baseKey(s, P) + ")";
    if (auto *G = dyn_cast<GetElementPtrInst>(P); G && G->getNumIndices() == 1 && sel(G->getPointerOperand())) return "*(" + baseKey(s, G->getPointerOperand()) + "[" + key(G->getOperand(1)) + "])";
    return key(L);
  }
  void eval(St &s, const Instruction *I) {
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      LinD a = val(s, B->getOperand(0)), b = val(s, B->getOperand(1));
      switch (B->getOpcode()) {
      case Instruction::FAdd: case Instruction::Add: s.d[I] = a.add(b, 1); return; case Instruction::FSub: case Instruction::Sub: s.d[I] = a.add(b, -1); return;
      case Instruction::FMul: case Instruction::Mul: s.d[I] = mul(a, b); return;
      case Instruction::FDiv: s.d[I] = b.isConst() && b.c != 0 ? a.scale(1 / b.c) : LinD::A("div(" + a.str() + "|" + b.str() + ")"); return;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::LShr: {
        double k = b.isConst() ? (B->getOpcode() == Instruction::LShr ? std::ldexp(1.0, (int)b.c) : b.c) : 0;
        if (k >= 1) { LinD q = LinD::A("(" + a.str() + ")/" + std::to_string((int)k)); s.d[I] = q; s.cons.push_back({a.add(q, -k)}); LinD e = q.scale(k).add(a, -1); e.c += k - 1; s.cons.push_back({e}); s.cons.push_back({q}); return; } break; }
      default: break; }
      s.d[I] = LinD::A("%" + std::to_string(id(I))); return;
    }
    if (I->getOpcode() == Instruction::FNeg) { s.d[I] = val(s, I->getOperand(0)).scale(-1); return; }
    if (isa<CastInst>(I) && (I->getType()->isDoubleTy() || I->getType()->isIntegerTy())) { if (I->getOperand(0)->getType()->isIntegerTy() || I->getOperand(0)->getType()->isDoubleTy()) { s.d[I] = val(s, I->getOperand(0)); auto it = s.k.find(I->getOperand(0)); if (it != s.k.end()) s.k[I] = it->second; } return; }
    if (isa<FreezeInst>(I)) { s.d[I] = val(s, I->getOperand(0)); return; }
  }
  std::function<bool(const Function *, unsigned)> recordsArg;
  std::function<bool(const Function *)> isDistance; // (n, p, q) -> euclidean distance
  void call(St &s, const CallBase *CB) {
    auto *H = calleeOf(CB); if (!H) return; StringRef n = H->getName();
    if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma.")) { s.d[CB] = mul(val(s, CB->getArgOperand(0)), val(s, CB->getArgOperand(1))).add(val(s, CB->getArgOperand(2)), 1); return; }
    if (n == "sqrt" || n.starts_with("llvm.sqrt")) { s.d[CB] = root(s, val(s, CB->getArgOperand(0))); return; }
    if (isMathName(n) || n.starts_with("llvm.")) { s.d[CB] = LinD::A("%" + std::to_string(id(CB))); return; }
    if (CB->getType()->isDoubleTy()) s.d[CB] = LinD::A("%" + std::to_string(id(CB)));
    if (isDistance && isDistance(H) && CB->arg_size() >= 3) {
      std::string nk = key(CB->getArgOperand(CB->arg_size() - 3)), p = key(CB->getArgOperand(CB->arg_size() - 2)), q = key(CB->getArgOperand(CB->arg_size() - 1));
      auto el = [](const std::string &x) { return "*(" + x + "[@])"; };
      if (nk == numDim) { if (has(q, "[n]")) std::swap(p, q); if (has(p, "[n]")) { s.d[CB] = LinD::A("sqrt(S:" + repl(el(q), "@", "#") + ")"); s.cons.push_back({s.d[CB]}); } }
    }
    Ev e{selfCall(CB) ? 'D' : 'X', CB, H->getName().str(), "", LinD()};
    for (auto &A : CB->args()) e.args.push_back(A->getType()->isIntegerTy() ? val(s, A) : LinD::A(key(A)));
    if (e.kind == 'D') {
      for (unsigned i = 0; i < CB->arg_size(); i++) if (cellArgs.count(i)) { std::string c = "a" + std::to_string(i); LinD old = s.cell.count(c) ? s.cell[c] : LinD::A(c + "'0"); LinD nw = LinD::A(c + "'" + std::to_string(++s.ver)); s.cons.push_back({old.add(nw, -1)}); s.cell[c] = nw; }
    } else for (unsigned i = 0; i < CB->arg_size(); i++) if (auto *A = dyn_cast<Argument>(CB->getArgOperand(i)); A && cellArgs.count(A->getArgNo())) { s.cell["a" + std::to_string(A->getArgNo())] = LinD::A("?" + std::to_string(id(CB))); }
    if (e.kind == 'X') for (unsigned i = 0; i < CB->arg_size(); i++) if (nodeArg >= 0 && CB->getArgOperand(i) == F.getArg(nodeArg) && recordsArg && recordsArg(H, i)) e.kind = 'N';
    s.ev.push_back(e);
  }
};

struct Kd {
  Ctx &C; ModSets MS; std::map<const Function *, std::unique_ptr<Fn>> fns;
  std::map<const Function *, std::map<unsigned, char>> argLabel; // tree arrays: R, L; O origin (per parameter)
  std::map<std::string, char> fieldLabel;
  std::map<const Function *, char> kindOf; // c closest, s sphere, t trim, o order, b builder, i inserter
  std::map<const Function *, int> insSeed; std::map<const Function *, std::string> emptyOrigin;
  struct Build { int S, T, lo, hi; }; std::map<const Function *, Build> builds;
  std::map<const Function *, std::pair<int, int>> nodeDim; std::map<const Function *, int> cellOf;
  Kd(Ctx &C) : C(C), MS(*C.M) {}
  void bad(const char *rule, const Instruction *I, const std::string &key, const std::string &msg) { C.R.add(mk(rule, I, key, msg)); }
  bool recordsArg(const Function *H, unsigned i, int depth = 0) {
    if (H->isDeclaration() || i >= H->arg_size() || depth > 3) return false; auto *A = H->getArg(i); if (!A->getType()->isIntegerTy()) return false;
    for (auto *U : A->users()) { if (auto *S = dyn_cast<StoreInst>(U); S && S->getValueOperand() == A) return true; if (auto *CB = dyn_cast<CallBase>(U)) if (auto *G = calleeOf(CB)) for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k) == A && recordsArg(G, k, depth + 1)) return true; }
    return false;
  }
  std::map<const Function *, bool> distMemo;
  bool isDistance(const Function *H) {
    auto it = distMemo.find(H); if (it != distMemo.end()) return it->second; bool &r = distMemo[H]; r = false;
    if (H->isDeclaration() || !H->getReturnType()->isDoubleTy() || H->arg_size() < 3) return false;
    Fn f(*const_cast<Function *>(H)); unsigned n = H->arg_size();
    for (auto &I : instructions(*H)) if (auto *R = dyn_cast<ReturnInst>(&I)) {
      auto *CB = dyn_cast<CallBase>(R->getReturnValue()); auto *G = CB ? calleeOf(CB) : nullptr; if (!G || !(G->getName() == "sqrt" || G->getName().starts_with("llvm.sqrt"))) return false;
      auto *ph = dyn_cast<PHINode>(CB->getArgOperand(0)); std::string a, b, bd; if (!ph || !f.squareSum(ph, a, b, bd)) return false;
      std::string p = "*(a" + std::to_string(n - 2) + "[@])", q = "*(a" + std::to_string(n - 1) + "[@])";
      r = bd == "a" + std::to_string(n - 3) && ((a == p && b == q) || (a == q && b == p)); return r;
    }
    return r;
  }
  // the dimension argument, its cyclic use, and the node argument of a recursive traversal
  bool classify(Function &F) {
    auto fp = std::make_unique<Fn>(F); Fn &f = *fp; auto calls = f.selfCalls(); if (calls.empty()) return false;
    std::map<unsigned, int> node;
    for (auto *CB : calls) for (unsigned i = 0; i < CB->arg_size() && i < F.arg_size(); i++) {
      auto *L = dyn_cast<LoadInst>(CB->getArgOperand(i)); if (!L || !L->getType()->isIntegerTy(64)) continue;
      auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand()); if (!G || G->getNumIndices() != 1 || G->getOperand(1) != F.getArg(i)) continue;
      node[i]++;
    }
    if (node.empty()) return false;
    f.nodeArg = node.begin()->first;
    fns[&F] = std::move(fp); return true;
  }
  const Value *wrapped(Fn &f, const Value *V, std::string &nd) { // phi/select(x == n ? 0 : x), x % n
      if (auto *P = dyn_cast<PHINode>(V); P && P->getNumIncomingValues() == 2 && !f.LI.isLoopHeader(P->getParent())) {
        for (int k = 0; k < 2; k++) {
          auto *Z = dyn_cast<ConstantInt>(P->getIncomingValue(k)); if (!Z || !Z->isZero()) continue; auto *X = P->getIncomingValue(1 - k);
          auto *D = f.DT[P->getParent()]->getIDom()->getBlock(); auto *Br = dyn_cast<BranchInst>(D->getTerminator()); if (!Br || !Br->isConditional()) continue; auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (!Cm) continue;
          const Value *o = Cm->getOperand(0) == X ? Cm->getOperand(1) : Cm->getOperand(1) == X ? Cm->getOperand(0) : nullptr; if (!o) continue; auto p = Cm->getPredicate(); if (Cm->getOperand(1) == X) p = Cm->getSwappedPredicate();
          bool zeroOnTrue = P->getIncomingBlock(k) == D ? Br->getSuccessor(0) == P->getParent() : f.DT.dominates(Br->getSuccessor(0), P->getIncomingBlock(k));
          if (!zeroOnTrue) p = CmpInst::getInversePredicate(p);
          if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) { nd = f.key(o); return X; }
        }
      }
      if (auto *S = dyn_cast<SelectInst>(V)) if (auto *Cm = dyn_cast<ICmpInst>(S->getCondition())) {
        for (int k = 0; k < 2; k++) { auto *Z = dyn_cast<ConstantInt>(k ? S->getTrueValue() : S->getFalseValue()); auto *X = k ? S->getFalseValue() : S->getTrueValue(); if (!Z || !Z->isZero()) continue; auto p = Cm->getPredicate(); if (!k) p = CmpInst::getInversePredicate(p); const Value *o = Cm->getOperand(0) == X ? Cm->getOperand(1) : Cm->getOperand(1) == X ? Cm->getOperand(0) : nullptr; if (Cm->getOperand(1) == X) p = CmpInst::getSwappedPredicate(p); if (o && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_UGE)) { nd = f.key(o); return X; } }
      }
      if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::URem) { nd = f.key(B->getOperand(1)); return B->getOperand(0); }
      return nullptr;
  }
  // dimension handling; returns false when reported
  bool dims(Fn &f) {
    Function &F = f.F; auto calls = f.selfCalls();
    // candidates: integer arguments compared with the number of dimensions and/or incremented into the recursion
    auto plus1 = [&](const Value *V) -> const Value * { auto *B = dyn_cast<BinaryOperator>(V); auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; return B && B->getOpcode() == Instruction::Add && K && K->isOne() ? B->getOperand(0) : nullptr; };
    auto wrapOf = [&](const Value *V, std::string &nd) { return wrapped(f, V, nd); };
    for (unsigned i = 0; i < F.arg_size(); i++) {
      if ((int)i == f.nodeArg || !F.getArg(i)->getType()->isIntegerTy(64)) continue;
      const Value *A = F.getArg(i); std::string nd; std::set<const Value *> wr; bool entryWrap = false;
      for (auto &I : instructions(F)) if (I.getType()->isIntegerTy(64)) { std::string n; auto *X = wrapOf(&I, n); if (X == A) { wr.insert(&I); nd = n; entryWrap = true; } }
      bool ok = true, all = true, callWrap = true; unsigned hits = 0;
      for (auto *CB : calls) {
        const Value *V = CB->getArgOperand(i); std::string n; auto *X = wrapOf(V, n); bool w = X != nullptr; if (!X) X = V; auto *Y = plus1(X);
        if (w && nd.empty()) nd = n; callWrap = callWrap && w;
        if (Y && (wr.count(Y) || (Y == A && !entryWrap))) { hits++; continue; }
        if (V != A) ok = false; all = false;
      }
      if (hits == 0) { // not incremented anywhere: maybe the dimension argument all the same
        if (entryWrap && !calls.empty()) { bad("dimension", calls[0], funcKey(&F) + "|dim", "the recursion of " + shortName(&F) + " does not advance the splitting dimension"); return false; }
        continue;
      }
      f.dimArg = i;
      if (hits != calls.size()) { for (auto *CB : calls) { const Value *V = CB->getArgOperand(i); std::string n; auto *X = wrapOf(V, n); if (!X) X = V; auto *Y = plus1(X); if (!(Y && (wr.count(Y) || (Y == A && !entryWrap)))) { bad("dimension", CB, funcKey(&F) + "|dim-step", "this recursive call does not pass the next splitting dimension"); return false; } } }
      if (entryWrap) f.wrapped = wr; else if (callWrap) f.wrapped.insert(A);
      if (!nd.empty()) f.numDim = nd;
      if (f.wrapped.empty()) { // only harmless when no coordinate is selected with it
        bool used = false; for (auto &I : instructions(F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I)) for (auto &x : G->indices()) { std::map<std::string, long> t; f.terms(x, 1, t, 0); if (t.count("a" + std::to_string(i))) used = true; }
        if (used) { bad("dimension", calls[0], funcKey(&F) + "|dim-wrap", "the splitting dimension is not reduced modulo the number of dimensions before it selects a coordinate"); return false; }
      }
      return true;
    }
    return true;
  }
  // --- points that the caller excludes are looked up in all of its list ---------
  // a loop that compares `node` with the entries of a list; returns the arguments that are the list and its count
  struct Member { int list = -1, count = -1; const Instruction *I = nullptr; std::string why; };
  static const Value *noCast(const Value *V) { while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0); return V; }
  std::vector<Member> members(Fn &f, const Value *node) {
    std::vector<Member> r;
    for (auto &I : instructions(f.F)) { auto *Cm = dyn_cast<ICmpInst>(&I); if (!Cm || !Cm->isEquality()) continue;
      for (int k = 0; k < 2; k++) { if (noCast(Cm->getOperand(k)) != node) continue;
        auto *L = dyn_cast<LoadInst>(noCast(Cm->getOperand(1 - k))); auto *G = L ? dyn_cast<GetElementPtrInst>(L->getPointerOperand()) : nullptr; if (!G || G->getNumIndices() != 1) continue;
        auto *A = dyn_cast<Argument>(noCast(G->getPointerOperand())); auto *Lp = f.LI.getLoopFor(Cm->getParent()); if (!A || !Lp) continue;
        const Value *x = noCast(G->getOperand(1)); Member m; m.list = A->getArgNo(); m.I = Cm;
        auto *ph = dyn_cast<PHINode>(x); if (!ph || !f.iv(ph)) { m.why = "is not walked from its first entry, one by one"; r.push_back(m); continue; }
        std::string b = f.boundOf(Lp, ph); for (auto &Q : f.F.args()) if (b == f.key(&Q)) m.count = Q.getArgNo();
        if (m.count < 0) m.why = "is not walked to its last entry";
        bool eqTrue = Cm->getPredicate() == CmpInst::ICMP_EQ; SmallVector<BasicBlock *, 4> ex; Lp->getExitingBlocks(ex);
        for (auto *B : ex) { if (B == Lp->getHeader()) continue; auto *T = dyn_cast<BranchInst>(B->getTerminator()); bool ok = false;
          for (unsigned s = 0; T && T->isConditional() && s < 2; s++) if (!Lp->contains(T->getSuccessor(s)) && T->getCondition() == Cm && (s == 0) == eqTrue) ok = true;
          for (auto *U : Cm->users()) if (auto *Br = dyn_cast<BranchInst>(U)) { auto *S = Br->getSuccessor(eqTrue ? 0 : 1); if (S->getSinglePredecessor() && f.DT.dominates(S, B)) ok = true; }
          if (!ok) m.why = "is left before its last entry although the point was not found in it"; }
        r.push_back(m); } }
    return r;
  }
  void membership(Fn &f) {
    if (f.nodeArg < 0) return; const Value *node = f.F.getArg(f.nodeArg); std::set<unsigned> used; std::string nm = shortName(&f.F);
    auto say = [&](const Instruction *I, const std::string &l, const std::string &why) { bad("exclusion", I, nm + "|excluded|" + l, "the list '" + l + "' of points to leave out " + why); };
    for (auto &m : members(f, node)) { C.R.counts["exclusion_lists"]++; used.insert(m.list); if (!m.why.empty()) say(m.I, varName(f.F.getArg(m.list), &f.F), m.why); }
    for (auto &I : instructions(f.F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H || H == &f.F || H->isDeclaration() || !isRepoFunc(H)) continue;
      for (unsigned k = 0; k < CB->arg_size(); k++) { if (noCast(CB->getArgOperand(k)) != node || !CB->getArgOperand(k)->getType()->isIntegerTy()) continue;
        Fn g(*const_cast<Function *>(H)); for (auto &m : members(g, H->getArg(k))) {
          C.R.counts["exclusion_lists"]++; auto *LA = dyn_cast<Argument>(noCast(CB->getArgOperand(m.list))); std::string l = LA ? varName(LA, &f.F) : "?"; if (LA) used.insert(LA->getArgNo());
          if (!LA) say(CB, l, "is not the one that the caller gave");
          else if (!m.why.empty()) say(m.I, varName(H->getArg(m.list), H) , m.why);
          else if (!isa<Argument>(noCast(CB->getArgOperand(m.count)))) say(CB, l, "is looked up with another number of entries than the caller gave"); } } }
    // a list of numbers that the caller hands over and that no test of the node consults
    for (auto &A : f.F.args()) { if (!A.getType()->isPointerTy() || used.count(A.getArgNo())) continue; bool self = false, other = false;
      for (auto *U : A.users()) { auto *CB = dyn_cast<CallBase>(U); if (CB && calleeOf(CB) == &f.F) self = true; else other = true; }
      std::string n = varName(&A, &f.F); if (self && !other && n != "this") say(&f.F.getEntryBlock().front(), n, "is handed down but never consulted"); }
  }
  // --- the value that a spoke is shortened to: where the plane halfway between both seeds cuts it
  // polynomial identities are decided on random points
  bool evalAt(Fn &f, const Value *V, std::map<std::string, double> &leaf, double &out, int depth = 0) {
    if (depth > 40) return false;
    if (auto *K = dyn_cast<ConstantFP>(V)) { out = K->getValueAPF().convertToDouble(); return true; }
    double a, b, c;
    if (auto *B = dyn_cast<BinaryOperator>(V)) { if (!evalAt(f, B->getOperand(0), leaf, a, depth + 1) || !evalAt(f, B->getOperand(1), leaf, b, depth + 1)) return false; switch (B->getOpcode()) { case Instruction::FAdd: out = a + b; return true; case Instruction::FSub: out = a - b; return true; case Instruction::FMul: out = a * b; return true; case Instruction::FDiv: out = a / b; return true; default: return false; } }
    if (auto *U = dyn_cast<UnaryOperator>(V)) { if (!evalAt(f, U->getOperand(0), leaf, a, depth + 1)) return false; out = -a; return true; }
    if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); if (!H || !(H->getName().starts_with("llvm.fmuladd") || H->getName().starts_with("llvm.fma"))) return false; if (!evalAt(f, CB->getArgOperand(0), leaf, a, depth + 1) || !evalAt(f, CB->getArgOperand(1), leaf, b, depth + 1) || !evalAt(f, CB->getArgOperand(2), leaf, c, depth + 1)) return false; out = a * b + c; return true; }
    if (isa<LoadInst>(V)) { std::string k = f.key(V); if (!has(k, "@")) return false; auto it = leaf.find(k); if (it == leaf.end()) it = leaf.emplace(k, 0.37 + 1.7 * (double)((std::hash<std::string>()(k) >> 7) % 1009) / 1009.0).first; out = it->second; return true; }
    return false;
  }
  // sum over all dimensions: the accumulator's value after one round, starting from zero
  bool increment(Fn &f, const PHINode *ph, std::map<std::string, double> &leaf, double &out, std::string &bound) {
    auto *L = f.LI.getLoopFor(ph->getParent()); if (!L || L->getHeader() != ph->getParent() || ph->getNumIncomingValues() != 2) return false;
    const Value *init = nullptr, *upd = nullptr; for (unsigned i = 0; i < 2; i++) (L->contains(ph->getIncomingBlock(i)) ? upd : init) = ph->getIncomingValue(i);
    auto *Z = dyn_cast_or_null<ConstantFP>(init); if (!Z || !Z->isZero() || !upd) return false;
    for (auto &q : L->getHeader()->phis()) if (f.iv(&q)) bound = f.boundOf(L, &q);
    struct Ev2 { Kd *k; Fn &f; const PHINode *ph; std::map<std::string, double> &leaf; bool go(const Value *V, double &o, int d) { if (V == ph) { o = 0; return true; } if (d > 40) return false; double a, b, c;
      if (auto *B = dyn_cast<BinaryOperator>(V); B && (B->getOpcode() == Instruction::FAdd || B->getOpcode() == Instruction::FSub)) { if (!go(B->getOperand(0), a, d + 1) || !go(B->getOperand(1), b, d + 1)) return false; o = B->getOpcode() == Instruction::FAdd ? a + b : a - b; return true; }
      if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); if (H && (H->getName().starts_with("llvm.fmuladd") || H->getName().starts_with("llvm.fma"))) { if (!k->evalAt(f, CB->getArgOperand(0), leaf, a) || !k->evalAt(f, CB->getArgOperand(1), leaf, b) || !go(CB->getArgOperand(2), c, d + 1)) return false; o = a * b + c; return true; } }
      return k->evalAt(f, V, leaf, o); } } e{this, f, ph, leaf};
    return e.go(upd, out, 0);
  }
  std::string trimQ, trimP;
  void trimValue(Fn &f, int cell) {
    std::string nm = shortName(&f.F);
    for (auto &I : instructions(f.F)) { auto *S = dyn_cast<StoreInst>(&I); if (!S || S->getPointerOperand() != f.F.getArg(cell)) continue;
      auto say = [&](const std::string &k, const std::string &m) { bad("trimming", S, nm + "|trim|" + k, m); };
      auto *Dv = dyn_cast<BinaryOperator>(S->getValueOperand()); if (!Dv || Dv->getOpcode() != Instruction::FDiv) { C.R.counts["trimming_values_not_followed"]++; continue; }
      std::set<const PHINode *> num; bool clampOnly = true; std::vector<const Value *> w{Dv->getOperand(0)}; std::set<const Value *> seen;
      while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (!seen.insert(V).second) continue; if (auto *K = dyn_cast<ConstantFP>(V)) { if (!K->isZero()) clampOnly = false; continue; } auto *P = dyn_cast<PHINode>(V); if (P && !f.LI.isLoopHeader(P->getParent())) { for (auto &o : P->incoming_values()) w.push_back(o); continue; } if (auto *Se = dyn_cast<SelectInst>(V)) { w.push_back(Se->getTrueValue()); w.push_back(Se->getFalseValue()); continue; }
        if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); if (H && (H->getName() == "fmax" || H->getName().starts_with("llvm.maxnum"))) { for (auto &o : CB->args()) w.push_back(o); continue; } }
        if (P) num.insert(P); else clampOnly = false; }
      auto *den = dyn_cast<PHINode>(Dv->getOperand(1)); std::map<std::string, double> leaf; double n, d; std::string b1, b2;
      if (!clampOnly || num.size() != 1 || !den || !increment(f, *num.begin(), leaf, n, b1) || !increment(f, den, leaf, d, b2)) { say("ratio", "the length that the spoke is shortened to is not a ratio of two sums over all dimensions"); continue; }
      C.R.counts["trimming_formulas"]++;
      if (b1 != f.numDim || b2 != f.numDim) say("dims", "the length that the spoke is shortened to does not take all dimensions into account");
      std::string P; std::vector<std::pair<std::string, double>> o; for (auto &l : leaf) if (has(l.first, "[n]") || has(l.first, "n.") || has(l.first, ".n")) P = l.first; else o.push_back(l);
      bool ok = false; auto near = [](double x, double y) { return std::fabs(x - y) < 1e-9; };
      if (!P.empty() && o.size() == 3) { double p = leaf[P]; int q[3] = {0, 1, 2}; do { double c = o[q[0]].second, s = o[q[1]].second, r = o[q[2]].second; for (double sg : {1.0, -1.0, 2.0, -2.0}) if (near(n, sg * (0.5 * (p + c) - s) * (p - c)) && near(d, sg * r * (p - c))) { ok = true; trimQ = o[q[1]].first; trimP = P; } } while (std::next_permutation(q, q + 3)); }
      if (!ok) say("plane", "the length that the spoke is shortened to does not put its end on the plane halfway between both seeds");
      // constants that the ratio and its denominator are compared with
      for (auto *U : Dv->users()) if (auto *Cm = dyn_cast<FCmpInst>(U)) for (int k = 0; k < 2; k++) if (auto *K = dyn_cast<ConstantFP>(Cm->getOperand(1 - k))) { double v = K->getValueAPF().convertToDouble(); auto p = k == 0 ? Cm->getPredicate() : Cm->getSwappedPredicate(); bool strict = p == CmpInst::FCMP_OGT || p == CmpInst::FCMP_ULE || p == CmpInst::FCMP_UGT || p == CmpInst::FCMP_OLE; if (std::fabs(v) < 1e-3 && (v > 0 || (v == 0 && strict))) say("zero", "a seed that cuts the spoke at its very origin does not shorten it"); }
      std::vector<const Value *> dv{den}; for (auto *U : den->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (auto *H = calleeOf(CB); H && (H->getName() == "fabs" || H->getName().starts_with("llvm.fabs"))) dv.push_back(CB);
      for (auto *V : dv) for (auto *U : V->users()) if (auto *Cm = dyn_cast<FCmpInst>(U)) for (int k = 0; k < 2; k++) if (auto *K = dyn_cast<ConstantFP>(Cm->getOperand(k))) if (std::fabs(K->getValueAPF().convertToDouble()) > 1e-6) say("slant", "seeds that the spoke approaches at a small angle do not shorten it");
    }
  }
  struct Outcome { std::vector<Finding> f; long proofs = 0, paths = 0; };
  void passThrough(Fn &f) {
    for (auto *CB : f.selfCalls()) for (unsigned i = 0; i < CB->arg_size(); i++) {
      if ((int)i == f.nodeArg || (int)i == f.dimArg) continue;
      const Value *V = CB->getArgOperand(i); while (auto *X = dyn_cast<CastInst>(V)) V = X->getOperand(0);
      if (V != f.F.getArg(i)) {
        // a value equal to the argument (cell reload) is not expected: everything else is passed on unchanged
        bad("pass-through", CB, funcKey(&f.F) + "|pass" + std::to_string(i), "the recursive call does not pass on '" + varName(f.F.getArg(i), &f.F) + "' unchanged"); }
    }
  }
  // exclusion conditions depend on something the caller excludes: an argument other than query, radius, node and dimension, or a mark
  bool excludes(Fn &f, const Value *V, const std::set<std::string> &plain, int depth = 0) {
    if (depth > 25) return false;
    if (auto *Cm = dyn_cast<ICmpInst>(V); Cm && Cm->isEquality() && f.nodeArg >= 0) for (int k = 0; k < 2; k++) if (Cm->getOperand(k) == f.F.getArg(f.nodeArg) && isa<Argument>(Cm->getOperand(1 - k))) return true; // the node that the query names itself
    if (auto *A = dyn_cast<Argument>(V)) if (auto it = MS.writesArg.find(&f.F); it != MS.writesArg.end() && it->second.count(A->getArgNo())) return false; // what the search itself produces does not exclude a point
    if (auto *A = dyn_cast<Argument>(V)) return !plain.count(f.key(A)) && !(A->getArgNo() == 0 && A->hasNonNullAttr() && varName(A, &f.F) == "this");
    if (auto *L = dyn_cast<LoadInst>(V)) { std::string k = f.addr(L->getPointerOperand()); if (has(k, "_marked") || has(k, "_normal") || has(k, "_attrib")) return true; return excludes(f, L->getPointerOperand(), plain, depth + 1); }
    if (auto *I = dyn_cast<Instruction>(V)) { for (auto &o : I->operands()) if (!isa<BasicBlock>(o) && !isa<Function>(o) && excludes(f, o, plain, depth + 1)) return true; }
    return false;
  }
  void searcher(Function &F) {
    Fn &f = *fns[&F]; std::string nm = shortName(&F);
    if (!dims(f)) return;
    passThrough(f);
    f.recordsArg = [&](const Function *H, unsigned i) { return recordsArg(H, i); };
    f.isDistance = [&](const Function *H) { return isDistance(H); };
    // children: bases from which the node's successor is read
    std::set<std::string> bases; std::map<std::string, const Value *> baseVal;
    for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isIntegerTy(64)) if (auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand()); G && G->getNumIndices() == 1 && f.nodeArg >= 0 && G->getOperand(1) == F.getArg(f.nodeArg)) { std::string b = f.key(G->getPointerOperand()); bases.insert(b); baseVal[b] = G->getPointerOperand(); }
    auto calls = f.selfCalls();
    if (bases.size() != 2) { bad("descent", calls[0], nm + "|children", "the traversal reads " + std::to_string(bases.size()) + " child arrays of a node, not both of them"); return; }
    std::string b1 = *bases.begin(), b2 = *bases.rbegin();
    // accumulators
    std::string qKey, pKey; const Instruction *anchor = &F.getEntryBlock().front();
    for (auto *L : f.LI.getLoopsInPreorder()) for (auto &ph : L->getHeader()->phis()) {
      std::string a, b, bd; if (!ph.getType()->isDoubleTy() || !f.squareSum(&ph, a, b, bd)) continue;
      auto isN = [&](const std::string &k) { return has(k, "[n]") || has(k, "n.") || has(k, ".n"); };
      if (!isN(a)) std::swap(a, b); if (!isN(a) || isN(b)) continue;
      if (bd != f.numDim) { bad("distance", &ph, nm + "|dims", "the distance between query and node is not summed over all dimensions"); continue; }
      f.acc[&ph] = "S:" + repl(b, "@", "#"); if (qKey.empty()) { qKey = b; pKey = a; }
    }
    if (qKey.empty()) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB); H && isDistance(H)) { std::string p = f.key(CB->getArgOperand(CB->arg_size() - 2)), q = f.key(CB->getArgOperand(CB->arg_size() - 1)); if (has(q, "[n]")) std::swap(p, q); if (has(p, "[n]") && f.key(CB->getArgOperand(CB->arg_size() - 3)) == f.numDim) { qKey = "*(" + q + "[@])"; pKey = "*(" + p + "[@])"; } }
    // kind
    int scal = -1, ns = 0; for (unsigned i = 0; i < F.arg_size(); i++) if (F.getArg(i)->getType()->isDoubleTy()) { scal = i; ns++; }
    int cell = -1; for (auto i : f.cellArgs) { bool st = false; for (auto *U : F.getArg(i)->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == F.getArg(i)) st = true; if (st) cell = i; }
    char kind = cell >= 0 ? 'c' : ns ? 's' : 'o';
    std::string D = "a" + std::to_string(cell), scalK = "a" + std::to_string(scal);
    if (kind == 'c' && qKey.empty()) kind = 't';
    trimQ.clear(); trimP.clear(); membership(f); if (kind == 't') trimValue(f, cell);
    if (kind == 't') { qKey = trimQ; pKey = trimP; }
    if (kind == 't' && qKey.empty()) { // the query of spoke trimming: what is subtracted from the midpoint
      for (auto &I : instructions(F)) if (auto *B = dyn_cast<BinaryOperator>(&I); B && B->getOpcode() == Instruction::FSub) { auto *m = dyn_cast<BinaryOperator>(B->getOperand(0)); if (!m || m->getOpcode() != Instruction::FMul) continue; bool half = false; for (auto &o : m->operands()) if (auto *K = dyn_cast<ConstantFP>(o)) half |= K->isExactlyValue(0.5); if (half) { qKey = f.key(B->getOperand(1)); for (auto &o : m->operands()) if (auto *A = dyn_cast<BinaryOperator>(o); A && A->getOpcode() == Instruction::FAdd) for (auto &x : A->operands()) { auto k = f.key(x); if (has(k, "[n]") || has(k, "n.") || has(k, ".n")) pKey = k; } } }
    }
    if (kind == 's' && qKey.empty()) { bad("distance", anchor, nm + "|nodist", "no distance between the query and the node over all dimensions is computed"); return; }
    kindOf[&F] = kind; nodeDim[&F] = {f.nodeArg, f.dimArg}; cellOf[&F] = cell;
    std::string X = repl(qKey, "@", "dim"), P = repl(pKey, "@", "dim");
    // canonical re-rendering of sums in index expressions after substitution
    auto fix = [&](std::string k) { return k; };
    // coordinates are looked up as atoms; find the spelling used for dim
    std::set<std::string> plain{"n", D, scalK}; if (f.dimArg >= 0) plain.insert("a" + std::to_string(f.dimArg));
    { std::string q = qKey + " " + pKey + " " + b1 + " " + b2 + " " + f.numDim; size_t i = 0; while ((i = q.find('a', i)) != std::string::npos) { size_t j = i + 1; while (j < q.size() && isdigit(q[j])) j++; if (j > i + 1) plain.insert(q.substr(i, j - i)); i = j; } }
    bool strictFn = kind == 's' || kind == 'c'; { int extra = 0; for (unsigned i = 0; i < F.arg_size(); i++) if (F.getArg(i)->getType()->isDoubleTy() && !(kind == 's' && (int)i == scal)) extra++; if (extra) strictFn = false; }
    Outcome best; int bestAssign = -1; Outcome outs[2]; bool undecided = kind == 'o';
    for (int as = 0; as < 2; as++) {
      if (kind == 'o' && as) break;
      std::string Rb = as ? b2 : b1, Lb = as ? b1 : b2; Outcome &o = outs[as]; std::set<std::string> once;
      std::vector<std::map<const Value *, bool>> pend; std::set<std::map<const Value *, bool>> accEx; std::map<const Value *, bool> exMemo;
      auto exclusions = [&](St &s) { std::map<const Value *, bool> r; for (auto &c : s.conds) { auto it = exMemo.find(c.first); if (it == exMemo.end()) it = exMemo.emplace(c.first, excludes(f, c.first, plain)).first; if (it->second) r[c.first] = c.second; } return r; };
      auto report = [&](const char *rule, const Instruction *I, const std::string &key, const std::string &msg) { if (once.insert(key).second) o.f.push_back(mk(rule, I, nm + "|" + key, msg)); };
      f.core = [&](const std::string &a) { return a.find("S:") != std::string::npos || a == X || a == P || (kind != 'c' && a == scalK) || a == "MAX" || (cell >= 0 && a.rfind(D + "'", 0) == 0); };
      f.states = 0; f.onReturn = [&](St &s, const Instruction *Ret) {
        o.paths++;
        auto child = [&](const std::string &b) { return "*(" + b + "[n])"; };
        auto absent = [&](const std::string &b, int want) { std::string x = LinD::A(child(b)).str(), y = LinD::A("n").str(); if (y < x) std::swap(x, y); auto it = s.facts.find(x + "==" + y); return it != s.facts.end() && it->second == (want != 0); };
        bool desc[2] = {false, false}; int recorded = 0; bool cstore = false; const Ev *ce = nullptr; int refn = 0;
        for (auto &e : s.ev) {
          if (e.kind == 'D') {
            std::string a; double k; LinD nd = e.args[f.nodeArg]; bool okn = nd.single(a, k) && k == 1;
            int side = okn && a == child(Rb) ? 0 : okn && a == child(Lb) ? 1 : -1;
            if (side < 0) report("descent", e.I, "node", "the recursive call does not go to a child of the node");
            else { desc[side] = true; if (!absent(side ? Lb : Rb, 0)) report("descent", e.I, std::string("sentinel") + (side ? "L" : "R"), "the search goes to a child without knowing that there is one: a node without it refers to itself"); }
          }
          if (e.kind == 'N' || (e.kind == 'A' && e.b == "n")) recorded++;
          if (e.kind == 'R' && e.b == "n") refn++;
          if (e.kind == 'C' && e.a == D) { cstore = true; ce = &e; }
        }
        if (kind == 'o') {
          if (recorded != 1) report("enumeration", Ret, "record", "a path of the traversal records the node " + std::to_string(recorded) + " times instead of once");
          for (int i = 0; i < 2; i++) if (!desc[i] && !absent(i ? Lb : Rb, 1)) report("enumeration", Ret, "child" + std::to_string(i), "a path of the traversal omits a child of the node");
          return;
        }
        std::vector<Con> cons = s.cons; LinD Dn = kind == 's' ? LinD::A(scalK) : (s.cell.count(D) ? s.cell[D] : LinD::A(D + "'0")); LinD D0 = LinD::A(kind == 's' ? scalK : D + "'0");
        cons.push_back({D0}); cons.push_back({LinD::A("MAX")}); if (kind != 's') cons.push_back({Dn}); if (kind == 't' && scal >= 0) cons.push_back({LinD::A(scalK)});
        std::string srn = "sqrt(S:" + repl(qKey, "@", "#") + ")"; LinD SR = LinD::A(srn); cons.push_back({SR});
        LinD radius = Dn;
        if (kind == 't') { if (scal < 0) { report("radius", Ret, "origin", "no distance from the spoke origin to the cell's seed is passed"); return; } radius = Dn.scale(2).add(LinD::A(scalK), 1); }
        if (kind == 'c') {
          if (cstore) {
            if (!refn) report("acceptance", ce->I, "pair", "the distance is updated without the index of the point");
            // the accepted value is the distance and smaller than before
            if (!entails(cons, ce->v.add(SR, -1)) || !entails(cons, SR.add(ce->v, -1))) report("acceptance", ce->I, "value", "the distance stored is not the euclidean distance between the query and the node over all dimensions");
            if (!entails(cons, ce->args[0].add(ce->v, -1))) report("acceptance", ce->I, "smaller", "a node is accepted although it is not known to be closer than the closest so far");
          } else if (refn) report("acceptance", Ret, "pair", "the index of the closest point is updated without its distance");
        }
        if (kind == 't' && cstore) { if (!refn) report("acceptance", ce->I, "pair", "the spoke is shortened without recording the seed that trims it"); if (!entails(cons, ce->args[0].add(ce->v, -1))) report("acceptance", ce->I, "smaller", "the spoke length may grow"); }
        bool accepted = kind == 's' ? recorded > 0 : cstore;
        if (kind == 's' && recorded > 1) report("acceptance", Ret, "twice", "a node is recorded more than once");
        if (strictFn && !accepted && !entails(cons, SR.add(D0, -1))) {
          pend.push_back(exclusions(s));
        }
        if (strictFn && accepted) accEx.insert(exclusions(s));
        if (kind == 's' && accepted) { // what is accepted bounds what may be pruned: find the radius of the acceptance
          // the largest distance that the path allows: look for an upper bound on sqrt(S) among the constraints
          bool found = false; LinD r; for (auto &c : cons) { auto it = c.e.t.find(srn); if (it == c.e.t.end() || it->second >= 0) continue; LinD b = c.e.add(LinD::A(srn), -it->second).scale(-1 / it->second); if (b.has("S:")) continue; r = b; found = true; }
          if (!found) report("acceptance", Ret, "bound", "a node is recorded without a bound on its distance"); else { accR.insert({r.str(), r}); }
        }
        std::vector<LinD> radii; if (kind == 's') { for (auto &p : accR) radii.push_back(p.second); radii.push_back(radius); } else radii.push_back(radius);
        LinD x = LinD::A(X), p = LinD::A(P);
        for (int i = 0; i < 2; i++) {
          if (desc[i] || absent(i ? Lb : Rb, 1)) continue;
          o.proofs++; bool ok = true; for (auto &r : radii) ok = ok && entails(cons, (i ? x.add(p, -1) : p.add(x, -1)).add(r, -1));
          if (!ok) report("pruning", lastCond(s, Ret), std::string("prune") + (i ? "L" : "R"), std::string("a path returns without searching the ") + (i ? "lower" : "upper") + " half although it may hold points within the search radius" + (kind == 's' && !accR.empty() ? " (nodes are accepted up to " + accR.begin()->first + ")" : ""));
        }
      };
      accR.clear(); for (int pass = 0; pass < (kind == 's' ? 2 : 1); pass++) { o = Outcome(); once.clear(); pend.clear(); accEx.clear(); f.states = 0; St s0; f.walk(s0); }
      // a path that does not accept the node, is not proved too far, and differs from no accepting path in what the caller excludes
      for (auto &p : pend) for (auto &a : accEx) { bool sub = true; for (auto &q : a) { auto it = p.find(q.first); sub = sub && it != p.end() && it->second == q.second; } if (sub) report("acceptance", anchor, "missed", kind == 's' ? "a node within the radius is not reported on some path" : "a node closer than the closest so far is not accepted on some path"); }
      if (f.overflow) { C.R.broken.push_back("too many paths in " + nm); return; }
    }
    C.R.counts["traversals"]++; C.R.sets["traversals"].insert(nm + (kind == 'c' ? " (closest)" : kind == 's' ? " (range)" : kind == 't' ? " (spoke)" : " (order)"));
    int pick = 0; bool ok0 = outs[0].f.empty(), ok1 = kind != 'o' && outs[1].f.empty();
    if (kind == 'o') { for (auto &x : outs[0].f) C.R.add(x); C.R.counts["paths"] += outs[0].paths; return; }
    if (ok0) pick = 0; else if (ok1) pick = 1; else {
      // prefer the orientation that the names of the arrays say, for the report
      pick = outs[0].f.size() <= outs[1].f.size() ? 0 : 1; std::string n1 = baseName(f, baseVal[b1]); if (has(n1, "right") || has(n1, "Right")) pick = 0; else if (has(n1, "left") || has(n1, "Left")) pick = 1;
      for (auto &x : outs[pick].f) C.R.add(x);
    }
    C.R.counts["paths"] += outs[pick].paths; C.R.counts["pruning_proofs"] += outs[pick].proofs;
    std::string Rb = pick ? b2 : b1, Lb = pick ? b1 : b2;
    auto lab = [&](const std::string &b, char c) {
      const Value *V = baseVal[b]; if (auto *A = dyn_cast<Argument>(V)) { argLabel[&F][A->getArgNo()] = c; return; }
      auto it = fieldLabel.find(b); if (it == fieldLabel.end()) fieldLabel[b] = c; else if (it->second != c && (ok0 || ok1)) bad("orientation", anchor, nm + "|orient", "this search takes '" + baseName(f, V) + "' for the " + (c == 'R' ? "upper" : "lower") + " half, other code for the other half");
    };
    if (ok0 || ok1) { lab(Rb, 'R'); lab(Lb, 'L'); }
    // points and tree are read only
    for (auto &m : MS.mod[&F]) if (has(m, "_points") || has(m, "_tree_") || has(m, "._num_points")) if (!has(m, "_points_in")) bad("read-only", anchor, nm + "|writes:" + m, "the search modifies " + m);
  }
  std::map<std::string, LinD> accR;
  std::string baseName(Fn &f, const Value *V) { if (auto *A = dyn_cast<Argument>(V)) return varName(A, &f.F); if (auto *L = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GEPOperator>(L->getPointerOperand())) return fieldOf(G, f.M); return f.key(V); }
  const Instruction *lastCond(St &s, const Instruction *dflt) { for (auto it = s.conds.rbegin(); it != s.conds.rend(); ++it) if (isa<FCmpInst>(it->first)) return cast<Instruction>(it->first); return dflt; }

  // --- insertion -------------------------------------------------------------
  void inserter(Function &F) {
    Fn f(F); std::string nm = shortName(&F);
    // the descending pointer: a loop phi `par` that is followed through base[par]
    for (auto *L : f.LI.getLoopsInPreorder()) for (auto &ph : L->getHeader()->phis()) {
      if (!ph.getType()->isIntegerTy(64)) continue;
      std::string pk = f.key(&ph); std::map<std::string, const Value *> bases; 
      for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (L->contains(S->getParent()) || true) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph && S->getValueOperand()->getType()->isIntegerTy(64)) bases[f.key(G->getPointerOperand())] = G->getPointerOperand();
      if (bases.empty()) continue;
      std::set<const Value *> split; for (bool more = true; more;) { more = false; for (auto it = bases.begin(); it != bases.end(); ++it) { std::vector<const Value *> in; const Value *src = it->second; bool ld = false; if (auto *Z = dyn_cast<LoadInst>(src); Z && (isa<PHINode>(Z->getPointerOperand()) || isa<SelectInst>(Z->getPointerOperand()))) { src = Z->getPointerOperand(); ld = true; } if (auto *P = dyn_cast<PHINode>(src)) for (auto &x : P->incoming_values()) in.push_back(x); else if (auto *S = dyn_cast<SelectInst>(src)) in = {S->getTrueValue(), S->getFalseValue()}; if (in.empty()) continue; bool again = !split.insert(it->second).second; bases.erase(it); if (again) { more = true; break; } for (auto *x : in) bases[ld ? "*(" + f.addr(x) + ")" : f.key(x)] = x; more = true; break; } if (bases.size() > 8) break; }
      bool follows = false; { std::vector<const Value *> w; std::set<const Value *> sn; for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (L->contains(ph.getIncomingBlock(i))) w.push_back(ph.getIncomingValue(i));
        while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (!sn.insert(V).second) continue; if (auto *P = dyn_cast<PHINode>(V); P && P != &ph) for (auto &x : P->incoming_values()) w.push_back(x); if (auto *S = dyn_cast<SelectInst>(V)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); } if (auto *Ld = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GetElementPtrInst>(Ld->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph) follows = true; } }
      if (0) for (auto &I : instructions(F)) if (auto *Ld = dyn_cast<LoadInst>(&I)) if (auto *G = dyn_cast<GetElementPtrInst>(Ld->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph && Ld->getType()->isIntegerTy(64)) follows = true;
      if (!follows) continue;
      kindOf[&F] = 'i'; C.R.counts["inserters"]++; C.R.sets["inserters"].insert(nm);
      if (bases.size() != 2) { bad("insertion", &ph, nm + "|bases", "the insertion stores into " + std::to_string(bases.size()) + " child arrays, not both"); return; }
      // dimension phi of the same loop: starts at 0, advances by one, wraps
      const PHINode *dim = nullptr; std::string nd;
      for (auto &q : L->getHeader()->phis()) if (&q != &ph && q.getType()->isIntegerTy(64)) {
        bool z = false, st = false; for (unsigned i = 0; i < q.getNumIncomingValues(); i++) { auto *V = q.getIncomingValue(i); if (!L->contains(q.getIncomingBlock(i))) { auto *K = dyn_cast<ConstantInt>(V); z = K && K->isZero(); } else {
            std::string n; auto *X = wrapped(f, V, n); auto *B = dyn_cast_or_null<BinaryOperator>(X); auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; st = B && B->getOpcode() == Instruction::Add && K && K->isOne() && B->getOperand(0) == &q; nd = n; } }

        bool idx = false; for (auto &I : instructions(F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I)) for (auto &x : G->indices()) { std::map<std::string, long> t; f.terms(x, 1, t, 0); if (t.count(f.key(&q))) idx = true; }
        if (idx) { dim = &q; if (!z || !st || nd.empty() || isdigit(nd[0])) bad("dimension", &q, nm + "|dim", "the splitting dimension of the insertion does not cycle through 0 .. number of dimensions - 1"); }
      }
      if (!dim) { bad("dimension", &ph, nm + "|nodim", "the insertion does not select the coordinate by the depth of the node"); return; }
      // where the descent starts
      for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (!L->contains(ph.getIncomingBlock(i))) { auto *V = ph.getIncomingValue(i); if (auto *A = dyn_cast<Argument>(V)) argLabel[&F][A->getArgNo()] = 'O'; else { auto k = f.key(V); if (fieldLabel.count(k) == 0 && has(k, "F.")) fieldLabel[k] = 'O'; else if (!has(k, "F.")) bad("insertion", &ph, nm + "|origin", "the insertion does not start at the root of the tree"); } }
      // the inserted seed
      std::string dk = f.key(dim); std::map<std::string, char> label; std::set<std::string> once; std::string seed;
      for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph) { std::string k = f.key(S->getValueOperand()); if (seed.empty()) seed = k; else if (seed != k) bad("insertion", S, nm + "|seed", "different points are linked on the two sides"); }
      if (seed.size() > 1 && seed[0] == 'a' && isdigit(seed[1])) insSeed[&F] = atoi(seed.c_str() + 1);
      std::string sc, pc; // coordinate atoms
      for (auto &I : instructions(F)) if (auto *Ld = dyn_cast<LoadInst>(&I)) if (Ld->getType()->isDoubleTy()) { std::string k = f.key(Ld); if (!has(k, dk)) continue; if (has(k, pk)) pc = k; else if (has(k, seed)) sc = k; }
      if (sc.empty() || pc.empty()) { bad("insertion", &ph, nm + "|cmp", "the insertion does not compare the coordinates of the new point and the node"); return; }
      auto side = [&](St &s, const std::string &b, const Instruction *I) {
        LinD df = LinD::A(sc).add(LinD::A(pc), -1); bool ge = entails(s.cons, df), le = entails(s.cons, df.scale(-1)); char c = ge && !le ? 'R' : le && !ge ? 'L' : '?';
        if (c == '?') { if (once.insert("u" + b).second) bad("insertion", I, nm + "|side:" + b, "the side on which the point is linked does not follow from comparing its coordinate with the node's"); return; }
        auto it = label.find(b); if (it == label.end()) label[b] = c; else if (it->second != c && once.insert("c" + b).second) bad("insertion", I, nm + "|both:" + b, "the same child array is used for smaller and for larger coordinates");
      };
      auto fact = [&](St &s, const std::string &b, bool want) { std::string x = LinD::A("*(" + b + "[" + pk + "])").str(), y = LinD::A(pk).str(); if (y < x) std::swap(x, y); auto it = s.facts.find(x + "==" + y); return it != s.facts.end() && it->second == want; };
      long linked = 0;
      f.onInst = [&](St &s, const Instruction *I) {
        if (auto *S = dyn_cast<StoreInst>(I)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph) { std::string b = f.baseKey(s, G->getPointerOperand()); linked++; side(s, b, I); if (!fact(s, b, true) && once.insert("o" + b).second) bad("insertion", I, nm + "|overwrite:" + b, "a child is linked without knowing that the place is free: a subtree would be lost"); }
      };
      f.onEdge = [&](St &s, const BasicBlock *from, const BasicBlock *to) {
        if (to != L->getHeader() || !L->contains(from)) return;
        const Value *V = ph.getIncomingValueForBlock(from); LinD n = f.val(s, V); std::string a; double k;
        bool okk = n.single(a, k) && k == 1; std::string b; for (auto &q : bases) if (okk && a == "*(" + q.first + "[" + pk + "])") b = q.first;
        if (b.empty()) { if (once.insert("f").second) bad("insertion", from->getTerminator(), nm + "|follow", "the insertion does not go on at a child of the node"); return; }
        side(s, b, from->getTerminator());
        if (!fact(s, b, false) && once.insert("s" + b).second) bad("insertion", from->getTerminator(), nm + "|sentinel:" + b, "the insertion follows a child without knowing that there is one");
      };
      f.onReturn = [&](St &s, const Instruction *R) { int n = 0; for (auto &e : s.ev) if (e.kind == 'A' && e.b == seed && has(e.a, pk)) n++; if (n != 1 && once.insert("n").second) bad("insertion", R, nm + "|linked", "a path links the new point " + std::to_string(n) + " times instead of once"); };
      St s0; f.walk(s0); if (f.overflow) C.R.broken.push_back("too many paths in " + nm);
      C.R.counts["link_sites"] += linked;
      for (auto &p : label) { const Value *V = bases.count(p.first) ? bases[p.first] : nullptr; if (!V) continue; if (auto *A = dyn_cast<Argument>(V)) argLabel[&F][A->getArgNo()] = p.second; else fieldLabel[p.first] = p.second; }
      if (label.size() == 2 && label.begin()->second == label.rbegin()->second) bad("insertion", &ph, nm + "|same", "both child arrays are used for the same side");
      return;
    }
  }
  // --- balanced construction -------------------------------------------------
  static bool intGE(const std::vector<Con> &cs, LinD goal) { if (!goal.ok) return false; std::vector<Con> q = cs; Con n; n.e = goal.scale(-1); n.e.c -= 1; q.push_back(n); return refute(q); } // over the integers
  static bool intEQ(const std::vector<Con> &cs, const LinD &a, const LinD &b) { LinD d = a.add(b, -1); return (d.t.empty() && d.ok && d.c == 0) || (intGE(cs, d) && intGE(cs, d.scale(-1))); }
  // a function that only exchanges elements of the array in argument i
  bool permutes(const Function *H, unsigned i, const Instruction *&why, int depth = 0) {
    if (H->isDeclaration() || depth > 3) { why = nullptr; return H->hasFnAttribute(Attribute::ReadOnly); }
    Fn f(*const_cast<Function *>(H)); std::map<const BasicBlock *, std::vector<const StoreInst *>> st;
    for (auto &I : instructions(*H)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getPointerOperand() == H->getArg(i)) st[S->getParent()].push_back(S);
      if (auto *CB = dyn_cast<CallBase>(&I)) { auto *K = calleeOf(CB); if (!K || K == H) continue; for (unsigned a = 0; a < CB->arg_size(); a++) if (CB->getArgOperand(a) == H->getArg(i)) { const Instruction *w = nullptr; if (!K->isIntrinsic() && !permutes(K, a, w, depth + 1)) { why = w ? w : CB; return false; } }
        bool el = false; for (auto &A : CB->args()) if (auto *G = dyn_cast<GetElementPtrInst>(A)) el |= G->getPointerOperand() == H->getArg(i);
        if (el && !has(demangled(K), "swap")) { why = CB; return false; } }
    }
    for (auto &b : st) {
      if (b.second.size() != 2) { why = b.second[0]; return false; }
      auto *s1 = b.second[0], *s2 = b.second[1]; std::string a1 = f.addr(s1->getPointerOperand()), a2 = f.addr(s2->getPointerOperand());
      auto ok = [&](const StoreInst *s, const std::string &from) { auto *L = dyn_cast<LoadInst>(s->getValueOperand()); return L && L->getParent() == s->getParent() && L->comesBefore(s1) && f.addr(L->getPointerOperand()) == from; };
      if (!ok(s1, a2) || !ok(s2, a1)) { why = s1; return false; }
    }
    return true;
  }
  bool isBuilder(Function &F) { bool self = false, ins = false; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (H == &F) self = true; if (H && insSeed.count(H)) ins = true; } return self && ins; }
  void builder(Function &F) {
    Fn f(F); std::string nm = shortName(&F); kindOf[&F] = 'b'; const Instruction *anchor = &F.getEntryBlock().front(); std::set<std::string> once;
    auto rep = [&](const char *rule, const Instruction *I, const std::string &k, const std::string &m) { if (once.insert(k).second) bad(rule, I, nm + "|" + k, m); };
    C.R.counts["builders"]++; C.R.sets["builders"].insert(nm);
    // the array of positions, and the position that becomes the node
    auto elem = [&](const Value *V, int &S, const Value *&idx) { auto *L = dyn_cast<LoadInst>(V); auto *G = L ? dyn_cast<GetElementPtrInst>(L->getPointerOperand()) : nullptr; if (!G || G->getNumIndices() != 1) return false; auto *A = dyn_cast<Argument>(G->getPointerOperand()); if (!A) return false; S = A->getArgNo(); idx = G->getOperand(1); return true; };
    int S = -1, T = -1; std::string org, empty;
    for (auto &I : instructions(F)) if (auto *St_ = dyn_cast<StoreInst>(&I)) { int a; const Value *ix; if (St_->getValueOperand()->getType()->isIntegerTy(64) && elem(St_->getValueOperand(), a, ix)) if (auto *A = dyn_cast<Argument>(ix)) { S = a; T = A->getArgNo(); org = f.addr(St_->getPointerOperand()); } }
    if (S < 0) { rep("construction", anchor, "root", "the construction never makes the middle point the root of an empty tree"); return; }
    for (auto &I : instructions(F)) if (auto *Cm = dyn_cast<ICmpInst>(&I); Cm && Cm->isEquality()) for (int k = 0; k < 2; k++) if (f.key(Cm->getOperand(k)) == "*(" + org + ")") empty = f.key(Cm->getOperand(1 - k));
    if (empty.empty()) { rep("construction", anchor, "empty", "the construction does not test whether the tree is empty before it links a point"); return; }
    emptyOrigin[&F] = empty;
    // lower and upper end of the range: the arguments that the recursion moves to a neighbour of the middle
    int lo = -1, hi = -1; std::string tA = "a" + std::to_string(T); std::set<int> vary;
    f.onReturn = [&](St &s, const Instruction *) {
      for (auto &e : s.ev) if (e.kind == 'D') for (unsigned i = 0; i < e.args.size(); i++) { if ((int)i == T || (int)i == S || !F.getArg(i)->getType()->isIntegerTy(64)) continue; auto &v = e.args[i]; if (v.t.size() == 1 && v.t.count(tA) && v.t.at(tA) == 1) { vary.insert(i); if (v.c > 0) lo = i; if (v.c < 0) hi = i; } }
    };
    { St s0; f.walk(s0); if (f.overflow) { C.R.broken.push_back("too many paths in " + nm); return; } }
    if (lo < 0 || hi < 0) for (int v : vary) { if (v == lo || v == hi) continue; if (lo < 0) lo = v; else if (hi < 0) hi = v; }
    if (lo < 0 || hi < 0 || lo == hi) { rep("construction", anchor, "halves", "the construction does not recurse into the points on both sides of the middle"); return; }
    builds[&F] = {S, T, lo, hi};
    LinD L = LinD::A("a" + std::to_string(lo)), H = LinD::A("a" + std::to_string(hi)), Tv = LinD::A(tA);
    f.onInst = [&](St &s, const Instruction *I) {
      const Value *V = nullptr; if (auto *St_ = dyn_cast<StoreInst>(I)) { if (f.addr(St_->getPointerOperand()) == org) V = St_->getValueOperand(); } else if (auto *CB = dyn_cast<CallBase>(I)) { auto *K = calleeOf(CB); auto it = K ? insSeed.find(K) : insSeed.end(); if (it != insSeed.end() && it->second < (int)CB->arg_size()) V = CB->getArgOperand(it->second); }
      if (!V) return; int a; const Value *ix; Ev e{'P', I, "", "", LinD()}; if (elem(V, a, ix) && a == S) e.v = f.val(s, ix); else e.v.ok = false;
      bool isStore = isa<StoreInst>(I); std::string x = LinD::A("*(" + org + ")").str(), y; for (auto &q : s.facts) if (has(q.first, "*(" + org + ")")) { e.a = q.second ? "empty" : "filled"; } e.b = isStore ? "root" : "link"; s.ev.push_back(e);
    };
    f.states = 0; f.onReturn = [&](St &s, const Instruction *R) {
      C.R.counts["construction_paths"]++;
      std::vector<Con> cs = s.cons; cs.push_back({Tv.add(L, -1)}); cs.push_back({H.add(Tv, -1)}); cs.push_back({L});
      int mid = 0, left = 0, right = 0;
      for (auto &e : s.ev) {
        if (e.kind == 'P') {
          if (e.b == "root" && e.a != "empty") rep("construction", e.I, "reroot", "the root is replaced without knowing that the tree is empty: what was linked before is lost");
          if (!e.v.ok) { rep("construction", e.I, "foreign", "a point that is not one of the sorted positions is linked"); continue; }
          if (intEQ(cs, e.v, Tv)) mid++; else if (intEQ(cs, e.v, L) && intEQ(cs, Tv, L.add(LinD::K(1), 1))) left++; else if (intEQ(cs, e.v, H) && intEQ(cs, Tv, H.add(LinD::K(1), -1))) right++;
          else rep("construction", e.I, "single", "the position linked here is not known to be the only one left on its side");
        } else if (e.kind == 'D') {
          auto &a = e.args[lo], &b = e.args[hi], &t = e.args[T];
          bool isL = intEQ(cs, a, L) && intEQ(cs, b, Tv.add(LinD::K(1), -1)), isR = intEQ(cs, b, H) && intEQ(cs, a, Tv.add(LinD::K(1), 1));
          if (isL) left++; else if (isR) right++; else { rep("construction", e.I, "range", "the recursion does not cover exactly the positions on one side of the middle"); continue; }
          if (!intGE(cs, t.add(a, -1)) || !intGE(cs, b.add(t, -1))) rep("construction", e.I, "middle", "the middle passed to the recursion is not known to lie in its range");
        }
      }
      if (!left && intGE(cs, L.add(Tv, -1))) left = 1; if (!right && intGE(cs, Tv.add(H, -1))) right = 1;
      if (mid != 1) rep("construction", R, "mid", "a path links the middle position " + std::to_string(mid) + " times instead of once");
      if (left != 1) rep("construction", R, "left", "a path covers the positions before the middle " + std::to_string(left) + " times instead of once");
      if (right != 1) rep("construction", R, "right", "a path covers the positions after the middle " + std::to_string(right) + " times instead of once");
    };
    { St s0; f.walk(s0); if (f.overflow) C.R.broken.push_back("too many paths in " + nm); }
    // what else sees the array of positions
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *K = calleeOf(CB); K && K != &F) for (unsigned a = 0; a < CB->arg_size(); a++) if (CB->getArgOperand(a) == F.getArg(S)) { const Instruction *w = nullptr; C.R.counts["permuting_functions"]++; if (!permutes(K, a, w)) rep("construction", w ? w : CB, "permute", shortName(K) + " does more to the positions than exchange them: points may be lost or linked twice"); }
    // the origin is the location the inserter starts from
    if (org.size() > 1 && org[0] == 'a' && isdigit(org[1])) argLabel[&F][atoi(org.c_str() + 1)] = 'O';
    else { auto it = fieldLabel.find("*(" + org + ")"); if (it == fieldLabel.end()) fieldLabel["*(" + org + ")"] = 'O'; else if (it->second != 'O') rep("orientation", anchor, "origin", "the root is stored to " + org + ", which is used as a child array elsewhere"); }
  }
  // --- callers ---------------------------------------------------------------
  std::map<const Function *, std::unique_ptr<Fn>> fcache;
  Fn &fn(const Function *F) { auto &p = fcache[F]; if (!p) p = std::make_unique<Fn>(*const_cast<Function *>(F)); return *p; }
  // does `for (i = 0; i < n; i++) X[i] = i` run before I?  n is returned
  std::map<std::string, std::string> identities(Fn &f, const Instruction *I) {
    std::map<std::string, std::string> r;
    for (auto *L : f.LI.getLoopsInPreorder()) for (auto &ph : L->getHeader()->phis()) if (f.iv(&ph)) {
      if (!f.DT.dominates(L->getHeader(), I->getParent()) || L->contains(I->getParent())) continue; auto *latch = L->getLoopLatch(); if (!latch) continue; std::string n = f.boundOf(L, &ph); if (n.empty()) continue;
      for (auto *B : L->blocks()) if (f.DT.dominates(B, latch) && f.LI.getLoopFor(B) == L) for (auto &J : *B) if (auto *S = dyn_cast<StoreInst>(&J)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == &ph && S->getValueOperand() == &ph) r[canon(f, G->getPointerOperand())] = n;
    }
    // the same counting down: while (k > 0) { k--; a[k] = k; }
    for (auto *L : f.LI.getLoopsInPreorder()) { if (!f.DT.dominates(L->getHeader(), I->getParent()) || L->contains(I->getParent())) continue; auto *latch = L->getLoopLatch(); auto *Br = dyn_cast<BranchInst>(L->getHeader()->getTerminator()); if (!latch || !Br || !Br->isConditional()) continue;
      for (auto &ph : L->getHeader()->phis()) { if (!ph.getType()->isIntegerTy() || ph.getNumIncomingValues() != 2) continue; const Value *init = nullptr, *step = nullptr; for (unsigned i = 0; i < 2; i++) (L->contains(ph.getIncomingBlock(i)) ? step : init) = ph.getIncomingValue(i);
        auto *B = dyn_cast_or_null<BinaryOperator>(step); auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; if (!init || !B || !K || B->getOperand(0) != &ph || !((B->getOpcode() == Instruction::Sub && K->isOne()) || (B->getOpcode() == Instruction::Add && K->isMinusOne()))) continue;
        auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); auto *Z = Cm ? dyn_cast<ConstantInt>(Cm->getOperand(1)) : nullptr; bool in0 = L->contains(Br->getSuccessor(0));
        bool post = false; if (Cm && Z && Z->isZero() && Cm->getOperand(0) == &ph) { auto p = in0 ? Cm->getPredicate() : Cm->getInversePredicate(); post = p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_NE; }
        if (!post) continue; int exits = 0; for (auto *X : L->blocks()) for (auto *N : successors(X)) exits += !L->contains(N); if (exits != 1) continue; std::string n = f.key(init);
        for (auto *X : L->blocks()) if (f.DT.dominates(X, latch) && f.LI.getLoopFor(X) == L) for (auto &J : *X) if (auto *S = dyn_cast<StoreInst>(&J)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && G->getOperand(1) == step && S->getValueOperand() == step) r[canon(f, G->getPointerOperand())] = n; } }
    return r;
  }
  // canonical name of an array or location seen through phis with "not allocated"
  std::string canon(Fn &f, const Value *V) {
    std::set<const Value *> sn; std::vector<const Value *> w{V}; std::set<std::string> r;
    while (!w.empty()) { auto *x = w.back()->stripPointerCasts(); w.pop_back(); if (!sn.insert(x).second) continue; if (auto *P = dyn_cast<PHINode>(x)) { for (auto &y : P->incoming_values()) w.push_back(y); continue; } if (auto *S = dyn_cast<SelectInst>(x)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); continue; } if (isa<ConstantPointerNull>(x) || isa<UndefValue>(x)) continue; r.insert(f.key(x)); }
    std::string s; for (auto &x : r) s += (s.empty() ? "" : "/") + x; return s;
  }
  // the name of a value in the function that started the parallel region it is used in
  std::string outer(const Function *F, const Value *A, const Function *&top) {
    Fn &f = fn(F); std::string k = canon(f, A); top = F;
    const CallBase *fork = nullptr; for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (auto *H = calleeOf(CB); H && H->getName() == "__kmpc_fork_call") fork = CB;
    if (!fork) return k;
    const Function *P = fork->getFunction(); std::string r; for (size_t i = 0; i < k.size();) {
      if (k[i] == 'a' && i + 1 < k.size() && isdigit(k[i + 1]) && (i == 0 || !isalnum(k[i - 1]))) { size_t j = i + 1; while (j < k.size() && isdigit(k[j])) j++; unsigned n = atoi(k.c_str() + i + 1); if (n >= 2 && n + 1 < fork->arg_size()) { const Function *t2; r += outer(P, fork->getArgOperand(n + 1), t2); top = t2; } else r += F->getName().str() + k.substr(i, j - i); i = j; continue; }
      if (k[i] == '%') r += F->getName().str(); r += k[i++]; }
    if (top == F) top = P; return r;
  }
  void callers() {
    std::map<const Function *, std::map<std::string, std::set<char>>> local; // labels of local arrays and variables
    std::map<const Function *, std::map<std::string, const Instruction *>> at;
    // labels flow from callee parameters to what is passed
    bool ch = true; std::set<std::string> once;
    while (ch) { ch = false;
      for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *H = calleeOf(CB); if (!H) continue; auto it = argLabel.find(H); std::map<unsigned, char> lab; if (it != argLabel.end()) lab = it->second;
        auto nd = nodeDim.find(H); if (nd != nodeDim.end() && H != &F && nd->second.first >= 0) lab[nd->second.first] = 'O';
        if (H == &F && nd != nodeDim.end()) lab.erase(nd->second.first);
        for (auto &l : lab) if (l.first < CB->arg_size()) {
          const Value *A = CB->getArgOperand(l.first); Fn &f = fn(&F); if (auto *Ld = dyn_cast<LoadInst>(A)) if (isa<AllocaInst>(Ld->getPointerOperand()) || (isa<Argument>(Ld->getPointerOperand()) && l.second == 'O')) A = Ld->getPointerOperand();
          if (auto *P = dyn_cast<Argument>(A)) { auto &x = argLabel[&F][P->getArgNo()]; if (!x) { x = l.second; ch = true; } else if (x != l.second && once.insert(shortName(&F) + "|arg" + std::to_string(P->getArgNo())).second) bad("orientation", CB, shortName(&F) + "|arg|" + varName(P, &F), "'" + varName(P, &F) + "' is passed as " + nameOf(l.second) + " here and used as " + nameOf(x) + " elsewhere"); continue; }
          std::string k = canon(f, A); if (auto *Ld = dyn_cast<LoadInst>(A); Ld && has(k, "F.")) { auto fl = fieldLabel.find(k); if (fl == fieldLabel.end()) { fieldLabel[k] = l.second; ch = true; } else if (fl->second != l.second && once.insert(shortName(&F) + "|" + k).second) bad("orientation", CB, shortName(&F) + "|" + k, describe(A) + " is passed as " + nameOf(l.second) + " here and used as " + nameOf(fl->second) + " elsewhere"); continue; }
          if (isa<ConstantPointerNull>(A) || k.empty()) { if (once.insert(shortName(&F) + where(CB)).second) bad("orientation", CB, shortName(&F) + "|null", "no array is passed as " + nameOf(l.second)); continue; }
          if (local[&F][k].insert(l.second).second) { ch = true; if (local[&F][k].size() > 1 && once.insert(shortName(&F) + "|" + k).second) bad("orientation", CB, shortName(&F) + "|local|" + describe(A), "'" + (varName(A, &F).empty() ? describe(A) : varName(A, &F)) + "' is passed as " + nameOf(l.second) + " here but as something else in another call"); }
        }
      }
    }
    // arrays that belong together: root, upper and lower children; code of parallel regions is seen with its function's names
    std::map<const Function *, std::map<std::string, std::string>> mates[3]; static const char *what[] = {"array of lower children", "root", "array of upper children"};
    for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(CB); auto it = H ? argLabel.find(H) : argLabel.end(); if (it == argLabel.end() || H == &F) continue; std::string t[3]; const Function *top = &F;
      for (auto &l : it->second) if (l.first < CB->arg_size()) { const Value *A = CB->getArgOperand(l.first); if (l.second == 'O') if (auto *Ld = dyn_cast<LoadInst>(A)) if (isa<AllocaInst>(Ld->getPointerOperand()) || isa<Argument>(Ld->getPointerOperand())) A = Ld->getPointerOperand(); int ix = l.second == 'R' ? 0 : l.second == 'L' ? 1 : 2; std::string k = outer(&F, A, top); if (l.second == 'O' && !t[ix].empty() && t[ix] != k) bad("coherence", CB, shortName(&F) + "|" + shortName(H) + "|roots", "two different roots are passed to one search"); t[ix] = k; }
      if (t[0].empty() || t[1].empty()) continue; C.R.counts["tree_uses"]++;
      auto pair = [&](int k, const std::string &a, const std::string &b) { if (b.empty()) return; auto &m = mates[k][top]; auto x = m.find(a); if (x == m.end()) m[a] = b; else if (x->second != b) bad("coherence", CB, shortName(&F) + "|" + shortName(H) + "|" + what[k], std::string("the ") + what[k] + " passed here does not belong to the tree that the other arguments describe"); };
      pair(0, t[0], t[1]); pair(1, t[0], t[2]); pair(2, t[1], t[0]);
    }
    for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration()) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(CB); if (!H || H == &F) continue; Fn &f = fn(&F);
      if (auto nd = nodeDim.find(H); nd != nodeDim.end() && kindOf[H] != 'b') {
        C.R.counts["query_entries"]++;
        if (nd->second.second >= 0) { auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(nd->second.second)); if (!K || !K->isZero()) bad("entry", CB, shortName(&F) + "|" + shortName(H) + "|dim0", "the search does not start with the first dimension, the one by which the root splits"); }
        // the root: labelled O by construction or insertion
        const Value *A = CB->getArgOperand(nd->second.first); bool ok = false; if (auto *Ld = dyn_cast<LoadInst>(A)) { std::string k = f.key(A); auto fl = fieldLabel.find(k); ok = (fl != fieldLabel.end() && fl->second == 'O') || isa<AllocaInst>(Ld->getPointerOperand()) || isa<Argument>(Ld->getPointerOperand()); } else ok = isa<Argument>(A);
        if (!ok) bad("entry", CB, shortName(&F) + "|" + shortName(H) + "|root", "the search does not start at the root of the tree");
        if (!nonEmpty(F, CB)) bad("empty", CB, shortName(&F) + "|" + shortName(H) + "|empty", "a tree without points is searched here: its root does not exist");
        if (kindOf[H] == 't') { // the distance from the spoke's origin to its seed
          bool okd = false; for (auto &U : CB->args()) if (U->getType()->isDoubleTy()) { const Value *V = U; auto *Cl = dyn_cast<CallBase>(V); auto *G = Cl ? calleeOf(Cl) : nullptr; if (G && (G->getName() == "sqrt" || G->getName().starts_with("llvm.sqrt"))) { std::string a, b, bd; if (auto *ph = dyn_cast<PHINode>(Cl->getArgOperand(0))) if (f.squareSum(ph, a, b, bd)) { std::set<std::string> want; for (auto &W : CB->args()) if (W->getType()->isPointerTy()) want.insert("*(" + f.key(W) + "[@])"); okd = want.count(a) && want.count(b) && a != b && has(bd, "_num_dim"); } } else if (G && isDistance(G)) okd = true; }
          if (!okd) bad("entry", CB, shortName(&F) + "|" + shortName(H) + "|origin-distance", "the distance passed as that from the spoke's origin to its seed is not that distance");
        }
      }
      if (auto b = builds.find(H); b != builds.end()) {
        C.R.counts["build_entries"]++; if (!nonEmpty(F, CB)) bad("empty", CB, shortName(&F) + "|" + shortName(H) + "|empty", "a tree is built from no points here: 'number of points - 1' wraps around"); auto id = identities(f, CB); auto &B = b->second; std::string sk = canon(f, CB->getArgOperand(B.S)); std::string n = id.count(sk) ? id[sk] : "";
        if (n.empty()) { bad("construction", CB, shortName(&F) + "|sorted", "the positions are not initialised to 0 .. number of points - 1 before the construction"); continue; }
        auto *lo = dyn_cast<ConstantInt>(CB->getArgOperand(B.lo)); std::map<std::string, long> t; f.terms(CB->getArgOperand(B.hi), 1, t, 0); bool okh = t.size() == 2 && t["1"] == -1 && t.count(n) && t[n] == 1;
        if (!lo || !lo->isZero() || !okh) bad("construction", CB, shortName(&F) + "|whole", "the construction does not start with the whole range of points");
        for (char c : {'R', 'L'}) { bool ok = false; std::string nmx; auto al = argLabel.find(H); if (al != argLabel.end()) for (auto &l : al->second) if (l.second == c) { auto k = canon(f, CB->getArgOperand(l.first)); ok = ok || (id.count(k) && id[k] == n); } for (auto &fl : fieldLabel) if (fl.second == c && id.count(fl.first) && id[fl.first] == n) ok = true; if (!ok) bad("construction", CB, shortName(&F) + "|sentinel" + c, std::string("the ") + nameOf(c) + " is not reset to 'no child' (own index) for every point before the construction"); }
        bool ok = false; for (auto &J : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&J)) { std::string a = f.addr(S->getPointerOperand()); bool org = fieldLabel.count("*(" + a + ")") && fieldLabel["*(" + a + ")"] == 'O'; if (auto *A = dyn_cast<Argument>(S->getPointerOperand())) org = org || argLabel[&F][A->getArgNo()] == 'O'; if (!org) for (auto &l : argLabel[H]) if (l.second == 'O' && CB->getArgOperand(l.first) == S->getPointerOperand()) org = true;
          if (org && f.DT.dominates(S, CB) && f.key(S->getValueOperand()) == emptyOrigin[H]) ok = true; }
        if (!ok) bad("construction", CB, shortName(&F) + "|empty", "the tree is not marked empty, with the value that the construction tests for, before the construction");
      }
      if (auto is = insSeed.find(H); is != insSeed.end() && kindOf[&F] != 'b') { // single insertion: the new point has no children yet
        C.R.counts["insert_entries"]++; if (!nonEmpty(F, CB)) bad("empty", CB, shortName(&F) + "|" + shortName(H) + "|empty", "a point is linked below the root of a tree that may have none"); std::string sk = f.key(CB->getArgOperand(is->second)); std::set<char> got;
        for (auto &J : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&J); S && f.DT.dominates(S, CB)) if (auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); G && G->getNumIndices() == 1 && f.key(G->getOperand(1)) == sk && f.key(S->getValueOperand()) == sk) { auto k = f.key(G->getPointerOperand()); if (fieldLabel.count(k)) got.insert(fieldLabel[k]); if (auto *A = dyn_cast<Argument>(G->getPointerOperand())) got.insert(argLabel[&F][A->getArgNo()]); }
        for (char c : {'R', 'L'}) if (!got.count(c)) bad("insertion", CB, shortName(&F) + "|sentinel" + c, std::string("the ") + nameOf(c) + " of the new point is not set to 'no child' before it is linked");
      }
    }
  }
  bool nonEmpty(Function &F, const CallBase *CB) {
    Facts FT(F, MS); C.R.counts["emptiness_proofs"]++;
    for (auto &A : F.args()) if (A.getType()->isIntegerTy(64) && FT.nonZero(&A, CB)) return true;
    for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isIntegerTy(64)) if (auto *G = dyn_cast<GEPOperator>(L->getPointerOperand())) if (has(fieldOf(G, C.M), "num_") && FT.nonZero(L, CB)) return true;
    for (auto &I : instructions(F)) if (auto *K = dyn_cast<CallBase>(&I)) if (K->getType()->isIntegerTy(64) && FT.nonZero(K, CB)) return true;
    return false;
  }
  // executed at most once per run of the loop around it: behind counter == constant
  bool oncePerLoop(Fn &f, const Instruction *I) {
    auto *L = f.LI.getLoopFor(I->getParent()); if (!L) return false;
    for (auto *N = f.DT[I->getParent()]; N && N->getIDom(); N = N->getIDom()) { auto *D = N->getIDom()->getBlock(); if (!L->contains(D)) break; auto *Br = dyn_cast<BranchInst>(D->getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm || !Cm->isEquality() || !isa<ConstantInt>(Cm->getOperand(1))) continue;
      auto *S = Br->getSuccessor(Cm->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1); if (!S->getSinglePredecessor() || !f.DT.dominates(S, I->getParent())) continue;
      auto inc = [&](const Value *V, const PHINode *P) { auto *B = dyn_cast<BinaryOperator>(V); auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr; return B && B->getOpcode() == Instruction::Add && K && K->isOne() && B->getOperand(0) == P; };
      for (auto &ph : L->getHeader()->phis()) { if (Cm->getOperand(0) != &ph && !inc(Cm->getOperand(0), &ph)) continue; bool ok = true; for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (L->contains(ph.getIncomingBlock(i)) && !inc(ph.getIncomingValue(i), &ph)) ok = false; if (ok) return true; } }
    return false;
  }
  // --- closest queries start from a distance that was set for them -------------
  bool viaTrim(const Function *H, int depth = 0) { auto it = kindOf.find(H); if (it != kindOf.end()) return it->second == 't'; if (depth > 4) return false; for (auto &I : instructions(*H)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(CB); G && G != H && isRepoFunc(G) && !G->isDeclaration()) for (auto &A : CB->args()) if (auto *P = dyn_cast<Argument>(A.get()); P && P->getType()->isPointerTy()) { auto k = kindOf.find(G); if (k != kindOf.end() && k->second == 't' && cellOf[G] == (int)CB->getArgOperandNo(&A)) return true; } return false; }
  void distances() {
    std::map<const Function *, std::set<unsigned>> cell; for (auto &p : cellOf) if (kindOf[p.first] == 'c' || kindOf[p.first] == 't') cell[p.first].insert(p.second);
    bool ch = true; while (ch) { ch = false; for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); auto it = H ? cell.find(H) : cell.end(); if (it == cell.end() || H == &F) continue; for (auto a : std::set<unsigned>(it->second)) if (auto *A = dyn_cast<Argument>(CB->getArgOperand(a))) { bool reset = false; for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A && fn(&F).DT.dominates(S, CB)) reset = true; if (!reset && cell[&F].insert(A->getArgNo()).second) ch = true; } } }
    for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(CB); auto it = H ? cell.find(H) : cell.end(); if (it == cell.end() || H == &F) continue;
      for (auto a : it->second) { const Value *P = CB->getArgOperand(a); if (isa<Argument>(P)) continue; C.R.counts["distance_arguments"]++;
        // backwards to what last wrote the variable
        std::vector<std::pair<const BasicBlock *, const Instruction *>> w{{CB->getParent(), CB}}; std::set<const BasicBlock *> sn; const Instruction *stale = nullptr, *limited = nullptr; bool unset = false;
        while (!w.empty() && !stale && !unset) { auto [B, J] = w.back(); w.pop_back(); bool done = false;
          for (const Instruction *K = J ? J->getPrevNode() : B->getTerminator(); K; K = K->getPrevNode()) {
            if (auto *S = dyn_cast<StoreInst>(K); S && S->getPointerOperand() == P) { auto *K0 = dyn_cast<ConstantFP>(S->getValueOperand()); if (!(K0 && K0->getValueAPF().convertToDouble() > 1e300)) limited = S; done = true; break; }
            if (auto *Q = dyn_cast<CallBase>(K)) { auto *G = calleeOf(Q); bool uses = false; for (auto &U : Q->args()) uses |= U == P; if (uses && !(G && G->isIntrinsic())) { auto gi = G ? cell.find(G) : cell.end(); bool q = false; if (gi != cell.end()) for (auto b : gi->second) q |= Q->getArgOperand(b) == P; if (q) stale = Q; done = true; break; } }
          }
          if (done) continue; if (pred_empty(B)) { unset = true; break; }
          for (auto *N : predecessors(B)) if (sn.insert(N).second) w.push_back({N, nullptr}); }
        std::string nm = varName(P, &F); if (nm.empty()) nm = "the distance";
        if (stale == CB && oncePerLoop(fn(&F), CB)) stale = nullptr;
        if (stale && kindOf[H] != 't') bad("limit", CB, shortName(&F) + "|" + shortName(H) + "|stale|" + nm, "'" + nm + "' still holds the result of an earlier query when this one starts: points farther than that are ignored");
        if (limited && !viaTrim(H)) bad("limit", CB, shortName(&F) + "|" + shortName(H) + "|limited|" + nm, "'" + nm + "' does not start at the largest number: points farther than what it starts with are ignored");
        if (unset) bad("limit", CB, shortName(&F) + "|" + shortName(H) + "|unset|" + nm, "'" + nm + "' is not set on every path to this query");
      }
    }
  }
  static std::string nameOf(char c) { return c == 'R' ? "array of upper children" : c == 'L' ? "array of lower children" : "root"; }
};
} // namespace

void runKdTree(Ctx &C) {
  Kd k(C);
  for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration()) k.inserter(F);
  for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration() && k.classify(F)) k.searcher(F);
  for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration() && k.isBuilder(F)) k.builder(F);
  k.callers(); k.distances();
}
} // namespace vcsa
