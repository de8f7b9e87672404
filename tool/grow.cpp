// Lists that grow: when the number of entries has reached the capacity, every array of the list is replaced by a larger
// one that holds all the entries, the capacity recorded is the one allocated, and no entry is appended in between.
#include "common.h"
#include "lin.h"
#include "llvm/Analysis/PostDominators.h"
namespace vcsa {
namespace {
struct Copy { std::string dst, src; LinD lo, hi, hd, hs; bool known = false, always = true; const Instruction *at = nullptr; };
struct New { const CallBase *at; LinD size; std::string id; bool stored = false; std::string home; };
struct Grow {
  Grow *par = nullptr; const CallBase *fork = nullptr; // the function a parallel region belongs to, and where it is entered
  Ctx &C; Function &F; DominatorTree DT; PostDominatorTree PDT; LoopInfo LI; std::map<const AllocaInst *, const StoreInst *> once; std::map<std::string, std::string> nice;
  Grow(Ctx &C, Function &F) : C(C), F(F), DT(F), PDT(F), LI(DT) {
    std::map<const AllocaInst *, int> n;
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) { const StoreInst *s = nullptr; int k = 0; for (auto *U : A->users()) { if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A) { k++; s = S; } else k += 2; } else if (auto *CB = dyn_cast<CallBase>(U); CB && !isa<DbgInfoIntrinsic>(CB) && !(isa<IntrinsicInst>(CB))) k += 2; } if (k == 1) once[A] = s; }
  }
  // ---- places: what an address denotes
  std::string place(const Value *P, int d = 0) {
    P = P->stripPointerCasts(); char b[40]; if (d > 10) return "";
    if (auto *A = dyn_cast<AllocaInst>(P)) { snprintf(b, sizeof b, "v%p", (const void *)A); nice[b] = varName(A, &F); return b; }
    if (isa<Argument>(P)) { auto s = "p" + std::to_string(cast<Argument>(P)->getArgNo()); nice[s] = varName(P, &F); return s; }
    if (isa<GlobalVariable>(P)) return P->getName().str();
    if (auto *L = dyn_cast<LoadInst>(P)) {
      if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand())) { auto it = once.find(A); if (it != once.end()) { auto *v = it->second->getValueOperand()->stripPointerCasts(); if (isa<Argument>(v) || isa<AllocaInst>(v) || (isa<GEPOperator>(v) && cast<GEPOperator>(v)->getSourceElementType()->isStructTy())) return place(v, d + 1); } }
      auto s = place(L->getPointerOperand(), d + 1); return s.empty() ? "" : "*" + s;
    }
    if (auto *G = dyn_cast<GEPOperator>(P)) {
      auto s = place(G->getPointerOperand(), d + 1); if (s.empty()) return "";
      if (G->getSourceElementType()->isStructTy()) { auto f = fieldOf(G, C.M); s += "." + (f.empty() ? "?" : f.substr(f.rfind('.') + 1)); nice[s] = f.substr(f.rfind('.') + 1); return s; }
      LinD i = value(G->getOperand(G->getNumIndices()), {}, d + 1); if (!i.ok) return ""; auto r = s + "[" + i.str() + "]"; if (!nice[s].empty()) nice[r] = nice[s] + "[..]"; return r;
    }
    return "";
  }
  std::string name(const std::string &p) { auto s = p; if (s.size() && s[0] == '*') s = s.substr(1); auto it = nice.find(s); return it != nice.end() && !it->second.empty() ? it->second : "list"; }
  // products of variables are atoms of their own
  static LinD mul(const LinD &a, const LinD &b) { return polyMul(a, b); }
  static double factor(const LinD &v, const std::string &k) { double r = 0; for (auto &p : v.t) { auto q = "\1" + p.first + "\1"; if (q.find("\1" + k + "\1") != std::string::npos) r = std::max(r, p.second); } return r; }
  // v as a multiple of 'from' (v = from * w): the same multiple of 'to'
  static LinD instead(const LinD &v, const std::string &from, double k, const std::string &to) {
    LinD r, bad; bad.ok = false; if (!v.ok || v.c != 0) return bad;
    for (auto &p : v.t) { std::vector<std::string> f; size_t i = 0; bool done = false; while (true) { auto j = p.first.find('\1', i); auto q = p.first.substr(i, j - i); if (!done && q == from) { done = true; if (!to.empty()) f.push_back(to); } else f.push_back(q); if (j == std::string::npos) break; i = j + 1; } if (!done) return bad; std::sort(f.begin(), f.end()); std::string kk; for (auto &q : f) kk += (kk.empty() ? "" : "\1") + q; r = r.add(kk.empty() ? LinD::K(1) : LinD::A(kk), p.second / k); }
    return r;
  }
  typedef std::map<std::string, LinD> Sigma;
  LinD value(const Value *V, const Sigma &s, int d = 0) {
    LinD bad; bad.ok = false; if (d > 14) return bad;
    if (auto *K = dyn_cast<ConstantInt>(V)) return LinD::K((double)K->getSExtValue());
    if (auto *X = dyn_cast<CastInst>(V)) return X->getType()->isIntegerTy() && X->getSrcTy()->isIntegerTy() ? value(X->getOperand(0), s, d + 1) : bad;
    if (auto *L = dyn_cast<LoadInst>(V)) { if (!L->getType()->isIntegerTy()) return bad; auto k = place(L->getPointerOperand(), d + 1); if (k.empty()) return bad; auto it = s.find(k); if (it != s.end()) return it->second; return LinD::A(k); }
    if (auto *A = dyn_cast<Argument>(V)) return LinD::A("p" + std::to_string(A->getArgNo()));
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      auto a = value(B->getOperand(0), s, d + 1), b = value(B->getOperand(1), s, d + 1); if (!a.ok || !b.ok) return bad;
      switch (B->getOpcode()) { case Instruction::Add: return a.add(b, 1); case Instruction::Sub: return a.add(b, -1); case Instruction::Mul: return mul(a, b); case Instruction::UDiv: case Instruction::LShr: { double q = B->getOpcode() == Instruction::LShr ? (b.isConst() && b.c < 40 ? (double)(1ull << (int)b.c) : 0) : b.isConst() ? b.c : 0; if (q < 1 || std::fmod(a.c, q) != 0) return bad; for (auto &p : a.t) if (std::fmod(p.second, q) != 0) return bad; return a.scale(1 / q); } case Instruction::Shl: if (b.isConst() && b.c >= 0 && b.c < 40) return a.scale((double)(1ull << (int)b.c)); return bad; default: return bad; }
    }
    if (auto *E = dyn_cast<ExtractValueInst>(V)) if (auto *CB = dyn_cast<CallBase>(E->getAggregateOperand())) if (auto *H = CB->getCalledFunction()) { auto a = value(CB->getArgOperand(0), s, d + 1), b = value(CB->getArgOperand(1), s, d + 1); if (!a.ok || !b.ok) return bad; if (H->getName().contains("umul") && b.isConst()) return a.scale(b.c); if (H->getName().contains("uadd")) return a.add(b, 1); }
    if (auto *S = dyn_cast<SelectInst>(V)) if (auto *K = dyn_cast<ConstantInt>(S->getTrueValue()); K && K->isMinusOne()) return value(S->getFalseValue(), s, d + 1);
    return bad;
  }
  bool newCapPeek(const Sigma &s, const std::string &cap, const std::string &cnt, const LinD &sz) { auto it = s.find(cap); LinD v = it != s.end() ? it->second : sz; return v.ok && factor(v, cap) > 1 && factor(v, cnt) == 0; }
  static const CallBase *isNew(const Value *V) { auto *CB = dyn_cast<CallBase>(V); auto *H = CB ? CB->getCalledFunction() : nullptr; return H && H->getName().starts_with("_Zna") ? CB : nullptr; }
  // size of one element of the array that a new[] yields, from how it is used
  double elem(const CallBase *N) { // the multiplication in the size, else bytes
    const Value *V = N->getArgOperand(0); if (auto *S = dyn_cast<SelectInst>(V)) V = S->getFalseValue();
    if (auto *E = dyn_cast<ExtractValueInst>(V)) if (auto *CB = dyn_cast<CallBase>(E->getAggregateOperand())) if (auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(1))) return (double)K->getZExtValue();
    if (isa<ConstantInt>(V)) return elemByUse(N); return 1;
  }
  double elemByUse(const CallBase *N) {
    auto sz = [&](const Value *P) -> double { for (auto *U : P->users()) if (auto *G = dyn_cast<GEPOperator>(U)) if (G->getPointerOperand() == P && !G->getSourceElementType()->isStructTy()) return (double)C.M->getDataLayout().getTypeAllocSize(G->getSourceElementType()); return 0; };
    double r = sz(N); if (r) return r;
    for (auto *U : N->users()) if (auto *S = dyn_cast<StoreInst>(U)) { auto k = place(S->getPointerOperand()); for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy() && place(L->getPointerOperand()) == k) { r = sz(L); if (r) return r; } }
    return 8;
  }
  LinD arraySize(const CallBase *N, const Sigma &s) { auto v = value(N->getArgOperand(0), s); double e = elem(N); return v.ok && e > 0 ? v.scale(1 / e) : v; }
  // the pointer variable an element access goes through, and the index
  bool element(const Value *P, const Sigma &s, const std::map<std::string, std::string> &ptr, std::string &arr, LinD &idx) {
    P = P->stripPointerCasts(); auto *G = dyn_cast<GEPOperator>(P); const Value *B = P;
    idx = LinD::K(0); if (G) { if (G->getSourceElementType()->isStructTy() || G->getNumIndices() != 1) return false; idx = value(G->getOperand(1), s); B = G->getPointerOperand()->stripPointerCasts(); }
    if (isNew(B)) { char b[40]; snprintf(b, sizeof b, "N%p", (const void *)B); arr = b; return true; }
    auto *L = dyn_cast<LoadInst>(B); if (!L || !L->getType()->isPointerTy()) return false; auto k = place(L->getPointerOperand()); if (k.empty()) return false;
    if (auto *A = dyn_cast<Argument>(L)) (void)A;
    auto it = ptr.find(k); arr = it != ptr.end() ? it->second : k; return true;
  }
  // an argument list passed by pointer (T *I rather than T *&I) is its own place
  std::set<const BasicBlock *> regionOf(const BasicBlock *Sx, const BasicBlock *from) { std::set<const BasicBlock *> r; if (Sx->getSinglePredecessor() != from) return r; for (auto &B : F) if (DT.dominates(Sx, &B)) r.insert(&B); return r; }
  long sites = 0;
  void run() {
    std::vector<std::pair<const BranchInst *, int>> cand;
    for (auto &B : F) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional()) if (auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); Cm && Cm->getOperand(0)->getType()->isIntegerTy())
      for (int i = 0; i < 2; i++) {
        if (auto *L = LI.getLoopFor(&B); L && !L->contains(Br->getSuccessor(i))) continue; // what follows a loop
        if (auto *L = LI.getLoopFor(&B); L && !L->contains(Br->getSuccessor(1 - i))) { bool counts = false; for (int k = 0; k < 2; k++) { auto v = value(Cm->getOperand(k), {}); if (v.ok && v.t.size() == 1) for (auto *X : L->blocks()) for (auto &I : *X) if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == v.t.begin()->first) { auto w = value(S->getValueOperand(), {}).add(v, -1); counts |= w.isConst() && w.c != 0; } } if (counts) continue; } // the rounds of a loop
        if ((i == 0 ? Cm->getPredicate() : Cm->getInversePredicate()) == CmpInst::ICMP_NE) continue;
        auto rg = regionOf(Br->getSuccessor(i), &B); if (rg.empty()) continue; bool anyNew = false; for (auto *X : rg) for (auto &I : *X) if (auto *N = isNew(&I)) anyNew = true;
        if (anyNew && rg.size() < 120) site(Br, Cm, i, rg);
      }
  }
  struct Site { const BranchInst *br; std::string count, cap; std::set<std::string> arrays; };
  std::vector<Site> found;
  void site(const BranchInst *Br, const ICmpInst *Cm, int succ, const std::set<const BasicBlock *> &rg) {
    Sigma s0; LinD a = value(Cm->getOperand(0), s0), b = value(Cm->getOperand(1), s0); if (!a.ok || !b.ok || a.t.size() != 1 || b.t.size() != 1) return;
    if (a.t.begin()->first == b.t.begin()->first) return;
    // ---- walk the region in order
    std::vector<const BasicBlock *> order; { std::set<const BasicBlock *> seen; std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *B) { if (!rg.count(B) || !seen.insert(B).second) return; for (unsigned i = B->getTerminator()->getNumSuccessors(); i-- > 0;) dfs(B->getTerminator()->getSuccessor(i)); order.insert(order.begin(), B); }; dfs(Br->getSuccessor(succ)); }
    Sigma s; std::map<std::string, std::string> ptr; std::vector<New> news; std::vector<Copy> copies; std::map<std::string, std::vector<LinD>> head; std::set<std::string> touched, opaque, freed; std::map<const Loop *, Sigma> atLoop;
    Loop *outer = LI.getLoopFor(Br->getParent());
    auto inRegionLoop = [&](const BasicBlock *B) -> Loop * { auto *L = LI.getLoopFor(B); Loop *r = nullptr; while (L && rg.count(L->getHeader())) { r = L; L = L->getParentLoop(); } return r; };
    (void)outer; std::vector<const BasicBlock *> outs; for (auto *X : rg) { bool o = isa<ReturnInst>(X->getTerminator()); for (auto *Y : successors(X)) o |= !rg.count(Y) && !Y->isLandingPad(); if (o) outs.push_back(X); }
    for (auto *B : order) {
      auto *Lo = inRegionLoop(B); bool cond = false; if (!Lo) for (auto *X : outs) cond |= !DT.dominates(B, X);
      for (auto *L = LI.getLoopFor(B); L && rg.count(L->getHeader()); L = L->getParentLoop()) if (L->getHeader() == B && !atLoop.count(L)) { atLoop[L] = s; for (auto *X : L->blocks()) for (auto &I : *X) if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy()) { auto k = place(S->getPointerOperand()); if (!k.empty()) s.erase(k); } }
      for (auto &I : *B) {
        if (auto *N = isNew(&I)) { New n; n.at = N; n.size = arraySize(N, s); char bf[40]; snprintf(bf, sizeof bf, "N%p", (const void *)N); n.id = bf; if (!Lo) news.push_back(n); continue; }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          auto *V = S->getValueOperand(); auto *P = S->getPointerOperand(); std::string arr; LinD idx; bool el = element(P, s, ptr, arr, idx);
          if (el && idx.ok && arr[0] == 'N') { // into a new array
            if (auto *Ld = dyn_cast<LoadInst>(V)) { Copy c; std::string sa; if (element(Ld->getPointerOperand(), s, ptr, sa, c.hs) && sa != arr && Lo) {
                c.dst = arr; c.src = sa; c.hd = idx; c.at = &I; bounds(LI.getLoopFor(B), B, atLoop, c); copies.push_back(c); continue; }
              if (Lo) { Copy c; c.dst = arr; c.src = "?"; c.at = &I; copies.push_back(c); continue; } }
            if (!Lo && V->getType()->isIntegerTy()) head[arr].push_back(value(V, s)); else if (Lo) { Copy c; c.dst = arr; c.src = "fill"; c.at = &I; c.hd = c.hs = idx; bounds(LI.getLoopFor(B), B, atLoop, c); copies.push_back(c); }
            continue;
          }
          auto k = place(P); if (k.empty()) continue;
          if (V->getType()->isPointerTy()) { std::string r; auto *Vs = V->stripPointerCasts(); if (isNew(Vs)) { char bf[40]; snprintf(bf, sizeof bf, "N%p", (const void *)Vs); r = bf; } else if (auto *Ld = dyn_cast<LoadInst>(Vs)) { auto q = place(Ld->getPointerOperand()); auto it = ptr.find(q); r = it != ptr.end() ? it->second : "*" + q; } else r = "?"; if (!r.empty()) ptr[k] = r; }
          else if (V->getType()->isIntegerTy()) { if (Lo || cond) { s[k].ok = false; if (Lo) s.erase(k); } else s[k] = value(V, s); }
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I); CB && !isa<DbgInfoIntrinsic>(CB)) { // a call that gets arrays: memcpy, std::copy, a helper
          auto *H = calleeOf(CB); if (H && H->getName().starts_with("_Zda")) { if (auto *Ld = dyn_cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts())) { auto it = ptr.find(place(Ld->getPointerOperand())); if (it != ptr.end()) freed.insert(it->second); } continue; }
          for (auto &ar : CB->args()) { if (!ar->getType()->isPointerTy()) continue; std::string r; auto *Vs = ar->stripPointerCasts(); while (auto *G = dyn_cast<GEPOperator>(Vs)) Vs = G->getPointerOperand()->stripPointerCasts(); if (isNew(Vs)) { char bf[40]; snprintf(bf, sizeof bf, "N%p", (const void *)Vs); r = bf; } else if (auto *Ld = dyn_cast<LoadInst>(Vs)) { auto q = place(Ld->getPointerOperand()); auto it = ptr.find(q); if (it != ptr.end()) r = it->second; } else { auto q = place(Vs); if (!q.empty()) { ptr[q] = "?"; s[q].ok = false; } } if (!r.empty()) opaque.insert(r); }
        }
      }
    }
    if (news.empty()) return;
    // ---- is this a list that grows? one side of the comparison is what the new arrays are sized by
    std::string A = a.t.begin()->first, Bk = b.t.begin()->first, cap, cnt; LinD newCap; newCap.ok = false;
    for (auto &k : {A, Bk}) { auto it = s.find(k); if (it != s.end() && !(it->second.ok && it->second.t.size() == 1 && it->second.t.count(k) && it->second.t[k] == 1 && it->second.c == 0)) { cap = k; newCap = it->second; } }
    std::set<std::string> grown; for (auto &n : news) for (auto &p : ptr) if (p.second == n.id) { bool src = false; for (auto &c : copies) src |= c.src == p.first; if (src) grown.insert(p.first); }
    std::map<std::string, std::string> lostHome; for (auto &n : news) { bool st = false; for (auto &p : ptr) st |= p.second == n.id && !isTemp(p.first, rg); if (!st) for (auto &c : copies) if (c.known && !freed.count(n.id) && c.dst == n.id && c.src != "fill" && c.src != "?" && c.src[0] != 'N' && !isTemp(c.src, rg)) { lostHome[n.id] = c.src; if (n.size.ok && (factor(n.size, a.t.begin()->first) > 0 || factor(n.size, b.t.begin()->first) > 0)) grown.insert(c.src); } }
    bool sized = false; for (auto &n : news) if (n.size.ok) for (auto &k : {A, Bk}) if (factor(n.size, k) > 0) { sized = true; if (cap.empty()) { bool copied = false; for (auto &c : copies) copied |= c.dst == n.id && c.src != "fill"; if (copied || !grown.empty()) cap = k; } }
    if (cap.empty() || (!sized && grown.empty())) return;
    bool anyCopy = false; for (auto &c : copies) anyCopy |= c.src != "fill"; for (auto &n : news) anyCopy |= opaque.count(n.id) > 0;
    cnt = cap == A ? Bk : A;
    // arrays appended to at the count
    std::map<std::string, const Instruction *> app; std::vector<const Instruction *> apps, incs;
    for (auto &B : F) { if (rg.count(&B)) continue; for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) {
      std::string arr; LinD idx; if (element(S->getPointerOperand(), {}, {}, arr, idx) && idx.ok && factor(idx, cnt) >= 1 && idx.c >= 0 && arr[0] != 'N') { app[arr] = &I; apps.push_back(&I); }
      if (place(S->getPointerOperand()) == cnt) { auto v = value(S->getValueOperand(), {}); if (v.ok && v.t.size() == 1 && v.t.count(cnt) && v.t[cnt] == 1 && v.c > 0) incs.push_back(&I); }
    } }
    if (grown.empty()) { bool overlap = false; if (incs.empty()) return; for (auto &p : ptr) overlap |= app.count(p.first) && p.second[0] == 'N'; if (!overlap) return; }
    bool appends = !apps.empty() && !incs.empty();
    // ---- the condition
    std::vector<Con> base, in; LinD lc = LinD::A(cap), ln = LinD::A(cnt); auto con = [](LinD e, bool st = false) { Con c; c.e = e; c.strict = st; return c; };
    base.push_back(con(lc.add(LinD::K(1), -1))); base.push_back(con(ln)); in = base;
    auto pr = Cm->getPredicate(); auto neg = CmpInst::getInversePredicate(pr); auto mine = succ == 0 ? pr : neg, other = succ == 0 ? neg : pr;
    auto put = [&](std::vector<Con> &v, CmpInst::Predicate p) { LinD d = a.add(b, -1); switch (p) { case CmpInst::ICMP_EQ: v.push_back(con(d)); v.push_back(con(d.scale(-1))); break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: v.push_back(con(d)); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: v.push_back(con(d.add(LinD::K(1), -1))); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: v.push_back(con(d.scale(-1))); break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: v.push_back(con(d.scale(-1).add(LinD::K(1), -1))); break; default: break; } };
    put(in, mine); sites++; C.R.counts["growth_sites"]++;
    auto key = [&](const std::string &arr) { return funcKey(&F) + "|" + name(arr.empty() ? cnt : arr); };
    auto bad = [&](const char *rule, const Instruction *at, const std::string &arr, const std::string &m) { C.R.add(mk(rule, at, key(arr), m)); };
    if (appends) in.push_back(con(lc.add(ln, -1)));          // no more entries than capacity so far
    // the growth starts in time
    bool doubles = newCapPeek(s, cap, cnt, news.empty() ? LinD() : news[0].size);
    if (appends || doubles) {
      auto out = base; bool ok = false;
      if (other == CmpInst::ICMP_NE) { LinD d = a.add(b, -1); for (int sgn = 0; sgn < 2; sgn++) { auto o = out; o.push_back(con((sgn ? d.scale(-1) : d).add(LinD::K(1), -1))); o.push_back(con(lc.add(ln, -1))); bool e = refute(o) || entails(o, lc.add(ln, -1).add(LinD::K(1), -1)); if (!sgn) ok = e; else ok = ok && e; } }
      else { out.push_back(con(lc.add(ln, -1))); put(out, other); ok = refute(out) || entails(out, lc.add(ln, -1).add(LinD::K(1), -1)); }
      C.R.counts["growth_conditions"]++;
      if (!ok) bad("growth-late", Br, "", "'" + name(cnt) + "' may have reached '" + name(cap) + "' without the list being enlarged");
    }
    // the capacity recorded
    std::string h0; for (auto &n : news) for (auto &v : head[n.id]) if (!newCap.ok && v.ok && v.t.count(cap) && v.t.at(cap) >= 1) newCap = v;
    bool capStored = s.count(cap) > 0;
    if (!newCap.ok && !capStored) bad("growth-capacity", news[0].at, "", "the list is enlarged but '" + name(cap) + "' keeps its old value");
    if (newCap.ok && !entails(in, newCap.add(lc, -1).add(LinD::K(1), -1))) bad("growth-size", news[0].at, "", "the new capacity of '" + name(cap) + "' is not larger than the old one");
    auto noc = [&](const Instruction *at) { C.R.counts["copies_not_understood"]++; C.R.sets["copies_not_understood_at"].insert(where(at)); };
    auto nos = [&](const Instruction *at) { C.R.counts["sizes_not_understood"]++; C.R.sets["sizes_not_understood_at"].insert(where(at)); };
    // every new array
    std::set<std::string> renewed;
    for (auto &n : news) {
      std::string home; for (auto &p : ptr) if (p.second == n.id && (app.count(p.first) || grown.count(p.first))) home = p.first; if (home.empty() && lostHome.count(n.id)) home = lostHome[n.id]; if (home.empty()) for (auto &p : ptr) if (p.second == n.id) home = p.first;
      std::vector<Copy> cs; for (auto &c : copies) if (c.dst == n.id && c.src != "fill") cs.push_back(c);
      bool op = opaque.count(n.id) > 0; bool list = app.count(home) || !cs.empty();
      if (!list) continue; C.R.counts["arrays_enlarged"]++;
      bool kept = false; for (auto &p : ptr) kept |= p.second == n.id && (app.count(p.first) || grown.count(p.first) || p.first[0] != 'v' || !isTemp(p.first, rg)); 
      renewed.insert(home);
      if (cs.empty() && !op) { bad("growth-copy", n.at, home, "the entries of '" + name(home) + "' are not copied into its enlarged array"); continue; }
      LinD h = LinD::K(0); double w = 1; // entries per element
      if (newCap.ok && n.size.ok && newCap.t.size() == 1) { auto &k = *newCap.t.begin(); auto it = n.size.t.find(k.first); if (it != n.size.t.end() && k.second > 0 && it->second >= k.second) w = std::floor(it->second / k.second + 1e-9); }
      LinD en = ln.scale(w), ec = lc.scale(w); bool poly = false;
      if (newCap.ok && n.size.ok && newCap.c == 0 && newCap.t.size() == 1) { auto k = *newCap.t.begin(); bool prod = false; for (auto &t : n.size.t) prod |= t.first.find('\1') != std::string::npos; auto q = prod && k.second > 0 ? instead(n.size, k.first, k.second, cnt) : LinD(); if (prod && q.ok && k.second > 0) { poly = true; en = q; ec = instead(n.size, k.first, k.second, cap); } }
      LinD eNew = newCap.scale(w); if (poly) eNew = n.size;
      if (cs.size() == 1) {
        auto &c = cs[0]; C.R.counts["copies_checked"]++;
        if (c.src != "?" && c.src[0] != 'N' && c.src != home && ptr.count(home)) { bool elsewhere = false; for (auto &p : ptr) elsewhere |= p.first == c.src && p.second[0] == 'N'; bad("growth-copy", c.at, home, "the enlarged array of '" + name(home) + "' receives the entries of '" + name(c.src) + "'"); (void)elsewhere; continue; }
        if (c.known) {
          LinD sh = c.hd.add(c.hs, -1);
          if (!(sh.isConst() && sh.c == 0)) { bad("growth-copy", c.at, home, "the entries of '" + name(home) + "' change their position in the enlarged array"); continue; }
          h = LinD::K(c.hd.c); if (head[n.id].empty() && c.hd.c > 0 && !c.lo.isConst()) h = LinD::K(0);
          if (!c.always) bad("growth-copy", c.at, home, "only some entries of '" + name(home) + "' are copied into the enlarged array");
          else if (c.lo.ok && c.hi.ok) {
            if (!entails(in, c.lo.scale(-1)) || !(entails(in, c.hi.add(en, -1)) || entails(in, c.hi.add(ec, -1)))) bad("growth-copy", c.at, home, "not all entries of '" + name(home) + "' are copied into the enlarged array");
            else if (!entails(in, ec.add(c.hi, -1)) && !entails(in, en.add(c.hi, -1))) bad("growth-copy", c.at, home, "the copy of '" + name(home) + "' reads beyond the old array");
          } else noc(n.at);
        } else noc(n.at);
      } else noc(n.at);
      if (newCap.ok && n.size.ok) { C.R.counts["sizes_checked"]++; if (!poly && !entails(in, n.size.add(h, -1).add(eNew, -1))) bad("growth-size", n.at, home, "the enlarged array of '" + name(home) + "' is smaller than the capacity recorded for it"); } else nos(n.at);
      if (h.isConst()) headOf[home] = h.c;
      // places without an entry that are marked when the list is made are marked when it is enlarged
      const Instruction *marks = nullptr; for (auto &B : F) if (!rg.count(&B) && LI.getLoopFor(&B)) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I); S && isa<Constant>(S->getValueOperand())) { std::string ar; LinD ix; if (!element(S->getPointerOperand(), {}, {}, ar, ix) || ar != home || !ix.ok || ix.isConst()) continue; if (fillsTo(LI.getLoopFor(&B), cap)) marks = &I; }
      if (marks && !op) { C.R.counts["marked_places"]++; const Copy *fl = nullptr; for (auto &c : copies) if (c.dst == n.id && c.src == "fill") fl = &c;
        if (!fl) bad("growth-fill", n.at, home, "the new places of '" + name(home) + "' are not marked as free as those of the first array are");
        else if (fl->known && fl->lo.ok && fl->hi.ok && newCap.ok && (!fl->always || !entails(in, fl->hi.add(newCap, -1)) || !(entails(in, ec.add(fl->lo, -1)) || (appends && entails(in, en.add(fl->lo, -1)))))) bad("growth-fill", fl->at, home, "not all new places of '" + name(home) + "' are marked as free"); }
      if (!kept) bad("growth-lost", n.at, home, "the enlarged array of '" + name(home) + "' never replaces the old one");
    }
    if (!appends) return;
    for (auto &p : app) if (!renewed.count(p.first) && !opaqueHome(p.first, ptr)) { // an array of the list that is not enlarged
      bool sameCap = false; for (auto &B : F) if (!rg.count(&B)) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *N = isNew(S->getValueOperand()->stripPointerCasts()); N && place(S->getPointerOperand()) == p.first) { auto z = arraySize(N, {}); sameCap |= z.ok && (z.t.count(cap) || z.t.empty()); }
      if (p.first[0] != 'v') sameCap = true; // its allocation is elsewhere
      if (sameCap) bad("growth-forgotten", p.second, p.first, "'" + name(p.first) + "' is appended to together with the list of '" + name(cnt) + "' but not enlarged with it"); }
    Site st; st.br = Br; st.count = cnt; st.cap = cap; for (auto &p : app) if (renewed.count(p.first)) st.arrays.insert(p.first); found.push_back(st);
    siteIncs[cnt] = incs; for (auto *x : apps) { std::string arr; LinD idx; element(cast<StoreInst>(x)->getPointerOperand(), {}, {}, arr, idx); if (renewed.count(arr)) siteApps[cnt].push_back(x); }
    // first allocation
    for (auto &arr : renewed) for (auto &B : F) if (!rg.count(&B)) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *N = isNew(S->getValueOperand()->stripPointerCasts()); N && place(S->getPointerOperand()) == arr) {
      auto z = arraySize(N, {}); if (!z.ok) continue; C.R.counts["first_allocations"]++;
      if (z.isConst()) { // the constant the capacity starts with
        double least = -1; for (auto &J : instructions(F)) if (auto *T = dyn_cast<StoreInst>(&J); T && !rg.count(T->getParent()) && place(T->getPointerOperand()) == cap) { auto v = value(T->getValueOperand(), {}); if (v.isConst()) least = std::max(least, v.c); }
        if (headOf[arr] > 0) for (auto &J : instructions(F)) if (auto *T = dyn_cast<StoreInst>(&J); T && !rg.count(T->getParent()) && T->getValueOperand()->getType()->isIntegerTy()) { std::string ar; LinD ix; if (element(T->getPointerOperand(), {}, {}, ar, ix) && ar == arr && ix.ok && ix.isConst() && ix.c == 0) { auto v = value(T->getValueOperand(), {}); if (v.isConst()) least = std::max(least, v.c + headOf[arr]); } }
        if (least > z.c) bad("growth-first", N, arr, "'" + name(arr) + "' starts with fewer elements than its capacity '" + name(cap) + "'");
      } else if (z.t.count(cap) && z.t.size() == 1) { if (!entails(base, z.add(lc, -1))) bad("growth-first", N, arr, "'" + name(arr) + "' starts with fewer elements than its capacity '" + name(cap) + "'"); }
    }
  }
  std::map<std::string, std::vector<const Instruction *>> siteIncs, siteApps;
  bool opaqueHome(const std::string &k, const std::map<std::string, std::string> &ptr) { auto it = ptr.find(k); return it != ptr.end() && it->second == "?"; }
  bool isTemp(const std::string &k, const std::set<const BasicBlock *> &rg) { // a variable that is not used outside the region
    for (auto &B : F) if (!rg.count(&B)) for (auto &I : B) if (auto *L = dyn_cast<LoadInst>(&I)) if (place(L->getPointerOperand()) == k) return false; return true;
  }
  // the range of a counting loop
  void bounds(const Loop *L, const BasicBlock *at, std::map<const Loop *, Sigma> &atLoop, Copy &c) {
    if (!L || !L->getLoopLatch()) return; auto *H = L->getHeader(); auto *Br = dyn_cast<BranchInst>(H->getTerminator()); if (!Br || !Br->isConditional()) return; auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (!Cm) return;
    bool stay = L->contains(Br->getSuccessor(0)); auto p = stay ? Cm->getPredicate() : Cm->getInversePredicate(); const Value *x = Cm->getOperand(0), *y = Cm->getOperand(1);
    auto cs = [&](const Value *V) -> std::string { auto v = value(V, {}); return v.ok && v.t.size() == 1 && v.c == 0 && v.t.begin()->second == 1 ? v.t.begin()->first : ""; };
    std::string k; auto steps = [&](const std::string &q) { int n = 0; bool inc = false; for (auto *B : L->blocks()) for (auto &I : *B) if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == q) { n++; auto v = value(S->getValueOperand(), {}); inc = v.ok && v.t.size() == 1 && v.t.count(q) && v.t.at(q) == 1 && v.c == 1; } return n == 1 && inc; };
    if (steps(cs(x))) k = cs(x); else if (steps(cs(y))) { k = cs(y); std::swap(x, y); p = CmpInst::getSwappedPredicate(p); } else return;
    Sigma pre = atLoop[L]; LinD hi = value(y, pre); auto it = pre.find(k); if (it == pre.end()) return; LinD lo = it->second; if (!hi.ok || !lo.ok) return;
    if (p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) hi = hi.add(LinD::K(1), 1); else if (p != CmpInst::ICMP_ULT && p != CmpInst::ICMP_SLT && p != CmpInst::ICMP_NE) return;
    // indices relative to the counter
    auto rel = [&](LinD v, bool &ok) { ok = v.ok && v.t.count(k) && v.t.at(k) == 1; if (ok) v.t.erase(k); return v; };
    bool o1, o2; LinD hd = rel(c.hd, o1), hs = rel(c.hs, o2); if (!o1 || !o2) return; c.hd = hd; c.hs = hs; c.lo = lo; c.hi = hi; c.known = true;
    // a header before the entries: an index offset that is also the start is part of the range
    if (hd.isConst() && hd.c == 0 && lo.isConst() && lo.c > 0) { c.hd = LinD::K(lo.c); c.hs = hs.isConst() ? LinD::K(hs.c + lo.c) : hs; c.hi = hi.add(LinD::K(lo.c), -1); c.lo = LinD::K(0); startAt = lo.c; }
    c.always = DT.dominates(at, L->getLoopLatch()); for (auto *B : L->blocks()) if (B != H) for (auto *S : successors(B)) if (!L->contains(S) && !isa<UnreachableInst>(S->getTerminator()) && !S->isLandingPad()) c.always = false;
  }
  double startAt = 0; std::map<std::string, double> headOf;
  // a counting loop whose limit is the capacity (or what the capacity was set from)
  bool fillsTo(const Loop *L, const std::string &cap) {
    auto *Br = dyn_cast<BranchInst>(L->getHeader()->getTerminator()); auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr; if (!Cm) return false;
    for (int k = 0; k < 2; k++) { auto v = value(Cm->getOperand(k), {}); if (!v.ok || v.t.size() != 1 || v.c != 0) continue; if (v.t.count(cap)) return true;
      for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == cap) { auto w = value(S->getValueOperand(), {}); if (w.ok && w.str() == v.str()) return true; } }
    return false;
  }
  void between() { // between two appends the growth is considered
    std::map<std::string, std::set<const BasicBlock *>> checks; for (auto &s : found) checks[s.count].insert(s.br->getParent());
    for (auto &kv : siteIncs) {
      auto &cut = checks[kv.first]; std::set<const Instruction *> goal(siteApps[kv.first].begin(), siteApps[kv.first].end()); C.R.counts["append_sites"] += goal.size();
      for (auto *inc : kv.second) {
        std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w; const Instruction *hit = nullptr; bool stop = false;
        auto scan = [&](const BasicBlock *B, const Instruction *from) { bool on = !from; for (auto &I : *B) { if (!on) { on = &I == from; continue; } if (goal.count(&I)) { hit = &I; return true; } if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == kv.first && !(value(S->getValueOperand(), {}).ok && value(S->getValueOperand(), {}).t.count(kv.first))) return true; } return (bool)cut.count(B); };
        if (!scan(inc->getParent(), inc)) w.push_back(inc->getParent());
        while (!w.empty() && !hit) { auto *B = w.back(); w.pop_back(); for (auto *S : successors(B)) if (seen.insert(S).second && !S->isLandingPad() && !scan(S, nullptr)) w.push_back(S); }
        (void)stop; C.R.counts["append_paths"]++;
        if (hit) C.R.add(mk("growth-skipped", hit, funcKey(&F) + "|" + name(kv.first), "an entry can be appended to the list of '" + name(kv.first) + "' after another without testing in between whether it still fits"));
      }
    }
  }
  // ---- functions that append to a list they are given: count, array and capacity by reference
  std::vector<std::array<int, 3>> growerArgs() {
    std::vector<std::array<int, 3>> r; auto n = [](const std::string &p) { return p.size() > 1 && p[0] == 'p' && p.find_first_not_of("0123456789", 1) == std::string::npos ? atoi(p.c_str() + 1) : -1; };
    for (auto &st : found) for (auto &a : st.arrays) if (n(st.count) >= 0 && n(st.cap) >= 0 && n(a) >= 0) r.push_back({n(st.count), n(a), n(st.cap)});
    return r;
  }
  struct Call { const CallBase *at; std::string num, arr, cap; };
  std::vector<Call> growerCalls(const std::map<const Function *, std::set<std::array<int, 3>>> &G) {
    std::vector<Call> r; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto it = G.find(calleeOf(CB)); if (it == G.end()) continue; for (auto &t : it->second) r.push_back({CB, place(CB->getArgOperand(t[0])), place(CB->getArgOperand(t[1])), place(CB->getArgOperand(t[2]))}); }
    return r;
  }
  // the place a local variable is always a copy of
  std::string copied(const std::string &w) {
    if (w.empty() || w[0] != 'v') return w; std::set<std::string> own; for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == w) { auto v = value(S->getValueOperand(), {}); if (!v.ok || v.c != 0 || v.t.size() != 1 || v.t.begin()->second != 1) return w; own.insert(v.t.begin()->first); }
    return own.size() == 1 && (*own.begin())[0] != 'v' ? *own.begin() : w; }
  static std::string noIndex(const std::string &p) { std::string r; int d = 0; for (char c : p) { if (c == '[') { if (!d++) r += "[]"; } else if (c == ']') d--; else if (!d) r += c; } return r; }
  // from a to b without an assignment to any of the places
  bool reaches(const Instruction *a, const Instruction *b, const std::set<std::string> &k) {
    std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w; auto scan = [&](const BasicBlock *B, const Instruction *from) { bool on = !from; for (auto &I : *B) { if (!on) { on = &I == from; continue; } if (&I == b) return 2; if (auto *S = dyn_cast<StoreInst>(&I); S && k.count(place(S->getPointerOperand()))) return 1; } return 0; };
    int q = scan(a->getParent(), a); if (q) return q == 2; w.push_back(a->getParent());
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *S : successors(B)) if (seen.insert(S).second) { q = scan(S, nullptr); if (q == 2) return true; if (!q) w.push_back(S); } }
    return false;
  }
  void calls(const std::map<const Function *, std::set<std::array<int, 3>>> &G) {
    auto cs = growerCalls(G); C.R.counts["appending_calls"] += cs.size(); std::set<std::string> done;
    for (auto &x : cs) for (auto &y : cs) {
      if (x.at == y.at || x.num.empty() || y.num.empty() || x.arr.empty() || y.arr.empty() || x.cap.empty() || y.cap.empty()) continue;
      auto key = funcKey(&F) + "|" + name(y.arr);
      if (x.arr != y.arr) {
        if (x.num == y.num && reaches(x.at, y.at, {x.num})) C.R.add(mk("growth-shared", y.at, key, "'" + name(y.num) + "' counts the entries of both '" + name(x.arr) + "' and '" + name(y.arr) + "'"));
        else if (x.cap == y.cap && reaches(x.at, y.at, {x.cap})) C.R.add(mk("growth-shared", y.at, key, "'" + name(y.cap) + "' is the capacity of both '" + name(x.arr) + "' and '" + name(y.arr) + "', but only one of them is enlarged"));
      } else {
        if (x.num != y.num && reaches(x.at, y.at, {x.arr, y.num})) C.R.add(mk("growth-shared", y.at, key, "entries are appended to '" + name(y.arr) + "' at '" + name(x.num) + "' and at '" + name(y.num) + "'"));
        else if (x.cap != y.cap && reaches(x.at, y.at, {x.arr, y.cap})) C.R.add(mk("growth-shared", y.at, key, "'" + name(y.arr) + "' is appended to with '" + name(x.cap) + "' and with '" + name(y.cap) + "' as its capacity"));
      }
    }
    for (auto &x : cs) for (auto *w : {&x.num, &x.cap}) if (!x.arr.empty() && x.arr[0] != 'v' && !w->empty() && (*w)[0] == 'v') { // local copies of the list's own count and capacity
      std::set<std::string> own; for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I); S && place(S->getPointerOperand()) == *w) { auto v = value(S->getValueOperand(), {}); if (v.ok && v.c == 0 && v.t.size() == 1 && v.t.begin()->first[0] != 'v') own.insert(v.t.begin()->first); }
      if (own.empty()) continue; C.R.counts["counts_written_back"]++; bool lost = false; auto same = [&](const Instruction *I) { if (auto *CB = dyn_cast<CallBase>(I)) for (auto &y : cs) if (y.at == CB && (y.arr != x.arr) && (y.num == *w || y.cap == *w)) return true; return false; };
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> q; auto scan = [&](const BasicBlock *B, const Instruction *from) { bool on = !from; for (auto &I : *B) { if (!on) { on = &I == from; continue; } if (same(&I)) return true; if (auto *S = dyn_cast<StoreInst>(&I); S && own.count(place(S->getPointerOperand()))) { auto v = value(S->getValueOperand(), {}); if (!v.ok || v.t.count(*w) || v.t.empty()) return true; } if (isa<ReturnInst>(&I)) { lost = true; return true; } } return false; };
      if (!scan(x.at->getParent(), x.at)) q.push_back(x.at->getParent());
      while (!q.empty()) { auto *B = q.back(); q.pop_back(); for (auto *S : successors(B)) if (seen.insert(S).second && !S->isLandingPad() && !scan(S, nullptr)) q.push_back(S); }
      if (lost) C.R.add(mk("growth-capacity", x.at, funcKey(&F) + "|" + name(x.arr), "'" + name(x.arr) + "' may be enlarged, but '" + name(*w) + "' is not passed back on some path"));
    }
    for (auto &x : cs) { // the first allocation
      if (x.arr.empty() || x.cap.empty() || !done.insert(x.arr + x.cap).second) continue; auto A = noIndex(x.arr), K = noIndex(x.cap); std::vector<std::pair<const CallBase *, LinD>> al; std::vector<LinD> cv;
      if (par && fork) { // taken over from the enclosing function
        auto outer = [&](const std::string &k) -> std::string { size_t i = k.find('p'); if (i == std::string::npos) return ""; size_t j = i + 1; while (j < k.size() && isdigit(k[j])) j++; unsigned a = atoi(k.c_str() + i + 1); if (k.find_first_not_of('*') != i || a < 2 || a + 1 >= fork->arg_size()) return ""; auto o = par->place(fork->getArgOperand(a + 1)); return o.empty() ? "" : k.substr(0, i) + o + k.substr(j); };
        auto oa = outer(A), ok = outer(K); if (!oa.empty() && !ok.empty()) for (auto &I : instructions(par->F)) if (auto *S = dyn_cast<StoreInst>(&I)) { auto k = noIndex(par->place(S->getPointerOperand())); if (k == oa) { if (auto *N = isNew(S->getValueOperand()->stripPointerCasts())) al.push_back({N, par->arraySize(N, {})}); } else if (k == ok && S->getValueOperand()->getType()->isIntegerTy()) cv.push_back(par->value(S->getValueOperand(), {})); } }
      for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) { auto k = noIndex(place(S->getPointerOperand())); if (k == A) { if (auto *N = isNew(S->getValueOperand()->stripPointerCasts())) al.push_back({N, arraySize(N, {})}); } else if (k == K && S->getValueOperand()->getType()->isIntegerTy()) cv.push_back(value(S->getValueOperand(), {})); }
      for (auto &a : al) { if (!a.second.ok) continue; C.R.counts["first_allocations"]++; bool eq = false; LinD worst; worst.ok = false;
        for (auto &v : cv) if (v.ok) { auto d = v.add(a.second, -1); if (d.isConst() && d.c == 0) eq = true; else if (d.isConst() && d.c > 0) worst = v; }
        { auto d = LinD::A(x.cap).add(a.second, -1); if (d.isConst() && d.c <= 0) eq = true; else if (d.isConst() && d.c > 0) worst = d; }
        if (!eq && worst.ok) C.R.add(mk("growth-first", a.first, funcKey(&F) + "|" + name(x.arr), "'" + name(x.arr) + "' starts with fewer elements than its capacity '" + name(x.cap) + "'")); }
    }
  }
};
} // namespace
void runGrow(Ctx &C) {
  std::vector<std::unique_ptr<Grow>> all; std::map<const Function *, std::set<std::array<int, 3>>> G;
  for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) { all.push_back(std::make_unique<Grow>(C, F)); auto &g = *all.back(); g.run(); g.between(); if (g.sites) C.R.sets["functions_with_growing_lists"].insert(funcKey(&F)); for (auto &t : g.growerArgs()) G[&F].insert(t); }
  for (bool again = true; again;) { again = false; for (auto &g : all) for (auto &c : g->growerCalls(G)) { c.num = g->copied(c.num); c.cap = g->copied(c.cap); Grow::Site st; st.count = c.num; st.cap = c.cap; st.arrays = {c.arr}; auto keep = g->found; g->found = {st}; for (auto &t : g->growerArgs()) again |= G[&g->F].insert(t).second; g->found = keep; } }
  for (auto &g : all) if (isOutlined(&g->F)) for (auto *U : g->F.users()) if (auto *CB = dyn_cast<CallBase>(U)) for (auto &o : all) if (&o->F == CB->getFunction()) { g->par = o.get(); g->fork = CB; }
  for (auto &g : all) g->calls(G); C.R.counts["appending_functions"] = G.size();
}
} // namespace vcsa
