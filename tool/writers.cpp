// Files that are written: the text a function sends to its file is put together along every path, line by line, and compared with
// what the format asks for and with what the file itself announces (counts in its header, columns of its first line).
#include "common.h"
#include "lin.h"
namespace vcsa {
namespace {
bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
const Value *bare(const Value *V) {
  for (;;) {
    if (auto *C = dyn_cast<CastInst>(V)) { if (isa<ZExtInst>(C) || isa<SExtInst>(C) || isa<TruncInst>(C) || isa<FPExtInst>(C) || isa<FPTruncInst>(C)) { V = C->getOperand(0); continue; } }
    if (auto *P = dyn_cast<PHINode>(V)) { auto *K = P->hasConstantValue(); if (K && K != P) { V = K; continue; } }
    return V;
  }
}
const Value *streamOf(const Value *V) { // through upcasts and chains of <<
  for (int i = 0; i < 200; i++) {
    V = V->stripPointerCasts();
    if (auto *G = dyn_cast<GEPOperator>(V)) { V = G->getPointerOperand(); continue; }
    if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = calleeOf(CB); if (H && CB->arg_size() && (has(demangled(H), "operator<<") || has(demangled(H), "std::endl"))) { V = CB->getArgOperand(0); continue; } }
    return V;
  }
  return V;
}
std::string ptr(const void *p) { char b[32]; snprintf(b, sizeof b, "%p", p); return b; }
typedef std::map<const Value *, LinD> Env;
struct Ev { enum K { Lit, Int, Real, Text, Prec, Rep } k = Lit; std::string s; const Value *v = nullptr; const Instruction *at = nullptr; long n = 0; const Loop *L = nullptr; };
struct Path { std::vector<Ev> ev; std::map<std::string, bool> conds; std::set<std::string> fixed, opt; std::vector<const BasicBlock *> tr; bool latch = false, odd = false; const Instruction *end = nullptr; };
// a word of a line: the values in it, or the words that a loop repeats
struct Word { std::vector<Ev> parts; const Loop *rep = nullptr; LinD n; const Path *body = nullptr; long prec = 6; };
struct Line { std::vector<Word> w; const Instruction *at = nullptr; bool ended = false; };
struct Wr {
  Ctx &C; Function &F; DominatorTree DT; LoopInfo LI; const Value *S; bool csv = false; std::string kind; std::set<std::string> said;
  std::map<const Loop *, std::vector<Path>> memo; bool full = false;
  Wr(Ctx &C, Function &F, const Value *S) : C(C), F(F), DT(F), LI(DT), S(S) {}
  void bad(const Instruction *I, const std::string &key, const std::string &msg) { if (said.insert(key).second) C.R.add(mk("file-content", I, funcKey(&F) + "|" + key, msg)); }
  // ---- expressions ------------------------------------------------------
  // a number in an array: the array, and how far into it
  bool within(const Value *P, const Env *e, const Value *&b, LinD &i) { i = LinD::K(0); P = P->stripPointerCasts(); Type *T = nullptr; while (auto *G = dyn_cast<GEPOperator>(P)) { auto *E = G->getSourceElementType(); if (E->isStructTy() || G->getNumIndices() != 1 || (T && E != T)) break; T = E; i = i.add(lin(G->getOperand(1), e), 1); P = G->getPointerOperand()->stripPointerCasts(); } b = P; return i.ok; }
  std::string addr(const Value *P, const Env *e, int d) {
    P = P->stripPointerCasts(); if (d > 20) return "v" + ptr(P);
    if (auto *G = dyn_cast<GEPOperator>(P); G && !G->getSourceElementType()->isStructTy() && G->getNumIndices() == 1) { const Value *b; LinD i; within(P, e, b, i); return addr(b, e, d + 1) + (i.isConst() && i.c == 0 ? "" : "[" + i.str() + "]"); }
    if (auto *G = dyn_cast<GEPOperator>(P)) { std::string s = addr(G->getPointerOperand(), e, d + 1); bool first = true; for (auto it = G->idx_begin(); it != G->idx_end(); ++it) { auto l = lin(*it, e, d + 1); if (first && G->getSourceElementType()->isStructTy() && l.isConst() && l.c == 0) { first = false; continue; } first = false; s += (G->getSourceElementType()->isStructTy() ? "." : "[") + l.str() + (G->getSourceElementType()->isStructTy() ? "" : "]"); } return s; }
    return key(P, e, d + 1);
  }
  std::string key(const Value *V, const Env *e = nullptr, int d = 0) {
    V = bare(V); if (d > 20) return "v" + ptr(V);
    if (V->getType()->isIntegerTy() && (isa<BinaryOperator>(V) || isa<ConstantInt>(V))) return lin(V, e, d + 1).str();
    if (e && e->count(V)) return e->at(V).str();
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    if (auto *L = dyn_cast<LoadInst>(V)) return "*(" + addr(L->getPointerOperand(), e, d + 1) + ")";
    if (isa<GEPOperator>(V)) return addr(V, e, d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) return std::string(B->getOpcodeName()) + "(" + key(B->getOperand(0), e, d + 1) + "," + key(B->getOperand(1), e, d + 1) + ")";
    if (isa<ConstantFP>(V)) { std::string s; raw_string_ostream o(s); V->print(o); return s; }
    if (auto *I = dyn_cast<Instruction>(V)) if (!LI.getLoopFor(I->getParent())) return "w" + ptr(V);
    return "v" + ptr(V);
  }
  LinD lin(const Value *V, const Env *e = nullptr, int d = 0) {
    V = bare(V); if (e && e->count(V)) return e->at(V);
    if (auto *K = dyn_cast<ConstantInt>(V)) return LinD::K(K->getBitWidth() == 1 ? K->getZExtValue() : (double)K->getSExtValue());
    if (d < 20) if (auto *B = dyn_cast<BinaryOperator>(V)) {
      if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) return lin(B->getOperand(0), e, d + 1).add(lin(B->getOperand(1), e, d + 1), B->getOpcode() == Instruction::Add ? 1 : -1);
      if (B->getOpcode() == Instruction::Mul) return polyMul(lin(B->getOperand(0), e, d + 1), lin(B->getOperand(1), e, d + 1));
      if (B->getOpcode() == Instruction::Shl) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) return lin(B->getOperand(0), e, d + 1).scale((double)(1L << K->getZExtValue()));
    }
    if (V->getType()->isIntegerTy() && isa<BinaryOperator>(V)) return LinD::A("v" + ptr(V));
    return LinD::A(key(V, e, d + 1));
  }
  // do two values differ only in where they index? the differences
  bool alike(const Value *A, const Env *ea, const Value *B, const Env *eb, std::set<double> &df, int d = 0) {
    A = bare(A); B = bare(B); if (d > 20) return false;
    if (auto *x = dyn_cast<LoadInst>(A)) { auto *y = dyn_cast<LoadInst>(B); return y && alikeAt(x->getPointerOperand(), ea, y->getPointerOperand(), eb, df, d + 1); }
    if (A == B && !(ea && !ea->empty()) && !(eb && !eb->empty())) return true;
    if (auto *x = dyn_cast<BinaryOperator>(A); x && !A->getType()->isIntegerTy()) { auto *y = dyn_cast<BinaryOperator>(B); return y && x->getOpcode() == y->getOpcode() && alike(x->getOperand(0), ea, y->getOperand(0), eb, df, d + 1) && alike(x->getOperand(1), ea, y->getOperand(1), eb, df, d + 1); }
    if (auto *x = dyn_cast<CallBase>(A)) { auto *y = dyn_cast<CallBase>(B); if (!y || calleeOf(x) != calleeOf(y) || !calleeOf(x) || x->arg_size() != y->arg_size()) return A == B; for (unsigned i = 0; i < x->arg_size(); i++) if (!alike(x->getArgOperand(i), ea, y->getArgOperand(i), eb, df, d + 1)) return false; return true; }
    if (A->getType()->isIntegerTy() && B->getType()->isIntegerTy()) { auto q = lin(B, eb).add(lin(A, ea), -1); return q.isConst() && q.c == 0; }
    return A == B && (!isa<Instruction>(A) || ((!ea || ea->empty()) && (!eb || eb->empty())) || !LI.getLoopFor(cast<Instruction>(A)->getParent()));
  }
  bool alikeAt(const Value *A, const Env *ea, const Value *B, const Env *eb, std::set<double> &df, int d) {
    A = A->stripPointerCasts(); B = B->stripPointerCasts(); auto *g = dyn_cast<GEPOperator>(A), *h = dyn_cast<GEPOperator>(B);
    // p[0] may be written as *p
    if (g || h) {
      const Value *ba = g ? g->getPointerOperand() : A, *bb = h ? h->getPointerOperand() : B; bool st = (g && g->getSourceElementType()->isStructTy()) || (h && h->getSourceElementType()->isStructTy());
      if (st) { if (!g || !h || addr(A, ea, 0) != addr(B, eb, 0)) return false; return true; }
      LinD ia, ib; if (!within(A, ea, ba, ia) || !within(B, eb, bb, ib) || (ba == A && bb == B)) return addr(A, ea, 0) == addr(B, eb, 0);
      if (!alikeAt(ba, ea, bb, eb, df, d + 1)) return false; auto q = ib.add(ia, -1); if (!q.isConst()) return false; if (q.c != 0) df.insert(q.c); return true;
    }
    return alike(A, ea, B, eb, df, d + 1);
  }
  // the index constants of the numbers that a value is read from
  void columns(const Value *V, const Env *e, std::set<double> &cs, int d = 0) {
    V = bare(V); if (d > 10) return;
    if (auto *L = dyn_cast<LoadInst>(V)) { const Value *b; LinD i; if (within(L->getPointerOperand(), e, b, i)) cs.insert(i.c); else cs.insert(1e9); return; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { columns(B->getOperand(0), e, cs, d + 1); columns(B->getOperand(1), e, cs, d + 1); }
  }
  // ---- loops ------------------------------------------------------------
  struct Count { const PHINode *P = nullptr; LinD start, n; bool ok = false; };
  Count trips(const Loop *L) {
    Count r; auto *Br = dyn_cast<BranchInst>(L->getHeader()->getTerminator()); if (!Br || !Br->isConditional()) return r; auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (!Cm || L->contains(Br->getSuccessor(0)) == L->contains(Br->getSuccessor(1))) return r;
    auto pr = L->contains(Br->getSuccessor(0)) ? Cm->getPredicate() : Cm->getInversePredicate(); const Value *X = bare(Cm->getOperand(0)), *Y = bare(Cm->getOperand(1));
    auto ph = [&](const Value *V) { auto *P = dyn_cast<PHINode>(V); return P && P->getParent() == L->getHeader() ? P : nullptr; }; double off = 0; auto shifted = [&](const Value *&V) { auto *B = dyn_cast<BinaryOperator>(V); if (!B || (B->getOpcode() != Instruction::Add && B->getOpcode() != Instruction::Sub)) return; auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); if (!K || !ph(bare(B->getOperand(0)))) return; off = (B->getOpcode() == Instruction::Add ? 1 : -1) * (double)K->getSExtValue(); V = bare(B->getOperand(0)); };
    shifted(X); if (off == 0) shifted(Y); if (!ph(X) && ph(Y)) { std::swap(X, Y); pr = CmpInst::getSwappedPredicate(pr); } auto *P = ph(X); if (!P) return r;
    LinD st; bool have = false; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { auto *in = P->getIncomingValue(i); if (L->contains(P->getIncomingBlock(i))) { auto q = lin(in).add(lin(P), -1); if (!q.isConst() || q.c != 1) return r; } else { if (have) return r; have = true; st = lin(in); } }
    if (!have) return r; r.P = P; r.start = st; r.n = lin(Y).add(st, -1); r.n.c -= off; if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) r.n.c += 1; else if (pr != CmpInst::ICMP_ULT && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_NE) return r; r.ok = true; return r;
  }
  bool invariant(const Value *V, const Loop *L, int d = 0) { V = bare(V); if (d > 15) return false; auto *I = dyn_cast<Instruction>(V); if (!I) return true; if (isa<PHINode>(I) && L->contains(I->getParent())) return false; if (!L->contains(I->getParent())) return true; if (isa<CallBase>(I) || isa<AllocaInst>(I)) return false; for (auto &O : I->operands()) if (!invariant(O, L, d + 1)) return false; return true; }
  void cond(const Value *V, bool t, std::string &k, bool &truth, bool &null) {
    V = bare(V); truth = t; null = false;
    if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Xor) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); K && !K->isZero()) return cond(B->getOperand(0), !t, k, truth, null);
    if (auto *M = dyn_cast<ICmpInst>(V)) {
      auto *x = bare(M->getOperand(0)), *y = bare(M->getOperand(1)); auto zero = [](const Value *V) { return isa<ConstantPointerNull>(V) || (isa<ConstantInt>(V) && cast<ConstantInt>(V)->isZero()); };
      if (M->isEquality()) { if (zero(x)) std::swap(x, y); if (zero(y)) { bool tt = M->getPredicate() == ICmpInst::ICMP_NE ? t : !t; null = x->getType()->isPointerTy(); if (x->getType()->isIntegerTy(1) || isa<ICmpInst>(x)) return cond(x, tt, k, truth, null); k = key(x); truth = tt; return; } }
      auto one = [](const Value *V) { return isa<ConstantInt>(V) && cast<ConstantInt>(V)->isOne(); };
      if (M->isEquality()) { if (one(x)) std::swap(x, y); auto *Ld = dyn_cast<LoadInst>(x); if (one(y) && (x->getType()->isIntegerTy(1) || (Ld && Ld->getType()->isIntegerTy(8)) || isa<ICmpInst>(x))) { bool tt = M->getPredicate() == ICmpInst::ICMP_EQ ? t : !t; if (isa<ICmpInst>(x)) return cond(x, tt, k, truth, null); k = key(x); truth = tt; return; } }
      if (M->isEquality()) { auto a = key(x), b = key(y); if (b < a) std::swap(a, b); k = a + "==" + b; truth = M->getPredicate() == ICmpInst::ICMP_EQ ? t : !t; return; }
      if (M->getPredicate() == ICmpInst::ICMP_UGT && zero(y)) { k = key(x); return; } if (M->getPredicate() == ICmpInst::ICMP_ULT && zero(x)) { k = key(y); return; } if (M->getPredicate() == ICmpInst::ICMP_ULT && one(y)) { k = key(x); truth = !t; return; } if (M->getPredicate() == ICmpInst::ICMP_UGE && one(y)) { k = key(x); return; }
      auto p = M->getPredicate(); bool tt = t; if (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGT) { std::swap(x, y); } else if (p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGE) tt = !t; else if (p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_SLE) { std::swap(x, y); tt = !t; }
      k = key(x) + "<" + key(y); truth = tt; return;
    }
    k = key(V);
  }
  // ---- text -------------------------------------------------------------
  bool event(const CallBase *CB, Ev &e) {
    auto *H = calleeOf(CB); if (!H || CB->arg_size() < 1) return false; std::string d = demangled(H); e = Ev(); e.at = CB;
    if ((has(d, "std::endl") ) && streamOf(CB->getArgOperand(0)) == S) { e.s = "\n"; return true; }
    if (CB->arg_size() < 2 || streamOf(CB->getArgOperand(0)) != S) return false; auto *A = CB->getArgOperand(1);
    if (has(d, "::precision(")) { auto *K = dyn_cast<ConstantInt>(A); e.k = Ev::Prec; e.n = K ? K->getSExtValue() : 17; return true; }
    if (!has(d, "operator<<")) { if (has(d, "::put(")) { auto *K = dyn_cast<ConstantInt>(A); e.k = K ? Ev::Lit : Ev::Text; if (K) e.s = std::string(1, (char)K->getZExtValue()); return true; } if (has(d, "::write(")) { e.k = Ev::Text; return true; } return false; }
    if (auto *G = dyn_cast<Function>(A->stripPointerCasts())) { if (G->getName().contains("endl")) { e.s = "\n"; return true; } return false; }
    if (has(d, "_Setprecision")) { e.k = Ev::Prec; e.n = 17; const Value *V = A; for (int i = 0; i < 5; i++) { if (auto *X = dyn_cast<ExtractValueInst>(V)) V = X->getAggregateOperand(); else if (auto *X = dyn_cast<InsertValueInst>(V)) V = X->getInsertedValueOperand(); else break; } if (auto *P = dyn_cast<CallBase>(V)) if (P->arg_size()) if (auto *K = dyn_cast<ConstantInt>(P->getArgOperand(P->arg_size() - 1))) e.n = K->getSExtValue(); if (auto *K = dyn_cast<ConstantInt>(V)) e.n = K->getSExtValue(); return true; }
    if (has(d, "std::_Set")) return false;
    if (A->getType()->isPointerTy()) { StringRef s; if (getConstantStringInfo(A, s)) { e.s = s.str(); return true; } e.k = Ev::Text; e.v = A; return true; }
    if (A->getType()->isIntegerTy(8)) { auto *K = dyn_cast<ConstantInt>(A); if (K) { e.s = std::string(1, (char)K->getZExtValue()); return true; } e.k = Ev::Text; e.v = A; return true; }
    if (A->getType()->isFloatingPointTy()) { e.k = Ev::Real; e.v = A; return true; }
    if (A->getType()->isIntegerTy()) { e.k = Ev::Int; e.v = A; return true; }
    e.k = Ev::Text; e.v = A; return true;
  }
  static bool getConstantStringInfo(const Value *V, StringRef &s) { auto *G = dyn_cast<GlobalVariable>(V->stripPointerCasts()); if (!G) if (auto *Q = dyn_cast<GEPOperator>(V->stripPointerCasts())) if (Q->hasAllZeroIndices()) G = dyn_cast<GlobalVariable>(Q->getPointerOperand()->stripPointerCasts()); if (!G || !G->isConstant() || !G->hasInitializer()) return false; if (isa<ConstantAggregateZero>(G->getInitializer())) { s = ""; return true; } auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()); if (!D || !D->isCString()) return false; s = D->getAsCString(); return true; }
  bool writes(const Loop *L) { Ev e; for (auto *B : L->blocks()) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) if (event(CB, e) && e.k != Ev::Prec) return true; return false; }
  const std::vector<Path> &paths(const Loop *L) { // of one round of a loop, or of the whole function (from where the file is opened)
    auto it = memo.find(L); if (it != memo.end()) return it->second; auto &out = memo[L];
    struct St { const BasicBlock *B; Path p; }; std::vector<St> st; St s0; s0.B = L ? L->getHeader() : &F.getEntryBlock(); st.push_back(s0); size_t steps = 0;
    while (!st.empty()) {
      St s = std::move(st.back()); st.pop_back(); if (++steps > 60000 || out.size() > 4000) { full = true; break; }
      auto *B = s.B; auto *Cl = LI.getLoopFor(B); const Loop *in = Cl; while (in && in->getParentLoop() != L) in = in->getParentLoop();
      if (in && in != L) { // an inner loop as a whole
        if (writes(in)) { Ev e; e.k = Ev::Rep; e.L = in; e.at = &*in->getHeader()->getFirstNonPHIOrDbg(); for (auto *X : in->blocks()) for (auto &I : *X) if (auto *CB = dyn_cast<CallBase>(&I)) { Ev q; if (event(CB, q) && q.k != Ev::Prec) { e.at = CB; goto got; } } got: s.p.ev.push_back(e); }
        s.p.tr.push_back(in->getHeader()); SmallVector<BasicBlock *, 8> ex; in->getUniqueExitBlocks(ex); for (auto *X : ex) { if (X->isLandingPad() || isa<UnreachableInst>(X->getTerminator())) continue; go(st, s.p, X, L, out); } continue;
      }
      s.p.tr.push_back(B); bool dead = false;
      for (auto &I : *B) {
        if (auto *CB = dyn_cast<CallBase>(&I)) { Ev e; if (event(CB, e)) s.p.ev.push_back(e); if (auto *V = dyn_cast<InvokeInst>(CB)) { go(st, s.p, V->getNormalDest(), L, out); dead = true; break; } continue; }
        if (isa<ReturnInst>(I)) { s.p.end = &I; out.push_back(s.p); dead = true; break; }
        if (auto *Br = dyn_cast<BranchInst>(&I)) {
          dead = true; if (!Br->isConditional()) { go(st, s.p, Br->getSuccessor(0), L, out); break; }
          for (unsigned t = 0; t < 2; t++) { std::string k; bool truth, null; cond(along(Br->getCondition(), s.p), t == 0, k, truth, null); auto q = s.p.conds.find(k); if (q != s.p.conds.end() && q->second != truth) continue; Path p = s.p; if (auto *K = dyn_cast<ConstantInt>(along(Br->getCondition(), s.p))) { if (K->isZero() == (t == 0)) continue; } else { p.conds[k] = truth; if (null) p.opt.insert(k); if (L && invariant(Br->getCondition(), L)) p.fixed.insert(k); } go(st, p, Br->getSuccessor(t), L, out); }
          break;
        }
        if (I.isTerminator()) { dead = true; for (unsigned i = 0; i < I.getNumSuccessors(); i++) { Path p = s.p; p.odd = true; go(st, p, I.getSuccessor(i), L, out); } break; }
      }
      (void)dead;
    }
    return out;
  }
  template <class V> void go(V &st, const Path &p, const BasicBlock *B, const Loop *L, std::vector<Path> &out) {
    if (L && B == L->getHeader()) { Path q = p; q.latch = true; out.push_back(q); return; }
    if (L && !L->contains(B)) { Path q = p; q.end = &*B->getFirstNonPHIOrDbg(); q.tr.push_back(B); out.push_back(q); return; }
    st.push_back({B, p});
  }
  const Value *along(const Value *V, const Path &p) { // what a merged value is on this path
    for (int n = 0; n < 10; n++) {
      V = bare(V); auto *P = dyn_cast<PHINode>(V); if (!P) return V; auto *B = P->getParent(); size_t i = p.tr.size(); while (i > 0 && p.tr[i - 1] != B) i--; if (i < 2) return V; int ix = P->getBasicBlockIndex(p.tr[i - 2]); if (ix < 0) return V; if (LI.isLoopHeader(B)) return V; V = P->getIncomingValue(ix);
    }
    return V;
  }
  bool sep(char c) { return csv ? c == ',' : c == ' ' || c == '\t' || c == ',' || c == ';'; }
  bool usable(const Path &p) { if (p.odd) return false; for (auto &e : p.ev) if (e.k == Ev::Text) return false; return true; }
  // the lines of a path
  bool lines(const Path &p, std::vector<Line> &out, long prec = 6) {
    if (!usable(p)) return false; Line cur; bool open = false; auto put = [&](const Ev &e) { if (!open) { cur.w.emplace_back(); open = true; } if (!cur.at) cur.at = e.at; cur.w.back().parts.push_back(e); cur.w.back().prec = prec; };
    for (auto &e : p.ev) {
      if (e.k == Ev::Prec) { prec = e.n; continue; }
      if (e.k == Ev::Int || e.k == Ev::Real) { if (open && cur.w.back().parts.back().k != Ev::Lit) bad(e.at, "glued|" + describe(e.v), "'" + describe(e.v) + "' is written right behind another number, with nothing between them"); put(e); continue; }
      if (e.k == Ev::Lit) { for (char c : e.s) { if (c == '\n') { cur.ended = true; if (!cur.at) cur.at = e.at; out.push_back(cur); cur = Line(); open = false; } else if (sep(c)) open = false; else { if (c == ' ' && !open) continue; Ev q = e; q.s = std::string(1, c); if (open && cur.w.back().parts.back().k == Ev::Lit) { cur.w.back().parts.back().s += c; continue; } put(q); } } continue; }
      if (e.k == Ev::Rep) { // words that a loop repeats
        std::vector<const Path *> bs; for (auto &b : paths(e.L)) if (b.latch) bs.push_back(&b); Word w; w.rep = e.L; auto t = trips(e.L); w.n = t.ok ? t.n : LinD::A("v" + ptr(e.L)); w.prec = prec; Ev at; at.at = e.at;
        bool multi = false; for (auto *b : bs) for (auto &x : b->ev) multi |= x.k == Ev::Lit && has(x.s, "\n"); if (multi) { if (!cur.w.empty() || open) { out.push_back(cur); } cur = Line(); open = false; Line l; l.at = e.at; l.w.push_back(w); l.w[0].parts.push_back(e); out.push_back(l); long m = -1; for (auto *b : bs) { long q = prec; bool row = false; for (auto &x : b->ev) { if (x.k == Ev::Prec) q = x.n; row |= x.k == Ev::Lit && has(x.s, "\n"); } if (row && (m < 0 || q < m)) m = q; } if (m >= 0) prec = m; continue; }
        size_t k = SIZE_MAX; for (auto *b : bs) { std::vector<Line> ls; if (!lines(*b, ls, prec)) return false; size_t c = 0; for (auto &l : ls) for (auto &x : l.w) { if (x.rep) return false; c++; } if (k != SIZE_MAX && c != k) return false; k = c; w.body = b; }
        if (k == SIZE_MAX || k == 0) continue; auto edge = [&](bool front) { auto &ev = w.body->ev; for (size_t i = 0; i < ev.size(); i++) { auto &x = front ? ev[i] : ev[ev.size() - 1 - i]; if (x.k == Ev::Prec) continue; if (x.k != Ev::Lit) return 'v'; if (x.s.empty()) continue; char c = front ? x.s.front() : x.s.back(); return sep(c) || (csv && c == ' ') ? 's' : 'l'; } return 's'; };
        char a = edge(true), z = edge(false); if (a == 'v' && z == 'v') bad(e.at, "glued in a loop", "the numbers that a loop writes here run together: nothing is written between one and the next"); if (open && a == 'v' && !cur.w.back().rep && cur.w.back().parts.back().k != Ev::Lit) bad(e.at, "glued to a loop", "the first number that this loop writes runs together with the one before it");
        w.n = polyMul(w.n, LinD::K((double)k)); w.parts.push_back(e); if (!cur.at) cur.at = e.at; cur.w.push_back(w); open = z != 's'; continue;
      }
    }
    if (!cur.w.empty()) out.push_back(cur);
    return true;
  }
  LinD fields(const Line &l) { LinD r = LinD::K(0); for (auto &w : l.w) r = r.add(w.rep ? w.n : LinD::K(1), 1); return r; }
  static std::string word(const Word &w) { return !w.rep && w.parts.size() == 1 && w.parts[0].k == Ev::Lit ? w.parts[0].s : ""; }
  static const Ev *number(const Word &w) { return !w.rep && w.parts.size() == 1 && (w.parts[0].k == Ev::Int || w.parts[0].k == Ev::Real) ? &w.parts[0] : nullptr; }
  // the numbers of a line, those of loops with a fixed number of rounds one by one
  bool flat(const Line &l, std::string &types, std::vector<const Ev *> &ev) { for (auto &w : l.w) { if (w.rep) { std::vector<const Ev *> b; for (auto &x : w.body->ev) if (x.k == Ev::Int || x.k == Ev::Real) b.push_back(&x); double n = w.n.c / (b.empty() ? 1 : b.size()); if (!w.n.isConst() || n < 0 || n > 100) return false; for (int i = 0; i < (int)n; i++) for (auto *x : b) { types += x->k == Ev::Int ? 'i' : 'r'; ev.push_back(x); } } else if (auto *x = number(w)) { types += x->k == Ev::Int ? 'i' : 'r'; ev.push_back(x); } else return false; } return true; }
  std::string sub(std::string s, const PHINode *P) { auto a = "v" + ptr(P); for (size_t i; (i = s.find(a)) != std::string::npos;) s.replace(i, a.size(), "#"); return s; }
  // on which conditions of a round does something happen? (a conjunction, or nothing known)
  bool guard(const std::vector<std::pair<const Path *, bool>> &rounds, const PHINode *P, std::map<std::string, bool> &g) {
    bool first = true; for (auto &r : rounds) if (r.second) { if (first) { g = r.first->conds; first = false; } else for (auto it = g.begin(); it != g.end();) { auto q = r.first->conds.find(it->first); if (q == r.first->conds.end() || q->second != it->second) it = g.erase(it); else ++it; } }
    if (first) return false; std::map<std::string, bool> need; // only what rules out the other rounds
    for (auto &r : rounds) if (!r.second) { bool out = false; for (auto &c : g) { auto q = r.first->conds.find(c.first); if (q != r.first->conds.end() && q->second != c.second) { need[c.first] = c.second; out = true; } } if (!out) return false; }
    g.clear(); for (auto &c : need) g[sub(c.first, P)] = c.second; return true;
  }
  struct Many { bool ok = false; LinD range; std::map<std::string, bool> when; };
  Many counted(const Value *V) { // how many a counter has counted
    Many m; V = bare(V); auto *P = dyn_cast<PHINode>(V); auto *L = P ? LI.getLoopFor(P->getParent()) : nullptr; if (!P || !L || L->getHeader() != P->getParent()) return m; auto t = trips(L); if (!t.ok || t.P == P) return m; if (!t.start.isConst() || t.start.c != 0) return m;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (!L->contains(P->getIncomingBlock(i))) { auto *K = dyn_cast<ConstantInt>(P->getIncomingValue(i)); if (!K || !K->isZero()) return m; }
    std::vector<std::pair<const Path *, bool>> rs; for (auto &p : paths(L)) { if (!p.latch) { if (p.tr.size() > 2) return m; continue; } int ix = P->getBasicBlockIndex(p.tr.back()); if (ix < 0) return m; auto *N = along(P->getIncomingValue(ix), p); auto d = lin(N).add(lin(P), -1); if (!d.isConst() || (d.c != 0 && d.c != 1)) return m; rs.push_back({&p, d.c == 1}); }
    m.range = t.n; m.ok = guard(rs, t.P, m.when); return m;
  }
  static bool known(const std::map<std::string, bool> &g) { for (auto &c : g) if (has(c.first, "v0x")) return false; return true; }
  static bool comparable(const std::map<std::string, bool> &a, const std::map<std::string, bool> &b) { bool ab = true, ba = true, local = false; for (auto &c : a) if (!b.count(c.first)) { ab = false; local |= has(c.first, "w0x"); } for (auto &c : b) if (!a.count(c.first)) { ba = false; local |= has(c.first, "w0x"); } return ab || ba || !local; }
  static bool known(const LinD &l) { for (auto &t : l.t) if (has(t.first, "v0x")) return false; return l.ok; }
  // ---- the rules --------------------------------------------------------
  void components(const Line &l) { // x before y before z
    const Word *prev = nullptr; Env pe; 
    for (size_t i = 0; i < l.w.size(); i++) {
      auto &w = l.w[i]; const Ev *x = number(w); Env e; const Word *was = prev; Env we = pe; prev = nullptr; pe.clear();
      if (w.rep) { const Ev *only = nullptr; unsigned n = 0; for (auto &q : w.body->ev) if (q.k == Ev::Int || q.k == Ev::Real) { only = &q; n++; } auto t = trips(w.rep); if (n != 1 || only->k != Ev::Real || !t.ok || !t.start.isConst()) continue; x = only; e[t.P] = t.start; Env e2; e2[t.P] = t.start.add(LinD::K(1), 1); std::set<double> df; if (alike(x->v, &e, x->v, &e2, df) && !(df.size() == 1 && *df.begin() == 1)) bad(x->at, "step|" + describe(x->v), "the loop that writes '" + describe(x->v) + "' does not go through its columns one after the other"); }
      if (!x || x->k != Ev::Real) continue; C.R.counts["numbers_checked"]++;
      bool follows = false; if (was) { const Ev *y = number(*was); std::set<double> df; if (y && y->k == Ev::Real && alike(y->v, &we, x->v, &e, df)) { follows = true; if (!(df.size() == 1 && *df.begin() == 1)) bad(x->at, "order|" + describe(x->v), "'" + describe(x->v) + "' is written behind '" + describe(y->v) + "': not the next column of it" + (df.empty() ? ", but the same number again" : "")); } }
      bool begins = w.rep; if (!begins && i + 1 < l.w.size()) { const Ev *y = number(l.w[i + 1]); Env ne; if (l.w[i + 1].rep) { for (auto &q : l.w[i + 1].body->ev) if (q.k == Ev::Real) y = &q; auto t = trips(l.w[i + 1].rep); if (t.ok) ne[t.P] = t.start; } std::set<double> df; begins = y && y->k == Ev::Real && alike(x->v, &e, y->v, &ne, df); }
      if (!follows && begins) { std::set<double> cs; columns(x->v, &e, cs); for (double c : cs) if (c != 0 && c < 1e8) bad(x->at, "first|" + describe(x->v), "the numbers written from '" + describe(x->v) + "' on do not start with the first column"); }
      if (!w.rep) { prev = &w; pe = e; }
    }
  }
  std::string vname(const Value *V) { return "'" + describe(V) + "'"; }
  void run() {
    auto &tops = paths(nullptr); bool any = false;
    // which format?
    std::set<std::string> lits; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { Ev e; if (event(CB, e) && e.k == Ev::Lit) lits.insert(e.s); }
    bool comma = false; for (auto &s : lits) { comma |= has(s, ","); if (s == "ply" || s == "ply\n") kind = "PLY"; if (s.rfind("CELLS", 0) == 0) kind = "VCG"; if (s == "v " || s == "v") kind = "OBJ"; if (s.rfind("%!PS", 0) == 0) return; }
    if (kind.empty() && comma) kind = "CSV"; if (kind.empty()) return; csv = kind == "CSV"; C.R.sets["writers"].insert(shortName(&F) + " (" + kind + ")"); C.R.counts["writers"]++;
    if (full) { C.R.counts["writers_with_too_many_paths"]++; return; }
    std::set<const Loop *> seen; 
    for (auto &p : tops) {
      std::vector<Line> ls; if (!p.end || !lines(p, ls)) { C.R.counts["paths_not_understood"]++; continue; } if (ls.empty()) continue; any = true; C.R.counts["file_paths"]++;
      long prec = 6; size_t pi = 0; std::vector<std::pair<const Ev *, std::string>> ann; size_t used = 0; unsigned props = 0, recs = 0; const Line *head = nullptr;
      for (auto &l : ls) {
        bool isrec = l.w.size() == 1 && l.w[0].rep && !l.w[0].body; (void)prec; (void)pi;
        if (!isrec) {
          if (csv && !head) head = &l;
          std::vector<const Ev *> nums; std::string lead; bool plain = true; for (auto &w : l.w) { if (auto *x = number(w)) nums.push_back(x); else if (!word(w).empty()) { if (lead.empty()) lead = word(w); else lead += " " + word(w); } else plain = false; }
          if (plain && nums.size() == 1 && nums[0]->k == Ev::Int && !lead.empty()) ann.push_back({nums[0], lead}); if (lead.rfind("property float", 0) == 0 || lead.rfind("property double", 0) == 0) props++; continue;
        }
        auto *L = l.w[0].rep; recs++; record(L, l.w[0].prec, props, recs, head, p, used < ann.size() ? &ann[used] : nullptr, seen.insert(L).second, ann.empty() && used == 0 ? false : true); if (used < ann.size()) used++;
      }
      if (used < ann.size()) bad(ann[used].first->at, "missing|" + ann[used].second, "the file announces '" + ann[used].second + "' " + vname(ann[used].first->v) + ", but no such records follow on a path that ends at " + where(p.end));
    }
    if (!any) C.R.counts["writers_not_understood"]++;
  }
  void record(const Loop *L, long prec, unsigned props, unsigned nth, const Line *head, const Path &top, const std::pair<const Ev *, std::string> *ann, bool fresh, bool announces) {
    auto t = trips(L); auto &rounds = paths(L); auto &at = *L->getHeader()->getTerminator(); if (fresh) C.R.counts["record_loops"]++;
    auto &st = rounds; std::vector<std::pair<const Path *, bool>> rs; bool allOne = true, odd = false; std::vector<std::pair<const Path *, std::vector<Line>>> rows;
    for (auto &p : st) {
      if (!p.latch) { if (p.tr.size() > 2) { bool test = false; for (auto &c : p.conds) for (auto *B : p.tr) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) test |= c.first == "v" + ptr(CB) && CB->arg_size() && streamOf(CB->getArgOperand(0)) == S; if (!test && !failing(p)) bad(p.tr[p.tr.size() - 2]->getTerminator(), "cut short|" + std::to_string(nth), "the loop that writes the records can be left before the last one"); } continue; }
      std::vector<Line> ls; if (!lines(p, ls, prec)) { odd = true; continue; } unsigned n = 0; for (auto &l : ls) n += l.ended; bool partial = !ls.empty() && !ls.back().ended; rs.push_back({&p, n > 0}); if (n != 1) allOne = false; if (n > 1) odd = true; if (partial) { bool inner = false; for (auto &l : ls) inner |= l.w.size() == 1 && l.w[0].rep && !l.w[0].body; if (!inner) bad(ls.back().at, "unended|" + std::to_string(nth), "a record is not ended by a new line on a path through here"); else odd = true; } if (n) rows.push_back({&p, ls});
    }
    if (odd) { C.R.counts["record_loops_not_understood"]++; return; }
    // all records, from the first to the last
    if (t.ok && fresh && known(t.n)) { bool one = t.n.t.size() == 1 && t.n.t.begin()->second == 1; if (t.n.c != 0 && one) bad(&at, "range|" + std::to_string(nth), "the loop that writes the records " + std::string(t.start.c != 0 ? "does not start with the first" : t.n.c < 0 ? "stops before the last" : "goes beyond the last") + " one"); }
    // as many as announced
    if (ann) {
      Many m = counted(ann->first->v); auto *N = ann->first->v; auto nl = lin(N); C.R.counts["announced_counts"]++; std::string nm = "the file announces '" + ann->second + "' " + vname(N);
      if (t.ok && allOne) {
        if (m.ok) { if (!m.when.empty()) bad(ann->first->at, "count|" + ann->second, nm + ", which leaves some out, but a record is written for every one"); else { auto d = m.range.add(t.n, -1); if (known(d) && !(d.isConst() && d.c == 0)) bad(ann->first->at, "count|" + ann->second, nm + ", but another number of records is written"); else C.R.counts["announced_counts_matched"]++; } }
        else { auto d = nl.add(t.n, -1); if (d.isConst() && d.c == 0) C.R.counts["announced_counts_matched"]++; else if (known(d)) bad(ann->first->at, "count|" + ann->second, nm + ", but the loop that writes the records runs another number of times"); }
      } else if (t.ok) {
        std::map<std::string, bool> g; if (guard(rs, t.P, g)) {
          if (m.ok) { auto d = m.range.add(t.n, -1); if (known(g) && known(m.when) && comparable(g, m.when)) { if (g != m.when || (known(d) && !(d.isConst() && d.c == 0))) bad(ann->first->at, "count|" + ann->second, nm + ", counted under other conditions than those under which the records are written"); else C.R.counts["announced_counts_matched"]++; } }
          else { auto d = nl.add(t.n, -1); if (d.isConst() && d.c == 0) bad(ann->first->at, "count|" + ann->second, nm + ", but some of the records are left out"); }
        }
      }
    } else if (announces) bad(&at, "unannounced|" + std::to_string(nth), "records are written that the file does not announce");
    // the fields of a record
    for (auto &r : rows) for (auto &l : r.second) { if (fresh) { components(l); C.R.counts["record_lines"]++; } shape(l, *r.first, ann ? ann->second : "", props, nth, rows); }
    for (size_t i = 0; i < rows.size(); i++) for (size_t j = i + 1; j < rows.size(); j++) {
      auto a = fields(rows[i].second[0]), b = fields(rows[j].second[0]); auto d = b.add(a, -1); if (d.isConst() && d.c == 0) continue; bool may = false; auto &p = *rows[i].first, &q = *rows[j].first; for (auto &c : p.conds) { auto o = q.conds.find(c.first); if (o != q.conds.end() && o->second != c.second) may |= p.fixed.count(c.first) || p.opt.count(c.first); }
      if (!may && d.isConst()) bad(rows[j].second[0].at, "fields|" + std::to_string(nth), "a record has more fields on one path than on another that writes it");
    }
    // as many as the header names
    if (csv && head) { auto h = norm(fields(*head), nullptr); auto &q = hd[L]; q.at = &at; q.heads.push_back(h); for (auto &r : rows) { auto f = norm(fields(r.second[0]), t.P); q.rows.push_back({f, r.second[0].at}); } C.R.counts["headers_compared"]++; (void)top; }
  }
  struct Cols { const Instruction *at = nullptr; std::vector<LinD> heads; std::vector<std::pair<LinD, const Instruction *>> rows; };
  std::map<const Loop *, Cols> hd;
  void finish() {
    for (auto &h : hd) {
      bool exact = h.second.rows.empty(), all = true;
      for (auto &r : h.second.rows) { bool some = false; for (auto &x : h.second.heads) { auto d = r.first.add(x, -1); if (!known(d)) all = false; if (d.isConst() && d.c >= 0) some = true; if (d.isConst() && d.c == 0) exact = true; } if (!some && all) bad(r.second, "columns", "a record has fewer fields than the first line of the file names columns"); }
      if (!exact && all) bad(h.second.at, "header", "no record of the file has as many fields as its first line names columns");
    }
  }
  // a row's own number of attributes is taken for that of the first
  LinD norm(const LinD &l, const PHINode *P) { LinD r = LinD::K(l.c); r.ok = l.ok; for (auto &t : l.t) { auto k = t.first; if (P) { auto a = "+v" + ptr(P) + " "; for (size_t i; (i = k.find(a)) != std::string::npos;) k.replace(i, a.size(), "+0"); } for (size_t i; (i = k.find("[+0]")) != std::string::npos;) k.erase(i, 4); r = r.add(LinD::A(k), t.second); } return r; }
  bool failing(const Path &p) { auto *B = p.tr.back(); Path q = p; for (int i = 0; i < 20; i++) { if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) { auto *V = R->getReturnValue() ? along(R->getReturnValue(), q) : nullptr; auto *K = V ? dyn_cast<ConstantInt>(V) : nullptr; return K && !K->isZero(); } auto *Br = dyn_cast<BranchInst>(B->getTerminator()); const BasicBlock *N = nullptr; if (Br && !Br->isConditional()) N = Br->getSuccessor(0); if (auto *V = dyn_cast<InvokeInst>(B->getTerminator())) N = V->getNormalDest(); if (isa<UnreachableInst>(B->getTerminator())) return true; if (!N) return false; B = N; q.tr.push_back(B); } return false; }
  void need(const Line &l, unsigned n) { for (auto &w : l.w) { bool real = false; const Instruction *at = l.at; if (auto *x = number(w)) { real = x->k == Ev::Real; at = x->at; } long pr = w.prec; if (w.rep) for (auto &x : w.body->ev) { if (x.k == Ev::Prec) pr = x.n; if (x.k == Ev::Real) real = true; } if (real && pr < (long)n) bad(at, "precision", "real numbers are written here with " + std::to_string(pr) + " digits; files of this kind hold " + std::to_string(n) + " (they are read back as input)"); } }
  double base(const Value *V) { auto l = lin(V); return l.ok ? l.c : 1e9; }
  void shape(const Line &l, const Path &p, const std::string &lead, unsigned props, unsigned nth, const std::vector<std::pair<const Path *, std::vector<Line>>> &rows) {
    auto ix = [&](const Ev *x, double want, const char *why) { double b = base(x->v); auto q = lin(x->v); if (q.t.size() == 1 && q.t.begin()->second == 1 && q.t.begin()->first[0] == '*' && b != want) bad(x->at, "base|" + describe(x->v), "'" + describe(x->v) + "' is written " + (b > want ? "with 1 added" : "without 1 added") + why); };
    auto listed = [&](const Word &w) { if (!w.rep) return; auto t = trips(w.rep); for (auto &x : w.body->ev) if (x.k == Ev::Int && t.ok) { auto q = lin(x.v); auto *V = bare(x.v); if (auto *B = dyn_cast<BinaryOperator>(V)) V = bare(isa<ConstantInt>(B->getOperand(1)) ? B->getOperand(0) : B->getOperand(1)); auto *Ld = dyn_cast<LoadInst>(V); const Value *lb; LinD f; Env e; e[t.P] = t.start; if (!Ld || !within(Ld->getPointerOperand(), &e, lb, f)) continue; if (f.isConst() && f.c != 1) bad(x.at, "list|" + describe(x.v), "the corners of a face are written from entry " + std::to_string((long)f.c) + " of its list on; entry 0 is their number, and the first corner is entry 1"); Env e2; e2[t.P] = t.start.add(LinD::K(1), 1); LinD f2; within(Ld->getPointerOperand(), &e2, lb, f2); auto s = f2.add(f, -1); if (s.isConst() && s.c != 1) bad(x.at, "list step|" + describe(x.v), "the corners of a face are not written one after the other"); } };
    if (kind == "OBJ") {
      std::string w0 = l.w.empty() ? "" : word(l.w[0]); Line r = l; if (!r.w.empty()) r.w.erase(r.w.begin()); std::string ty; std::vector<const Ev *> ev; bool f = flat(r, ty, ev);
      if (w0 == "v") { need(l, 16); if (f && ty != "rrr") bad(l.at, "vertex", "a vertex is not written as three real numbers"); }
      else if (w0 == "f") { for (auto &w : l.w) { if (auto *x = number(w)) ix(x, 1, ": faces refer to vertices counted from 1"); if (w.rep) { listed(w); for (auto &x : w.body->ev) if (x.k == Ev::Int) ix(&x, 1, ": faces refer to vertices counted from 1"); } } if (f && ty.size() < 3) bad(l.at, "face", "a face is written with fewer than three corners"); }
      else if (w0.empty()) bad(l.at, "key", "a line of the file does not say whether it is a vertex or a face");
    } else if (kind == "PLY") {
      std::string ty; std::vector<const Ev *> ev; bool f = flat(l, ty, ev);
      if (lead == "element vertex") { if (f && props && ty != std::string(props, 'r')) bad(l.at, "vertex", "a vertex is not written as the " + std::to_string(props) + " real numbers that the header names"); }
      else if (lead == "element face" && !l.w.empty()) { auto *n = number(l.w[0]); if (!n || n->k != Ev::Int) { bad(l.at, "face", "a face does not begin with the number of its corners"); return; } LinD rest = fields(l); rest.c -= 1; auto d = rest.add(lin(n->v), -1); if (!(d.isConst() && d.c == 0) && known(d)) bad(n->at, "corners", "a face announces " + vname(n->v) + " corners, but another number of them follows"); for (size_t i = 1; i < l.w.size(); i++) { listed(l.w[i]); if (auto *x = number(l.w[i])) ix(x, 0, ": faces refer to vertices counted from 0"); if (l.w[i].rep) for (auto &x : l.w[i].body->ev) if (x.k == Ev::Int) ix(&x, 0, ": faces refer to vertices counted from 0"); } }
    } else if (kind == "VCG") {
      need(l, 16); std::string ty; std::vector<const Ev *> ev; if (!flat(l, ty, ev)) return; std::string want = lead == "CELLS" ? "irrrri" : lead == "CONNECTIONS" ? "iirrrrrrr" : ""; if (want.empty()) return;
      if (ty != want) { bad(l.at, "fields of " + lead, "a line of " + lead + " has the fields '" + ty + "' (i: integer, r: real), not '" + want + "'"); return; }
      for (size_t i = 0; i < (lead == "CELLS" ? 1 : 2); i++) { auto *V = along(ev[i]->v, p); Ev x = *ev[i]; x.v = V; ix(&x, 1, ": cells are counted from 1 in this file"); ids(V, p, ev[i], lead, i); }
    } else if (csv) need(l, shortName(&F).find("save_") != std::string::npos ? 16 : 12);
  }
  // the number of a cell comes from the list of new numbers, and not for a ghost that has none
  std::map<std::string, std::string> idsFrom; 
  void ids(const Value *V, const Path &p, const Ev *x, const std::string &lead, size_t col) {
    auto *B = dyn_cast<BinaryOperator>(bare(V)); const Value *Q = V; if (B && B->getOpcode() == Instruction::Add) Q = isa<ConstantInt>(B->getOperand(1)) ? B->getOperand(0) : B->getOperand(1); auto *Ld = dyn_cast<LoadInst>(bare(Q)); if (!Ld) { if (isa<PHINode>(bare(Q)) && lead == "CONNECTIONS" && idsFrom.count("CELLS")) return; return; }
    auto *G = dyn_cast<GEPOperator>(Ld->getPointerOperand()); if (!G || G->getNumIndices() != 1) return; auto arr = key(G->getPointerOperand()); auto who = lin(along(G->getOperand(1), p)).str(); C.R.counts["cell_numbers_checked"]++;
    if (!idsFrom.count("")) idsFrom[""] = arr; else if (idsFrom[""] != arr) bad(x->at, "map|" + lead + std::to_string(col), vname(x->v) + " numbers a cell by another list than the one used elsewhere in the file");
    for (auto &c : p.conds) if (!c.second && c.first.size() > who.size() + 3 && has(c.first, "*(") && c.first.substr(c.first.size() - who.size() - 2) == who + "])" && c.first.find(arr) == std::string::npos) bad(x->at, "ghost|" + lead + std::to_string(col), vname(x->v) + " is written for a cell that was just found to have no region: it has no number in the file");
  }
  // ---- what is read -----------------------------------------------------
  // the words of a line go where they belong: numbers are taken from the line in the order in which they are kept, without gaps
  void reads() {
    struct Group { const Instruction *at; LinD from, to, d0; bool real, ranged; LinD plus; }; std::vector<Group> gs; bool obj = false, lost = false;
    for (auto &I : instructions(F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (H && has(demangled(H), "operator==") && CB->arg_size() > 1) { StringRef t; if (getConstantStringInfo(CB->getArgOperand(1), t) && (t == "v" || t == "f")) obj = true; } }
      auto *St = dyn_cast<StoreInst>(&I); if (!St) continue; auto *V = bare(St->getValueOperand()); LinD plus = LinD::K(0);
      if (auto *B = dyn_cast<BinaryOperator>(V); B && V->getType()->isIntegerTy() && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) { plus.c = (B->getOpcode() == Instruction::Add ? 1 : -1) * (double)K->getSExtValue(); V = bare(B->getOperand(0)); }
      auto *Cv = dyn_cast<CallBase>(V); auto *H = Cv ? calleeOf(Cv) : nullptr; if (!H || !(has(demangled(H), "string_to_double") || has(demangled(H), "string_to_size_t"))) continue; const CallBase *Tk = nullptr;
      for (auto &A : Cv->args()) for (auto *J = dyn_cast<Instruction>(&*A); J && !Tk;) { auto *Q = dyn_cast<CallBase>(J); auto *G = Q ? calleeOf(Q) : nullptr; if (!G || Q->arg_size() < 1) break; auto n = demangled(G); if (has(n, "vector<") && (has(n, "operator[]") || has(n, "::at("))) { Tk = Q; break; } break; }
      if (!Tk) for (auto &A : Cv->args()) if (auto *X = dyn_cast<AllocaInst>(A->stripPointerCasts())) for (auto *U : X->users()) if (auto *Q = dyn_cast<CallBase>(U); Q && Q != Cv && DT.dominates(Q, Cv)) if (auto *G = calleeOf(Q); G && has(demangled(G), "basic_string(") && Q->arg_size() > 1) if (auto *T2 = dyn_cast<CallBase>(Q->getArgOperand(1))) if (auto *G2 = calleeOf(T2); G2 && has(demangled(G2), "operator[]")) Tk = T2;
      if (!Tk || Tk->arg_size() < 2) continue; const Value *b; LinD i; if (!within(St->getPointerOperand(), nullptr, b, i)) continue; auto k = lin(Tk->getArgOperand(1)); Group g; g.at = St; g.real = V->getType()->isFloatingPointTy(); g.plus = plus; g.ranged = false;
      auto *L = LI.getLoopFor(St->getParent()); Count t; if (L) t = trips(L); C.R.counts["values_read"]++;
      if (t.ok && k.has("v" + ptr(t.P))) {
        double ck = k.t.count("v" + ptr(t.P)) ? k.t["v" + ptr(t.P)] : 0, ci = i.t.count("v" + ptr(t.P)) ? i.t["v" + ptr(t.P)] : 0; if (ck != 1) { lost = true; continue; } if (!invariant(b, L)) { lost = true; continue; } if (ci != 1) { if (known(i.add(LinD::A("v" + ptr(t.P)), -ci)) ) bad(St, "read order|" + describe(b), "the words of a line are not kept in the order in which they are written"); continue; }
        auto z = [&](LinD l) { l.t.erase("v" + ptr(t.P)); return l.add(t.start, 1); }; g.from = z(k); g.to = g.from.add(t.n, 1); g.d0 = z(i); g.ranged = true;
      } else { if (L && !invariant(Tk->getArgOperand(1), L) && !k.isConst()) { lost = true; continue; } g.from = k; g.to = k.add(LinD::K(1), 1); g.d0 = i; }
      gs.push_back(g);
    }
    if (gs.empty() || lost) return; C.R.counts["readers"]++; C.R.sets["readers"].insert(shortName(&F)); double first = obj ? 1 : 0;
    for (auto &g : gs) {
      auto r = [&](const LinD &l) { return l.isConst() && l.c == first; }; bool ok = r(g.from) || !known(g.from); for (auto &h : gs) { auto d = g.from.add(h.to, -1); ok |= &h != &g && d.isConst() && d.c == 0; auto same = g.from.add(h.from, -1); if (!obj && &h < &g && known(g.from) && same.isConst() && same.c == 0 && g.real != h.real) bad(g.at, "read twice", "the numbers kept here are taken from the same words of the line as others"); }
      if (!ok) bad(g.at, "read gap|" + g.from.str().substr(0, 3) + std::to_string(g.real), "the numbers kept here are taken from the line starting with a word that is neither its first nor the one behind others that are kept");
      if (obj && !g.real && !(g.plus.c == -1)) bad(g.at, "read base", "the number of a vertex in the file counts from 1; it is kept here without 1 subtracted");
      if (g.ranged && g.d0.c != (obj && !g.real ? 1 : 0) && (g.d0.isConst() || !obj)) bad(g.at, "read first|" + std::to_string(g.real), "the first number read here is kept in column " + std::to_string((long)g.d0.c) + ", not in the first of its kind");
    }
  }
};
} // namespace
void runWriters(Ctx &C) {
  for (auto &F : *C.M) {
    if (F.isDeclaration() || !isRepoFunc(&F)) continue;
    bool in = false; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) in |= has(H->getName().str(), "string_to_double") || has(H->getName().str(), "string_to_size_t"); if (in) { Wr w(C, F, nullptr); w.reads(); }
    for (auto &I : instructions(F)) { auto *A = dyn_cast<AllocaInst>(&I); if (!A) continue; bool out = false; for (auto *U : A->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (auto *H = calleeOf(CB)) { auto d = demangled(H); out |= has(d, "basic_fstream(") || has(d, "basic_ofstream("); } if (!out) continue; C.R.counts["output_files"]++; Wr w(C, F, A); w.run(); w.finish(); }
  }
}
} // namespace vcsa
