#include "facts.h"
namespace vcsa {
static const Value *strip(const Value *V) {
  for (;;) {
    if (auto *C = dyn_cast<CastInst>(V)) { if (isa<ZExtInst>(C) || isa<SExtInst>(C) || isa<TruncInst>(C)) { V = C->getOperand(0); continue; } }
    if (auto *Fz = dyn_cast<FreezeInst>(V)) { V = Fz->getOperand(0); continue; }
    return V;
  }
}
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }

bool isSizeCall(const CallBase *CB) {
  auto *G = calleeOf(CB); if (!G || CB->arg_size() != 1) return false;
  std::string d = demangled(G);
  return d.rfind("std::", 0) == 0 && (has(d, ">::size() const") || has(d, ">::length() const")) ;
}
bool isVectorIndex(const CallBase *CB) {
  auto *G = calleeOf(CB); if (!G) return false;
  std::string d = demangled(G);
  return (d.rfind("std::vector<", 0) == 0 || d.rfind("std::deque<", 0) == 0) && has(d, ">::operator[](");
}
static bool isEmptyCall(const CallBase *CB) { auto *G = calleeOf(CB); if (!G) return false; std::string d = demangled(G); return d.rfind("std::", 0) == 0 && has(d, ">::empty() const"); }

ModSets::ModSets(Module &M) {
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      auto &m = mod[&F]; auto &wa = writesArg[&F];
      auto noteArg = [&](const Value *P) {
        const Value *O = P; 
        for (int i = 0; i < 30; i++) { O = O->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(O)) { O = G->getPointerOperand(); continue; } break; }
        if (auto *A = dyn_cast<Argument>(O)) if (wa.insert(A->getArgNo()).second) ch = true;
      };
      for (auto &I : instructions(F)) {
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          const Value *P = S->getPointerOperand();
          if (auto *G = dyn_cast<GEPOperator>(P)) { auto n = fieldOf(G, &M); if (!n.empty() && m.insert(n).second) ch = true; }
          else { auto n = firstField(P); if (!n.empty() && m.insert(n).second) ch = true; }
          if (auto *G = dyn_cast<GlobalVariable>(P)) if (m.insert("global " + G->getName().str()).second) ch = true;
          noteArg(P);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *H = calleeOf(CB); if (!H) continue;
          if (auto it = mod.find(H); it != mod.end()) for (auto &x : it->second) if (m.insert(x).second) ch = true;
          for (unsigned i = 0; i < CB->arg_size(); i++) {
            if (!CB->getArgOperand(i)->getType()->isPointerTy()) continue;
            bool w = H->isDeclaration() ? !(H->getName().starts_with("llvm.") || CB->onlyReadsMemory(i)) : writesArg[H].count(i) > 0;
            if (!H->isDeclaration() && !isRepoFunc(H) && !isOutlined(H)) { std::string d = demangled(H); if (d.size() > 6 && d.substr(d.size() - 6) == " const") w = false; }
            if (w) noteArg(CB->getArgOperand(i));
          }
        }
      }
    }
  }
}

std::string Facts::addrKey(const Value *P, int depth) {
  if (depth > 8) return "";
  P = P->stripPointerCasts();
  if (isa<AllocaInst>(P) || isa<Argument>(P)) { char b[32]; snprintf(b, sizeof b, "p%p", (const void *)P); return b; }
  if (auto *G = dyn_cast<GlobalVariable>(P)) return "g" + G->getName().str();
  if (auto *G = dyn_cast<GEPOperator>(P)) {
    std::string s = addrKey(G->getPointerOperand(), depth + 1); if (s.empty()) return "";
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
      const Value *x = strip(*it);
      if (auto *CI = dyn_cast<ConstantInt>(x)) s += "." + std::to_string(CI->getSExtValue());
      else { char b[32]; snprintf(b, sizeof b, ".[%p]", (const void *)x); s += b; }
    }
    return s;
  }
  if (auto *L = dyn_cast<LoadInst>(P)) { std::string s = addrKey(L->getPointerOperand(), depth + 1); return s.empty() ? "" : "*(" + s + ")"; }
  char b[32]; snprintf(b, sizeof b, "v%p", (const void *)P); return b;
}

Lx Facts::lin(const Value *V0, int depth) {
  Lx r; const Value *V = strip(V0);
  if (auto *CI = dyn_cast<ConstantInt>(V)) { if (CI->getBitWidth() <= 64) r.c = CI->getBitWidth() == 1 ? CI->getZExtValue() : CI->getSExtValue(); else r.ok = false; return r; }
  if (depth < 12) {
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) { Lx a = lin(B->getOperand(0), depth + 1), b = lin(B->getOperand(1), depth + 1); a.add(b, B->getOpcode() == Instruction::Add ? 1 : -1); return a; }
      if (B->getOpcode() == Instruction::Mul) {
        Lx a = lin(B->getOperand(0), depth + 1), b = lin(B->getOperand(1), depth + 1);
        if (a.t.empty()) { Lx q; q.add(b, a.c); return q; }
        if (b.t.empty()) { Lx q; q.add(a, b.c); return q; }
        std::string x = a.str(), y = b.str(); if (y < x) std::swap(x, y);
        r.t["(" + x + ")*(" + y + ")"] = 1; return r;
      }
      if (B->getOpcode() == Instruction::Shl) if (auto *CI = dyn_cast<ConstantInt>(B->getOperand(1))) { Lx a = lin(B->getOperand(0), depth + 1), q; q.add(a, 1L << CI->getZExtValue()); return q; }
    }
    if (auto *P = dyn_cast<PHINode>(V)) { if (auto *C = P->hasConstantValue()) if (C != P) return lin(C, depth + 1); }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      std::string k = addrKey(L->getPointerOperand());
      if (!k.empty()) { k = "L(" + k + ")"; symDeps[k].push_back(L); symAddr[k] = L->getPointerOperand(); r.t[k] = 1; return r; }
    }
    if (auto *CB = dyn_cast<CallBase>(V)) if (isSizeCall(CB)) {
      std::string k = addrKey(CB->getArgOperand(0));
      if (!k.empty()) { k = "S(" + k + ")"; symDeps[k].push_back(CB); symAddr[k] = CB->getArgOperand(0); r.t[k] = 1; return r; }
    }
  }
  char b[40]; snprintf(b, sizeof b, "v%p", (const void *)V); r.t[b] = 1; return r;
}

std::set<const Instruction *> Facts::readsOf(const Value *V0) {
  std::set<const Instruction *> s; std::vector<const Value *> w{V0}; std::set<const Value *> seen;
  while (!w.empty()) {
    auto *V = strip(w.back()); w.pop_back(); if (!seen.insert(V).second) continue;
    auto *I = dyn_cast<Instruction>(V); if (!I) continue;
    if (isa<LoadInst>(I) || isa<CallBase>(I)) { s.insert(I); continue; }
    if (isa<BinaryOperator>(I) || isa<CmpInst>(I)) for (auto &O : I->operands()) w.push_back(O);
  }
  return s;
}

void Facts::fromCond(const Value *C, bool truth, const Instruction *at, std::vector<Fact> &out, int depth) {
  if (depth > 10) return;
  C = strip(C);
  if (auto *B = dyn_cast<BinaryOperator>(C)) {
    if (B->getOpcode() == Instruction::Xor) if (auto *CI = dyn_cast<ConstantInt>(B->getOperand(1))) if (!CI->isZero()) { fromCond(B->getOperand(0), !truth, at, out, depth + 1); return; }
    if (B->getOpcode() == Instruction::And && truth) { fromCond(B->getOperand(0), true, at, out, depth + 1); fromCond(B->getOperand(1), true, at, out, depth + 1); }
    if (B->getOpcode() == Instruction::Or && !truth) { fromCond(B->getOperand(0), false, at, out, depth + 1); fromCond(B->getOperand(1), false, at, out, depth + 1); }
    return;
  }
  if (auto *S = dyn_cast<SelectInst>(C)) {
    auto *T = dyn_cast<ConstantInt>(S->getTrueValue()), *E = dyn_cast<ConstantInt>(S->getFalseValue());
    if (E && E->isZero() && truth) { fromCond(S->getCondition(), true, at, out, depth + 1); fromCond(S->getTrueValue(), true, at, out, depth + 1); }
    if (T && T->isOne() && !truth) { fromCond(S->getCondition(), false, at, out, depth + 1); fromCond(S->getFalseValue(), false, at, out, depth + 1); }
    return;
  }
  if (auto *P = dyn_cast<PHINode>(C)) {
    // the value is `truth` only when control came through the incoming edges that can carry it
    int cand = -1, n = 0;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { auto *K = dyn_cast<ConstantInt>(strip(P->getIncomingValue(i))); if (K && (K->isZero() == truth)) continue; cand = i; n++; }
    if (n == 1) {
      auto *T = P->getIncomingBlock(cand)->getTerminator();
      if (!DT.isReachableFromEntry(T->getParent())) return;
      if (DT.dominates(P->getParent(), T->getParent())) return; // came around a loop: the facts are of an earlier iteration
      for (auto &f : this->at(T)) out.push_back(f);
      if (auto *Br = dyn_cast<BranchInst>(T)) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) fromCond(Br->getCondition(), Br->getSuccessor(0) == P->getParent(), Br, out, depth + 1);
      if (!isa<ConstantInt>(strip(P->getIncomingValue(cand)))) fromCond(P->getIncomingValue(cand), truth, T, out, depth + 1);
    }
    return;
  }
  if (auto *CB = dyn_cast<CallBase>(C)) if (isEmptyCall(CB)) {
    std::string k = addrKey(CB->getArgOperand(0)); if (k.empty()) return; k = "S(" + k + ")"; symDeps[k].push_back(CB); symAddr[k] = CB->getArgOperand(0);
    Fact f; f.at = CB; f.deps.push_back(CB);
    if (truth) { f.e.t[k] = -1; } else { f.e.t[k] = 1; f.e.c = -1; }
    out.push_back(f); return;
  }
  auto *Cm = dyn_cast<ICmpInst>(C); if (!Cm) return;
  if (!Cm->getOperand(0)->getType()->isIntegerTy()) return;
  // comparison of a boolean with 0
  if (auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1))) if (K->isZero() && Cm->isEquality()) {
    const Value *x = strip(Cm->getOperand(0));
    if (x->getType()->isIntegerTy(1) || isa<CmpInst>(x) || (isa<PHINode>(x) && x->getType()->isIntegerTy(8)) || (isa<CallBase>(x) && isEmptyCall(cast<CallBase>(x)))) { fromCond(x, (Cm->getPredicate() == CmpInst::ICMP_NE) == truth, at, out, depth + 1); return; }
  }
  auto pred = truth ? Cm->getPredicate() : Cm->getInversePredicate();
  Lx a = lin(Cm->getOperand(0)), b = lin(Cm->getOperand(1));
  if (!a.ok || !b.ok) return;
  std::vector<const Instruction *> deps; for (auto *x : readsOf(Cm)) deps.push_back(x);
  auto push = [&](const Lx &p, const Lx &q, long k) { Fact f; f.e = p; f.e.add(q, -1); f.e.c += k; f.at = Cm; f.deps = deps; out.push_back(f); }; // p - q + k >= 0
  switch (pred) {
  case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: push(a, b, -1); break;
  case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: push(a, b, 0); break;
  case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: push(b, a, -1); break;
  case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: push(b, a, 0); break;
  case CmpInst::ICMP_EQ: push(a, b, 0); push(b, a, 0); break;
  case CmpInst::ICMP_NE: { Fact f; f.e = a; f.e.add(b, -1); f.neZero = true; f.at = Cm; f.deps = deps; out.push_back(f);
    // unsigned and different from 0: at least 1
    if (b.t.empty() && b.c == 0) push(a, Lx(), -1); else if (a.t.empty() && a.c == 0) push(b, Lx(), -1);
    break; }
  default: break;
  }
}

std::vector<Fact> Facts::at(const Instruction *I) {
  std::vector<Fact> out;
  const BasicBlock *BB = I->getParent();
  if (!DT.isReachableFromEntry(BB)) return out;
  for (auto *N = DT.getNode(BB)->getIDom(); N; N = N->getIDom()) {
    const BasicBlock *D = N->getBlock();
    auto *T = D->getTerminator();
    if (auto *Br = dyn_cast<BranchInst>(T)) {
      if (!Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      for (int s = 0; s < 2; s++) if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(s)), BB)) fromCond(Br->getCondition(), s == 0, Br, out);
    } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
      for (auto &Cs : Sw->cases()) if (DT.dominates(BasicBlockEdge(D, Cs.getCaseSuccessor()), BB)) {
        Fact f; f.e = lin(Sw->getCondition()); Lx k; k.c = Cs.getCaseValue()->getSExtValue(); f.e.add(k, -1); f.at = Sw; for (auto *x : readsOf(Sw->getCondition())) f.deps.push_back(x); out.push_back(f); Fact g = f; g.e = Lx(); g.e.add(f.e, -1); out.push_back(g);
      }
    }
  }
  return out;
}

bool Facts::mayWrite(const Instruction *J, const std::string &sym, const Value *addr) {
  bool isSize = sym[0] == 'S';
  const Value *A = addr->stripPointerCasts();
  const AllocaInst *al = dyn_cast<AllocaInst>(A);
  std::string fld; if (auto *G = dyn_cast<GEPOperator>(A)) fld = fieldOf(G, F.getParent()); else fld = firstField(A);
  if (auto *S = dyn_cast<StoreInst>(J)) {
    if (isSize) return false;
    const Value *P = S->getPointerOperand()->stripPointerCasts();
    if (addrKey(P) == addrKey(A)) return true;
    if (isa<AllocaInst>(P) || al) return false;
    if (S->getValueOperand()->getType() != Type::getInt64Ty(J->getContext()) && !fld.empty()) {}
    if (auto *G = dyn_cast<GEPOperator>(P)) { auto n = fieldOf(G, F.getParent()); if (!n.empty() && !fld.empty()) return n == fld; if (!fld.empty() || isa<Argument>(A)) return false; return true; }
    return isa<Argument>(P) && isa<Argument>(A) ? P == A : fld.empty();
  }
  auto *CB = dyn_cast<CallBase>(J); if (!CB) return false;
  if (isa<DbgInfoIntrinsic>(CB)) return false;
  auto *H = calleeOf(CB);
  if (H && H->getName().starts_with("llvm.")) return false;
  for (unsigned i = 0; i < CB->arg_size(); i++) {
    const Value *P = CB->getArgOperand(i)->stripPointerCasts();
    if (!P->getType()->isPointerTy()) continue;
    if (addrKey(P) != addrKey(A) && !(al && P == al)) continue;
    if (!H) return true;
    std::string d = demangled(H);
    if (d.size() > 6 && d.substr(d.size() - 6) == " const") continue;
    if (!isRepoFunc(H) && (has(d, ">::operator[](") || has(d, ">::begin(") || has(d, ">::end(") || has(d, ">::back(") || has(d, ">::front(") || has(d, ">::at(") || has(d, ">::data("))) continue;
    if (!H->isDeclaration() && (isRepoFunc(H) || isOutlined(H))) { auto it = MS.writesArg.find(H); if (it != MS.writesArg.end() && !it->second.count(i)) continue; }
    return true;
  }
  if (!fld.empty() && H && !H->isDeclaration()) { auto it = MS.mod.find(H); if (it != MS.mod.end() && it->second.count(fld)) return true; }
  return false;
}

// may memory read at `from` be overwritten on a path from `from` to `to` that does not read it again?
bool Facts::clobbered(const Instruction *from, const Instruction *to, const std::string &sym, const Value *addr) {
  std::vector<std::pair<const Instruction *, bool>> w;
  if (auto *IV = dyn_cast<InvokeInst>(from)) w.push_back({&IV->getNormalDest()->front(), false}); else w.push_back({from->getNextNode(), false});
  std::set<std::pair<const BasicBlock *, bool>> vis;
  while (!w.empty()) {
    auto [S, dirty] = w.back(); w.pop_back();
    bool stop = false; bool d = dirty;
    for (const Instruction *Q = S; Q; Q = Q->getNextNode()) {
      if (Q == to) { if (d) return true; stop = true; break; }
      if (Q == from) { stop = true; break; }
      if (!d && mayWrite(Q, sym, addr)) d = true;
    }
    if (stop) continue;
    for (auto *B : successors(S->getParent())) if (vis.insert({B, d}).second) w.push_back({&B->front(), d});
  }
  return false;
}

bool Facts::valid(const Fact &f, const Instruction *I, const std::set<const Instruction *> &goalReads) {
  for (auto *D : f.deps) {
    if (!isa<LoadInst>(D) && !isa<CallBase>(D)) continue;
    std::string k; const Value *A = nullptr;
    if (auto *L = dyn_cast<LoadInst>(D)) { A = L->getPointerOperand(); k = "L"; }
    else if (auto *CB = dyn_cast<CallBase>(D)) { if (!isSizeCall(CB) && !isEmptyCall(CB)) continue; A = CB->getArgOperand(0); k = "S"; }
    if (clobbered(D, I, k, A)) return false;
  }
  (void)goalReads;
  return true;
}

bool Facts::prove(Lx goal, const Instruction *I, const std::vector<Fact> &fs, int depth) {
  if (!goal.ok) return false;
  const std::string *neg = nullptr;
  for (auto &p : goal.t) if (p.second < 0) { neg = &p.first; break; }
  if (!neg && goal.c >= 0) return true;  // symbols are unsigned quantities
  if (depth == 0) return false;
  if (!neg) { // use a lower bound of one of the remaining symbols
    for (auto &f : fs) {
      if (f.neZero || f.e.c >= 0) continue;
      bool shares = false; for (auto &p : f.e.t) if (p.second > 0) { auto it = goal.t.find(p.first); if (it != goal.t.end() && it->second >= p.second) shares = true; }
      if (!shares) continue;
      Lx g = goal; g.add(f.e, -1);
      if (prove(g, I, fs, depth - 1)) return true;
    }
    return false;
  }
  std::string s = *neg;
  for (auto &f : fs) {
    if (f.neZero || f.eqZero) continue;
    auto it = f.e.t.find(s); if (it == f.e.t.end() || it->second >= 0) continue;
    long need = goal.t[s], have = it->second; if (need % have) continue; long k = need / have; if (k <= 0) continue;
    Lx g = goal; g.add(f.e, -k);
    if (prove(g, I, fs, depth - 1)) return true;
  }
  return false;
}

bool Facts::nonZero(const Value *V0, const Instruction *I) {
  const Value *V = strip(V0);
  if (auto *CI = dyn_cast<ConstantInt>(V)) return !CI->isZero();
  auto fs = at(I); std::vector<Fact> v; for (auto &f : fs) if (valid(f, I, {})) v.push_back(f);
  Lx g = lin(V); g.c -= 1;
  if (prove(g, I, v)) return true;
  Lx z = lin(V); for (auto &f : v) if (f.neZero && (f.e.str() == z.str())) return true;
  if (auto *B = dyn_cast<BinaryOperator>(V)) {
    if (B->getOpcode() == Instruction::Mul) return nonZero(B->getOperand(0), I) && nonZero(B->getOperand(1), I);
    if (B->getOpcode() == Instruction::Or) return nonZero(B->getOperand(0), I) || nonZero(B->getOperand(1), I);
    if (B->getOpcode() == Instruction::Add) { for (auto &O : B->operands()) if (auto *CI = dyn_cast<ConstantInt>(O)) if (CI->getSExtValue() > 0) return true; return nonZero(B->getOperand(0), I) || nonZero(B->getOperand(1), I); }
  }
  if (auto *P = dyn_cast<PHINode>(V)) {
    static thread_local std::set<const Value *> active; if (!active.insert(P).second) return true; // inductive
    bool all = true;
    for (unsigned i = 0; i < P->getNumIncomingValues() && all; i++) all = nonZero(P->getIncomingValue(i), P->getIncomingBlock(i)->getTerminator());
    active.erase(P); return all;
  }
  if (auto *S = dyn_cast<SelectInst>(V)) return nonZero(S->getTrueValue(), I) && nonZero(S->getFalseValue(), I);
  return false;
}
} // namespace vcsa
