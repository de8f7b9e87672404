// Input/output failures reach the caller.  For every stream that a function opens and for every call of a function that
// reports such a failure, the control flow is followed under the hypothesis that the stream (call) failed: every return
// must then carry a non-zero status.
#include "common.h"
#include <deque>
namespace vcsa {
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
namespace {
struct AV { int k = 0; int64_t c = 0; }; // 0 unknown, 1 constant, 2 non-zero
struct Env { std::map<const Value *, AV> m; };

const Value *base(const Value *V) {
  for (int i = 0; i < 60; i++) {
    V = V->stripPointerCasts();
    if (auto *G = dyn_cast<GEPOperator>(V)) { V = G->getPointerOperand(); continue; }
    if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *H = calleeOf(CB); if (!H) return V;
      std::string d = demangled(H);
      if (CB->arg_size() >= 1 && CB->getType()->isPointerTy() && (has(d, "operator<<") || has(d, "operator>>") || has(d, "std::getline") || has(d, "::write(") || has(d, "::put(") || has(d, "::flush(") || has(d, "std::endl"))) { V = CB->getArgOperand(CB->paramHasAttr(0, Attribute::StructRet) ? 1 : 0); continue; }
    }
    return V;
  }
  return V;
}
enum Op { None, TestTrueOnFail, TestFalseOnFail, Flush, Write, Read, Open };
Op opOf(const CallBase *CB, const Value *S) {
  auto *H = calleeOf(CB); if (!H || CB->arg_size() < 1) return None;
  if (base(CB->getArgOperand(0)) != S && !(CB->arg_size() > 1 && base(CB->getArgOperand(1)) == S && has(demangled(H), "operator<<"))) return None;
  std::string d = demangled(H);
  if (has(d, "::fail() const") || has(d, "::operator!() const") || has(d, "::bad() const")) return TestTrueOnFail;
  if (has(d, "::good() const") || has(d, "::operator bool() const") || has(d, "::is_open()")) return TestFalseOnFail;
  if (has(d, "::close()") || has(d, "::flush()")) return Flush;
  if (has(d, "operator<<")) { // endl through the manipulator overload flushes
    for (unsigned i = 1; i < CB->arg_size(); i++) if (auto *F = dyn_cast<Function>(CB->getArgOperand(i)->stripPointerCasts())) if (F->getName().contains("endl") || F->getName().contains("flush")) return Flush;
    return Write;
  }
  if (has(d, "::write(") || has(d, "::put(")) return Write;
  if (has(d, "std::endl") || has(d, "std::flush")) return Flush;
  if (has(d, "getline") || has(d, "operator>>") || has(d, "::read(") || has(d, "::get(")) return Read;
  return None;
}

struct Walk {
  const Function &F; const Value *stream; bool output; const CallBase *site; AV siteVal;
  size_t states = 0; bool overflow = false;
  const Instruction *badRet = nullptr;
  AV get(const Env &e, const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) { AV a; a.k = 1; a.c = CI->getBitWidth() == 1 ? CI->getZExtValue() : CI->getBitWidth() <= 64 ? CI->getSExtValue() : 0; return a; }
    auto it = e.m.find(V); return it == e.m.end() ? AV() : it->second;
  }
  static AV K(int64_t c) { AV a; a.k = 1; a.c = c; return a; }
  AV eval(const Env &e, const Instruction *I) {
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      AV a = get(e, C->getOperand(0)), b = get(e, C->getOperand(1));
      if (a.k == 2 && b.k == 1 && b.c == 0) std::swap(a, b);
      if (a.k == 1 && b.k == 2 && a.c == 0 && C->isEquality()) return K(C->getPredicate() == CmpInst::ICMP_NE);
      if (a.k == 1 && b.k == 1) {
        AV x = get(e, C->getOperand(0)), y = get(e, C->getOperand(1)); uint64_t ux = x.c, uy = y.c;
        switch (C->getPredicate()) {
        case CmpInst::ICMP_EQ: return K(x.c == y.c); case CmpInst::ICMP_NE: return K(x.c != y.c);
        case CmpInst::ICMP_SGT: return K(x.c > y.c); case CmpInst::ICMP_SGE: return K(x.c >= y.c); case CmpInst::ICMP_SLT: return K(x.c < y.c); case CmpInst::ICMP_SLE: return K(x.c <= y.c);
        case CmpInst::ICMP_UGT: return K(ux > uy); case CmpInst::ICMP_UGE: return K(ux >= uy); case CmpInst::ICMP_ULT: return K(ux < uy); case CmpInst::ICMP_ULE: return K(ux <= uy);
        default: return AV(); }
      }
      return AV();
    }
    if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I)) { AV a = get(e, I->getOperand(0)); if (isa<TruncInst>(I) && a.k == 1 && I->getType()->isIntegerTy(1)) a.c &= 1; if (isa<TruncInst>(I) && a.k == 2) return AV(); return a; }
    if (auto *S = dyn_cast<SelectInst>(I)) { AV c = get(e, S->getCondition()); if (c.k == 1) return get(e, c.c ? S->getTrueValue() : S->getFalseValue()); AV a = get(e, S->getTrueValue()), b = get(e, S->getFalseValue()); if (a.k == 1 && b.k == 1 && a.c == b.c) return a; if (nz(a) && nz(b)) { AV r; r.k = 2; return r; } return AV(); }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      AV a = get(e, B->getOperand(0)), b = get(e, B->getOperand(1));
      if (B->getOpcode() == Instruction::Or) { if (nz(a) || nz(b)) { AV r; r.k = 2; if (a.k == 1 && b.k == 1) return K(a.c | b.c); if (I->getType()->isIntegerTy(1)) return K(1); return r; } if (a.k == 1 && b.k == 1) return K(a.c | b.c); }
      if (B->getOpcode() == Instruction::And) { if ((a.k == 1 && !a.c) || (b.k == 1 && !b.c)) return K(0); if (a.k == 1 && b.k == 1) return K(a.c & b.c); }
      if (B->getOpcode() == Instruction::Xor && a.k == 1 && b.k == 1) return K((a.c ^ b.c) & (I->getType()->isIntegerTy(1) ? 1 : -1));
      if (B->getOpcode() == Instruction::Add && nz(a) && b.k == 1 && b.c == 0) return a;
      return AV();
    }
    return AV();
  }
  static bool nz(const AV &a) { return a.k == 2 || (a.k == 1 && a.c != 0); }
  struct St { const BasicBlock *B; const Instruction *from; Env e; bool flushed; };
  // returns true when every return reached carries a non-zero value
  bool run(const Instruction *start, bool opened = false) {
    bool fl0 = !output || opened; // a failed open sets the state at once, a failed write only when it is flushed
    std::set<std::string> seen; std::vector<St> w;
    Env e0; if (site) e0.m[site] = siteVal;
    const Instruction *first = start->getNextNode();
    if (auto *IV = dyn_cast<InvokeInst>(start)) { enter(w, seen, start->getParent(), IV->getNormalDest(), e0, fl0); }
    else w.push_back({start->getParent(), first, e0, fl0});
    while (!w.empty()) {
      if (++states > 200000) { overflow = true; return true; }
      St s = std::move(w.back()); w.pop_back();
      bool dead = false;
      for (const Instruction *I = s.from; I; I = I->getNextNode()) {
        if (isa<PHINode>(I)) continue;
        if (I == start && !isa<InvokeInst>(I)) { if (site) s.e.m[site] = siteVal; continue; }
        if (auto *CB = dyn_cast<CallBase>(I)) {
          s.e.m.erase(CB);
          auto *H = calleeOf(CB);
          if (H && (H->getName() == "exit" || H->getName() == "_exit" || H->getName() == "_Exit")) { AV a = get(s.e, CB->getArgOperand(0)); if (!nz(a)) { badRet = I; return false; } dead = true; break; }
          if (H && (H->doesNotReturn() || H->getName() == "abort" || H->getName() == "__cxa_throw")) { dead = true; break; }
          if (CB == site) s.e.m[CB] = siteVal;
          else if (stream) {
            Op o = opOf(CB, stream);
            if (o == Flush && output) s.flushed = true; // a failing flush sets the state
            else if (o == TestTrueOnFail && s.flushed) s.e.m[CB] = K(1);
            else if (o == TestFalseOnFail && s.flushed && !(output && has(demangled(H), "is_open"))) s.e.m[CB] = K(0);
          }
          if (auto *IV = dyn_cast<InvokeInst>(CB)) { enter(w, seen, I->getParent(), IV->getNormalDest(), s.e, s.flushed); dead = true; break; }
          continue;
        }
        if (auto *R = dyn_cast<ReturnInst>(I)) {
          AV a; if (R->getReturnValue()) a = get(s.e, R->getReturnValue());
          if (!nz(a)) { badRet = R; return false; }
          dead = true; break;
        }
        if (I->isTerminator()) break;
        if (I->getType()->isIntegerTy()) { AV a = eval(s.e, I); if (a.k) s.e.m[I] = a; else s.e.m.erase(I); }
      }
      if (dead) continue;
      auto *T = s.B->getTerminator();
      if (auto *Br = dyn_cast<BranchInst>(T); Br && Br->isConditional()) {
        AV c = get(s.e, Br->getCondition());
        if (c.k == 1 || c.k == 2) { enter(w, seen, s.B, Br->getSuccessor(nz(c) ? 0 : 1), s.e, s.flushed); continue; }
        for (int k = 0; k < 2; k++) { Env e = s.e; e.m[Br->getCondition()] = K(k == 0); enter(w, seen, s.B, Br->getSuccessor(k), e, s.flushed); }
        continue;
      }
      if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        AV c = get(s.e, Sw->getCondition());
        if (c.k == 1) { const BasicBlock *D = Sw->getDefaultDest(); for (auto &Cs : Sw->cases()) if (Cs.getCaseValue()->getSExtValue() == c.c) D = Cs.getCaseSuccessor(); enter(w, seen, s.B, D, s.e, s.flushed); continue; }
      }
      for (auto *N : successors(s.B)) enter(w, seen, s.B, N, s.e, s.flushed);
    }
    return true;
  }
  // values that can still decide a branch, a return or a phi after the block
  void enter(std::vector<St> &w, std::set<std::string> &seen, const BasicBlock *P, const BasicBlock *B, const Env &e, bool fl) {
    if (isa<UnreachableInst>(&B->front())) return;
    Env n = e; std::vector<std::pair<const Value *, AV>> upd;
    for (auto &ph : B->phis()) { int k = ph.getBasicBlockIndex(P); AV a = k >= 0 ? get(e, ph.getIncomingValue(k)) : AV(); upd.push_back({&ph, a}); }
    for (auto &u : upd) if (u.second.k) n.m[u.first] = u.second; else n.m.erase(u.first);
    // drop values that are not used outside their block and are not live here
    for (auto it = n.m.begin(); it != n.m.end();) {
      auto *I = dyn_cast<Instruction>(it->first); bool keep = isa<PHINode>(it->first) && cast<Instruction>(it->first)->getParent() == B;
      if (I && !keep) keep = live(I, B);
      if (!keep) it = n.m.erase(it); else ++it;
    }
    std::string key; char b[48];
    snprintf(b, sizeof b, "%p%d", (const void *)B, fl); key = b;
    for (auto &p : n.m) { snprintf(b, sizeof b, "|%p:%d:%ld", (const void *)p.first, p.second.k, (long)p.second.c); key += b; }
    if (!seen.insert(key).second) return;
    w.push_back({B, &B->front(), n, fl});
  }
  std::map<const Instruction *, std::set<const BasicBlock *>> liveIn;
  bool live(const Instruction *I, const BasicBlock *B) {
    auto it = liveIn.find(I);
    if (it == liveIn.end()) {
      auto &s = liveIn[I]; std::vector<const BasicBlock *> w;
      for (auto *U : I->users()) {
        auto *UI = dyn_cast<Instruction>(U); if (!UI) continue;
        if (auto *P = dyn_cast<PHINode>(UI)) { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (P->getIncomingValue(k) == I) { auto *X = P->getIncomingBlock(k); if (X != I->getParent() && s.insert(X).second) w.push_back(X); } }
        else if (UI->getParent() != I->getParent() && s.insert(UI->getParent()).second) w.push_back(UI->getParent());
      }
      while (!w.empty()) { auto *X = w.back(); w.pop_back(); for (auto *P : predecessors(X)) if (P != I->getParent() && s.insert(P).second) w.push_back(P); }
      it = liveIn.find(I);
    }
    return it->second.count(B) > 0;
  }
};
struct Stream { const Value *S; const CallBase *ctor; bool output; };
std::vector<Stream> streamsOf(const Function &F) {
  std::vector<Stream> r;
  for (auto &I : instructions(F)) {
    auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *H = calleeOf(CB); if (!H) continue;
    std::string d = demangled(H);
    bool i = has(d, "std::basic_ifstream<"), o = has(d, "std::basic_ofstream<"), io = has(d, "std::basic_fstream<");
    if (!i && !o && !io) continue;
    bool ctor = has(d, "::basic_ifstream(") || has(d, "::basic_ofstream(") || has(d, "::basic_fstream("), op = has(d, "::open(");
    if ((!ctor && !op) || CB->arg_size() < 2) continue;
    const Value *S = base(CB->getArgOperand(0));
    if (!isa<AllocaInst>(S)) continue; // members (the console log) are not data files
    bool named = false; for (unsigned k = 1; k < CB->arg_size(); k++) named |= CB->getArgOperand(k)->getType()->isPointerTy();
    if (!named) continue;
    bool out = o; if (io) { out = true; for (unsigned k = 1; k < CB->arg_size(); k++) if (auto *CI = dyn_cast<ConstantInt>(CB->getArgOperand(k))) out = (CI->getZExtValue() & 16) != 0; }
    r.push_back({S, CB, out});
  }
  return r;
}
} // namespace

static std::string literalArg(const CallBase *CB) {
  // a string literal from which one of the arguments was built
  for (auto &A : CB->args()) {
    const Value *V = A->stripPointerCasts();
    for (auto *U : V->users()) if (auto *C = dyn_cast<CallBase>(U)) for (auto &B : C->args()) if (auto *G = dyn_cast<GlobalVariable>(B->stripPointerCasts())) if (G->hasInitializer()) if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer())) if (D->isCString()) return D->getAsCString().str();
  }
  return "";
}

void runStatus(Ctx &C) {
  std::map<const Function *, int> fall; // 1 input, 2 output
  long nin = 0, nout = 0, writes = 0, sites = 0, states = 0;
  std::vector<const Function *> fs;
  for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration()) fs.push_back(&F);
  for (auto *F : fs) {
    for (auto &s : streamsOf(*F)) {
      if (!F->getReturnType()->isIntegerTy()) { C.R.add(mk(s.output ? "write-status" : "read-status", s.ctor, funcKey(F) + "|no-status", "a file is opened here but the function cannot report a failure to its caller")); continue; }
      fall[F] |= s.output ? 2 : 1;
      C.R.sets[s.output ? "functions_that_write_files" : "functions_that_read_files"].insert(funcKey(F));
      std::string vn = varName(s.S);
      if (!s.output) {
        nin++;
        Walk w{*F, s.S, false, nullptr, AV()};
        bool ok = w.run(s.ctor); states += w.states;
        if (w.overflow) C.R.broken.push_back("too many paths in " + funcKey(F));
        if (!ok) C.R.add(mk("read-status", s.ctor, funcKey(F) + "|open:" + vn, "when the file opened as '" + vn + "' cannot be read, a path returns success (" + where(w.badRet) + ")"));
      } else {
        nout++;
        Finding first; bool bad = false;
        std::vector<const CallBase *> ws{s.ctor};
        for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (CB != s.ctor) { Op o = opOf(CB, s.S); if (o == Write || o == Flush) ws.push_back(CB); }
        for (auto *W : ws) {
          auto *Wn = calleeOf(W); if (Wn && has(demangled(Wn), "::close()")) continue;
          if (W != s.ctor) writes++;
          Walk w{*F, s.S, true, nullptr, AV()};
          bool ok = w.run(W, W == s.ctor || opOf(W, s.S) == Flush); states += w.states;
          if (w.overflow) C.R.broken.push_back("too many paths in " + funcKey(F));
          if (!ok && !bad) { bad = true; C.R.add(mk("write-status", W, funcKey(F) + "|write:" + vn, "when writing to '" + vn + "' fails here, the function still returns success (" + where(w.badRet) + "): the state of the stream is not tested after the data reached the file")); }
        }
      }
    }
  }
  // calls whose failure must be passed on
  bool ch = true; std::map<const CallBase *, const Instruction *> dropped; std::set<const CallBase *> done;
  while (ch) {
    ch = false;
    for (auto *F : fs) for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *H = calleeOf(CB); if (!H || !fall.count(H) || H == F) continue;
      int kind = fall[H];
      if (done.count(CB)) { if (!dropped.count(CB) && (fall[F] & kind) != kind) { fall[F] |= kind; ch = true; } continue; }
      done.insert(CB); ch = true;
      Walk w{*F, nullptr, false, CB, AV()}; 
      // the status with which the callee reports failures
      std::set<int64_t> ks; bool other = false;
      for (auto &R : instructions(*H)) if (auto *RI = dyn_cast<ReturnInst>(&R)) { std::vector<const Value *> q{RI->getReturnValue()}; std::set<const Value *> sn; while (!q.empty()) { auto *V = q.back(); q.pop_back(); if (!V || !sn.insert(V).second) continue; if (auto *K = dyn_cast<ConstantInt>(V)) { if (!K->isZero()) ks.insert(K->getSExtValue()); } else if (auto *P = dyn_cast<PHINode>(V)) for (auto &x : P->incoming_values()) q.push_back(x); else if (auto *S = dyn_cast<SelectInst>(V)) { q.push_back(S->getTrueValue()); q.push_back(S->getFalseValue()); } else if (isa<ZExtInst>(V) && cast<Instruction>(V)->getOperand(0)->getType()->isIntegerTy(1)) ks.insert(1); else other = true; } }
      if (!other && ks.size() == 1) { w.siteVal.k = 1; w.siteVal.c = *ks.begin(); } else w.siteVal.k = 2;
      bool ok = w.run(CB); states += w.states;
      if (w.overflow) C.R.broken.push_back("too many paths in " + funcKey(F));
      if (!ok) dropped[CB] = w.badRet; else fall[F] |= kind;
    }
  }
  sites = done.size();
  for (auto &d : dropped) {
    auto *H = calleeOf(d.first); auto *F = d.first->getFunction(); std::string lit = literalArg(d.first);
    for (int k = 1; k <= 2; k++) if (fall[H] & k)
      C.R.add(mk(k == 1 ? "read-status" : "write-status", d.first, funcKey(F) + "|" + shortName(H) + "|" + lit, "a failure reported by " + shortName(H) + (lit.empty() ? "" : " (\"" + lit + "\")") + " is not passed on: a path from the call returns success (" + where(d.second) + ")"));
  }
  for (auto &f : fall) if (f.first->getName() == "main") C.R.counts["failures_reach_main"] = f.second;
  C.R.counts["input_streams"] = nin; C.R.counts["output_streams"] = nout; C.R.counts["write_operations_followed"] = writes; C.R.counts["status_call_sites"] = sites; C.R.counts["abstract_states"] = states;
}
} // namespace vcsa
