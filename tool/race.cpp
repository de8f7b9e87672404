// Data-race analysis of every OpenMP parallel region.
//
// Each outlined region body is interpreted abstractly, context-sensitively through its callees. A memory
// access is named by an access path: a root (captured variable, global, or region-private object) followed by
// dereferences, field offsets and element indices. An index is Const, Inv (same value in every thread), Uniq
// (an injective affine function of the thread id or of the work-shared loop variable) or Var. Two accesses
// conflict when one writes, neither is separated by a barrier, a common lock, atomicity or a single-thread
// guard, and no path step proves different threads touch different elements.
#include "common.h"
#include <sstream>

namespace vcsa {
namespace {

struct Lin {
  enum K { Bot, Const, Inv, Uniq, Elem, PStart, PCount, Var } k = Bot; // Elem: S[own+c]; PStart: own==0?0:S[own-1]; PCount: S[own]-PStart
  long c = 0;             // Const value; Uniq: constant part of the extra
  int T = 0;              // Uniq: which partition variable
  std::string scale = "1"; // Uniq: multiplier (constant or invariant symbol)
  bool block = false;     // Uniq: extra ranges over [0, scale)
  std::string sym;        // Inv: symbol
  bool operator==(const Lin &o) const { return k == o.k && c == o.c && T == o.T && scale == o.scale && block == o.block && sym == o.sym; }
  std::string str() const {
    switch (k) {
    case Bot: return "_";
    case Const: return std::to_string(c);
    case Inv: return "inv(" + sym + ")";
    case Uniq: return "own" + std::to_string(T) + (scale == "1" ? "" : "*" + scale) + (block ? "+blk" : "") + (c ? "+" + std::to_string(c) : "");
    case Elem: return "elem" + std::to_string(T) + "(" + sym + "," + std::to_string(c) + ")";
    case PStart: return "pstart" + std::to_string(T) + "(" + sym + ")";
    case PCount: return "pcount" + std::to_string(T) + "(" + sym + ")";
    default: return "*";
    }
  }
};
Lin LConst(long c) { Lin l; l.k = Lin::Const; l.c = c; return l; }
Lin LVar() { Lin l; l.k = Lin::Var; return l; }
Lin LInv(const std::string &s) { Lin l; if (s.size() > 160) { l.k = Lin::Var; return l; } l.k = Lin::Inv; l.sym = s; return l; }
Lin joinLin(const Lin &a, const Lin &b) {
  if (a.k == Lin::Bot) return b;
  if (b.k == Lin::Bot) return a;
  if (a == b) return a;
  return LVar();
}

struct Seg { Lin idx = LConst(0); long off = 0; // off==-1 unknown
  std::string str() const { std::string s; if (!(idx.k == Lin::Const && idx.c == 0)) s += "[" + idx.str() + "]"; if (off) s += "." + std::to_string(off); return s; } };
struct AP {
  std::string root; bool priv = false;
  std::vector<Seg> segs{Seg()};
  std::string desc; // source-like description
  std::string key() const { std::string s = (priv ? "P:" : "S:") + root; for (auto &g : segs) s += "|" + g.str(); return s; }
  std::string pkey() const { // contents key of private objects: indices collapsed
    std::string s = root; for (auto &g : segs) s += "|" + std::to_string(g.off); return s; }
  bool operator<(const AP &o) const { return key() < o.key(); }
};
struct AV {
  std::map<std::string, AP> p; Lin l;
  bool join(const AV &o) {
    bool ch = false;
    for (auto &kv : o.p) if (p.size() < 24 && p.insert(kv).second) ch = true;
    Lin n = joinLin(l, o.l); if (!(n == l)) { l = n; ch = true; }
    return ch;
  }
  std::string key() const { std::string s; for (auto &kv : p) s += kv.first + ";"; return s + "#" + l.str(); }
};

struct Access { AP ap; bool write, atomic; std::set<std::string> locks; std::string only; std::set<const void *> phase; const Instruction *I; std::string chain; };

struct Region {
  Ctx &C; Function *F; std::string name;
  std::vector<Access> acc; std::set<std::string> seenAcc;
  std::map<std::string, AV> priv; bool changed = false;
  std::map<std::string, AV> memo; std::set<std::string> active;
  std::map<const Value *, int> partId; int nextPart = 1;
  std::set<std::string> funcs; long steps = 0;
  std::vector<std::string> unmodelled; std::set<std::string> perms, permUsed, elemRead;
  std::map<const Function *, std::map<const Value *, std::string>> notes;
  Region(Ctx &C, Function *F) : C(C), F(F) {}

  struct Frame {
    Function *F; std::vector<AV> args; std::map<const Value *, AV> env; std::string ctx;
    std::set<std::string> locks; std::string only; std::set<const void *> phase; std::string chain; AV ret; int depth; int sweep = 0;
    std::map<const BasicBlock *, std::set<std::string>> lockIn; std::map<const BasicBlock *, std::string> onlyOf;
    std::map<const Instruction *, std::set<const void *>> phaseOf;
    std::set<const Value *> lbAllocas;
  };

  void record(Frame &fr, const Instruction *I, const AV &ptr, bool write, bool atomic, const std::set<std::string> &locks) {
    for (auto &kv : ptr.p) {
      const AP &a = kv.second;
      if (a.priv) continue;
      Access A; A.ap = a; A.write = write; A.atomic = atomic; A.locks = locks; A.I = I; A.chain = fr.chain;
      auto it = fr.onlyOf.find(I->getParent()); A.only = (it != fr.onlyOf.end() && !it->second.empty()) ? it->second : fr.only;
      auto ph = fr.phaseOf.find(I); A.phase = ph != fr.phaseOf.end() ? ph->second : fr.phase;
      std::ostringstream k; k << a.key() << write << atomic << (const void *)I << A.only; for (auto &l : locks) k << l;
      for (auto *p : A.phase) k << p;
      if (seenAcc.insert(k.str()).second) acc.push_back(A);
    }
  }

  // ---- integer evaluation
  Lin intOf(Frame &fr, const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) return CI->getBitWidth() <= 64 ? LConst(CI->getSExtValue()) : LVar();
    auto it = fr.env.find(V);
    if (it != fr.env.end()) return it->second.l;
    if (isa<Constant>(V)) return LVar();
    return Lin();
  }
  std::string symOf(const Lin &l) { if (l.k == Lin::Const) return std::to_string(l.c); if (l.k == Lin::Inv) return l.sym; return ""; }

  // is V an inner counter with 0 <= V < bound (bound symbol s)?
  bool boundedBy(Frame &fr, const Value *V, const std::string &s) {
    while (auto *Cst = dyn_cast<CastInst>(V)) V = Cst->getOperand(0);
    auto *P = dyn_cast<PHINode>(V);
    if (!P) return false;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      const Value *in = P->getIncomingValue(i);
      if (auto *CI = dyn_cast<ConstantInt>(in)) { if (CI->isNegative()) return false; continue; }
      auto *B = dyn_cast<BinaryOperator>(in);
      if (!B || B->getOpcode() != Instruction::Add || B->getOperand(0) != P) return false;
    }
    for (auto *U : P->users()) {
      auto *Cmp = dyn_cast<ICmpInst>(U);
      if (!Cmp) { if (auto *Cst = dyn_cast<CastInst>(U)) for (auto *U2 : Cst->users()) if ((Cmp = dyn_cast<ICmpInst>(U2))) break; if (!Cmp) continue; }
      if (Cmp->getOperand(0)->stripPointerCasts() != P && !isa<CastInst>(Cmp->getOperand(0))) continue;
      if (Cmp->getPredicate() != CmpInst::ICMP_ULT && Cmp->getPredicate() != CmpInst::ICMP_SLT) continue;
      Lin bl = intOf(fr, Cmp->getOperand(1));
      if (bl.k == Lin::PCount && s == "prefix:" + bl.sym) return true;
      std::string b = symOf(bl);
      if (!b.empty() && b == s) return true;
      // constant bound below a constant scale
      char *e1, *e2; long x = strtol(b.c_str(), &e1, 10), y = strtol(s.c_str(), &e2, 10);
      if (!b.empty() && !*e1 && !*e2 && x <= y) return true;
    }
    return false;
  }

  Lin evalBin(Frame &fr, const BinaryOperator *B) {
    Lin a = intOf(fr, B->getOperand(0)), b = intOf(fr, B->getOperand(1));
    if (a.k == Lin::Bot || b.k == Lin::Bot) return Lin();
    unsigned op = B->getOpcode();
    if (a.k == Lin::Const && b.k == Lin::Const) {
      switch (op) {
      case Instruction::Add: return LConst(a.c + b.c);
      case Instruction::Sub: return LConst(a.c - b.c);
      case Instruction::Mul: return LConst(a.c * b.c);
      default: return LInv(a.str() + B->getOpcodeName() + b.str());
      }
    }
    bool ai = a.k == Lin::Const || a.k == Lin::Inv, bi = b.k == Lin::Const || b.k == Lin::Inv;
    if (ai && bi) return LInv("(" + symOf(a) + B->getOpcodeName() + symOf(b) + ")");
    if (op == Instruction::Mul) {
      if (b.k == Lin::Uniq) std::swap(a, b), std::swap(ai, bi);
      if (a.k == Lin::Uniq && bi && !a.block && a.c == 0 && a.scale == "1" && symOf(b) != "0") { a.scale = symOf(b); return a; }
      return LVar();
    }
    if (op == Instruction::Shl && a.k == Lin::Uniq && b.k == Lin::Const && !a.block && a.c == 0 && a.scale == "1") { a.scale = std::to_string(1L << b.c); return a; }
    if (op == Instruction::Add && (a.k == Lin::PStart || b.k == Lin::PStart)) {
      const Value *other = B->getOperand(1);
      if (b.k == Lin::PStart) { std::swap(a, b); other = B->getOperand(0); }
      if (b.k != Lin::PStart && boundedBy(fr, other, "prefix:" + a.sym)) { Lin r; r.k = Lin::Uniq; r.T = a.T; r.scale = "prefix:" + a.sym; r.block = true; return r; }
      return LVar();
    }
    if (op == Instruction::Add || op == Instruction::Or) {
      const Value *other = B->getOperand(1);
      if (b.k == Lin::Uniq && a.k != Lin::Uniq) { std::swap(a, b); other = B->getOperand(0); }
      if (a.k == Lin::Uniq) {
        if (b.k == Lin::Const) { a.c += b.c; return a; }
        if (b.k == Lin::Inv) { // same shift for every thread: still injective, but distinguish by symbol
          a.scale = a.scale + "@" + b.sym; return a; }
        if (!a.block && a.c == 0 && boundedBy(fr, other, a.scale)) { a.block = true; return a; }
      }
      return LVar();
    }
    if (op == Instruction::Sub && a.k == Lin::Elem && a.c == 0 && b.k == Lin::PStart && a.sym == b.sym && a.T == b.T) { Lin r = b; r.k = Lin::PCount; return r; }
    if (op == Instruction::Sub && a.k == Lin::Uniq) {
      if (b.k == Lin::Const) { a.c -= b.c; return a; }
      if (b.k == Lin::Inv) { a.scale = a.scale + "@-" + b.sym; return a; }
    }
    return LVar();
  }

  // is the comparison, being `taken`, only possible for the first thread (own number 0)?
  bool onlyFirst(Frame &fr, const Value *Cond, bool taken, int T) {
    if (auto *X = dyn_cast<BinaryOperator>(Cond)) if (X->getOpcode() == Instruction::Xor && isa<ConstantInt>(X->getOperand(1))) return onlyFirst(fr, X->getOperand(0), !taken, T);
    auto *Cmp = dyn_cast<ICmpInst>(Cond); if (!Cmp) return false;
    Lin a = intOf(fr, Cmp->getOperand(0)), b = intOf(fr, Cmp->getOperand(1)); auto pr = Cmp->getPredicate();
    if (b.k == Lin::Uniq) { std::swap(a, b); pr = Cmp->getSwappedPredicate(); }
    if (a.k != Lin::Uniq || a.T != T || a.c || a.block || a.scale != "1" || b.k != Lin::Const) return false;
    if (!taken) pr = CmpInst::getInversePredicate(pr);
    switch (pr) {
    case CmpInst::ICMP_EQ: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return b.c == 0;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return b.c == 1;
    default: return false;
    }
  }
  // start of an owned range of a prefix-sum table: 0 for the first thread only, S[own-1] for the others
  std::set<std::string> prefixTables;
  bool ownedStart(Frame &fr, const PHINode *P, Lin &out) {
    Lin el; bool zero = false;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      Lin l = intOf(fr, P->getIncomingValue(i));
      if (l.k == Lin::Elem && l.c == -1) { if (el.k == Lin::Elem && !(el == l)) return false; el = l; }
      else if (l.k == Lin::Const && l.c == 0) zero = true; else return false;
    }
    if (!zero || el.k != Lin::Elem) return false;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      if (intOf(fr, P->getIncomingValue(i)).k == Lin::Elem) continue;
      const BasicBlock *to = P->getParent(), *from = P->getIncomingBlock(i); bool ok = false;
      for (int n = 0; n < 8 && from && !ok; n++) {
        if (auto *Br = dyn_cast<BranchInst>(from->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) ok = onlyFirst(fr, Br->getCondition(), Br->getSuccessor(0) == to, el.T);
        to = from; from = from->getSinglePredecessor();
      }
      if (!ok) return false;
    }
    out = el; out.k = Lin::PStart; out.c = 0; prefixTables.insert(el.sym); return true;
  }

  // ---- pointers
  AV ptrOf(Frame &fr, const Value *V) {
    if (auto *G = dyn_cast<GlobalVariable>(V)) { AV v; AP a; a.root = "global " + llvm::demangle(G->getName().str()); a.priv = G->isConstant() || G->isThreadLocal(); a.desc = a.root; v.p[a.key()] = a; return v; }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) return gep(fr, GO);
      return ptrOf(fr, CE->getOperand(0));
    }
    auto it = fr.env.find(V);
    if (it != fr.env.end()) return it->second;
    return AV();
  }
  AV gep(Frame &fr, const GEPOperator *G) {
    AV base = ptrOf(fr, G->getPointerOperand()), out;
    const DataLayout &DL = C.M->getDataLayout();
    for (auto &kv : base.p) {
      AP a = kv.second; Seg &s = a.segs.back();
      Type *T = G->getSourceElementType(); bool first = true;
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
        const Value *ix = *it;
        if (first) {
          first = false;
          Lin l = intOf(fr, ix);
          addIdx(s, l, a);
        } else if (auto *ST = dyn_cast<StructType>(T)) {
          unsigned n = cast<ConstantInt>(ix)->getZExtValue();
          if (s.off >= 0) s.off += (long)DL.getStructLayout(ST)->getElementOffset(n).getFixedValue();
          T = ST->getElementType(n);
        } else {
          addIdx(s, intOf(fr, ix), a);
          T = T->getArrayElementType();
        }
      }
      out.p[a.key()] = a;
    }
    return out;
  }
  void addIdx(Seg &s, const Lin &l, AP &) {
    if (l.k == Lin::Const && l.c == 0) return;
    if (s.idx.k == Lin::Const && s.idx.c == 0) { s.idx = l.k == Lin::Bot ? LVar() : l; return; }
    if (s.idx.k == Lin::Const && l.k == Lin::Const) { s.idx.c += l.c; return; }
    if (s.idx.k == Lin::Uniq && l.k == Lin::Const) { s.idx.c += l.c; return; }
    s.idx = LVar();
  }
  AV loadFrom(Frame &fr, const AV &ptr, Type *Ty) {
    AV out;
    for (auto &kv : ptr.p) {
      const AP &a = kv.second;
      if (a.priv) {
        auto it = priv.find(a.pkey());
        if (it != priv.end()) { AV v = it->second; out.join(v); }
        if (!Ty->isPointerTy() && it == priv.end()) { AV v; v.l = LVar(); out.join(v); }
        if (Ty->isPointerTy() && (it == priv.end() || it->second.p.empty())) { /* unknown private content */ AV v; AP b; b.root = a.root; b.priv = true; v.p[b.key()] = b; out.join(v); }
      } else if (Ty->isPointerTy()) {
        AP b = a; b.segs.push_back(Seg()); if (b.segs.size() > 7) b.segs.resize(7);
        AV v; v.p[b.key()] = b; out.join(v);
      } else {
        bool inv = true;
        for (auto &s : a.segs) if (s.idx.k == Lin::Uniq || s.idx.k == Lin::Var || s.idx.k == Lin::Bot) inv = false;
        AV v; v.l = inv && Ty->isIntegerTy() ? LInv(a.key()) : LVar();
        if (!inv && Ty->isIntegerTy()) {
          const Lin &ix = a.segs.back().idx; bool rest = true;
          for (size_t i = 0; i + 1 < a.segs.size(); i++) { auto k = a.segs[i].idx.k; if (k != Lin::Const && k != Lin::Inv) rest = false; }
          if (rest && ix.k == Lin::Uniq && ix.scale == "1" && !ix.block) {
            AP b = a; b.segs.back().idx = LConst(0);
            if (ix.c == 0 && a.segs.size() == 2 && perms.count(a.root)) { v.l = ix; v.l.scale = "perm:" + b.key(); permUsed.insert(a.desc); elemRead.insert(b.key()); }
            else { v.l.k = Lin::Elem; v.l.T = ix.T; v.l.c = ix.c; v.l.sym = b.key(); elemRead.insert(b.key()); }
          }
        }
        out.join(v);
      }
    }
    if (ptr.p.empty() && !Ty->isPointerTy()) { AV v; v.l = LVar(); out.join(v); }
    return out;
  }
  void storeTo(const AV &ptr, const AV &val) {
    for (auto &kv : ptr.p) if (kv.second.priv) if (priv[kv.second.pkey()].join(val)) changed = true;
  }
  AV privObj(const std::string &id) { AV v; AP a; a.root = id; a.priv = true; v.p[a.key()] = a; return v; }
  static std::string id(const void *p) { std::ostringstream o; o << p; return o.str(); }

  bool allPrivate(const std::vector<AV> &as) { for (auto &a : as) for (auto &kv : a.p) if (!kv.second.priv) return false; return true; }

  AV libraryCall(Frame &fr, const CallBase *CB, const Function *G, const std::vector<AV> &args, const std::set<std::string> &locks) {
    StringRef n = G->getName();
    AV out;
    auto retPriv = [&]() { if (CB->getType()->isPointerTy()) out.join(privObj("lib" + fr.ctx + id(CB))); else out.l = LVar(); return out; };
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") { record(fr, CB, args[0], true, false, locks); record(fr, CB, args[1], false, false, locks); return out; }
    if (n.starts_with("llvm.memset") || n == "memset") { record(fr, CB, args[0], true, false, locks); return out; }
    if (n.starts_with("llvm.")) { if (!CB->getType()->isVoidTy()) { out.l = LVar(); } return out; }
    if (isMathName(n)) { out.l = LVar(); return out; }
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmRKSt9nothrow_t") { out.join(privObj("new" + fr.ctx + id(CB))); return out; }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm") {
      AV t = args[0]; AV w; // releasing writes the whole object
      for (auto &kv : t.p) { AP a = kv.second; w.p[a.key()] = a; }
      record(fr, CB, w, true, false, locks); return out;
    }
    if (n == "omp_get_thread_num") { int &pid = partId[(const Value *)nullptr]; if (!pid) pid = nextPart++; out.l.k = Lin::Uniq; out.l.T = pid; return out; }
    if (n == "__kmpc_global_thread_num") { out.l = LInv("gtid"); return out; }
    if (n.starts_with("omp_get_wtime")) { out.l = LVar(); return out; }
    if (n.starts_with("omp_") || n.starts_with("__kmpc_")) { out.l = n.starts_with("omp_get") ? LInv(n.str()) : LVar(); return out; }
    static const std::set<std::string> hidden = {"rand", "srand", "random", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "strerror"};
    if (hidden.count(n.str())) { AV w; AP a; a.root = "global hidden state of " + n.str() + "()"; a.desc = a.root; w.p[a.key()] = a; record(fr, CB, w, true, false, locks); return retPriv(); }
    if (n.starts_with("__cxa_") || n.starts_with("_ZSt") || n == "__gxx_personality_v0" || n.starts_with("_ZN10__cxxabi")) {
      if (n.starts_with("_ZStls") || n.starts_with("_ZSt4endl") || n.starts_with("_ZSt5flush")) {
        for (auto &kv : args[0].p) {
          const AP &a = kv.second;
          if (!a.priv && a.root.rfind("global std::c", 0) == 0) continue; // the standard streams synchronise
          AV w; w.p[kv.first] = a; record(fr, CB, w, true, false, locks);
        }
        return args.empty() ? retPriv() : args[0];
      }
      return retPriv();
    }
    // any other library function: methods named const read, all others write their pointer arguments
    bool constM = n.starts_with("_ZNK");
    std::string d = llvm::demangle(n.str());
    static const char *accessors[] = {"::operator[]", "::at(", "::begin", "::end", "::size", "::data", "::c_str", "::front", "::back", "::length", "::empty", "::find"};
    bool acc = constM;
    for (auto *x : accessors) if (d.find(x) != std::string::npos) acc = true;
    bool stdstream = d.find("std::ostream::") == 0 || d.find("std::basic_ostream") == 0;
    for (size_t i = 0; i < args.size(); i++) {
      if (stdstream && i == 0) {
        AV w; for (auto &kv : args[0].p) if (kv.second.priv || kv.second.root.rfind("global std::c", 0) != 0) w.p.insert(kv);
        record(fr, CB, w, true, false, locks); continue;
      }
      record(fr, CB, args[i], !(acc || (i > 0 && d.find("std::") == 0)), false, locks);
    }
    if (acc && CB->getType()->isPointerTy() && !args.empty()) {
      for (auto &kv : args[0].p) { AP b = kv.second; b.segs.push_back(Seg()); b.segs.back().idx = args.size() > 1 && args[1].l.k != Lin::Bot ? args[1].l : LVar(); if (b.priv) { b.segs.pop_back(); } out.p[b.key()] = b; }
      return out;
    }
    if (stdstream && !args.empty()) return args[0];
    if (!G->isIntrinsic() && !args.empty() && !allPrivate(args)) C.R.sets["race_library_functions_modelled"].insert(stripSig(d));
    return retPriv();
  }
  static std::string stripSig(const std::string &d) { auto p = d.find('('); return p == std::string::npos ? d : d.substr(0, p); }

  // entry: analyse function body in context; returns value
  AV run(Function *G, std::vector<AV> args, const std::string &ctx, std::set<std::string> locks, std::string only, std::set<const void *> phase, std::string chain, int depth) {
    bool rec = onStack[G] > 0;
    if (rec) for (auto &a : args) { if (a.l.k == Lin::Const || a.l.k == Lin::Inv) a.l = LVar(); std::map<std::string, AP> np; for (auto &kv : a.p) { AP q = kv.second; for (auto &s : q.segs) if (s.idx.k == Lin::Inv) s.idx = LVar(); np[q.key()] = q; } a.p = np; }
    std::string k = id(G) + "/";
    for (auto &a : args) k += a.key() + ",";
    for (auto &l : locks) k += "L" + l;
    k += "O" + only; for (auto *p : phase) k += id(p);
    if (active.count(k) || depth > 40) return memo.count(k) ? memo[k] : AV();
    if (doneThisRound.count(k)) return memo[k];
    active.insert(k); onStack[G]++;
    if (isRepoFunc(G)) funcs.insert(shortName(G));
    Frame fr; fr.F = G; fr.args = args; fr.ctx = ""; fr.locks = locks; fr.only = only; fr.phase = phase; fr.chain = chain; fr.depth = depth;
    unsigned i = 0; for (auto &A : G->args()) { if (i < args.size()) fr.env[&A] = args[i]; i++; }
    body(fr);
    active.erase(k); onStack[G]--; doneThisRound.insert(k);
    if (memo[k].join(fr.ret)) changed = true;
    return memo[k];
  }
  std::set<std::string> doneThisRound; std::map<const Function *, int> onStack;

  void localFacts(Frame &fr) {
    Function &G = *fr.F; DominatorTree DT(G);
    // lb allocas of work-sharing loops
    for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) {
      if (H->getName().starts_with("__kmpc_for_static_init")) { fr.lbAllocas.insert(CB->getArgOperand(4)->stripPointerCasts()); }
      if (H->getName().starts_with("__kmpc_dispatch_next")) { fr.lbAllocas.insert(CB->getArgOperand(3)->stripPointerCasts()); }
    }
    // single-thread guards
    for (auto &BB : G) {
      std::string g;
      for (auto *N = DT.getNode(&BB); N && N->getIDom(); N = N->getIDom()) {
        auto *D = N->getIDom()->getBlock(); auto *Br = dyn_cast<BranchInst>(D->getTerminator());
        if (!Br || !Br->isConditional()) continue;
        BasicBlockEdge E0(D, Br->getSuccessor(0)), E1(D, Br->getSuccessor(1));
        bool t = Br->getSuccessor(0) != Br->getSuccessor(1) && DT.dominates(E0, &BB), f = Br->getSuccessor(0) != Br->getSuccessor(1) && DT.dominates(E1, &BB);
        auto *Cmp = dyn_cast<ICmpInst>(Br->getCondition());
        if (!Cmp || (!t && !f)) continue;
        bool eq = (Cmp->getPredicate() == CmpInst::ICMP_EQ && t) || (Cmp->getPredicate() == CmpInst::ICMP_NE && f);
        const Value *L = Cmp->getOperand(0), *Rr = Cmp->getOperand(1);
        while (auto *Cst = dyn_cast<CastInst>(L)) L = Cst->getOperand(0);
        if (auto *CB = dyn_cast<CallBase>(L)) if (auto *H = calleeOf(CB)) {
          bool isC = isa<ConstantInt>(Rr);
          if (eq && isC && H->getName() == "omp_get_thread_num") g = "tid==" + std::to_string(cast<ConstantInt>(Rr)->getSExtValue());
          bool nz = eq ? (isC && !cast<ConstantInt>(Rr)->isZero()) : (isC && cast<ConstantInt>(Rr)->isZero());
          if (nz && (H->getName() == "__kmpc_single" || H->getName() == "__kmpc_master" || H->getName() == "__kmpc_masked")) g = H->getName() == "__kmpc_single" ? "single" + id(CB) : "tid==0";
        }
      }
      if (!g.empty()) fr.onlyOf[&BB] = g;
    }
    // barrier phases, only in the region body itself
    if (fr.F == F) {
      std::map<const BasicBlock *, std::set<const void *>> in, out;
      in[&G.getEntryBlock()].insert(&G);
      bool ch = true;
      auto isBar = [](const Instruction &I) { if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) return H->getName() == "__kmpc_barrier"; return false; };
      while (ch) { ch = false;
        for (auto &BB : G) {
          auto cur = in[&BB]; for (auto *P : predecessors(&BB)) for (auto *x : out[P]) cur.insert(x);
          if (cur != in[&BB]) { in[&BB] = cur; ch = true; }
          for (auto &I : BB) { if (isBar(I)) { cur.clear(); cur.insert(&I); } fr.phaseOf[&I] = cur; }
          if (cur != out[&BB]) { out[&BB] = cur; ch = true; }
        } }
    }
  }

  void body(Frame &fr) {
    Function &G = *fr.F;
    localFacts(fr);
    // locks: forward must-dataflow
    std::map<const BasicBlock *, std::set<std::string>> lin; std::set<const BasicBlock *> have;
    lin[&G.getEntryBlock()] = fr.locks; have.insert(&G.getEntryBlock());
    for (int iter = 0; iter < 24; iter++) {
      bool ch = false; fr.sweep = iter;
      for (auto &BB : G) {
        if (!have.count(&BB)) continue;
        auto locks = lin[&BB];
        for (auto &I : BB) ch |= step(fr, I, locks);
        for (auto *S : successors(&BB)) {
          if (have.insert(S).second) { lin[S] = locks; ch = true; }
          else { std::set<std::string> x; for (auto &l : lin[S]) if (locks.count(l)) x.insert(l); if (x != lin[S]) { lin[S] = x; ch = true; } }
        }
      }
      if (!ch) break;
    }
  }
  // values are recomputed per sweep (early sweeps see partial operands) and only joined once sweeps run long
  bool setv(Frame &fr, const Instruction &I, const AV &v) {
    AV &o = fr.env[&I];
    if (fr.sweep < 8) { Lin old = o.l; bool ch = false; for (auto &kv : v.p) if (o.p.size() < 24 && o.p.insert(kv).second) ch = true; o.l = v.l; return ch || !(old == o.l); }
    return o.join(v);
  }

  bool step(Frame &fr, Instruction &I, std::set<std::string> &locks) {
    steps++;
    if (auto *A = dyn_cast<AllocaInst>(&I)) return setv(fr, I, privObj("alloca" + fr.ctx + id(A)));
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) return setv(fr, I, gep(fr, cast<GEPOperator>(G)));
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      AV p = ptrOf(fr, L->getPointerOperand());
      record(fr, &I, p, false, L->isAtomic(), locks);
      AV v = loadFrom(fr, p, L->getType());
      if (fr.lbAllocas.count(L->getPointerOperand()->stripPointerCasts())) { v = AV(); int &pid = partId[L->getPointerOperand()]; if (!pid) pid = nextPart++; v.l.k = Lin::Uniq; v.l.T = pid; v.l.c = 0; fr.env[&I] = v; return false; }
      return setv(fr, I, v);
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      AV p = ptrOf(fr, S->getPointerOperand());
      record(fr, &I, p, true, S->isAtomic(), locks);
      AV v; if (S->getValueOperand()->getType()->isPointerTy()) v = ptrOf(fr, S->getValueOperand()); else v.l = S->getValueOperand()->getType()->isIntegerTy() ? intOf(fr, S->getValueOperand()) : LVar();
      storeTo(p, v); return false;
    }
    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { record(fr, &I, ptrOf(fr, R->getPointerOperand()), true, true, locks); AV v; v.l = LVar(); return setv(fr, I, v); }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { record(fr, &I, ptrOf(fr, X->getPointerOperand()), true, true, locks); AV v; v.l = LVar(); return setv(fr, I, v); }
    if (auto *P = dyn_cast<PHINode>(&I)) {
      AV v;
      // induction over a work-shared lower bound keeps the partition identity
      const Value *seed = nullptr; bool ind = P->getType()->isIntegerTy();
      if (ind) {
        bool sawAdd = false;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          const Value *in = P->getIncomingValue(i); auto *B = dyn_cast<BinaryOperator>(in);
          if (B && B->getOpcode() == Instruction::Add && B->getOperand(0) == P && isa<ConstantInt>(B->getOperand(1))) { sawAdd = true; continue; }
          const Value *s = in; while (auto *Cst = dyn_cast<CastInst>(s)) s = Cst->getOperand(0);
          auto *L = dyn_cast<LoadInst>(s);
          if (L && fr.lbAllocas.count(L->getPointerOperand()->stripPointerCasts())) { seed = in; continue; }
          ind = false;
        }
        ind = ind && sawAdd && seed;
      }
      if (ind) { v.l = intOf(fr, seed); fr.env[&I] = v; return false; }
      if (P->getType()->isIntegerTy()) { Lin st; if (ownedStart(fr, P, st)) { AV w; w.l = st; bool ch = !(fr.env[&I].l == st); fr.env[&I] = w; return ch; } }
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        const Value *in = P->getIncomingValue(i);
        if (P->getType()->isPointerTy()) v.join(ptrOf(fr, in)); else { AV w; w.l = P->getType()->isIntegerTy() ? intOf(fr, in) : LVar(); v.join(w); }
      }
      return setv(fr, I, v);
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      AV v; if (I.getType()->isPointerTy()) { v.join(ptrOf(fr, S->getTrueValue())); v.join(ptrOf(fr, S->getFalseValue())); } else {
        Lin t = intOf(fr, S->getTrueValue()), f = intOf(fr, S->getFalseValue());
        if (t.k == Lin::Const && t.c == 0 && f.k == Lin::Elem && f.c == -1 && onlyFirst(fr, S->getCondition(), true, f.T)) { v.l = f; v.l.k = Lin::PStart; v.l.c = 0; prefixTables.insert(f.sym); }
        else if (f.k == Lin::Const && f.c == 0 && t.k == Lin::Elem && t.c == -1 && onlyFirst(fr, S->getCondition(), false, t.T)) { v.l = t; v.l.k = Lin::PStart; v.l.c = 0; prefixTables.insert(t.sym); }
        else v.l = joinLin(t, f);
      }
      return setv(fr, I, v);
    }
    if (auto *B = dyn_cast<BinaryOperator>(&I)) { if (!I.getType()->isIntegerTy()) return false; Lin l = evalBin(fr, B); AV v; v.l = l; return setv(fr, I, v); }
    if (auto *Cst = dyn_cast<CastInst>(&I)) {
      if (I.getType()->isPointerTy()) return setv(fr, I, ptrOf(fr, Cst->getOperand(0)));
      AV v; v.l = Cst->getOperand(0)->getType()->isIntegerTy() ? intOf(fr, Cst->getOperand(0)) : LVar(); return setv(fr, I, v);
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) { if (auto *V = R->getReturnValue()) { AV v; if (V->getType()->isPointerTy()) v = ptrOf(fr, V); else v.l = V->getType()->isIntegerTy() ? intOf(fr, V) : LVar(); fr.ret.join(v); } return false; }
    if (isa<CmpInst>(&I)) { AV v; v.l = LVar(); return setv(fr, I, v); }
    if (isa<ExtractValueInst>(&I) || isa<LandingPadInst>(&I)) { AV v; v.l = LVar(); return setv(fr, I, v); }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (isa<DbgInfoIntrinsic>(CB)) return false;
      const Function *H = calleeOf(CB);
      std::vector<AV> as;
      for (auto &A : CB->args()) { AV v; if (A->getType()->isPointerTy()) v = ptrOf(fr, A); else v.l = A->getType()->isIntegerTy() ? intOf(fr, A) : LVar(); as.push_back(v); }
      if (!H) { unmodelled.push_back(where(CB)); for (auto &a : as) record(fr, CB, a, true, false, locks); AV v; v.l = LVar(); if (I.getType()->isPointerTy()) v.join(privObj("icall" + fr.ctx + id(CB))); return setv(fr, I, v); }
      StringRef n = H->getName();
      if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint") { auto *g = CB->getArgOperand(2)->stripPointerCasts(); locks.insert("crit:" + g->getName().str()); return false; }
      if (n == "__kmpc_end_critical") { auto *g = CB->getArgOperand(2)->stripPointerCasts(); locks.erase("crit:" + g->getName().str()); return false; }
      if (n == "omp_set_lock") { for (auto &kv : as[0].p) { bool inv = true; for (auto &s : kv.second.segs) if (s.idx.k != Lin::Const && s.idx.k != Lin::Inv) inv = false; if (inv && as[0].p.size() == 1) locks.insert("lock:" + kv.first); } return false; }
      if (n == "omp_unset_lock") { for (auto &kv : as[0].p) locks.erase("lock:" + kv.first); return false; }
      if (n.starts_with("__kmpc_reduce")) { locks.insert("reduce"); AV v; v.l = LVar(); return setv(fr, I, v); }
      if (n.starts_with("__kmpc_end_reduce")) { locks.erase("reduce"); return false; }
      if (n == "__kmpc_fork_call") { unmodelled.push_back(where(CB) + " (nested region)"); return false; }
      bool inStd = !isRepoFunc(H);
      AV r;
      if (H->isDeclaration() || n == "_Znwm" || H->isIntrinsic()) r = libraryCall(fr, CB, H, as, locks);
      else if (inStd && allPrivate(as)) { r.l = LVar(); if (I.getType()->isPointerTy()) r.join(privObj("std" + fr.ctx + id(CB))); }
      else if (inStd && isStreamy(H)) r = libraryCall(fr, CB, H, as, locks);
      else {
        std::string ch = fr.chain; if (isRepoFunc(H)) ch += " -> " + shortName(H) + " (" + where(CB) + ")";
        auto it = fr.onlyOf.find(I.getParent()); std::string only = it != fr.onlyOf.end() ? it->second : fr.only;
        auto ph = fr.phaseOf.find(&I);
        r = run(const_cast<Function *>(H), as, fr.ctx, locks, only, ph != fr.phaseOf.end() ? ph->second : fr.phase, ch, fr.depth + 1);
        if (r.l.k == Lin::Bot && I.getType()->isIntegerTy() && !active.empty()) {}
      }
      if (I.getType()->isVoidTy()) return false;
      return setv(fr, I, r);
    }
    return false;
  }
  static bool isStreamy(const Function *H) { std::string d = demangled(H); return d.find("basic_ostream") != std::string::npos || d.find("std::setprecision") != std::string::npos; }

  static bool distinct(const Lin &a, const Lin &b) { // different threads => different elements?
    if (a.k == Lin::Const && b.k == Lin::Const) return a.c != b.c;
    if (a.k == Lin::Uniq && b.k == Lin::Uniq && a.T == b.T && a.scale == b.scale) {
      if (a.c == b.c && a.block == b.block) return true;
      char *e; long s = strtol(a.scale.c_str(), &e, 10);
      if (*e == 0) { // constant stride: extras must stay within one stride
        long alo = a.c, ahi = a.c + (a.block ? s - 1 : 0), blo = b.c, bhi = b.c + (b.block ? s - 1 : 0);
        if (std::max(ahi, bhi) - std::min(alo, blo) < s) return true;
      }
    }
    return false;
  }
  static bool conflict(const Access &a, const Access &b) {
    if (!a.write && !b.write) return false;
    if (a.atomic && b.atomic) return false;
    if (a.ap.root != b.ap.root || a.ap.segs.size() != b.ap.segs.size()) return false;
    for (size_t i = 0; i < a.ap.segs.size(); i++) {
      const Seg &x = a.ap.segs[i], &y = b.ap.segs[i];
      if (x.off != y.off && x.off >= 0 && y.off >= 0) return false;
      if (distinct(x.idx, y.idx)) return false;
    }
    for (auto &l : a.locks) if (b.locks.count(l)) return false;
    if (!a.only.empty() && a.only == b.only) return false;
    bool ph = false; for (auto *p : a.phase) if (b.phase.count(p)) ph = true;
    return ph;
  }
};
} // namespace

static std::string rootName(Function *Out, unsigned argNo) {
  Argument *A = Out->getArg(argNo);
  std::string n = varName(A);
  return n.empty() ? "arg" + std::to_string(argNo) : n;
}

// (function, argument) pairs whose array argument is a permutation: the function builds its inverse, B[A[i]] = i
static std::map<const Function *, std::set<unsigned>> permutationArgs(Module &M) {
  std::map<const Function *, std::set<unsigned>> r;
  auto strip = [](const Value *V) { while (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0); return V; };
  for (auto &F : M) {
    if (!isRepoFunc(&F)) continue;
    for (auto &I : instructions(F)) {
      auto *S = dyn_cast<StoreInst>(&I); if (!S) continue;
      auto *G = dyn_cast<GetElementPtrInst>(S->getPointerOperand()); if (!G || G->getNumIndices() != 1) continue;
      auto *L = dyn_cast<LoadInst>(strip(G->getOperand(1))); if (!L) continue;
      auto *G2 = dyn_cast<GetElementPtrInst>(L->getPointerOperand()); if (!G2 || G2->getNumIndices() != 1) continue;
      if (strip(G2->getOperand(1)) != strip(S->getValueOperand())) continue;
      if (auto *A = dyn_cast<Argument>(G2->getPointerOperand())) r[&F].insert(A->getArgNo());
    }
  }
  return r;
}

static const Value *noCast(const Value *V) { while (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0); return V; }
static bool sameVal(const Value *A, const Value *B, int d = 0) {
  A = noCast(A); B = noCast(B); if (A == B) return true; if (d > 6) return false;
  auto *I = dyn_cast<Instruction>(A), *J = dyn_cast<Instruction>(B);
  if (!I || !J || I->getOpcode() != J->getOpcode() || I->getNumOperands() != J->getNumOperands()) return false;
  if (!isa<LoadInst>(I) && !isa<GetElementPtrInst>(I) && !isa<BinaryOperator>(I)) return false;
  for (unsigned k = 0; k < I->getNumOperands(); k++) if (!sameVal(I->getOperand(k), J->getOperand(k), d + 1)) return false;
  return true;
}
// The table the threads' ranges are taken from must hold running totals when the region starts:
// a loop before it that stores S[i] = S[i] + (S[i-1] | running total), for every i from the second entry (or a total of 0) to the thread count.
static std::string runningTotals(Function &P, const CallBase *Fork, const Value *Cap) {
  DominatorTree DT(P); LoopInfo LI(DT);
  auto onTable = [&](const Value *Ptr, const Value *&ix) -> bool {
    auto *G = dyn_cast<GetElementPtrInst>(Ptr); if (!G || G->getNumIndices() != 1) return false;
    const Value *b = G->getPointerOperand(); auto *L = dyn_cast<LoadInst>(b);
    if (b != Cap && !(L && L->getPointerOperand() == Cap)) return false;
    ix = noCast(G->getOperand(1)); return true; };
  auto shift = [&](const Value *ix, const Value *&base) -> long {
    base = ix; auto *B = dyn_cast<BinaryOperator>(ix);
    if (B && isa<ConstantInt>(B->getOperand(1)) && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
      base = noCast(B->getOperand(0)); long c = cast<ConstantInt>(B->getOperand(1))->getSExtValue(); return B->getOpcode() == Instruction::Add ? c : -c; }
    return 0; };
  // the thread count asked for before the region
  const Value *team = nullptr;
  for (auto &I : instructions(P)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *K = calleeOf(C)) if (K->getName() == "omp_set_num_threads" && DT.dominates(C, Fork)) team = C->getArgOperand(0);
  std::string why = "no loop before the region turns the counts into running totals";
  for (auto &I : instructions(P)) {
    auto *S = dyn_cast<StoreInst>(&I); if (!S) continue;
    const Value *six; if (!onTable(S->getPointerOperand(), six)) continue;
    Loop *Lp = LI.getLoopFor(S->getParent()); if (!Lp || !DT.dominates(Lp->getHeader(), Fork->getParent()) || Lp->contains(Fork->getParent())) continue;
    auto *B = dyn_cast<BinaryOperator>(noCast(S->getValueOperand())); if (!B || B->getOpcode() != Instruction::Add) continue;
    const Value *iv; long so = shift(six, iv);
    auto *Ph = dyn_cast<PHINode>(iv); if (!Ph || Ph->getParent() != Lp->getHeader()) continue;
    bool own = false, prev = false, acc = false;
    for (unsigned k = 0; k < 2; k++) {
      const Value *O = noCast(B->getOperand(k));
      if (auto *L = dyn_cast<LoadInst>(O)) { const Value *lix, *lb; if (onTable(L->getPointerOperand(), lix)) { long lo = shift(lix, lb); if (lb == iv && lo == so) own = true; else if (lb == iv && lo == so - 1) prev = true; } }
      else if (auto *A = dyn_cast<PHINode>(O)) { if (A->getParent() == Lp->getHeader()) { bool z = false, n = false; for (unsigned q = 0; q < A->getNumIncomingValues(); q++) { auto *c = dyn_cast<ConstantInt>(A->getIncomingValue(q)); if (c && c->isZero()) z = true; else if (noCast(A->getIncomingValue(q)) == B) n = true; } acc = z && n; } }
    }
    if (!own || !(prev || acc)) continue;
    // first entry
    long first = -1; bool step = true;
    for (unsigned q = 0; q < Ph->getNumIncomingValues(); q++) {
      const Value *in = noCast(Ph->getIncomingValue(q));
      if (auto *c = dyn_cast<ConstantInt>(in)) first = c->getSExtValue();
      else { auto *A = dyn_cast<BinaryOperator>(in); if (!A || A->getOpcode() != Instruction::Add || noCast(A->getOperand(0)) != Ph || !isa<ConstantInt>(A->getOperand(1)) || !cast<ConstantInt>(A->getOperand(1))->isOne()) step = false; }
    }
    if (!step || first < 0 || (prev ? first + so != 1 : first + so != 0)) { why = "the loop at " + where(S) + " that turns the counts into running totals does not start at the second entry and go on one by one"; continue; }
    // unconditional within the loop, to the thread count
    auto *Br = dyn_cast<BranchInst>(Lp->getHeader()->getTerminator());
    auto *Cmp = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
    if (!Cmp) continue;
    for (BasicBlock *La : Lp->blocks()) for (BasicBlock *Su : llvm::successors(La)) if (Su == Lp->getHeader() && !DT.dominates(S->getParent(), La)) { why = "the running totals are not formed in every round of the loop at " + where(S); step = false; }
    if (!step) continue;
    const Value *lim = noCast(Cmp->getOperand(1)), *ivc = noCast(Cmp->getOperand(0)); auto pr = Cmp->getPredicate();
    const Value *cb; long co = shift(ivc, cb); if (cb != iv) { std::swap(lim, ivc); pr = Cmp->getSwappedPredicate(); co = shift(ivc, cb); if (cb != iv) continue; }
    const Value *lb; long lo = shift(lim, lb);
    if (pr != CmpInst::ICMP_ULT && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_NE) continue;
    if (team && sameVal(lb, team) && lo - co + so != 0) { why = "the loop at " + where(S) + " that forms the running totals stops before the last thread's"; continue; }
    return "";
  }
  return why;
}

static std::string objectName(const Access &w) {
  if (auto *S = dyn_cast<StoreInst>(w.I)) return objectOf(S->getPointerOperand(), w.I->getFunction());
  if (auto *CB = dyn_cast<CallBase>(w.I)) {
    if (auto *H = calleeOf(CB)) {
      if (w.ap.root.rfind("global ", 0) == 0) return w.ap.desc;
      std::string s = CB->arg_size() ? objectOf(CB->getArgOperand(0), w.I->getFunction()) : "";
      return shortName(H) + "(" + s + ")";
    }
  }
  return w.ap.desc;
}

void runRace(Ctx &C) {
  auto permArgs = permutationArgs(*C.M);
  for (auto &kv : permArgs) for (auto n : kv.second) C.R.sets["race_permutation_arguments"].insert(shortName(kv.first) + "#" + std::to_string(n));
  long nreg = 0;
  for (Function &P : *C.M) {
    if (!isRepoFunc(&P)) continue;
    for (auto &I : instructions(P)) {
      auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue;
      auto *K = calleeOf(CB); if (!K || (K->getName() != "__kmpc_fork_call" && K->getName() != "__kmpc_fork_call_if")) continue;
      bool isIf = K->getName() == "__kmpc_fork_call_if";
      auto *Out = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); if (!Out) { C.R.broken.push_back("parallel region with unresolved body at " + where(CB)); continue; }
      nreg++;
      Region Rg(C, Out); Rg.name = funcKey(&P) + " (" + where(CB) + ")";
      C.R.sets["parallel_regions"].insert(Rg.name);
      std::vector<AV> args;
      for (unsigned i = 0; i < Out->arg_size(); i++) {
        AV v;
        if (i < 2) { v = Rg.privObj("tidptr" + std::to_string(i)); }
        else if (Out->getArg(i)->getType()->isPointerTy()) { AP a; a.root = "captured " + rootName(Out, i); a.desc = rootName(Out, i); v.p[a.key()] = a; }
        else v.l = LInv("fp:" + rootName(Out, i));
        args.push_back(v);
      }
      (void)isIf;
      unsigned cap0 = isIf ? 4 : 3; // captured variables follow loc, argc, microtask(, cond)
      for (unsigned i = cap0; i < CB->arg_size(); i++) {
        const Value *Cap = CB->getArgOperand(i); unsigned oi = i - cap0 + 2; if (oi >= Out->arg_size()) break;
        for (auto *U : Cap->users()) if (auto *L = dyn_cast<LoadInst>(U)) for (auto *U2 : L->users()) if (auto *C2 = dyn_cast<CallBase>(U2)) {
          auto it = permArgs.find(calleeOf(C2)); if (it == permArgs.end()) continue;
          for (unsigned an : it->second) if (an < C2->arg_size() && C2->getArgOperand(an) == L) Rg.perms.insert("captured " + rootName(Out, oi));
        }
      }
      for (int round = 0; round < 8; round++) {
        Rg.changed = false; Rg.doneThisRound.clear();
        Rg.run(Out, args, "", {}, "", {}, funcKey(&P) + " (" + where(CB) + ")", 0);
        if (!Rg.changed) break;
        if (round == 7) C.R.broken.push_back("no fixpoint for region " + Rg.name);
        if (round < 7 && Rg.changed) { Rg.acc.clear(); Rg.seenAcc.clear(); }
      }
      C.R.counts["race_accesses_shared"] += Rg.acc.size();
      for (auto &f : Rg.funcs) C.R.sets["race_functions_in_regions"].insert(f);
      for (auto &u : Rg.unmodelled) C.R.sets["race_unresolved_calls"].insert(u);
      for (auto &p : Rg.permUsed) C.R.sets["race_permutations_relied_on"].insert(funcKey(&P) + ":" + p);
      // the invariance of tables relied on above: they are not written inside the region
      for (auto &a : Rg.acc) if (a.write) { AP b = a.ap; b.segs.back().idx = LConst(0); if (Rg.elemRead.count(b.key()) && Rg.permUsed.count(a.ap.desc)) { Finding f = mk("data-race", a.I, funcKey(&P) + "|index table " + a.ap.desc, "index table '" + a.ap.desc + "' partitions the region's work but is written inside it"); C.R.add(f); } }
      for (auto &t : Rg.prefixTables) for (unsigned i = cap0; i < CB->arg_size(); i++) {
        unsigned oi = i - cap0 + 2; if (oi >= Out->arg_size()) break;
        std::string nm = "captured " + rootName(Out, oi); size_t at = t.find(nm); if (at == std::string::npos || (at + nm.size() < t.size() && t[at + nm.size()] != '|')) continue;
        C.R.counts["race_running_totals_relied_on"]++;
        std::string w = runningTotals(P, CB, CB->getArgOperand(i));
        if (!w.empty()) C.R.add(mk("data-race", CB, funcKey(&P) + "|ranges of " + rootName(Out, oi), "the threads of the parallel region of " + Rg.name + " take their ranges from '" + rootName(Out, oi) + "', but " + w + ": the ranges of two threads overlap"));
      }
      // pairs
      std::set<std::string> reported; long pairs = 0, writes = 0;
      for (auto &a : Rg.acc) if (a.write) writes++;
      for (size_t i = 0; i < Rg.acc.size(); i++) for (size_t j = i; j < Rg.acc.size(); j++) {
        auto &a = Rg.acc[i], &b = Rg.acc[j];
        if (!a.write && !b.write) continue;
        if (a.ap.root != b.ap.root) continue;
        pairs++;
        if (!Region::conflict(a, b)) continue;
        const Access &w = a.write ? a : b, &o = a.write ? b : a;
        std::string obj = w.ap.desc;
        for (size_t s = 0; s < w.ap.segs.size(); s++) { if (s) obj += "->"; obj += w.ap.segs[s].str(); }
        std::string acc1; 
        if (auto *S = dyn_cast<StoreInst>(w.I)) acc1 = describe(S->getPointerOperand()); else acc1 = describe(w.I);
        std::string k = w.ap.desc; for (auto &sg : w.ap.segs) if (sg.off) k += "." + std::to_string(sg.off);
        std::string obj0 = objectName(w);
        if (!reported.insert(obj0).second) continue;
        Finding f = mk("data-race", w.I, funcKey(&P) + "|" + obj0, "");
        f.msg = "in the parallel region of " + Rg.name + ", '" + acc1 + "' (path " + obj + ") is written by one thread at " + where(w.I) + " while another thread may " + (o.write ? "write" : "read") + " the same element at " + where(o.I) + "; no thread-indexed step, lock, atomic or barrier separates them";
        f.notes.push_back("write via " + w.chain); f.notes.push_back("other via " + o.chain);
        C.R.add(f);
      }
      C.R.counts["race_pairs_examined"] += pairs; C.R.counts["race_shared_writes"] += writes;
    }
  }
  C.R.counts["race_regions"] = nreg;
  if (!nreg) C.R.broken.push_back("no OpenMP parallel region found");
}
} // namespace vcsa
