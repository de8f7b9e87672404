// Ownership of heap memory: what was released is not used, released again or left behind for later use, and memory is
// released in the form in which it was obtained.
#include "common.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
namespace vcsa {
static bool has(const std::string &s, const std::string &p) { return s.find(p) != std::string::npos; }
static int heapKind(const Function *H) { // 1 new, 2 new[], 3 malloc; negative for the releases
  if (!H) return 0; StringRef n = H->getName();
  if (n.starts_with("_Znwm") || n.starts_with("_ZnwmSt")) return 1; if (n.starts_with("_Znam")) return 2;
  if (n == "malloc" || n == "calloc" || n == "realloc" || n == "strdup") return 3;
  if (n.starts_with("_ZdlPv")) return -1; if (n.starts_with("_ZdaPv")) return -2; if (n == "free") return -3;
  return 0;
}
static const char *formName(int k) { return k == 1 ? "new" : k == 2 ? "new[]" : "malloc"; }
static const char *relName(int k) { return k == -1 ? "delete" : k == -2 ? "delete[]" : "free"; }
static int constCond(const Value *V) { // -1 unknown
  if (auto *K = dyn_cast<ConstantInt>(V)) return K->getValue()[0]; if (auto *Z = dyn_cast<CastInst>(V)) return constCond(Z->getOperand(0));
  if (auto *Cm = dyn_cast<ICmpInst>(V)) if (auto *A = dyn_cast<ConstantInt>(Cm->getOperand(0))) if (auto *B = dyn_cast<ConstantInt>(Cm->getOperand(1))) return ICmpInst::compare(A->getValue(), B->getValue(), Cm->getPredicate());
  return -1;
}
namespace {
// --- forms: unification of what pointers may point to -----------------------
struct Forms {
  Ctx &C; std::vector<int> up, pt; std::vector<std::map<int, const Instruction *>> kinds; std::map<const Value *, int> nodeOf; std::map<std::string, int> field; std::map<const Function *, int> ret;
  Forms(Ctx &C) : C(C) {}
  int fresh() { up.push_back(up.size()); pt.push_back(-1); kinds.emplace_back(); return up.size() - 1; }
  int find(int x) { while (up[x] != x) x = up[x] = up[up[x]]; return x; }
  void join(int a, int b) { std::vector<std::pair<int, int>> w{{a, b}}; while (!w.empty()) { a = find(w.back().first); b = find(w.back().second); w.pop_back(); if (a == b) continue; up[b] = a; for (auto &k : kinds[b]) kinds[a].insert(k); if (pt[a] < 0) pt[a] = pt[b]; else if (pt[b] >= 0) w.push_back({pt[a], pt[b]}); } }
  int deref(int x) { x = find(x); if (pt[x] < 0) { int f = fresh(); pt[x] = f; } return find(pt[x]); }
  // the node of a pointer value: the object it points to is its identity
  int node(const Value *V) {
    V = V->stripPointerCasts(); auto it = nodeOf.find(V); if (it != nodeOf.end()) return find(it->second);
    if (auto *G = dyn_cast<GEPOperator>(V)) { std::string f = fieldOf(G, C.M); int n; if (!f.empty()) { auto x = field.find(f); n = x == field.end() ? field[f] = fresh() : x->second; } else n = node(G->getPointerOperand()); nodeOf[V] = n; return find(n); }
    int n = fresh(); nodeOf[V] = n; return n;
  }
  void run() {
    for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) {
      if (auto *P = dyn_cast<PHINode>(&I); P && P->getType()->isPointerTy()) for (auto &x : P->incoming_values()) if (!isa<ConstantPointerNull>(x) && !isa<UndefValue>(x)) join(node(P), node(x));
      if (auto *S = dyn_cast<SelectInst>(&I); S && S->getType()->isPointerTy()) { if (!isa<Constant>(S->getTrueValue())) join(node(S), node(S->getTrueValue())); if (!isa<Constant>(S->getFalseValue())) join(node(S), node(S->getFalseValue())); }
      if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy()) join(node(L), deref(node(L->getPointerOperand())));
      if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isPointerTy() && !isa<Constant>(S->getValueOperand())) join(deref(node(S->getPointerOperand())), node(S->getValueOperand()));
      if (auto *R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy() && !isa<Constant>(R->getReturnValue())) { auto it = ret.find(&F); int n = it == ret.end() ? ret[&F] = fresh() : it->second; join(n, node(R->getReturnValue())); }
      if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H) continue; int k = heapKind(H); if (k > 0) { kinds[node(CB)].insert({k, CB}); continue; }
        if (k < 0) continue; unsigned off = 0, skip = 0; const Function *T = H;
        if (H->getName() == "__kmpc_fork_call") { T = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); off = 3; skip = 2; }
        if (!T || T->isDeclaration() || !isRepoFunc(T)) continue;
        for (unsigned i = off; i < CB->arg_size() && i - off + skip < T->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy() && !isa<Constant>(CB->getArgOperand(i))) join(node(T->getArg(i - off + skip)), node(CB->getArgOperand(i)));
        if (CB->getType()->isPointerTy()) { auto it = ret.find(T); int n = it == ret.end() ? ret[T] = fresh() : it->second; join(n, node(CB)); } }
    }
    for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration()) { std::set<const BasicBlock *> live; std::vector<const BasicBlock *> w{&F.getEntryBlock()}; while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!live.insert(B).second) continue; if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional()) { int cc = constCond(Br->getCondition()); if (cc >= 0) { w.push_back(Br->getSuccessor(cc ? 0 : 1)); continue; } } for (auto *N : successors(B)) w.push_back(N); }
     for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { int k = heapKind(calleeOf(CB)); if (k >= 0 || !live.count(CB->getParent())) continue;
      auto &ks = kinds[node(CB->getArgOperand(0))]; C.R.counts["releases"]++; if (ks.empty()) { C.R.counts["releases_of_unknown_origin"]++; continue; }
      for (auto &x : ks) if (x.first != -k) C.R.add(mk("form", CB, funcKey(&F) + "|form|" + describe(CB->getArgOperand(0)), std::string("'") + describe(CB->getArgOperand(0)) + "' is released with " + relName(k) + " but obtained with " + formName(x.first) + " (" + where(x.second) + ")")); } }
  }
};
// --- typestate -----------------------------------------------------------------
// a release: the instruction, and what was found true (false) on the way from it
struct Rel { const Instruction *at = nullptr; std::map<std::string, bool> facts; Rel() {} Rel(const Instruction *I) : at(I) {} bool operator==(const Rel &o) const { return at == o.at && facts == o.facts; } };
typedef std::map<std::string, Rel> RelMap;
struct Sum { std::map<std::string, const Instruction *> rel; std::set<std::string> assigned, writes, derefs; std::string ret = "?"; bool dtor = false; };
struct S {
  std::map<std::string, bool> facts; RelMap rel, relA; // released values, places that hold a released value
  std::map<std::string, std::string> env; std::map<const Value *, std::string> val; std::set<std::string> done, may; bool live = false;
  bool operator==(const S &o) const { return facts == o.facts && rel == o.rel && relA == o.relA && env == o.env && val == o.val && live == o.live && done == o.done && may == o.may; }
};
struct Release {
  Ctx &C; std::map<const Function *, Sum> sums; std::set<std::string> seen; bool final = false;
  Release(Ctx &C) : C(C) {}
  std::map<const Value *, int> ids; std::vector<const Value *> byId; std::set<std::string> ptrPhis;
  int id(const Value *V) { auto it = ids.find(V); if (it != ids.end()) return it->second; int n = ids.size(); byId.push_back(V); if (isa<PHINode>(V) && V->getType()->isPointerTy()) ptrPhis.insert("%" + std::to_string(n) + "."); return ids[V] = n; }
  // does the name speak of a value that the loop computes anew in each round?
  bool mentions(const std::string &k, const Loop *L) {
    for (size_t i = 0; i < k.size(); i++) { size_t j; if (k[i] == '%') j = i + 1; else if (k.compare(i, 3, "old") == 0) j = i + 3; else continue; if (j >= k.size() || !isdigit(k[j])) continue; auto *I = dyn_cast<Instruction>(byId[atoi(k.c_str() + j)]); if (I && L->contains(I)) return true; }
    return false;
  }
  static std::string sub(std::string s, const std::string &a, const std::string &b) { size_t i = 0; while ((i = s.find(a, i)) != std::string::npos) { s.replace(i, a.size(), b); i += b.size(); } return s; }
  std::string idx(S &s, const Value *V, int d = 0) {
    if (auto *K = dyn_cast<ConstantInt>(V)) return std::to_string(K->getSExtValue()); if (d > 6) return "%" + std::to_string(id(V)) + ".";
    if (auto *Z = dyn_cast<CastInst>(V)) return idx(s, Z->getOperand(0), d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) { const char *o = B->getOpcode() == Instruction::Add ? "+" : B->getOpcode() == Instruction::Sub ? "-" : B->getOpcode() == Instruction::Mul ? "x" : nullptr; if (o) return "(" + idx(s, B->getOperand(0), d + 1) + o + idx(s, B->getOperand(1), d + 1) + ")"; }
    if (isa<LoadInst>(V)) return key(s, V); if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo()) + "."; return "%" + std::to_string(id(V)) + ".";
  }
  std::string key(S &s, const Value *V) {
    V = V->stripPointerCasts(); if (isa<ConstantPointerNull>(V)) return "null"; auto it = s.val.find(V); if (it != s.val.end()) return it->second;
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo()) + "."; if (isa<GEPOperator>(V)) return addr(s, V);
    if (auto *G = dyn_cast<GlobalVariable>(V)) return "G" + G->getName().str() + "."; return "%" + std::to_string(id(V)) + ".";
  }
  std::string addr(S &s, const Value *P) {
    P = P->stripPointerCasts();
    if (auto *G = dyn_cast<GEPOperator>(P)) {
      std::string f = fieldOf(G, C.M); std::string b = isa<GEPOperator>(G->getPointerOperand()) ? addr(s, G->getPointerOperand()) : key(s, G->getPointerOperand());
      if (!f.empty()) { std::string x = b + "#" + f; if (G->getNumIndices() > 2) {} return x; }
      if (G->getNumIndices() == 1) { auto *K = dyn_cast<ConstantInt>(G->getOperand(1)); if (K && K->isZero()) return b; return b + "[" + idx(s, G->getOperand(1)) + "]"; }
      std::string r = b; for (auto i = G->idx_begin() + 1; i != G->idx_end(); ++i) r += "[" + idx(s, *i) + "]"; return r;
    }
    std::string k = key(s, P); return k;
  }
  // the name of a condition, and whether it is the negation of the value that has the name
  std::string cond(S &s, const Value *V, bool &neg, int d = 0) {
    if (auto *X = dyn_cast<BinaryOperator>(V); X && X->getOpcode() == Instruction::Xor && isa<ConstantInt>(X->getOperand(1)) && X->getType()->isIntegerTy(1) && d < 8) { neg = !neg; return cond(s, X->getOperand(0), neg, d + 1); }
    if (auto *Z = dyn_cast<CastInst>(V); Z && d < 8 && Z->getSrcTy()->isIntegerTy() && (isa<TruncInst>(Z) || isa<ZExtInst>(Z)) && (Z->getType()->isIntegerTy(1) || Z->getSrcTy()->isIntegerTy(1))) return cond(s, Z->getOperand(0), neg, d + 1);
    if (auto *Cm = dyn_cast<ICmpInst>(V)) { auto p = Cm->getPredicate(); auto nm = [&](const Value *v) { return v->getType()->isPointerTy() ? key(s, v) : idx(s, v); }; std::string a = nm(Cm->getOperand(0)), b = nm(Cm->getOperand(1));
      if (p == ICmpInst::ICMP_NE && isa<ConstantInt>(Cm->getOperand(1)) && cast<ConstantInt>(Cm->getOperand(1))->isZero() && d < 8) { if (auto *P = dyn_cast<PHINode>(Cm->getOperand(0)); P) return cond(s, P, neg, d + 1); }
      if (p == ICmpInst::ICMP_NE || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGE || p == ICmpInst::ICMP_SGT) { neg = !neg; p = ICmpInst::getInversePredicate(p); }
      if (p == ICmpInst::ICMP_EQ && a > b) std::swap(a, b); return a + "?" + std::to_string(p) + "?" + b; }
    return "%" + std::to_string(id(V)) + ".";
  }
  // the object that an address lies in
  const Value *base(const Value *P) { P = P->stripPointerCasts(); while (auto *G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand()->stripPointerCasts(); return P; }
  static std::string loadKey(const std::string &a) { return "*(" + a + ")"; }
  void forget(S &s, const std::string &A, const Value *by) { // the place A gets a new value: what was read from it keeps its identity
    std::string o = loadKey(A), n = s.may.count(A) ? "old" + std::to_string(id(by)) + "{" + A + "}" : "ent{" + A + "}"; s.may.insert(A);
    for (auto &v : s.val) if (has(v.second, o)) v.second = sub(v.second, o, n);
    auto ren = [&](RelMap &m) { std::vector<std::pair<std::string, Rel>> add; for (auto it = m.begin(); it != m.end();) if (has(it->first, o)) { add.push_back({sub(it->first, o, n), it->second}); it = m.erase(it); } else ++it; for (auto &x : add) m.insert(x); };
    ren(s.rel); ren(s.relA); std::map<std::string, std::string> e; for (auto &x : s.env) e[has(x.first, o) ? sub(x.first, o, n) : x.first] = has(x.second, o) ? sub(x.second, o, n) : x.second; s.env = e;
  }
  static std::string loopTag(const BasicBlock *B, Release &R) { return "~" + std::to_string(R.id(B)) + "~"; }
  const Rel *releasedR(S &s, const std::string &k) { auto it = s.rel.find(k); return it == s.rel.end() ? nullptr : &it->second; }
  const Instruction *released(S &s, const std::string &k, Loop *L, LoopInfo &LI) { auto it = s.rel.find(k); if (it != s.rel.end()) return it->second.at; return nullptr; }
  // does the place hold a released value?  elements released by a loop count only outside that loop
  const Rel *holds(S &s, const std::string &A, const BasicBlock *B, LoopInfo &LI) {
    auto it = s.relA.find(A); if (it != s.relA.end()) return &it->second;
    for (auto &x : s.relA) { size_t p = x.first.find("[~"); if (p == std::string::npos) continue; size_t q = x.first.find("~]", p); std::string pre = x.first.substr(0, p), post = x.first.substr(q + 2); int lid = atoi(x.first.c_str() + p + 2);
      bool first = A == pre + post; if (!first) {
      if (A.compare(0, pre.size() + 1, pre + "[") || (post.size() && (A.size() < post.size() || A.compare(A.size() - post.size(), post.size(), post)))) continue;
      std::string mid = A.substr(pre.size() + 1); int d = 1; size_t e = 0; for (; e < mid.size() && d; e++) { if (mid[e] == '[') d++; if (mid[e] == ']') d--; } if (mid.substr(e) != post) continue; }
      bool inside = false; for (auto *L = LI.getLoopFor(B); L; L = L->getParentLoop()) if (id(L->getHeader()) == lid) inside = true; if (inside) continue; return &x.second; }
    return nullptr;
  }
  void report(const char *rule, const Instruction *I, const Function &F, const std::string &what, const Instruction *at, const std::string &verb) {
    if (!final) return; std::string nm = funcKey(&F); std::string k = nm + "|" + what + "|" + rule; if (!seen.insert(k).second) return;
    C.R.add(mk(rule, I, k, "'" + what + "' " + verb + (at ? " (released at " + where(at) + ")" : "")));
  }
  void analyse(Function &F) {
    DominatorTree DT(F); LoopInfo LI(DT); Sum sum; std::map<const BasicBlock *, S> in; std::set<std::pair<int, const BasicBlock *>> w; std::map<const BasicBlock *, int> rpo; { ReversePostOrderTraversal<Function *> RT(&F); int n = 0; for (auto *x : RT) rpo[x] = n++; } std::string nm = demangled(&F); sum.dtor = has(nm, "::~");
    S e; e.live = true; in[&F.getEntryBlock()] = e; w.insert({0, &F.getEntryBlock()}); long steps = 0; bool first = true; std::set<std::string> mustAssigned; Sum out; std::map<const BasicBlock *, int> visits;
    std::map<const BasicBlock *, std::pair<std::map<std::string, const Instruction *>, std::set<std::string>>> exits; bool wasFinal = final; final = false;
    auto xfer = [&](const BasicBlock *B, S s, bool rep, std::function<void(const BasicBlock *, S)> go) {
      final = rep;
      for (auto &I : *B) {
        if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (auto *AI = dyn_cast_or_null<AllocaInst>(D->getAddress())) { std::string k = key(s, AI), l = loadKey(k); auto in = [&](const std::string &x) { return x.compare(0, k.size(), k) == 0 || has(x, l); }; for (auto *m : {&s.rel, &s.relA}) for (auto it = m->begin(); it != m->end();) if (in(it->first)) it = m->erase(it); else ++it; for (auto it = s.env.begin(); it != s.env.end();) if (in(it->first) || has(it->second, l)) it = s.env.erase(it); else ++it; for (auto it = s.val.begin(); it != s.val.end();) if (has(it->second, l)) it = s.val.erase(it); else ++it; }
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        auto use = [&](const Value *P) { const Value *b = base(P); std::string k = key(s, b); if (auto *at = released(s, k, nullptr, LI)) report("use-after-release", &I, F, describe(b), at, "is used after it was released"); };
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          use(L->getPointerOperand()); if (!L->getType()->isPointerTy() && !L->getType()->isIntegerTy()) continue; std::string A = addr(s, L->getPointerOperand()); auto it = s.env.find(A); std::string k = it != s.env.end() ? it->second : loadKey(A);
          if (k.size() > 300) k = "%" + std::to_string(id(L)) + "."; s.val[L] = k; if (L->getType()->isPointerTy()) { if (it == s.env.end() && !s.relA.empty()) if (auto *at = holds(s, A, B, LI)) { Rel r = *at; s.rel[k] = r; } } continue; }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          use(St->getPointerOperand()); std::string A = addr(s, St->getPointerOperand()); std::string v = St->getValueOperand()->getType()->isPointerTy() ? key(s, St->getValueOperand()) : isa<ConstantInt>(St->getValueOperand()) ? "" : "";
          bool p = St->getValueOperand()->getType()->isPointerTy(); const Rel *at0 = p ? releasedR(s, v) : nullptr; Rel at = at0 ? *at0 : Rel(); forget(s, A, St); if (p) v = key(s, St->getValueOperand()); s.env.erase(A);
          if (p) { s.env[A] = v; s.relA.erase(A); if (at.at) s.relA[A] = at; s.done.insert(A); if (A[0] == 'a') out.writes.insert(A); 
            // a loop over all elements gives each of them a new value
            size_t q = A.rfind('['); if (q != std::string::npos) for (auto it = s.relA.begin(); it != s.relA.end();) if (has(it->first, A.substr(0, q) + "[~")) it = s.relA.erase(it); else ++it; }
          continue; }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *H = calleeOf(CB); int k = heapKind(H);
          if (k < 0) { const Value *P = base(CB->getArgOperand(0)); std::string v = key(s, P); if (v == "null") continue;
            if (getenv("RELDBG") && final && has(where(CB), getenv("RELDBG"))) { errs() << where(CB) << " delete " << v << "\n"; for (auto &x : s.rel) errs() << "   rel " << x.first << " @" << where(x.second.at) << "\n"; for (auto &x : s.relA) errs() << "   relA " << x.first << "\n"; for (auto &x : s.env) errs() << "   env " << x.first << " = " << x.second << "\n"; }
            if (auto *at = released(s, v, nullptr, LI)) report("released-twice", CB, F, describe(P), at, "is released again");
            Rel nr(CB); nr.facts = s.facts; s.rel[v] = nr; if (v.rfind("*(", 0) == 0) { std::string A = v.substr(2, v.size() - 3); auto x = s.env.find(A); if (x == s.env.end() || x->second == v) s.relA[A] = nr; } for (auto &x : s.env) if (x.second == v) s.relA[x.first] = nr;
            C.R.counts[final ? "releases_followed" : "_"]++; continue; }
          if (k > 0) { s.val[CB] = "%" + std::to_string(id(CB)) + "."; s.rel.erase(key(s, CB)); continue; }
          if (H && has(H->getName().str(), "St6vector") && CB->arg_size() >= 1) { std::string dn = demangled(H); auto K = [&]() { auto *a = CB->getArgOperand(0); return isa<GEPOperator>(a->stripPointerCasts()) ? addr(s, a) : key(s, a); };
            if (has(dn, "::operator[](") || has(dn, "::at(")) { s.val[CB] = K() + "[" + idx(s, CB->getArgOperand(1)) + "]"; continue; }
            if (has(dn, "::clear(") || has(dn, "::resize(") || has(dn, "::assign(") || has(dn, "::operator=(") || has(dn, "::push_back(") || has(dn, "::pop_back(") || has(dn, "::erase(") || has(dn, "::swap(") || has(dn, "::~vector(")) { std::string k0 = K() + "["; for (auto it = s.relA.begin(); it != s.relA.end();) if (it->first.compare(0, k0.size(), k0) == 0) it = s.relA.erase(it); else ++it; continue; } }
          unsigned off = 0, skip = 0; const Function *T = H; if (H && H->getName() == "__kmpc_fork_call") { T = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); off = 3; skip = 2; }
          for (unsigned i = off; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy() && !CB->getArgOperand(i)->getType()->isMetadataTy()) { const Value *b = base(CB->getArgOperand(i)); if (auto *at = released(s, key(s, b), nullptr, LI)) report("use-after-release", CB, F, describe(b), at, "is passed on after it was released"); }
          if (!T || !isRepoFunc(T) || T->isDeclaration()) continue; auto su = sums.find(T); if (su == sums.end()) continue;
          std::map<std::string, std::string> m; for (unsigned i = off; i < CB->arg_size() && i - off + skip < T->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy()) m["a" + std::to_string(i - off + skip) + "."] = isa<GEPOperator>(CB->getArgOperand(i)->stripPointerCasts()) ? addr(s, CB->getArgOperand(i)) : key(s, CB->getArgOperand(i));
          for (unsigned i = off; i < CB->arg_size() && i - off + skip < T->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isIntegerTy()) m["a" + std::to_string(i - off + skip) + "."] = idx(s, CB->getArgOperand(i));
          auto tr = [&](const std::string &x) { std::string r; size_t i = 0; while (i < x.size()) { if (x[i] == 'a' && (i == 0 || !isalnum(x[i - 1])) && i + 1 < x.size() && isdigit(x[i + 1])) { size_t j = i + 1; while (j < x.size() && isdigit(x[j])) j++; if (j < x.size() && x[j] == '.') { auto q = m.find(x.substr(i, j - i + 1)); if (q == m.end()) return std::string(); r += q->second; i = j + 1; continue; } } r += x[i++]; } return r; };
          for (auto &d : su->second.derefs) { std::string A = tr(d); if (A.empty()) continue; if (auto *at = holds(s, A, B, LI)) report("use-after-release", CB, F, A.substr(A.rfind('#') == std::string::npos ? 0 : A.rfind('#') + 1), at->at, "is used by " + shortName(T) + " after it was released"); }
          std::map<std::string, const Instruction *> addRel, addA; for (auto &r : su->second.rel) { std::string x = tr(r.first); if (x.empty() || (r.first[0] != '=' && su->second.writes.count(r.first))) { if (x.size()) addA[x] = CB; continue; } (r.first[0] == '=' ? addRel[x.substr(1)] : addA[x]) = CB; }
          for (auto &x : su->second.rel) if (x.first[0] != '=' && !su->second.writes.count(x.first)) { std::string A = tr(x.first); if (A.empty()) continue; auto ev = s.env.find(A); std::string v = ev != s.env.end() ? ev->second : loadKey(A); if (v != "null") addRel[v] = CB; }
          // values read earlier from the places whose contents the callee releases
          std::set<std::string> pats; for (auto &x : addA) if (has(x.first, "[~")) pats.insert("*(" + x.first + ")"); for (auto it = addRel.begin(); it != addRel.end();) if (has(it->first, "[~")) { pats.insert(it->first); it = addRel.erase(it); } else ++it;
          for (auto &x : pats) { size_t p = x.find("[~"), q = x.find("~]", p); std::string pre = x.substr(0, p + 1), post = x.substr(q + 2); if (post.find('~') != std::string::npos) continue;
            for (auto &v : s.val) { auto &k = v.second; if (k == pre.substr(0, pre.size() - 1) + post) { addRel[k] = CB; continue; } if (k.compare(0, pre.size(), pre)) continue; int d = 1; size_t e = pre.size(); for (; e < k.size() && d; e++) { if (k[e] == '[') d++; if (k[e] == ']') d--; } if (k.substr(e) == post) addRel[k] = CB; } }
          Rel nr(CB); nr.facts = s.facts; for (auto &x : addRel) s.rel[x.first] = nr; for (auto &x : pats) s.rel[x] = nr;
          for (auto &wv : su->second.writes) { std::string A = tr(wv); if (A.empty()) continue; forget(s, A, CB); s.env.erase(A); if (A[0] == 'a') out.writes.insert(A); }
          for (auto &wv : su->second.assigned) { std::string A = tr(wv); if (A.empty()) continue; s.relA.erase(A); s.done.insert(A); }
          for (auto &x : addA) if (!su->second.dtor) s.relA[x.first] = nr;
          if (CB->getType()->isPointerTy() && su->second.ret.size() && su->second.ret != "?") { std::string k = tr(su->second.ret); if (k.size() && k.size() < 300) s.val[CB] = k; }
          continue; }
        if (auto *R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy()) { std::string k = key(s, R->getReturnValue()); if (has(k, "%") || has(k, "old") || !has(k, "*(")) k = ""; if (out.ret == "?") out.ret = k; else if (out.ret != k) out.ret = ""; }
        if (isa<ReturnInst>(I)) { S t = s; exits[B] = {}; auto &ex = exits[B]; for (auto &x : t.relA) if (x.first[0] == 'a') ex.first[x.first] = x.second.at; for (auto &x : t.rel) if (x.first[0] == 'a' && isdigit(x.first[1]) && x.first.find('.') + 1 == x.first.size()) ex.first["=" + x.first] = x.second.at; for (auto *m : {&t.rel, &t.relA}) for (auto &x : *m) if ((has(x.first, "ent{a") || (m == &t.rel && has(x.first, "[~") && has(x.first, "(a"))) && !has(x.first, "old") && !has(x.first, "%")) { std::string k; for (size_t i = 0; i < x.first.size(); i++) { if (x.first.compare(i, 4, "ent{") == 0) { k += "*("; i += 3; } else k += x.first[i] == '}' ? ')' : x.first[i]; } if (m == &t.relA) k = "*(" + k + ")"; ex.first["=" + k] = x.second.at; }
          for (auto &d : s.done) if (d[0] == 'a') ex.second.insert(d); }
        if (auto *R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy()) if (auto *at = released(s, key(s, R->getReturnValue()), nullptr, LI)) report("use-after-release", &I, F, describe(R->getReturnValue()), at, "is returned after it was released");
      }
      for (auto *N : successors(B)) {
        S t = s; // a pointer known to be null is not one that was released
        if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional()) if (auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); Cm && Cm->isEquality() && isa<ConstantPointerNull>(Cm->getOperand(1))) { bool eq = (Cm->getPredicate() == ICmpInst::ICMP_EQ) == (Br->getSuccessor(0) == N); if (eq && Br->getSuccessor(0) != Br->getSuccessor(1)) { std::string v = key(t, Cm->getOperand(0)); t.rel.erase(v); if (v.rfind("*(", 0) == 0) { t.relA.erase(v.substr(2, v.size() - 3)); t.env[v.substr(2, v.size() - 3)] = "null"; } } }
        if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
          bool val = Br->getSuccessor(0) == N; int cc = constCond(Br->getCondition()); if (cc >= 0) { if ((cc == 1) != val) continue; } else { bool neg = false; auto *cv = Br->getCondition(); std::string ck = cond(s, cv, neg); bool once = !isa<PHINode>(cv) && cv->hasOneUse(); if (once && (ck[0] == '%' || isa<FCmpInst>(cv))) ck.clear(); for (auto *L = LI.getLoopFor(B); L && once && ck.size(); L = L->getParentLoop()) if (L->isLoopExiting(B)) for (auto &ph : L->getHeader()->phis()) if (ph.getType()->isIntegerTy() && has(ck, "%" + std::to_string(id(&ph)) + ".")) { ck.clear(); break; } if (neg) val = !val;
            if (ck.size()) for (auto *m : {&t.rel, &t.relA}) for (auto it = m->begin(); it != m->end();) { auto q = it->second.facts.find(ck); if (q != it->second.facts.end() && q->second != val) { it = m->erase(it); continue; } it->second.facts[ck] = val; ++it; } if (ck.size()) t.facts[ck] = val; } }
        RelMap gonePhi = t.rel;
        // leaving or repeating a loop: what one round released, some round released
        std::vector<const Loop *> gone; for (auto *L = LI.getLoopFor(B); L; L = L->getParentLoop()) if (!L->contains(N) || L->getHeader() == N) gone.push_back(L);
        for (auto *L : gone) { bool back = L->getHeader() == N; auto tag = "[~" + std::to_string(id(L->getHeader())) + "~]"; std::set<std::string> phs; for (auto &ph : L->getHeader()->phis()) phs.insert("%" + std::to_string(id(&ph)) + ".");
          // the next round has values of its own under the names of this one
          auto stale = [&](const std::string &k) { for (auto &p : phs) if (ptrPhis.count(p) == 0 && has(k, p)) return true; return back && mentions(k, L); };
          std::vector<std::pair<std::string, Rel>> add; for (auto it = t.relA.begin(); it != t.relA.end();) { std::string r = it->first; if (!stale(r)) { ++it; continue; } for (auto &p : phs) r = sub(r, "[" + p + "]", tag); bool bad = mentions(r, L); if (!bad) add.push_back({r, it->second}); it = t.relA.erase(it); } for (auto &x : add) t.relA.insert(x);
          for (auto it = t.rel.begin(); it != t.rel.end();) if (stale(it->first)) it = t.rel.erase(it); else ++it;
          for (auto *m : {&t.rel, &t.relA}) for (auto &x : *m) for (auto it = x.second.facts.begin(); it != x.second.facts.end();) if (back && stale(it->first)) it = x.second.facts.erase(it); else ++it;
          for (auto it = t.facts.begin(); it != t.facts.end();) if (back && stale(it->first)) it = t.facts.erase(it); else ++it;
          for (auto it = t.val.begin(); it != t.val.end();) if (stale(it->second) || (back && isa<Instruction>(it->first) && L->contains(cast<Instruction>(it->first)))) it = t.val.erase(it); else ++it;
          for (auto it = t.env.begin(); it != t.env.end();) if (stale(it->first) || stale(it->second)) it = t.env.erase(it); else ++it;
          for (auto it = t.done.begin(); it != t.done.end();) if (stale(*it)) it = t.done.erase(it); else ++it; }
        std::vector<std::pair<const PHINode *, std::string>> ps; for (auto &ph : N->phis()) if (ph.getType()->isPointerTy()) ps.push_back({&ph, key(s, ph.getIncomingValueForBlock(B))});
        bool hdr = LI.isLoopHeader(N);
        for (auto &p : ps) { std::string pk = "%" + std::to_string(id(p.first)) + "."; const Rel *at0 = nullptr; { auto q = t.rel.find(p.second); if (q != t.rel.end()) at0 = &q->second; } if (!at0 && gonePhi.count(p.second)) at0 = &gonePhi[p.second]; Rel at = at0 ? *at0 : Rel(); t.rel.erase(pk); if (p.second == "null") continue; if (at.at) t.rel[pk] = at; }
        for (auto &ph : N->phis()) if (ph.getType()->isIntegerTy()) { auto *v = ph.getIncomingValueForBlock(B); std::string pk = "%" + std::to_string(id(&ph)) + "."; auto *K = dyn_cast<ConstantInt>(v); bool neg = false; std::string vk = K ? "" : cond(s, v, neg);
          for (auto *m : {&t.rel, &t.relA}) for (auto &x : *m) { x.second.facts.erase(pk); if (K && K->getValue().ule(1)) x.second.facts[pk] = !K->isZero(); else if (!K && ph.getType()->isIntegerTy(1)) { auto q = x.second.facts.find(vk); if (q != x.second.facts.end()) { bool b = q->second != neg; x.second.facts[pk] = b; } } }
          t.facts.erase(pk); if (K && K->getValue().ule(1)) t.facts[pk] = !K->isZero(); else if (!K && ph.getType()->isIntegerTy(1)) { auto q = t.facts.find(vk); if (q != t.facts.end()) { bool b = q->second != neg; t.facts[pk] = b; } } }
        go(N, t);
      }
      final = false;
    };
    while (!w.empty()) {
      const BasicBlock *B = w.begin()->second; w.erase(w.begin()); if (++steps > 20000) { C.R.counts["functions_given_up"]++; break; }
      xfer(B, in[B], false, [&](const BasicBlock *N, S t) {
        auto it = in.find(N); t.live = true; if (it == in.end() || !it->second.live) { in[N] = t; w.insert({rpo[N], N}); return; }
        S j = it->second; j.may.insert(t.may.begin(), t.may.end()); auto uni = [](RelMap &a, const RelMap &b) { for (auto &x : b) { auto r = a.insert(x); if (!r.second) { auto &f = r.first->second.facts; for (auto q = f.begin(); q != f.end();) { auto y = x.second.facts.find(q->first); if (y == x.second.facts.end() || y->second != q->second) q = f.erase(q); else ++q; } } } }; for (auto x = j.facts.begin(); x != j.facts.end();) { auto y = t.facts.find(x->first); if (y == t.facts.end() || y->second != x->second) x = j.facts.erase(x); else ++x; } uni(j.rel, t.rel); uni(j.relA, t.relA);
        for (auto x = j.env.begin(); x != j.env.end();) { auto y = t.env.find(x->first); if (y == t.env.end() || y->second != x->second) x = j.env.erase(x); else ++x; }
        for (auto &x : t.val) { auto y = j.val.find(x.first); if (y == j.val.end()) j.val[x.first] = x.second; else if (y->second != x.second) { std::string nk = "%" + std::to_string(id(x.first)) + "."; auto r1 = it->second.rel.find(y->second); auto r2 = t.rel.find(x.second); if (r1 != it->second.rel.end()) { Rel r = r1->second; j.rel.insert({nk, r}); } else if (r2 != t.rel.end()) { Rel r = r2->second; j.rel.insert({nk, r}); } y->second = nk; } }
        for (auto x = j.done.begin(); x != j.done.end();) if (!t.done.count(*x)) x = j.done.erase(x); else ++x;
        if (!(j == it->second)) { it->second = j; w.insert({rpo[N], N}); } });
    }
    exits.clear(); out.writes.clear(); out.derefs.clear(); out.ret = "?";
    for (auto &B : F) { auto it = in.find(&B); if (it == in.end() || !it->second.live) continue; xfer(&B, it->second, wasFinal, [](const BasicBlock *, S) {}); }
    final = wasFinal; bool f1 = true; for (auto &x : exits) { for (auto &r : x.second.first) out.rel.insert(r); if (f1) out.assigned = x.second.second; else for (auto y = out.assigned.begin(); y != out.assigned.end();) if (!x.second.second.count(*y)) y = out.assigned.erase(y); else ++y; f1 = false; }
    out.dtor = sum.dtor; sums[&F] = out; if (getenv("RELSUM") && has(funcKey(&F), getenv("RELSUM"))) { errs() << funcKey(&F) << " ret " << out.ret << "\n"; for (auto &r : out.rel) errs() << "  rel " << r.first << "\n"; for (auto &r : out.writes) errs() << "  wr " << r << "\n"; }
    if (final) C.R.counts["functions_followed"]++;
  }
  void run() {
    for (int pass = 0; pass < 4; pass++) { final = pass == 3; for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration()) analyse(F); }
    // what a function leaves behind released in an object or variable of its caller
    std::map<const Function *, std::vector<std::pair<const CallBase *, const Function *>>> callers; for (auto &F : *C.M) if (isRepoFunc(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB)) callers[H].push_back({CB, &F});
    for (auto &p : sums) { auto *F = p.first; if (p.second.dtor || p.second.rel.empty() || isOutlined(F)) continue; bool onlyD = !callers[F].empty(); for (auto &c : callers[F]) if (!has(demangled(c.second), "::~")) onlyD = false; if (onlyD) continue;
      for (auto &r : p.second.rel) { if (r.first[0] == '=') continue; if (callers[F].size()) {} if (auto *CB = dyn_cast<CallBase>(r.second)) if (heapKind(calleeOf(CB)) >= 0) { bool place = false; auto q = sums.find(calleeOf(CB)); if (q != sums.end()) for (auto &y : q->second.rel) if (y.first[0] != '=') place = true; if (place) continue; } // told where it happens
        std::string f; for (size_t k = 0; k < r.first.size(); k++) { if (r.first[k] == '~') { k++; while (k < r.first.size() && r.first[k] != '~') k++; continue; } f += r.first[k]; } size_t i = f.rfind('#'); std::string n = i == std::string::npos ? f : f.substr(i + 1);
        Finding x = mk("left-dangling", r.second, funcKey(F) + "|" + n + "|left", "'" + n + "' is released and keeps pointing there when " + shortName(F) + " returns"); if (seen.insert(x.key).second) C.R.add(x); } }
  }
};
} // namespace
void runRelease(Ctx &C) { Forms f(C); f.run(); Release r(C); r.run(); C.R.counts.erase("_"); }
} // namespace vcsa
