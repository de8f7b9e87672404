// Every option of the input file reaches what it controls, and only that.
#include "labels.h"
#include <regex>
#include "facts.h"
namespace vcsa {
static bool truthy(const std::string &k) { return k.rfind("GENERATE_", 0) == 0 || k.rfind("IMPOSE_", 0) == 0; }
struct Reach { // the blocks that can run for a given setting of the flags of the option file
  Labels &L; std::map<std::string, bool> set; std::set<const BasicBlock *> on; std::set<const Function *> fs; std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges; const Reach *before = nullptr;
  int truth(const Value *V, int d = 0) { // 1, 0, or -1 when the flags do not decide it
    if (d > 12) return -1; if (auto *K = dyn_cast<ConstantInt>(V)) return K->isZero() ? 0 : 1; if (isa<CallBase>(V)) { bool neg = false; auto k = Labels::keyTest(V, neg); auto it = set.find(k); if (it != set.end() && !it->second) return neg ? 1 : 0; }
    if (auto *P = dyn_cast<PHINode>(V)) { if (!(V->getType()->isIntegerTy(1) || V->getType()->isIntegerTy(8))) return -1; if (!open.insert(V).second) return -2; int r = -2; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { if (before && !before->edges.count({P->getIncomingBlock(k), P->getParent()})) continue; auto b = L.blockKey.find(P->getIncomingBlock(k)); if (b != L.blockKey.end()) { auto it = set.find(b->second); if (it != set.end() && !it->second) continue; } int t = truth(P->getIncomingValue(k), d + 1); if (t == -2) continue; if (r == -2) r = t; else if (r != t) r = 9; } open.erase(V);
      if (r == 9 || r == -2 || r == -1) return byLabel(V); return r; }
    if (auto *X = dyn_cast<CastInst>(V)) return truth(X->getOperand(0), d + 1);
    if (auto *S = dyn_cast<SelectInst>(V)) { int c = truth(S->getCondition(), d + 1); if (c == 1) return truth(S->getTrueValue(), d + 1); if (c == 0) return truth(S->getFalseValue(), d + 1); int a = truth(S->getTrueValue(), d + 1), b = truth(S->getFalseValue(), d + 1); return a == b ? a : -1; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { int a = truth(B->getOperand(0), d + 1), b = truth(B->getOperand(1), d + 1); if (B->getOpcode() == Instruction::Xor && a >= 0 && b >= 0) return a ^ b; if (B->getOpcode() == Instruction::And) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; } if (B->getOpcode() == Instruction::Or) { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; } return -1; }
    if (auto *X = dyn_cast<ICmpInst>(V); X && X->isEquality()) { int a = truth(X->getOperand(0), d + 1), b = truth(X->getOperand(1), d + 1); if (a < 0 || b < 0) return -1; return (a == b) == (X->getPredicate() == CmpInst::ICMP_EQ); }
    return byLabel(V);
  }
  std::set<const Value *> open;
  int byLabel(const Value *V) { if (!(V->getType()->isIntegerTy(1) || V->getType()->isIntegerTy(8)) || isa<ICmpInst>(V) || isa<FCmpInst>(V)) return -1; auto l = L.lab(V); if (l.exact.size() != 1 || l.derived.size()) return -1; auto it = set.find(*l.exact.begin()); return it == set.end() ? -1 : it->second; }
  void block(const BasicBlock *B) { if (!on.insert(B).second) return; std::vector<const BasicBlock *> w{B};
    while (!w.empty()) { auto *X = w.back(); w.pop_back();
      for (auto &I : *X) if (auto *CB = dyn_cast<CallBase>(&I)) { unsigned f = 0; if (auto *O = Labels::forked(CB, f)) enter(O); else if (auto *H = calleeOf(CB); H && (isRepoFunc(H) || isOutlined(H))) enter(H); }
      int t = -1; auto *Br = dyn_cast<BranchInst>(X->getTerminator()); if (Br && Br->isConditional()) t = truth(Br->getCondition());
      for (unsigned k = 0; k < X->getTerminator()->getNumSuccessors(); k++) { if (t == 1 && k == 1) continue; if (t == 0 && k == 0) continue; auto *S = X->getTerminator()->getSuccessor(k); edges.insert({X, S}); if (on.insert(S).second) w.push_back(S); } } }
  void enter(const Function *F) { if (F->isDeclaration() || !fs.insert(F).second) return; block(&F->getEntryBlock()); }
};
static int streams(const Function *F, std::map<const Function *, int> &memo) { // 1 reads a file, 2 writes one
  auto it = memo.find(F); if (it != memo.end()) return it->second; memo[F] = 0; int r = 0;
  for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H) continue; auto n = demangled(H); if (n.find("basic_ifstream") != std::string::npos) r |= 1; if (n.find("basic_ofstream") != std::string::npos || n.find("ex_create") != std::string::npos) r |= 2; if (n.find("basic_fstream") != std::string::npos) for (auto &a : CB->args()) if (auto *K = dyn_cast<ConstantInt>(a)) { if (K->getZExtValue() & 16) r |= 2; else if (K->getZExtValue() & 8) r |= 1; } if (isRepoFunc(H) && !H->isDeclaration()) r |= streams(H, memo); }
  return memo[F] = r;
}
// Can the function come to a successful end without passing one of the places? Paths on which a call failed are left out.
struct Miss {
  const Reach &R; const std::set<const Instruction *> &at; std::map<const Function *, int> memo; std::map<const Function *, std::vector<const Instruction *>> hows; std::map<const Function *, int> hasMemo;
  bool has(const Function *F) { auto it = hasMemo.find(F); if (it != hasMemo.end()) return it->second; hasMemo[F] = 0; for (auto &I : instructions(*F)) { if (at.count(&I)) return hasMemo[F] = 1; if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB); H && isRepoFunc(H) && !H->isDeclaration() && has(H)) return hasMemo[F] = 1; } return false; }
  std::vector<const Instruction *> how(const Function *F) { for (bool go = true; go;) { go = false; for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = calleeOf(CB); H && H != F && isRepoFunc(H) && !H->isDeclaration() && R.on.count(I.getParent()) && has(H) && memo.count(H) && memo[H]) { F = H; go = true; break; } } return hows[F]; }
  static bool status(const Value *V, int d = 0) { if (auto *P = dyn_cast<PHINode>(V)) { if (d > 4) return false; bool any = false; for (auto &x : P->incoming_values()) { if (x == P || isa<ConstantInt>(x)) continue; if (!status(x, d + 1)) return false; any = true; } return any; } if (auto *C = dyn_cast<CastInst>(V)) return status(C->getOperand(0), d + 1); auto *CB = dyn_cast<CallBase>(V); return CB && V->getType()->isIntegerTy(32) && calleeOf(CB) && isRepoFunc(calleeOf(CB)); }
  static bool failed(const BasicBlock *B, const BasicBlock *S) { auto *Br = dyn_cast<BranchInst>(B->getTerminator()); if (!Br || !Br->isConditional()) return false; auto *X = dyn_cast<ICmpInst>(Br->getCondition()); if (!X || !X->isEquality()) return false; auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); if (!K || !K->isZero() || !status(X->getOperand(0))) return false; return (S == Br->getSuccessor(0)) == (X->getPredicate() == CmpInst::ICMP_NE); }
  bool avoid(const Function *F) {
    auto it = memo.find(F); if (it != memo.end()) return it->second; memo[F] = 1;
    std::map<const BasicBlock *, const BasicBlock *> from; std::vector<const BasicBlock *> w{&F->getEntryBlock()}; from[w[0]] = nullptr; const BasicBlock *end = nullptr;
    while (!w.empty() && !end) { auto *X = w.back(); w.pop_back(); bool stop = false;
      for (auto &I : *X) { if (at.count(&I)) stop = true; else if (auto *CB = dyn_cast<CallBase>(&I)) { unsigned f = 0; const Function *H = Labels::forked(CB, f); if (!H) H = calleeOf(CB); if (H && (isRepoFunc(H) || isOutlined(H)) && !H->isDeclaration() && R.fs.count(H) && !avoid(H)) stop = true; } if (stop) break; }
      if (stop) continue;
      if (auto *Rt = dyn_cast<ReturnInst>(X->getTerminator())) { auto *V = Rt->getReturnValue(); auto *K = V ? dyn_cast<ConstantInt>(V) : nullptr; if (K && !K->isZero() && F->getReturnType()->isIntegerTy(32)) continue; end = X; break; }
      for (auto *S : successors(X)) { if (!R.edges.count({X, S}) || failed(X, S)) continue; if (isa<InvokeInst>(X->getTerminator()) && S->isLandingPad()) continue;
        if (auto *Rt = dyn_cast<ReturnInst>(S->getTerminator())) if (auto *P = dyn_cast_or_null<PHINode>(Rt->getReturnValue()); P && P->getParent() == S && F->getReturnType()->isIntegerTy(32)) { if (auto *K = dyn_cast<ConstantInt>(P->getIncomingValueForBlock(X)); K && !K->isZero()) continue; }
        if (from.emplace(S, X).second) w.push_back(S); } }
    memo[F] = end != nullptr;
    if (end) for (auto *X = end; X; X = from[X]) if (auto *Br = dyn_cast<BranchInst>(X->getTerminator()); Br && Br->isConditional()) hows[F].push_back(Br);
    return end != nullptr;
  }
};
// the conditions that decide that a PHI takes its i-th value, and which way they go
static std::vector<std::pair<const Value *, bool>> decisions(const PHINode *P, unsigned i) {
  std::vector<std::pair<const Value *, bool>> r; std::set<std::pair<const BasicBlock *, const BasicBlock *>> seen; std::vector<std::pair<const BasicBlock *, const BasicBlock *>> w{{P->getIncomingBlock(i), P->getParent()}};
  while (!w.empty()) { auto [B, S] = w.back(); w.pop_back(); if (!seen.insert({B, S}).second || seen.size() > 12) continue; auto *Br = dyn_cast<BranchInst>(B->getTerminator()); if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) { r.push_back({Br->getCondition(), S == Br->getSuccessor(0)}); continue; } for (auto *Q : predecessors(B)) w.push_back({Q, B}); }
  return r;
}
static const std::pair<std::pair<const char *, unsigned>, const char *> confirmedList[] = {
#include "options_confirmed.inc"
};
void runOptions(Ctx &C) {
  std::map<std::pair<std::string, unsigned>, std::string> confirmed; for (auto &p : confirmedList) confirmed[{p.first.first, p.first.second}] = p.second;
  Labels L(*C.M); for (auto &k : L.keys) C.R.sets["options"].insert(k);
  auto debug = [&]() { for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) for (auto &A : F.args()) { auto l = L.lab(&A); auto d = L.object(&A); if (!(l.all().size() || (A.getType()->isPointerTy() && d.all().size()))) continue; fprintf(stderr, "%s %s:", shortName(&F).c_str(), varName(&A, &F).c_str()); for (auto &k : l.exact) fprintf(stderr, " %s", k.c_str()); for (auto &k : l.derived) fprintf(stderr, " ~%s", k.c_str()); if (A.getType()->isPointerTy()) for (auto &k : d.all()) fprintf(stderr, " *%s", k.c_str()); fprintf(stderr, "%s\n", l.other ? " +other" : ""); }
    for (auto &p : L.tab) if (p.first[0] == 'f' && p.second.all().size()) { fprintf(stderr, "%s:", p.first.c_str()); for (auto &k : p.second.exact) fprintf(stderr, " %s", k.c_str()); for (auto &k : p.second.derived) fprintf(stderr, " ~%s", k.c_str()); fprintf(stderr, "%s\n", p.second.other ? " +other" : ""); } };
  if (getenv("LABDBG")) debug();
  if (L.keys.empty()) { C.R.broken.push_back("no comparison of a token with the name of an option was found"); return; }
  auto str = [](const std::set<std::string> &s) { std::string r; for (auto &k : s) r += (r.empty() ? "" : " and ") + k; return r; };
  auto norm = [](std::set<std::string> s) { if (s.count("SEEDS_FILE") && s.count("INPUT_MESH_FILE")) s.erase("SEEDS_FILE"); return s; };
  long nplaces = 0, nuses = 0; std::map<std::string, long> uses; std::map<const Function *, int> sm;
  const Function *parser = nullptr; for (auto &b : L.blockKey) parser = b.first->getParent();
  // ---- which keys are recognised, how their values are read
  static const std::set<std::string> documented = {"GENERATE_VCG_FILE", "GENERATE_EXODUS_FILE", "GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS", "GENERATE_MESH_FROM_SEEDS", "INPUT_MESH_FILE", "SIZING_FILE", "SEEDS_FILE", "R_MIN", "R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS"};
  if (!C.selftest) for (auto &k : documented) if (!L.keys.count(k)) C.R.add(mk("option-unknown", &*parser->getEntryBlock().getFirstNonPHIOrDbg(), k, "the option '" + k + "' is not recognised: no token is compared with it, or nothing is set when it is found"));
  std::map<std::string, std::set<std::pair<long, const Instruction *>>> index; // token index used per key
  for (auto &b : L.blockKey) for (auto &I : *b.first) if (auto *CB = dyn_cast<CallBase>(&I); CB && isVectorIndex(CB) && calleeOf(CB) && demangled(calleeOf(CB)).find("basic_string") != std::string::npos) if (auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(1))) index[b.second].insert({K->getSExtValue(), &I});
  std::map<long, int> votes; for (auto &p : index) for (auto &x : p.second) votes[x.first]++;
  long best = -1; for (auto &v : votes) if (best < 0 || v.second > votes[best]) best = v.first;
  for (auto &p : index) for (auto &x : p.second) { nuses++; if (x.first != best) C.R.add(mk("option-token", x.second, p.first, "the value of option '" + p.first + "' is read from token " + std::to_string(x.first) + " of the line, those of the other options from token " + std::to_string(best))); }
  // ---- flags: false unless the key is there
  std::set<const PHINode *> flagPhi;
  for (auto &b : L.blockKey) for (auto *S : successors(b.first)) for (auto &P : S->phis()) if (P.getType()->isIntegerTy(8) || P.getType()->isIntegerTy(1)) { std::vector<const PHINode *> w{&P}; while (!w.empty()) { auto *Q = w.back(); w.pop_back(); if (!flagPhi.insert(Q).second) continue; for (auto *U : Q->users()) if (auto *N = dyn_cast<PHINode>(U)) w.push_back(N); for (auto &x : Q->incoming_values()) if (auto *N = dyn_cast<PHINode>(x)) w.push_back(N); } }
  for (auto *P : flagPhi) { auto l = L.lab(P); if (l.exact.size() > 1) { C.R.add(mk("option-mixed", P, varName(P) + "|" + str(l.exact), "'" + varName(P) + "' is set by more than one option: " + str(l.exact))); continue; }
    for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (auto *K = dyn_cast<ConstantInt>(P->getIncomingValue(k))) { auto b = L.blockKey.find(P->getIncomingBlock(k)); bool want = false; if (b != L.blockKey.end()) { std::set<std::string> bs; Labels::ins(bs, b->second); for (auto &x : bs) want |= l.exact.count(x) > 0; } if (b == L.blockKey.end()) { if (l.exact.empty()) continue; }
      nuses++; if (K->isZero() == want) C.R.add(mk("option-flag", P, varName(P) + (want ? "|set" : "|default"), "'" + varName(P) + "' is " + (want ? "cleared when option '" + str(l.exact) + "' is given" : "true although option '" + str(l.exact) + "' is not given"))); } }
  // ---- no parameter, member or variable receives two different options, or an option at one place and a constant at another
  for (auto &g : L.gives) {
    auto it = L.tab.find(g.first); if (it == L.tab.end()) continue; auto ex = norm(it->second.exact); if (ex.empty()) continue;
    const Value *V = nullptr; for (auto &n : L.nameOf) if (n.second.size() && g.first.substr(1) == n.second) V = n.first;
    const Function *G = V && isa<Argument>(V) ? cast<Argument>(V)->getParent() : V && isa<AllocaInst>(V) ? cast<AllocaInst>(V)->getFunction() : nullptr;
    if (G && demangled(G).find("operator<<") != std::string::npos) continue; if (G && !isRepoFunc(G) && !isOutlined(G)) continue; if (g.first[0] == '@' && (!V || !cast<AllocaInst>(V)->getAllocatedType()->isSingleValueType())) { continue; }
    if (g.first[0] == '+') continue; nplaces++;
    if (V && isa<Argument>(V) && V->getType()->isPointerTy() && g.first[0] == '=') continue;
    auto nm = G ? "'" + varName(V, G) + "' of " + funcKey(G) : "'" + g.first.substr(2) + "'"; bool text = g.first[0] == '*' && V && V->getType()->isPointerTy();
    if (ex.count("cos VC_ANGLE") && g.first[0] == '@') ex.erase("VC_ANGLE");
    if (ex.size() > 1) { std::map<std::string, const Instruction *> at; for (auto &x : g.second) for (auto &k : x.second.exact) if (ex.count(k) && !at.count(k)) at[k] = x.first; std::map<std::string, int> nk; for (auto &x : g.second) for (auto &k : x.second.exact) nk[k]++; std::string rare; for (auto &k : ex) if (rare.empty() || nk[k] < nk[rare]) rare = k; auto *I = at.count(rare) ? at[rare] : g.second[0].first;
      if (text && isOutlined(G)) continue;
      auto f = mk("option-mixed", I, nm + "|" + str(ex), nm + " receives the values of different options: " + str(ex)); for (auto &a : at) f.notes.push_back(a.first + " given at " + where(a.second)); C.R.add(f); continue; }
    auto k = *ex.begin(); if (text || truthy(k) || k == "R_MIN" || k == "SIZING_FILE" || k.find("_FILE") != std::string::npos) continue;
    for (auto &x : g.second) if (x.second.exact.empty() && g.first[0] == '=') { // the option is given elsewhere
      auto *CB = dyn_cast<CallBase>(x.first); const Value *gv = nullptr; unsigned f = 0; if (CB && !Labels::forked(CB, f)) gv = CB->getArgOperand(cast<Argument>(V)->getArgNo());
      if (x.second.derived.count(k) || (gv && isa<Constant>(gv))) C.R.add(mk("option-ignored", x.first, nm + "|" + k + "|" + funcKey(x.first->getFunction()), nm + ", which receives " + k + " elsewhere, is given " + (x.second.derived.count(k) ? "a value computed from it" : "a constant") + " here")); }
    if (V && isa<Argument>(V) && g.first[0] == '=') { bool used = false; for (auto *U : V->users()) if (auto *I = dyn_cast<Instruction>(U); I && !isa<DbgInfoIntrinsic>(I)) { if (auto *S = dyn_cast<StoreInst>(I); S && isa<AllocaInst>(S->getPointerOperand())) { for (auto *W : S->getPointerOperand()->users()) used |= W != S; } else used = true; } C.R.sets["parameters_with_option_values"].insert(funcKey(G) + "(" + varName(V, G) + ")"); if (!used) C.R.counts["unused_parameters_with_option_values"]++; }
  }
  const Function *root = nullptr; for (auto &F : *C.M) if (F.getName() == "main") root = &F; if (!root || C.selftest) root = parser;
  std::set<const Function *> inApp; { Reach R{L}; R.enter(root); inApp = R.fs; }
  // ---- places that hold the value of an option in the confirmed tree still do
  { std::string k; for (auto &F : *C.M) if (isRepoFunc(&F) && !F.isDeclaration() && inApp.count(&F)) for (auto &A : F.args()) { auto l = norm(L.lab(&A).exact); if (A.getType()->isPointerTy()) l = norm(L.lab(&A).exact); auto it = confirmed.find({F.getName().str(), A.getArgNo()}); if (getenv("LABBASE") && l.size() == 1 && A.hasName() == A.hasName() && !(A.getArgNo() == 0 && varName(&A, &F) == "this") && demangled(&F).find("operator<<") == std::string::npos) printf("%s %u %s\n", F.getName().str().c_str(), A.getArgNo(), std::regex_replace(*l.begin(), std::regex(" "), ":").c_str());
      if (it == confirmed.end()) continue; C.R.counts["parameters_compared_with_confirmed"]++; if (!l.count(it->second)) { const Instruction *at = &*F.getEntryBlock().getFirstNonPHIOrDbg(); for (auto &g : L.gives[L.argKey(&A)]) at = g.first; C.R.add(mk("option-ignored", at, funcKey(&F) + "(" + varName(&A, &F) + ")|" + it->second, "'" + varName(&A, &F) + "' of " + funcKey(&F) + " no longer receives the value of " + it->second)); } } }
  // ---- what each value is used for
  auto one = [&](const Value *V) -> std::string { if (isa<Constant>(V)) return ""; auto l = L.lab(V); auto e = norm(l.exact); if (e.size() != 1 || !l.derived.empty()) return ""; return *e.begin(); };
  for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration() && demangled(&F).find("operator<<") == std::string::npos) for (auto &I : instructions(F)) {
    if (auto *II = dyn_cast<IntrinsicInst>(&I); II && II->getIntrinsicID() == Intrinsic::fmuladd) for (int s = 0; s < 2; s++) { auto k = one(II->getArgOperand(s)); if (k.empty() || isa<Constant>(II->getArgOperand(1 - s))) continue; nuses++; if (k == "LIP_CONST") uses[k]++; else C.R.add(mk("option-role", &I, funcKey(&F) + "|slope|" + k, k + " is multiplied by a distance and added to a size, which only LIP_CONST is for")); }
    if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H) continue; auto n = H->getName();
      if (n == "omp_set_num_threads" || n.starts_with("__kmpc_push_num_threads")) { auto *V = CB->getArgOperand(CB->arg_size() - 1); nuses++; auto k = one(V); auto l = L.lab(V); if (k == "NUM_THREADS") uses[k]++; else if (isa<Constant>(V) || !k.empty() || inApp.count(&F)) C.R.add(mk("option-role", &I, funcKey(&F) + "|threads", "the number of threads is set to " + (k.empty() ? describe(V) : k) + ", not to NUM_THREADS")); }
      else if (n == "cos") { auto l = L.lab(CB->getArgOperand(0)); auto a = l.all(); if (a.empty()) continue; nuses++; bool ok = a.size() == 1 && a.count("VC_ANGLE"); // x * pi / 180
        double f = 1; const Value *X = CB->getArgOperand(0); for (int d = 0; d < 6; d++) { auto *B = dyn_cast<BinaryOperator>(X); if (!B) break; auto *K1 = dyn_cast<ConstantFP>(B->getOperand(1)), *K0 = dyn_cast<ConstantFP>(B->getOperand(0)); if (B->getOpcode() == Instruction::FMul && (K0 || K1)) { f *= (K1 ? K1 : K0)->getValueAPF().convertToDouble(); X = B->getOperand(K1 ? 0 : 1); } else if (B->getOpcode() == Instruction::FDiv && K1) { f /= K1->getValueAPF().convertToDouble(); X = B->getOperand(0); } else break; }
        if (!ok) C.R.add(mk("option-role", &I, funcKey(&F) + "|cos", "the cosine of " + str(a) + " is taken, an angle is only VC_ANGLE")); else if (one(X) == "VC_ANGLE" && std::abs(f - 3.14159265358979 / 180.0) > 1e-6) C.R.add(mk("option-role", &I, funcKey(&F) + "|degrees", "VC_ANGLE, in degrees, is scaled by " + std::to_string(f) + " before its cosine is taken")); else uses["VC_ANGLE"]++; }
      else if (n == "fmin" || n.starts_with("llvm.minnum")) { for (auto &a : CB->args()) { auto k = one(a); if (k.empty()) continue; nuses++; if (k == "R_MAX") uses[k]++; else C.R.add(mk("option-role", &I, funcKey(&F) + "|limit|" + k, k + " is used as an upper limit, which only R_MAX is")); } }
      else if (demangled(H).find("basic_ifstream") != std::string::npos) { for (unsigned k = 1; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) for (auto &x : L.object(CB->getArgOperand(k)).exact) uses[x]++, nuses++; }
      continue; }
    if (auto *X = dyn_cast<FCmpInst>(&I)) { for (int s = 0; s < 2; s++) { auto k = one(X->getOperand(s)); if (k.empty() || isa<Constant>(X->getOperand(1 - s))) continue; nuses++;
        if (k == "LIP_CONST" || k == "VC_ANGLE" || k == "NUM_THREADS") C.R.add(mk("option-role", &I, funcKey(&F) + "|compared|" + k, k + " is compared with " + describe(X->getOperand(1 - s)) + ": it is neither a distance nor a cosine")); else if (k != "R_MAX") uses[k]++;
        // if (x > k) x = k
        auto P = s ? X->getPredicate() : X->getSwappedPredicate(); bool gt = P == CmpInst::FCMP_OGT || P == CmpInst::FCMP_OGE || P == CmpInst::FCMP_UGT || P == CmpInst::FCMP_UGE; bool lt = P == CmpInst::FCMP_OLT || P == CmpInst::FCMP_OLE || P == CmpInst::FCMP_ULE || P == CmpInst::FCMP_ULT; const Value *lim = X->getOperand(s);
        for (auto *U : X->users()) { bool cap = false, floor = false; if (auto *S = dyn_cast<SelectInst>(U)) { cap = gt ? S->getTrueValue() == lim : lt && S->getFalseValue() == lim; floor = lt ? S->getTrueValue() == lim : gt && S->getFalseValue() == lim; }
          if (auto *B = dyn_cast<BranchInst>(U)) for (int t = 0; t < 2; t++) { auto *T = B->getSuccessor(t); if (!T->getSinglePredecessor()) continue; bool hit = false; for (auto &J : *T) if (auto *S = dyn_cast<StoreInst>(&J); S && S->getValueOperand() == lim && !isa<AllocaInst>(S->getPointerOperand())) hit = true; for (auto *N : successors(T)) for (auto &P : N->phis()) { int i = P.getBasicBlockIndex(T); if (i >= 0 && P.getIncomingValue(i) == lim) hit = true; } if (!hit) continue; if (t == 0 ? gt : lt) cap = true; else floor = true; }
          if (cap) { nuses++; if (k == "R_MAX") uses[k]++; else C.R.add(mk("option-role", &I, funcKey(&F) + "|limit|" + k, k + " is used as an upper limit, which only R_MAX is")); }
          if (floor && k == "R_MAX") C.R.add(mk("option-role", &I, funcKey(&F) + "|floor|" + k, "R_MAX is used as a lower limit: sizes end up at least, not at most R_MAX")); } }
      continue; }
    if (auto *B = dyn_cast<BinaryOperator>(&I)) { // 1 - Lip, r + Lip * d
      if (B->getOpcode() == Instruction::FAdd || B->getOpcode() == Instruction::FSub) for (int s = 0; s < 2; s++) { auto *K = dyn_cast<ConstantFP>(B->getOperand(1 - s)); auto k = one(B->getOperand(s)); if (k.empty() || !K || !K->isExactlyValue(1.0)) continue; nuses++; if (k == "LIP_CONST") uses[k]++; else C.R.add(mk("option-role", &I, funcKey(&F) + "|slope|" + k, k + " is added to or subtracted from 1, which only LIP_CONST can be")); }
      if (B->getOpcode() == Instruction::FMul) for (int s = 0; s < 2; s++) { auto k = one(B->getOperand(s)); if (k.empty() || isa<Constant>(B->getOperand(1 - s))) continue; bool added = false; for (auto *U : B->users()) if (auto *A = dyn_cast<BinaryOperator>(U)) added |= A->getOpcode() == Instruction::FAdd; if (!added) { if (auto *II = (const Instruction *)nullptr) (void)II; continue; } nuses++; if (k == "LIP_CONST") uses[k]++; else C.R.add(mk("option-role", &I, funcKey(&F) + "|slope|" + k, k + " is multiplied by a distance and added to a size, which only LIP_CONST is for")); } }
    if (auto *P = dyn_cast<PHINode>(&I); P && P->getType()->isDoubleTy() && &F != parser) { std::string k; const Value *o = nullptr; bool self = false; for (auto &x : P->incoming_values()) { if (x == P) continue; auto e = one(x); if (e == "LIP_CONST" || e.find("VC_ANGLE") != std::string::npos) k = e; else o = x; } if (k.size() && o && L.lab(o).exact.empty()) C.R.add(mk("option-ignored", &I, funcKey(&F) + "|" + k + "|replaced", "the value of " + k + " is replaced by " + describe(o) + " on some paths")); }
  }
  // ---- flags decide exactly the output or input they are named after
  auto run = [&](const std::string &flag, bool v, bool others) { auto *R = new Reach{L}; for (auto &k : L.keys) if (truthy(k)) R->set[k] = others; R->set["GENERATE_MESH_FROM_SEEDS"] = flag == "GENERATE_MESH_FROM_SEEDS" && v; if (!flag.empty()) R->set[flag] = v; R->enter(root); auto *Q = new Reach{L}; Q->set = R->set; Q->before = R; Q->enter(root); return std::unique_ptr<Reach>(Q); };
  auto named = [&](Reach &R, const std::string &name, int mode) { const Instruction *r = nullptr; for (auto *B : R.on) if (isRepoFunc(B->getParent()) || isOutlined(B->getParent())) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(CB); if (!H || isa<IntrinsicInst>(CB) || demangled(H).find("operator<<") != std::string::npos) continue; bool has = false; for (auto &a : CB->args()) has |= a->getType()->isPointerTy() && Labels::cstr(a) == name; if (!has) continue;
      int m = isRepoFunc(H) && !H->isDeclaration() ? streams(H, sm) : 0; // what is done with the name: by the function called, or by those that get the string made from it
      if (!m && !isRepoFunc(H) && isa<AllocaInst>(CB->getArgOperand(0)->stripPointerCasts())) for (auto *U : CB->getArgOperand(0)->stripPointerCasts()->users()) if (auto *D = dyn_cast<CallBase>(U); D && R.on.count(D->getParent())) { auto *G = calleeOf(D); if (G && isRepoFunc(G) && !G->isDeclaration()) m |= streams(G, sm); else if (G && demangled(G).find("basic_ifstream") != std::string::npos) m |= 1; else if (G && demangled(G).find("basic_ofstream") != std::string::npos) m |= 2; }
      if (demangled(H).find("basic_ifstream") != std::string::npos) m |= 1; if (demangled(H).find("basic_ofstream") != std::string::npos) m |= 2;
      if (!m || (m & mode)) r = &I; }
    return r; };
  struct W { const char *flag, *file; int mode; const char *what; }; static const W ws[] = {{"GENERATE_VCG_FILE", "mesh.vcg", 2, "mesh.vcg is written"}, {"GENERATE_EXODUS_FILE", "mesh.exo", 2, "mesh.exo is written"}, {"GENERATE_MONITORING_POINTS", "monitoring_points.csv", 2, "monitoring_points.csv is written"}, {"IMPOSE_MONITORING_POINTS", "monitoring_points.csv", 1, "monitoring_points.csv is read"}, {"IMPOSE_MONITORING_POINTS", "monitoring_points_closest_seeds.csv", 2, "monitoring_points_closest_seeds.csv is written"}};
  for (auto &w : ws) if (L.keys.count(w.flag)) {
    auto on = run(w.flag, true, false), off = run(w.flag, false, true), all = run("", true, true); const Instruction *a = named(*on, w.file, w.mode), *b = named(*off, w.file, w.mode); auto *at = &*parser->getEntryBlock().getFirstNonPHIOrDbg(); nuses += 2; if (a && !b) uses[w.flag]++;
    if (!a && !named(*all, w.file, w.mode) && !b && std::string(w.flag) == "GENERATE_EXODUS_FILE") { C.R.counts["exodus_not_built"] = 1; uses[w.flag]++; continue; }
    if (!a) C.R.add(mk("option-gate", at, std::string(w.flag) + "|on", std::string("when only ") + w.flag + " is given, nothing by which " + w.what + " can be reached"));
    if (b) C.R.add(mk("option-gate", b, std::string(w.flag) + "|off", std::string(w.what) + " although " + w.flag + " is not given"));
    if (a) for (auto *R : {&*on, &*all}) { // with the flag, no way to a successful end leaves it out
      std::set<const Instruction *> at2; auto collect = [&](Reach &Q) { std::set<const BasicBlock *> keep = Q.on; while (auto *x = named(Q, w.file, w.mode)) { at2.insert(x); Q.on.erase(x->getParent()); } Q.on = keep; }; collect(*R); if (R == &*all && (std::string(w.file) == "monitoring_points.csv" || at2.empty())) continue;
      Miss M{*R, at2}; nuses++; if (M.avoid(parser)) { auto how = M.how(parser); const Instruction *dec = a; for (auto *h : how) { dec = h; break; } auto f = mk("option-gate", dec, std::string(w.flag) + "|missed", std::string("with ") + w.flag + ", the run can end successfully although not " + w.what); for (auto *h : how) f.notes.push_back("by way of the branch at " + where(h)); C.R.add(f); } else C.R.counts["outputs_that_cannot_be_missed"]++; } }
  // ---- the value of a line is taken whenever it is there
  { long last = best; if (last < 0) for (auto &I : instructions(*parser)) if (auto *CB = dyn_cast<CallBase>(&I); CB && isVectorIndex(CB) && calleeOf(CB) && demangled(calleeOf(CB)).find("basic_string") != std::string::npos) if (auto *K = dyn_cast<ConstantInt>(CB->getArgOperand(1))) last = std::max(last, (long)K->getSExtValue());
    DominatorTree DT(*const_cast<Function *>(parser)); std::map<std::string, long> need; std::map<std::string, const Instruction *> nat;
    for (auto &b : L.blockKey) if (b.first->getParent() == parser) { long lo = 0; const Instruction *who = nullptr; bool flag = truthy(b.second.substr(0, b.second.find('|')));
      for (auto *N = DT.getNode(const_cast<BasicBlock *>(b.first)); N && N->getIDom(); N = N->getIDom()) { auto *P = N->getBlock()->getSinglePredecessor(); std::vector<const BranchInst *> brs; auto *Br = P ? dyn_cast<BranchInst>(P->getTerminator()) : nullptr; if (!Br || !Br->isConditional()) continue;
        auto *X = dyn_cast<ICmpInst>(Br->getCondition()); if (!X) continue; auto *CB = dyn_cast<CallBase>(X->getOperand(0)); auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); if (!CB || !K || !calleeOf(CB) || demangled(calleeOf(CB)).find("vector<") == std::string::npos || demangled(calleeOf(CB)).find("::size(") == std::string::npos) continue;
        bool t = Br->getSuccessor(0) == N->getBlock(); auto p = t ? X->getPredicate() : X->getInversePredicate(); long c = K->getSExtValue(), l = -1; if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT) l = c + 1; else if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) l = c; else if (p == CmpInst::ICMP_NE && c == 0) l = 1; else if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) l = p == CmpInst::ICMP_EQ ? 1000 + c : 2000 + c; if (l > lo) lo = l, who = Br; }
      nuses++; long most = flag ? 1 : last + 1; if (who && lo > most) C.R.add(mk("option-token", who, b.second + "|guard", "a line with option '" + b.second + "' and " + (lo >= 1000 ? "more or fewer tokens than expected" : std::to_string(most) + (most == 1 ? " token" : " tokens")) + " is ignored")); } }
  // ---- a value is not replaced by a constant once it was read
  { std::set<const BasicBlock *> after; std::vector<const BasicBlock *> w; for (auto &b : L.blockKey) if (b.first->getParent() == parser) w.push_back(b.first); while (!w.empty()) { auto *X = w.back(); w.pop_back(); for (auto *S : successors(X)) if (after.insert(S).second) w.push_back(S); }
    for (auto &F : *C.M) if ((isRepoFunc(&F) || isOutlined(&F)) && !F.isDeclaration()) for (auto &I : instructions(F)) if (auto *P = dyn_cast<PHINode>(&I); P && (P->getType()->isDoubleTy() || P->getType()->isIntegerTy(32) || P->getType()->isIntegerTy(64))) {
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { auto *K = dyn_cast<Constant>(P->getIncomingValue(k)); if (!K || (&F == parser && !after.count(P->getIncomingBlock(k)))) continue; if (L.blockKey.count(P->getIncomingBlock(k))) continue;
        std::string key; const Value *v = nullptr, *tree = nullptr; for (auto &x : P->incoming_values()) { if (isa<Constant>(x)) continue; auto e = one(x); if (!e.empty() && !truthy(e)) key = e, v = x; else if (auto *CB = dyn_cast<CallBase>(x); CB && calleeOf(CB) && isRepoFunc(calleeOf(CB)) && CB->arg_size() == 1 && P->getType()->isIntegerTy()) { auto e2 = one(CB->getArgOperand(0)); if (e2 == "SIZING_FILE") key = e2, tree = CB->getArgOperand(0), v = x; } }
        if (key.empty() || key == "R_MIN" || (tree && !K->isNullValue())) continue; if (!tree && (key.find("_FILE") != std::string::npos)) continue; nuses++; bool ok = true;
        auto ds = decisions(P, k); for (auto &dc : ds) { auto *X = dyn_cast<ICmpInst>(dc.first); if (!X) { ok = false; break; } auto p = dc.second ? X->getPredicate() : X->getInversePredicate();
          if (tree) { ok &= isa<ConstantPointerNull>(X->getOperand(1)) && p == CmpInst::ICMP_EQ; continue; }
          auto *KB = dyn_cast<ConstantInt>(X->getOperand(1)); auto *KV = dyn_cast<ConstantInt>(K); ok &= KB && KV && one(X->getOperand(0)) == key && key == "NUM_THREADS" && ((p == CmpInst::ICMP_SLT && KB->getSExtValue() <= KV->getSExtValue()) || (p == CmpInst::ICMP_SLE && KB->getSExtValue() < KV->getSExtValue()) || (p == CmpInst::ICMP_EQ && KB->getSExtValue() < KV->getSExtValue())) && KV->getSExtValue() == 1; }
        const Instruction *pat = P; for (auto &dc : ds) if (auto *X = dyn_cast<Instruction>(dc.first)) pat = X; if (!ok) C.R.add(mk("option-ignored", pat, funcKey(&F) + "|" + key + "|constant", tree ? "the sizing function read from SIZING_FILE is ignored on some paths" : "the value of " + key + " is replaced by " + describe(K) + " on some paths")); } } }
  if (L.keys.count("IMPOSE_MONITORING_POINTS") && L.keys.count("GENERATE_MONITORING_POINTS")) { auto all = run("", true, true); nuses++; if (auto *b = named(*all, "monitoring_points.csv", 2)) C.R.add(mk("option-gate", b, "MONITORING_POINTS|both", "monitoring_points.csv, the input of IMPOSE_MONITORING_POINTS, is overwritten when both it and GENERATE_MONITORING_POINTS are given")); }
  if (L.keys.count("GENERATE_MESH_FROM_SEEDS")) {
    auto rd = [&](Reach &R) { std::map<std::string, const Instruction *> r; for (auto *B : R.on) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *H = calleeOf(CB); if (!H || !H->getName().contains("basic_ifstream")) continue; bool files = false; for (auto &a : CB->args()) if (a->getType()->isPointerTy()) for (auto &k : L.object(a).exact) files |= k == "INPUT_MESH_FILE" || k == "SEEDS_FILE"; if (files) r[funcKey(I.getFunction())] = &I; } return r; };
    auto on = run("GENERATE_MESH_FROM_SEEDS", true, true), off = run("GENERATE_MESH_FROM_SEEDS", false, true); auto a = rd(*on), b = rd(*off); nuses += 2; bool good = a.size() && b.size();
    for (auto &p : a) if (b.count(p.first)) { good = false; C.R.add(mk("option-gate", p.second, "GENERATE_MESH_FROM_SEEDS|both", "the input file is read by " + p.first + " both with and without GENERATE_MESH_FROM_SEEDS")); }
    if (a.empty() || b.empty()) C.R.add(mk("option-gate", &*parser->getEntryBlock().getFirstNonPHIOrDbg(), "GENERATE_MESH_FROM_SEEDS|none", std::string("the input file is not read when GENERATE_MESH_FROM_SEEDS is ") + (a.empty() ? "given" : "not given"))); if (good) uses["GENERATE_MESH_FROM_SEEDS"]++; }
  for (auto &k : L.keys) { auto u = k; if (k == "VC_ANGLE" && !uses["cos VC_ANGLE"]) uses[k] = 0; if (!uses[u]) C.R.add(mk("option-unused", &*parser->getEntryBlock().getFirstNonPHIOrDbg(), k, "the value of option '" + k + "' reaches nothing that it controls")); C.R.counts["uses_of_" + k] = uses[u]; }
  C.R.counts["options_recognised"] = L.keys.size(); C.R.counts["places_holding_option_values"] = nplaces; C.R.counts["uses_checked"] = nuses;
}
} // namespace vcsa
