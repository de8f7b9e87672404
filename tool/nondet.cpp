// Reproducibility: no value that differs between two runs of the same input (clock, process, addresses, entropy,
// machine size) may reach anything but console output, and no result may depend on the order in which the threads
// of a parallel region happen to run.
#include "common.h"
#include <deque>

namespace vcsa {
namespace {
bool startsWith(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

std::string sourceKind(const CallBase *CB) {
  auto *F = calleeOf(CB); if (!F) return "";
  static const std::map<std::string, std::string> m = {
    {"time", "wall clock"}, {"clock", "cpu clock"}, {"clock_gettime", "clock"}, {"gettimeofday", "wall clock"}, {"times", "clock"}, {"getrusage", "resource usage"},
    {"omp_get_wtime", "wall clock"}, {"omp_get_wtick", "wall clock"}, {"MPI_Wtime", "wall clock"}, {"rand", "hidden generator"}, {"random", "hidden generator"}, {"drand48", "hidden generator"}, {"lrand48", "hidden generator"}, {"rand_r", "hidden generator"}, {"arc4random", "entropy"}, {"getrandom", "entropy"}, {"getentropy", "entropy"},
    {"getpid", "process id"}, {"getppid", "process id"}, {"gettid", "thread id"}, {"pthread_self", "thread handle"}, {"sched_getcpu", "cpu number"},
    {"omp_get_num_procs", "machine size"}, {"omp_get_max_threads", "environment's thread limit"}, {"omp_get_thread_limit", "environment"}, {"omp_get_dynamic", "environment"}, {"get_nprocs", "machine size"}, {"sysconf", "machine"}, {"getenv", "environment"}, {"secure_getenv", "environment"}, {"gethostname", "host name"}, {"tmpnam", "temporary name"}, {"mkstemp", "temporary name"}, {"__kmpc_global_thread_num", ""}};
  auto it = m.find(F->getName().str()); if (it != m.end()) return it->second;
  if (F->getName().starts_with("llvm.readcyclecounter") || F->getName().contains("rdtsc")) return "cycle counter";
  std::string d = demangled(F);
  if (d.find("std::random_device::operator()") != std::string::npos || d.find("std::random_device::_M_getval") != std::string::npos) return "entropy";
  if (startsWith(d, "std::chrono::") && d.find("::now(") != std::string::npos) return "clock";
  if (d.find("std::thread::hardware_concurrency") != std::string::npos) return "machine size";
  if (d.find("std::this_thread::get_id") != std::string::npos) return "thread handle";
  if (d.find("std::_Hash_bytes") != std::string::npos) return "";
  return "";
}

struct Taint {
  Ctx &C; Module &M;
  std::map<const Value *, std::string> val; // tainted value -> origin
  std::map<const Value *, std::string> mem; // pointer to tainted memory
  std::map<std::string, std::string> obj;   // Class.field / global
  std::deque<const Value *> wq;
  std::map<const Function *, std::vector<const CallBase *>> callers;
  std::set<std::string> rep;
  std::set<std::string> consoleSinks; long steps = 0;
  Taint(Ctx &C) : C(C), M(*C.M) {}

  bool exempt(const Function *F) { // console and its log file carry time stamps by design
    std::string k = shortName(F);
    if (k.find("MeshingConsole::") != std::string::npos) return true;
    return !isRepoFunc(F) && !isOutlined(F);
  }
  void report(const Instruction *I, const std::string &what, const std::string &org) {
    if (exempt(I->getFunction())) return;
    std::string key = funcKey(I->getFunction()) + "|" + what;
    if (!rep.insert(key + where(I)).second) return;
    C.R.add(mk("run-dependent", I, key, what + " depends on the " + org));
  }
  void tv(const Value *V, const std::string &o) { if (val.emplace(V, o).second) wq.push_back(V); }
  void tm(const Value *V, const std::string &o) {
    V = V->stripPointerCasts();
    if (isa<ConstantPointerNull>(V)) return;
    if (mem.emplace(V, o).second) wq.push_back(V);
  }
  void tobj(const std::string &s, const std::string &o) {
    if (!obj.emplace(s, o).second) return;
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (fieldKey(L->getPointerOperand(), &F) == s) tv(L, o);
  }
  std::string fieldKey(const Value *P, const Function *F) {
    if (auto *G = dyn_cast<GEPOperator>(P)) { auto n = fieldOf(G, &M); if (!n.empty()) return n; }
    if (auto *G = dyn_cast<GlobalVariable>(P)) return "global " + G->getName().str();
    return firstField(P);
    return "";
  }
  static const Value *streamRoot(const Value *V) {
    for (int i = 0; i < 60; i++) {
      V = V->stripPointerCasts();
      if (auto *CB = dyn_cast<CallBase>(V)) { if (CB->arg_size()) { V = CB->getArgOperand(0); continue; } return V; }
      if (auto *G = dyn_cast<GEPOperator>(V)) { V = G->getPointerOperand(); continue; }
      return V;
    }
    return V;
  }
  std::string streamKind(const Value *V) {
    V = streamRoot(V);
    if (auto *G = dyn_cast<GlobalVariable>(V)) { std::string n = llvm::demangle(G->getName().str()); if (n == "std::cout" || n == "std::cerr" || n == "std::clog" || n.find("vcm_") == 0) return "console"; }
    Type *T = nullptr; if (auto *A = dyn_cast<AllocaInst>(V)) T = A->getAllocatedType();
    if (T && T->isStructTy() && cast<StructType>(T)->hasName()) {
      StringRef n = cast<StructType>(T)->getName();
      if (n.contains("MeshingConsole")) return "console";
      if (n.contains("fstream")) return "file";
      if (n.contains("stringstream")) return "string";
    }
    return "unknown";
  }
  void storeTo(const Instruction *I, const Value *P, const std::string &o) {
    const Function *F = I->getFunction();
    P = P->stripPointerCasts();
    std::string fk = fieldKey(P, F);
    if (!fk.empty()) { tobj(fk, o); return; }
    if (isa<AllocaInst>(P)) { tm(P, o); return; }
    if (isa<Argument>(P) && !callers[F].empty()) { tm(P, o); return; }
    if (auto *L = dyn_cast<LoadInst>(P)) if (isa<AllocaInst>(L->getPointerOperand()) || (isa<GEPOperator>(L->getPointerOperand()))) { }
    report(I, "the data stored in " + objectOf(P, F), o);
  }
  void use(const Value *V, const Use &U, const std::string &o, bool isMem) {
    auto *I = dyn_cast<Instruction>(U.getUser());
    if (!I) return; // constants
    steps++;
    if (isMem) {
      if (auto *L = dyn_cast<LoadInst>(I)) { tv(L, o); return; }
      if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I)) { tm(I, o); return; }
      if (auto *CB = dyn_cast<CallBase>(I)) { callWith(CB, U, o, true); return; }
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) { if (U.getOperandNo() == 0) storeTo(S, S->getPointerOperand(), o); else report(S, "the place written to", o); return; }
    if (auto *B = dyn_cast<BranchInst>(I)) { report(B, "a branch", o); return; }
    if (isa<SwitchInst>(I)) { report(I, "a switch", o); return; }
    if (auto *S = dyn_cast<SelectInst>(I)) { if (U.getOperandNo() == 0 && !S->getType()->isIntegerTy(1)) { report(I, "a selected value", o); } tv(I, o); return; }
    if (isa<GetElementPtrInst>(I)) { if (U.getOperandNo() > 0) report(I, "an index", o); return; }
    if (isa<LoadInst>(I)) return;
    if (auto *R = dyn_cast<ReturnInst>(I)) { for (auto *CB : callers[R->getFunction()]) tv(CB, o); return; }
    if (auto *CB = dyn_cast<CallBase>(I)) { callWith(CB, U, o, false); return; }
    tv(I, o); // arithmetic, casts, compares, phis, insert/extract
  }
  void callWith(const CallBase *CB, const Use &U, const std::string &o, bool isMem) {
    if (isa<DbgInfoIntrinsic>(CB)) return;
    if (!CB->isArgOperand(&U)) return;
    unsigned an = CB->getArgOperandNo(&U);
    const Function *F = calleeOf(CB);
    if (!F) { return; }
    std::string n = F->getName().str();
    if (startsWith(n, "llvm.lifetime")) return;
    if (startsWith(n, "__kmpc_fork_call")) {
      bool isIf = n == "__kmpc_fork_call_if"; auto *Out = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts());
      unsigned c0 = isIf ? 4 : 3; if (Out && an >= c0 && an - c0 + 2 < Out->arg_size()) { auto *A = Out->getArg(an - c0 + 2); if (isMem) tm(A, o); else tv(A, o); }
      return;
    }
    if (!F->isDeclaration() && (isRepoFunc(F) || isOutlined(F))) {
      if (shortName(F).find("MeshingConsole::") != std::string::npos) { consoleSinks.insert(where(CB)); return; }
      if (an < F->arg_size()) { auto *A = F->getArg(an); if (isMem) tm(A, o); else tv(A, o); }
      return;
    }
    std::string d = demangled(F);
    bool isOut = (d.find("operator<<") != std::string::npos || d.find("::put(") != std::string::npos || d.find("::write(") != std::string::npos) && d.find("ostream") != std::string::npos;
    if (isOut) {
      if (an == 0 && isMem) { // inserting something into a tainted string stream keeps it tainted
        return; }
      if (an == 0) return;
      std::string k = streamKind(CB->getArgOperand(0));
      if (k == "console") { consoleSinks.insert(where(CB)); return; }
      if (k == "string") { tm(streamRoot(CB->getArgOperand(0)), o); return; }
      if (k == "file" || k == "unknown") report(CB, "what is written to a file", o);
      return;
    }
    if (n == "free" || startsWith(d, "operator delete")) return;
    if (startsWith(d, "operator new")) { report(CB, "an allocation size", o); return; }
    if (d.find("~basic_") != std::string::npos) return;
    // other library code: its result and everything reachable from its pointer arguments may depend on it
    if (!CB->getType()->isVoidTy()) { if (CB->getType()->isPointerTy()) tm(CB, o); tv(CB, o); }
    for (auto &A : CB->args()) if (A->getType()->isPointerTy()) { const Value *P = A.get()->stripPointerCasts(); if (isa<AllocaInst>(P)) tm(P, o); }
  }
  void run() {
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(CB)) callers[G].push_back(CB);
    long src = 0;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      if (exempt(&F) && !isOutlined(&F)) continue;
      for (auto &I : instructions(F)) {
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          std::string k = sourceKind(CB);
          if (!k.empty()) {
            src++; C.R.sets["run_dependent_sources"].insert(k + " at " + where(CB));
            std::string o = k + " read at " + where(CB);
            tv(CB, o);
            for (auto &A : CB->args()) if (A->getType()->isPointerTy() && isa<AllocaInst>(A.get()->stripPointerCasts())) tm(A.get(), o);
          }
        }
        if (auto *P = dyn_cast<PtrToIntInst>(&I)) {
          // differences of two addresses are sizes; any other use of the number is an address
          bool onlyDiff = true;
          for (auto *U : P->users()) { auto *B = dyn_cast<BinaryOperator>(U); if (!B || B->getOpcode() != Instruction::Sub || !isa<PtrToIntInst>(B->getOperand(0)) || !isa<PtrToIntInst>(B->getOperand(1))) onlyDiff = false; }
          if (!onlyDiff && isRepoFunc(&F)) { src++; tv(P, "address taken at " + where(P)); }
        }
        if (auto *Cmp = dyn_cast<ICmpInst>(&I)) if (isRepoFunc(&F) && Cmp->getOperand(0)->getType()->isPointerTy() && Cmp->isRelational()) { src++; tv(Cmp, "order of addresses compared at " + where(Cmp)); }
      }
    }
    while (!wq.empty()) {
      const Value *V = wq.front(); wq.pop_front();
      if (val.count(V)) for (auto &U : V->uses()) use(V, U, val[V], false);
      if (mem.count(V)) {
        std::string o = mem[V];
        for (auto &U : V->uses()) use(V, U, o, true);
        if (auto *A = dyn_cast<Argument>(V)) { // written through an out-parameter
          const Function *F = A->getParent();
          for (auto *CB : callers[F]) if (A->getArgNo() < CB->arg_size()) storeThrough(CB, CB->getArgOperand(A->getArgNo()), o);
          if (isOutlined(F)) for (auto &G : M) for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *K = calleeOf(CB); if (K && K->getName().starts_with("__kmpc_fork_call") && CB->getArgOperand(2)->stripPointerCasts() == F) { unsigned c0 = K->getName() == "__kmpc_fork_call_if" ? 4 : 3; unsigned i = A->getArgNo() - 2 + c0; if (A->getArgNo() >= 2 && i < CB->arg_size()) storeThrough(CB, CB->getArgOperand(i), o); } }
        }
      }
    }
    C.R.counts["run_dependent_sources_followed"] = src;
    C.R.counts["taint_flow_steps"] = steps;
    C.R.counts["flows_ending_in_console_output"] = consoleSinks.size();
  }
  void storeThrough(const CallBase *CB, const Value *P, const std::string &o) { storeTo(CB, P, o); }
};

// types whose iteration order is the order of addresses
void addressOrdered(Ctx &C) {
  long n = 0;
  for (auto &F : *C.M) {
    if (F.isDeclaration()) continue;
    std::string d = demangled(&F);
    for (const char *t : {"std::_Rb_tree<", "std::_Hashtable<"}) {
      if (d.rfind(t, 0) != 0 && d.find(std::string(" ") + t) == std::string::npos) continue;
      n++;
      auto p = d.find(t); size_t q = p + strlen(t); int depth = 0; std::string key;
      for (; q < d.size(); q++) { char c = d[q]; if (c == '<') depth++; if (c == '>') depth--; if ((c == ',' && depth == 0) || depth < 0) break; key += c; }
      while (!key.empty() && key.back() == ' ') key.pop_back();
      if (!key.empty() && key.back() == '*') { Finding f; f.rule = "run-dependent"; f.func = d.substr(0, 120); f.file = ""; f.key = "address-ordered|" + key; f.msg = "container keyed by addresses of type " + key + ": its order differs between runs"; bool dup = false; for (auto &g : C.R.findings) if (g.key == f.key) dup = true; if (!dup) C.R.add(f); }
    }
  }
  C.R.counts["ordered_container_functions"] = n;
}

// `if (v > m) m = v;` under a lock: the maximum (minimum) does not depend on the order
bool isMinMax(const StoreInst *S) {
  auto strip = [](const Value *V) { while (auto *Cs = dyn_cast<CastInst>(V)) V = Cs->getOperand(0); return V; };
  auto *Pred = S->getParent()->getSinglePredecessor(); if (!Pred) return false;
  auto *B = dyn_cast<BranchInst>(Pred->getTerminator()); if (!B || !B->isConditional()) return false;
  auto *Cm = dyn_cast<ICmpInst>(B->getCondition()); if (!Cm || !Cm->isRelational()) return false;
  for (int i = 0; i < 2; i++) {
    auto *L = dyn_cast<LoadInst>(strip(Cm->getOperand(i)));
    if (L && sameExpr(L->getPointerOperand(), S->getPointerOperand()) && strip(Cm->getOperand(1 - i)) == strip(S->getValueOperand())) return true;
  }
  return false;
}

// inside parallel regions: nothing may depend on the order in which threads arrive
void scheduleOrder(Ctx &C) {
  long regions = 0, points = 0;
  for (auto &P : *C.M) for (auto &I : instructions(P)) {
    auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *K = calleeOf(CB); if (!K || !K->getName().starts_with("__kmpc_fork_call")) continue;
    auto *Out = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()); if (!Out) continue;
    regions++;
    auto reach = reachableFrom(Out);
    for (auto *F : reach) {
      if (F->isDeclaration() || !(isRepoFunc(F) || isOutlined(F))) continue;
      bool hasCrit = false; std::vector<const Instruction *> lockOps;
      for (auto &J : instructions(*F)) {
        if (auto *A = dyn_cast<AtomicRMWInst>(&J)) {
          points++;
          auto op = A->getOperation();
          bool fp = op == AtomicRMWInst::FAdd || op == AtomicRMWInst::FSub || op == AtomicRMWInst::Xchg || op == AtomicRMWInst::Nand;
          if (fp) C.R.add(mk("arrival-order", &J, funcKey(&P) + "|atomic " + objectOf(A->getPointerOperand(), F), "an atomic floating-point (or exchange) update of '" + objectOf(A->getPointerOperand(), F) + "' in a parallel region: the result depends on the order of the threads"));
          else if (!A->use_empty()) C.R.add(mk("arrival-order", &J, funcKey(&P) + "|atomic result " + objectOf(A->getPointerOperand(), F), "the value an atomic update of '" + objectOf(A->getPointerOperand(), F) + "' returns is used in a parallel region: it depends on the order of the threads"));
        }
        if (auto *X = dyn_cast<AtomicCmpXchgInst>(&J)) { points++; bool fp = false; for (auto *U : J.users()) (void)U;
          // compare-exchange loops implement floating-point atomics
          C.R.add(mk("arrival-order", &J, funcKey(&P) + "|cmpxchg " + objectOf(X->getPointerOperand(), F), "a compare-exchange update of '" + objectOf(X->getPointerOperand(), F) + "' in a parallel region: the result depends on the order of the threads")); (void)fp; }
        if (auto *L = dyn_cast<LoadInst>(&J)) if (L->isAtomic()) {}
        if (auto *B = dyn_cast<CallBase>(&J)) {
          auto *H = calleeOf(B); if (!H) continue; std::string n = H->getName().str();
          if (startsWith(n, "__kmpc_dispatch_init")) { points++; C.R.add(mk("arrival-order", &J, funcKey(&P) + "|dynamic schedule", "dynamically scheduled loop in a parallel region: which thread runs an iteration (and draws from that thread's generator) depends on timing")); }
          if (n == "__kmpc_single") { points++; C.R.add(mk("arrival-order", &J, funcKey(&P) + "|single", "'single' construct: which thread runs it depends on timing")); }
          if (startsWith(n, "__kmpc_omp_task")) { points++; C.R.add(mk("arrival-order", &J, funcKey(&P) + "|task", "task construct: the thread that runs a task depends on timing")); }
          if (startsWith(n, "__kmpc_reduce")) {
            points++;
            // reduction function is the 6th argument; floating point combiners are order dependent
            for (auto &A : B->args()) if (auto *RF = dyn_cast<Function>(A->stripPointerCasts())) for (auto &Q : instructions(*RF)) if (auto *BO = dyn_cast<BinaryOperator>(&Q)) if (BO->getType()->isFloatingPointTy()) { C.R.add(mk("arrival-order", &J, funcKey(&P) + "|fp reduction", "floating-point reduction in a parallel region: its rounding depends on the order of the threads")); goto nextInst; }
          }
          if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint" || n == "omp_set_lock" || n == "omp_set_nest_lock") lockOps.push_back(&J);
        }
      nextInst:;
      }
      // updates made under a lock must be commutative integer updates of one location
      for (auto *L : lockOps) {
        points++;
        std::set<const BasicBlock *> seen; std::vector<const Instruction *> w{L->getNextNode()}; bool first = true;
        std::vector<const BasicBlock *> bb; 
        auto scan = [&](const Instruction *S) -> bool { // false when released
          for (const Instruction *Q = S; Q; Q = Q->getNextNode()) {
            if (auto *B = dyn_cast<CallBase>(Q)) { auto *H = calleeOf(B); std::string n = H ? H->getName().str() : ""; if (n == "__clang_call_terminate") continue;
              if (n == "__kmpc_end_critical" || n == "omp_unset_lock" || n == "omp_unset_nest_lock") return false;
              if (isa<DbgInfoIntrinsic>(B) || startsWith(n, "llvm.") || startsWith(n, "omp_get") || startsWith(n, "__kmpc_")) continue;
              if (H && shortName(H).find("MeshingConsole::") != std::string::npos) continue;
              if (H && (isMathName(n))) continue;
              C.R.add(mk("arrival-order", Q, funcKey(&P) + "|locked call " + (H ? shortName(H) : "?"), "call of " + (H ? shortName(H) : std::string("?")) + " under a lock in a parallel region: its effects are applied in the order in which the threads arrive")); }
            if (auto *S2 = dyn_cast<StoreInst>(Q)) {
              if (isa<AllocaInst>(S2->getPointerOperand())) continue;
              bool ok = false; const Value *V = S2->getValueOperand();
              if (auto *BO = dyn_cast<BinaryOperator>(V)) if (BO->getType()->isIntegerTy() && BO->isAssociative()) for (auto &O : BO->operands()) if (auto *Ld = dyn_cast<LoadInst>(O)) if (sameExpr(Ld->getPointerOperand(), S2->getPointerOperand())) ok = true;
              if (isa<ConstantInt>(V)) ok = true; // raising a flag
              if (V->getType()->isIntegerTy() && isMinMax(S2)) ok = true;
              if (!ok) C.R.add(mk("arrival-order", Q, funcKey(&P) + "|locked " + objectOf(S2->getPointerOperand(), F), "'" + objectOf(S2->getPointerOperand(), F) + "' is updated under a lock in a parallel region by something other than a commutative integer update: the result depends on the order of the threads"));
            }
          }
          return true;
        };
        if (scan(L->getNextNode())) for (auto *S : successors(L->getParent())) bb.push_back(S);
        while (!bb.empty()) { auto *Bk = bb.back(); bb.pop_back(); if (!seen.insert(Bk).second) continue; if (scan(&Bk->front())) for (auto *S : successors(Bk)) bb.push_back(S); }
        (void)first; (void)w;
      }
      (void)hasCrit;
    }
  }
  C.R.counts["parallel_regions_checked_for_order"] = regions;
  C.R.counts["ordering_points_examined"] = points;
}
} // namespace

void runNondet(Ctx &C) {
  Taint T(C); T.run();
  addressOrdered(C);
  scheduleOrder(C);
}
} // namespace vcsa
