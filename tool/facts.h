// Linear facts that hold at a program point because a branch that decides them dominates it.
#pragma once
#include "common.h"
namespace vcsa {
struct Lx { // sum of coefficient * symbol + c
  std::map<std::string, long> t; long c = 0; bool ok = true;
  void add(const Lx &o, long k) { for (auto &p : o.t) { t[p.first] += k * p.second; if (!t[p.first]) t.erase(p.first); } c += k * o.c; ok = ok && o.ok; }
  std::string str() const { std::string s; for (auto &p : t) s += (p.second >= 0 ? "+" : "") + std::to_string(p.second) + "*" + p.first + " "; return s + std::to_string(c); }
};
struct Fact { Lx e; std::vector<const Instruction *> deps; const Instruction *at = nullptr; bool eqZero = false; bool neZero = false; };

struct ModSets { // class fields and globals that a function may store to, transitively; and whether it may write through its arguments
  std::map<const Function *, std::set<std::string>> mod;
  std::map<const Function *, std::set<unsigned>> writesArg; // pointer arguments written through (transitively)
  ModSets(Module &M);
};

struct Facts {
  Function &F; DominatorTree DT; LoopInfo LI; const ModSets &MS;
  std::map<std::string, std::vector<const Instruction *>> symDeps; // memory-dependent symbols: the instructions that read them
  Facts(Function &F, const ModSets &MS) : F(F), DT(F), LI(DT), MS(MS) {}
  Lx lin(const Value *V, int depth = 0);                 // linear form; records memory reads
  std::vector<Fact> at(const Instruction *I);            // facts that hold whenever I runs
  void fromCond(const Value *C, bool truth, const Instruction *at, std::vector<Fact> &out, int depth = 0);
  bool valid(const Fact &f, const Instruction *I, const std::set<const Instruction *> &goalReads); // not overwritten in between
  bool prove(Lx goal, const Instruction *I, const std::vector<Fact> &fs, int depth = 4); // goal >= 0
  bool nonZero(const Value *V, const Instruction *I);
  bool clobbered(const Instruction *from, const Instruction *to, const std::string &sym, const Value *addr);
  std::map<std::string, const Value *> symAddr;          // symbol -> address / container it was read from
  std::set<const Instruction *> readsOf(const Value *V);
  static std::string addrKey(const Value *P, int depth = 0);
  bool mayWrite(const Instruction *J, const std::string &sym, const Value *addr);
};
bool isSizeCall(const CallBase *CB);
bool isVectorIndex(const CallBase *CB);
} // namespace vcsa
