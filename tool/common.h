// Shared infrastructure of vcsa, the VoroCrust static analyser (LLVM 18 IR, whole program).
#pragma once
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>

namespace vcsa {
using namespace llvm;

struct Finding {
  std::string rule, file, func, key, msg;
  unsigned line = 0;
  std::vector<std::string> notes;
};

struct Report {
  std::vector<Finding> findings;
  std::map<std::string, long> counts;           // measured coverage
  std::map<std::string, std::set<std::string>> sets; // measured name lists
  std::vector<std::string> broken;              // reasons the analysis itself has no answer
  void add(Finding f) { findings.push_back(std::move(f)); }
};

struct Ctx {
  Module *M = nullptr;
  std::string srcRoot; // repository source directory
  std::set<std::string> baseline; // functions of the confirmed tree (linkage names); others are helpers
  Report R;
  bool selftest = false;
};

// ---- naming and location -------------------------------------------------
bool isRepoFunc(const Function *F);            // has a DISubprogram whose file lies in the repository
void setRepoRoot(const std::string &r);
std::string demangled(const Function *F);      // full demangled name
std::string shortName(const Function *F);      // Class::method, no parameters
std::string funcKey(const Function *F);        // Class::method of the *source* function (outlined -> parent)
bool debugLoc(const Instruction *I, std::string &file, unsigned &line);
std::string where(const Instruction *I);
std::string varName(const Value *V, const Function *F = nullptr); // source variable name if known
const Function *calleeOf(const CallBase *CB);  // resolved direct callee, through aliases/casts
bool isOutlined(const Function *F);
std::string baseFile(const std::string &p);
std::string describe(const Value *V, int depth = 0); // source-like rendering of an expression
std::string fieldOf(const GEPOperator *G, const Module *M);   // Class.field of a field address
std::string objectOf(const Value *P, const Function *F);      // the named object an address belongs to
std::string firstField(const Value *P);
bool sameExpr(const Value *A, const Value *B, int depth = 0);
Finding mk(const char *rule, const Instruction *I, const std::string &key, const std::string &msg);

// ---- IR preparation ------------------------------------------------------
std::unique_ptr<Module> loadModule(LLVMContext &C, const std::string &path);
// sroa/instsimplify, inlining of helpers which are not in the baseline list
void prepare(Module &M, const std::set<std::string> &baseline, Report &R, bool sroa = true);
std::set<const Function *> reachableFrom(const Function *Root, bool followAddressTaken = true);

inline bool isMathName(StringRef n) {
  static const std::set<std::string> s = {"sqrt","fabs","acos","asin","atan","atan2","sin","cos","tan","exp","log","log2","log10","pow","floor","ceil","fmod","fmin","fmax","round","trunc","cbrt","hypot","abs","labs","llabs"};
  return s.count(n.str()) > 0;
}

// ---- the analyses --------------------------------------------------------
void runRace(Ctx &C);
void runNondet(Ctx &C);
void runTokens(Ctx &C);
void runStatus(Ctx &C);
void runParsed(Ctx &C);
void runExcept(Ctx &C);
void runStreams(Ctx &C);
void runKdTree(Ctx &C);
void runOwnership(Ctx &C);
void runGuards(Ctx &C);
void runDomain(Ctx &C);
void runExtents(Ctx &C);
void runSpaces(Ctx &C);
void runOptions(Ctx &C);
void runCaps(Ctx &C);
void runEffects(Ctx &C);
void runUninit(Ctx &C);
void runGrow(Ctx &C);
void runRelease(Ctx &C);
void runWriters(Ctx &C);
void runCover(Ctx &C);
void runList(Ctx &C);
} // namespace vcsa
