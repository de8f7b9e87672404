// Every indexed access to a vector of fields (or of file names, arguments...) lies within the vector, because a test of
// its size that implies it dominates the access and the vector is not changed in between.
#include "facts.h"
namespace vcsa {
void runTokens(Ctx &C) {
  ModSets MS(*C.M);
  long n = 0, ok = 0;
  for (auto &F : *C.M) {
    if (!(isRepoFunc(&F) || isOutlined(&F)) || F.isDeclaration()) continue;
    Facts FX(F, MS);
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue;
      auto *H = calleeOf(CB); if (!H) continue;
      std::string d = demangled(H);
      if (d.rfind("std::vector<std::__cxx11::basic_string", 0) != 0 && d.rfind("std::vector<char*", 0) != 0 && d.rfind("std::vector<char const*", 0) != 0) continue;
      bool idx = isVectorIndex(CB), ends = d.find(">::front()") != std::string::npos || d.find(">::back()") != std::string::npos || d.find(">::pop_back()") != std::string::npos;
      if (!idx && !ends) continue;
      if (!FX.DT.isReachableFromEntry(I.getParent())) continue;
      n++;
      C.R.sets["functions_with_field_accesses"].insert(funcKey(&F));
      std::string sk = "S(" + Facts::addrKey(CB->getArgOperand(0)) + ")";
      Lx g; if (idx) g.add(FX.lin(CB->getArgOperand(1)), -1); g.c -= 1; g.t[sk] += 1;
      std::vector<Fact> v; for (auto &f : FX.at(&I)) if (FX.valid(f, &I, {})) v.push_back(f);
      if (FX.prove(g, &I, v)) { ok++; continue; }
      std::string vn = varName(CB->getArgOperand(0)); if (vn.empty()) vn = objectOf(CB->getArgOperand(0), &F);
      C.R.add(mk("row-bounds", &I, funcKey(&F) + "|" + vn + "[" + (idx ? describe(CB->getArgOperand(1)) : "end") + "]", "'" + vn + (idx ? "[" + describe(CB->getArgOperand(1)) + "]" : " (first/last element)") + "' is accessed without a dominating test that '" + vn + "' has that many elements: a row with fewer fields is read out of range"));
    }
  }
  C.R.counts["field_accesses"] = n; C.R.counts["field_accesses_proved_in_range"] = ok;
}
} // namespace vcsa
