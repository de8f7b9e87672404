#include "common.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <fstream>
using namespace vcsa;
int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: vcsa <analysis> <module.bc> <repo-src-root> [--baseline file] [--out file]\n"; return 2; }
  std::string an = argv[1], out; Ctx C; setRepoRoot(argv[3]); C.srcRoot = argv[3];
  for (int i = 4; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--baseline" && i + 1 < argc) { std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) C.baseline.insert(l); }
    else if (a == "--selftest") C.selftest = true;
    else if (a == "--out" && i + 1 < argc) out = argv[++i];
  }
  LLVMContext LC; auto M = loadModule(LC, argv[2]); if (!M) return 2;
  C.M = M.get();
  prepare(*M, C.baseline, C.R, an != "uninit" && an != "rawir" && an != "grow");
  long nf = 0; for (auto &F : *M) if (isRepoFunc(&F)) { nf++; C.R.sets["files"].insert(baseFile(F.getSubprogram()->getFilename().str())); }
  C.R.counts["repo_functions_analysed"] = nf;
  std::map<std::string, std::function<void(Ctx &)>> T = {{"race", runRace}, {"list", runList}
#include "registry.inc"
  };
  if (an == "ir" || an == "rawir") { for (auto &F : *M) if (isRepoFunc(&F) && !F.isDeclaration() && (out.empty() || shortName(&F).find(out) != std::string::npos)) F.print(outs()); return 0; }
  if (!T.count(an)) { errs() << "unknown analysis " << an << "\n"; return 2; }
  T[an](C);
  json::Array fs;
  for (auto &f : C.R.findings) { json::Array n; for (auto &x : f.notes) n.push_back(x); fs.push_back(json::Object{{"rule", f.rule}, {"file", f.file}, {"line", (int64_t)f.line}, {"func", f.func}, {"key", f.key}, {"msg", f.msg}, {"notes", std::move(n)}}); }
  json::Object cs, ss; for (auto &kv : C.R.counts) cs[kv.first] = (int64_t)kv.second;
  for (auto &kv : C.R.sets) { json::Array a; for (auto &x : kv.second) a.push_back(x); ss[kv.first] = std::move(a); }
  json::Array br; for (auto &b : C.R.broken) br.push_back(b);
  json::Value V(json::Object{{"findings", std::move(fs)}, {"counts", std::move(cs)}, {"sets", std::move(ss)}, {"broken", std::move(br)}});
  if (out.empty()) outs() << formatv("{0:2}", V) << "\n"; else { std::error_code EC; raw_fd_ostream o(out, EC); o << formatv("{0:2}", V) << "\n"; }
  return 0;
}
namespace vcsa { void runList(Ctx &C) { for (auto &F : *C.M) if (isRepoFunc(&F)) C.R.sets["linkage"].insert(F.getName().str()); } }
