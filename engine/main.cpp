#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cstdio>
int main(int argc, char **argv) {
  std::string bc, entry, out;
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--replay") o.replay = nx();
    else if (a == "--time") o.maxTime = atof(nx().c_str());
    else if (a == "--paths") o.maxPaths = atoll(nx().c_str());
    else if (a == "--witness") o.witnessFile = nx();
    else if (a == "--nwitness") o.witnesses = atoi(nx().c_str());
    else if (a == "--exact-timeout") o.exactTimeout = atoi(nx().c_str());
    else if (a == "--uf-timeout") o.ufTimeout = atoi(nx().c_str());
    else if (a == "--out") out = nx();
    else bc = a;
  }
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  auto m = llvm::parseIRFile(bc, err, ctx);
  if (!m) { err.print("symx", llvm::errs()); return 2; }
  Exec ex(*m, o);
  if (!ex.run(entry)) return 2;
  std::string j = ex.json(entry);
  if (out.empty()) puts(j.c_str());
  else { FILE *f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
  return 0;
}
