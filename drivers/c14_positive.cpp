#include "lib/Dialect/ModuleAttributes.h"
#include "mlir/include/mlir/IR/BuiltinAttributes.h"
#include "mlir/include/mlir/IR/BuiltinOps.h"
namespace mlir { namespace heir {
static void put(Operation* op, llvm::StringRef n) { op->setAttr(n, UnitAttr::get(op->getContext())); }
bool good1_moduleIsBGV(Operation* m) { return m->hasAttr(kBGVSchemeAttrName); }
void good1_moduleSetBGV(Operation* m) {
  for (llvm::StringRef n : {kBFVSchemeAttrName, kCKKSSchemeAttrName, kCGGISchemeAttrName}) m->removeAttr(n);
  put(m, kBGVSchemeAttrName);
}
void good2_moduleSetLattigo(Operation* m) {
  if (m->hasAttr(kOpenfheBackendAttrName)) m->removeAttr(kOpenfheBackendAttrName);
  put(m, "backend.lattigo");
}
void bad1_moduleSetBGV(Operation* m) {
  put(m, kBGVSchemeAttrName);
  for (llvm::StringRef n : {kBGVSchemeAttrName, kBFVSchemeAttrName, kCKKSSchemeAttrName, kCGGISchemeAttrName}) m->removeAttr(n);
}
void bad2_moduleSetCKKS(Operation* m) {
  if (m->hasAttr(kBGVSchemeAttrName)) m->removeAttr(kBGVSchemeAttrName);
  else m->removeAttr(kBFVSchemeAttrName);
  m->removeAttr(kCGGISchemeAttrName);
  put(m, kCKKSSchemeAttrName);
}
bool bad1_moduleIsBGVOrBFV(Operation* m) { return m->hasAttr(kBGVSchemeAttrName) && m->hasAttr(kBFVSchemeAttrName); }
void bad3_moduleClearBackend(Operation* m) { m->removeAttr(kOpenfheBackendAttrName); m->removeAttr(kLattigoBackendAttrName); m->removeAttr("backend.config_override"); }
}}
