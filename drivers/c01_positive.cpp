// Built-in examples for C01: bad* must be flagged, good* must not.
#include <map>
#include <optional>
#include "llvm/Support/Casting.h"
#include "mlir/include/mlir/IR/Operation.h"
#include "mlir/include/mlir/IR/BuiltinOps.h"
using namespace mlir;
FailureOr<int> mk(int x) { if (x) return failure(); return x; }
int badDirect(int x) { return mk(x).value(); }
int badLateCheck(int x) { auto r = mk(x); int y = *r; if (failed(r)) return 0; return y; }
int badOneBranch(int x, bool b) { auto r = mk(x); if (b) { if (failed(r)) return 0; } return *r; }
bool badCast(Operation* op) { auto m = llvm::dyn_cast<ModuleOp>(op); return m.getBody() != nullptr; }
int badFind(std::map<int, int>& m) { auto it = m.find(3); return it->second; }
static int sink(Operation* op) { return op->getNumOperands(); }
int badPass(Value v) { return sink(v.getDefiningOp()); }
int good1(int x) { auto r = mk(x); if (failed(r)) return 0; return *r; }
int good2(int x) { auto r = mk(x); bool ok = succeeded(r); if (!ok) return 0; return r.value(); }
int good3(std::optional<int> o) { return o && *o > 2 ? *o : 0; }
bool good4(Operation* op) { if (auto m = llvm::dyn_cast<ModuleOp>(op)) return m.getBody() != nullptr; return false; }
int good5(std::map<int, int>& m) { auto it = m.find(3); if (it == m.end()) return 0; return it->second; }
int good6(Value v) { if (auto* d = v.getDefiningOp()) return sink(d); return 0; }
int good7(int x) { std::optional<int> o; for (int i = 0; i < 3; ++i) { if (!o) { o = i; } x += *o; } return x; }
static int unwrap(FailureOr<int> r) { return *r; }
int badArg(int x) { return unwrap(mk(x)); }
int good8(int x) { auto r = mk(x); if (failed(r)) return 0; return unwrap(r); }
