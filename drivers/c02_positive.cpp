// Built-in examples for C02: bad* must be flagged, good* must not.
#include "mlir/include/mlir/IR/Operation.h"
#include "mlir/include/mlir/IR/BuiltinOps.h"
#include "mlir/include/mlir/IR/Visitors.h"
using namespace mlir;
LogicalResult step(int);
FailureOr<int> make(int);
LogicalResult canDo(int);
LogicalResult badSwallow(int x) { if (failed(step(x))) return success(); return success(); }
LogicalResult badContinue(int x) { for (int i = 0; i < x; ++i) { if (failed(step(i))) continue; } return success(); }
LogicalResult badAnd(int x) { if (failed(step(x)) && failed(step(x + 1))) return failure(); return success(); }
LogicalResult badDiag(Operation* op) { if (op->getNumOperands() == 0) { op->emitOpError("none"); } return success(); }
LogicalResult badDiscard(int x) { (void)step(x); return success(); }
LogicalResult badLost(int x) { LogicalResult r = success(); for (int i = 0; i < x; ++i) r = step(i); return r; }
LogicalResult badUnread(int x) { LogicalResult r = step(x); return success(); }
LogicalResult badVar(int x) { LogicalResult r = success(); if (failed(step(x))) { x = 0; } return r; }
LogicalResult badWalk(Operation* op) {
  op->walk([&](Operation* o) { if (failed(step(1))) return WalkResult::interrupt(); return WalkResult::advance(); });
  return success();
}
FailureOr<int> badValue(int x) { auto r = make(x); if (failed(r)) x = 3; return x; }
LogicalResult badLambda(Operation* op) {
  auto r = op->walk([&](Operation* o) { if (failed(step(1))) return WalkResult::advance(); return WalkResult::advance(); });
  return failure(r.wasInterrupted());
}
LogicalResult good1(int x) { if (failed(step(x)) || failed(step(x + 1))) return failure(); return success(); }
LogicalResult good2(Operation* op) { if (failed(step(1))) return op->emitOpError("x") << "y"; return success(); }
LogicalResult good3(int x) { LogicalResult r = success(); for (int i = 0; i < x; ++i) if (failed(step(i))) r = failure(); return r; }
LogicalResult good4(int x) { if (failed(canDo(x))) return success(); return step(x); }
LogicalResult good5(Operation* op) {
  auto r = op->walk([&](Operation* o) { if (failed(step(1))) return WalkResult::interrupt(); return WalkResult::advance(); });
  return failure(r.wasInterrupted());
}
LogicalResult good6(int x) { bool bad = false; for (int i = 0; i < x; ++i) if (failed(step(i))) bad = true; return failure(bad); }
LogicalResult good7(int x) { if (succeeded(step(x))) return success(); return step(-x); }
LogicalResult good8(int x) { auto r = step(x); return r; }
FailureOr<int> good9(int x) { auto r = make(x); if (failed(r)) return failure(); return *r + 1; }
LogicalResult good10(Operation* op) { if (op->getNumOperands() == 0) { op->emitOpError("none"); return failure(); } return success(); }
