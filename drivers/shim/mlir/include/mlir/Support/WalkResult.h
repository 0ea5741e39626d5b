// Newer MLIR has this header; in MLIR 20 WalkResult lives in IR/Visitors.h.
#include "mlir/include/mlir/IR/Visitors.h"
