#include <cstdint>
#include <string>
#include "llvm/include/llvm/ADT/StringRef.h"
#include "mlir/include/mlir/IR/BuiltinAttributes.h"
#include "mlir/include/mlir/IR/BuiltinTypes.h"
#include "mlir/include/mlir/IR/Diagnostics.h"
#include "mlir/include/mlir/Support/LLVM.h"
#include "synthetic_struct.inc"
namespace mlir { namespace heir {
struct CompilationTargetRegistry { static void registerTarget(const CompilationTarget& t); };
#include "synthetic_registration.inc"
}}
#include "synthetic_overrides.inc"
