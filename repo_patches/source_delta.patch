From 28f5669684be1a1d45265fc1435426940162107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 01/52] fix: propagate a failed type string in
 commaSeparatedTypes

---
 lib/Utils/TargetUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index e1af402..c370c48 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -47,7 +47,7 @@ FailureOr<std::string> commaSeparatedTypes(
       std::next(types.begin()), types.end(), typeToString(types[0]),
       [&](FailureOr<std::string> a, Type b) -> FailureOr<std::string> {
         auto result = typeToString(b);
-        if (failed(result)) {
+        if (failed(a) || failed(result)) {
           return failure();
         }
         return a.value() + ", " + result.value();
-- 
2.43.0


From 08d622b129edfc2eefd6fdc98687aa09a68f2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 02/52] fix: Rust emitters report missing types, symbols and
 defining ops instead of dereferencing them

---
 lib/Target/TfheRust/TfheRustEmitter.cpp       | 21 +++--
 .../TfheRustBool/TfheRustBoolEmitter.cpp      | 12 ++-
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp   | 91 +++++++++++++------
 3 files changed, 84 insertions(+), 40 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 2c42c39..fd02106 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -61,7 +61,7 @@ namespace tfhe_rust {
 namespace {
 
 bool isLevelledOp(Operation* op) {
-  return isa<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
+  return isa_and_nonnull<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
 }
 
 bool usedByLevelledOp(Value value) {
@@ -120,8 +120,11 @@ FailureOr<int> getRustIntegerType(int width) {
 
 FailureOr<DenseElementsAttr> getConstantGlobalData(memref::GetGlobalOp op) {
   auto module = op->getParentOfType<mlir::ModuleOp>();
-  auto globalOp =
-      dyn_cast<mlir::memref::GlobalOp>(module.lookupSymbol(op.getName()));
+  if (!module) {
+    return failure();
+  }
+  auto globalOp = dyn_cast_or_null<mlir::memref::GlobalOp>(
+      module.lookupSymbol(op.getName()));
   if (!globalOp) {
     return failure();
   }
@@ -335,6 +338,7 @@ LogicalResult TfheRustEmitter::printOperation(func::FuncOp funcOp) {
             }
             return result;
           });
+      if (failed(result)) return failure();
       os << "(" << result.value() << ")";
     }
   }
@@ -649,7 +653,11 @@ LogicalResult TfheRustEmitter::printOperation(tensor::ExtractOp op) {
 
 LogicalResult TfheRustEmitter::printOperation(tensor::FromElementsOp op) {
   auto resultType = op.getResult().getType();
-  std::string res = convertType(resultType).value();
+  FailureOr<std::string> typeStr = convertType(resultType);
+  if (failed(typeStr)) {
+    return op.emitOpError() << "Failed to emit tfhe-rs type " << resultType;
+  }
+  std::string res = typeStr.value();
 
   emitAssignPrefix(op.getResult(), true, res);
 
@@ -811,8 +819,9 @@ LogicalResult TfheRustEmitter::printOperation(memref::StoreOp op) {
                       variableNames->getIntForValue(op.getValueToStore()));
   } else if (isa<tfhe_rust::TfheRustDialect>(
                  op.getValueToStore().getType().getDialect()) &&
-             !isa<tfhe_rust::TfheRustDialect>(
-                 op.getValueToStore().getDefiningOp()->getDialect())) {
+             (!op.getValueToStore().getDefiningOp() ||
+              !isa<tfhe_rust::TfheRustDialect>(
+                  op.getValueToStore().getDefiningOp()->getDialect()))) {
     valueToStore += ".clone()";
   }
 
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index f5bdced..f49fd19 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -179,6 +179,7 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::FuncOp funcOp) {
           }
           return result;
         });
+    if (failed(result)) return failure();
     os << "(" << result.value() << ")";
   }
 
@@ -204,10 +205,10 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::ReturnOp op) {
     if (isa<BlockArgument>(value)) {
       suffix = ".clone()";
     }
-    if (isa<tensor::FromElementsOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<tensor::FromElementsOp>(value.getDefiningOp())) {
       suffix = ".into_iter().cloned().collect()";
     }
-    if (isa<memref::AllocOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<memref::AllocOp>(value.getDefiningOp())) {
       // MemRefs (BTreeMap<(usize, ...), Ciphertext>) must be converted to
       // Vec<Ciphertext>
       suffix = ".into_values().collect()";
@@ -232,7 +233,7 @@ void TfheRustBoolEmitter::emitAssignPrefix(Value result) {
 void TfheRustBoolEmitter::emitReferenceConversion(Value value) {
   auto tensorType = dyn_cast<TensorType>(value.getType());
 
-  if (isa<EncryptedBoolType>(tensorType.getElementType())) {
+  if (tensorType && isa<EncryptedBoolType>(tensorType.getElementType())) {
     auto varName = variableNames->getNameForValue(value);
 
     os << "let " << varName << "_ref = " << varName << ".clone();\n";
@@ -522,8 +523,9 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::FromElementsOp op) {
     // Check if block argument, if so, clone.
     const auto* cloneStr = isa<BlockArgument>(value) ? ".clone()" : "";
     // Get the name of defining operation its dialect
-    auto tfheOp =
-        value.getDefiningOp()->getDialect()->getNamespace() == "tfhe_rust_bool";
+    auto* definingOp = value.getDefiningOp();
+    auto tfheOp = definingOp &&
+                  definingOp->getDialect()->getNamespace() == "tfhe_rust_bool";
     const auto* prefix = tfheOp ? "&" : "";
     return std::string(prefix) + variableNames->getNameForValue(value) +
            cloneStr;
diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8de9c9b..7c42341 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -60,8 +60,11 @@ FailureOr<int> getRustIntegerType(int width) {
 
 FailureOr<DenseElementsAttr> getConstantGlobalData(memref::GetGlobalOp op) {
   auto module = op->getParentOfType<mlir::ModuleOp>();
-  auto globalOp =
-      dyn_cast<mlir::memref::GlobalOp>(module.lookupSymbol(op.getName()));
+  if (!module) {
+    return failure();
+  }
+  auto globalOp = dyn_cast_or_null<mlir::memref::GlobalOp>(
+      module.lookupSymbol(op.getName()));
   if (!globalOp) {
     return failure();
   }
@@ -209,6 +212,7 @@ LogicalResult TfheRustHLEmitter::printOperation(func::FuncOp funcOp) {
           }
           return result;
         });
+    if (failed(result)) return failure();
     os << "(" << result.value() << ")";
   }
 
@@ -325,6 +329,9 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
   if (auto optionalAttr = op.getValueAttr()) {
     if (auto arrayAttr = dyn_cast<ArrayAttr>(*optionalAttr)) {
       auto resultType = dyn_cast<RankedTensorType>(op.getResult().getType());
+      if (!resultType) {
+        return op.emitOpError() << "expected a tensor result for array values";
+      }
 
       std::string res = "";
 
@@ -336,6 +343,9 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
 
       for (unsigned i = 0; i < arrayAttr.size(); i++) {
         auto intAttr = dyn_cast<IntegerAttr>(arrayAttr[i]);
+        if (!intAttr) {
+          return op.emitOpError() << "expected an array of integer attributes";
+        }
 
         res.append(llvm::formatv("{0}::try_encrypt_trivial({1}u{2}).unwrap()",
                                  fheUintType, intAttr.getValue(),
@@ -663,26 +673,50 @@ LogicalResult TfheRustHLEmitter::printOperation(memref::LoadOp op) {
 }
 
 // FIXME?: This is a hack to get the index of the value
-static int extractIntFromValue(Value value) {
-  if (auto ctOp = dyn_cast<arith::ConstantOp>(value.getDefiningOp())) {
-    return cast<IntegerAttr>(ctOp.getValue()).getValue().getSExtValue();
+static FailureOr<int64_t> extractIntFromValue(Value value) {
+  if (auto ctOp = value.getDefiningOp<arith::ConstantOp>()) {
+    if (auto intAttr = dyn_cast<IntegerAttr>(ctOp.getValue())) {
+      return intAttr.getValue().getSExtValue();
+    }
+  }
+  return failure();
+}
+
+// Expands the affine map of an access to its (constant) indices.
+template <typename AffineAccessOp>
+static FailureOr<SmallVector<int64_t>> getConstantIndices(AffineAccessOp op) {
+  OpBuilder builder(op->getContext());
+  auto indices = affine::expandAffineMap(builder, op->getLoc(), op.getMap(),
+                                         op.getIndices());
+  if (!indices) {
+    return failure();
+  }
+  SmallVector<int64_t> result;
+  for (Value value : *indices) {
+    FailureOr<int64_t> index = extractIntFromValue(value);
+    if (failed(index)) {
+      return failure();
+    }
+    result.push_back(*index);
   }
-  return -1;
+  return result;
 }
 
 // Store into a BTreeMap<(usize, ...), Ciphertext>
 LogicalResult TfheRustHLEmitter::printOperation(affine::AffineStoreOp op) {
   // We assume here that the indices are SSA values (not integer attributes).
 
-  OpBuilder builder(op->getContext());
-  auto indices = affine::expandAffineMap(builder, op->getLoc(), op.getMap(),
-                                         op.getIndices());
+  auto indices = getConstantIndices(op);
+  if (failed(indices)) {
+    return op.emitOpError() << "only constant indices are supported";
+  }
 
   os << variableNames->getNameForValue(op.getMemref());
-  os << ".insert((" << commaSeparatedValues(indices.value(), [&](Value value) {
-    return std::to_string(extractIntFromValue(value)) +
-           std::string(" as usize");
-  }) << "), ";
+  os << ".insert((";
+  llvm::interleave(
+      *indices, os,
+      [&](int64_t index) { os << std::to_string(index) << " as usize"; }, ", ");
+  os << "), ";
 
   // Note: we may not need to clone all the time, but the BTreeMap stores
   // Ciphertexts, not &Ciphertexts. This is because results computed inside
@@ -696,16 +730,17 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineStoreOp op) {
 
 // Produces a &Ciphertext
 LogicalResult TfheRustHLEmitter::printOperation(affine::AffineLoadOp op) {
-  OpBuilder builder(op->getContext());
-  auto indices = affine::expandAffineMap(builder, op->getLoc(), op.getMap(),
-                                         op.getIndices());
+  auto indices = getConstantIndices(op);
+  if (failed(indices)) {
+    return op.emitOpError() << "only constant indices are supported";
+  }
 
   if (isa<BlockArgument>(op.getMemref())) {
     emitAssignPrefix(op.getResult());
 
     os << "&" << variableNames->getNameForValue(op.getMemRef());
-    for (auto value : indices.value()) {
-      os << "[" << std::to_string(extractIntFromValue(value)) << "]";
+    for (int64_t index : *indices) {
+      os << "[" << std::to_string(index) << "]";
     }
     os << ";\n";
     return success();
@@ -713,20 +748,21 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineLoadOp op) {
 
   // Treat this as a BTreeMap
   emitAssignPrefix(op.getResult());
-  os << "&" << variableNames->getNameForValue(op.getMemref()) << ".get(&("
-     << commaSeparatedValues(
-            indices.value(),
-            [&](Value value) {
-              return std::to_string(extractIntFromValue(value));
-            })
-     << ")).unwrap();\n";
+  os << "&" << variableNames->getNameForValue(op.getMemref()) << ".get(&(";
+  llvm::interleave(
+      *indices, os, [&](int64_t index) { os << std::to_string(index); }, ", ");
+  os << ")).unwrap();\n";
   return success();
 }
 
 // Use a BTreeMap<(usize, ...), Ciphertext>.
 LogicalResult TfheRustHLEmitter::printOperation(tensor::EmptyOp op) {
+  FailureOr<std::string> typeStr = convertType(op.getType());
+  if (failed(typeStr)) {
+    return op.emitOpError() << "Failed to emit type " << op.getType();
+  }
   os << "let mut " << variableNames->getNameForValue(op.getResult()) << " : "
-     << convertType(op.getType()).value();
+     << typeStr.value();
 
   std::string res = "";
 
@@ -771,9 +807,6 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::ExtractOp op) {
 
 // Need to produce a Vec<&Ciphertext>
 LogicalResult TfheRustHLEmitter::printOperation(tensor::FromElementsOp op) {
-  auto resultType = op.getResult().getType();
-  std::string res = convertType(resultType).value();
-
   emitAssignPrefix(op.getResult());
 
   std::string valueList;
-- 
2.43.0


From 0594647cac69dbe8f9596fd09008dc8e45e92ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 03/52] fix: annotate-module rejects an unknown scheme instead
 of ignoring it

---
 lib/Transforms/AnnotateModule/AnnotateModule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Transforms/AnnotateModule/AnnotateModule.cpp b/lib/Transforms/AnnotateModule/AnnotateModule.cpp
index 4690a6d..6fa593c 100644
--- a/lib/Transforms/AnnotateModule/AnnotateModule.cpp
+++ b/lib/Transforms/AnnotateModule/AnnotateModule.cpp
@@ -26,6 +26,10 @@ struct AnnotateModule : impl::AnnotateModuleBase<AnnotateModule> {
       moduleSetCKKS(module);
     } else if (scheme == "cggi") {
       moduleSetCGGI(module);
+    } else if (!scheme.empty()) {
+      module.emitError() << "Unknown scheme: " << scheme;
+      signalPassFailure();
+      return;
     }
 
     if (!backend.empty()) {
-- 
2.43.0


From 2067d87b7fb3e34152ef4923fcb119eb5a168c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 04/52] fix: target registration carries every declared
 setting, not three hard-coded ones

---
 lib/Tablegen/CompilationTargetEmitter.cpp | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/Tablegen/CompilationTargetEmitter.cpp b/lib/Tablegen/CompilationTargetEmitter.cpp
index 194fab3..3549d98 100644
--- a/lib/Tablegen/CompilationTargetEmitter.cpp
+++ b/lib/Tablegen/CompilationTargetEmitter.cpp
@@ -77,21 +77,31 @@ constexpr std::string_view kStringFieldParser = R"cpp(
 bool emitCompilationTargetRegistration(const llvm::RecordKeeper& records,
                                        llvm::raw_ostream& os) {
   auto targets = records.getAllDerivedDefinitions("CompilationTarget");
+  const llvm::Record* targetClass = records.getClass("CompilationTarget");
+  if (!targetClass) {
+    return false;
+  }
 
   for (auto* target : targets) {
     auto name = target->getName();
-    auto bootstrapLevelsConsumed =
-        target->getValueAsInt("bootstrapLevelsConsumed");
-    auto hasKernelChebyshev = target->getValueAsInt("has_kernel_chebyshev");
-    auto hasKernelLinearTransform =
-        target->getValueAsInt("has_kernel_linear_transform");
 
     os << "void registerTarget" << name << "() {\n"
        << "  "
           "CompilationTargetRegistry::registerTarget(CompilationTarget{"
           "BackendName::"
-       << name << ", " << bootstrapLevelsConsumed << ", " << hasKernelChebyshev
-       << ", " << hasKernelLinearTransform << "});\n"
+       << name;
+    // One initializer per field, in the order of the generated struct.
+    for (const auto& value : targetClass->getValues()) {
+      if (value.isTemplateArg() || value.getName() == "backendName") {
+        continue;
+      }
+      if (llvm::isa<llvm::IntRecTy>(value.getType())) {
+        os << ", " << target->getValueAsInt(value.getName());
+      } else if (llvm::isa<llvm::StringRecTy>(value.getType())) {
+        os << ", \"" << target->getValueAsString(value.getName()) << "\"";
+      }
+    }
+    os << "});\n"
        << "}\n\n";
   }
   return false;
-- 
2.43.0


From 98f0f6782e9a91fe5e868a7c69d8cb2c2d3cb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 05/52] fix: compute flattened indices in 64 bits

The helpers return int64_t but accumulated the index and the stride in an int,
which truncates positions beyond 2^31.
---
 lib/Utils/TargetUtils.cpp | 4 ++--
 lib/Utils/TensorUtils.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index c370c48..5864c0d 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -106,7 +106,7 @@ std::string flattenIndexExpressionSOP(
 
 int64_t flattenedIndex(ShapedType type, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
-  int index = valueToInt(indices[0]);
+  int64_t index = valueToInt(indices[0]);
   for (size_t i = 1; i < indices.size(); i++) {
     index = valueToInt(indices[i]) + type.getShape()[i] * index;
   }
@@ -116,7 +116,7 @@ int64_t flattenedIndex(ShapedType type, ValueRange indices,
 int64_t flattenedIndex(MemRefType memRefType, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
   const auto [strides, offset] = memRefType.getStridesAndOffset();
-  int index = offset;
+  int64_t index = offset;
   for (size_t i = 0; i < indices.size(); ++i) {
     index = index + strides[i] * valueToInt(indices[i]);
   }
diff --git a/lib/Utils/TensorUtils.cpp b/lib/Utils/TensorUtils.cpp
index 4a34bc9..0915a8d 100644
--- a/lib/Utils/TensorUtils.cpp
+++ b/lib/Utils/TensorUtils.cpp
@@ -16,8 +16,8 @@ namespace heir {
 int64_t getFlattenedIndex(RankedTensorType tensorType,
                           SmallVector<int64_t> indices) {
   auto rank = tensorType.getRank();
-  int flatIndex = 0;
-  int stride = 1;
+  int64_t flatIndex = 0;
+  int64_t stride = 1;
   for (int i = rank - 1; i >= 0; --i) {
     flatIndex += indices[i] * stride;
     stride *= tensorType.getDimSize(i);
-- 
2.43.0


From 8b136d84b30fd34c3e88f36148dbc01847d83a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 06/52] fix: row-major layout map for tensors of rank 3 and
 more

The coefficient of a dimension is the product of the sizes of all the
dimensions after it, as the comment says; only the size of the next one was
used.
---
 lib/Utils/AffineMapUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/AffineMapUtils.cpp b/lib/Utils/AffineMapUtils.cpp
index d9fa602..599de8b 100644
--- a/lib/Utils/AffineMapUtils.cpp
+++ b/lib/Utils/AffineMapUtils.cpp
@@ -67,13 +67,13 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
 
   // First construct a single expression corresponding to the "flattened"
   // row-major indexing order.
+  int64_t stride = 1;
   for (int dim = dims.size() - 1; dim >= 0; --dim) {
     // iter 1: k
     // iter 2: k + size(k) * j
     // iter 3: k + size(k) * j + size(j) * size(k) * i
-    flattened = flattened
-                    ? flattened + inputType.getDimSize(dim + 1) * dims[dim]
-                    : dims[dim];
+    flattened = flattened ? flattened + stride * dims[dim] : dims[dim];
+    stride *= inputType.getDimSize(dim);
   }
 
   // Then "unflatten" with respect to the output type's shape.
-- 
2.43.0


From 7b4642f273f080901a8af0cfd32e2eac3c0f7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 07/52] fix: count ciphertexts of a convolution result exactly

Dividing in single precision rounds the number of elements beyond 2^24 and can
come out one ciphertext short.
---
 lib/Utils/Layout/Convolution.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 74f6b86..7b09222 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -2,7 +2,6 @@
 
 #include <algorithm>
 #include <cassert>
-#include <cmath>
 #include <cstdint>
 #include <string>
 #include <vector>
@@ -12,6 +11,7 @@
 #include "lib/Utils/MathUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"      // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
@@ -680,7 +680,7 @@ presburger::IntegerRelation get1dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -737,7 +737,7 @@ presburger::IntegerRelation get2dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -768,7 +768,7 @@ presburger::IntegerRelation get2dConvRowInterchangeLayoutRelation(
   int64_t numElements = outputType.getNumElements();
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeilSigned(outputType.getNumElements(), minSlotCount);
 
   int64_t paddedSize =
       isPowerOfTwo(numElements) ? numElements : nextPowerOfTwo(numElements);
-- 
2.43.0


From 8b717ba9beda31bbc45e3df222f9f466f0ec3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 08/52] fix: flattened index of a rank-0 container is 0

---
 lib/Utils/TargetUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index 5864c0d..43521b8 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -68,6 +68,8 @@ std::string bracketEnclosedValues(
 
 std::string flattenIndexExpression(ArrayRef<std::string> shape,
                                    ArrayRef<std::string> indexStrings) {
+  // A rank-0 container has a single element.
+  if (indexStrings.empty()) return "0";
   std::string accum = llvm::formatv("{0}", indexStrings[0]);
   for (size_t i = 1; i < indexStrings.size(); ++i) {
     accum =
@@ -106,6 +108,8 @@ std::string flattenIndexExpressionSOP(
 
 int64_t flattenedIndex(ShapedType type, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
+  // A rank-0 container has a single element.
+  if (indices.empty()) return 0;
   int64_t index = valueToInt(indices[0]);
   for (size_t i = 1; i < indices.size(); i++) {
     index = valueToInt(indices[i]) + type.getShape()[i] * index;
-- 
2.43.0


From a8b9837c088566d2eada155ba4a231b957a8b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 09/52] fix: slice index coefficients are computed in 64 bits

---
 lib/Utils/Layout/Hoisting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index fa580cc..a8e01ff 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -155,7 +155,7 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   // Create a relation mapping the new unit dimensions to a new range variable r
   // that represents the index into each (ct, slot) per slice.
   SmallVector<int64_t> newRangeCoeffs(resultLayout->getNumCols(), 0);
-  unsigned product = 1;
+  int64_t product = 1;
   for (auto dim : unitDims) {
     newRangeCoeffs[dim] = product;
     product *= resultShape[dim];
-- 
2.43.0


From b067dd7c2ca956d0f92661be1c16f4a80aeaae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 10/52] fix: count rotations of loop-carried ciphertexts and of
 partial loop strides

---
 lib/Kernel/RotationCountVisitor.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/Kernel/RotationCountVisitor.cpp b/lib/Kernel/RotationCountVisitor.cpp
index 600fbb3..0ba28e9 100644
--- a/lib/Kernel/RotationCountVisitor.cpp
+++ b/lib/Kernel/RotationCountVisitor.cpp
@@ -255,18 +255,35 @@ int64_t RotationCountVisitor::operator()(
     initIsSecret = initIsSecret || nodeSecretStatus[init.get()];
   }
 
-  // Process the body if it exists
+  // Process the body if it exists. A loop-carried value is secret if any
+  // initial value or anything the body yields is secret, so a body found to
+  // yield a secret value is processed again with secret loop-carried values.
   int64_t bodyCount = 0;
+  bool bodyIsSecret = false;
   if (node.body) {
-    bodyCount = processInternal(node.body);
+    auto visitedBeforeBody = visitedNodes;
+    auto processBody = [&](bool iterArgsAreSecret) {
+      for (const auto& iterArg : node.iterArgs) {
+        visitedNodes.insert(iterArg.get());
+        nodeSecretStatus[iterArg.get()] = iterArgsAreSecret;
+      }
+      bodyCount = processInternal(node.body);
+      bodyIsSecret = nodeSecretStatus[node.body.get()];
+    };
+    processBody(initIsSecret);
+    if (bodyIsSecret && !initIsSecret && !node.iterArgs.empty()) {
+      visitedNodes = visitedBeforeBody;
+      processBody(true);
+    }
   }
 
   // A loop's secret status is determined by its init and body
-  bool bodyIsSecret = node.body ? nodeSecretStatus[node.body.get()] : false;
   nodeSecretStatus[thisNode] = initIsSecret || bodyIsSecret;
 
   // Total rotations = init + body rotations * number of iterations
-  return initCount + bodyCount * ((node.upper - node.lower) / node.step);
+  int64_t span = static_cast<int64_t>(node.upper) - node.lower;
+  int64_t numIterations = span > 0 ? (span + node.step - 1) / node.step : 0;
+  return initCount + bodyCount * numIterations;
 }
 
 int64_t RotationCountVisitor::operator()(const SplatNode& node) {
-- 
2.43.0


From 447264e4d6d5a34c591b4617cf53cc4f47307304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 11/52] fix: floor division of kernel index arithmetic rounds
 down and accepts vectors and zero

---
 lib/Kernel/EvalVisitor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..597c35d 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -14,6 +14,7 @@
 #include "lib/Utils/RotationUtils.h"
 #include "llvm/include/llvm/Support/Debug.h"     // from @llvm-project
 #include "llvm/include/llvm/Support/DebugLog.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"      // from @llvm-project
 
 #define DEBUG_TYPE "eval-visitor"
@@ -139,8 +140,9 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
-    return {LiteralValue(*lScalar / node.divisor)};
+  if (lScalar) {
+    return {LiteralValue(static_cast<int>(
+        llvm::divideFloorSigned(*lScalar, node.divisor)))};
   }
 
   // Vector case
@@ -149,7 +151,8 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
   assert(lVec && "unsupported floorDiv operands");
   std::vector<int> result(dim);
   for (size_t i = 0; i < dim; ++i) {
-    result[i] = (*lVec)[i] / node.divisor;
+    result[i] =
+        static_cast<int>(llvm::divideFloorSigned((*lVec)[i], node.divisor));
   }
   return {result};
 }
-- 
2.43.0


From 87a31f3baf5ba987248001d0cde8051d6b98be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 12/52] fix: trial division and 2n-th root search no longer
 wrap for large arguments

factorize compared d * d with the number in 64 bits, which wraps for primes
above (2^32 - 1)^2 so that the loop did not end; findPrimitive2nthRoot
truncated 2n to 64 bits and to the modulus's width and returned a root of a
different order.
---
 lib/Utils/APIntUtils.cpp | 3 ++-
 lib/Utils/MathUtils.cpp  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index 96546d3..bf69a14 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -120,7 +120,8 @@ std::vector<APInt> factorize(APInt n) {
   // Fast path for 64-bit integers or smaller
   if (n.getActiveBits() <= 64) {
     uint64_t val = n.getZExtValue();
-    for (uint64_t d = 2; d * d <= val; ++d) {
+    // Compare with the quotient: d * d wraps for primes above (2^32 - 1)^2.
+    for (uint64_t d = 2; d <= val / d; ++d) {
       if (val % d == 0) {
         factors.push_back(APInt(width, d));
         while (val % d == 0) {
diff --git a/lib/Utils/MathUtils.cpp b/lib/Utils/MathUtils.cpp
index 9c3736d..04d8b0c 100644
--- a/lib/Utils/MathUtils.cpp
+++ b/lib/Utils/MathUtils.cpp
@@ -92,8 +92,10 @@ std::optional<APInt> findPrimitiveRoot(const APInt& q) {
 /// calculates r = g^((q-1)/2n) mod q. Since g has order q-1, the resulting
 /// r is guaranteed to be a primitive 2n-th root of unity.
 std::optional<APInt> findPrimitive2nthRoot(const APInt& q, uint64_t n) {
-  uint64_t two_n = 2 * n;
-  APInt two_n_ap(q.getBitWidth(), two_n);
+  // 2n divides q - 1 only if it is at most q - 1; larger orders (including
+  // those that do not fit in 64 bits or in q's width) have no root.
+  if (n == 0 || q.udiv(2).ult(n)) return std::nullopt;
+  APInt two_n_ap = APInt(q.getBitWidth(), n).shl(1);
   if (!q.urem(two_n_ap).isOne()) {
     // 2n must divide q - 1, which means q % 2n == 1
     return std::nullopt;
-- 
2.43.0


From ed6b2c797ab09e3ebc2e9f49de61b9b303d1d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 13/52] fix: run_pipeline no longer changes the caller's
 options or reads unset variables on error paths

---
 frontend/heir/pipeline.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index a8ad936..c28f9c6 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -76,6 +76,7 @@ def run_pipeline(
 
     # If it's a python function, parse it via Numba/etc
     mlir_raw_textual = ""
+    numba_ir = None
     if isinstance(function_or_mlir_str, Callable):
       numba_ir = compiler.run_frontend(function_or_mlir_str)
       if not isinstance(numba_ir, FunctionIR):
@@ -202,9 +203,10 @@ def run_pipeline(
         f.write(graph)
 
     # Run heir_opt
-    heir_opt_options.append(
-        "--mlir-print-debuginfo"
-    )  # to preserve location info
+    heir_opt_options = [
+        *heir_opt_options,
+        "--mlir-print-debuginfo",  # to preserve location info
+    ]
     if debug:
       heir_opt_options.append("--view-op-graph")
       DebugMessage(f"Running heir-opt {' '.join(heir_opt_options)}")
@@ -241,10 +243,10 @@ def run_pipeline(
     if any(
         opt.startswith("--mlir-to-cggi") for opt in heir_opt_options
     ) and not isinstance(backend, CleartextBackend):
-      raise NotImplementedError(
-          "Backend compilation is unsupported for CGGI scheme, check CGGI"
-          f" output at {mlirpath}"
-      )
+      message = "Backend compilation is unsupported for CGGI scheme"
+      if debug:
+        message += f", check CGGI output at {mlirpath}"
+      raise NotImplementedError(message)
 
     result = backend.run_backend(
         workspace_dir,
-- 
2.43.0


From f7e69a4e56a3214107bcb1e456a540fcf59a1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 14/52] fix: accept MLIR functions without (secret) arguments
 in the function info

---
 frontend/heir/pipeline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index c28f9c6..7d7ff37 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -165,9 +165,12 @@ def run_pipeline(
             input=generic_mlir,
             options=["--emit-function-info", "--allow-unregistered-dialect"],
         )
-        func_name = func_info_str.splitlines()[0]
-        arg_names = func_info_str.splitlines()[1].split(", ")
-        secret_args = list(map(int, func_info_str.splitlines()[2].split(", ")))
+        func_name, arg_line, secret_line = func_info_str.splitlines()[:3]
+        # A line is empty if there are no (secret) arguments.
+        arg_names = arg_line.split(", ") if arg_line else []
+        secret_args = (
+            [int(i) for i in secret_line.split(", ")] if secret_line else []
+        )
       except CLIError as e:
         raise CompilerError(
             f"Failed to get function info from MLIR string: {e.stderr}",
-- 
2.43.0


From 0b55a25604324cfc57fa1a6737946e0716664251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 15/52] fix: do not shell-quote include and library paths that
 go into an argument list

---
 frontend/heir/backends/util/pybind_helpers.py | 35 +++----------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/frontend/heir/backends/util/pybind_helpers.py b/frontend/heir/backends/util/pybind_helpers.py
index 1b90676..79cbe52 100644
--- a/frontend/heir/backends/util/pybind_helpers.py
+++ b/frontend/heir/backends/util/pybind_helpers.py
@@ -12,41 +12,16 @@ steps
 - pybind11_includes: $(python3 -m pybind11 --includes)
 - pyconfig_ext_suffix: $(python3-config --extension-suffix)
 
-To support this, two functions quote and get_include are forked from pybind11.
-because Google's internal version of pybind doesn't provide access to the python
-package.
+To support this, the function get_include is forked from pybind11, because
+Google's internal version of pybind doesn't provide access to the python package.
+The paths are not shell-quoted: they become elements of an argument list.
 """
 
 import os
-import re
 import sys
 import sysconfig
 
 
-# This is the conditional used for os.path being posixpath
-if "posix" in sys.builtin_module_names:
-  from shlex import quote
-elif "nt" in sys.builtin_module_names:
-  # See https://github.com/mesonbuild/meson/blob/db22551ed9d2dd7889abea01cc1c7bba02bf1c75/mesonbuild/utils/universal.py#L1092-L1121
-  # and the original documents:
-  # https://docs.microsoft.com/en-us/cpp/c-language/parsing-c-command-line-arguments and
-  # https://blogs.msdn.microsoft.com/twistylittlepassagesallalike/2011/04/23/everyone-quotes-command-line-arguments-the-wrong-way/
-  UNSAFE = re.compile("[ \t\n\r]")
-
-  def quote(s: str) -> str:
-    if s and not UNSAFE.search(s):
-      return s
-
-    # Paths cannot contain a '"' on Windows, so we don't need to worry
-    # about nuanced counting here.
-    return f'"{s}\\"' if s.endswith("\\") else f'"{s}"'
-
-else:
-
-  def quote(s: str) -> str:
-    return s
-
-
 # Forked from pybind11 because the only implementation prints the values
 # immediately.
 def pybind11_includes() -> list[str]:
@@ -82,7 +57,7 @@ def pybind11_includes() -> list[str]:
     if d and d not in unique_dirs:
       unique_dirs.append(d)
 
-  return [quote(d) for d in unique_dirs]
+  return unique_dirs
 
 
 def pybind11_libs() -> str:
@@ -95,7 +70,7 @@ def pybind11_libs() -> str:
   py_lib_dir = os.path.dirname(sysconfig.get_path("stdlib"))
   if py_lib_dir:
     dirs.append(py_lib_dir)
-  return [quote(d) for d in dirs]
+  return [d for d in dirs if d]
 
 
 def python_link_libs() -> list[str]:
-- 
2.43.0


From fe68b5c47bcaa294b3b5f2075034d9c2c39978b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 16/52] fix: emit boolean and exponent-form constants in MLIR's
 syntax

`arith.constant True` and `arith.constant 1e-05` are not MLIR literals.
---
 frontend/heir/mlir_emitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6381250..2483e56 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -562,8 +562,16 @@ class TextualMlirEmitter:
         self.forward_name(from_var=assign.target, to_var=assign.value.value)
         return ""
       case ir.Const():
+        value = assign.value.value
+        if isinstance(value, bool):
+          value = str(value).lower()
+        elif isinstance(value, float):
+          # MLIR wants a decimal point also before an exponent: 1.0e-05
+          mantissa, e, exponent = repr(value).partition("e")
+          if e and "." not in mantissa:
+            value = f"{mantissa}.0e{exponent}"
         expr = (
-            f"arith.constant {assign.value.value} :"
+            f"arith.constant {value} :"
             f" {mlirType(self.typemap.get(assign.target.name))}"
             f" {mlirLoc(assign.loc)}"
         )
-- 
2.43.0


From 42eb53b2f0b565f77e228ca45c1be4bdeebd3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 17/52] fix: booleans are extended without sign, and casts to
 and from floats work

True became -1 when widened. isFloatLike named types that do not exist
(AttributeError), and the float casts asked mlirType for an MLIRType.
---
 frontend/heir/mlir_emitter.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 2483e56..f47de12 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -11,7 +11,7 @@ from numba.core import bytecode
 from numba.core import controlflow
 import numba.core.types as nt
 
-from heir.mlir import I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
+from heir.mlir import F32, F64, I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
 from heir.interfaces import CompilerError, InternalCompilerError
 
 NumbaType = nt.Type
@@ -53,7 +53,7 @@ def isIntegerLike(typ: NumbaType | MLIRType) -> bool:
 
 def isFloatLike(typ: NumbaType | MLIRType) -> bool:
   match typ:
-    case nt.F32 | nt.F64 | nt.Float():
+    case F32() | F64() | nt.Float():
       return True
     case MLIRType() | nt.Type():
       return False
@@ -79,6 +79,12 @@ def getBitwidth(typ: NumbaType | MLIRType) -> int:
       )
 
 
+def extOp(from_type: NumbaType) -> str:
+  """The operation that extends an integer of the given type."""
+  # True is 1 and not -1, so a boolean must not be sign-extended.
+  return "arith.extui" if mlirType(from_type) == "i1" else "arith.extsi"
+
+
 def mlirCastOp(
     from_type: NumbaType, to_type: MLIRType, value: str, loc: ir.Loc
 ) -> str:
@@ -87,8 +93,8 @@ def mlirCastOp(
     to_width = getBitwidth(to_type.numba_type())
     if from_width == to_width:
       raise CompilerError(
-          f"Cannot create cast of {value} from {from_type} to {to_type} as they"
-          " have the same bitwidth",
+          f"Cannot create cast of {value} from {from_type} to"
+          f" {to_type.mlir_type()} as they have the same bitwidth",
           loc,
       )
     if from_width > to_width:
@@ -98,21 +104,24 @@ def mlirCastOp(
       )
     if from_width < to_width:
       return (
-          f"arith.extsi {value} : {mlirType(from_type)} to"
+          f"{extOp(from_type)} {value} : {mlirType(from_type)} to"
           f" {to_type.mlir_type()} {mlirLoc(loc)}"
       )
   if isFloatLike(from_type) and isIntegerLike(to_type):
+    op = "arith.fptoui" if to_type.mlir_type() == "i1" else "arith.fptosi"
     return (
-        f"arith.fptosi {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f"{op} {value} : {mlirType(from_type)} to"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   if isIntegerLike(from_type) and isFloatLike(to_type):
+    op = "arith.uitofp" if mlirType(from_type) == "i1" else "arith.sitofp"
     return (
-        f"arith.sitofp {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f"{op} {value} : {mlirType(from_type)} to"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   raise CompilerError(
-      f"Encountered unsupported cast of {value} from {from_type} to {to_type}",
+      f"Encountered unsupported cast of {value} from {from_type} to"
+      f" {to_type.mlir_type()}",
       loc,
   )
 
@@ -622,7 +631,7 @@ class TextualMlirEmitter:
 
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(short)} : "
+        f"{tmp} = {extOp(self.typemap.get(str(short)))} {self.get_name(short)} : "
         f"{mlirType(self.typemap.get(str(short)))} "
         f"to {mlirType(self.typemap.get(str(long)))} "
         f"{mlirLoc(short.loc)}\n"
-- 
2.43.0


From 3709963a8f29bdc8c8a32f1b73d66d6630e25347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 18/52] fix: comparisons and operands of mixed widths in the
 front-end

The boolean result type of a comparison was taken for its operation type, so
integer and float comparisons were rejected; booleans were compared as signed;
`one` is false for NaN where != is true. When both operands are extended to a
wider result, each is now extended from its own type.
---
 frontend/heir/mlir_emitter.py | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index f47de12..a175223 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -145,6 +145,16 @@ def arithSuffix(numba_type: NumbaType) -> str:
       raise InternalCompilerError("Unsupported type: " + str(numba_type))
 
 
+COMPARISONS = (
+    operator.lt,
+    operator.le,
+    operator.gt,
+    operator.ge,
+    operator.eq,
+    operator.ne,
+)
+
+
 class HeaderInfo:
   """
   Header info provides info from a loop's header block
@@ -657,14 +667,19 @@ class TextualMlirEmitter:
       )
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(value)} : "
+        f"{tmp} = {extOp(from_type)} {self.get_name(value)} : "
         f"{mlirType(from_type)} to {mlirType(to_type)} "
         f"{mlirLoc(value.loc)}\n"
     )
     return tmp, ext
 
   def emit_binop(self, binop, result_type=None):
-    base_type = result_type or self.typemap.get(str(binop.lhs))
+    lhs_type = self.typemap.get(str(binop.lhs))
+    rhs_type = self.typemap.get(str(binop.rhs))
+    if binop.fn in COMPARISONS:
+      # The result is a bool, but the operation is one on the operands' type.
+      result_type = None
+    base_type = result_type or lhs_type
     # This should be the same, otherwise MLIR will complain
     suffix = arithSuffix(base_type)
 
@@ -678,23 +693,31 @@ class TextualMlirEmitter:
             f"Result type {result_type} is narrower than operands {ty}."
         )
       if result_bw > ty_bw:
-        lhs_ssa, lhs_ext = self.emit_ext_to_type(binop.lhs, ty, result_type)
-        rhs_ssa, rhs_ext = self.emit_ext_to_type(binop.rhs, ty, result_type)
-        ext = f"{ext}{lhs_ext}{rhs_ext}"
+        # Extend each operand from its own type, in place of the extension above.
+        lhs_ssa, lhs_ext = self.emit_ext_to_type(
+            binop.lhs, lhs_type, result_type
+        )
+        rhs_ssa, rhs_ext = self.emit_ext_to_type(
+            binop.rhs, rhs_type, result_type
+        )
+        ext = f"{lhs_ext}{rhs_ext}"
         ty = result_type
 
+    # A bool is an unsigned integer, all other integers are signed.
+    element = ty.dtype if isinstance(ty, nt.Array) else ty
+    sign = "u" if mlirType(element) == "i1" else "s"
     match binop.fn:
       case operator.lt:
-        pred = "olt" if suffix == "f" else "slt"
+        pred = "olt" if suffix == "f" else f"{sign}lt"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.ge:
-        pred = "oge" if suffix == "f" else "sge"
+        pred = "oge" if suffix == "f" else f"{sign}ge"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.eq:
         pred = "oeq" if suffix == "f" else "eq"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.ne:
-        pred = "one" if suffix == "f" else "ne"
+        pred = "une" if suffix == "f" else "ne"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.add:
         return f"arith.add{suffix} {lhs_ssa}, {rhs_ssa}", ext, ty
-- 
2.43.0


From d08abee4faa8f6bea9cb985840e36ccb5ca7a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 19/52] fix: TfheRust, TfheRustBool: reject loops that cannot
 be emitted and print bodies once

---
 lib/Target/TfheRust/TfheRustEmitter.cpp       |  9 ++++++--
 .../TfheRustBool/TfheRustBoolEmitter.cpp      | 21 ++++++++-----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index fd02106..a3560c5 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -244,9 +244,9 @@ LogicalResult TfheRustEmitter::translate(Operation& op) {
           .Case<affine::AffineForOp>(
               [&](auto op) { return printOperation(op); })
           .Case<affine::AffineYieldOp>([&](auto op) -> LogicalResult {
-            if (op->getNumResults() != 0) {
+            if (op->getNumOperands() != 0) {
               return op.emitOpError()
-                     << "AffineYieldOp has non-zero number of results";
+                     << "AffineYieldOp has non-zero number of operands";
             }
             return success();
           })
@@ -521,6 +521,11 @@ std::string TfheRustEmitter::operationType(Operation* op) {
 }
 
 LogicalResult TfheRustEmitter::printOperation(affine::AffineForOp forOp) {
+  if (!forOp.hasConstantBounds() || forOp.getStepAsInt() != 1 ||
+      !forOp.getInits().empty()) {
+    return forOp.emitOpError() << "only loops with constant bounds, step 1 and "
+                                  "no iter args are supported";
+  }
   os << "for " << variableNames->getNameForValue(forOp.getInductionVar())
      << " in " << forOp.getConstantLowerBound() << ".."
      << forOp.getConstantUpperBound() << " {\n";
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index f49fd19..629977b 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -342,23 +342,20 @@ LogicalResult TfheRustBoolEmitter::printOperation(CreateTrivialOp op) {
 }
 
 LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineForOp op) {
-  if (op.getStepAsInt() > 1) {
-    return op.emitOpError() << "AffineForOp has step > 1";
+  if (!op.hasConstantBounds() || op.getStepAsInt() != 1 ||
+      !op.getInits().empty()) {
+    return op.emitOpError() << "only loops with constant bounds, step 1 and no "
+                               "iter args are supported";
   }
   os << "for " << variableNames->getNameForValue(op.getInductionVar()) << " in "
      << op.getConstantLowerBound() << ".." << op.getConstantUpperBound()
      << " {\n";
   os.indent();
 
-  auto res = op.getBody()->walk([&](Operation* op) {
-    if (failed(translate(*op))) {
-      return WalkResult::interrupt();
+  for (Operation& bodyOp : op.getBody()->getOperations()) {
+    if (failed(translate(bodyOp))) {
+      return failure();
     }
-    return WalkResult::advance();
-  });
-
-  if (res.wasInterrupted()) {
-    return failure();
   }
 
   os.unindent();
@@ -367,8 +364,8 @@ LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineForOp op) {
 }
 
 LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineYieldOp op) {
-  if (op->getNumResults() != 0) {
-    return op.emitOpError() << "AffineYieldOp has non-zero number of results";
+  if (op->getNumOperands() != 0) {
+    return op.emitOpError() << "AffineYieldOp has non-zero number of operands";
   }
   return success();
 }
-- 
2.43.0


From a81beefbbfc64cc753eaa79855e3430504e379de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 20/52] fix: TfheRustHL: bind and yield every value a loop
 carries

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 34 +++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 7c42341..81632d1 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -390,6 +390,9 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
   if (op.getStepAsInt() > 1) {
     return op.emitOpError() << "AffineForOp has step > 1";
   }
+  if (!op.hasConstantBounds()) {
+    return op.emitOpError() << "AffineForOp has non-constant bounds";
+  }
 
   auto* suffix = "}\n";
 
@@ -397,7 +400,16 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
   if (!op.getInits().empty()) {
     suffix = " });\n";
 
-    emitAssignPrefix(op->getResult(0));
+    if (op->getNumResults() == 1) {
+      emitAssignPrefix(op->getResult(0));
+    } else {
+      os << "let ("
+         << commaSeparatedValues(op->getResults(),
+                                 [&](Value value) {
+                                   return variableNames->getNameForValue(value);
+                                 })
+         << ") = ";
+    }
 
     os << "(" << op.getConstantLowerBound() << ".."
        << op.getConstantUpperBound() << ")" << ".fold(";
@@ -412,10 +424,11 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
                                  [&](Value value) {
                                    return variableNames->getNameForValue(value);
                                  })
-         << "), |mut ("
+         << "), |("
          << commaSeparatedValues(op.getRegionIterArgs(),
                                  [&](Value value) {
-                                   return variableNames->getNameForValue(value);
+                                   return "mut " +
+                                          variableNames->getNameForValue(value);
                                  })
          << "), ";
     }
@@ -442,12 +455,21 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
 }
 
 LogicalResult TfheRustHLEmitter::printOperation(affine::AffineYieldOp op) {
-  if (op->getNumResults() != 0) {
-    return op.emitOpError() << "AffineYieldOp has non-zero number of results";
+  if (op->getNumOperands() == 0) {
+    return success();
   }
 
-  os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
+  if (op->getNumOperands() == 1) {
+    os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
+    return success();
+  }
 
+  os << "("
+     << commaSeparatedValues(op->getOperands(),
+                             [&](Value value) {
+                               return variableNames->getNameForValue(value);
+                             })
+     << ")\n";
   return success();
 }
 
-- 
2.43.0


From 4abc346dbedc84ff12405c1b00d3313c7051f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 21/52] fix: TfheRustHL: separate call arguments by position
 and bind every result

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 22 ++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 81632d1..dd1cf62 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -273,19 +273,27 @@ LogicalResult TfheRustHLEmitter::printOperation(func::ReturnOp op) {
 }
 
 LogicalResult TfheRustHLEmitter::printOperation(func::CallOp op) {
-  os << "let " << variableNames->getNameForValue(op->getResult(0)) << " = ";
+  if (op->getNumResults() == 1) {
+    emitAssignPrefix(op->getResult(0));
+  } else if (op->getNumResults() > 1) {
+    os << "let ("
+       << commaSeparatedValues(op->getResults(),
+                               [&](Value value) {
+                                 return variableNames->getNameForValue(value);
+                               })
+       << ") = ";
+  }
 
   os << op.getCallee() << "(";
+  SmallVector<Value> args;
   for (Value arg : op->getOperands()) {
     if (!isa<tfhe_rust::ServerKeyType>(arg.getType())) {
-      auto argName = variableNames->getNameForValue(arg);
-      if (op.getOperands().back() == arg) {
-        os << "&" << argName;
-      } else {
-        os << "&" << argName << ", ";
-      }
+      args.push_back(arg);
     }
   }
+  os << commaSeparatedValues(args, [&](Value value) {
+    return "&" + variableNames->getNameForValue(value);
+  });
 
   os << "); \n";
   return success();
-- 
2.43.0


From 3a5976500fcf65619da9dab7af19aece55996fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 22/52] fix: TfheRustHL: nest array literals by the shape of
 the tensor

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 63 +++++++++++----------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index dd1cf62..1244f16 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -76,6 +76,25 @@ FailureOr<DenseElementsAttr> getConstantGlobalData(memref::GetGlobalOp op) {
   return cstAttr;
 }
 
+// Groups the row-major list of elements into nested array literals of the
+// given shape.
+std::string nestedArrayLiteral(std::vector<std::string> layer,
+                               ArrayRef<int64_t> shape) {
+  for (int64_t dimSize : llvm::reverse(shape)) {
+    std::vector<std::string> nextLayer;
+    for (size_t i = 0; i < layer.size(); i += dimSize) {
+      std::string group;
+      for (int64_t j = 0; j < dimSize; ++j) {
+        if (j > 0) group += ", ";
+        group += layer[i + j];
+      }
+      nextLayer.push_back("[" + group + "]");
+    }
+    layer = std::move(nextLayer);
+  }
+  return layer.empty() ? "[]" : layer[0];
+}
+
 }  // namespace
 
 // Global Variable
@@ -341,9 +360,7 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
         return op.emitOpError() << "expected a tensor result for array values";
       }
 
-      std::string res = "";
-
-      // os << "[";
+      std::vector<std::string> values;
 
       std::string fheUintType =
           "FheUint" +
@@ -355,22 +372,16 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
           return op.emitOpError() << "expected an array of integer attributes";
         }
 
-        res.append(llvm::formatv("{0}::try_encrypt_trivial({1}u{2}).unwrap()",
-                                 fheUintType, intAttr.getValue(),
-                                 getRustIntegerType(
-                                     intAttr.getType().getIntOrFloatBitWidth()))
-                       .str());
-
-        if (i != arrayAttr.size() - 1) {
-          res.append(", ");
-        }
+        values.push_back(
+            llvm::formatv("{0}::try_encrypt_trivial({1}u{2}).unwrap()",
+                          fheUintType, intAttr.getValue(),
+                          getRustIntegerType(
+                              intAttr.getType().getIntOrFloatBitWidth()))
+                .str());
       }
 
-      for (auto i = 0; i < resultType.getShape().size(); i++) {
-        res = llvm::formatv("[{0}]", res);
-      }
-
-      os << res << ";\n ";
+      os << nestedArrayLiteral(std::move(values), resultType.getShape())
+         << ";\n ";
       return success();
 
     } else if (auto intAttr = dyn_cast<IntegerAttr>(*optionalAttr)) {
@@ -839,22 +850,16 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::ExtractOp op) {
 LogicalResult TfheRustHLEmitter::printOperation(tensor::FromElementsOp op) {
   emitAssignPrefix(op.getResult());
 
-  std::string valueList;
+  std::vector<std::string> values;
 
   for (int i = 0; i < op.getNumOperands(); i++) {
-    valueList = llvm::formatv("{0}{1}.clone()", valueList,
-                              variableNames->getNameForValue(op.getOperand(i)));
-
-    if (i != op->getNumOperands() - 1) {
-      valueList = llvm::formatv("{0}, ", valueList);
-    }
+    values.push_back(variableNames->getNameForValue(op.getOperand(i)) +
+                     ".clone()");
   }
 
-  for (int i = 0; i < op.getResult().getType().getShape().size(); i++) {
-    valueList = llvm::formatv("[{0}]", valueList);
-  }
-
-  os << valueList << ";\n";
+  os << nestedArrayLiteral(std::move(values),
+                           op.getResult().getType().getShape())
+     << ";\n";
   return success();
 }
 
-- 
2.43.0


From 6f8251a94faee63b3a676128c5668af9a9286d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 23/52] fix: TfheRustHL: emit well-formed empty tensors of
 every rank and element type

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 1244f16..3672f3c 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -808,18 +808,23 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::EmptyOp op) {
   std::string res = "";
 
   if (getTfheRustBitWidth(op.getType().getElementType()) != -1) {
-    os << " = std::array::from_fn(|_| Ciphertext::try_encrypt_trivial(0u"
-       << getRustIntegerType(getTfheRustBitWidth(op.getType().getElementType()))
-       << ").unwrap());\n";
+    res = llvm::formatv(
+        "{0}::try_encrypt_trivial(0u{1}).unwrap()",
+        convertType(op.getType().getElementType()),
+        getRustIntegerType(getTfheRustBitWidth(op.getType().getElementType())));
+    for ([[maybe_unused]] int64_t dim : op.getType().getShape()) {
+      res = llvm::formatv("std::array::from_fn(|_| {0})", res);
+    }
+    os << " = " << res << ";\n";
 
     return success();
   } else if (isa<IntegerType>(op.getType().getElementType()) &&
              op.getType().getElementType().getIntOrFloatBitWidth() == 1) {
-    res = "false;";
+    res = "false";
   } else if (isa<IntegerType>(op.getType().getElementType())) {
     res = llvm::formatv(
-        "0u{0} ;", getRustIntegerType(
-                       op.getType().getElementType().getIntOrFloatBitWidth()));
+        "0u{0}", getRustIntegerType(
+                     op.getType().getElementType().getIntOrFloatBitWidth()));
   } else {
     return op.emitOpError()
            << "Failed to emit empty tensor for type " << op.getType();
@@ -829,7 +834,7 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::EmptyOp op) {
     res = llvm::formatv("[{0}; {1}]", res, dim);
   }
 
-  os << " = " << res << "\n";
+  os << " = " << res << ";\n";
 
   return success();
 }
-- 
2.43.0


From ebe8f405b9c9f2bef76eaf798ad1dae41c23c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 24/52] fix: TfheRustHL: print constants as the unsigned values
 they stand for

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 46 ++++++++++++++-------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 3672f3c..38c229f 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -76,6 +76,14 @@ FailureOr<DenseElementsAttr> getConstantGlobalData(memref::GetGlobalOp op) {
   return cstAttr;
 }
 
+// TODO(#1303): Add signed integer support to HL Emitter
+// By default, integers are emitted as unsigned, so print the bit pattern.
+std::string unsignedLiteral(const APInt& value) {
+  llvm::SmallString<40> s;
+  value.toStringUnsigned(s, 10);
+  return std::string(s);
+}
+
 // Groups the row-major list of elements into nested array literals of the
 // given shape.
 std::string nestedArrayLiteral(std::vector<std::string> layer,
@@ -374,7 +382,7 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
 
         values.push_back(
             llvm::formatv("{0}::try_encrypt_trivial({1}u{2}).unwrap()",
-                          fheUintType, intAttr.getValue(),
+                          fheUintType, unsignedLiteral(intAttr.getValue()),
                           getRustIntegerType(
                               intAttr.getType().getIntOrFloatBitWidth()))
                 .str());
@@ -386,9 +394,11 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
 
     } else if (auto intAttr = dyn_cast<IntegerAttr>(*optionalAttr)) {
       os << "FheUint" << getTfheRustBitWidth(op.getResult().getType())
-         << "::try_encrypt_trivial(" << intAttr.getValue() << "u"
+         << "::try_encrypt_trivial(" << unsignedLiteral(intAttr.getValue())
+         << "u"
          << getRustIntegerType(intAttr.getType().getIntOrFloatBitWidth());
       os << ").unwrap();\n";
+      return success();
     }
   } else {
     os << "FheUint" << getTfheRustBitWidth(op.getResult().getType())
@@ -503,14 +513,13 @@ LogicalResult TfheRustHLEmitter::printOperation(arith::ConstantOp op) {
     return success();
   }
 
-  // TODO(#1303): Add signed integer support to HL Emitter
-  // By default, it emits an unsigned integer.
-  emitAssignPrefix(op.getResult());
-  if (auto intAttr = dyn_cast<IntegerAttr>(valueAttr)) {
-    os << intAttr.getValue().abs() << convertType(op.getType()) << ";\n";
-  } else {
-    return op.emitError() << "Unknown constant type " << valueAttr.getType();
+  auto intAttr = dyn_cast<IntegerAttr>(valueAttr);
+  auto typeStr = convertType(op.getType());
+  if (!intAttr || failed(typeStr)) {
+    return op.emitError() << "Unknown constant type " << op.getType();
   }
+  emitAssignPrefix(op.getResult());
+  os << unsignedLiteral(intAttr.getValue()) << typeStr.value() << ";\n";
   return success();
 }
 
@@ -534,11 +543,13 @@ LogicalResult TfheRustHLEmitter::printBinaryOp(::mlir::Value result,
     auto lhsType = dyn_cast<RankedTensorType>(lhs.getType());
     auto rhsType = dyn_cast<RankedTensorType>(rhs.getType());
 
-    if (lhsType.getShape() != rhsType.getShape()) {
+    auto resultTypeStr = convertType(result.getType());
+    if (lhsType.getShape() != rhsType.getShape() || lhsType.getRank() != 1 ||
+        failed(resultTypeStr)) {
       return failure();
     }
     os << "let " << variableNames->getNameForValue(result) << " : "
-       << convertType(result.getType()) << " = ";
+       << resultTypeStr.value() << " = ";
 
     os << "core::array::from_fn(|i| { \n \t"
        << variableNames->getNameForValue(lhs) << "[i].clone() " << op << " "
@@ -551,11 +562,16 @@ LogicalResult TfheRustHLEmitter::printBinaryOp(::mlir::Value result,
 
   if (auto cteOp =
           dyn_cast_or_null<mlir::arith::ConstantOp>(rhs.getDefiningOp())) {
-    auto intValue =
-        cast<IntegerAttr>(cteOp.getValue()).getValue().getZExtValue();
+    auto intAttr = dyn_cast<IntegerAttr>(cteOp.getValue());
+    auto typeStr = convertType(cteOp.getType());
+    if (!intAttr || failed(typeStr)) return failure();
     os << checkOrigin(lhs) << variableNames->getNameForValue(lhs) << " " << op
-       << " " << intValue << "u" << cteOp.getType().getIntOrFloatBitWidth()
-       << ";\n";
+       << " ";
+    if (cteOp.getType().isInteger(1)) {
+      os << (intAttr.getValue().isZero() ? "false" : "true") << ";\n";
+    } else {
+      os << unsignedLiteral(intAttr.getValue()) << typeStr.value() << ";\n";
+    }
     return success();
   }
 
-- 
2.43.0


From de0f04a941e77b1c01fd79869f75f293fd362730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 25/52] fix: TfheRustBool: index tensors row-major and refer to
 scalar packed operands by name

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 629977b..ceb7bc4 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -285,20 +285,20 @@ LogicalResult TfheRustBoolEmitter::printSksMethod(
     }
 
     os << commaSeparatedValues(
-        nonSksOperands, [&, numberOfOperands](Value value) {
+        nonSksOperands, [&](Value value) {
           std::string prefix;
           std::string suffix;
 
           tie(prefix, suffix) = checkOrigin(value);
-          if (numberOfOperands == 1) {
+          if (!isa<TensorType>(value.getType())) {
             prefix = "&vec![&";
-            suffix = "]" + suffix;
+            suffix = "]";
           }
 
           return prefix + variableNames->getNameForValue(value) + suffix;
         });
 
-    if (numberOfOperands == 1) {
+    if (!isa<TensorType>(result.getType())) {
       os << ")[0].clone();\n";
     } else {
       os << ");\n";
@@ -506,9 +506,10 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
   // We assume here that the indices are SSA values (not integer attributes).
   emitAssignPrefix(op.getResult());
   os << "&" << variableNames->getNameForValue(op.getTensor()) << "["
-     << commaSeparatedValues(
-            op.getIndices(),
-            [&](Value value) { return variableNames->getNameForValue(value); })
+     << flattenIndexExpression(op.getTensor().getType(), op.getIndices(),
+                               [&](Value value) {
+                                 return variableNames->getNameForValue(value);
+                               })
      << "];\n";
   return success();
 }
-- 
2.43.0


From edb3e091e7863421c0fd86ddf021789ae9bbc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 26/52] fix: TfheRust, TfheRustBool: spell unsigned types as
 Rust does and reject trivial encryptions of attributes

---
 lib/Target/TfheRust/TfheRustEmitter.cpp         | 5 ++++-
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index a3560c5..afc126f 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -555,6 +555,9 @@ LogicalResult TfheRustEmitter::printOperation(ScalarLeftShiftOp op) {
 }
 
 LogicalResult TfheRustEmitter::printOperation(CreateTrivialOp op) {
+  if (!op.getValue()) {
+    return op.emitOpError() << "expected an SSA value to encrypt";
+  }
   return printSksMethod(op.getResult(), op.getServerKey(), {op.getValue()},
                         "create_trivial", {"u64"});
 }
@@ -923,7 +926,7 @@ FailureOr<std::string> TfheRustEmitter::convertType(Type type) {
         }
         auto width = getRustIntegerType(type.getWidth());
         if (failed(width)) return failure();
-        return (type.isUnsigned() ? std::string("u") : "") + "i" +
+        return (type.isUnsigned() ? std::string("u") : std::string("i")) +
                std::to_string(width.value());
       })
       .Case<ServerKeyType>([&](auto type) { return std::string("ServerKey"); })
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index ceb7bc4..3fbd115 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -616,7 +616,7 @@ FailureOr<std::string> TfheRustBoolEmitter::convertType(Type type) {
         }
         auto width = getRustIntegerType(type.getWidth());
         if (failed(width)) return failure();
-        return (type.isUnsigned() ? std::string("u") : "") + "i" +
+        return (type.isUnsigned() ? std::string("u") : std::string("i")) +
                std::to_string(width.value());
       })
       .Default([&](Type&) { return failure(); });
-- 
2.43.0


From 9da6b7059a90f599c015b54df22ec052d28baa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 27/52] fix: TfheRust emitters: reject rank-0 allocations
 instead of reading past the shape

---
 lib/Target/TfheRust/TfheRustEmitter.cpp         | 3 +++
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 3 +++
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index afc126f..6e82d8e 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -749,6 +749,9 @@ LogicalResult TfheRustEmitter::printOperation(
 }
 
 LogicalResult TfheRustEmitter::printOperation(memref::AllocOp op) {
+  if (op.getType().getRank() == 0) {
+    return op.emitOpError() << "rank-0 memrefs are not supported";
+  }
   os << "let mut " << variableNames->getNameForValue(op.getMemref())
      << " : HashMap<";
   if (op.getType().getRank() > 1) os << "(";
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 3fbd115..1fb5c73 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -443,6 +443,9 @@ LogicalResult TfheRustBoolEmitter::printOperation(::mlir::arith::TruncIOp op) {
 
 // Use a BTreeMap<(usize, ...), Ciphertext>.
 LogicalResult TfheRustBoolEmitter::printOperation(memref::AllocOp op) {
+  if (op.getType().getRank() == 0) {
+    return op.emitOpError() << "rank-0 memrefs are not supported";
+  }
   os << "let mut " << variableNames->getNameForValue(op.getMemref())
      << " : BTreeMap<("
      << std::accumulate(
diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 38c229f..80fdd8f 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -614,6 +614,9 @@ LogicalResult TfheRustHLEmitter::printOperation(::mlir::arith::TruncIOp op) {
 
 // Use a BTreeMap<(usize, ...), Ciphertext>.
 LogicalResult TfheRustHLEmitter::printOperation(memref::AllocOp op) {
+  if (op.getType().getRank() == 0) {
+    return op.emitOpError() << "rank-0 memrefs are not supported";
+  }
   os << "let mut " << variableNames->getNameForValue(op.getMemref())
      << " : BTreeMap<("
      << std::accumulate(
-- 
2.43.0


From ac5b931eac56571f24761df5afbd620fc36118b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 28/52] fix: TfheRustHL prints global data as unsigned
 constants

The element type is an unsigned Rust type, so a negative literal does not
compile; print the bit pattern, as the emitter does for other constants.
---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 80fdd8f..5891d0a 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -661,17 +661,11 @@ LogicalResult TfheRustHLEmitter::printOperation(memref::GetGlobalOp op) {
      << " = [";
 
   // Populate data by iterating through constant data attribute
-  auto printValue = [](const APInt& value) -> std::string {
-    llvm::SmallString<40> s;
-    value.toStringSigned(s, 10);
-    return std::string(s);
-  };
-
   auto cstIter = cstAttr.value().value_begin<APInt>();
   auto cstIterEnd = cstAttr.value().value_end<APInt>();
-  os << std::accumulate(std::next(cstIter), cstIterEnd, printValue(*cstIter),
+  os << std::accumulate(std::next(cstIter), cstIterEnd, unsignedLiteral(*cstIter),
                         [&](const std::string& a, const APInt& value) {
-                          return a + ", " + printValue(value);
+                          return a + ", " + unsignedLiteral(value);
                         });
 
   os << "];\n";
-- 
2.43.0


From 1cf39b86f39b394004288b808cfe54038a132606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 29/52] fix: TfheRustHL names the Ciphertext alias only where
 it declares it

The default bit width outlived the module it was computed for, and its
initial value was used when no operation returns an encrypted integer, so
the output used an alias that was missing or of another width.
---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 5891d0a..429276c 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -176,6 +176,8 @@ LogicalResult TfheRustHLEmitter::printOperation(ModuleOp moduleOp) {
   os << kModulePrelude << "\n";
 
   // Find default type of the module and use a Type alias
+  // (without an alias every type is spelled out)
+  DefaultTfheRustHLBitWidth = 0;
   moduleOp.getOperation()->walk([&](Operation* op) {
     for (Type resultType : op->getResultTypes()) {
       if (resultType.hasTrait<EncryptedInteger>()) {
-- 
2.43.0


From 772ec1092e67edbaf139b4d5f7a4a24c43792175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 30/52] fix: TfheRust forgets the server key of the previous
 function

A function without a server key argument used the name of an earlier
function's argument for its default ciphertexts instead of being reported.
---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 6e82d8e..4017e26 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -299,6 +299,7 @@ LogicalResult TfheRustEmitter::printOperation(func::FuncOp funcOp) {
     return success();
   }
 
+  serverKeyArg.clear();
   os << "pub fn " << funcOp.getName() << "(\n";
   os.indent();
   for (Value arg : funcOp.getArguments()) {
-- 
2.43.0


From eff07c13183fcade18244b15897e5eda503f9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 31/52] fix: TfheRust names levelled results that other
 operations use

With --use-levels the result of a levelled operation only lived in
temp_nodes, while every operation other than return, from_elements and
store refers to it by a variable that was never defined.
---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 4017e26..66be7e2 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -74,6 +74,15 @@ bool usedByNonLevelledOp(Value value) {
                       [](Operation* op) { return !isLevelledOp(op); });
 }
 
+// Returns true if an operation refers to the given result of a levelled op by
+// its variable name, rather than by its entry in temp_nodes.
+bool usedByName(Value value) {
+  return llvm::any_of(value.getUsers(), [](Operation* op) {
+    return !isLevelledOp(op) &&
+           !isa<func::ReturnOp, tensor::FromElementsOp, memref::StoreOp>(op);
+  });
+}
+
 std::pair<graph::Graph<Operation*>, Operation*> getGraph(Operation* op) {
   graph::Graph<Operation*> graph;
 
@@ -214,6 +223,17 @@ LogicalResult TfheRustEmitter::emitBlock(::mlir::Operation* op, int batch) {
           "run_level({2}, &mut temp_nodes, &mut luts, &LEVEL_{0}_{1});\n",
           batch, level, serverKeyArg);
     }
+
+    // Name the results that are used by operations that are not levelled.
+    for (auto& level : levels) {
+      for (auto& op : level) {
+        Value result = op->getResult(0);
+        if (!usedByName(result)) continue;
+        emitAssignPrefix(result);
+        os << llvm::formatv("temp_nodes[&{0}].clone();\n",
+                            variableNames->getIntForValue(result));
+      }
+    }
   }
   // Continue to emit the block.
   return emitBlock(nextOp, ++batch);
-- 
2.43.0


From 0132d2be0bb7271ee28248c15cb50c3901a0cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 32/52] fix: TfheRust makes lookup table arguments available to
 levels

Levels look tables up in luts, which only held generated tables, so a
levelled apply_lookup_table of a function argument panicked.
---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 66be7e2..08caa53 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -375,9 +375,14 @@ LogicalResult TfheRustEmitter::printOperation(func::FuncOp funcOp) {
           "HashMap::new();\n";
     os << kRunLevelDefn << "\n";
 
-    // Seed the temp_nodes with the block arguments.
+    // Seed the temp_nodes and luts with the block arguments.
     for (Value arg : funcOp.getArguments()) {
       auto type = arg.getType();
+      if (isa<LookupTableType>(type)) {
+        os << llvm::formatv("luts.insert(\"{0}\", {0}.clone());\n",
+                            variableNames->getNameForValue(arg));
+        continue;
+      }
       if (!type.hasTrait<EncryptedInteger>() && !isa<EncryptedBoolType>(type)) {
         continue;
       }
-- 
2.43.0


From 37fc356081b5f6c9b12b3b7f13f02f15f81c73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 33/52] fix: forward-store-to-load respects accesses at
 possibly equal indices, calls, copies and views

A store was forwarded over (and an earlier store removed despite) an
operation in between that accesses the memref at an index that may equal the
store's at run time, that is not a memref.store/load (affine.store,
memref.copy, a call), or that accesses it through a view. A store of the
memref itself as a value was treated as a store to it.
---
 lib/Transforms/ForwardStoreToLoad/BUILD       |  3 +
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 80 +++++++++++++++----
 2 files changed, 69 insertions(+), 14 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/BUILD b/lib/Transforms/ForwardStoreToLoad/BUILD
index 51a2309..0aba553 100644
--- a/lib/Transforms/ForwardStoreToLoad/BUILD
+++ b/lib/Transforms/ForwardStoreToLoad/BUILD
@@ -17,12 +17,15 @@ cc_library(
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
+        "@llvm-project//mlir:DialectUtils",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MemRefDialect",
         "@llvm-project//mlir:Pass",
+        "@llvm-project//mlir:SideEffectInterfaces",
         "@llvm-project//mlir:Support",
         "@llvm-project//mlir:TransformUtils",
         "@llvm-project//mlir:Transforms",
+        "@llvm-project//mlir:ViewLikeInterface",
     ],
 )
 
diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..f637c91 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -2,15 +2,19 @@
 
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"   // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/ViewLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -69,6 +73,44 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+namespace {
+
+/// Returns true if the two lists of indices refer to different elements
+/// whatever the values of the indices that are not constant.
+bool indicesProvablyDiffer(ValueRange lhs, ValueRange rhs) {
+  return llvm::any_of(llvm::zip_equal(lhs, rhs), [](auto pair) {
+    auto lhsIndex = getConstantIntValue(std::get<0>(pair));
+    auto rhsIndex = getConstantIntValue(std::get<1>(pair));
+    return lhsIndex && rhsIndex && *lhsIndex != *rhsIndex;
+  });
+}
+
+/// Returns true unless `op`, which must not hold a region, provably does not
+/// have the effect `EffectTy` on the element of `memref` at `indices`.
+template <typename EffectTy, typename AccessOpTy>
+bool mayAccess(Operation* op, Value memref, ValueRange indices) {
+  if (!llvm::is_contained(op->getOperands(), memref)) return false;
+  if (auto accessOp = dyn_cast<AccessOpTy>(op)) {
+    return accessOp.getMemRef() == memref &&
+           !indicesProvablyDiffer(accessOp.getIndices(), indices);
+  }
+  if (isMemoryEffectFree(op)) return false;
+  // An op that does not declare its effects (e.g., a call) may do anything.
+  auto effectInterface = dyn_cast<MemoryEffectOpInterface>(op);
+  return !effectInterface || effectInterface.hasEffect<EffectTy>();
+}
+
+/// Returns true if the memref is a view of another memref or has a view, so
+/// that ops not using the memref itself may access its elements.
+bool hasViews(Value memref) {
+  return memref.getDefiningOp<ViewLikeOpInterface>() ||
+         llvm::any_of(memref.getUsers(), [](Operation* user) {
+           return isa<ViewLikeOpInterface>(user);
+         });
+}
+
+}  // namespace
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -93,6 +135,13 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
           return false;
         }
 
+        Value memref = loadOp.getMemRef();
+        if (storeOp.getMemRef() != memref || hasViews(memref)) {
+          LLVM_DEBUG(llvm::dbgs()
+                     << "the memref is the stored value or has views\n");
+          return false;
+        }
+
         // Naively scan through the operations between the two ops and check if
         // anything prevents forwarding.
         for (auto currentNode = storeOp->getNextNode();
@@ -104,13 +153,11 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                        "store and load op\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Write, memref::StoreOp>(
+                  currentNode, memref, storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may store to the same index\n");
+            return false;
           }
         }
 
@@ -179,6 +226,13 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
           return false;
         }
 
+        Value memref = storeOp.getMemRef();
+        if (potentialStore.getMemRef() != memref || hasViews(memref)) {
+          LLVM_DEBUG(llvm::dbgs()
+                     << "the memref is the stored value or has views\n");
+          return false;
+        }
+
         // Naively scan through the operations between the two ops and check if
         // a read prevents store removal.
         for (auto currentNode = storeOp->getNextNode();
@@ -197,13 +251,11 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
             LLVM_DEBUG(llvm::dbgs() << "an intermediate load op was found\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Read, memref::LoadOp>(
+                  currentNode, memref, storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may load at the same index\n");
+            return false;
           }
         }
 
-- 
2.43.0


From ca7fa2e15f737d564886ba19ecff95b79a50bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 34/52] fix: forward-insert-to-extract stops at an insert that
 may write the extracted element

---
 .../ForwardInsertToExtract.cpp                     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..0dbe617 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -4,6 +4,7 @@
 #include <utility>
 
 #include "lib/Utils/TensorUtils.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVectorExtras.h"     // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
@@ -59,6 +60,19 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // The insertion can only be skipped if it certainly writes another
+            // element, i.e., some index is constant in both and differs.
+            if (!llvm::any_of(
+                    llvm::zip_equal(insertIndices, indices), [](auto pair) {
+                      auto inserted = getConstantIntValue(std::get<0>(pair));
+                      auto extracted = getConstantIntValue(std::get<1>(pair));
+                      return inserted && extracted && *inserted != *extracted;
+                    })) {
+              LLVM_DEBUG(llvm::dbgs()
+                         << "insert op may write the extracted element\n");
+              return failure();
+            }
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From ade5c464a6e543a97a40bb5247242259dc25318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 35/52] fix: remove-unused-memref keeps an allocation that is
 itself stored

---
 lib/Transforms/UnusedMemRef/UnusedMemRef.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
index ee3a740..4fd6bdc 100644
--- a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
+++ b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
@@ -27,9 +27,12 @@ class RemoveUnusedMemrefPattern : public OpRewritePattern<memref::AllocOp> {
                                 PatternRewriter& rewriter) const override {
     auto memref = op.getMemref();
     if (llvm::any_of(memref.getUsers(), [&](Operation* ownerOp) {
-          return !isa<affine::AffineWriteOpInterface>(ownerOp) &&
-                 !isa<memref::StoreOp>(ownerOp) &&
-                 !hasSingleEffect<MemoryEffects::Free>(ownerOp, memref);
+          // A memref that is itself stored may be loaded and used elsewhere.
+          if (auto writeOp = dyn_cast<affine::AffineWriteOpInterface>(ownerOp))
+            return writeOp.getMemRef() != memref;
+          if (auto storeOp = dyn_cast<memref::StoreOp>(ownerOp))
+            return storeOp.getMemRef() != memref;
+          return !hasSingleEffect<MemoryEffects::Free>(ownerOp, memref);
         })) {
       return rewriter.notifyMatchFailure(
           op,
-- 
2.43.0


From 2b0feff7e3d374549f658ab6e076056fd0e62e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 36/52] fix: TfheRust hoisting tolerates operands without block
 arguments and tracks its attribute

With only op-defined operands lastBlock stayed null and was dereferenced; the
'hoisted' attribute was set without telling the rewriter.
---
 lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp b/lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp
index 48a62a8..d8b8897 100644
--- a/lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp
+++ b/lib/Dialect/TfheRust/IR/TfheRustPatterns.cpp
@@ -41,14 +41,15 @@ LogicalResult doHoist(SksOp op, PatternRewriter& rewriter) {
 
   // The last argument's defining thing is a block
   if (lastOperandDefiner == nullptr ||
-      dom.dominates(lastOperandDefiner, lastBlock->getParentOp())) {
+      (lastBlock != nullptr &&
+       dom.dominates(lastOperandDefiner, lastBlock->getParentOp()))) {
     rewriter.moveOpBefore(op, &lastBlock->getOperations().front());
-    op->setAttr("hoisted", rewriter.getBoolAttr(true));
-    return success();
+  } else {
+    rewriter.moveOpAfter(op, lastOperandDefiner);
   }
 
-  rewriter.moveOpAfter(op, lastOperandDefiner);
-  op->setAttr("hoisted", rewriter.getBoolAttr(true));
+  rewriter.modifyOpInPlace(
+      op, [&] { op->setAttr("hoisted", rewriter.getBoolAttr(true)); });
   return success();
 }
 
-- 
2.43.0


From b7896b492e5065c38edbbfa1a318614e53a901fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 37/52] fix: RNS type verifier checks the interface of a single
 basis type

---
 lib/Dialect/RNS/IR/RNSTypes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Dialect/RNS/IR/RNSTypes.cpp b/lib/Dialect/RNS/IR/RNSTypes.cpp
index 3cdafe5..4efe177 100644
--- a/lib/Dialect/RNS/IR/RNSTypes.cpp
+++ b/lib/Dialect/RNS/IR/RNSTypes.cpp
@@ -35,6 +35,12 @@ LogicalResult RNSType::verify(
     return res;
   };
 
+  for (Type type : basisTypes) {
+    if (failed(getInterface(type))) {
+      return failure();
+    }
+  }
+
   size_t numTypes = basisTypes.size();
   for (auto i = 0; i != numTypes; ++i) {
     for (auto j = i + 1; j != numTypes; ++j) {
-- 
2.43.0


From 901d1b9087e5df9233f9648b5e5067f51bf39c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 38/52] fix: parse a negative mod_arith value with its sign

---
 lib/Dialect/ModArith/IR/ModArithAttributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithAttributes.cpp b/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
index d8c3d66..04366cb 100644
--- a/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithAttributes.cpp
@@ -29,7 +29,7 @@ mlir::Attribute ModArithAttr::parse(mlir::AsmParser& parser, mlir::Type type) {
 
   mlir::Type integerType = modType.getModulus().getType();
   unsigned targetBitWidth = integerType.getIntOrFloatBitWidth();
-  value = value.zextOrTrunc(targetBitWidth);
+  value = value.sextOrTrunc(targetBitWidth);
 
   // 4. Construct the IntegerAttr using the element type of the ModArithType
   // This ensures the bitwidth of the value matches the modulus storage
-- 
2.43.0


From b44fbaf05bd35adc52efc9da52849fb09350d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 39/52] fix: compose a Chebyshev polynomial of degree 2 or
 without terms

---
 lib/Utils/Polynomial/Polynomial.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..846411a 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -129,10 +129,10 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   // Since y is a polynomial in x, the d_k are also polynomials in x. We can
   // compute the Chebyshev coefficients of each d_k iteratively.
 
-  int n = getDegree();
-  if (n < 0) {
+  if (terms.empty()) {
     return ChebyshevPolynomial::zero();
   }
+  int n = getDegree();
 
   auto otherCoeffs = other.getCoeffMap();
   APFloat b = otherCoeffs.contains(0) ? otherCoeffs.at(0).getCoefficient()
@@ -145,6 +145,9 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  if (n == 2) {
+    d_2_coeffs = d_kplus1;
+  }
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From 91c871d7a1dd92b43fa60f828082095d6995b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 40/52] fix: multiply by the zero polynomial without reading
 its last term

---
 lib/Utils/Polynomial/Polynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..59ba009 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -224,6 +224,7 @@ class PolynomialBase {
   }
 
   Derived naiveMul(const Derived& other) const {
+    if (isZero() || other.isZero()) return zero();
     SmallVector<Monomial> newTerms;
     size_t maxDegree = getDegree() + other.getDegree();
     newTerms.reserve(maxDegree + 1);
-- 
2.43.0


From ccaef6a8696cc8e21fb32dacd6429d5f26789950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 41/52] fix: add polynomials whose terms interleave

---
 lib/Utils/Polynomial/Polynomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 59ba009..3e3823d 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -213,6 +213,8 @@ class PolynomialBase {
         if (it2 == other.terms.end()) break;
       }
       if (it2 == other.terms.end()) continue;
+      // Skipping terms of `other` may have moved it2 past it1.
+      if (it1->getExponent() != it2->getExponent()) continue;
 
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
-- 
2.43.0


From e8539da238149405b73a1ef82b27d6b8d2b34fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 42/52] fix: compute products with the plaintext modulus in
 double in the noise models

t * t (and ringDim * t) were formed in int64_t and wrapped for plaintext
moduli above 2^31.5, so the estimated variance could be tiny or negative.
---
 .../NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp   |  4 ++--
 .../NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp      |  2 +-
 .../NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp   | 11 ++++++-----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
index ba6f1ec..294bfe7 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
@@ -229,8 +229,8 @@ NoiseByVarianceCoeffModel::evalRelinearizeHYBRID(
   // and c_2 uniformly from [-digitSize / 2, digitSize / 2]
   // for ringDim, see header comment for explanation
   // moddown by P, as digitSize / P < 1, we directly use 1/12
-  auto scaled =
-      NoiseState::of(t * t * numDigit * (1.0 / 12.0) * ringDim * varianceErr);
+  auto scaled = NoiseState::of(static_cast<double>(t) * t * numDigit *
+                               (1.0 / 12.0) * ringDim * varianceErr);
 
   // Some papers just say hey we mod down by P so the error added is just mod
   // reduce, but the error for mod reduce is different for approximate mod down.
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
index 80fa727..07a951a 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
@@ -164,7 +164,7 @@ typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalMul(
   // ||v_mul|| <=
   //   (delta * t) * ||v_0|| * ||v_1|| + (||v_0|| + ||v_1|| + 1) * (N * t / 2)
   return (lhs * rhs) * expansionFactor * t +
-         (lhs + rhs + 1) * (ringDim * t / 2);
+         (lhs + rhs + 1) * (static_cast<double>(ringDim) * t / 2);
 }
 
 typename NoiseByBoundCoeffModel::StateType
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
index 617fef7..1d4f305 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
@@ -73,7 +73,8 @@ typename Model::StateType Model::evalEncryptPk(
   // v_fresh = m + t * (u * e + e_1 * s + e_0)
   // var_fresh = t^2 * (2n * var_key + 1) * var_error
   // for ringDim, see header comment for explanation
-  double fresh = t * t * varianceError * (2. * n * varianceKey + 1.);
+  double fresh =
+      static_cast<double>(t) * t * varianceError * (2. * n * varianceKey + 1.);
   // noise degree of 1
   return StateType::of(fresh);
 }
@@ -87,7 +88,7 @@ typename Model::StateType Model::evalEncryptSk(
   // secret key encryption (-as + m + t * e, a)
   // v_fresh = t * e
   // var_fresh = t^2 * var_error
-  double fresh = t * t * varianceError;
+  double fresh = static_cast<double>(t) * t * varianceError;
   // noise degree of 0
   return StateType::of(fresh);
 }
@@ -115,7 +116,7 @@ typename Model::StateType Model::evalConstant(
   // assume m is uniform from [-t/2, t/2]
   // var_constant = t * t / 12
   // noise degree of 0
-  return StateType::of(t * t / 12.0);
+  return StateType::of(static_cast<double>(t) * t / 12.0);
 }
 
 typename Model::StateType Model::evalAdd(const StateType& lhs,
@@ -199,8 +200,8 @@ typename Model::StateType Model::evalRelinearizeHYBRID(
   // then moddown by P, as digitSize / P < 1, we directly use 1.0/12
   // t * t * 1/12 * currentNumDigit * ringDim * varianceErr
   // for ringDim, see header comment for explanation
-  auto scaled = StateType::of(t * t * currentNumDigit * (1.0 / 12.0) * ringDim *
-                              varianceErr);
+  auto scaled = StateType::of(static_cast<double>(t) * t * currentNumDigit *
+                              (1.0 / 12.0) * ringDim * varianceErr);
 
   // Some papers just say hey we mod down by P so the error added is just mod
   // reduce, but the error for mod reduce is different for approximate mod down.
-- 
2.43.0


From 7908dbcc8d19efb9d5b26e69422f56c49a834121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 43/52] fix: keep 1/Q in the log domain in the BFV noise models

Q was computed as a double and became infinite when log2(Q) > 1024, which
dropped the product term of evalMul.
---
 .../NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp | 12 ++++++------
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 13 ++++++-------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
index 294bfe7..f47150a 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
@@ -5,7 +5,6 @@
 #include <cmath>
 #include <iomanip>
 #include <ios>
-#include <numeric>
 #include <sstream>
 #include <string>
 
@@ -145,10 +144,11 @@ NoiseByVarianceCoeffModel::evalMul(const LocalParamType& resultParam,
   auto t = resultParam.getSchemeParam()->getPlaintextModulus();
 
   auto logqi = resultParam.getSchemeParam()->getLogqi();
-  auto logQ = std::accumulate(logqi.begin(), logqi.end(), 0.0);
-  // we hope double is big enough...
-  // if logQ > 1024... we may have a problem
-  auto Q = pow(2.0, logQ);
+  // Q may exceed the range of double, so 1 / Q is kept as a StateType
+  auto Qinv = StateType::of(1);
+  for (auto logq : logqi) {
+    Qinv = Qinv * std::exp2(-logq);
+  }
 
   auto varianceKey = getVarianceKey(resultParam);
 
@@ -174,7 +174,7 @@ NoiseByVarianceCoeffModel::evalMul(const LocalParamType& resultParam,
   // so _heuristically_ we have k_i = tau_0 + tau_1 * s
   // where tau_i is uniformly in [-1/2, 1/2]
   // then Var(k_i) = 1/12(1 + ringDim * var_key)
-  auto term1 = (v0 * v1 * ringDim) * t * t * (1. / Q / Q);
+  auto term1 = (v0 * v1 * ringDim) * t * t * Qinv * Qinv;
   auto term2 = (v0 + v1) * ringDim * t * t * (1. / 12.);
   auto zero = StateType::of(0, 0);
   auto term3 = zero;
diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index 914b5b3..eaca782 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -4,10 +4,8 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
-#include <functional>
 #include <iomanip>
 #include <ios>
-#include <numeric>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -157,10 +155,11 @@ typename Model::StateType Model::evalMul(const LocalParamType& resultParam,
   auto phi = getPhi(resultParam);
   auto t = resultParam.getSchemeParam()->getPlaintextModulus();
   auto logqi = resultParam.getSchemeParam()->getLogqi();
-  auto logQ = std::accumulate(logqi.begin(), logqi.end(), 0.0);
-  // we hope double is big enough...
-  // if logQ > 1024... we may have a problem
-  auto Q = pow(2.0, logQ);
+  // Q may exceed the range of double, so 1 / Q is kept as a StateType
+  auto Qinv = StateType::of(1);
+  for (auto logq : logqi) {
+    Qinv = Qinv * std::exp2(-logq);
+  }
   auto d = getAssuranceFactor(resultParam);
 
   // c0 + c1s = (Q/t)m + v + hQ
@@ -176,7 +175,7 @@ typename Model::StateType Model::evalMul(const LocalParamType& resultParam,
   // delta0 + delta1 * s + delta2 * s^2
 
   // See KPZ21
-  auto term1 = v0 * v1 * t * (1. / Q);
+  auto term1 = v0 * v1 * t * Qinv;
   // See also BMCM23 Table 5
   auto term2 = (v0 + v1) * t * bH;
   return term1 + term2;
-- 
2.43.0


From dfc996432e06a9799fc5facae4266d8be7c8f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 44/52] fix: keep the key switching noise of the BGV canonical
 embedding model in the log domain

The product of the pi and the power of the largest one overflowed double,
making the estimate infinite or NaN.
---
 .../NoiseAnalysis/BGV/NoiseCanEmbModel.cpp    | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
index 38cbc33..45c150a 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
@@ -4,10 +4,8 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
-#include <functional>
 #include <iomanip>
 #include <ios>
-#include <numeric>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -202,34 +200,32 @@ typename Model::StateType Model::evalRelinearizeHYBRID(
 
   // TODO: prod of Pi() if Pi() is available instead of logPi()
   auto pi = inputParam.getSchemeParam()->getPi();
-  double prodPi;
-  double maxPi;
-  size_t k;
+  std::vector<double> moduliPi;
   if (pi.empty()) {
     // values of pi are not set in schemeParam, so we use this
-    std::vector<double> moduliPi(logpi.size());
+    moduliPi.resize(logpi.size());
     std::transform(logpi.begin(), logpi.end(), moduliPi.begin(),
                    [](double value) { return pow(2.0, value); });
-    maxPi = *std::max_element(moduliPi.begin(), moduliPi.end());
-    prodPi = std::accumulate(moduliPi.begin(), moduliPi.end(), 1.,
-                             std::multiplies<double>());
-    k = moduliPi.size();
   } else {
     // if real values of pi are set, we use those
-    maxPi = *std::max_element(pi.begin(), pi.end());
-    prodPi =
-        std::accumulate(pi.begin(), pi.end(), 1., std::multiplies<double>());
-    k = pi.size();
+    moduliPi.assign(pi.begin(), pi.end());
   }
+  double maxPi = *std::max_element(moduliPi.begin(), moduliPi.end());
+  size_t k = moduliPi.size();
 
   // v_ks = v + sqrt(dnum * (currentLevel + 1)) * p_l^(ceil(currentLevel / dnum)
   // * B_ks / P + sqrt(k) * B_scale
   double bKs = getBKs(inputParam);
   auto pPower = ceil(static_cast<double>(currentLevel) / dnum);
-  auto noiseKs = StateType::of(
-      sqrt(dnum * (currentLevel + 1)) *
-      pow(static_cast<double>(maxPi), static_cast<double>(pPower)) * bKs /
-      prodPi);
+  // P and the power of p_l may exceed the range of double, so multiply and
+  // divide factor by factor
+  auto noiseKs = StateType::of(sqrt(dnum * (currentLevel + 1)) * bKs);
+  for (int i = 0; i < pPower; ++i) {
+    noiseKs = noiseKs * maxPi;
+  }
+  for (auto modulus : moduliPi) {
+    noiseKs = noiseKs * (1.0 / modulus);
+  }
 
   double bScale = getBScale(inputParam);
   auto noiseScale = StateType::of(sqrt(k) * bScale);
-- 
2.43.0


From 44ceffeac08abd7cdf7691eae4fe3287b2ff8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 45/52] fix: name values whose type suggests no assembly name
 with the default prefix

---
 lib/Analysis/SelectVariableNames/SelectVariableNames.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Analysis/SelectVariableNames/SelectVariableNames.cpp b/lib/Analysis/SelectVariableNames/SelectVariableNames.cpp
index 9a3d412..cde02ae 100644
--- a/lib/Analysis/SelectVariableNames/SelectVariableNames.cpp
+++ b/lib/Analysis/SelectVariableNames/SelectVariableNames.cpp
@@ -20,7 +20,7 @@ std::string SelectVariableNames::suggestNameForValue(Value value) {
           mlir::dyn_cast<OpAsmTypeInterface>(value.getType())) {
     std::string asmName;
     opAsmTypeInterface.getAsmName([&](StringRef name) { asmName = name; });
-    return asmName;
+    if (!asmName.empty()) return asmName;
   }
   return defaultPrefix;
 }
-- 
2.43.0


From 01658187a6cccb592db5cb5fa1d7e9582e4bebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 46/52] fix: compare shift mappings independently of their
 iteration order

---
 lib/Dialect/TensorExt/Transforms/ShiftScheme.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/TensorExt/Transforms/ShiftScheme.h b/lib/Dialect/TensorExt/Transforms/ShiftScheme.h
index 3b8abc1..8109eb0 100644
--- a/lib/Dialect/TensorExt/Transforms/ShiftScheme.h
+++ b/lib/Dialect/TensorExt/Transforms/ShiftScheme.h
@@ -255,9 +255,10 @@ struct DenseMapInfo<mlir::heir::tensor_ext::Mapping> {
 
     const auto& lMap = L.getTargetToSource();
     const auto& rMap = R.getTargetToSource();
-    for (auto itL = lMap.begin(), itR = rMap.begin();
-         itL != lMap.end() && itR != rMap.end(); ++itL, ++itR) {
-      if (itL->second != itR->second || itL->first != itR->first) {
+    // The iteration order of equal maps may differ.
+    for (const auto& [target, source] : lMap) {
+      auto it = rMap.find(target);
+      if (it == rMap.end() || it->second != source) {
         return false;
       }
     }
-- 
2.43.0


From d81da6e3e04069efb56669d3603190d0c6ac0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 47/52] fix: order graph vertices by insertion rather than by
 address

---
 lib/Utils/Graph/Graph.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..c725d8b 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -28,7 +28,9 @@ template <typename V>
 class Graph {
  public:
   // Adds a vertex to the graph
-  void addVertex(V vertex) { vertices.insert(vertex); }
+  void addVertex(V vertex) {
+    if (vertices.insert(vertex).second) ordinals[vertex] = nextOrdinal++;
+  }
 
   bool addEdge(V source, V target, int weight) {
     if (addEdge(source, target)) {
@@ -81,10 +83,8 @@ class Graph {
   // Returns the edges that point out of the given vertex.
   std::vector<V> edgesOutOf(V vertex) {
     if (vertices.count(vertex)) {
-      std::vector<V> result(outEdges[vertex].begin(), outEdges[vertex].end());
       // Note: The vertices are sorted to ensure determinism in the output.
-      std::sort(result.begin(), result.end());
-      return result;
+      return inInsertionOrder(outEdges[vertex]);
     }
     return {};
   }
@@ -92,10 +92,8 @@ class Graph {
   // Returns the edges that point into the given vertex.
   std::vector<V> edgesInto(V vertex) {
     if (vertices.count(vertex)) {
-      std::vector<V> result(inEdges[vertex].begin(), inEdges[vertex].end());
       // Note: The vertices are sorted to ensure determinism in the output.
-      std::sort(result.begin(), result.end());
-      return result;
+      return inInsertionOrder(inEdges[vertex]);
     }
     return {};
   }
@@ -155,6 +153,7 @@ class Graph {
     for (V pred : edgesInto(target)) outEdges[pred].erase(target);
 
     vertices.erase(target);
+    ordinals.erase(target);
     outEdges.erase(target);
     inEdges.erase(target);
 
@@ -319,7 +318,7 @@ class Graph {
     // Kahn's algorithm
     std::vector<V> active;
     std::map<V, int64_t> edgeCount;
-    for (const V& vertex : vertices) {
+    for (const V& vertex : inInsertionOrder(vertices)) {
       edgeCount[vertex] = edgesInto(vertex).size();
       if (edgeCount.at(vertex) == 0) {
         active.push_back(vertex);
@@ -389,8 +388,8 @@ class Graph {
     // Reverse the levels values, such that input nodes have smaller level
     // values.
     std::vector<std::vector<V>> output(maxLevel + 1);
-    for (auto entry : levels) {
-      output[maxLevel - entry.second].push_back(entry.first);
+    for (const V& vertex : inInsertionOrder(vertices)) {
+      output[maxLevel - levels.at(vertex)].push_back(vertex);
     }
     return output;
   }
@@ -495,7 +494,21 @@ class Graph {
 
  private:
   void invalidateCachedEdges() { edgesDirty = true; }
+
+  // Returns the given vertices in the order in which they were added to the
+  // graph. The order of a std::set<V> depends on the addresses of the vertices
+  // when V is a pointer type, and so would vary between runs.
+  std::vector<V> inInsertionOrder(const std::set<V>& unordered) const {
+    std::vector<V> result(unordered.begin(), unordered.end());
+    std::sort(result.begin(), result.end(), [this](const V& a, const V& b) {
+      return ordinals.at(a) < ordinals.at(b);
+    });
+    return result;
+  }
+
   std::set<V> vertices;
+  std::map<V, uint64_t> ordinals;
+  uint64_t nextOrdinal = 0;
   std::map<V, std::set<V>> outEdges;
   std::map<V, std::set<V>> inEdges;
   std::map<std::pair<V, V>, int> weights;
-- 
2.43.0


From c4d587c9e8a843a9b8683636450cecdb148d123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 48/52] fix: match a linalg.generic as pooling scale only if it
 scales the pooled tensor

matchScalingFactor accepted any single-input linalg.generic using the pooling
result whose body is a mulf/divf of its first block argument by a constant:
also one that only has the pooling result as its init, that permutes or
broadcasts through its indexing maps, or that yields something other than the
scaled element. Fusing those changed the computed result.
---
 .../LinalgCanonicalizations/ConvPoolFusion.cpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
index 76ff116..dfeb94d 100644
--- a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
@@ -7,11 +7,13 @@
 #include "llvm/include/llvm/ADT/APFloat.h"               // from @llvm-project
 #include "llvm/include/llvm/ADT/APInt.h"                 // from @llvm-project
 #include "llvm/include/llvm/ADT/ArrayRef.h"              // from @llvm-project
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVector.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/ErrorHandling.h"     // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Linalg/IR/Linalg.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/AffineMap.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributeInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"      // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypeInterfaces.h"  // from @llvm-project
@@ -196,14 +198,21 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
   // Case 2: linalg.generic
   if (auto genericOp = dyn_cast<linalg::GenericOp>(user)) {
     if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1) {
+      // The op scales the pooled tensor elementwise only if the pooled tensor
+      // is its input and no operand is permuted or broadcast.
+      bool isElementwise =
+          llvm::all_of(genericOp.getIndexingMapsArray(),
+                       [](AffineMap map) { return map.isIdentity(); });
       Block* body = genericOp.getBody();
-      if (body->getOperations().size() == 2) {
+      if (genericOp.getDpsInputOperand(0)->get() == poolResult &&
+          isElementwise && body->getOperations().size() == 2) {
         Operation& op = body->getOperations().front();
         if (isa<arith::DivFOp>(op) || isa<arith::MulFOp>(op)) {
           Value arg0 = op.getOperand(0);
           Value arg1 = op.getOperand(1);
           BlockArgument inputArg = body->getArgument(0);
-          if (arg0 == inputArg) {
+          Value yielded = body->getTerminator()->getOperand(0);
+          if (arg0 == inputArg && yielded == op.getResult(0)) {
             if (auto scaleOpt = getScale(arg1, &op)) {
               return ScalingFactorInfo{*scaleOpt, genericOp};
             }
-- 
2.43.0


From 3c58325f61b111afb12fe753d30efd2df121f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 49/52] fix: do not match a pooling scale in another
 floating-point format

A scale constant whose semantics differ from the filter's cannot be combined
with the filter weights (APFloat arithmetic asserts equal semantics).
---
 lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
index dfeb94d..97b73be 100644
--- a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
@@ -174,6 +174,8 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
     if (matchPattern(arg1, m_Constant(&cstAttr))) {
       if (auto valOpt = extractFloatAttr(cstAttr)) {
         llvm::APFloat val = *valOpt;
+        // Scales are applied to filters of the given semantics.
+        if (&val.getSemantics() != &semantics) return std::nullopt;
         if (isa<arith::DivFOp>(op)) {
           return llvm::APFloat::getOne(semantics) / val;
         } else {
-- 
2.43.0


From c35386eb01a7edd19100e8f5ff43a7ce20f491e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 50/52] fix: do not mark buffers passed to operations of
 unknown effects const

hasEffect answers false for operations that declare no effects, such as
func.call, so a memref passed to a function that stores to it was emitted as a
reference to const, which the call cannot be compiled with.
---
 lib/Analysis/Cpp/ConstQualifierAnalysis.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp b/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
index 441ada3..cdbefec 100644
--- a/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
+++ b/lib/Analysis/Cpp/ConstQualifierAnalysis.cpp
@@ -1,10 +1,11 @@
 #include "lib/Analysis/Cpp/ConstQualifierAnalysis.h"
 
 #include "lib/Utils/Tablegen/InPlaceOpInterface.h"
-#include "llvm/include/llvm/ADT/STLExtras.h"  // from @llvm-project
-#include "mlir/include/mlir/IR/Operation.h"   // from @llvm-project
-#include "mlir/include/mlir/IR/Value.h"       // from @llvm-project
-#include "mlir/include/mlir/IR/Visitors.h"    // from @llvm-project
+#include "llvm/include/llvm/ADT/STLExtras.h"    // from @llvm-project
+#include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/Operation.h"     // from @llvm-project
+#include "mlir/include/mlir/IR/Value.h"         // from @llvm-project
+#include "mlir/include/mlir/IR/Visitors.h"      // from @llvm-project
 #include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 
@@ -18,7 +19,13 @@ bool isMutated(Value value) {
     bool isTargetOfInPlaceOp =
         inPlaceOp &&
         user->getOperand(inPlaceOp.getInPlaceOperandIndex()) == value;
-    return mutatesOperand || isTargetOfInPlaceOp;
+    // An operation whose effects are unknown, such as a call, may write to the
+    // buffers it is given.
+    bool mayMutateBuffer =
+        isa<BaseMemRefType>(value.getType()) &&
+        !isa<MemoryEffectOpInterface>(user) &&
+        !user->hasTrait<OpTrait::HasRecursiveMemoryEffects>();
+    return mutatesOperand || isTargetOfInPlaceOp || mayMutateBuffer;
   });
 }
 
-- 
2.43.0


From fd79d41f01fdb0fc3771669de952b27abb1e91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 51/52] fix: follow predecessors when rebuilding a shortest
 path

---
 lib/Utils/Graph/Graph.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c725d8b..85c78d5 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -468,24 +468,24 @@ class Graph {
       }
 
       for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+        uint64_t viaCurr = distance[curr] + weight_fn(curr, next);
+        if (distance[next] > viaCurr) {
+          linkback[next] = curr;
+          distance[next] = viaCurr;
         }
         q.push(next);
       }
     }
 
     if (distance[end] != std::numeric_limits<uint64_t>::max()) {
-      // some path found
-      auto curr = start;
-      while (curr != end) {
+      // some path found; linkback holds the predecessor of each vertex on it
+      auto curr = end;
+      while (curr != start) {
         path.push_back(curr);
         curr = linkback[curr];
       }
-      path.push_back(end);
+      path.push_back(start);
+      std::reverse(path.begin(), path.end());
     } else {
       return failure();
     }
-- 
2.43.0


From 2b4b36cbc11d29baf5646e80815df10d46d4b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 52/52] fix: keep a vertex with an edge to itself when
 condensing a graph

---
 lib/Utils/Graph/Graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 85c78d5..a0b2f17 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -244,7 +244,8 @@ class Graph {
         for (const V& u : aliveSnapShot) {
           if (!alive.count(u)) continue;
           for (V v : edgesOutOf(u)) {
-            if (alive.count(v)) {
+            // an edge from u to itself has nothing to contract
+            if (v != u && alive.count(v)) {
               contractEdge(u, v, mergeFn);
               alive.erase(v);
             }
-- 
2.43.0

