// Instantiates the graph's factories and the visitor base so that their bodies are analysed.
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
using namespace mlir::heir::kernel;
template struct mlir::heir::kernel::ArithmeticDagNode<LiteralValue>;
namespace {
class Probe : public CachingVisitor<LiteralValue, double> {
 public:
  using CachingVisitor<LiteralValue, double>::operator();
  void clear(const std::shared_ptr<ArithmeticDagNode<LiteralValue>>& n) { clearSubtreeCache(n); clearCache(); }
};
}
double probe(const std::shared_ptr<ArithmeticDagNode<LiteralValue>>& n) {
  Probe p;
  p.clear(n);
  return p.process(n) + p.process(llvm::ArrayRef<std::shared_ptr<ArithmeticDagNode<LiteralValue>>>{n})[0];
}
