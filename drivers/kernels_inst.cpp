// Instantiates the kernel and polynomial-evaluation templates of the tree for analysis (never linked or run).
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Polynomial.h"

using namespace mlir::heir;
using namespace mlir::heir::kernel;
template class mlir::heir::polynomial::MonomialBase<polynomial::IntMonomial, llvm::APInt>;
template class mlir::heir::polynomial::MonomialBase<polynomial::FloatMonomial, llvm::APFloat>;
template class mlir::heir::polynomial::PolynomialBase<polynomial::IntPolynomial, polynomial::IntMonomial, llvm::APInt>;
template class mlir::heir::polynomial::PolynomialBase<polynomial::FloatPolynomial, polynomial::FloatMonomial, llvm::APFloat>;
using V = SymbolicValue;
using Node = std::shared_ptr<ArithmeticDagNode<V>>;

void use(const V& a, const V& b, Node n, DagType t, std::map<int, bool> z, std::map<int64_t, double> c,
         llvm::ArrayRef<double> r, int64_t k, bool u) {
  DagReducer<V> red = ArithmeticDagNode<V>::add;
  std::string op;
  implementMatvec<V>(KernelName::MatvecDiagonal, a, b);
  implementRotateAndReduceAccumulation<V>(a, k, k, red);
  implementRotateAndReduceAccumulation<V>(n, k, k, red);
  implementRotateAndReduceAccumulationRolled<V>(a, k, k, red, t);
  implementRotateAndReduceAccumulationRolled<V>(n, k, k, red, t);
  implementRotateAndReduce<V>(a, std::optional<V>(b), k, k, t, z, op, u);
  implementDot<V>(a, b, k, t);
  implementBroadcastedReduce<V>(n, std::optional<Node>(n), k, k, k, t, op, u);
  implementHaleviShoup<V>(a, b, std::vector<int64_t>{k, k}, t, z, u);
  implementBicyclicMatmul<V>(a, b, k, k, k, t);
  implementTricyclicBatchMatmul<V>(a, b, k, k, k, k, t);
  polynomial::hornerMonomialPolynomialEvaluation<V>(n, c, t);
  polynomial::patersonStockmeyerMonomialPolynomialEvaluation<V>(n, c, t);
  polynomial::patersonStockmeyerChebyshevPolynomialEvaluation<V>(a, r, 0.5, t);
  polynomial::computeChebyshevPolynomialValues<V>(a, k, t);
  polynomial::computePowers<V>(n, k, t);
}
