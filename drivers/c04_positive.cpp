// Self-test of the C04 coverage rule: visitor Bad_x must be flagged, Good_x not.
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
using namespace mlir::heir::kernel;
using T = LiteralValue;
template <class D>
struct Base : CachingVisitor<T, int> {
  using CachingVisitor<T, int>::process;
};
struct Bad_missing : CachingVisitor<T, int> {
  int operator()(const AddNode<T>& n) { return process(n.left); }
};
struct Good_both : CachingVisitor<T, int> {
  int operator()(const AddNode<T>& n) {
    const auto& l = n.left;
    int a = process(l);
    return a + process(n.right);
  }
};
struct Bad_path : CachingVisitor<T, int> {
  bool flag = false;
  int operator()(const AddNode<T>& n) {
    int a = process(n.left);
    if (flag && a == 0) return 0;
    return a + process(n.right);
  }
};
struct Good_helper : CachingVisitor<T, int> {
  template <class N> int both(const N& n) { return process(n.left) + process(n.right); }
  int operator()(const MultiplyNode<T>& n) { return both(n); }
};
struct Bad_last : CachingVisitor<T, int> {
  int operator()(const YieldNode<T>& n) {
    int r = 0;
    for (size_t i = 1; i < n.elements.size(); ++i) r += process(n.elements[i]);
    return r;
  }
};
struct Good_list : CachingVisitor<T, int> {
  int operator()(const YieldNode<T>& n) {
    int r = 0;
    for (size_t i = 0; i < n.elements.size(); ++i) r += process(n.elements[i]);
    return r;
  }
};
struct Bad_skip : CachingVisitor<T, int> {
  int operator()(const YieldNode<T>& n) {
    int r = 0;
    for (const auto& e : n.elements) {
      if (r > 3) continue;
      r += process(e);
    }
    return r;
  }
};
void bad_missing() {}
void good_both() {}
void bad_path() {}
void good_helper() {}
void bad_last() {}
void good_list() {}
void bad_skip() {}
