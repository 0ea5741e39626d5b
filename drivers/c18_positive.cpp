#include <cstdint>
#include <vector>
using V = std::vector<int64_t>;
// unflatten
V good1(int64_t index, V strides, int64_t offset) {
  V r;
  int64_t x = index - offset;
  for (auto s : strides) { r.push_back(x / s); x %= s; }
  return r;
}
V good2(int64_t index, V strides, int64_t offset) {
  V r(strides.size(), 0);
  index -= offset;
  for (size_t i = 0; i < strides.size(); ++i) {
    r[i] = index / strides[i];
    index = index - r[i] * strides[i];
  }
  return r;
}
V bad1(int64_t index, V strides, int64_t offset) {
  V r;
  int64_t x = index;
  for (auto s : strides) { r.push_back(x / s); x = x % s; }
  return r;
}
V bad2(int64_t index, V strides, int64_t offset) {
  V r;
  int64_t x = index - offset;
  for (auto s : strides) { r.push_back(x % s); x = x / s; }
  return r;
}
// widths
int64_t good_w(V shape) {
  int64_t n = 1;
  for (int i = 0; i < (int)shape.size(); ++i) n *= shape[i];
  return n;
}
int64_t bad_w1(V shape) {
  int n = 1;
  for (auto s : shape) n *= s;
  return n;
}
int64_t bad_w2(V shape, V idx) {
  unsigned last = shape[0] * idx[0];
  return last;
}
