#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <vector>
struct DagNode;
using P = std::shared_ptr<DagNode>;
struct goodPairNode { P left, right; };
struct badPairSecretNode { P left, right; };
struct badPairCountNode { P left, right; };
struct badPairLateNode { P left, right; };
struct LeftRotateNode { P operand, shift; };
struct LeftRotateBulkNode { P operand; std::vector<P> shifts; };
struct goodLoopNode { std::vector<P> inits, iterArgs; P body; int lower, upper, step; };
struct badLoopTripNode { std::vector<P> inits, iterArgs; P body; int lower, upper, step; };
struct DagNode { int x; };
class CountVisitor {
 public:
  long operator()(const goodPairNode& n) { return two(n.left, n.right); }
  long operator()(const badPairSecretNode& n) {
    auto* me = current;
    long c = processInternal(n.left) + processInternal(n.right);
    secret[me] = secret[n.left.get()] && secret[n.right.get()];
    return c;
  }
  long operator()(const badPairCountNode& n) {
    two(n.left, n.right);
    return 0;
  }
  long operator()(const badPairLateNode& n) {
    long c = processInternal(n.left) + processInternal(n.right);
    secret[current] = secret[n.left.get()] || secret[n.right.get()];
    return c;
  }
  long operator()(const goodLoopNode& n) { return loop(n, n.upper > n.lower ? (n.upper - n.lower - 1) / n.step + 1 : 0); }
  long operator()(const badLoopTripNode& n) { return loop(n, (n.upper - n.lower) / n.step); }

 private:
  long two(const P& a, const P& b) {
    auto* me = current;
    long c = processInternal(a);
    bool s = secret[a.get()];
    c += processInternal(b);
    if (secret.at(b.get())) s = true;
    secret.insert_or_assign(me, s);
    return c;
  }
  template <class L>
  long loop(const L& n, long trips) {
    auto* me = current;
    bool s = false;
    long c = 0;
    for (auto& i : n.inits) { c += processInternal(i); s |= secret[i.get()]; }
    long b = 0;
    if (n.body) {
      auto before = seen;
      auto go = [&](bool sec) {
        for (auto& i : n.iterArgs) { seen.insert(i.get()); secret[i.get()] = sec; }
        b = processInternal(n.body);
        return secret[n.body.get()];
      };
      if (go(s) && !s) { seen = before; go(true); s = true; }
    }
    secret[me] = s;
    return c + trips * b;
  }
  long processInternal(const P& p);
  std::unordered_set<const DagNode*> seen;
  std::unordered_map<const DagNode*, bool> secret;
  const DagNode* current = nullptr;
};
void use() {
  CountVisitor v;
  v(goodLoopNode{});
  v(badLoopTripNode{});
}
long good_normal(long r, long n) { long m = r % n; return m < 0 ? m + n : m; }
long bad_normal(long r, long n) { return (r + n) % n; }
