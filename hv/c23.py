"""C23: the circuit a linear-algebra kernel builds denotes the kernel's documented value."""
import os
from fractions import Fraction
from math import gcd
from .cprop import I, T
from .alg import Alg, atom, padd, pmul, ptext, const, cval, UNDEF
from . import alg, prog, facts

H, DAG = "lib/Kernel/KernelImplementation.h", "lib/Kernel/ArithmeticDag.h"
V, M, DT = T("V"), T("Mx"), T("dt")
NODE = "mlir::heir::kernel::ArithmeticDagNode<mlir::heir::kernel::SymbolicValue>::"


def vec(a, n):
    return [atom(f"{a}{i}") for i in range(n)]


def mat(a, r, n):
    return [[atom(f"{a}{j}_{i}") for i in range(n)] for j in range(r)]


def rot(v, k):
    return [v[(i + k) % len(v)] for i in range(len(v))]


def vadd(a, b):
    return [padd(x, y) for x, y in zip(a, b)]


def vmul(a, b):
    return [pmul(x, y) for x, y in zip(a, b)]


def fold(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = op(r, x)
    return r


def full(x, n):
    return [x] * n if isinstance(x, dict) else x


class Kernels:
    def __init__(self, c, P):
        self.c, self.P = c, P

    def fns(self, name, k, pred=None):
        fs = [f for f in self.P.all if f.name == name and not f.dep and f.body is not None and len(f.params) == k and f.rel == H]
        return [f for f in fs if pred is None or pred(f)]

    def run(self, name, args, leaves, n, want, what, shapes=None, pred=None):
        c = self.c
        fs = self.fns(name, len(args), pred)
        if len(fs) != 1:
            c.undecided(f"{name}: {what}", "entry point not found in the form the callers use")
            return
        f = fs[0]
        c.count("kernel instances evaluated")
        w = Alg(self.P)
        w.shapes = dict(shapes or {})
        w.shapes[DT] = [n]
        a = {i: (x(w) if callable(x) else x) for i, x in enumerate(args)}
        try:
            v, _ = w.run(f, a)
        except Exception as e:      # a form the evaluator does not model: no verdict
            if os.environ.get("HV_DEBUG"):
                raise
            v = None
        key = f"{H}:{name}"
        where = f"{H}:{f.line} {name}"
        if v == ("noret",) and not w.forks:
            c.bad(key + ":aborts", where, f"for {what} an assertion of the kernel fails")
            return
        if w.oob and not w.forks:
            c.bad(key + ":range", where, f"for {what} the construction uses {alg.oobtext(w.oob[0])}")
            return
        r = w.denote(v, leaves, n) if v is not None else None
        if w.den is not None and w.den.oob and (r is None or any(x is None for x in full(r, n))):
            c.bad(key + ":range", where, f"for {what} the circuit reads {w.den.oob[0]}")
            return
        if r is None or isinstance(r, tuple) or any(not isinstance(x, dict) and x != UNDEF for x in full(r, n)):
            c.undecided(f"{name}: {what}", "value of the circuit not determined")
            return
        r = full(r, n)
        for k, (x, y) in enumerate(zip(r, want)):
            if x != y:
                c.bad(key, where, f"for {what} slot {k} holds {ptext(x) if x != UNDEF else 'an unwritten element'}, not {ptext(y)}")
                return
        c.ok(f"{name} {what}: {n} slots" )


def check(c):
    c.rule("A kernel's builder is evaluated abstractly on its source for each listed size; every node it creates is kept as a term, and the "
           "term's value is computed with one symbolic unknown per slot, so agreement holds for all slot contents at once")
    c.rule("Slot k of the result must equal the documented polynomial in the input slots: sums of rotations, rotations times diagonals, "
           "matrix-vector and matrix-matrix products under the documented packing; rolled and unrolled forms must agree with it alike")
    c.rule("No element that was never written and no position outside a sequence or tensor is read")
    c.assume.append("The leaves, rotations and tensor reads of a circuit mean what their node kinds say; the node factories are checked to store "
                    "their operands in the fields of that name")
    try:
        P = alg.load()
    except facts.AnalysisBroken as e:
        c.undecided("kernels", f"the witness instantiation does not compile: {str(e)[:200]}")
        return c.finish(EXPLANATION)
    K = Kernels(c, P)
    deep = c.tier == "thorough"
    leafp = lambda f: "shared_ptr" not in f.params[0].type
    nodep = lambda f: "shared_ptr" in f.params[0].type

    # -- rotate-and-reduce without plaintexts
    for n in (8, 12) + ((16, 32) if deep else ()):
        for period in (1, 2, 3) + ((4, 5) if deep else ()):
            for steps in (1, 2, 4, 8) + ((16,) if deep else ()):
                v = vec("v", n)
                for opn, comb in (("add", vadd), ("mul", vmul)):
                    want = fold(comb, [rot(v, i * period) for i in range(steps)])
                    for kind in "if":
                        if kind == "f" and (n, period) != (8, 1):
                            continue
                        for un in (1, 0):
                            K.run("implementRotateAndReduce", [V, ("fail",), I(period), I(steps), DT, T("map", ()), ("s", f"arith.{opn}{kind}"), I(un)],
                                  {V: v}, n, want, f"{'unrolled' if un else 'rolled'} {opn}{kind}, period {period}, {steps} steps, {n} slots")
                fn = T("fn", NODE + "add", "")
                want = fold(vadd, [rot(v, i * period) for i in range(steps)])
                K.run("implementRotateAndReduceAccumulation", [lambda w: w.node("leaf", V), I(period), I(steps), fn], {V: v}, n, want,
                      f"period {period}, {steps} steps, {n} slots", pred=nodep)
                K.run("implementRotateAndReduceAccumulationRolled", [lambda w: w.node("leaf", V), I(period), I(steps), fn, DT], {V: v}, n, want,
                      f"period {period}, {steps} steps, {n} slots", pred=nodep)
    # -- with plaintexts
    for n in (12,) + ((16, 20) if deep else ()):
        for period in (1, 2, 5) + ((3, 4) if deep else ()):
            for steps in range(1, (26 if deep else 13)):
                v, m = vec("v", n), mat("m", steps, n)
                zs = {(), (0,), (steps - 1,), tuple(range(0, steps, 2)), tuple(range(steps)), tuple(range(steps // 2))}
                for z in sorted(zs):
                    want = [{} for _ in range(n)]
                    for i in range(steps):
                        if i not in z:
                            want = vadd(want, vmul(m[i], rot(v, i * period)))
                    mm = [[{} for _ in range(n)] if i in z else m[i] for i in range(steps)]
                    for un in (1, 0):
                        if period != 1 and z and not deep and steps not in (5, 9):
                            continue
                        K.run("implementRotateAndReduce",
                              [V, M, I(period), I(steps), DT, T("map", tuple((I(i), I(1)) for i in z)), ("s", "arith.addf" if steps % 2 else "arith.addi"), I(un)],
                              {V: v, M: mm}, n, want, f"{'unrolled' if un else 'rolled'} with plaintexts, period {period}, {steps} steps, "
                              f"{len(z)} zero diagonals, {n} slots", {M: [steps, n]})
    # -- dot, matvec
    for n in (1, 2, 4, 8) + ((16, 32) if deep else ()):
        a, b = vec("a", n), vec("b", n)
        s = fold(padd, [pmul(x, y) for x, y in zip(a, b)])
        K.run("implementDot", [V, M, I(n), DT], {V: a, M: b}, n, [s] * n, f"{n} slots")
    for r in range(1, 9 if deep else 6):
        for n in {r, r + 3, 8}:
            if n < r:
                continue
            v, m = vec("v", n), mat("m", r, n)
            want = fold(vadd, [vmul(rot(v, i), m[i]) for i in range(r)])
            K.run("implementMatvec", [("e", "mlir::heir::KernelName", "MatvecDiagonal"), M, V], {V: v, M: m}, n, want,
                  f"{r} diagonals, {n} slots", {M: [r, n]})
    # -- broadcasted reduction
    for logn in (2, 3, 4) + ((5,) if deep else ()):
        for logb in range(0, logn + 1):
            for logp in range(0, logn - logb + 1):
                n, steps, period = 1 << logn, 1 << logb, 1 << logp
                nat = steps * period == n
                bs = steps * period
                v = vec("v", n)
                for opn, comb in (("add", padd), ("mul", pmul)):
                    if opn == "mul" and not nat:
                        continue
                    want = [fold(comb, [v[k // bs * bs + i * period + k % period] for i in range(steps)]) for k in range(n)]
                    mask = [const(1) if k % bs >= (steps - 1) * period else {} for k in range(n)]
                    for un in (1, 0):
                        K.run("implementBroadcastedReduce",
                              [lambda w: w.node("leaf", V), ("fail",) if nat else (lambda w: w.node("leaf", M)), I(period), I(steps), I(n), DT,
                               ("s", f"arith.{opn}i"), I(un)], {V: v, M: mask}, n, want,
                              f"{'unrolled' if un else 'rolled'} {opn}, period {period}, {steps} steps, {n} slots" + ("" if nat else ", block mask"))
    # -- Halevi-Shoup with squat diagonals
    for lr in range(0, 4):
        for lc in range(lr, 5 if deep else 4):
            R, C = 1 << lr, 1 << lc
            for n in {C, 2 * C}:
                shapes = {(R, C)}
                shapes |= {(R - 1, C - 1), (R // 2 + 1, C), (R, C // 2 + 1)}
                for (r0, c0) in shapes:
                    if r0 < 1 or c0 < 1 or 1 << max(r0 - 1, 0).bit_length() != R or 1 << max(c0 - 1, 0).bit_length() != C:
                        continue
                    x = [atom(f"x{k}") if k < c0 else {} for k in range(C)]
                    A = [[atom(f"a{i}_{j}") if i < r0 and j < c0 else {} for j in range(C)] for i in range(R)]
                    for z in {(), (0,), (R - 1,)}:
                        B = [row[:] for row in A]
                        D = [[B[k % R][(k + d) % C] for k in range(n)] for d in range(R)]
                        for d in z:
                            for k in range(n):
                                B[k % R][(k + d) % C] = {}
                            D[d] = [{}] * n
                        want = []
                        for k in range(n):
                            s = {}
                            for j in range(C):
                                s = padd(s, pmul(B[k % R][j], x[j]))
                            want.append(s)
                        for un in (1, 0):
                            K.run("implementHaleviShoup", [V, M, ("l", (I(r0), I(c0))), DT, T("map", tuple((I(i), I(1)) for i in z)), I(un)],
                                  {V: [x[k % C] for k in range(n)], M: D}, n, want,
                                  f"{'unrolled' if un else 'rolled'} {r0}x{c0} matrix, {len(z)} zero diagonals, {n} slots", {M: [R, n]})
    # -- bicyclic and tricyclic products
    top = 11 if deep else 8
    tri = [(m, n, p) for m in range(1, top) for n in range(1, top + 2) for p in range(1, top) if gcd(m, n) == gcd(m, p) == gcd(n, p) == 1 and m * n * p <= (400 if deep else 130)]
    for m, n, p in tri:
        N = m * n * p
        A = [atom(f"a{k % m}_{k % n}") for k in range(N)]
        B = [atom(f"b{k % n}_{k % p}") for k in range(N)]
        el = {}
        want = []
        for k in range(N):
            i, j = k % m, k % p
            if (i, j) not in el:
                el[(i, j)] = {tuple(sorted((f"a{i}_{t}", f"b{t}_{j}"))): Fraction(1) for t in range(n)}
            want.append(el[(i, j)])
        K.run("implementBicyclicMatmul", [V, M, I(m), I(n), I(p), DT], {V: A, M: B}, N, want, f"{m}x{n} times {n}x{p}, {N} slots")
    for h, m, n, p in [(1, 2, 3, 5), (2, 1, 3, 5), (2, 3, 5, 1), (2, 3, 1, 5), (3, 2, 5, 1), (2, 3, 5, 7), (3, 2, 7, 5), (3, 4, 5, 1), (5, 2, 3, 7), (2, 5, 9, 1)] + \
            ([(3, 5, 7, 2), (7, 2, 5, 3), (5, 3, 8, 7), (2, 7, 9, 5), (3, 2, 11, 5)] if deep else []):
        N = h * m * n * p
        A = [atom(f"a{k % h}_{k % m}_{k % n}") for k in range(N)]
        B = [atom(f"b{k % h}_{k % n}_{k % p}") for k in range(N)]
        want = [{tuple(sorted((f"a{k % h}_{k % m}_{t}", f"b{k % h}_{t}_{k % p}"))): Fraction(1) for t in range(n)} for k in range(N)]
        K.run("implementTricyclicBatchMatmul", [V, M, I(h), I(m), I(n), I(p), DT], {V: A, M: B}, N, want, f"{h} batches of {m}x{n} times {n}x{p}, {N} slots")
    factories(c, P)
    c.need("kernel instances evaluated", 100)
    return c.finish(EXPLANATION)


FIELDS = {"add": ("AddNode", ["left", "right"]), "sub": ("SubtractNode", ["left", "right"]), "mul": ("MultiplyNode", ["left", "right"]),
          "floorDiv": ("FloorDivNode", ["left", "divisor"]), "power": ("PowerNode", ["base", "exponent"]), "extract": ("ExtractNode", ["operand", "index"]),
          "insert": ("InsertNode", ["scalar", "dest", "index"]), "comparison": ("ComparisonNode", ["left", "right", "predicate"]),
          "ifElse": ("IfElseNode", ["condition", "thenBody", "elseBody"]), "leftRotate": ("LeftRotateNode", ["operand", "shift"]),
          "leftRotateBulk": ("LeftRotateBulkNode", ["operand", "shifts"]), "resultAt": ("ResultAtNode", ["operand", "index"]),
          "constantScalar": ("ConstantScalarNode", ["value", None]), "splat": ("SplatNode", ["value", None]), "yield": ("YieldNode", ["elements"])}


def factories(c, P):
    """The emplaced node of each factory holds the parameters in order."""
    def strip(e):
        while e is not None:
            if e.k == "Cast":
                e = e.e
            elif e.k == "Call" and (e.n in ("move", "forward")) and e.args:
                e = e.args[0]
            elif e.k == "Ctor" and len([a for a in e.args or [] if a.k != "DefArg"]) == 1:
                e = e.args[0]
            else:
                return e
        return e
    for f in P.all:
        if f.dep or f.body is None or f.name not in FIELDS or f.rel != DAG or "SymbolicValue" not in (f.q or "") + (f.clsq or ""):
            continue
        kind, fields = FIELDS[f.name]
        pid = {p.d["id"]: i for i, p in enumerate(f.params)}
        inits = [n for n in f.body.walk() if n.k == "InitList" and kind in (n.type or "")]
        where = f"{DAG}:{f.line} {f.name}"
        for l in inits:
            xs = [strip(x) for x in l.args or l.xs or []]
            got = [pid.get(x.d.get("id")) if x is not None and x.k == "Ref" else None for x in xs]
            c.count("node factories")
            if any(g is not None and g != i for i, g in enumerate(got)):
                c.bad(f"{DAG}:{f.name}", where, f"stores parameter {[g for i, g in enumerate(got) if g is not None and g != i][0]} where operand "
                      f"{[i for i, g in enumerate(got) if g is not None and g != i][0]} belongs")
            else:
                c.ok(f"{where}: operands in order")


EXPLANATION = "Kernel builders of KernelImplementation.h evaluated on their source over enumerated sizes with symbolic slot contents."
