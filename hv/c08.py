"""C08: noise estimates are computed without wrap-around, truncation or a forgotten input."""
from decimal import Decimal
from .noise import Sym, Num, Log, Obj, Enum, Lst, Nullopt, Unsup, UNK, NEG, sym, cnum, paths, deps, dirn, peval, ptxt, fl, ATOMS, padd
from . import noise, prog, facts, report

D = "lib/Analysis/NoiseAnalysis/"
FILES = [D + f"{s}/Noise{m}Model.cpp" for s in ("BGV", "BFV") for m in ("ByBoundCoeff", "ByVarianceCoeff", "CanEmb")]
OPS = {"evalEncryptPk": (), "evalEncryptSk": (), "evalEncrypt": (), "evalConstant": (), "evalAdd": ("lhs", "rhs"), "evalMul": ("lhs", "rhs"), "evalModReduce": ("input",), "evalRelinearizeHYBRID": ("input",), "evalRelinearize": ("input",), "toLogBound": ("noise",)}
FAULTONLY = ("toLogTotal", "toLogBudget")
B = {"N": (4, 17), "t": (1, 62), "std": (0, 8), "dnum": (0, 7), "lvl": (0, 8), "q": (1, 63), "Q": (1, 3600), "p": (1, 63), "P": (1, 3600), "qi": (1, 63), "pi": (1, 63)}
NAMES = {"N": "the ring dimension", "t": "the plaintext modulus"}
GROW = ("N", "t")


def getters():
    def lst(name, el, e, hi):
        return Lst(name, e, 6)
    q = Log(sym("q", 1, 63)); p = Log(sym("p", 1, 63))
    return {
        "getRingDim": sym("N", 4, 17, True, 4), "getPlaintextModulus": sym("t", 1, 62, True),
        "getStd0": sym("std", 0, 8), "getDnum": sym("dnum", 0, 7, True),
        "getLevel": sym("lvl", NEG, 8, True), "getCurrentLevel": sym("lvl", NEG, 8, True),
        "getDimension": sym("dim", 1, 5, True),
        "getLogqi": Lst("logqi", q), "getLogpi": Lst("logpi", p),
        "getQi": Lst("qi", sym("q", 1, 63, True)), "getPi": Lst("pi", sym("p", 1, 63, True)),
        "getUsePublicKey": lambda S: S.choose(("flag", "pk"), [True, False]),
        "isEncryptionTechniqueExtended": lambda S: S.choose(("flag", "ext"), [False, True]),
    }


noise.Sym.TOTAL = {"q": ("Q", 1, 3600), "p": ("P", 1, 3600)}
LOGC = "mlir::heir::Log2Arithmetic"


def lobj(l):
    return Obj(LOGC, {"log2value": l})


def state(name, lo=-200, hi=3600):
    return Obj("NoiseState", {"noiseType": Enum("SET"), "value": lobj(Log(sym(name, lo, hi))), "degree": sym("d" + name, NEG, 5, True)})


def hook(S, n, name, vals, f):
    """Sums of logarithms stand for sums of the numbers; the operator itself is decided separately."""
    if f is not None and (f.full or "").endswith("Log2Arithmetic::operator+") and len(vals) == 2 and not getattr(S, "rawlog", False):
        a, b = (logof(v) for v in vals)
        if a is None or b is None:
            return mk(vals[0], Log(Num(f=fl(vals[0]) | fl(vals[1]))))
        x, y = a.x, b.x
        if x.p == {}:
            return mk(vals[0], Log(y.withf(x.f)))
        if y.p == {}:
            return mk(vals[0], Log(x.withf(y.f)))
        p = padd(x.p, y.p) if x.p is not None and y.p is not None else None
        k = None not in (x.lo, x.hi, y.lo, y.hi)
        return mk(vals[0], Log(Num(p, noise.addlog(x.lo, y.lo) if k else None, noise.addlog(x.hi, y.hi) if k else None, f=x.f | y.f)))
    return None


def logof(v):
    if isinstance(v, Log):
        return v
    if isinstance(v, Obj):
        x = v.fl.get("log2value")
        if x is None:
            x = v.fl.get("value")
        return logof(x) if x is not None else None
    return None


def mk(like, l):
    return lobj(l)


def result(v):
    """The estimated quantity of a returned value (a noise state or a logarithm)."""
    if isinstance(v, Obj):
        return logof(v)
    if isinstance(v, Log):
        return v
    if isinstance(v, Num) and v.p is not None and v.const() is None:
        return v
    return None


def args_of(f):
    out = []
    k = 0
    for p in f.params:
        t = p.type
        if "NoiseState" in t or "StateType" in t:
            out.append(state(f"e{k}")); k += 1
        elif "Param" in t:
            out.append(Obj("param", {}))
        else:
            out.append(UNK)
    return out, k


def run_fn(P, f, raw=False, args=None, this=None):
    g = getters()
    av, k = args_of(f)
    if args is not None:
        av = args

    def make(ch):
        S = Sym(P, g, ch, hook)
        S.BOUNDS = {**B, **{f"e{i}": (-200, 3600) for i in range(4)}}
        S.rawlog = raw
        return S

    def run(S):
        S.env[("this",)] = this or Obj("model", {})
        return S.call(f, None, av, this or Obj("model", {}))
    return paths(make, run), k


def point(kind, base, **over):
    vals = {"N": 2 ** 13, "t": 65537, "std": Decimal("3.2"), "dnum": 3, "lvl": 2, "q": Decimal(2) ** 55, "Q": Decimal(2) ** 165, "p": Decimal(2) ** 60, "P": Decimal(2) ** 120, "dim": 2}
    vals.update(over)

    def env(x):
        if x in vals:
            return Decimal(vals[x])
        if x.startswith("max "):
            return Decimal(2) ** 60
        if x.startswith("min "):
            return Decimal(2) ** 58
        if x.startswith("2^"):
            return Decimal(2) ** Decimal(x[2:])
        if x.startswith("d"):
            return Decimal(1)
        if x.startswith("|"):
            return Decimal(2)
        raise ValueError(x)
    return env


def falls(p, s):
    """A pair of points, differing only in s, at which the formula falls when s grows."""
    grid = {"N": [2 ** k for k in (4, 10, 13, 17)], "t": [2, 65537, 2 ** 40, 2 ** 60]}
    noises = [Decimal(2) ** k for k in (-20, 0, 30, 300)]
    ds = deps(p)
    es = sorted(x for x in ds if x.startswith("e") and x[1:].isdigit())
    combos = [{}]
    for e in es:
        if e != s:
            combos = [{**c, e: v} for c in combos for v in noises]
    for o in GROW:
        if o != s and o in ds:
            combos = [{**c, o: v} for c in combos for v in grid[o]]
    axis = grid.get(s, noises)
    for c in combos:
        last = None
        for v in axis:
            try:
                y = peval(p, point(None, None, **c, **{s: v}))
            except (ValueError, ArithmeticError):
                return None
            if last is not None and y < last[1] * (1 - Decimal("1e-9")) - Decimal("1e-30"):
                return {**c, s: (last[0], v)}, last[1], y
            last = (v, y)
    return None


def holds(op, a, b, pt):
    """Whether a recorded comparison is true at a point."""
    if a is None or b is None or a[1] is None or b[1] is None:
        raise ValueError
    x, y = peval(a[1], pt), peval(b[1], pt)
    if a[0] != b[0]:            # the logarithm of one side against a number
        x, y = (x, Decimal(2) ** y) if a[0] else (Decimal(2) ** x, y)
    return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


def pieces(rs):
    """Paths that only comparisons of formulas tell apart, grouped."""
    out = {}
    for S, v in rs:
        keys = {k for *_, k in S.pcs}
        rest = tuple((str(k), ch) for k, n, ch in S.made if k not in keys)
        r = result(v)
        p = None if r is None else (r.x if isinstance(r, Log) else r).p
        out.setdefault(rest, []).append((S.pcs, p))
    return [g for g in out.values() if len(g) > 1]


def piecewise(c, f, rs, inputs, label, pn):
    for g in pieces(rs):
        if any(p is None for _, p in g):
            continue

        def value(pt):
            for pcs, p in g:
                if all(holds(o, a, b, pt) == t for o, a, b, t, _ in pcs):
                    return id(pcs), peval(p, pt)
            raise ValueError
        c.count("piecewise")
        for s in inputs:
            for o in [Decimal(2) ** k for k in (-20, 0, 30, 300)]:
                other = {e: o for e in inputs if e != s}
                at = lambda v: value(point(None, None, **other, **{s: v}))
                try:
                    last = None
                    for k in range(-120, 420, 4):
                        v = Decimal(2) ** k
                        cur = at(v)
                        if last is not None and cur[0] != last[1][0]:
                            a, b, fa, fb = last[0], v, last[1], cur
                            for _ in range(110):
                                m = (a + b) / 2
                                fm = at(m)
                                if fm[0] == fa[0]:
                                    a, fa = m, fm
                                else:
                                    b, fb = m, fm
                            if fb[1] < fa[1] * (1 - Decimal(2) ** -50):
                                nm = pn[inputs.index(s)]
                                c.bad(f"jump:{f.rel}:{f.name}:{s}", f.where(), f"{label} jumps from {fa[1]:.12g} down to {fb[1]:.12g} when the noise of '{nm}' passes {a:.6g} (the other noise being {o:.3g})")
                                return
                        last = (v, cur)
                except (ValueError, ArithmeticError):
                    break


def fmt(x):
    if isinstance(x, tuple):
        return " -> ".join(fmt(y) for y in x)
    x = Decimal(x)
    return f"{x:.3g}" if x >= 100000 or x != int(x) else str(int(x))


def report_faults(c, f, vs, seen):
    n = 0
    for ln, kind, msg in sorted(vs):
        key = (f.rel, ln, kind)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        c.bad(f"{kind}:{f.rel}:{f.name}:{msg[:60]}", f"{f.rel}:{ln}", f"{msg}; the estimate computed by {f.full.split('heir::')[-1]} contains it")
    return n


def check(c):
    P = prog.load(FILES + ["lib/Analysis/NoiseAnalysis/Noise.cpp", "lib/Utils/LogArithmetic.cpp"])
    seen = set()
    c.rule("No integer operation on the way to an estimate can exceed its type or drop a remainder, no double can overflow or vanish, nothing is narrowed to a smaller type")
    c.rule("The formula of each operation contains the noise of every input and never falls when one of them, the ring dimension or the plaintext modulus grows")
    c.rule("Noise states and logarithmic numbers add, multiply, compare and join as the numbers they stand for")
    c.assume.append("ring dimension 2^4..2^17, plaintext modulus 2..2^62, deviation 1..256, at most 256 levels, moduli of 1..63 bits, their product up to 2^3600")
    for rel in FILES:
        for f in sorted((f for f in P.all if f.rel == rel and not f.dep and f.name in {**OPS, **dict.fromkeys(FAULTONLY)}), key=lambda f: f.line):
            model(c, P, f, seen)
    params(c, P)
    logs(c, P)
    states(c, P)
    c.need("formulas", 40)
    return c.finish("Each estimate is evaluated symbolically along every path through the model: its type-range behaviour, the noise inputs it depends on and its direction in each input, ring dimension and plaintext modulus follow from the extracted formula. The logarithmic number type is decided case by case for the order and the distance of its operands.")


def model(c, P, f, seen):
    try:
        rs, k = run_fn(P, f)
    except Unsup as e:
        c.undecided(f.where(), f"{f.full}: {e}")
        return
    c.count("functions")
    c.count("paths", len(rs))
    inputs = [f"e{i}" for i in range(k)]
    pn = [p.n for p in f.params if "NoiseState" in p.type or "StateType" in p.type]
    label = f.full.split("heir::")[-1]
    if k and f.name not in FAULTONLY:
        piecewise(c, f, rs, inputs, label, pn)
    for S, v in rs:
        r = result(v)
        faults = set(fl(v)) | set(S.cf)
        if not faults:
            c.ok()
        report_faults(c, f, faults, seen)
        if f.name in FAULTONLY:
            c.count("formulas")
            continue
        if r is None or (r.x if isinstance(r, Log) else r).p is None:
            if isinstance(v, Num) and v.const() is not None or isinstance(r, Log) and r.x.p == {}:
                c.count("formulas")
                continue
            c.undecided(f.where(), f"{label}: no formula for the result")
            continue
        p = (r.x if isinstance(r, Log) else r).p
        c.count("formulas")
        ds = deps(p)
        if len(c.samples) < 12:
            c.samples.append(f"{label}: {ptxt(p)[:160]}")
        for e, nm in zip(inputs, pn):
            if e in ds:
                c.ok()
                continue
            if any(excuses(x, e) for x in S.conds):
                c.undecided(f.where(), f"{label}: the result does not contain '{nm}' on a path chosen by comparing noises")
                continue
            c.bad(f"ignored:{f.rel}:{f.name}:{nm}", f.where(), f"{label} returns {ptxt(p)[:120]} whatever the noise of '{nm}' is")
        for s in inputs + [x for x in GROW]:
            if s not in ds:
                continue
            d = dirn(p, s)
            if d in (0, 1):
                c.count("monotone"); c.ok()
                continue
            w = falls(p, s)
            what = NAMES.get(s) or f"the noise of '{pn[inputs.index(s)]}'"
            if w is not None:
                at, y0, y1 = w
                c.bad(f"decreasing:{f.rel}:{f.name}:{s}", f.where(), f"{label} falls when {what} grows: {ptxt(p)[:160]} goes from {fmt(y0)} to {fmt(y1)} at " + ", ".join(f"{x}={fmt(y)}" for x, y in at.items()))
            else:
                c.undecided(f.where(), f"{label}: direction in {what} of {ptxt(p)[:160]}")


def excuses(cond, e):
    """A condition that may justify a result without e: e compared with another noise, or an unknown condition."""
    op, a, b, ln = cond
    if "?" in a or "?" in b:
        return True
    isn = lambda s: any(x.startswith("e") and x[1:].isdigit() for x in s)
    if e in a and (isn(b) or not b and op in ("==", "!=")) or e in b and (isn(a) or not a and op in ("==", "!=")):
        return True
    return False


def params(c, P):
    """The fields the symbols stand for are as wide as the quantities."""
    want = {"plaintextModulus": 62, "ringDim": 17}
    for full, r in P.recs.items():
        if not full.endswith("SchemeParam"):
            continue
        for fld in r.fields:
            if fld.n in want:
                w = noise.width(fld.type)
                c.count("fields")
                if w is not None and (w[0] == "i" and w[1] - w[2] <= want[fld.n] or w == ("f", 32)):
                    c.bad(f"field:{fld.n}", f"{r.rel}:{fld.line or r.line}", f"{full}::{fld.n} of type '{fld.type}' cannot hold every value up to 2^{want[fld.n]}")


X = (-3000, 3000)


def logs(c, P):
    """Log2Arithmetic: sums, products and comparisons of numbers kept as logarithms."""
    cls = "mlir::heir::Log2Arithmetic"
    fs = {f.name: f for f in P.all if f.full.startswith(cls + "::") and not f.dep}

    def obj(v):
        return Obj(cls, {"log2value": v})

    def go(f, a, b, bounds):
        def make(ch):
            S = Sym(P, {}, ch, hook)
            S.BOUNDS = bounds
            S.rawlog = True
            return S

        def run(S):
            S.env[("this",)] = a
            return S.call(f, None, [b] if b is not None else [], a)
        return paths(make, run)

    f = fs.get("operator+")
    if f is None:
        c.undecided("lib/Utils/LogArithmetic.cpp", "Log2Arithmetic::operator+ not found")
    else:
        regions = [(1e-9, 40.0), (53.0, 500.0), (513.0, 6000.0)]
        for swap in (False, True):
            for reg in [None] + regions:
                bounds = {"x": X, "D": reg or (0, 0)}
                big = Log(sym("x", *X))
                if reg is None:
                    small = Log(sym("x", *X))
                else:
                    small = Log(Num({noise.mmul((("x", noise.Fraction(1)),), (("D", noise.Fraction(-1)),)): 1.0}, X[0] - reg[1], X[1] - reg[0]))
                a, b = (small, big) if swap else (big, small)
                try:
                    rs = go(f, obj(a), obj(b), bounds)
                except Unsup as e:
                    c.undecided(f.where(), f"operator+: {e}")
                    continue
                want = padd(big.x.p, small.x.p)
                for S, v in rs:
                    c.count("logcases"); c.ok()
                    r = logof(v) if isinstance(v, (Obj, Log)) else None
                    fs_ = set(fl(v)) | set(S.cf)
                    # a power whose exponent is the (bounded) difference only
                    for ln, kind, msg in sorted(fs_):
                        c.bad(f"log-{kind}:{msg[:50]}", f"{f.rel}:{ln}", f"Log2Arithmetic::operator+: {msg} (operands {'in ascending' if swap else 'in descending'} order, {'equal' if reg is None else f'2^{reg[0]:.0f} to 2^{reg[1]:.0f} apart'})")
                    if r is None or r.x.p is None:
                        c.undecided(f.where(), "Log2Arithmetic::operator+: no formula on a path")
                        continue
                    if same(r.x.p, want):
                        continue
                    if reg is not None and reg[0] >= 53 and same(r.x.p, big.x.p):
                        continue
                    if any("?" in x[1] | x[2] for x in S.conds):
                        c.undecided(f.where(), "Log2Arithmetic::operator+: unknown condition")
                        continue
                    how = "equal operands" if reg is None else f"operands 2^{max(reg[0], 0):.0f} to 2^{reg[1]:.0f} apart, the {'right' if swap else 'left'} one larger"
                    c.bad("log-sum", f.where(), f"Log2Arithmetic::operator+ yields {ptxt(r.x.p)} instead of {ptxt(want)} for {how} (D is their quotient)")
        for z in (0, 1):
            zero = Log(Num({}, NEG, NEG)); x = Log(sym("x", *X))
            try:
                for S, v in go(f, obj(zero if z else x), obj(x if z else zero), {"x": X}):
                    c.count("logcases"); c.ok()
                    r = logof(v)
                    if r is None or r.x.p is None:
                        c.undecided(f.where(), "Log2Arithmetic::operator+ with zero: no formula")
                    elif not same(r.x.p, x.x.p):
                        c.bad("log-zero", f.where(), f"Log2Arithmetic::operator+ of x and 0 yields {ptxt(r.x.p)}")
            except Unsup as e:
                c.undecided(f.where(), f"operator+: {e}")
    f = fs.get("operator*")
    if f is not None:
        x, y = Log(sym("x", *X)), Log(sym("y", *X))
        try:
            for S, v in go(f, obj(x), obj(y), {"x": X, "y": X}):
                c.count("logcases"); c.ok()
                r = logof(v)
                want = noise.pmul(x.x.p, y.x.p)
                if r is None or r.x.p is None:
                    c.undecided(f.where(), "Log2Arithmetic::operator*: no formula")
                elif not same(r.x.p, want):
                    c.bad("log-product", f.where(), f"Log2Arithmetic::operator* yields {ptxt(r.x.p)} instead of x*y")
                for ln, kind, msg in sorted(set(fl(v)) | set(S.cf)):
                    c.bad(f"log-{kind}:{msg[:50]}", f"{f.rel}:{ln}", f"Log2Arithmetic::operator*: {msg}")
        except Unsup as e:
            c.undecided(f.where(), f"operator*: {e}")
    f = fs.get("of")
    if f is not None:
        for val, want in ((cnum(0), {}), (sym("x", -1000, 1000), {(("x", noise.Fraction(1)),): 1.0})):
            try:
                for S, v in go1(P, f, [val]):
                    c.count("logcases"); c.ok()
                    r = logof(v)
                    for ln, kind, msg in sorted(set(fl(v))):
                        c.bad(f"log-{kind}:{msg[:50]}", f"{f.rel}:{ln}", f"Log2Arithmetic::of: {msg}")
                    if r is None or r.x.p is None:
                        c.undecided(f.where(), "Log2Arithmetic::of: no formula")
                    elif not same(r.x.p, want):
                        c.bad("log-of", f.where(), f"Log2Arithmetic::of(x) keeps {ptxt(r.x.p)} for x {'= 0' if want == {} else '> 0'}")
            except Unsup as e:
                c.undecided(f.where(), f"of: {e}")
    for op in ("operator<", "operator==", "operator>", "operator<=", "operator>=", "operator!="):
        f = fs.get(op)
        if f is None:
            continue
        o = op[8:]
        zero = Log(Num({}, NEG, NEG)); x = Log(sym("x", *X))
        small = Log(Num({noise.mmul((("x", noise.Fraction(1)),), (("D", noise.Fraction(-1)),)): 1.0}, X[0] - 100, X[1] - 1))
        bounds = {"x": X, "D": (1, 100)}
        for a, b, d, txt in ((small, x, "<", "x < y"), (x, small, ">", "x > y"), (x, x, "=", "x = y"), (zero, x, "<", "0 and x"), (x, zero, ">", "x and 0"), (zero, zero, "=", "0 and 0")):
            try:
                for S, v in go(f, obj(a), obj(b), bounds):
                    c.count("logcases"); c.ok()
                    if isinstance(v, bool) and v != noise.decide(o, d) and not any("?" in z[1] | z[2] for z in S.conds):
                        c.bad(f"log-order:{op}", f.where(), f"Log2Arithmetic::{op} answers {v} for {txt}")
                    elif not isinstance(v, bool):
                        c.undecided(f.where(), f"{op}: no answer")
            except Unsup as e:
                c.undecided(f.where(), f"{op}: {e}")


def same(p, q):
    """True: the formulas agree (as far as a sample of points tells when they are written differently)."""
    d = padd(p, q, -1.0)
    if all(abs(v) < 1e-6 for v in d.values()):
        return True
    if not any(isinstance(x, int) for m in d for x, _ in m):
        return False
    for x in ("0.001", "1", "7", "1e9"):
        for y in ("2", "33", "1e6"):
            try:
                e = lambda n: Decimal(y) if n == "D" or n == "e1" or n == "k" else Decimal(x)
                a, b = peval(p, e), peval(q, e)
            except (ValueError, ArithmeticError):
                return False
            if abs(a - b) > Decimal("0.02") * max(abs(a), abs(b)):
                return False
    return True


def go1(P, f, vals, this=None, bounds=None, hk=hook):
    def make(ch):
        S = Sym(P, {}, ch, hk)
        S.BOUNDS = bounds or {**B, "x": X, "e0": X, "e1": X}
        return S

    def run(S):
        if this is not None:
            S.env[("this",)] = this
        return S.call(f, None, vals, this)
    return paths(make, run)


def states(c, P):
    """NoiseState: its arithmetic is that of the numbers it stands for, and its join an upper bound."""
    cls = "mlir::heir::NoiseState"
    a, b = state("e0", *X), state("e1", *X)
    A, Bm = logof(a).x.p, logof(b).x.p
    for f in sorted((f for f in P.all if f.full.startswith(cls + "::") and not f.dep), key=lambda f: f.line):
        name = f.name
        if name in ("operator+", "operator*") and len(f.params) == 1:
            t = f.params[0].type
            st = "NoiseState" in t
            w = noise.width(t)
            if not st and w is None:
                continue
            if st:
                arg, q = b, Bm
            else:
                hi = 1000 if w[0] == "f" else w[1] - w[2] - 1
                arg = sym("k", 0 if w[0] == "i" else -900, hi, w[0] == "i"); q = arg.p
            try:
                rs = go1(P, f, [arg], a)
            except Unsup as e:
                c.undecided(f.where(), f"{f.full}: {e}")
                continue
            want = padd(A, q) if name == "operator+" else noise.pmul(A, q)
            for S, v in rs:
                c.count("statecases"); c.ok()
                r = logof(v) if isinstance(v, (Obj, Log)) else None
                for ln, kind, msg in sorted(set(fl(r))):
                    c.bad(f"state-{kind}:{name}:{msg[:50]}", f"{f.rel}:{ln}", f"NoiseState::{name}({noise.clean(t)}): {msg}")
                if r is None or r.x.p is None:
                    c.undecided(f.where(), f"NoiseState::{name}({t}): no formula")
                elif not same(r.x.p, want):
                    if any("?" in x[1] | x[2] for x in S.conds):
                        c.undecided(f.where(), f"NoiseState::{name}: unknown condition")
                    else:
                        c.bad(f"state:{name}", f.where(), f"NoiseState::{name}({noise.clean(t)}) yields {ptxt(r.x.p)} instead of {ptxt(want)}")
                if st and isinstance(v, Obj):
                    degree(c, f, S, v, a, b)
        elif name == "join" and len(f.params) == 2:
            for lo in (0, 1, 2):
                small = Obj(a.cls, {**a.fl, "value": lobj(Log(Num({noise.mmul((("e1", noise.Fraction(1)),), (("D", noise.Fraction(-1)),)): 1.0}, -3100, 2999)))})
                un = Obj(a.cls, {"noiseType": Enum("UNINITIALIZED"), "value": Nullopt(), "degree": cnum(0)})
                l, r = ((small, b), (b, small), (un, b))[lo]
                for x, y in ((l, r), (r, l)) if lo == 2 else ((l, r),):
                    try:
                        rs = go1(P, f, [x, y], None, {"e0": X, "e1": X, "D": (1, 100), "x": X})
                    except Unsup as e:
                        c.undecided(f.where(), f"join: {e}")
                        continue
                    for S, v in rs:
                        c.count("statecases"); c.ok()
                        g = logof(v) if isinstance(v, Obj) else None
                        if g is None or g.x.p is None:
                            c.undecided(f.where(), "NoiseState::join: no formula")
                        elif not same(g.x.p, Bm) and not any("?" in z[1] | z[2] for z in S.conds):
                            c.bad("join", f.where(), f"NoiseState::join of a noise and a {'smaller one' if lo < 2 else 'value without noise'} yields {ptxt(g.x.p)}: less than one of them")
        elif name == "of" and len(f.params) in (1, 2) and noise.width(f.params[0].type) is not None:
            args = [sym("k", -900, 900)] + ([sym("g", 0, 5, True)] if len(f.params) == 2 else [])
            try:
                rs = go1(P, f, args)
            except Unsup as e:
                c.undecided(f.where(), f"of: {e}")
                continue
            for S, v in rs:
                c.count("statecases"); c.ok()
                r = logof(v) if isinstance(v, Obj) else None
                for ln, kind, msg in sorted(set(fl(r))):
                    c.bad(f"state-{kind}:of:{msg[:50]}", f"{f.rel}:{ln}", f"NoiseState::of: {msg}")
                if noise.width(f.params[0].type) != ("f", 64) and noise.width(f.params[0].type) != ("f", 80):
                    c.bad("state-of-type", f.where(), f"NoiseState::of takes '{noise.clean(f.params[0].type)}': the estimates handed to it are of type double")
                if r is None or r.x.p is None:
                    c.undecided(f.where(), "NoiseState::of: no formula")
                elif not same(r.x.p, args[0].p):
                    c.bad("state:of", f.where(), f"NoiseState::of(k) keeps {ptxt(r.x.p)}")
        elif name == "getValue" and not f.params:
            try:
                for S, v in go1(P, f, [], a):
                    c.count("statecases"); c.ok()
                    if isinstance(v, Log) and v.x.p is not None and not same(v.x.p, A):
                        c.bad("state:getValue", f.where(), f"NoiseState::getValue yields the logarithm of {ptxt(v.x.p)}")
                    for ln, kind, msg in sorted(set(fl(v))):
                        c.bad(f"state-{kind}:getValue", f"{f.rel}:{ln}", f"NoiseState::getValue: {msg}")
            except Unsup as e:
                c.undecided(f.where(), f"getValue: {e}")


def degree(c, f, S, v, a, b):
    d = v.fl.get("degree")
    if not isinstance(d, Num) or d.p is None:
        return
    ds = deps(d.p)
    if ds >= {"de0", "de1"}:
        if all(dirn(d.p, x) in (0, 1) for x in ds) and "min(" not in ptxt(d.p):
            c.ok()
        else:
            c.undecided(f.where(), f"NoiseState::{f.name}: degree {ptxt(d.p)}")
        return
    if any({"de0", "de1"} <= x[1] | x[2] or "?" in x[1] | x[2] for x in S.conds):
        c.undecided(f.where(), f"NoiseState::{f.name}: degree {ptxt(d.p)} chosen by a condition")
        return
    c.bad(f"degree:{f.name}", f.where(), f"NoiseState::{f.name} gives the result the degree {ptxt(d.p)}: it leaves out an operand's")
