"""C10: modular arithmetic is exact in any width."""
from .arith import *
from . import arith
from . import prog

AP, MU, NT = "lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp", "lib/Utils/Polynomial/NTT.cpp"
WID = (2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 128, 256)
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def top(it):
    it.frame = ("fr", 0)
    return it


def setup(f, vals, cons, res=None):
    s = St(cons=cons, res=res)
    for p, v in zip(f.params, vals):
        s.env[("v", p.d.get("id"), ("fr", 0))] = v
    return s


def rng(x, hi, lo=0):
    return [add(sym(x), lin(-lo)), add(lin(hi), sym(x), -1)]


def below(x):
    return [sym(x), add(add(sym(M), lin(-1)), sym(x), -1)]


def modulus(w, lo=2):
    return [add(sym(M), lin(-lo)), add(lin((1 << w) - 1), sym(M), -1)]


class Eq:
    """Loop invariant  B = A * x  modulo m."""
    def __init__(self, x):
        self.x = x

    def val(self, it, s, c):
        v = s.env.get(c)
        return it.residue(s, v[1]) if v is not None and v[0] == "n" else None

    def assume(self, it, s, k):
        _, a, b, _ = k
        va, vb = s.env[a], s.env[b]
        if const(vb[1]) is None and len(vb[1]) == 1:
            (q,) = vb[1]
            s.res[q] = pmul(self.val(it, s, a), psym(self.x))

    def check(self, it, s, k):
        _, a, b, _ = k
        pa, pb = self.val(it, s, a), self.val(it, s, b)
        return pa is not None and pb is not None and padd(pb, pmul(pa, psym(self.x)), -1) == {}


class Pow:
    """Loop invariant  X * Y^Z = base^e  modulo m."""
    def __init__(self, base, e):
        self.base, self.e = base, e

    def goal(self):
        return {((self.base, key(sym(self.e))),): 1}

    def assume(self, it, s, k):
        _, x, y, z, _ = k
        vx, vy, vz = s.env[x], s.env[y], s.env[z]
        if len(vx[1]) == 1 and const(vx[1]) is None:
            (q,) = vx[1]
            d = ppow(it.residue(s, vy[1]), scale(vz[1], -1))
            if d is not None:
                s.res[q] = pmul(self.goal(), d)

    def check(self, it, s, k):
        _, x, y, z, _ = k
        vx, vy, vz = (s.env.get(c) for c in (x, y, z))
        if any(v is None or v[0] != "n" for v in (vx, vy, vz)):
            return False
        d = ppow(it.residue(s, vy[1]), vz[1])
        return d is not None and pmul(it.residue(s, vx[1]), d) == self.goal()


def bad_syms(p):
    return [x for x in psyms(p) if str(x).startswith(("unk", "wrap"))]


def judge(c, it, f, key_, v, s, want, what, reduced=True):
    """One returned value against its expected residue and range."""
    if v is None or v[0] != "n":
        return c.undecided(key_, f"{f.where()}: the returned value is not understood ({what})")
    if not it.precise(s):
        return c.undecided(key_, f"{f.where()}: the path depends on a condition that is not modelled ({what})")
    p = it.residue(s, v[1])
    w = [x for x in psyms(p) if str(x).startswith("wrap")]
    if w:
        node, text = it.wraps[w[0]]
        return c.bad(key_ + ":wrap", f.where(node), f"{text}, and the result {what} is built from it")
    if any(str(x).startswith("unk") for x in psyms(p)):
        return c.undecided(key_, f"{f.where()}: result not expressible ({what})")
    if want is not None and padd(p, want, -1) != {}:
        return c.bad(key_ + ":value", f.where(), f"returns {show(p)} where {show(want)} (modulo m) is due ({what})")
    if reduced and not (entails(s.cons, v[1]) and entails(s.cons, add(add(sym(M), lin(-1)), v[1], -1))):
        return c.bad(key_ + ":range", f.where(), f"may return a value outside 0..m-1 ({what}): {showl(v[1])}")
    c.ok(f"{key_} {what}")


def showl(l):
    return " + ".join((f"{v}*{k}" if k != C1 else str(v)) for k, v in l.items()) or "0"


def show(p):
    out = []
    for m, cf in list(p.items())[:6]:
        t = "*".join(str(s) + ("" if dict(e) == {C1: 1} else f"^({showl(dict(e))})") for s, e in m)
        out.append(f"{cf}*{t}" if t else str(cf))
    return " + ".join(out) or "0"


def exact(c, P, name, file, want, ap, pre):
    """Loop-free modular helpers a, b, m."""
    for f in [f for f in P.find(name=name) if not f.dep and len(f.params) == 3 and f.rel.startswith("lib/")][:1]:
        for w in (WID if ap else (64,)):
            cons = modulus(w) + (below("a") + below("b") if pre else rng("a", (1 << w) - 1) + rng("b", (1 << w) - 1))
            it = top(Arith(P))
            try:
                rets = it.run_body(f, setup(f, [num(sym("a"), w, ap), num(sym("b"), w, ap), num(sym(M), w, ap)], cons))
            except Stop as e:
                c.undecided(name, f"{f.where()}: {e}"); continue
            for v, s in rets:
                judge(c, it, f, name, v, s, want, f"for {w}-bit operands")
            c.count("paths", len(rets))
        return True
    return False


def inverse(c, P):
    for f in [f for f in P.find(name="multiplicativeInverse") if not f.dep and len(f.params) == 2][:1]:
        for w in (2, 8, 64, 65, 256):
            inverse_at(c, P, f, w)
        return True
    return False


def inverse_at(c, P, f, w):
    """Tries the invariants B = A*x over every matching of the loop's cells; one must give the contract."""
    eq = Eq("x")
    pairs = []

    def go(use):
        def templates(it, s, cells):
            for a in cells:
                for b in cells:
                    k = ("eq", a, b, eq)
                    if a != b and s.env[a][3] and s.env[b][3] and eq.check(it, s, k):
                        if use is None:
                            if (a, b) not in pairs:
                                pairs.append((a, b))
                        elif (a, b) in use:
                            yield k, True
        it = top(Arith(P, exact=True, templates=templates))
        cons = modulus(w) + below("x") + [add(sym("x"), lin(-1))]
        return it, it.run_body(f, setup(f, [num(sym("x"), w, True), num(sym(M), w, True)], cons))

    def matchings(ps):
        if not ps:
            return [[]]
        (a, b), rest = ps[0], ps[1:]
        return [[(a, b)] + m for m in matchings([p for p in rest if p[0] != a and p[1] != b and p[0] != b and p[1] != a])] + matchings(rest)
    try:
        go(None)
        cands = sorted({tuple(m) for m in matchings(pairs[:8])}, key=lambda m: (-len(m), str(m)))
        best = None
        for m in cands[:24]:
            it, rets = go(set(m))
            r = [verdict(it, v, s) for v, s in rets]
            bad = [x for x in r if x[0] != "ok"]
            if best is None or len(bad) < len(best[0]):
                best = (bad, len(r))
            if not bad:
                break
    except Stop as e:
        return c.undecided("inverse", f"{f.where()}: {e}")
    bad, n = best
    c.count("paths", n)
    if not bad:
        return c.ok(f"inverse {w} bits: every returned t has t*x = 1 modulo m and 0 <= t < m, or is 0 without an inverse")
    for kind, key_, msg in bad[:1]:
        if kind == "und":
            c.undecided("inverse", f"{f.where()}: {msg}")
        else:
            c.bad(key_, f.where(), msg)


def verdict(it, v, s):
    if v is None or v[0] != "n" or not it.precise(s):
        return ("und", "", "returned value not understood")
    if const(v[1]) == 0:
        return ("ok",)
    p = pmul(it.residue(s, v[1]), psym("x"))
    goal = padd(p, pconst(1), -1)
    if goal and not any(padd(goal, padd(a, b, -1), -1) == {} or padd(goal, padd(a, b, -1)) == {} for a, b in s.res.get(("eqs",), [])):
        if any(str(x).startswith(("unk", "wrap")) for x in psyms(p)):
            return ("und", "", f"result not expressible ({show(p)})")
        return ("bad", "inverse:value", "a returned value t need not satisfy t*x = 1 modulo m: no invariant r = t*x of the loop's variables gives it on this path")
    # |t| < m is the classical bound for the extended Euclidean algorithm
    cc = list(s.cons)
    for q in [q for q in v[1] if q not in (C1, M)]:
        cc += [add(add(sym(M), lin(-1)), sym(q), -1), add(add(sym(M), lin(-1)), sym(q))]
    if entails(cc, v[1]) and entails(cc, add(add(sym(M), lin(-1)), v[1], -1)):
        return ("ok",)
    return ("bad", "inverse:range", f"a returned inverse may lie outside 0..m-1: {showl(v[1])} with |t| < m only")


def zeroed(p, cons):
    """Exponents that the path forces to zero vanish."""
    zs = {q for q in psyms(p) if entails(cons, scale(sym(q), -1)) and entails(cons, sym(q))}
    r = {}
    for m, k in p.items():
        m = tuple((a, e) for a, e in ((a, key({q: v for q, v in e if q not in zs})) for a, e in m) if e)
        r[m] = r.get(m, 0) + k
    return {m: k for m, k in r.items() if k}


def power(c, P):
    for f in [f for f in P.find(name="modularExponentiation") if not f.dep and len(f.params) == 3][:1]:
        for w in WID:
            pw = Pow("base", "e")

            def templates(it, s, cells):
                ap = [x for x in cells if s.env[x][3]]
                for x in ap:
                    for y in ap:
                        for z in ap:
                            if len({x, y, z}) == 3:
                                k = ("pow", x, y, z, pw)
                                yield k, pw.check(it, s, k)
            it = top(Arith(P, templates=templates))
            cons = modulus(w) + rng("base", (1 << w) - 1) + rng("e", (1 << w) - 1)
            try:
                rets = it.run_body(f, setup(f, [num(sym("base"), w, True), num(sym("e"), w, True), num(sym(M), w, True)], cons))
            except Stop as e:
                c.undecided("power", f"{f.where()}: {e}"); continue
            for v, s in rets:
                if v is not None and v[0] == "n" and it.precise(s):
                    p = zeroed(it.residue(s, v[1]), s.cons)
                    if p == pw.goal():
                        judge(c, it, f, "power", v, s, None, f"base^e for {w}-bit operands")
                        continue
                    # exit with exponent zero leaves X = base^e only when the invariant held
                    sy = [x for x in psyms(p) if str(x).startswith(("unk", "wrap"))]
                    if not sy and any(str(x).startswith("h") for x in psyms(p)):
                        c.bad("power:invariant", f.where(), f"no invariant result*b^e = base^exponent survives the loop body: a returned value is {show(p)} ({w}-bit operands)")
                        continue
                    if sy and str(sy[0]).startswith("wrap"):
                        node, text = it.wraps[sy[0]]
                        c.bad("power:wrap", f.where(node), f"{text} ({w}-bit operands)"); continue
                    if sy:
                        c.undecided("power", f"{f.where()}: {show(p)}"); continue
                    c.bad("power:value", f.where(), f"returns {show(p)}, not base^exponent ({w}-bit operands)")
                else:
                    c.undecided("power", f"{f.where()}: returned value not understood")
            c.count("paths", len(rets))
        return True
    return False


def transforms(c, P):
    fw = [f for f in P.find(name="nttInPlace") if not f.dep][:1]
    bw = [f for f in P.find(name="inttInPlace") if not f.dep][:1]
    sizes = (1, 2, 4, 8) if c.tier == "quick" else (1, 2, 4, 8, 16)

    def hook(it, n, name, A, s):
        if name == "multiplicativeInverse":
            out = []
            for (x, m_), t in it.evs(A, s):
                t = t.copy()
                k = const(x[1]) if x is not None and x[0] == "n" else None
                p = psym(f"inv{k}") if k is not None else ppow(it.residue(t, x[1]), lin(-1)) if x is not None and x[0] == "n" else None
                if p is None or m_ is None or m_[1] != sym(M):
                    out.append((it.unknown(t, n.type, 64), t)); continue
                out.append((num(sym(it.fresh(t, "r", lin(0), add(sym(M), lin(-1)), p)), x[2], True), t))
            return out
        return None

    def run(f, n, elems, cons, res):
        it = top(Arith(P, hook=hook, budget=3000000, unroll=5000))
        s = setup(f, [None, num(sym(M), 64), num(sym("w"), 64)], modulus(64) + below("w") + cons, res)
        arr = ("v", f.params[0].d.get("id"), ("fr", 0))
        s.env[arr] = ("arr", num(lin(n), 64))
        for i, e in enumerate(elems):
            s.env[("i", arr, i)] = num(e, 64)
        outs = []
        for v, t in it.run_body(f, s):
            outs.append((it, t, [t.env.get(("i", arr, i)) for i in range(n)]))
        return outs

    def fold(p, n):
        """w^n = -1; inv_n * n = 1"""
        r = {}
        for m, k in p.items():
            d = {s: unkey(e) for s, e in m}
            e = const(d.pop("w", {}))
            if e is None:
                return None
            while e < 0:
                e += n; k = -k
            while e >= n:
                e -= n; k = -k
            if k == 0:
                continue
            if e:
                d["w"] = lin(e)
            mm = tuple(sorted(((s, key(x)) for s, x in d.items() if x), key=str))
            r[mm] = r.get(mm, 0) + k
        out = {}
        for m, k in r.items():
            d = dict(m)
            if f"inv{n}" in d and dict(d[f"inv{n}"]) == {C1: 1} and k % n == 0:
                k //= n; del d[f"inv{n}"]
                m = tuple(sorted(d.items(), key=str))
            if k:
                out[m] = out.get(m, 0) + k
        return {m: k for m, k in out.items() if k}
    for n in sizes:
        if not fw or not bw:
            break
        elems = [sym(f"c{i}") for i in range(n)]
        f = fw[0]
        try:
            outs = run(f, n, elems, [x for i in range(n) for x in rng(f"c{i}", (1 << 64) - 1)], {})
        except Stop as e:
            c.undecided("ntt", f"{f.where()}: {e}"); continue
        if len(outs) != 1:
            c.undecided("ntt", f"{f.where()}: {len(outs)} paths for {n} coefficients"); continue
        it, t, got = outs[0]
        if not it.precise(t):
            c.undecided("ntt", f"{f.where()}: a condition is not modelled"); continue
        spectra = []
        good = True
        for j, v in enumerate(got):
            if v is None or v[0] != "n":
                c.undecided("ntt", f"{f.where()}: slot {j} of {n} not understood"); good = False; continue
            p = it.residue(t, v[1])
            b = bad_syms(p)
            if b:
                if str(b[0]).startswith("wrap"):
                    node, text = it.wraps[b[0]]
                    c.bad("ntt:wrap", f.where(node), f"{text} reaches slot {j} of a transform of {n} coefficients")
                else:
                    c.undecided("ntt", f"{f.where()}: slot {j} of {n} not expressible")
                good = False; continue
            if n > 1 and not (entails(t.cons, v[1]) and entails(t.cons, add(add(sym(M), lin(-1)), v[1], -1))):
                c.bad("ntt:range", f.where(), f"slot {j} of a transform of {n} coefficients may lie outside 0..m-1"); good = False; continue
            spectra.append(fold(p, n))
        if not good:
            continue
        # each slot must be the evaluation at an odd power of the root, every odd power exactly once
        want = {}
        for o in range(1, 2 * n, 2):
            p = {}
            for i in range(n):
                e = (o * i) % (2 * n)
                p = padd(p, pmul(psym(f"c{i}"), ppow(psym("w"), lin(e % n)) if e % n else pconst(1)), 1 if e < n else -1)
            want[str(sorted(p.items(), key=str))] = o
        seen = [want.get(str(sorted(p.items(), key=str))) for p in spectra]
        if None in seen or len(set(seen)) != n:
            j = next((i for i, o in enumerate(seen) if o is None), 0)
            c.bad("ntt:value", f.where(), f"slot {j} of a transform of {n} coefficients is {show(spectra[j])}, not the polynomial's value at an odd power of the root")
            continue
        c.ok(f"forward transform of {n} coefficients: slots are the values at root^{seen}")
        # inverse on exactly these slots
        f = bw[0]
        res = {f"s{j}": spectra[j] for j in range(n)}
        try:
            outs = run(f, n, [sym(f"s{j}") for j in range(n)], [x for j in range(n) for x in below(f"s{j}")], res)
        except Stop as e:
            c.undecided("intt", f"{f.where()}: {e}"); continue
        if len(outs) != 1:
            c.undecided("intt", f"{f.where()}: {len(outs)} paths"); continue
        it, t, got = outs[0]
        for i, v in enumerate(got):
            if v is None or v[0] != "n":
                c.undecided("intt", f"{f.where()}: slot {i} not understood"); continue
            p = it.residue(t, v[1])
            b = bad_syms(p)
            if b and str(b[0]).startswith("wrap"):
                node, text = it.wraps[b[0]]
                c.bad("intt:wrap", f.where(node), f"{text} reaches slot {i} of an inverse transform of {n} coefficients"); continue
            if b:
                c.undecided("intt", f"{f.where()}: slot {i} of {n} not expressible"); continue
            p = fold(p, n)
            if p is None or padd(p, psym(f"c{i}"), -1) != {}:
                c.bad("intt:value", f.where(), f"inverse transform of {n} coefficients gives {show(p or it.residue(t, v[1]))} in slot {i}, not c{i}")
            elif n > 1 and not entails(t.cons, add(add(sym(M), lin(-1)), v[1], -1)):
                c.bad("intt:range", f.where(), f"slot {i} may lie outside 0..m-1")
            else:
                c.ok(f"inverse transform of {n} coefficients restores c{i}")


def primality(c, P):
    """The witness list must contain the primes that make the test exact below 2^64."""
    for f in [f for f in P.find(name="isPrime") if not f.dep and f.rel.startswith("lib/")][:1]:
        best = None
        for x in f.walk():
            if x.k == "InitList":
                vs = []
                for a in x.args or []:
                    y = a
                    while y is not None and y.k == "Cast":
                        y = y.e
                    vs.append(int(y.v) if y is not None and y.k == "Int" else None)
                if vs and None not in vs and (best is None or len(vs) > len(best[1])):
                    best = (x, vs)
        if best is None:
            c.undecided("isPrime", f"{f.where()}: no literal witness list")
        else:
            missing = [p for p in PRIMES if p not in best[1]]
            if missing:
                c.bad("isPrime:bases", f.where(best[0]), f"the Miller-Rabin witnesses {best[1]} lack {missing}; the test is exact for 64-bit numbers only with the first twelve primes")
            else:
                c.ok("witness list contains the first twelve primes")


def trial(c, P):
    """Trial division: the square in the loop's condition must not wrap before it exceeds the number."""
    for f in [f for f in P.find(name="factorize") if not f.dep and f.rel.startswith("lib/")][:1]:
        n = 0
        for lp in f.walk():
            if lp.k not in ("For", "While", "Do"):
                continue
            conds = [lp.c] if lp.c is not None else []
            for st in (lp.body.s or [] if lp.body is not None and lp.body.k == "Block" else []):
                if st.k == "If" and any(x.k == "Break" for x in st.walk()):
                    conds.append(st.c)
            for cond in conds:
                if not any(x.k in ("Bin", "OpCall") and x.op in ("*", "/") or x.k == "MCall" and x.n == "udiv" for x in cond.walk()):
                    continue
                r = bound(cond, {v.d.get("id"): v for x in f.walk() if x.k == "Decl" for v in x.v or []})
                n += 1
                if r is None:
                    c.undecided("factorize", f"{f.where(cond)}: the loop bound is not understood"); continue
                kind, msg = r
                (c.ok(f"trial division bound at line {cond.line}: {msg}") if kind == "ok" else c.bad("factorize:" + kind, f.where(cond), msg))
        c.count("trial-division bounds", n)


def base(n):
    """Variable behind zext/casts, with the multiple of its own width it was extended to (0 = not extended)."""
    while n is not None:
        if n.k == "Cast" or n.k in ("Materialize", "Bind"):
            n = n.e; continue
        if n.k == "MCall" and n.n in ("zext", "zextOrTrunc"):
            b = base(n.obj)
            return (b[0], 1) if b else None
        if n.k == "Ctor" and len(n.args or []) == 1:
            n = n.args[0]; continue
        if n.k == "Ref":
            return (n.d.get("id"), 0, n)
        return None
    return None


def bound(cond, vars_):
    """Normal form of a trial-division bound: d*d <= v or d <= v/d, possibly negated as a leaving condition."""
    n = cond
    neg = False
    while n.k == "Un" and n.op == "!" or n.k == "Cast":
        if n.k == "Un":
            neg = not neg; n = n.a
        else:
            n = n.e
    if n.k == "Bin" and n.op == "&&" or n.k == "Bin" and n.op == "||":
        return None
    op, a, b = None, None, None
    if n.k in ("Bin", "OpCall") and n.op in NEG:
        op, (a, b) = n.op, ((n.a, n.b) if n.k == "Bin" else n.args[:2])
    elif n.k == "MCall" and n.n in APCMP:
        op, a, b = APCMP[n.n], n.obj, n.args[0]
    if op is None:
        return None
    if neg:
        op = NEG[op]

    def strip(x):
        while x is not None and (x.k in ("Cast", "Materialize", "Bind") or x.k == "Ctor" and len(x.args or []) == 1):
            x = x.e if x.k != "Ctor" else x.args[0]
        return x
    a, b = strip(a), strip(b)
    for x, y, o in ((a, b, op), (b, a, SWAP[op])):
        ops = (x.a, x.b) if x.k == "Bin" and x.op == "*" else x.args[:2] if x.k == "OpCall" and x.op == "*" else None
        if ops:
            p, q = base(ops[0]), base(ops[1])
            if not p or not q or p[0] != q[0]:
                return None
            strict = o in ("<", ">=")
            if strict:
                return "square", "the square of a prime is not split: the bound leaves out d with d*d equal to the number"
            if not is_ap(x.type) and tywidth(x.type)[0] is not None and tywidth(x.type)[0] <= 64:
                return "wrap", "d*d wraps for numbers above (2^32-1)^2, so the loop does not end for a prime of that size"
            if is_ap(x.type):
                v = [vars_.get(q[0]) for q in (p,)][0]
                while v is not None and v.init is not None and not (p[1] or q[1]):
                    r = base(v.init)
                    if r is None or r[0] == v.d.get("id"):
                        break
                    p = q = r
                    v = vars_.get(r[0])
                if not (p[1] or q[1]):
                    return "wrap", "d*d is computed in the number's own width and wraps before it exceeds a large number"
            return "ok", "square computed in a wider type"
        dv = (x.a, x.b) if x.k == "Bin" and x.op == "/" else x.args[:2] if x.k == "OpCall" and x.op == "/" else (x.obj, x.args[0]) if x.k == "MCall" and x.n == "udiv" else None
        if dv:
            q, p = base(dv[1]), base(y)
            if not p or not q or p[0] != q[0]:
                return None
            # d REL v/d with REL seen from y = d
            r = SWAP[o]
            if r in ("<", ">="):
                return "square", "the square of a prime is not split: the bound leaves out d with d*d equal to the number"
            return "ok", "divisor compared with the quotient"
    return None


def roots(c, P):
    for f in [f for f in P.find(name="findPrimitive2nthRoot") if not f.dep][:1]:
        for w in (5, 17, 32, 63, 64, 65, 128):
            def hook(it, n, name, A, s):
                if name == "findPrimitiveRoot":
                    s = s.copy()
                    g = num(sym(it.fresh(s, "g", lin(0), add(sym(M), lin(-1)))), w, True)
                    return [(("none",), s), (("some", g), s.copy())]
                if name == "modularExponentiation":
                    return [(("pow", vs), t) for vs, t in it.evs(A, s)]
                return None
            it = top(Arith(P, hook=hook))
            s0 = setup(f, [num(sym(M), w, True), num(sym("n"), 64)], modulus(w) + rng("n", (1 << 64) - 1, 1))
            try:
                rets = it.run_body(f, s0)
            except Stop as e:
                c.undecided("root", f"{f.where()}: {e}"); continue
            for v, s in rets:
                if v is not None and v[0] == "none":
                    continue
                if v is None or v[0] != "pow" or not it.precise(s):
                    c.undecided("root", f"{f.where()}: a returned value is not understood"); continue
                # the order 2n must have been compared and divided by without wrapping
                ws = [x for x in {q for l in s.cons for q in l if q != C1} | {q for vv in s.env.values() if vv is not None and vv[0] == "n" for q in vv[1] if q != C1} if str(x).startswith("wrap")]
                if ws:
                    node, text = it.wraps[ws[0]]
                    c.bad("root:wrap", f.where(node), f"{text}: a root is returned although the order 2n asked for does not fit ({w}-bit modulus)")
                else:
                    c.ok(f"2n-th root with a {w}-bit modulus: the order is represented exactly")


def generator(c, P):
    """findPrimitiveRoot hands back g only after g^((q-1)/p) != 1 was established for every prime factor p."""
    for f in [f for f in P.find(name="findPrimitiveRoot") if not f.dep][:1]:
        for nf in (1, 2, 3):
            w = 64
            asked = {}

            def hook(it, n, name, A, s):
                if name == "factorize":
                    out = []
                    for vs, t in it.evs(A, s):
                        t = t.copy()
                        good = vs and vs[0] is not None and vs[0][0] == "n" and padd(it.residue(t, vs[0][1]), pconst(-1), -1) == {}
                        out.append((("list", [num(sym(f"p{i}" if good else f"other{i}"), w, True) for i in range(nf)]), t))
                    return out
                if name == "udiv" and n.k == "MCall":
                    out = []
                    for (x, y), t in it.evs([n.obj] + A[:1], s):
                        t = t.copy()
                        if x is not None and y is not None and x[0] == "n" and y[0] == "n" and const(y[1]) is None and len(y[1]) == 1 and x[1] == add(sym(M), lin(-1)):
                            (q,) = y[1]
                            z = f"phi/{q}"
                            t.cons += [sym(z)]
                            out.append((num(sym(z), w, True), t))
                        else:
                            out.append((it.unknown(t, n.type, w), t))
                    return out
                if name == "modularExponentiation":
                    out = []
                    for vs, t in it.evs(A, s):
                        t = t.copy()
                        if any(v is None or v[0] != "n" for v in vs):
                            out.append((it.unknown(t, n.type, w), t)); continue
                        z = it.fresh(t, "e", lin(0), add(sym(M), lin(-1)))
                        asked[z] = (key(vs[0][1]), key(vs[1][1]), key(vs[2][1]))
                        out.append((num(sym(z), w, True), t))
                    return out
                return None
            it = top(Arith(P, hook=hook))
            cons = modulus(w, 5)
            s0 = setup(f, [num(sym(M), w, True)], cons)
            try:
                rets = it.run_body(f, s0)
            except Stop as e:
                c.undecided("generator", f"{f.where()}: {e}"); continue
            n = 0
            for v, s in rets:
                if v is None or v[0] == "none":
                    continue
                if v[0] != "n" or not it.precise(s):
                    c.undecided("generator", f"{f.where()}: returned value not understood"); continue
                if not any(q in s_ for s_ in s.cons for q in asked) and const(v[1]) is not None:
                    continue                # q = 2
                n += 1
                miss = []
                for i in range(nf):
                    hit = [z for z, (g, e, m) in asked.items() if g == key(v[1]) and e == key(sym(f"phi/p{i}")) and m == key(sym(M))
                           and not feasible(s.cons + [add(sym(z), lin(-1)), add(lin(1), sym(z), -1)])]
                    if not hit:
                        miss.append(i)
                if miss:
                    c.bad("generator:untested", f.where(), f"a candidate is returned although its power (q-1)/p was not found different from one for prime factor number {miss[0] + 1} of {nf}")
                else:
                    c.ok(f"generator returned only after all {nf} factor tests")
            c.count("generator paths", n)


def analyse(c, P):
    n = 0
    n += exact(c, P, "modularMultiplication", AP, pmul(psym("a"), psym("b")), True, False)
    n += exact(c, P, "modularMultiplication64", NT, pmul(psym("a"), psym("b")), False, False)
    n += exact(c, P, "modularAddition64", NT, padd(psym("a"), psym("b")), False, True)
    n += exact(c, P, "modularSubtraction64", NT, padd(psym("a"), psym("b"), -1), False, True)
    n += power(c, P)
    n += inverse(c, P)
    transforms(c, P)
    primality(c, P)
    trial(c, P)
    roots(c, P)
    generator(c, P)
    return n


def check(c):
    P = prog.load([AP, MU, NT])
    n = analyse(c, P)
    c.count("modular helpers found", n)
    c.need("modular helpers found", 1)
    c.rule("the source of the inverse, the power, the primality test, the factorisation and the root searches, evaluated exactly (fixed-width integers, a width mismatch is a fault) "
           "on grids of small numbers, prime powers, smooth and boundary-sized numbers and known strong pseudoprimes, answers with the number the definition gives")
    from . import numev
    import sys
    sys.setrecursionlimit(20000)
    numev.check(c, P, c.tier == "thorough")
    c.assume.append("extended Euclid: |t| < m and intermediate coefficients fit the modulus's width (classical bound, cited in the source)")
    c.assume.append("transforms: preconditions asserted by the source (power-of-two length, reduced inputs of the inverse); lengths 1..8 (16 thorough) analysed with symbolic coefficients, root and modulus")
    return c.finish("Linear forms with polyhedral path constraints decide whether each product, sum and conversion fits its width; "
             "residues modulo m of returned values are compared with the specification; loops use inferred inductive invariants.")
