"""C24: the number-theoretic transform evaluates the polynomial, and its inverse undoes it."""
import os
from fractions import Fraction
from .cprop import I, T
from .ceval import conc
from .alg import Alg, atom, padd, pmul, ptext, const, q, isq, unq, cval, oobtext
from . import alg, facts

F = "lib/Utils/Polynomial/NTT.cpp"
Q = T("Q")
HELPERS = {"modularMultiplication64": "*", "modularAddition64": "+", "modularSubtraction64": "-"}


class Ring(Alg):
    """Numbers below the modulus are elements of Q[w]/(w^n + 1); the modulus itself stays symbolic."""

    def __init__(self, P, n):
        super().__init__(P)
        self.n = n
        self.raw = []
        prev = self.callhook
        self.callhook = lambda *a: self.ring(*a) or prev(*a)

    def reduce(self, p):
        out = {}
        for m, c in p.items():
            k = m.count("w")
            rest = tuple(a for a in m if a != "w")
            s = -1 if (k // self.n) % 2 else 1
            m2 = tuple(sorted(rest + ("w",) * (k % self.n)))
            x = out.get(m2, 0) + s * c
            if x:
                out[m2] = x
            else:
                out.pop(m2, None)
        return out

    def elem(self, v, whole=False):
        """The ring element of a reduced number."""
        if v is not None and v[:2] == ("t", "raw"):
            self.raw.append(v[2])
            return None
        if v is not None and v[:2] == ("t", "apint"):
            return const(v[3])
        if isq(v):
            return unq(v)
        k = conc(v)
        return const(k) if k is not None and (k in (0, 1) or whole and k > 0) else None

    def arith(self, op, a, b):
        if Q in (a, b) or isq(a) or isq(b) or any(v is not None and v[:2] == ("t", "raw") for v in (a, b)):
            if op in ("+", "*", "-") and isq(a) and isq(b):
                return T("raw", {"+": "a sum", "*": "a product", "-": "a difference"}[op])
            return None
        return super().arith(op, a, b)

    def cmp(self, op, a, b):
        if Q in (a, b) or isq(a) or isq(b):
            return None
        return super().cmp(op, a, b)

    def ring(self, n, name, qn, ov, vals, s):
        if name in HELPERS and len(vals) == 3 and n.k == "Call":
            f = self.P.callee(n)
            if f is None or f.rel != F:
                return None
            a, b = self.elem(vals[0]), self.elem(vals[1])
            if a is None or b is None or vals[2] != Q:
                return None, s
            o = HELPERS[name]
            return q(self.reduce(pmul(a, b)) if o == "*" else padd(a, b, 1 if o == "+" else -1)), s
        if name == "multiplicativeInverse" and len(vals) == 2 and vals[1] == Q:
            p = self.elem(vals[0], True)
            if p is None or len(p) != 1:
                return None, s
            (m, c), = p.items()
            if set(m) - {"w"} or not c:
                return None, s
            k = len(m) % (2 * self.n)
            return q(self.reduce({("w",) * ((2 * self.n - k) % (2 * self.n)): 1 / Fraction(c)})), s
        if name in ("getZExtValue", "getLimitedValue") and (ov == Q or isq(ov)):
            return ov, s
        return None

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        args = [a for a in n.args or []]
        if cls.endswith("APInt") and not n.copy and not n.move and len(args) >= 2:
            vs, s1 = self.evs(args, s)
            if vs[1] == Q:
                return Q, s1
        return super().ctor(n, s)


def rev(i, b):
    r = 0
    for _ in range(b):
        r, i = r << 1 | i & 1, i >> 1
    return r


def run(P, f, n, vals):
    w = Ring(P, n)
    tmp = ("tmp", 77)
    ids = [p.d["id"] for p in f.params]
    fs = {"tr": (), ("al", ids[0]): tmp, tmp: ("l", tuple(q(v) for v in vals)), ("v", ids[1]): Q, ("v", ids[2]): q(w.reduce(atom("w")))}
    out = None
    try:
        w.stack.append(f.usr)
        w.retstack.append([])
        o = w.stmt(f.body, fs)
        outs = [s for _, s in w.retstack.pop()] + ([o["next"]] if o["next"] is not None else [])
        l = outs[0].get(tmp) if len(outs) == 1 else None
        if l is not None and l[0] == "l" and len(l[1]) == n:
            out = [w.elem(x) for x in l[1]]
        dead = not outs
    except Exception:
        if os.environ.get("HV_DEBUG"):
            raise
        dead = False
    return out, dead, w


def check(c):
    c.rule("nttInPlace is evaluated on its source with one unknown per coefficient and the root as a generator w of Q[w]/(w^n + 1), the modulus left "
           "symbolic: entry i must be the polynomial's value at w^(2 rev(i) + 1)")
    c.rule("inttInPlace, applied to those values, must return the coefficients")
    c.rule("Every intermediate coefficient is a reduced result of the modular helpers (whose exactness C10 decides); no access is out of range")
    c.assume.append("The modulus is a prime q = 1 mod 2n and the root a primitive 2n-th root of unity: the identities over Q[w]/(w^n + 1), whose "
                    "denominators divide n, then hold modulo q")
    try:
        P = alg.load()
    except facts.AnalysisBroken as e:
        c.undecided("transforms", f"the witness instantiation does not compile: {str(e)[:200]}")
        return c.finish(EXPLANATION)
    ns = [1 << k for k in range(0, 9 if c.tier == "thorough" else 7)]
    fns = {}
    for name in ("nttInPlace", "inttInPlace"):
        g = [f for f in P.all if f.name == name and f.rel == F and f.body is not None and len(f.params) == 3]
        if len(g) != 1:
            c.undecided(name, "not found in the form the callers use")
        else:
            fns[name] = g[0]
    for n in ns:
        b = n.bit_length() - 1
        cs = [atom(f"c{j}") for j in range(n)]
        R = Ring(P, n)
        vals = []
        for i in range(n):
            e, v = 2 * rev(i, b) + 1, {}
            for j in range(n):
                v = padd(v, R.reduce({tuple(sorted((f"c{j}",) + ("w",) * (e * j % (2 * n)))): Fraction(1)}))
            vals.append(v)
        for name, inp, want in (("nttInPlace", cs, vals), ("inttInPlace", vals, cs)):
            f = fns.get(name)
            if f is None:
                continue
            c.count("transforms evaluated")
            if n == 1:
                inp = want = cs
            out, dead, w = run(P, f, n, inp)
            where, key = f"{F}:{f.line} {name}", f"{F}:{name}"
            if dead and not w.forks:
                c.bad(key + ":aborts", where, f"on {n} coefficients an assertion fails")
            elif w.oob and not w.forks:
                c.bad(key + ":range", where, f"on {n} coefficients uses {oobtext(w.oob[0])}")
            elif w.raw and not w.forks:
                c.bad(key + ":unreduced", where, f"on {n} coefficients uses {w.raw[0]} of two residues that was not reduced modulo q")
            elif out is None or None in out:
                c.undecided(f"{where}: {n} coefficients", "value not determined")
            else:
                for i in range(n):
                    if out[i] == want[i]:
                        c.ok(f"{where} n={n} entry {i}")
                        continue
                    meant = f"the value at w^{2 * rev(i, b) + 1}" if name[0] == "n" else f"coefficient {i}"
                    c.bad(key, where, f"on {n} coefficients entry {i} is {ptext(out[i])[:160]}, not {meant}")
                    break
    g = [f for f in P.all if f.name == "reverseBits" and f.rel == F and f.body is not None and len(f.params) == 2]
    if len(g) != 1:
        c.undecided("reverseBits", "not found in the form the callers use")
    else:
        f = g[0]
        for b in range(0, 9):
            for i in range(min(1 << b, 64)):
                k = i if b <= 6 else i * 37 % (1 << b)
                w = Alg(P)
                v, _ = w.callfn(f, [I(k), I(b)], {"tr": ()})
                r = conc(v)
                if r is None:
                    c.undecided(f"reverseBits({k}, {b})", "value not determined")
                elif r != rev(k, b):
                    c.bad(f"{F}:reverseBits", f"{F}:{f.line} reverseBits", f"of {k} in {b} bits is {r}, not {rev(k, b)}")
                else:
                    c.ok()
    c.need("transforms evaluated", 8)
    return c.finish(EXPLANATION)


EXPLANATION = "Both transforms evaluated on their source as linear maps over the cyclotomic ring, for every coefficient vector of each length."
