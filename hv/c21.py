"""C21: polynomial values keep their terms ordered, unique and faithful to the coefficients."""
import itertools, os, random
from fractions import Fraction
from .cprop import I, T
from .world import apint, sval
from .alg import Alg, atom, padd, pmul, ptext, const, q, unq, cval, oobtext
from .c22 import cheb
from . import alg, facts

H, S = "lib/Utils/Polynomial/Polynomial.h", "lib/Utils/Polynomial/Polynomial.cpp"


def mono(c, e):
    return ("st", (("coefficient", q(c)), ("exponent", apint(64, e))))


def poly(d):
    """Polynomial value of {exponent: coefficient}."""
    return ("st", (("terms", ("l", tuple(mono(d[e], e) for e in sorted(d)))),))


def num(v):
    if v is None:
        return None
    if v[:2] == ("t", "apint"):
        return v[3]
    d = unq(v)
    k = cval(d) if d is not None else None
    return int(k) if k is not None and k.denominator == 1 else None


def terms(v):
    """[(exponent, coefficient)] of a polynomial value, or None."""
    if v is None or v[0] != "st":
        return None
    l = dict(v[1]).get("terms")
    if l is None or l[0] != "l":
        return None
    out = []
    for m in l[1]:
        d = dict(m[1]) if m is not None and m[0] == "st" else {}
        e, c = num(d.get("exponent")), unq(d.get("coefficient"))
        if e is None or c is None:
            return None
        out.append((e, c))
    return out


def text(ts):
    return " + ".join(f"({ptext(c)})x^{e}" for e, c in ts) or "0"


class Polys:
    def __init__(self, c, P):
        self.c, self.P = c, P

    def fn(self, cls, name, k):
        def of(f):
            return cls == (f.cls or "").split("<")[0].split("::")[-1] or "<" in cls and cls in (f.cls or "")
        fs = [f for f in self.P.all if f.name == name and not f.dep and f.body is not None and len(f.params) == k and f.rel in (H, S) and of(f)]
        return fs[0] if len(fs) == 1 else None

    def call(self, cls, name, this, args, what):
        f = self.fn(cls, name, len(args))
        if f is None:
            self.c.undecided(f"{cls}::{name}: {what}", "not found in the form the callers use")
            return None
        self.c.count("calls analysed")
        w = Alg(self.P)
        after = None
        s1 = {}
        try:
            s = {"tr": ()}
            if this is not None:
                v, s1 = w.callfn(f, args, s, this=this)
            else:
                v, s1 = w.callfn(f, args, s)
            if this is not None and s1 is not None:
                after = s1.get(("tmp", 1000))
        except Exception:
            if os.environ.get("HV_DEBUG"):
                raise
            v = None
        where, key = f"{f.rel}:{f.line} {cls}::{name}", f"{f.rel}:{cls}::{name}"
        if s1 is None and w.halted and not w.forks and not w.oob:
            self.c.bad(key + ":aborts", where, f"for {what} an assertion fails")
            return None
        if w.oob and not w.forks:
            self.c.bad(key + ":range", where, f"for {what} uses {oobtext(w.oob[0])}")
            return None
        return v, after, where, key

    def expect(self, r, want, what, canonical=True):
        """The value is a polynomial with these coefficients ({exponent: coefficient}), listed in order."""
        if r is None:
            return
        v, _, where, key = r
        c = self.c
        ts = terms(v)
        if ts is None:
            if v == ("fail",):
                c.bad(key, where, f"fails for {what}")
            else:
                c.undecided(f"{where}: {what}", "value not determined")
            return
        es = [e for e, _ in ts]
        if any(a >= b for a, b in zip(es, es[1:])):
            c.bad(key + ":order", where, f"for {what} lists the exponents {es}, not strictly increasing")
            return
        got = {e: x for e, x in ts if x or canonical}
        want = {e: x for e, x in want.items() if x}
        if got != want:
            c.bad(key, where, f"for {what} yields {text(ts)}, not {text(sorted(want.items()))}")
        else:
            c.ok(f"{where} {what}")


SUP = [s for k in range(0, 4) for s in itertools.combinations((0, 1, 2, 4), k)]


def check(c):
    c.rule("Each operation is evaluated abstractly on its source with one unknown per coefficient, over the listed sets of exponents; the result "
           "must be the exact polynomial, its terms listed once each by strictly increasing exponent")
    c.rule("Building a polynomial from monomials fails exactly when two share an exponent; sums and products drop terms that cancel")
    c.rule("The Chebyshev helpers agree with T_0 = 1, T_1 = x, T_n = 2x T_(n-1) - T_(n-2), in both directions")
    c.rule("No operation reads a term of an empty polynomial or a coefficient past the end")
    c.assume.append("Coefficients are exact numbers in general position; rounding and 64-bit wrap-around of coefficients are not considered")
    try:
        P = alg.load()
    except facts.AnalysisBroken as e:
        c.undecided("polynomials", f"the witness instantiation does not compile: {str(e)[:200]}")
        return c.finish(EXPLANATION)
    E = Polys(c, P)
    deep = c.tier == "thorough"
    kinds = (("IntPolynomial", "PolynomialBase<mlir::heir::polynomial::IntPolynomial"), ("FloatPolynomial", "PolynomialBase<mlir::heir::polynomial::FloatPolynomial"))
    A = lambda s, n="a": {e: atom(f"{n}{e}") for e in s}
    for cls, base in kinds:
        # construction
        for s in SUP + [(0, 1, 2, 5), (3, 7, 64, 4294967296)]:
            for perm in itertools.permutations(s):
                E.expect(E.call(cls, "fromMonomials", None, [("l", tuple(mono(atom(f"a{e}"), e) for e in perm))], f"exponents {list(perm)}"),
                         A(s), f"exponents {list(perm)}")
        for dup in [(0, 0), (1, 1), (0, 1, 0), (0, 1, 1), (2, 2, 5), (5, 2, 2), (7, 0, 3, 7), (1, 2, 3, 1), (4, 4, 4), (9, 1, 5, 9)]:
            r = E.call(cls, "fromMonomials", None, [("l", tuple(mono(atom(f"a{i}"), e) for i, e in enumerate(dup)))], f"exponents {list(dup)}")
            if r is not None:
                if r[0] == ("fail",):
                    c.ok(f"{r[2]} rejects {list(dup)}")
                elif terms(r[0]) is None:
                    c.undecided(f"{r[2]} {list(dup)}", "value not determined")
                else:
                    c.bad(r[3] + ":duplicate", r[2], f"accepts the exponents {list(dup)}, which repeat one")
        for n in range(0, 6):
            for z in itertools.product((0, 1), repeat=n):
                cs = [{} if b else atom(f"a{i}") for i, b in enumerate(z)]
                E.expect(E.call(cls, "fromCoefficients", None, [("l", tuple(q(x) if x else (I(0) if cls[0] == "I" else q({})) for x in cs))],
                                f"coefficients {[ptext(x) for x in cs]}"), dict(enumerate(cs)), f"coefficients {[ptext(x) for x in cs]}")
        # arithmetic
        for s, t in itertools.product(SUP, SUP):
            if not deep and len(s) + len(t) > 5:
                continue
            a, b = A(s), A(t, "b")
            what = f"exponents {list(s)} and {list(t)}"
            add = {e: padd(a.get(e, {}), b.get(e, {})) for e in set(a) | set(b)}
            sub = {e: padd(a.get(e, {}), b.get(e, {}), -1) for e in set(a) | set(b)}
            mul = {}
            for e, x in a.items():
                for f, y in b.items():
                    mul[e + f] = padd(mul.get(e + f, {}), pmul(x, y))
            E.expect(E.call(base, "add", poly(a), [poly(b)], what), add, what)
            E.expect(E.call(cls, "sub", poly(a), [poly(b)], what), sub, what)
            E.expect(E.call(base, "naiveMul", poly(a), [poly(b)], what), mul, what)
            # cancelling terms
            both = sorted(set(s) & set(t))
            for k in range(1, len(both) + 1):
                for z in itertools.combinations(both, k):
                    bb = {e: (pmul(a[e], const(-1)) if e in z else x) for e, x in b.items()}
                    add = {e: padd(a.get(e, {}), bb.get(e, {})) for e in set(a) | set(b)}
                    E.expect(E.call(base, "add", poly(a), [poly(bb)], what + f", cancelling at {list(z)}"), add, what + f", cancelling at {list(z)}")
        # products with cancelling cross terms: (a + b x)(a - b x) and powers of it
        for e, f in ((0, 1), (1, 3), (0, 2)):
            p = {e: atom("a"), f: atom("b")}
            m = {e: atom("a"), f: pmul(const(-1), atom("b"))}
            w = {2 * e: pmul(atom("a"), atom("a")), 2 * f: pmul(const(-1), pmul(atom("b"), atom("b")))}
            E.expect(E.call(base, "naiveMul", poly(p), [poly(m)], f"conjugate binomials in x^{e}, x^{f}"), w, f"conjugate binomials in x^{e}, x^{f}")
        for s in SUP:
            a = A(s)
            what = f"exponents {list(s)}"
            E.expect(E.call(base, "scale", poly(a), [q(atom("k"))], what), {e: pmul(x, atom("k")) for e, x in a.items()}, what)
            for k in (0, 1, 5):
                E.expect(E.call(base, "monomialMul", poly(a), [I(k)], what + f" times x^{k}"), {e + k: x for e, x in a.items()}, what + f" times x^{k}")
            for k in range(len(s) + 1):
                for z in itertools.combinations(s, k):
                    a2 = {e: ({} if e in z else x) for e, x in a.items()}
                    r = E.call(base, "canonicalize", poly(a2), [], what + f", zero at {list(z)}")
                    if r is not None:
                        E.expect((r[1],) + r[1:], a2, what + f", zero at {list(z)}")
            if s:
                r = E.call(base, "getDegree", poly(a), [], what)
                if r is not None:
                    k = num(r[0])
                    c.ok() if k == s[-1] else c.undecided(what, "value not determined") if k is None else \
                        c.bad(r[3], r[2], f"for {what} the degree is {k}")
            r = E.call(base, "isZero", poly(a), [], what)
            if r is not None:
                k = num(r[0])
                c.ok() if k == int(not s) else c.undecided(what, "value not determined") if k is None else \
                    c.bad(r[3], r[2], f"for {what} says {'zero' if k else 'not zero'}")
        # composition
        for s, t in itertools.product(SUP, SUP):
            if not s or not deep and len(s) + len(t) > 4:
                continue
            a, b = A(s), A(t, "b")
            want, pw = {}, {0: const(1)}
            for k in range(max(s) + 1):
                for e, x in pw.items():
                    want[e] = padd(want.get(e, {}), pmul(a.get(k, {}), x))
                nx = {}
                for e, x in pw.items():
                    for f, y in b.items():
                        nx[e + f] = padd(nx.get(e + f, {}), pmul(x, y))
                pw = nx
            what = f"exponents {list(s)} of exponents {list(t)}"
            E.expect(E.call(base, "compose", poly(a), [poly(b)], what), want, what)
        one = const(1)
        for p, b, want in (({2: one, 1: const(-1)}, {0: one}, {}), ({3: one, 1: const(-1)}, {0: const(-1)}, {}), ({3: one, 2: const(-2), 0: atom("k")}, {0: const(2)}, {0: atom("k")}),
                           ({2: one, 0: const(-1)}, {0: const(1), 1: one}, {1: const(2), 2: one})):
            what = f"{text(sorted(p.items()))} of {text(sorted(b.items()))}"
            E.expect(E.call(base, "compose", poly(p), [poly(b)], what), want, what)
    for s in SUP + [(0, 3, 7)]:
        a = A(s)
        what = f"exponents {list(s)}"
        r = E.call("IntPolynomial", "getDenseCoefficientVector", poly(a), [], what)
        if r is None:
            continue
        v = r[0]
        got = [unq(x) for x in v[1]] if v is not None and v[0] == "l" else [None]
        want = [a.get(e, {}) for e in range(s[-1] + 1)] if s else []
        if None in got:
            c.undecided(f"{r[2]}: {what}", "value not determined")
        elif got != want:
            c.bad(r[3], r[2], f"for {what} yields {[ptext(x) for x in got]}")
        else:
            c.ok(f"{r[2]} {what}")
    # Chebyshev
    for n in range(-1, 20 if deep else 11):
        f = E.fn("ChebyshevPolynomial", "getChebyshevPolynomials", 2)
        if f is None:
            c.undecided("getChebyshevPolynomials", "not found")
            break
        w = Alg(P)
        c.count("calls analysed")
        tmp = ("tmp", 77)
        fs = {"tr": (), ("v", f.params[0].d["id"]): I(n), ("al", f.params[1].d["id"]): tmp, tmp: ("l", ())}
        try:
            w.stack.append(f.usr)
            w.retstack.append([])
            o = w.stmt(f.body, fs)
            outs = [s for _, s in w.retstack.pop()] + ([o["next"]] if o["next"] is not None else [])
            l = outs[0].get(tmp) if len(outs) == 1 else None
        except Exception:
            l = None
        where = f"{f.rel}:{f.line} getChebyshevPolynomials"
        ts = [terms(x) for x in l[1]] if l is not None and l[0] == "l" else [None]
        if None in ts:
            c.undecided(f"{where}({n})", "value not determined")
            continue
        if len(ts) != max(n, 0):
            c.bad(f"{S}:getChebyshevPolynomials:count", where, f"{len(ts)} polynomials for {n}")
            continue
        for i, t in enumerate(ts):
            want = [(len(m), k) for m, k in cheb(i).items()]
            if sorted((e, cval(x)) for e, x in t) != sorted(want) or [e for e, _ in t] != sorted(e for e, _ in t):
                c.bad(f"{S}:getChebyshevPolynomials", where, f"of {n}, number {i} is {text(t)}")
                break
        else:
            c.ok(f"{where}({n})")
    cp = lambda l: ("st", (("terms", ("l", tuple(q(x) for x in l))),))
    for d in range(-1, 16 if deep else 9):
        zs = [()] + ([(i,) for i in range(d + 1)] + [tuple(range(0, d + 1, 2)), tuple(range(1, d + 1, 2)), tuple(range(d))] if d >= 0 else [])
        for z in dict.fromkeys(zs):
            cs = [{} if i in z else atom(f"c{i}") for i in range(d + 1)]
            what = f"degree {d}, zero {list(z)}"
            want = {}
            for i, x in enumerate(cs):
                for m, k in cheb(i).items():
                    want[len(m)] = padd(want.get(len(m), {}), pmul(x, const(k)))
            # coefficients that are exactly zero may stay listed
            E.expect(E.call("ChebyshevPolynomial", "toStandardBasis", cp(cs), [], what), want, what, canonical=False)
            if d > (12 if deep else 7):
                continue
            for lin in ({1: atom("u")}, {1: atom("u"), 0: atom("w")}, {1: const(1)}):
                wl = what + f" of {text(sorted(lin.items()))}"
                r = E.call("ChebyshevPolynomial", "compose", cp(cs), [poly(lin)], wl)
                if r is None:
                    continue
                st = dict(r[0][1]).get("terms") if r[0] is not None and r[0][0] == "st" else None
                got = [unq(x) for x in st[1]] if st is not None and st[0] == "l" else [None]
                if None in got:
                    c.undecided(f"{r[2]}: {wl}", "value not determined")
                    continue
                y = padd(pmul(lin[1], atom("x")), lin.get(0, {}))
                lhs, rhs, T0, T1 = {}, {}, const(1), y
                for x in cs:
                    rhs = padd(rhs, pmul(x, T0))
                    T0, T1 = T1, padd(pmul(pmul(const(2), y), T1), T0, -1)
                for i, x in enumerate(got):
                    lhs = padd(lhs, pmul(x, cheb(i)))
                if lhs != rhs:
                    c.bad(r[3], r[2], f"for {wl} the result denotes {ptext(lhs)}, not {ptext(rhs)}")
                else:
                    c.ok(f"{r[2]} {wl}")
    c.need("calls analysed", 300)
    return c.finish(EXPLANATION)


EXPLANATION = "Polynomial operations evaluated on their source over enumerated exponent sets with symbolic coefficients."
