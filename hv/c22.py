"""C22: the circuits that evaluate a polynomial denote that polynomial."""
import itertools, os, random
from fractions import Fraction
from .cprop import I, T
from .alg import Alg, atom, padd, pmul, ptext, const, q, unq, isnode, children, UNDEF
from . import alg, facts

D = "lib/Utils/Polynomial/"
X = T("X")
THR = q(Fraction(1, 10 ** 15))


def cheb(n, memo={}):
    if n not in memo:
        memo[n] = const(1) if n == 0 else atom("x") if n == 1 else padd(pmul(pmul(const(2), atom("x")), cheb(n - 1)), cheb(n - 2), -1)
    return memo[n]


def xpow(n):
    return {("x",) * n: Fraction(1)}


def coeff(i, zero):
    return {} if zero else atom(f"c{i}")


class Evals:
    def __init__(self, c, P):
        self.c, self.P = c, P

    def fn(self, name, k):
        fs = [f for f in self.P.all if f.name == name and not f.dep and f.body is not None and len(f.params) == k and f.rel.startswith(D)]
        return fs[0] if len(fs) == 1 else None

    def run(self, name, args, what, tensor=True):
        """(value, world, fn) or None when not decided."""
        f = self.fn(name, len(args))
        if f is None:
            self.c.undecided(f"{name}: {what}", "entry point not found in the form the callers use")
            return None
        self.c.count("evaluations analysed")
        w = Alg(self.P)
        w.intensor = tensor
        a = {i: (x(w) if callable(x) else x) for i, x in enumerate(args)}
        try:
            v, s = w.run(f, a)
        except Exception as e:      # a form the evaluator does not model: no verdict
            if os.environ.get("HV_DEBUG"):
                raise
            v = None
        where = f"{f.rel}:{f.line} {name}"
        if v == ("noret",) and not w.forks:
            self.c.bad(f"{f.rel}:{name}:aborts", where, f"for {what} an assertion fails")
            return None
        if w.oob and not w.forks:
            self.c.bad(f"{f.rel}:{name}:range", where, f"for {what} uses {alg.oobtext(w.oob[0])}")
            return None
        if v is None:
            self.c.undecided(f"{name}: {what}", "value not determined")
            return None
        return v, w, f

    def same(self, w, f, v, want, what, null=False):
        """The node's value is the wanted polynomial in x."""
        c = self.c
        where = f"{f.rel}:{f.line} {f.name}"
        key = f"{f.rel}:{f.name}"
        if v == ("fail",):
            if null:
                c.ok(f"{f.name} {what}: no circuit, the polynomial is zero")
            else:
                c.bad(key, where, f"for {what} yields no circuit, but the polynomial is {ptext(want)}")
            return
        r = w.denote(v, {X: atom("x")}, 1)
        if w.den is not None and w.den.oob and r is None:
            c.bad(key + ":range", where, f"for {what} the circuit reads {w.den.oob[0]}")
        elif not isinstance(r, dict):
            c.undecided(f"{f.name}: {what}", "value of the circuit not determined")
        elif r != want:
            c.bad(key, where, f"for {what} the circuit computes {ptext(r)}, not {ptext(want)}")
        else:
            c.ok(f"{f.name} {what}")

    def depth(self, w, f, v, most, what):
        """Products of values that depend on x, on the longest path."""
        memo = {}

        def go(i):
            if i not in memo:
                nd = w.nodes[i]
                ch = [go(j) for j in children(nd)]
                d = max([x for x in ch if x is not None], default=None)
                if nd[0] == "leaf":
                    d = 0
                elif nd[0] == "mul" and None not in ch:
                    d += 1
                memo[i] = d
            return memo[i]
        d = go(v[2]) or 0
        if d > most:
            self.c.bad(f"{f.rel}:{f.name}:depth", f"{f.rel}:{f.line} {f.name}", f"{what} takes {d} successive multiplications, documented is {most}")
        else:
            self.c.ok()


def patterns(d, deep):
    """Sets of positions (of 0..d) that carry a zero coefficient."""
    if d <= (6 if deep else 4):
        return [frozenset(s) for k in range(d + 2) for s in itertools.combinations(range(d + 1), k)]
    rnd = random.Random(d)
    out = {frozenset(), frozenset(range(0, d + 1, 2)), frozenset(range(1, d + 1, 2)), frozenset(range(d)), frozenset([d]), frozenset([0]),
           frozenset(range(d // 2 + 1)), frozenset(range(d // 2, d + 1)), frozenset(range(d + 1))}
    for _ in range(8 if deep else 3):
        out.add(frozenset(i for i in range(d + 1) if rnd.random() < 0.5))
    return sorted(out, key=sorted)


def check(c):
    c.rule("Each evaluation scheme is evaluated abstractly on its source with one unknown per coefficient and x; the circuit's value must be the "
           "polynomial the coefficients describe, as polynomials in x and all coefficients, for every pattern of absent and zero coefficients listed")
    c.rule("Every power x^i and T_i(x) it precomputes equals that power, within the documented multiplicative depth ceil(log2 i)")
    c.rule("decompose(p, k) yields p_0..p_l of degree below k with p = sum of p_i T_k^i")
    c.rule("No index outside a sequence is read, no absent node is used as an operand")
    c.assume.append("Coefficients are exact numbers in general position: rounding and coefficients near the drop threshold are not considered")
    try:
        P = alg.load()
    except facts.AnalysisBroken as e:
        c.undecided("schemes", f"the witness instantiation does not compile: {str(e)[:200]}")
        return c.finish(EXPLANATION)
    E = Evals(c, P)
    deep = c.tier == "thorough"
    leaf = lambda w: w.node("leaf", X)
    top = 40 if deep else 13
    for name in ("hornerMonomialPolynomialEvaluation", "patersonStockmeyerMonomialPolynomialEvaluation"):
        for d in range(-1, top):
            for z in patterns(d, deep) if d >= 0 else [frozenset()]:
                for absent in (True, False):
                    if absent and (d in z or d < 0) and not (d < 0):
                        continue
                    for tensor in ((True, False) if d <= 3 or deep else (True,)):
                        m = T("map", tuple((I(i), q(coeff(i, i in z))) for i in range(d + 1) if not (absent and i in z)))
                        want = {}
                        for i in range(d + 1):
                            want = padd(want, pmul(coeff(i, i in z), xpow(i)))
                        what = f"degree {d}, zero {sorted(z)}" + (" left out" if absent and z else "") + (" on tensors" if tensor else "")
                        r = E.run(name, [leaf, m, T("dt")], what, tensor)
                        if r is not None:
                            E.same(r[1], r[2], r[0], want, what)
    for d in list(range(-1, 80 if deep else 26)) + ([] if deep else [31, 32, 36, 47, 63, 64]):
        for z in (patterns(d, deep) if d < (48 if deep else 26) else [frozenset(), frozenset(range(1, d, 2)), frozenset(range(d // 3, d - 1))]) if d >= 0 else [frozenset()]:
            for tensor in ((True, False) if d <= 3 or deep else (True,)):
                l = ("l", tuple(q(coeff(i, i in z)) for i in range(d + 1)))
                want = {}
                for i in range(d + 1):
                    want = padd(want, pmul(coeff(i, i in z), cheb(i)))
                what = f"Chebyshev degree {d}, zero {sorted(z)}" + (" on tensors" if tensor else "")
                r = E.run("patersonStockmeyerChebyshevPolynomialEvaluation", [X, l, THR, T("dt")], what, tensor)
                if r is not None:
                    E.same(r[1], r[2], r[0], want, what, null=not want)
    log = lambda i: max(i - 1, 0).bit_length()
    for k in range(0, 70 if deep else 20):
        for tensor in (True, False):
            for name, a, base in (("computePowers", leaf, xpow), ("computeChebyshevPolynomialValues", X, cheb), ("genChebyshevPowersRecursive", leaf, cheb)):
                what = f"powers up to {k}"
                r = E.run(name, [a, I(k), T("dt")], what, tensor)
                if r is None:
                    continue
                v, w, f = r
                if v[0] == "l":
                    vs = dict(enumerate(v[1]))
                elif v[:2] == ("t", "map"):
                    vs = {x[0][1]: x[1] for x in v[2] if x[0][0] == "i"}
                else:
                    c.undecided(f"{name}: {what}", "value not determined")
                    continue
                for i in range(k + 1):
                    if i not in vs:
                        c.bad(f"{f.rel}:{name}:missing", f"{f.rel}:{f.line} {name}", f"asked for powers up to {k}, power {i} is missing")
                    elif not isnode(vs[i]):
                        c.undecided(f"{name}: {what}", "value not determined")
                    else:
                        E.same(w, f, vs[i], base(i), f"power {i} of {k}")
                        E.depth(w, f, vs[i], log(i), f"power {i}")
    for k in range(1, 34 if deep else 9):
        for d in range(-1, 40 if deep else 18):
            for z in patterns(d, False)[:6] if d >= 0 else [frozenset()]:
                l = ("l", tuple(q(coeff(i, i in z)) for i in range(d + 1)))
                what = f"decomposition of degree {d} by T_{k}, zero {sorted(z)}"
                r = E.run("decompose", [l, I(k)], what)
                if r is None:
                    continue
                v, w, f = r
                where, key = f"{f.rel}:{f.line} decompose", f"{f.rel}:decompose"
                st = dict(v[1]) if v[0] == "st" else {}
                gd, cs = st.get("generatorDegree"), st.get("coeffs")
                if gd is None or cs is None or cs[0] != "l" or any(x is None or x[0] != "l" or any(unq(y) is None for y in x[1]) for x in cs[1]):
                    c.undecided(what, "value not determined")
                    continue
                got, tk, want = {}, const(1), {}
                for i in range(d + 1):
                    want = padd(want, pmul(coeff(i, i in z), cheb(i)))
                for x in cs[1]:
                    if len(x[1]) > k:
                        c.bad(key + ":degree", where, f"{what} has a part of degree {len(x[1]) - 1}, not below {k}")
                        break
                    p = {}
                    for i, y in enumerate(x[1]):
                        p = padd(p, pmul(unq(y), cheb(i)))
                    got = padd(got, pmul(p, tk))
                    tk = pmul(tk, cheb(k))
                else:
                    if got != want:
                        c.bad(key, where, f"{what} denotes {ptext(got)}, not {ptext(want)}")
                    elif unq(gd) != const(k):
                        c.bad(key + ":generator", where, f"{what} names {ptext(unq(gd))} as the degree of its generator")
                    else:
                        c.ok(what)
    c.need("evaluations analysed", 200)
    return c.finish(EXPLANATION)


EXPLANATION = "Polynomial evaluation schemes of lib/Utils/Polynomial evaluated on their source over enumerated degrees and zero patterns with symbolic coefficients."
