"""Polynomial value domain: integer terms over symbolic atoms in a normal form (value numbering of arithmetic).

A polynomial is T("poly", ((monomial, coefficient), ...)); a monomial is a sorted tuple of atoms.
Quotients are kept as atoms T("div", p, q) after exact parts have been taken out (operands are non-negative)."""
import ast
from .cprop import I, T
from .ceval import Eval, conc

TYPES = ("i", "t")


def key(x):
    return repr(x)


def of(v):
    """dict monomial -> coefficient, or None if v is not an integer term."""
    if v is None:
        return None
    if v[0] == "i":
        k = conc(v)
        return None if k is None else ({(): k} if k else {})
    if v[:2] == ("t", "poly"):
        return dict(v[2])
    if v[0] == "t" and v[1] in ("+", "-", "*", "/", "%") and len(v) == 4:
        a, b = of(v[2]), of(v[3])
        return op(v[1], a, b)
    if v[0] == "t":
        return {(v,): 1}
    return None


def mk(d):
    if d is None:
        return None
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if list(d) == [()]:
        return I(d[()])
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return T("poly", tuple(sorted(d.items(), key=key)))


def add(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
    return {m: c for m, c in d.items() if c}


def mul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            mm = tuple(sorted(m + n, key=key))
            d[mm] = d.get(mm, 0) + c * e
    return {m: c for m, c in d.items() if c}


def mono_div(m, c, n, e):
    """Quotient of two monomials if exact."""
    if e == 0 or c % e:
        return None
    r = list(m)
    for x in n:
        if x not in r:
            return None
        r.remove(x)
    return tuple(r), c // e


def div(a, b):
    if not b:
        return None
    if not a:
        return {}
    if b == {(): 1}:
        return a
    if len(b) == 1:
        (n, e), = b.items()
        exact, rest = {}, {}
        for m, c in a.items():
            q = mono_div(m, c, n, e)
            if q is not None:
                exact = add(exact, {q[0]: q[1]})
            else:
                rest[m] = c
        if not rest:
            return exact
        # (x / y) / z = x / (y z)
        if len(rest) == 1:
            (m, c), = rest.items()
            if c == 1 and len(m) == 1 and m[0][:2] == ("t", "div"):
                inner = div(of(m[0][2]), mul(of(m[0][3]), b))
                return add(exact, inner) if inner is not None else None
        return add(exact, {(T("div", mk(rest), mk(b)),): 1})
    return {(T("div", mk(a), mk(b)),): 1}


def op(o, a, b):
    if a is None or b is None:
        return None
    if o == "+":
        return add(a, b)
    if o == "-":
        return add(a, b, -1)
    if o == "*":
        return mul(a, b)
    q = div(a, b)
    if q is None:
        return None
    return q if o == "/" else add(a, mul(q, b), -1)


def norm(v):
    d = of(v)
    return mk(d) if d is not None else v


class PolyEval(Eval):
    """Eval whose arithmetic on symbolic integers is normalised."""

    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.syms = {}

    def arith(self, o, a, b):
        if a is not None and b is not None and o in ("+", "-", "*", "/", "%") and a[0] in TYPES and b[0] in TYPES and not (conc(a) is not None and conc(b) is not None):
            r = mk(op(o, of(a), of(b)))
            if r is not None:
                return r
        return super().arith(o, a, b)

    def name_of(self, v):
        for k, x in self.syms.items():
            if x == v:
                return k
        k = f"S{len(self.syms)}_"
        self.syms[k] = v
        return k

    def rep(self, v):
        r = super().rep(v)
        if r is None and v is not None and v[0] == "t":
            return self.name_of(v)
        return r

    def parse(self, text):
        """Polynomial denoted by C expression text."""
        try:
            t = ast.parse(text.strip(), mode="eval").body
        except SyntaxError:
            return None

        def go(n):
            if isinstance(n, ast.BinOp):
                o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "/", ast.Mod: "%"}.get(type(n.op))
                return op(o, go(n.left), go(n.right)) if o else None
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                x = go(n.operand)
                return op("-", {}, x) if x is not None else None
            if isinstance(n, ast.Constant) and isinstance(n.value, int):
                return {(): n.value} if n.value else {}
            if isinstance(n, ast.Name):
                v = self.syms.get(n.id, T("name", n.id))
                return of(v)
            return None
        return mk(go(t))
