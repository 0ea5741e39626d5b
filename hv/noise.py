"""Symbolic path evaluation of real-valued formulas.

A value is kept three ways at once: as a generalised polynomial (positive atoms with rational
exponents) of the mathematical quantity, as bounds of the binary logarithm of its magnitude, and
as the set of places where the C++ expression that computes it leaves the range of its type.
Every path through the function is followed: conditions the bounds do not decide are taken both
ways. Nothing is executed."""
import math
import re
from decimal import Decimal, getcontext
from fractions import Fraction
from .flow import is_noreturn
from .prog import N
from . import facts

getcontext().prec = 40
NEG = float("-inf")


class Unsup(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Dead(Exception):
    pass


ATOMS = []          # composite atoms: (kind, posy, parameter)


def mkatom(kind, p, par=None):
    for i, a in enumerate(ATOMS):
        if a[0] == kind and a[2] == par and a[1] == p:
            return i
    ATOMS.append((kind, p, par))
    return len(ATOMS) - 1


def padd(a, b, k=1.0):
    out = dict(a)
    for m, c in b.items():
        x = out.get(m, 0.0) + k * c
        if abs(x) < 1e-300 or abs(x) < 1e-12 * max(abs(c), abs(out.get(m, 0.0))):
            out.pop(m, None)
        else:
            out[m] = x
    return out


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items(), key=lambda t: (str(type(t[0])), t[0])))


def pmul(a, b):
    if len(a) * len(b) > 3000:
        return None
    out = {}
    for m, c in a.items():
        for k, d in b.items():
            out = padd(out, {mmul(m, k): c * d})
    return out


def ppow(a, e):
    """a ** e for a rational exponent."""
    e = Fraction(e).limit_denominator(1000)
    if not a:
        return {} if e > 0 else None
    if len(a) == 1:
        (m, c), = a.items()
        if c > 0:
            return {tuple((x, k * e) for x, k in m): c ** float(e)}
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = pmul(r, a)
            if r is None:
                return None
        return r
    # factor out what all terms share
    return {((mkatom("pow", freeze(a), e), Fraction(1)),): 1.0}


def freeze(p):
    return tuple(sorted(p.items(), key=str))


def deps(p):
    """Symbols a formula mentions."""
    out = set()
    for m in (dict(p) if not isinstance(p, dict) else p):
        for x, _ in m:
            if isinstance(x, int):
                k, q, par = ATOMS[x]
                out |= deps(dict(q))
                if k in ("expo",):
                    pass
            else:
                out.add(x)
    return out


def comb(a, b):
    return b if a == 0 else a if b == 0 else a if a == b else None


def dirn(p, sym):
    """Direction in which a formula moves when sym grows: 1, -1, 0 (does not), None (not decided)."""
    r = 0
    for m, c in p.items():
        d = 0
        for x, e in m:
            if isinstance(x, int):
                k, q, par = ATOMS[x]
                y = dirn(dict(q), sym)
                if y is None:
                    return None
                if k == "pow":
                    y = y if par > 0 else -y
                elif k == "expo":
                    y = y if par > 1 else -y if par < 1 else 0
                elif k == "opaque" and y != 0:
                    return None
            else:
                y = 1 if x == sym else 0
            d = comb(d, y if e > 0 else -y)
            if d is None:
                return None
        r = comb(r, d if c > 0 else -d)
        if r is None:
            return None
    return r


def peval(p, env):
    """Value of a formula at a point (decimal arithmetic with unbounded exponents)."""
    t = Decimal(0)
    for m, c in p.items():
        v = Decimal(c)
        for x, e in m:
            b = aeval(x, env)
            if b <= 0 and e < 0:
                raise ValueError
            v *= b ** (Decimal(e.numerator) / Decimal(e.denominator)) if e != 1 else b
        t += v
    return t


def aeval(x, env):
    if not isinstance(x, int):
        return env(x)
    k, q, par = ATOMS[x]
    v = peval(dict(q), env)
    if k == "pow":
        return v ** (Decimal(par.numerator) / Decimal(par.denominator))
    if k == "expo":
        return Decimal(par) ** v
    if k == "ceil":
        return Decimal(math.ceil(v))
    if k == "floor":
        return Decimal(math.floor(v))
    if k == "log":
        return v.ln() / Decimal(2).ln()
    if k in ("max", "min"):
        a, b = (peval(dict(z), env) for z in par)
        return max(a, b) if k == "max" else min(a, b)
    if k in ("sum", "rep"):
        return v
    raise ValueError


def ptxt(p):
    def at(x):
        if isinstance(x, int):
            k, q, par = ATOMS[x]
            if k in ("max", "min"):
                return f"{k}({ptxt(dict(par[0]))}, {ptxt(dict(par[1]))})"
            return f"{k}({ptxt(dict(q))}{'' if par is None else ', ' + str(par)})"
        return x
    return " + ".join("*".join(([f"{c:.4g}"] if abs(c - 1) > 1e-9 or not m else []) + [at(x) + (f"^{e}" if e != 1 else "") for x, e in m]) for m, c in list(p.items())[:8]) or "0"


class Num:
    """A number: formula p (None = unknown), log2 bounds of its magnitude, faults on the way to it."""
    __slots__ = ("p", "lo", "hi", "neg", "isint", "tz", "f")

    def __init__(self, p=None, lo=None, hi=None, neg=False, isint=False, tz=0, f=frozenset()):
        self.p = p; self.lo = lo; self.hi = hi; self.neg = neg; self.isint = isint; self.tz = tz; self.f = f

    def const(self):
        if self.p == {}:
            return 0.0
        return self.p[()] if self.p is not None and set(self.p) == {()} else None

    def withf(self, f):
        return Num(self.p, self.lo, self.hi, self.neg, self.isint, self.tz, self.f | f) if f - self.f else self

    def __repr__(self):
        return f"Num({'?' if self.p is None else ptxt(self.p)} [{self.lo},{self.hi}]{'!' if self.f else ''})"


class Log:
    """The logarithm (base 2, or natural) of a number kept only as that number."""
    __slots__ = ("x", "base")

    def __init__(self, x, base=2):
        self.x = x; self.base = base

    @property
    def f(self):
        return self.x.f

    def __repr__(self):
        return f"log{self.base}({self.x})"


class Obj:
    def __init__(self, cls, fields):
        self.cls = cls; self.fl = fields

    def __repr__(self):
        return f"{self.cls}{self.fl}"


class Lst:
    def __init__(self, name, elem, count=6, total=None):
        self.name = name; self.elem = elem; self.count = count; self.total = total


class It:
    def __init__(self, lst):
        self.lst = lst


class Enum:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Lam:
    def __init__(self, n, env):
        self.n = n; self.env = env


class Nullopt:
    pass


def cnum(c, isint=None):
    c = float(c)
    if c == 0:
        return Num({}, NEG, NEG, isint=True, tz=60)
    isint = (c == int(c)) if isint is None and abs(c) < 1e300 else bool(isint)
    tz = 0
    if isint:
        k = int(abs(c))
        while k and not k & 1 and tz < 60:
            k >>= 1; tz += 1
    return Num({(): c}, math.log2(abs(c)), math.log2(abs(c)), c < 0, isint, tz)


def sym(name, lo, hi, isint=False, tz=0):
    return Num({((name, Fraction(1)),): 1.0}, lo, hi, isint=isint, tz=tz)


UNK = Num()


def fl(v):
    if isinstance(v, (Num, Log)):
        return v.f
    if isinstance(v, Obj):
        r = frozenset()
        for x in v.fl.values():
            r |= fl(x)
        return r
    return frozenset()


def width(t):
    """('i', bits, signed) / ('f', bits) / None."""
    t = re.sub(r"\bconst\b|&|\bvolatile\b", "", t or "").strip()
    m = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "short": (16, 1), "unsigned short": (16, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "__int128": (128, 1), "unsigned __int128": (128, 0)}
    if t in m:
        return ("i",) + m[t]
    for k, b in (("int64_t", (64, 1)), ("uint64_t", (64, 0)), ("int32_t", (32, 1)), ("uint32_t", (32, 0)), ("size_t", (64, 0)), ("int16_t", (16, 1)), ("uint16_t", (16, 0))):
        if t in (k, "std::" + k):
            return ("i",) + b
    return {"double": ("f", 64), "float": ("f", 32), "long double": ("f", 80)}.get(t)


class Sym:
    """One function evaluated along one choice of undecided conditions."""

    def __init__(self, P, getters, choices, hook=None):
        self.P = P
        self.getters = getters      # name -> value or callable
        self.choices = choices
        self.made = []              # (key, options)
        self.memo = {}
        self.env = {}
        self.depth = 0
        self.pcs = []               # decided comparisons with their formulas
        self.conds = []             # (op, deps left, deps right, text)
        self.cf = frozenset()       # faults in conditions
        self.hook = hook
        self.steps = 0

    # -- choices --------------------------------------------------------------
    def choose(self, key, opts):
        if key in self.memo:
            return self.memo[key]
        i = len(self.made)
        k = self.choices[i] if i < len(self.choices) else 0
        self.made.append((key, len(opts), k))
        self.memo[key] = opts[k]
        return opts[k]

    # -- typed arithmetic -----------------------------------------------------
    def fit(self, v, n, t, what):
        """The value after it took type t."""
        w = width(t)
        if w is None or not isinstance(v, Num) or v.hi is None:
            return v
        where = (n.tu is not None and n.line) or 0
        if w[0] == "i":
            if v.hi >= w[1] - w[2]:
                return v.withf(frozenset([(where, "wrap", f"{what} can reach 2^{v.hi:.0f} in the {w[1]}-bit type '{clean(t)}'")]))
        elif w[1] == 32:
            if v.const() is None or v.const() != v.const() or not exact32(v.const()):
                return v.withf(frozenset([(where, "narrow", f"{what} is rounded to single precision")]))
        else:
            if v.hi > 1024 and w[1] == 64:
                return v.withf(frozenset([(where, "overflow", f"{what} can reach 2^{v.hi:.0f}, beyond the range of double")]))
            if v.lo is not None and v.lo != NEG and v.lo < -1074 and w[1] == 64:
                return v.withf(frozenset([(where, "underflow", f"{what} can be as small as 2^{v.lo:.0f} and then becomes 0 in double")]))
        return v

    def tonum(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, bool):
            return cnum(int(v))
        if isinstance(v, Log):
            x = v.x
            if x.p == {}:
                return Num(f=x.f)
            c = x.const()
            if c is not None and c > 0:
                return cnum(math.log2(c) if v.base == 2 else math.log(c)).withf(x.f)
            if x.p is None or v.base != 2:
                return Num(f=x.f)
            hi = math.log2(max(abs(x.lo), abs(x.hi), 1e-9)) if x.lo not in (None, NEG) and x.hi is not None else None
            return Num({((mkatom("log", freeze(x.p)), Fraction(1)),): 1.0}, NEG, hi, neg=True, f=x.f)
        return UNK

    def arith(self, op, a, b, n=None, t=None):
        if isinstance(a, Log) or isinstance(b, Log):
            r = self.logarith(op, a, b)
            if r is not None:
                return r
        a, b = self.tonum(a), self.tonum(b)
        f = a.f | b.f
        isint = width(t) is not None and width(t)[0] == "i"
        if a.hi is None or b.hi is None:
            p = None
            if a.p is not None and b.p is not None and not isint:
                p = padd(a.p, b.p) if op == "+" else padd(a.p, b.p, -1.0) if op == "-" else pmul(a.p, b.p) if op == "*" else None
                if op == "/" and b.p:
                    q = ppow(b.p, -1)
                    p = pmul(a.p, q) if q is not None else None
            return Num(p, None, None, f=f)
        ca, cb = a.const(), b.const()
        ii = a.isint and b.isint
        if op in "+-":
            if ca is not None and cb is not None:
                r = cnum(ca + cb if op == "+" else ca - cb)
                return self.fit(r.withf(f), n, t, "the sum") if t else r.withf(f)
            p = padd(a.p, b.p, 1.0 if op == "+" else -1.0) if a.p is not None and b.p is not None else None
            same = not a.neg and not b.neg and op == "+"
            hi = addlog(a.hi, b.hi)
            lo = addlog(a.lo, b.lo) if same else NEG
            neg = not same
            if op == "+" and cb is not None and cb < 0 or op == "-" and cb is not None and cb > 0 or op == "+" and ca is not None and ca < 0:
                hi = a.hi if cb is not None else b.hi       # magnitude of a number less a constant
                hi = max(hi, 0.0)
                neg = not ((a.lo if cb is not None else b.lo) >= math.log2(abs(cb if cb is not None else ca)))
            r = Num(p, lo, hi, neg, ii, min(a.tz, b.tz), f)
        elif op == "*":
            if a.p == {} or b.p == {}:
                return cnum(0).withf(f)
            p = pmul(a.p, b.p) if a.p is not None and b.p is not None else None
            r = Num(p, a.lo + b.lo, a.hi + b.hi, a.neg or b.neg, ii, a.tz + b.tz, f)
        elif op == "/":
            if isint:
                return self.intdiv(a, b, n, t, f)
            if b.p == {}:
                return Num(f=f)
            if a.p == {}:
                return cnum(0).withf(f)
            q = ppow(b.p, -1) if b.p is not None else None
            p = pmul(a.p, q) if q is not None and a.p is not None else None
            if b.lo == NEG:
                return Num(p, None, None, a.neg or b.neg, f=f)
            r = Num(p, a.lo - b.hi, a.hi - b.lo, a.neg or b.neg, False, 0, f)
        elif op in ("<<",) and cb is not None:
            return self.arith("*", a, cnum(2.0 ** cb), n, t)
        elif op in (">>",) and cb is not None:
            return self.arith("/", a, cnum(2.0 ** cb), n, t or "int")
        else:
            return Num(f=f)
        return self.fit(r, n, t, {"+": "the sum", "-": "the difference", "*": "the product", "/": "the quotient"}[op]) if t else r

    def intdiv(self, a, b, n, t, f):
        cb = b.const()
        if b.p is None or a.p is None or b.p == {}:
            return Num(f=f)
        q = ppow(b.p, -1)
        p = pmul(a.p, q) if q is not None else None
        ca = a.const()
        if ca is not None and cb is not None:
            return cnum(int(ca / cb)).withf(f)
        exact = cb is not None and cb > 0 and cb == int(cb) and bin(int(cb)).count("1") == 1 and a.tz >= math.log2(cb)
        if cb == 1:
            exact = True
        lo = a.lo - b.hi if b.hi is not None else NEG
        hi = a.hi - b.lo if b.lo not in (None, NEG) else a.hi
        if exact:
            return Num(p, lo, hi, a.neg, True, a.tz - int(math.log2(cb)), f)
        # floor((x + d - 1) / d) is the ceiling of x / d
        up = padd(a.p, b.p, -1.0)
        if all(c > 0 or m == () for m, c in up.items()) and len(up) + (0 if () in up else 0) <= len(a.p) and (cb is None or a.p.get((), 0) >= cb - 1 and cb > 1):
            x = padd(up, {(): 1.0})
            pp = pmul(x, q)
            return Num({((mkatom("ceil", freeze(pp)), Fraction(1)),): 1.0} if pp is not None else None, NEG, max(hi, 0.0), False, True, 0, f)
        pp = {((mkatom("floor", freeze(p)), Fraction(1)),): 1.0} if p is not None else None
        return Num(pp, NEG, hi, a.neg, True, 0, f | frozenset([(n.line if n is not None else 0, "truncate", "an integer division drops the remainder")]))

    def logarith(self, op, a, b):
        """log(x) with a number or another logarithm."""
        if isinstance(a, Log) and isinstance(b, Log) and a.base == b.base:
            if op in "+-":
                x, y = a.x, b.x
                if op == "-":
                    if y.p == {}:
                        return None
                    y = Num(ppow(y.p, -1) if y.p else None, None if y.hi is None else -y.hi, None if y.lo in (None, NEG) else -y.lo, f=y.f)
                if x.p == {} or y.p == {}:
                    return Log(Num({}, NEG, NEG, f=x.f | y.f), a.base)
                p = pmul(x.p, y.p) if x.p is not None and y.p is not None else None
                k = x.lo is not None and y.lo is not None and x.hi is not None and y.hi is not None
                return Log(Num(p, x.lo + y.lo if k else None, x.hi + y.hi if k else None, f=x.f | y.f), a.base)
            return None
        if isinstance(a, Log) and isinstance(b, Log):
            if op not in "+-":
                return None
            two = lambda l: l if l.base == 2 else self.logarith("*", Log(l.x), cnum(math.log(2)))
            a, b = two(a), two(b)
            return self.logarith(op, a, b) if a is not None and b is not None else None
        if isinstance(a, Log):
            c = self.tonum(b) if not isinstance(b, Log) else None
            k = c.const() if c is not None else None
            if k is None:
                return None
            if op in "+-":
                m = 2.0 ** min(max(k if op == "+" else -k, -1000), 1000) if a.base == 2 else math.exp(k if op == "+" else -k)
                return Log(self.arith("*", a.x, cnum(m)).withf(c.f), a.base)
            if op in "*/" and k:
                e = k if op == "*" else 1.0 / k
                if a.base == "e" and op == "/" and abs(k - math.log(2)) < 1e-5:
                    return Log(a.x.withf(c.f), 2)
                if a.base == "e" and op == "*" and abs(k - 1 / math.log(2)) < 1e-5:
                    return Log(a.x.withf(c.f), 2)
                x = a.x
                p = ppow(x.p, e) if x.p is not None else None
                lh = sorted((x.lo * e, x.hi * e)) if x.lo is not None and x.hi is not None and x.lo != NEG else (None, None)
                return Log(Num(p, lh[0], lh[1], f=x.f | c.f), a.base)
            return None
        if op == "+" or op == "*":
            return self.logarith(op, b, a)
        if op == "-":
            r = self.logarith("*", b, cnum(-1))
            return self.logarith("+", r, a) if r is not None else None
        return None

    # -- comparison -----------------------------------------------------------
    def cmp(self, op, a, b, n):
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return {"==": a == b, "!=": a != b}.get(op)
            a = cnum(int(a)) if isinstance(a, bool) else a
            b = cnum(int(b)) if isinstance(b, bool) else b
        if isinstance(a, Enum) and isinstance(b, Enum):
            r = {"==": a.name == b.name, "!=": a.name != b.name}.get(op)
            if r is not None:
                return r
        if isinstance(a, Nullopt) or isinstance(b, Nullopt):
            return {"==": type(a) is type(b), "!=": type(a) is not type(b)}[op]
        if isinstance(a, (Num, Log)) and isinstance(b, (Num, Log)):
            self.cf |= a.f | b.f
            if isinstance(a, Log) and isinstance(b, Log):
                x, y = a.x, b.x
                d = self.order(x, y)
            elif isinstance(a, Log) or isinstance(b, Log):
                L, c, sw = (a, b, 1) if isinstance(a, Log) else (b, a, -1)
                k = c.const()
                d = None
                L = Log(self.tight(L.x), L.base)
                if k is not None and L.x.p == {}:
                    d = "<"
                elif k is not None and L.x.lo is not None and L.x.hi is not None and L.base == 2:
                    if L.x.lo > k + 1e-9:
                        d = ">"
                    elif L.x.hi < k - 1e-9:
                        d = "<"
                    elif L.x.lo == L.x.hi == k:
                        d = "="
                    elif L.x.hi <= k + 1e-9:
                        d = "<="
                    elif L.x.lo >= k - 1e-9:
                        d = ">="
                if sw < 0 and d:
                    d = {">": "<", "<": ">", "=": "=", "<=": ">=", ">=": "<="}[d]
                x, y = (L.x, c) if sw > 0 else (c, L.x)
            else:
                x, y = a, b
                d = self.order(x, y, True)
            r = decide(op, d)
            if r is not None:
                return r
            xp, yp = x.p, y.p
            key = ("cmp", op if op not in ("!=",) else "==", str(freeze(xp)) if xp is not None else id(n.d), str(freeze(yp)) if yp is not None else "")
            v = self.choose(key, [True, False])
            self.pcs.append((op, self.under(a), self.under(b), (not v) if op == "!=" else v, key))
            if (key, "c") not in self.memo:
                self.memo[(key, "c")] = 1
                self.conds.append((op, deps(xp) if xp is not None else {"?"}, deps(yp) if yp is not None else {"?"}, n.line))
            return (not v) if op == "!=" else v
        key = ("cond", id(n.d))
        if (key, "c") not in self.memo:
            self.memo[(key, "c")] = 1
            self.conds.append((op, {"?"}, {"?"}, n.line))
        return self.choose(key, [True, False])

    def under(self, v):
        """The formula a side of a comparison stands for: (is a logarithm, formula)."""
        x = v.x if isinstance(v, Log) else v
        if isinstance(v, Log) and v.base != 2:
            return None
        return (isinstance(v, Log), x.p)

    def order(self, x, y, num=False):
        """How two non-negative numbers compare, when the bounds or the formulas tell."""
        if x.p is not None and x.p == y.p:
            return "="
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return "<" if cx < cy else ">" if cx > cy else "="
        if num and (x.neg or y.neg):
            if cy == 0 and x.hi is not None and not x.neg:
                return ">" if x.lo not in (None, NEG) else ">="
            return None
        if None in (x.lo, x.hi, y.lo, y.hi):
            return None
        if x.p == {} or y.p == {}:
            # zero against something strictly positive
            o = y if x.p == {} else x
            return None if o.lo in (None, NEG) else "<" if x.p == {} else ">"
        if x.p and y.p and len(x.p) == 1 and len(y.p) == 1:
            r = self.ratio(x.p, y.p)
            if r is not None:
                lo, hi = r
                if lo > 0:
                    return ">"
                if hi < 0:
                    return "<"
                if lo >= 0:
                    return ">="
                if hi <= 0:
                    return "<="
        if x.lo > y.hi:
            return ">"
        if x.hi < y.lo:
            return "<"
        if x.lo != NEG and x.lo >= y.hi:
            return ">="
        if y.lo != NEG and x.hi <= y.lo:
            return "<="
        return None

    BOUNDS = {}

    def tight(self, x):
        """A monomial with the bounds its symbols give it."""
        if x.p is None or len(x.p) != 1 or x.hi is None:
            return x
        r = self.ratio(x.p, {(): 1.0})
        if r is None:
            return x
        lo = r[0] if x.lo in (None, NEG) else max(x.lo, r[0])
        return Num(x.p, lo, min(x.hi, r[1]), x.neg, x.isint, x.tz, x.f)

    def ratio(self, p, q):
        """Bounds of log2(p/q) for two monomials over symbols with known bounds."""
        (m, c), = p.items()
        (k, d), = q.items()
        if c <= 0 or d <= 0:
            return None
        r = mmul(m, tuple((x, -e) for x, e in k))
        lo = hi = math.log2(c / d)
        for x, e in r:
            if x not in self.BOUNDS:
                return None
            a, b = self.BOUNDS[x]
            lo += float(e) * (a if e > 0 else b)
            hi += float(e) * (b if e > 0 else a)
        return lo, hi

    def truth(self, v, n):
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            self.cf |= v.f
            c = v.const()
            if c is not None:
                return c != 0
            if not v.neg and v.lo not in (None, NEG):
                return True
        if isinstance(v, Nullopt):
            return False
        key = ("cond", id(n.d))
        if (key, "c") not in self.memo:
            self.memo[(key, "c")] = 1
            self.conds.append(("?", {"?"}, {"?"}, n.line))
        return self.choose(key, [True, False])

    # -- expressions ----------------------------------------------------------
    def lv(self, n):
        while n is not None:
            if n.k == "Cast":
                n = n.e
            elif n.k == "Un" and n.op in ("*", "&") or n.k == "OpCall" and n.op in ("*", "->") and len(n.args or []) == 1:
                n = n.a if n.k == "Un" else n.args[0]
            elif n.k == "Call" and n.q in ("std::move", "std::forward", "std::as_const") and n.args:
                n = n.args[0]
            else:
                break
        if n is None:
            return None
        if n.k == "Ref" and n.d.get("id") is not None and n.dk in ("param", "var", "bind", None):
            i = n.d["id"]
            al = self.env.get(("al", i))
            return al if al is not None else ("v", i)
        if n.k == "This":
            return self.env.get(("al", "this")) or ("this",)
        if n.k == "Mem":
            b = self.lv(n.base)
            return ("m", b, n.n) if b is not None else None
        return None

    def get(self, p):
        if p in self.env:
            return self.env[p]
        if p[0] == "m":
            b = self.get(p[1])
            if isinstance(b, Obj):
                return b.fl.get(p[2])
        return None

    def put(self, p, v):
        if p is None:
            raise Unsup("store through an unmodelled place")
        if p[0] == "m":
            b = self.get(p[1])
            if isinstance(b, Obj):
                d = dict(b.fl); d[p[2]] = v
                return self.put(p[1], Obj(b.cls, d))
        self.env[p] = v

    def ev(self, n):
        self.steps += 1
        if self.steps > 60000:
            raise Unsup("evaluation too long")
        if n is None:
            return None
        k = n.k
        m = getattr(self, "e_" + k, None)
        if m is None:
            return UNK
        return m(n)

    def e_Int(self, n):
        return cnum(int(n.v))

    def e_Char(self, n):
        return UNK

    def e_Float(self, n):
        return cnum(float(n.v))

    def e_Bool(self, n):
        return bool(n.v)

    def e_Null(self, n):
        return Nullopt()

    def e_DefArg(self, n):
        for c in n.children():
            return self.ev(c)
        return UNK

    def e_Ref(self, n):
        if n.dk == "enum":
            return Enum(n.n)
        if (n.q or n.n or "").endswith("nullopt"):
            return Nullopt()
        if n.dk in ("global", "other") or n.dk is None and n.d.get("id") is None:
            return self.globalv(n)
        p = self.lv(n)
        v = self.get(p) if p is not None else None
        if v is None:
            if n.dk == "var" and n.q and "::" in (n.q or ""):
                return self.globalv(n)
            return UNK
        return v

    def globalv(self, n):
        if n.d.get("cv") is not None:
            try:
                return cnum(float(n.d["cv"]))
            except ValueError:
                pass
        g = self.P.globals.get(n.q or "")
        if g is not None and g.init is not None:
            return self.ev(g.init)
        if "INFINITY" in (n.n or "").upper():
            return Log(Num({}, NEG, NEG)) if "NEG" in (n.n or "").upper() else UNK
        return UNK

    def e_This(self, n):
        al = self.env.get(("al", "this"))
        return self.get(al) if al is not None else self.env.get(("this",))

    def e_Mem(self, n):
        p = self.lv(n)
        v = self.get(p) if p is not None else None
        if v is not None:
            return v
        b = self.ev(n.base) if n.base is not None else None
        if isinstance(b, Obj) and n.n in b.fl:
            return b.fl[n.n]
        r = self.member(n)
        return UNK if r is None else r

    def member(self, n):
        if n.n and (n.type or "").replace("const ", "") in self.P.enums:
            return self.choose(("member", n.n), [Enum(x) for x, _ in self.P.enums[n.type.replace("const ", "")]])
        if "INFINITY" in (n.n or "").upper():
            return Log(Num({}, NEG, NEG))
        return None

    def e_Cast(self, n):
        v = self.ev(n.e)
        return self.convert(v, n, n.d.get("ck"), n.type)

    def convert(self, v, n, ck, t):
        w = width(t)
        if isinstance(v, Log) and w is not None and (w[0] == "i" or w[1] == 32):
            v = self.tonum(v)
            if w[0] == "i":
                return Num(None, None, None, f=v.f | frozenset([(n.line, "truncate", f"a logarithm is cut down to the integer type '{clean(t)}'")]))
            return v.withf(frozenset([(n.line, "narrow", "a logarithm is rounded to single precision")]))
        if not isinstance(v, Num) or w is None:
            return v
        if ck == "FloatingToIntegral":
            if not v.isint and not (v.const() is not None and v.const() == int(v.const())):
                p = {((mkatom("floor", freeze(v.p)), Fraction(1)),): 1.0} if v.p is not None else None
                v = Num(p, NEG if v.lo is not None else None, v.hi, v.neg, True, 0, v.f | frozenset([(n.line, "truncate", f"a fractional value is cut down to '{clean(t)}'")]))
            return self.fit(v, n, t, "the converted value")
        if ck in ("IntegralCast",):
            return self.fit(v, n, t, "the converted value")
        if ck == "FloatingCast" or ck == "IntegralToFloating":
            if w[1] == 32:
                return self.fit(v, n, t, "the value")
            return v
        if ck in ("FloatingToBoolean", "IntegralToBoolean"):
            return v
        return v

    def e_Un(self, n):
        op = n.op
        if op in ("++", "--"):
            old = self.ev(n.a)
            new = self.arith("+" if op == "++" else "-", old, cnum(1), n, n.type)
            self.put(self.lv(n.a), new)
            return old if n.d.get("post") else new
        v = self.ev(n.a)
        if op == "!":
            return not self.truth(v, n.a)
        if op == "-":
            if isinstance(v, Log):
                if v.x.p == {}:
                    return UNK.withf(v.f)
                return self.logarith("*", v, cnum(-1))
            if isinstance(v, Num):
                if v.p is None:
                    return v
                return Num({m: -c for m, c in v.p.items()}, v.lo, v.hi, not v.neg, v.isint, v.tz, v.f)
            if v == "inf":
                return Log(Num({}, NEG, NEG))
            return UNK
        if op == "*" and isinstance(v, It):
            return v.lst.elem
        return v

    def e_Bin(self, n):
        op = n.op
        if op in ("&&", "||"):
            a = self.truth(self.ev(n.a), n.a)
            if a == (op == "||"):
                return a
            return self.truth(self.ev(n.b), n.b)
        if op == ",":
            self.ev(n.a)
            return self.ev(n.b)
        a = self.ev(n.a); b = self.ev(n.b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b, n)
        return self.arith(op, a, b, n, n.type)

    def e_Cond(self, n):
        c = self.truth(self.ev(n.c), n.c)
        return self.ev(n.a if c else n.b)

    e_Ternary = e_Cond

    def e_Assign(self, n):
        v = self.ev(n.b)
        self.put(self.lv(n.a), v)
        return v

    def e_CAssign(self, n):
        old = self.ev(n.a)
        v = self.ev(n.b)
        t = n.a.type
        w, wb = width(t), width(n.b.type)
        if w is not None and wb is not None and w[0] == "i" and wb[0] == "f":
            r = self.arith(n.op[:-1], self.tonum(old), v, n, "double")
            r = self.tonum(r)
            if not (r.isint and r.hi is not None):
                r = Num(r.p, r.lo, r.hi, r.neg, True, 0, r.f | frozenset([(n.line, "truncate", f"a fractional value is accumulated in '{clean(t)}'")]))
        else:
            if w is not None and wb is not None and w[0] == wb[0] == "f" and w[1] < wb[1]:
                r = self.fit(self.tonum(self.arith(n.op[:-1], old, v, n, "double")), n, t, "the accumulated value")
            else:
                r = self.arith(n.op[:-1], old, v, n, t)
        self.put(self.lv(n.a), r)
        return r

    def e_InitList(self, n):
        xs = [self.ev(c) for c in n.children()]
        if len(xs) == 1:
            return xs[0]
        return UNK

    def e_Lambda(self, n):
        return Lam(n, self.env)

    def e_Str(self, n):
        return UNK

    def e_Ctor(self, n):
        args = n.args or []
        real = [a for a in args if a.k != "DefArg"]
        cls = (n.d.get("cls") or n.type or "")
        f = self.P.callee(n)
        if f is not None and f.rel.startswith("lib/") and not n.copy and not n.move:
            return self.construct(f, n, [self.ev(a) for a in args])
        vs = [self.ev(a) for a in real]
        if "vector" in cls.lower():
            if len(vs) == 1 and isinstance(vs[0], Lst):
                return vs[0]
            return Lst("local", UNK)
        if "optional" in cls and not vs:
            return Nullopt()
        if len(vs) == 1:
            return vs[0]
        if "multiplies" in cls or "plus" in cls or "multiplies" in (n.type or "") or "std::plus" in (n.type or ""):
            return ("functor", "*" if "multiplies" in cls + (n.type or "") else "+", n)
        if not vs and "multiplies" not in cls:
            return Obj(cls, {})
        return UNK

    def construct(self, f, n, vals):
        cls = f.cls or ""
        o = Obj((f.full or "").rsplit("::", 1)[0], {})
        return self.call(f, n, vals, None, ctor=o)

    def call(self, f, n, vals, this, ctor=None, argn=None, thisp=None):
        if self.depth > 12:
            raise Unsup("call depth")
        saved = dict(self.env)
        for i, p in enumerate(f.params):
            pid = p.d["id"]
            self.env.pop(("al", pid), None)
            a = argn[i] if argn is not None and i < len(argn) else None
            t = p.type
            pl = self.lv(a) if a is not None and ("&" in t or t.endswith("*")) and "const" not in t else None
            v = vals[i] if i < len(vals) else (self.ev(p.init) if p.init is not None else UNK)
            if pl is not None:
                self.env[("al", pid)] = pl
            else:
                self.env[("v", pid)] = v
        tmp = None
        if ctor is not None or this is not None or thisp is not None:
            if ctor is None and thisp is not None:
                self.env[("al", "this")] = thisp
            else:
                tmp = ("tmp", self.depth)
                self.env = {k: v for k, v in self.env.items() if not under(k, tmp)}
                self.env[("al", "this")] = tmp
                self.env[tmp] = ctor if ctor is not None else this
        self.depth += 1
        out = None
        try:
            if ctor is not None:
                for i in f.inits:
                    if i.f:
                        self.put(("m", tmp, i.f), self.ev(i.e))
            self.stmt(f.body)
        except Ret as r:
            out = r.args[0]
        finally:
            self.depth -= 1
        if ctor is not None:
            out = self.env.get(tmp)
        keep = {}
        for k, v in self.env.items():
            r = root(k)
            if r[0] == "v" and (("v", r[1]) in saved or k in saved) or r == ("this",):
                keep[k] = v
        ids = {p.d["id"] for p in f.params}
        self.env = dict(saved)
        for k, v in keep.items():
            if root(k)[0] == "v" and root(k)[1] in ids:
                continue
            self.env[k] = v
        if out is not None and width(f.ret) is not None and isinstance(out, Num):
            pass
        return out if out is not None else UNK

    def e_Call(self, n):
        q = n.q or ""
        name = n.n or q.split("::")[-1]
        args = n.args or []
        if is_noreturn(n):
            raise Dead()
        vals = [self.ev(a) for a in args]
        return self.docall(n, name, q, None, None, args, vals)

    def e_MCall(self, n):
        name = n.n or ""
        g = self.getters.get(name)
        if g is not None and not (n.args or []) and re.search(r"Param", n.d.get("cls") or ""):
            v = g(self) if callable(g) else g
            return self.fit(v, n, n.type, f"the value of {name}()") if isinstance(v, Num) else v
        ov = self.ev(n.obj) if n.obj is not None else self.e_This(n)
        if is_noreturn(n):
            raise Dead()
        vals = [self.ev(a) for a in n.args or []]
        return self.docall(n, name, n.q or "", n.obj, ov, n.args or [], vals)

    def e_OpCall(self, n):
        args = n.args or []
        op = n.op
        vals = [self.ev(a) for a in args]
        f = self.P.callee(n)
        r = self.hook(self, n, op, vals, f) if self.hook is not None else None
        if r is not None:
            return r
        if op == "=" and len(args) == 2:
            self.put(self.lv(args[0]), vals[1])
            return vals[1]
        if f is not None and not f.dep and f.rel.startswith("lib/"):
            if f.clsq or f.cls:
                return self.call(f, n, vals[1:], vals[0], argn=args[1:], thisp=self.lv(args[0]) if op.endswith("=") and op not in ("==", "!=", "<=", ">=") else None)
            return self.call(f, n, vals, None, argn=args)
        if op in ("*", "->") and len(vals) == 1:
            return vals[0].lst.elem if isinstance(vals[0], It) else vals[0]
        if op == "[]" and len(vals) == 2:
            return vals[0].elem if isinstance(vals[0], Lst) else UNK
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(vals) == 2:
            if isinstance(vals[0], Obj) and isinstance(vals[1], Obj):
                return self.choose(("cond", id(n.d)), [True, False])
            return self.cmp(op, vals[0], vals[1], n)
        if op == "()" and isinstance(vals[0], Lam):
            return self.applylam(vals[0], vals[1:])
        if op in ("+", "-", "*", "/") and len(vals) == 2:
            return UNK
        if op == "<<":
            return vals[0]
        return UNK

    def applylam(self, l, vals):
        n = l.n
        cand = [n] if not n.d.get("generic") else [x for x in (n.specs or []) if isinstance(x, N)]
        cand = [x for x in cand if x.body is not None and len(x.params or []) == len(vals)]
        if len(cand) != 1:
            return UNK
        x = cand[0]
        for p, v in zip(x.params or [], vals):
            self.env.pop(("al", p.d["id"]), None)
            self.env[("v", p.d["id"])] = v
        self.depth += 1
        try:
            if self.depth > 12:
                raise Unsup("call depth")
            self.stmt(x.body)
        except Ret as r:
            return r.args[0]
        finally:
            self.depth -= 1
        return UNK

    def docall(self, n, name, q, obj, ov, args, vals):
        f = self.P.callee(n)
        r = self.hook(self, n, name, ([ov] if obj is not None else []) + vals, f) if self.hook is not None else None
        if r is not None:
            return r
        if f is not None and not f.dep and f.rel.startswith("lib/") and name not in ("erfinv",):
            this = None
            thisp = None
            if obj is not None:
                this = ov
                if not n.cm:
                    thisp = self.lv(obj)
            elif n.k == "MCall":
                this = self.e_This(n)
            return self.call(f, n, vals, this if this is not None else Obj("this", {}) if n.k == "MCall" else None, argn=args, thisp=thisp)
        short = name.split("::")[-1]
        if short in ("move", "forward", "as_const", "make_optional") and vals:
            return vals[0]
        if isinstance(ov, Lst):
            if short in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data"):
                return It(ov)
            if short in ("size",):
                return sym("|" + ov.name + "|", 0, ov.count, True)
            if short == "empty":
                return self.choose(("empty", ov.name), [True, False])
            if short in ("front", "back", "at"):
                return ov.elem
            if short == "assign" and len(vals) == 2 and isinstance(vals[0], It):
                self.put(self.lv(obj), vals[0].lst)
                return UNK
            if short in ("resize", "reserve", "clear"):
                return UNK
            if short in ("push_back", "emplace_back") and len(vals) == 1:
                p = self.lv(obj)
                self.put(p, Lst("local", vals[0]))
                return UNK
            return UNK
        if short in ("begin", "end") and len(vals) == 1 and isinstance(vals[0], Lst):
            return It(vals[0])
        if short in ("value", "has_value", "get") and obj is not None and not vals:
            if short == "has_value":
                return not isinstance(ov, Nullopt)
            return ov
        if short == "value_or" and len(vals) == 1:
            return vals[0] if isinstance(ov, Nullopt) else ov
        return self.math(n, short, q, vals, args)

    def math(self, n, name, q, vals, args):
        x = vals[0] if vals else None
        if name in ("sqrt", "sqrtl", "cbrt") and len(vals) == 1:
            return self.power(self.tonum(x), Fraction(1, 2 if name != "cbrt" else 3), n)
        if name in ("sqrtf", "powf", "log2f", "exp2f", "ceilf", "floorf"):
            return Num(f=fl(x) | frozenset([(n.line, "narrow", f"{name} works in single precision")]))
        if name == "hypot" and len(vals) == 2:
            a, b = self.tonum(vals[0]), self.tonum(vals[1])
            return self.power(self.arith("+", self.power(a, 2, n), self.power(b, 2, n)), Fraction(1, 2), n)
        if name == "fma" and len(vals) == 3:
            return self.arith("+", self.arith("*", vals[0], vals[1], n, "double"), vals[2], n, "double")
        if name in ("log2", "log2l") and len(vals) == 1:
            return self.log(x, 2)
        if name in ("log", "ln") and len(vals) == 1:
            v = self.tonum(x)
            c = v.const()
            return cnum(math.log(c)).withf(v.f) if c is not None and c > 0 else self.log(x, "e")
        if name == "log1p" and len(vals) == 1:
            return self.log(self.arith("+", self.tonum(x), cnum(1)), "e")
        if name in ("exp2", "exp") and len(vals) == 1:
            b = 2 if name == "exp2" else "e"
            if isinstance(x, Log) and x.base == b:
                return self.fit(self.tight(x.x), n, "double", f"the result of {name}")
            v = self.tonum(x)
            c = v.const()
            if c is not None and abs(c) < 4000:
                return self.fit(pow2(c * (1 if b == 2 else math.log2(math.e))).withf(v.f), n, "double", f"the result of {name}")
            return self.expo(2.0 if b == 2 else math.e, v, n)
        if name in ("pow", "powl") and len(vals) == 2:
            a, b = vals
            c = self.tonum(a).const() if not isinstance(a, Log) else None
            e = self.tonum(b).const() if not isinstance(b, Log) else None
            fa = fl(a) | fl(b)
            if c is not None and e is not None and c > 0 and abs(e * math.log2(c)) < 4000:
                return self.fit(pow2(e * math.log2(c)).withf(fa), n, "double", "the power")
            if c == 2 and isinstance(b, Log) and b.base == 2:
                return self.fit(b.x.withf(fa), n, "double", "the power")
            if e is not None:
                return self.power(self.tonum(a), Fraction(e).limit_denominator(1000), n).withf(fa)
            if c is not None and c > 0:
                return self.expo(c, self.tonum(b), n).withf(fa)
            A, B = self.tonum(a), self.tonum(b)
            hi = None
            if A.hi is not None and B.hi is not None and A.hi > 0:
                hi = A.hi * 2.0 ** min(B.hi, 40)
            r = Num(None, NEG if hi is not None else None, hi, f=fa)
            return self.fit(r, n, "double", "the power")
        if name in ("ceil", "floor", "round", "rint", "nearbyint", "trunc", "lround", "llround") and len(vals) == 1:
            v = self.tonum(x)
            if v.isint:
                return v
            f = v.f
            if name in ("floor", "trunc"):
                f = f | frozenset([(n.line, "truncate", f"{name} drops the fractional part")])
            p = {((mkatom("ceil" if name == "ceil" else "floor", freeze(v.p)), Fraction(1)),): 1.0} if v.p is not None else None
            return Num(p, NEG if v.hi is not None else None, addlog(v.hi, 0) if v.hi is not None else None, v.neg, True, 0, f)
        if name in ("abs", "fabs") and len(vals) == 1:
            v = self.tonum(x)
            return v if not v.neg else Num(None, v.lo, v.hi, f=v.f)
        if name in ("max", "min") and len(vals) == 2 and (q.startswith("std::") or q.startswith("llvm::")):
            return self.extreme(name, vals[0], vals[1], n)
        if name in ("fmax", "fmin") and len(vals) == 2:
            return self.extreme(name[1:], vals[0], vals[1], n)
        if name == "infinity" and not vals:
            return "inf"
        if name == "erfinv" and len(vals) == 1:
            v = self.tonum(x)
            return Num({((mkatom("inc", freeze(v.p), "erfinv"), Fraction(1)),): 1.0} if v.p is not None else None, None, None, f=v.f)
        if name in ("max_element", "min_element") and vals and isinstance(vals[0], It):
            e = vals[0].lst.elem
            if isinstance(e, Num) and e.p is not None:
                return It(Lst(name[:3] + vals[0].lst.name, Num({((name[:3] + " " + vals[0].lst.name, Fraction(1)),): 1.0}, e.lo, e.hi, e.neg, e.isint, 0, e.f)))
            return It(Lst("?", e if isinstance(e, Log) else UNK))
        if name in ("accumulate", "reduce") and len(vals) >= 3 and isinstance(vals[0], It):
            return self.accumulate(n, vals, args)
        if name == "transform" and len(vals) == 4 and isinstance(vals[0], It) and isinstance(vals[3], Lam):
            r = self.applylam(vals[3], [vals[0].lst.elem])
            o = args[2]
            while o is not None and o.k in ("Cast", "Ctor"):
                o = o.e if o.k == "Cast" else (o.args or [None])[0]
            if o is not None and o.k == "MCall" and o.obj is not None:
                self.put(self.lv(o.obj), Lst("mapped " + vals[0].lst.name, r, vals[0].lst.count))
            return UNK
        if name in ("swap",) and len(args) == 2:
            p, r = self.lv(args[0]), self.lv(args[1])
            if p is None or r is None:
                raise Unsup("swap")
            self.put(p, vals[1]); self.put(r, vals[0])
            return UNK
        if name in ("to_string", "assert", "__assert_fail", "dbgs"):
            return UNK
        f = frozenset()
        for v in vals:
            f |= fl(v)
        return Num(f=f)

    def extreme(self, name, a, b, n):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and len(a.fl) == 1 == len(b.fl):
                (k, x), = a.fl.items()
                y = b.fl.get(k)
                if isinstance(x, Log) and isinstance(y, Log):
                    less = next((f for f in self.P.all if f.name == "operator<" and f.full.startswith(a.cls + "::") and not f.dep), None)
                    if less is not None:
                        # std::max(a, b) is b exactly if a < b; std::min(a, b) is b exactly if b < a
                        p, q = (a, b) if name == "max" else (b, a)
                        r = self.call(less, n, [q], p)
                        if isinstance(r, bool):
                            return b if r else a
            return UNK
        if isinstance(a, Log) and isinstance(b, Log) and a.base == b.base:
            d = self.order(a.x, b.x)
            if d is not None:
                return a if (d in ("=", ">", ">=")) == (name == "max") or d == "=" else b
            return Log(self.extnum(name, a.x, b.x), a.base)
        if isinstance(a, (Num, Log)) and isinstance(b, (Num, Log)):
            a, b = self.tonum(a), self.tonum(b)
            d = self.order(a, b, True)
            if d is not None:
                return a if (d in ("=", ">", ">=")) == (name == "max") or d == "=" else b
            return self.extnum(name, a, b)
        return UNK

    def extnum(self, name, x, y):
        if x.p is None or y.p is None or x.neg or y.neg:
            return Num(f=x.f | y.f)
        q = {((mkatom(name, freeze(padd(x.p, y.p)), tuple(sorted((freeze(x.p), freeze(y.p)), key=str))), Fraction(1)),): 1.0}
        k = None not in (x.lo, x.hi, y.lo, y.hi)
        g = max if name == "max" else min
        return Num(q, g(x.lo, y.lo) if k else None, g(x.hi, y.hi) if k else None, False, x.isint and y.isint, 0, x.f | y.f)

    def log(self, x, base):
        if isinstance(x, Log):
            x = self.tonum(x)
        v = self.tonum(x)
        if v.neg:
            return Num(f=v.f)
        return Log(v, base)

    def power(self, v, e, n):
        if v.hi is None:
            return Num(ppow(v.p, e) if v.p else None, None, None, f=v.f)
        if v.p == {}:
            return v
        p = ppow(v.p, e) if v.p is not None else None
        k = float(e)
        if k > 0:
            lo, hi = v.lo * k, v.hi * k
        else:
            lo, hi = v.hi * k, (v.lo * k if v.lo != NEG else None)
        if hi is None:
            return Num(p, None, None, f=v.f)
        return self.fit(Num(p, lo, hi, v.neg and k == int(k) and int(k) % 2 == 1, v.isint and k == int(k) and k > 0, 0, v.f), n, "double", "the power")

    def expo(self, base, v, n):
        p = {((mkatom("expo", freeze(v.p), base), Fraction(1)),): 1.0} if v.p is not None else None
        lb = math.log2(base)
        if v.hi is None:
            return Num(p, None, None, f=v.f)
        m = 2.0 ** min(v.hi, 40)
        hi, lo = (m * lb, -m * lb if v.neg else 0.0) if lb > 0 else (-m * lb if v.neg else 0.0, m * lb)
        return self.fit(Num(p, lo, hi, f=v.f), n, "double", "the power")

    def accumulate(self, n, vals, args):
        lst = vals[0].lst
        init = vals[2]
        t = n.type
        if width(t) is None:
            t = args[2].type
        op = "+"
        if len(vals) == 4:
            if isinstance(vals[3], tuple) and vals[3][0] == "functor":
                op = vals[3][1]
                m = re.search(r"<(\w[\w ]*)>", vals[3][2].type or "")
                if m and width(m.group(1)) is not None:
                    w = width(m.group(1))
                    if w[0] == "i" and (isinstance(lst.elem, Log) or isinstance(lst.elem, Num) and not lst.elem.isint):
                        init = self.tonum(init).withf(frozenset([(n.line, "truncate", f"the elements are cut down to '{m.group(1)}' while they are accumulated")]))
                    elif w[0] == "i" and (width(t) or w)[1] > w[1]:
                        t = m.group(1)
                    elif w[0] == "i" and op == "*":
                        t = m.group(1)
            elif isinstance(vals[3], Lam):
                old = OldSet()
                a = old.mk(init)
                r = self.applylam(vals[3], [a, lst.elem])
                return old.close(self, a, init, r, lst, n)
            else:
                return Num(f=fl(init))
        old = OldSet()
        a = old.mk(init)
        w = width(t)
        e = lst.elem
        if w is not None and w[0] == "i" and (isinstance(e, Log) or isinstance(e, Num) and not e.isint and e.hi is not None):
            r = self.arith(op, self.tonum(a), self.tonum(e))
            return Num(None, None, None, f=fl(r) | fl(init) | frozenset([(n.line, "truncate", f"the fractional elements are accumulated in '{clean(t)}'")]))
        r = self.arith(op, a, e)
        v = old.close(self, a, init, r, lst, n)
        return self.fit(v, n, t, "the accumulated value") if isinstance(v, Num) else v

    # -- statements -----------------------------------------------------------
    def stmt(self, n):
        if n is None:
            return
        self.steps += 1
        k = n.k
        if k == "Block":
            for c in n.s or []:
                self.stmt(c)
        elif k == "Decl":
            for v in n.v or []:
                self.decl(v)
        elif k == "If":
            if n.init is not None:
                self.stmt(n.init)
            if n.cvar is not None:
                self.decl(n.cvar)
            t = self.truth(self.ev(n.c), n.c)
            self.stmt(n.a if t else n.b)
        elif k == "Return":
            raise Ret(self.ev(n.e) if n.e is not None else None)
        elif k in ("For", "RFor", "While", "Do"):
            self.loop(n)
        elif k == "Switch":
            self.switch(n)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k in ("Case", "Default", "Label"):
            self.stmt(n.s)
        elif k == "Nop":
            pass
        elif k == "Try":
            self.stmt(n.body)
        else:
            self.ev(n)

    def decl(self, v):
        i = v.d["id"]
        self.env.pop(("al", i), None)
        if v.init is not None and "&" in v.type and "const" not in v.type:
            pl = self.lv(v.init)
            if pl is not None:
                self.env[("al", i)] = pl
                return
        self.env[("v", i)] = self.ev(v.init) if v.init is not None else UNK

    def switch(self, n):
        if n.init is not None:
            self.stmt(n.init)
        v = self.ev(n.c)
        body = n.body.s if n.body.k == "Block" else [n.body]
        on = False
        dflt = None
        seq = list(body or [])
        start = None
        for i, st in enumerate(seq):
            x = st
            while x is not None and x.k in ("Case", "Default"):
                if x.k == "Default":
                    dflt = i
                else:
                    lab = self.ev(x.v if isinstance(x.v, N) else x.e if isinstance(x.e, N) else None)
                    if start is None and self.cmp("==", v, lab, x):
                        start = i
                x = x.s
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for st in seq[start:]:
                x = st
                while x is not None and x.k in ("Case", "Default"):
                    x = x.s
                self.stmt(x)
        except Brk:
            pass

    def assigned(self, n):
        out = set()
        for x in n.walk():
            t = None
            if x.k in ("Assign", "CAssign"):
                t = x.a
            elif x.k == "Un" and x.op in ("++", "--"):
                t = x.a
            elif x.k == "OpCall" and x.op in ("=", "+=", "*=", "-=", "/=", "++", "--") and x.args:
                t = x.args[0]
            elif x.k == "MCall" and not x.cm and x.obj is not None:
                t = x.obj
            if t is not None:
                p = self.lv(t)
                if p is not None:
                    out.add(p)
        return out

    def loop(self, n):
        inner = {v.d["id"] for x in n.walk() if x.k == "Decl" for v in x.v or []}
        if n.init is not None and n.init.k == "Decl":
            self.stmt(n.init)
            inner |= {v.d["id"] for v in n.init.v or []}
        elif n.init is not None:
            self.stmt(n.init)
        lst = None
        if n.k == "RFor":
            r = self.ev(n.range)
            if not isinstance(r, Lst):
                lst = Lst("?", UNK)
            else:
                lst = r
            var = n.var
            if isinstance(var, N) and var.d.get("id") is not None:
                inner.add(var.d["id"])
                self.env.pop(("al", var.d["id"]), None)
                e = lst.elem
                w = width(var.type)
                if w is not None and w[0] == "i" and (isinstance(e, Log) or isinstance(e, Num) and e.hi is not None and not e.isint):
                    e = Num(f=fl(e) | frozenset([(n.line, "truncate", f"the elements are cut down to '{clean(var.type)}'")]))
                elif w == ("f", 32):
                    e = self.tonum(e).withf(frozenset([(n.line, "narrow", "the elements are rounded to single precision")]))
                elif w is not None and w[0] == "i" and isinstance(e, Num):
                    e = self.fit(e, n, var.type, "the element")
                self.env[("v", var.d["id"])] = e
        mod = [p for p in self.assigned(n.body) if not (root(p)[0] == "v" and root(p)[1] in inner)]
        olds = OldSet()
        init = {}
        for p in mod:
            v = self.get(p)
            init[p] = v
            self.put(p, olds.mk(v))
        for i in inner:         # the counter of an indexed loop
            v = self.env.get(("v", i))
            if n.k == "For" and isinstance(v, Num):
                self.env[("v", i)] = sym("#i", NEG, 10, True)
        marks = {p: self.get(p) for p in mod}
        ret = None
        before = len(self.made)
        try:
            self.stmt(n.body)
        except (Brk, Cont):
            for p in mod:
                self.put(p, UNK)
            return
        if len(self.made) != before:
            for p in mod:
                self.put(p, Num(f=fl(self.get(p)) | fl(init[p])))
            return
        for p in mod:
            self.put(p, olds.close(self, marks[p], init[p], self.get(p), lst or Lst("logqi", None, 6), n))


class OldSet:
    """Stand-ins for the values variables have before an iteration."""

    def mk(self, v):
        if isinstance(v, bool) or v is None:
            return UNK
        if isinstance(v, Log):
            return Log(sym("OLD", -4000, 4000), v.base)
        if isinstance(v, Num):
            return sym("OLD", -500, 500)
        if isinstance(v, Obj):
            return Obj(v.cls, {k: (self.mk(x) if isinstance(x, (Log, Obj)) else x) for k, x in v.fl.items()})
        return v

    OLDM = ((("OLD", Fraction(1)),),)

    def close(self, S, a, init, r, lst, n):
        """Value after any number of iterations that take a to r."""
        if isinstance(init, Obj) and isinstance(r, Obj) and isinstance(a, Obj):
            return Obj(init.cls, {k: (self.close(S, a.fl[k], init.fl[k], r.fl.get(k), lst, n) if isinstance(init.fl[k], (Log, Obj)) else self.step(init.fl[k], r.fl.get(k))) for k in init.fl})
        f = fl(r) | fl(init)
        if isinstance(init, Log) or isinstance(init, Num) and isinstance(r, Log):
            if isinstance(init, Num):      # a running sum of logarithms started from a number
                c = init.const()
                if c is None or not isinstance(r, Log):
                    return Num(f=f)
                # the stand-in was a number: nothing to factor
                return Num(f=f)
            if not isinstance(r, Log) or r.x.p is None or init.x.p is None:
                return Log(Num(f=f), init.base)
            if set(r.x.p) == set() or len(r.x.p) != 1:
                return Log(self.grow(S, r.x, init.x, f), init.base)
            g = self.fac(r.x.p)
            if g is None:
                return Log(Num(f=f), init.base)
            return Log(self.times(S, init.x, g, lst, f), init.base)
        if isinstance(init, Num) and isinstance(r, Num):
            if r.p is None or init.p is None:
                return Num(f=f)
            if r.p == a.p:
                return init.withf(f)
            o = ((("OLD", Fraction(1)),))
            if o in r.p and abs(r.p[o] - 1) < 1e-12 and not any(x == "OLD" for m in r.p if m != o for x, _ in m):
                g = {m: c for m, c in r.p.items() if m != o}
                lg = logsum(g)
                if lg is not None and init.const() == 0.0:
                    return Log(self.times(S, cnum(1), lg, lst, f), 2)
                if lg is not None and init.const() is not None:
                    return S.logarith("+", Log(self.times(S, cnum(1), lg, lst, f), 2), init)
                return Num({((mkatom("sum", freeze(g)), Fraction(1)),): 1.0} if init.p == {} else None, NEG, None, f=f)
            g = self.fac(r.p)
            if g is not None:
                return S.fit(self.times(S, init, g, lst, f), n, "double", "the running product")
            return Num(f=f)
        if r is a or r is init:
            return init
        return Num(f=f)

    def step(self, x, y):
        return x if isinstance(x, Num) and isinstance(y, Num) and x.p is not None and x.p == y.p or x is y else y if isinstance(x, Enum) and isinstance(y, Enum) and x.name == y.name else UNK

    def grow(self, S, rx, ix, f):
        o = ((("OLD", Fraction(1)),))
        if rx.p is not None and o in rx.p and rx.p[o] >= 1 - 1e-12 and all(c > 0 for c in rx.p.values()):
            return Num(None, None, None, f=f)
        return Num(f=f)

    def fac(self, p):
        """g where p = OLD * g."""
        g = {}
        for m, c in p.items():
            d = dict(m)
            if d.pop("OLD", None) != 1:
                return None
            g[tuple(sorted(d.items(), key=lambda t: (str(type(t[0])), t[0])))] = c
        return g

    def times(self, S, x, g, lst, f):
        """x times the product of g over all elements."""
        if len(g) != 1:
            return Num(None, None, None, f=f | x.f)
        (m, c), = g.items()
        el = {y for y, _ in m}
        p = {(): 1.0}
        lo = hi = 0.0
        for y, e in m:
            if y in S.TOTAL:
                name, a, b = S.TOTAL[y]
                p = pmul(p, {((name, e),): 1.0})
                lo += min(float(e) * a, float(e) * b); hi += max(float(e) * a, float(e) * b)
            else:
                p = pmul(p, {((mkatom("rep", freeze({((y, e),): 1.0})), Fraction(1)),): 1.0})
                lo = hi = None
                break
        if abs(c - 1) > 1e-12:
            p = pmul(p, {((mkatom("rep", freeze({(): c})), Fraction(1)),): 1.0}); lo = hi = None
        q = pmul(p, x.p) if x.p is not None else None
        if lo is None or x.lo is None:
            return Num(q, None, None, f=f | x.f)
        return Num(q, lo + x.lo, hi + x.hi, f=f | x.f)


Sym.TOTAL = {}


def logsum(g):
    """g is the logarithm of a monomial: that monomial."""
    if len(g) != 1:
        return None
    (m, c), = g.items()
    if len(m) != 1 or m[0][1] != 1 or not isinstance(m[0][0], int):
        return None
    k, q, par = ATOMS[m[0][0]]
    if k != "log":
        return None
    q = dict(q)
    return ppow(q, c)


def decide(op, d):
    if d is None:
        return None
    T = {"==": {"=": True, "<": False, ">": False}, "!=": {"=": False, "<": True, ">": True}, "<": {"<": True, "=": False, ">": False, ">=": False}, ">": {">": True, "=": False, "<": False, "<=": False}, "<=": {"<": True, "=": True, "<=": True, ">": False}, ">=": {">": True, "=": True, ">=": True, "<": False}}
    return T[op].get(d)


def addlog(a, b):
    a, b = max(a, b), min(a, b)
    if b == NEG:
        return a
    return a + math.log2(1 + 2.0 ** max(b - a, -1000))


def pow2(e):
    """2 ** e as a number whose value may leave the range of double."""
    if -1000 < e < 1000:
        return cnum(2.0 ** e)
    return Num({((f"2^{e:.0f}", Fraction(1)),): 1.0}, e, e)


def exact32(c):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", c))[0] == c
    except (OverflowError, struct.error):
        return False


def clean(t):
    return re.sub(r"\bconst\b|&", "", t or "").strip()


def root(p):
    while p[0] == "m":
        p = p[1]
    return p


def under(k, p):
    while isinstance(k, tuple) and k and k[0] == "m":
        k = k[1]
    return k == p


def paths(make, run, limit=96):
    """Runs run(S) for every combination of undecided conditions."""
    todo = [[]]
    out = []
    while todo:
        ch = todo.pop()
        S = make(ch)
        try:
            v = run(S)
            out.append((S, v))
        except Dead:
            pass
        for i in range(len(ch), len(S.made)):
            key, k, c = S.made[i]
            for alt in range(1, k):
                todo.append([x[2] for x in S.made[:i]] + [alt])
        if len(out) + len(todo) > limit:
            raise Unsup("too many paths")
    return out
