"""Abstract evaluation in an algebraic domain: reals and coefficients are polynomials over symbolic atoms with exact
rational coefficients, arithmetic DAG nodes are kept as terms and given their denotation afterwards.

A symbolic coefficient stands for every value in general position (it differs from each constant it is compared with)."""
import math, re
from fractions import Fraction
from .cprop import I, T, truth
from .ceval import conc
from .c20 import VW
from .world import apint, sval
from . import prog

SRCS = ["/verif/drivers/kernels_inst.cpp", "lib/Utils/Polynomial/ChebyshevDecomposition.cpp", "lib/Utils/Polynomial/Polynomial.cpp",
        "lib/Utils/Polynomial/NTT.cpp", "lib/Utils/APIntUtils.cpp"]


def load():
    import os
    return prog.load([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "kernels_inst.cpp")] + SRCS[1:])


# -- polynomials over atoms: dict monomial (sorted tuple of names) -> Fraction -----------------------------------------
def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        x = d.get(m, 0) + k * c
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return d


def pmul(a, b):
    if len(a) == 1 and () in a:
        c = a[()]
        return {m: c * x for m, x in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return {m: c * x for m, x in a.items()}
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n))
            x = d.get(k, 0) + c * e
            if x:
                d[k] = x
            else:
                d.pop(k, None)
    return d


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(x):
    return {(x,): Fraction(1)}


def cval(d):
    """The constant a polynomial is, or None."""
    if not d:
        return Fraction(0)
    return d[()] if len(d) == 1 and () in d else None


def ptext(d):
    if d is None:
        return "undefined"
    if not d:
        return "0"
    out = []
    for m, c in sorted(d.items()):
        x = "*".join(m)
        out.append(f"{c}" if not m else x if c == 1 else f"{c}*{x}")
    t = " + ".join(out)
    return t if len(t) < 160 else t[:157] + "..."


def q(d):
    """Abstract value of a polynomial."""
    if not isinstance(d, dict):
        d = const(Fraction(d))
    return T("q", tuple(sorted(d.items())))


def unq(v):
    """The polynomial an abstract number denotes, or None."""
    if v is None:
        return None
    if v[:2] == ("t", "q"):
        return dict(v[2])
    if v[0] == "i":
        k = conc(v)
        return None if k is None else const(k)
    if v[:2] == ("t", "apint"):
        return const(sval(v))
    if v[:2] == ("t", "f"):
        return const(Fraction(v[2]))
    return None


UNDEF = "undef"


def isq(v):
    return v is not None and v[:2] == ("t", "q")


def isnode(v):
    return isinstance(v, tuple) and v[:2] == ("t", "node")


FACTORY = {"leaf", "constantScalar", "constantTensor", "splat", "empty", "add", "sub", "mul", "floorDiv", "power", "leftRotate", "leftRotateBulk",
           "extract", "insert", "comparison", "ifElse", "variable", "loop", "yield", "resultAt"}


def oobtext(o):
    return o if isinstance(o, str) else f"position {o[0]} of a sequence of length {o[1]}"


NODEARGS = {"add": 2, "sub": 2, "mul": 2, "insert": 2, "ifElse": 1}


class Alg(VW):
    def __init__(self, P, **kw):
        kw.setdefault("depth", 60)
        kw.setdefault("record", lambda e: False)
        super().__init__(P, **kw)
        self.nodes = []
        self.shapes = {}
        self.intensor = True
        self.oob = []
        self.halted = False             # the last callfn had no path that returns
        self.den = None
        prev = self.callhook
        self.callhook = lambda *a: self.hook(*a) or (prev(*a) if prev is not None else None)
        pc = self.cmphook
        self.cmphook = lambda op, a, b: self.cmp(op, a, b) if self.cmp(op, a, b) is not None else (pc(op, a, b) if pc is not None else None)

    # -- numbers ----------------------------------------------------------
    def ev(self, n, s):
        if n is not None and s is not None and n.k == "Float":
            try:
                return q(Fraction(str(n.v))), s
            except ValueError:
                return None, s
        if n is not None and s is not None and n.k == "Ref" and n.dk == "func":
            return T("fn", n.q or n.n, n.d.get("usr") or ""), s
        return super().ev(n, s)

    def cast(self, n, v):
        ck = n.d.get("ck")
        if ck == "IntegralToFloating" and v is not None:
            d = unq(v)
            return q(d) if d is not None else None
        if ck == "FloatingToIntegral" and isq(v):
            c = cval(unq(v))
            return I(int(c)) if c is not None else None
        if ck in ("FloatingToBoolean", "IntegralToBoolean") and isq(v):
            c = unq(v)
            return I(int(bool(c)))
        if ck == "PointerToBoolean" and isnode(v):
            return I(1)
        if isq(v):
            return v
        return super().cast(n, v)

    def arith(self, op, a, b):
        if a is not None and a[:2] == ("t", "iter") and op in ("+", "-"):
            if conc(b) is not None:
                return T("iter", a[2], a[3] + (conc(b) if op == "+" else -conc(b)))
            if op == "-" and b is not None and b[:2] == ("t", "iter") and b[2] == a[2]:
                return I(a[3] - b[3])
            return None
        if isq(a) or isq(b):
            x, y = unq(a), unq(b)
            if x is None or y is None:
                return None
            if op in ("+", "-"):
                return q(padd(x, y, 1 if op == "+" else -1))
            if op == "*":
                return q(pmul(x, y))
            if op == "/":
                c = cval(y)
                return q(pmul(x, const(1 / c))) if c else None
            return None
        return super().arith(op, a, b)

    def unary(self, n, s):
        if n.op == "-":
            v, s1 = self.ev(n.a, s)
            if isq(v):
                return q(pmul(unq(v), const(-1))), s1
        return super().unary(n, s)

    def cmp(self, op, a, b):
        if isnode(a) or isnode(b):
            if op in ("==", "!=") and ("fail",) in (a, b):
                return op == "!="
            if op in ("==", "!=") and isnode(a) and isnode(b):
                return (a == b) == (op == "==")
            return None
        if a is not None and b is not None and a[:2] == b[:2] == ("t", "iter") and a[2] == b[2]:
            return {"==": a[3] == b[3], "!=": a[3] != b[3], "<": a[3] < b[3], ">": a[3] > b[3], "<=": a[3] <= b[3], ">=": a[3] >= b[3]}[op]
        if a is not None and a[:2] == ("t", "qabs") or b is not None and b[:2] == ("t", "qabs"):
            # the magnitude of a coefficient in general position against a constant threshold
            if a[:2] == ("t", "qabs") and unq(b) is not None and cval(unq(b)) is not None:
                return op in (">", ">=", "!=")
            if b[:2] == ("t", "qabs") and unq(a) is not None and cval(unq(a)) is not None:
                return op in ("<", "<=", "!=")
            return None
        if isq(a) or isq(b):
            x, y = unq(a), unq(b)
            if x is None or y is None:
                return None
            c = cval(padd(x, y, -1))
            if c is not None:
                return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
            return {"==": False, "!=": True}.get(op)
        return None

    # -- lists ------------------------------------------------------------
    def place(self, n, s):
        if n is not None and n.k == "Idx" and s is not None:
            b = self.place(n.a if n.a is not None else n.base, s)
            m = self.getp(b, s) if b is not None else None
            if m is not None and m[0] == "l":
                k, s1 = self.ev(n.b if n.b is not None else n.i, s)
                if k is not None and s1 is not None:
                    return ("el", b, k, None)
            return None
        return super().place(n, s)

    def outofrange(self, k, n):
        self.oob.append((k, n))

    def index(self, a, b):
        if a is not None and a[0] == "l" and conc(b) is not None and not 0 <= conc(b) < len(a[1]):
            self.oob.append((conc(b), len(a[1])))
        return super().index(a, b)

    def getp(self, p, s):
        if p is not None and p[0] == "el":
            m = self.getp(p[1], s)
            k = conc(p[2])
            if m is not None and m[0] == "l" and k is not None and not 0 <= k < len(m[1]):
                self.oob.append((k, len(m[1])))
        return super().getp(p, s)

    def setp(self, p, v, s):
        if p is not None and p[0] == "el":
            m = self.getp(p[1], s)
            k = conc(p[2])
            if m is not None and m[0] == "l" and k is not None and not 0 <= k < len(m[1]):
                self.outofrange(k, len(m[1]))
        return super().setp(p, v, s)

    # -- construction -------------------------------------------------------
    def build(self, f, vals, s):
        """The aggregate a constructor makes from the given argument values."""
        saved = {}
        fs = dict(s)
        for p, v in zip(f.params, vals):
            for k in (("v", p.d["id"]), ("al", p.d["id"])):
                saved[k] = s.get(k)
                fs.pop(k, None)
            if v is not None:
                fs[("v", p.d["id"])] = v
        out = {}
        for i in f.inits:
            if i.e is None:
                continue
            v, fs = self.ev(i.e, fs)
            if fs is None:
                return None, None
            if i.f:
                out[i.f] = v
            elif v is not None and v[0] == "st":
                out.update(dict(v[1]))
        fs = dict(fs)
        for k, v in saved.items():
            if v is None:
                fs.pop(k, None)
            else:
                fs[k] = v
        return ("st", tuple(sorted(out.items()))), fs

    OWN = re.compile(r"(Monomial|Polynomial|MonomialBase|PolynomialBase)(<.*)?$")

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        args = [a for a in n.args or []]
        if re.match(r"^(const )?(mlir::|llvm::)APInt$", cls) and not n.copy and not n.move and len(args) >= 2:
            vs, s = self.evs(args, s)
            if isq(vs[1]):
                return vs[1], s
            k, w = conc(vs[1]), conc(vs[0])
            return (apint(w, k) if k is not None and w else None), s
        if re.search(r"\bAPFloat$", cls) and args and not n.copy and not n.move:
            v, s = self.ev(args[0], s)
            d = unq(v)
            return (q(d) if d is not None else None), s
        if re.match(r"^(const )?(llvm::|mlir::)ArrayRef<", cls) and len(args) == 1:
            v, s = self.ev(args[0], s)
            return (("l", (v,)) if v is not None and v[0] == "st" else v), s
        if cls.startswith(("std::shared_ptr<", "std::optional<")) and not args:
            return ("fail",), s
        f = self.P.callee(n)
        if f is not None and not n.copy and not n.move and self.OWN.search(f.clsq or f.cls or cls) and f.rel.startswith("lib/Utils/Polynomial/"):
            vs, s = self.evs(args, s)
            return self.build(f, vs, s) if s is not None else (None, None)
        return super().ctor(n, s)

    def local_ctor(self, cls, k):
        for f in self.P.all:
            if f.name == cls and not f.dep and len(f.params) == k and f.rel.startswith("lib/Utils/Polynomial/"):
                return f
        return None

    # -- recursion ------------------------------------------------------------
    def can_inline(self, f, n):
        if f.usr in self.stack and len(self.stack) < self.maxdepth and f.rel.startswith("lib/Utils/Polynomial/"):
            return self.stack.count(f.usr) < 12
        return super().can_inline(f, n)

    def inline(self, f, n, obj, pa, s, ov=None):
        if f.usr not in self.stack:
            return super().inline(f, n, obj, pa, s, ov)
        ids = {x.d["id"] for x in f.body.walk() if x.d.get("id") is not None and x.k in ("Var", "VarDecl", "Decl", None)} | \
              {v.d["id"] for x in f.body.walk() if x.k == "Decl" for v in x.v or [] if v.d.get("id") is not None} | \
              {b["id"] for x in f.body.walk() if x.k == "Decl" for v in x.v or [] for b in (v.d.get("bind") or [])}
        pid = {p.d["id"] for p in f.params}
        # a by-reference parameter handed on to the same parameter keeps its alias
        keep = {k: v for k, v in s.items() if isinstance(k, tuple) and len(k) == 2 and k[0] in ("v", "al") and k[1] in ids | pid}
        pa2 = []
        al = {}
        for p, a, v in pa:
            pl = self.place(a, s) if a is not None else None
            if pl is not None and "&" in (p.type or "") and not p.type.startswith("const"):
                al[p.d["id"]] = pl
            pa2.append((p, None, v))
        val, st = self._frame(f, n, pa2, al, s)
        if st is None:
            return val, st
        st = dict(st)
        for k in list(st):
            if isinstance(k, tuple) and len(k) == 2 and k[0] in ("v", "al") and k[1] in ids | pid and k not in keep and k not in al.values():
                st.pop(k)
        for k, v in keep.items():
            if k in al.values():
                continue
            st[k] = v
        return val, st

    def _frame(self, f, n, pa, al, s):
        fs = dict(s)
        for p, a, v in pa:
            pid = p.d["id"]
            key = ("v", pid)
            if pid in al:
                if al[pid] != key:
                    fs.pop(key, None)
                    fs[("al", pid)] = al[pid]
                else:
                    fs.pop(("al", pid), None)
                continue
            fs.pop(("al", pid), None)
            fs.pop(key, None)
            if v is not None:
                fs[key] = v
        self.stack.append(f.usr)
        self.retstack.append([])
        o = self.stmt(f.body, fs)
        rets = self.retstack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        self.stack.pop()
        if len(rets) != 1:
            return None, (rets[0][1] if rets else None)
        return rets[0]

    def callfn(self, f, vals, s, this=None):
        """Value and state of calling f on abstract values."""
        fs = dict(s)
        saved = {}
        for p, v in zip(f.params, vals):
            for k in (("v", p.d["id"]), ("al", p.d["id"])):
                saved[k] = s.get(k)
                fs.pop(k, None)
            if v is not None:
                fs[("v", p.d["id"])] = v
        if this is not None:
            saved[("al", "this")] = s.get(("al", "this"))
            tmp = ("tmp", 1000 + len(self.stack))
            fs[("al", "this")] = tmp
            fs[tmp] = this
        self.stack.append(f.usr)
        self.retstack.append([])
        o = self.stmt(f.body, fs)
        rets = self.retstack.pop()
        self.stack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        self.halted = not rets
        if len(rets) != 1:
            return None, None
        v, st = rets[0]
        st = dict(st)
        for k, x in saved.items():
            if x is None:
                st.pop(k, None)
            else:
                st[k] = x
        return v, st

    # -- calls ------------------------------------------------------------
    def node(self, *a):
        self.nodes.append(a)
        return T("node", len(self.nodes) - 1)

    def fnvalue(self, v):
        return v is not None and v[:2] == ("t", "fn")

    def apply(self, fv, vals, s, nodes=None):
        if self.fnvalue(fv):
            nm = fv[2]
            if "ArithmeticDagNode" in nm and nm.split("::")[-1] in FACTORY:
                return self.factory(nm.split("::")[-1], vals, s)
            c = [f for f in self.P.all if f.q == nm and not f.dep and f.body is not None and len(f.params) == len(vals)]
            if len(c) == 1:
                return self.callfn(c[0], vals, s)
            return None
        return super().apply(fv, vals, s, nodes)

    def factory(self, name, vals, s):
        vals = list(vals)
        if ("fail",) in vals and name in ("add", "sub", "mul", "power", "leftRotate", "extract", "insert", "floorDiv", "comparison", "resultAt"):
            self.oob.append("an absent operand")
            return None, s
        if any(v is None for v in vals[:1]):
            return None, s
        if name == "variable":
            return self.node("variable"), s
        if name == "loop":
            inits = vals[0]
            single = isnode(inits)
            inits = [inits] if single else list(inits[1]) if inits[0] == "l" else None
            bounds = [conc(v) for v in vals[2:5]]
            if inits is None or None in bounds or not all(isnode(x) for x in inits):
                return None, s
            iv = self.node("variable")
            its = [self.node("variable") for _ in inits]
            r = self.apply(vals[5], [iv, its[0] if single else ("l", tuple(its))], s)
            if r is None or r[1] is None or not isnode(r[0]):
                return None, s
            return self.node("loop", iv, tuple(inits), tuple(its), r[0], *bounds), r[1]
        if name == "ifElse":
            out = []
            for v in vals[1:3]:
                if not isnode(v):
                    r = self.apply(v, [], s)
                    if r is None or r[1] is None:
                        return None, s
                    v, s = r
                out.append(v)
            if not isnode(vals[0]) or not all(isnode(v) for v in out):
                return None, s
            return self.node("ifElse", vals[0], *out), s
        if name in ("constantScalar", "splat"):
            d = unq(vals[0])
            return (self.node("const", d) if d is not None else None), s
        if name == "constantTensor":
            xs = [unq(v) for v in vals[0][1]] if vals[0][0] == "l" else [None]
            return (self.node("tensor", tuple(xs)) if None not in xs else None), s
        if name == "empty":
            xs = [conc(v) for v in vals[0][1]] if vals[0][0] == "l" else [None]
            return (self.node("empty", tuple(xs)) if None not in xs else None), s
        if name == "leaf":
            return self.node("leaf", vals[0]), s
        if name == "yield":
            return (self.node("yield", vals[0][1]) if vals[0][0] == "l" and all(isnode(x) for x in vals[0][1]) else None), s
        if any(v is None or v[0] == "set" for v in vals) or not all(isnode(v) for v in vals[:NODEARGS.get(name, 1)]):
            return None, s
        return self.node(name, *vals), s

    def hook(self, n, name, qn, ov, vals, s):
        op = n.op if n.k == "OpCall" else None
        if "ArithmeticDagNode" in (qn or "") and name in FACTORY and n.k != "MCall":
            return self.factory(name, vals, s)
        if n.k == "MCall" and isnode(ov):
            if "bool" in name:
                return I(1), s
            if name == "get":
                return ov, s
        if n.k == "MCall" and name == "operator bool" and ov == ("fail",):
            return I(0), s
        if op in ("==", "!=") and len(vals) == 2 and (isnode(vals[0]) or isnode(vals[1])):
            r = self.cmp(op, *vals)
            return (I(int(r)), s) if r is not None else None
        if op == "!" and len(vals) == 1 and isnode(vals[0]):
            return I(0), s
        # types of the circuit and shapes of its inputs
        if re.search(r"\bDagType::\w+$", qn or "") and n.k != "MCall":
            return T("dagtype", name), s
        if n.k == "MCall" and name == "index" and not vals:
            return I(3 if self.intensor else 1), s
        if n.k == "MCall" and name == "getShape" and ov is not None:
            sh = self.shapes.get(ov)
            return (("l", tuple(I(x) for x in sh)) if sh is not None else None), s
        if n.k == "MCall" and name in ("value", "has_value") and ov is not None and not vals:
            if name == "has_value":
                return I(int(ov != ("fail",))), s
            if ov == ("fail",):
                self.oob.append("the value of a failure")
                return None, s
            return ov, s
        # numbers
        short = (qn or name or "").split("::")[-1]
        if (qn or "").startswith("std::") or n.k == "Call" and "::" not in (qn or ""):
            x = unq(vals[0]) if vals else None
            if short in ("abs", "fabs") and len(vals) == 1 and x is not None:
                c = cval(x)
                if c is None:
                    return T("qabs", vals[0]), s
                return (q(abs(c)) if isq(vals[0]) else I(abs(int(c)))), s
            if short in ("ceil", "floor", "sqrt", "log2", "round", "trunc") and len(vals) == 1 and x is not None:
                c = cval(x)
                if c is None or c < 0 and short in ("sqrt", "log2") or c == 0 and short == "log2":
                    return None
                f = {"ceil": math.ceil, "floor": math.floor, "round": lambda y: math.floor(y + Fraction(1, 2)), "trunc": int,
                     "sqrt": lambda y: Fraction(math.isqrt(int(y))) if y.denominator == 1 and math.isqrt(int(y)) ** 2 == y else Fraction(math.sqrt(y)),
                     "log2": lambda y: Fraction(math.log2(y))}[short]
                return q(Fraction(f(c))), s
            if short in ("bit_width",) and len(vals) == 1 and conc(vals[0]) is not None:
                return I(conc(vals[0]).bit_length()), s
            if short in ("bit_ceil",) and len(vals) == 1 and conc(vals[0]) is not None:
                return I(1 << max(conc(vals[0]) - 1, 0).bit_length()), s
            if short in ("has_single_bit", "popcount") and len(vals) == 1 and conc(vals[0]) is not None:
                return I(bin(conc(vals[0])).count("1") if short == "popcount" else int(bin(conc(vals[0])).count("1") == 1)), s
        if n.k == "MCall" and isq(ov):
            if name in ("isZero", "isOne", "isNegZero", "isPosZero"):
                return I(int(cval(unq(ov)) == (1 if name == "isOne" else 0))), s
            if name in ("convertToDouble", "sextOrTrunc", "sext", "zextOrTrunc", "getSExtValue"):
                return ov, s
            if name in ("add", "subtract", "multiply") and vals and self.place(n.obj, s) is not None:
                v = self.arith({"add": "+", "subtract": "-", "multiply": "*"}[name], ov, vals[0])
                return None, self.setp(self.place(n.obj, s), v, s)
            if name == "changeSign" and self.place(n.obj, s) is not None:
                return None, self.setp(self.place(n.obj, s), self.arith("*", ov, q(-1)), s)
            return None
        if op in ("+", "-", "*", "/") and len(vals) == 2 and (isq(vals[0]) or isq(vals[1])):
            return self.arith(op, *vals), s
        if op == "-" and len(vals) == 1 and isq(vals[0]):
            return self.arith("*", vals[0], q(-1)), s
        if n.k == "MCall" and name in ("srem", "sdiv") and vals and ov is not None and ov[:2] == ("t", "apint") and vals[0] is not None and vals[0][:2] == ("t", "apint") and sval(vals[0]):
            a, b = sval(ov), sval(vals[0])
            k = abs(a) // abs(b)
            k = k if (a < 0) == (b < 0) else -k
            return apint(ov[2], k if name == "sdiv" else a - k * b), s
        if name == "udivrem" and len(vals) == 4 and all(v is not None and v[:2] == ("t", "apint") for v in vals[:2]) and vals[1][3]:
            w = vals[0][2]
            for a, v in ((n.args[2], vals[0][3] // vals[1][3]), (n.args[3], vals[0][3] % vals[1][3])):
                p = self.place(a, s)
                s = self.setp(p, apint(w, v), s) if p is not None else s
            return None, s
        if op in ("+=", "-=", "*=") and len(vals) == 2 and vals[0] is not None and vals[0][:2] == ("t", "apint") and self.place(n.args[0], s) is not None:
            b = vals[1][3] if vals[1] is not None and vals[1][:2] == ("t", "apint") else conc(vals[1])
            if b is not None:
                a = vals[0][3]
                v = apint(vals[0][2], {"+=": a + b, "-=": a - b, "*=": a * b}[op])
                return v, self.setp(self.place(n.args[0], s), v, s)
        # containers
        if n.k == "MCall" and name == "emplace_back" and ov is not None and ov[0] == "l" and len(vals) > 1:
            m = re.search(r"(Int|Float)Monomial", n.obj.type or "")
            f = self.local_ctor(m.group(0), len(vals)) if m else None
            p = self.place(n.obj, s)
            if f is None or p is None:
                return None
            v, s = self.build(f, vals, s)
            return None, self.setp(p, ("l", ov[1] + (v,)), s)
        if n.k == "MCall" and name == "erase" and ov is not None and ov[0] == "l" and len(vals) in (1, 2) and all(v is not None and v[:2] == ("t", "iter") for v in vals):
            p = self.place(n.obj, s)
            k = vals[0][3]
            e = vals[1][3] if len(vals) > 1 else k + 1
            if p is None or not 0 <= k <= e <= len(ov[1]):
                return None
            l = ("l", ov[1][:k] + ov[1][e:])
            return T("iter", l, k), self.setp(p, l, s)
        if n.k == "MCall" and name in ("front", "back") and ov == ("l", ()):
            self.oob.append(f"{name} of an empty sequence")
            return None, s
        if n.k == "MCall" and name in ("rbegin", "crbegin") and ov is not None and ov[:2] == ("t", "map") and ov[2]:
            k, v = max(ov[2], key=lambda x: conc(x[0]) if conc(x[0]) is not None else -1)
            return T("iter", ("l", (("st", (("first", k), ("second", v))),)), 0), s
        if qn in ("std::sort", "llvm::sort", "std::stable_sort", "llvm::stable_sort") and vals and vals[0] is not None:
            rng = self.span(vals[0], vals[1]) if len(vals) >= 2 and vals[0][:2] == ("t", "iter") else vals[0][1] if vals[0][0] == "l" else None
            a = n.args[0]
            p = self.place(a.obj, s) if a.k == "MCall" and a.n == "begin" else self.place(a, s) if vals[0][0] == "l" else None
            fv = vals[-1] if self.closure(vals[-1]) is not None else None
            if rng is None or p is None:
                return None
            out = []
            for x in rng:
                i = len(out)
                while i > 0:
                    r = self.less(x, out[i - 1], fv, s)
                    if r is None:
                        return None, self.setp(p, None, s)
                    if not r:
                        break
                    i -= 1
                out.insert(i, x)
            return None, self.setp(p, ("l", tuple(out)), s)
        if qn in ("llvm::erase_if",) and len(vals) == 2 and vals[0] is not None and vals[0][0] == "l":
            p = self.place(n.args[0], s)
            out = []
            for x in vals[0][1]:
                r = self.apply(vals[1], [x], s)
                t = truth(r[0]) if r is not None else None
                if t is None:
                    return None, self.setp(p, None, s) if p is not None else s
                if not t:
                    out.append(x)
            return None, self.setp(p, ("l", tuple(out)), s) if p is not None else s
        if qn in ("std::adjacent_find",) and len(vals) == 3:
            l = self.span(vals[0], vals[1])
            if l is None:
                return None, s
            for i in range(len(l) - 1):
                r = self.apply(vals[2], [l[i], l[i + 1]], s)
                t = truth(r[0]) if r is not None else None
                if t is None:
                    return None, s
                if t:
                    return T("iter", vals[0][2], vals[0][3] + i), s
            return vals[1], s
        return None

    def less(self, a, b, fv, s):
        if fv is not None:
            r = self.apply(fv, [a, b], s)
            return truth(r[0]) if r is not None else None
        f = [f for f in self.P.all if f.name == "operator<" and not f.dep and f.rel.startswith("lib/Utils/Polynomial/")]
        if a[0] == "st" and f:
            v, _ = self.callfn(f[0], [b], s, this=a)
            return truth(v)
        return None

    # -- denotation of circuits ------------------------------------------------
    def denote(self, v, leaves, n):
        """Value of node v: polynomial, list of them, or None where undefined; n slots per vector."""
        if not isnode(v):
            return None
        self.den = Den(self.nodes, leaves, n)
        return self.den.run(v[2])


def children(nd):
    for x in nd[1:]:
        if isnode(x):
            yield x[2]
        elif isinstance(x, tuple):
            if x[:1] == ("l",):
                x = x[1]
            for y in x:
                if isnode(y):
                    yield y[2]


class Den:
    def __init__(self, nodes, leaves, n):
        self.nodes, self.leaves, self.n = nodes, leaves, n
        self.glob = {}
        self.free = []
        self.oob = []
        for i, nd in enumerate(nodes):
            f = frozenset().union(*[self.free[c] for c in children(nd)]) if nd[0] != "variable" else frozenset((i,))
            if nd[0] == "loop":
                f = f - {nd[1][2]} - {x[2] for x in nd[3]}
            self.free.append(f)
        self.steps = 0

    def run(self, i):
        return self.ev(i, {}, {})

    def ev(self, i, env, memo):
        m = memo if self.free[i] else self.glob
        if i in m:
            return m[i]
        r = self.ev1(i, env, memo)
        m[i] = r
        return r

    def lift(self, f, a, b):
        if a == UNDEF or b == UNDEF:
            self.oob.append("an element that was never written")
            return None
        if a is None or b is None:
            return None
        if isinstance(a, list) or isinstance(b, list):
            if isinstance(a, list) and isinstance(b, list):
                if len(a) != len(b):
                    return None
                return [self.lift(f, x, y) for x, y in zip(a, b)]
            return [self.lift(f, x, b) for x in a] if isinstance(a, list) else [self.lift(f, a, y) for y in b]
        return f(a, b)

    def num(self, v, env, memo):
        if isnode(v):
            d = self.ev(v[2], env, memo)
        else:
            d = unq(v)
        c = cval(d) if isinstance(d, dict) else None
        return int(c) if c is not None and c.denominator == 1 else None

    def ev1(self, i, env, memo):
        nd = self.nodes[i]
        k = nd[0]
        go = lambda v: self.ev(v[2], env, memo)
        if k == "variable":
            return env.get(i)
        if k == "const":
            return nd[1]
        if k == "tensor":
            return list(nd[1])
        if k == "empty":
            return [UNDEF] * nd[1][0]
        if k == "leaf":
            return self.leaves.get(nd[1])
        if k in ("add", "sub", "mul"):
            return self.lift({"add": padd, "sub": lambda a, b: padd(a, b, -1), "mul": pmul}[k], go(nd[1]), go(nd[2]))
        if k == "floorDiv":
            a, b = self.num(nd[1], env, memo), self.num(nd[2], env, memo)
            return const(a // b) if a is not None and b else None
        if k == "power":
            a, e = go(nd[1]), self.num(nd[2], env, memo)
            if e is None:
                return None
            r = const(1)
            for _ in range(e):
                r = self.lift(pmul, r, a)
            return r
        if k == "leftRotate":
            a, sh = go(nd[1]), self.num(nd[2], env, memo)
            if sh is None or a is None:
                return None
            if not isinstance(a, list):
                return a
            sh %= len(a)
            return a[sh:] + a[:sh]
        if k == "extract":
            a, j = go(nd[1]), self.num(nd[2], env, memo)
            if isinstance(a, list) and j is not None and not 0 <= j < len(a):
                self.oob.append(f"element {j} of {len(a)}")
            return a[j] if isinstance(a, list) and j is not None and 0 <= j < len(a) else None
        if k == "insert":
            x, a, j = go(nd[1]), go(nd[2]), self.num(nd[3], env, memo)
            if isinstance(a, list) and j is not None and not 0 <= j < len(a):
                self.oob.append(f"element {j} of {len(a)}")
            return a[:j] + [x] + a[j + 1:] if isinstance(a, list) and j is not None and 0 <= j < len(a) else None
        if k == "comparison":
            a, b = go(nd[1]), go(nd[2]) if isnode(nd[2]) else unq(nd[2])
            if not isinstance(a, dict) or not isinstance(b, dict):
                return None
            c = cval(padd(a, b, -1))
            p = nd[3][2] if nd[3][0] == "e" else None
            r = {"LT": lambda: c < 0, "LE": lambda: c <= 0, "GT": lambda: c > 0, "GE": lambda: c >= 0, "EQ": lambda: c == 0, "NE": lambda: c != 0}.get(p)
            return const(int(r())) if c is not None and r is not None else None
        if k == "ifElse":
            c = go(nd[1])
            c = cval(c) if isinstance(c, dict) else None
            return None if c is None else go(nd[2] if c else nd[3])
        if k == "yield":
            return ("y", [go(x) for x in nd[1]])
        if k == "resultAt":
            a, j = go(nd[1]), self.num(nd[2], env, memo)
            if isinstance(a, tuple):
                return a[1][j] if j is not None and 0 <= j < len(a[1]) else None
            return a if j == 0 else None
        if k == "loop":
            cur = [go(x) for x in nd[2]]
            lo, hi, st = nd[5:8]
            if st <= 0:
                return None
            for t in range(lo, hi, st):
                e = dict(env)
                e[nd[1][2]] = const(t)
                for v, x in zip(nd[3], cur):
                    e[v[2]] = x
                r = self.ev(nd[4][2], e, {})
                if not isinstance(r, tuple) or len(r[1]) != len(cur):
                    return None
                cur = r[1]
            return ("y", cur)
        return None
