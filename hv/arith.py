"""Abstract interpreter for integer code: linear forms over symbols, polyhedral path constraints, bit widths,
and residues modulo one distinguished symbol m. Values that may wrap become symbols named "wrap..."; values the
analysis does not understand become symbols named "unk...". Nothing is executed."""
from math import gcd, isqrt

M = "m"
C1 = ()                                    # the constant monomial's key in a linear form


def lin(c=0, **kw):
    d = dict(kw)
    if c:
        d[C1] = c
    return {k: v for k, v in d.items() if v}


def sym(x):
    return {x: 1}


def add(a, b, k=1):
    r = dict(a)
    for s, v in b.items():
        r[s] = r.get(s, 0) + k * v
        if not r[s]:
            del r[s]
    return r


def scale(a, k):
    return {s: v * k for s, v in a.items()} if k else {}


def const(a):
    return a.get(C1, 0) if all(s == C1 for s in a) else None


def key(a):
    return tuple(sorted(a.items(), key=str))


# --- residues: {monomial: int}, a monomial maps symbols to linear exponents
def pconst(c):
    return {(): c} if c else {}


def psym(s):
    return {((s, key(lin(1))),): 1}


def unkey(k):
    return dict(k)


def mono_mul(a, b):
    d = {s: unkey(e) for s, e in a}
    for s, e in b:
        d[s] = add(d.get(s, {}), unkey(e))
    return tuple(sorted(((s, key(e)) for s, e in d.items() if e), key=str))


def pmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            k = mono_mul(x, y)
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def padd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c}


def ppow(a, e):
    """a^e for a single monomial with coefficient 1, e linear."""
    if len(a) != 1 or list(a.values()) != [1]:
        c = const(e)
        if c is not None and 0 <= c <= 64:
            r = pconst(1)
            for _ in range(c):
                r = pmul(r, a)
            return r
        return None
    (m,) = a
    out = []
    for s, x in m:
        x = unkey(x)
        cx, ce = const(x), const(e)
        if cx is not None:
            y = scale(e, cx)
        elif ce is not None:
            y = scale(x, ce)
        else:
            return None
        if y:
            out.append((s, key(y)))
    return {tuple(sorted(out, key=str)): 1}


def psyms(p):
    return {s for m in p for s, _ in m} | {t for m in p for _, e in m for t, _ in e if t != C1}


def pdrop(p):
    """modulo m: monomials containing m vanish"""
    return {k: v for k, v in p.items() if not any(s == M for s, _ in k)}


# --- polyhedra: constraints are linear forms >= 0 over the rationals
def relevant(cons, syms):
    seen = set(syms)
    out, idx = [], set()
    grew = True
    while grew:
        grew = False
        for i, c in enumerate(cons):
            if i in idx:
                continue
            ss = {s for s in c if s != C1}
            hit = (ss - {M}) & seen if ss - {M} else ss & seen
            if hit or (ss <= {M} and M in seen):
                idx.add(i); out.append(c); seen |= ss; grew = True
    return out


def feasible(cons):
    """Fourier-Motzkin over the rationals; True when nothing contradicts."""
    cs = {}
    for c in cons:
        cs[key(c)] = c
    cs = list(cs.values())
    while True:
        syms = {}
        for c in cs:
            k = const(c)
            if k is not None:
                if k < 0:
                    return False
                continue
            for s, v in c.items():
                if s != C1:
                    p = syms.setdefault(s, [0, 0]); p[v > 0] += 1
        cs = [c for c in cs if const(c) is None]
        if not cs:
            return True
        s = min(syms, key=lambda x: (syms[x][0] * syms[x][1], str(x)))
        pos = [c for c in cs if c.get(s, 0) > 0]; neg = [c for c in cs if c.get(s, 0) < 0]
        new = {key(c): c for c in cs if not c.get(s)}
        for a in pos:
            for b in neg:
                r = add(scale(a, -b[s]), b, a[s])
                g = 0
                for k, v in r.items():
                    g = gcd(g, v)
                if g > 1:
                    r = {k: v // g for k, v in r.items()}     # exact: g divides all
                new[key(r)] = r
        cs = list(new.values())
        if len(cs) > 4000:
            return True


def entails(cons, l):
    """every integer point satisfies l >= 0"""
    if const(l) is not None and const(l) >= 0:
        return True
    ss = {s for s in l if s != C1}
    return not feasible(relevant(cons, ss) + [add(scale(l, -1), lin(-1))])


def upper(cons, l, cap=None):
    """Least integer bound found for l, or None."""
    c = const(l)
    if c is not None:
        return c
    hi = 1
    for e in range(0, 1100):
        if entails(cons, add(lin(1 << e), l, -1)):
            hi = 1 << e
            break
    else:
        return None
    lo = -1 if e == 0 else (1 << (e - 1))
    if e == 0:
        if not entails(cons, scale(l, -1)):
            return 1
        hi = 0
        if not entails(cons, add(lin(-1), l, -1)):
            return 0
        return 0
    while hi - lo > 1:
        mid = (hi + lo) // 2
        if entails(cons, add(lin(mid), l, -1)):
            hi = mid
        else:
            lo = mid
    return hi


class St:
    __slots__ = ("env", "cons", "res", "wid")

    def __init__(self, env=None, cons=(), res=None, wid=None):
        self.env = dict(env or {}); self.cons = list(cons); self.res = dict(res or {}); self.wid = dict(wid or {})

    def copy(self):
        return St(self.env, self.cons, self.res, self.wid)


def num(l, w=None, ap=False):
    return ("n", l, w, ap)


WIDTHS = {"unsigned long": 64, "long": 64, "unsigned int": 32, "int": 32, "unsigned char": 8, "char": 8, "signed char": 8,
          "unsigned short": 16, "short": 16, "bool": 1, "unsigned long long": 64, "long long": 64, "absl::uint128": 128,
          "unsigned __int128": 128, "__int128": 128}


def tywidth(t):
    t = t.replace("const ", "").replace(" &", "").replace("&", "").strip()
    al = {"size_t": "unsigned long", "uint64_t": "unsigned long", "int64_t": "long", "uint32_t": "unsigned int", "int32_t": "int",
          "std::vector<unsigned long>::value_type": "unsigned long", "unsigned": "unsigned int", "std::size_t": "unsigned long"}
    t = al.get(t, t)
    if t in WIDTHS:
        return WIDTHS[t], not (t.startswith("unsigned") or t in ("bool", "absl::uint128"))
    return None, None


def is_ap(t):
    t = t.replace("const ", "").replace(" &", "").replace("&", "").strip()
    return t in ("llvm::APInt", "APInt", "mlir::APInt")


class Stop(Exception):
    pass


NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
APCMP = {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "eq": "==", "ne": "!=", "slt": "<", "sgt": ">", "sle": "<=", "sge": ">="}


class Arith:
    def __init__(self, P, exact=False, hook=None, templates=None, unroll=400, budget=60000):
        self.P = P
        self.exact = exact                 # big-integer arithmetic taken as signed and wide enough
        self.hook = hook
        self.templates = templates
        self.n = 0
        self.wraps = {}                    # symbol -> (node, text)
        self.unroll = unroll
        self.budget = budget
        self.depth = 0
        self.quots = {}

    def fresh(self, s, tag, lo=None, hi=None, res=None):
        self.n += 1
        x = f"{tag}{self.n}"
        if lo is not None:
            s.cons.append(add(sym(x), lo, -1))
        if hi is not None:
            s.cons.append(add(hi, sym(x), -1))
        if res is not None:
            s.res[x] = res
        return x

    def unknown(self, s, t="", w=None, call=False):
        if call:
            v = self.unknown(s, t, w)
            if v is not None and v[0] == "n" and len(v[1]) == 1:
                (q,) = v[1]
                z = self.fresh(s, "unkcall")
                for i, cc in enumerate(s.cons):
                    if q in cc:
                        cc = dict(cc); cc[z] = cc.pop(q); s.cons[i] = cc
                return num(sym(z), v[2], v[3])
            return v
        if is_ap(t) or w:
            return num(sym(self.fresh(s, "unk", lin(0) if not self.exact else None, lin((1 << w) - 1) if w and not self.exact else None)), w, is_ap(t))
        tw, sg = tywidth(t)
        if tw:
            lo, hi = (lin(-(1 << (tw - 1))), lin((1 << (tw - 1)) - 1)) if sg else (lin(0), lin((1 << tw) - 1))
            return num(sym(self.fresh(s, "unk", lo, hi)), tw)
        return None

    def residue(self, s, l):
        p = {}
        for k, v in l.items():
            if k == C1:
                p = padd(p, pconst(v))
            elif k == M:
                continue
            else:
                p = padd(p, s.res.get(k) if k in s.res else psym(k), v)
        return pdrop(p)

    def fit(self, s, l, w, signed, node, what, p=None):
        """The result of an operation in w bits: exact when it provably fits, else a wrap symbol."""
        if w is None or (self.exact and what != "cast"):
            return l
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if entails(s.cons, add(lin(hi), l, -1)) and entails(s.cons, add(l, lin(-lo))):
            return l
        known = not any(str(x).startswith(("unk", "wrap")) for x in l if x != C1) and not any(
            str(y).startswith(("unk", "wrap")) for x in l if x != C1 for y in psyms(s.res.get(x, {})))
        x = self.fresh(s, "wrap" if known else "unk", lin(lo), lin(hi))
        if known:
            self.wraps[x] = (node, f"{what} of a value that need not fit in {w} bits")
        return sym(x)

    # ------------------------------------------------------------ expressions: list of (value, state)
    def evs(self, nodes, s):
        out = [([], s)]
        for n in nodes:
            nx = []
            for vs, t in out:
                for v, u in self.ev(n, t):
                    nx.append((vs + [v], u))
            out = nx
        return out

    def place(self, n, s):
        """A storage cell for an lvalue, or None: (cell, state) pairs."""
        if n is None:
            return [(None, s)]
        if n.k == "Ref" and n.d.get("id") is not None:
            c = ("v", n.d["id"], n.tu["files"][0] if False else self.frame)
            v = s.env.get(c)
            while v is not None and v[0] == "ref":
                c = v[1]; v = s.env.get(c)
            return [(c, s)]
        if n.k in ("Cast",) and n.e is not None and n.ck in ("NoOp", "LValueToRValue", None):
            return self.place(n.e, s)
        if n.k == "Mem" and n.base is not None:
            return [((("f", c, n.n) if c else None), t) for c, t in self.place(n.base, s)]
        if n.k == "Mem" or n.k == "This":
            return [((("v", "this", self.frame) if n.k == "This" else ("f", ("v", "this", self.frame), n.n)), s)]
        if n.k == "Idx" or (n.k == "OpCall" and n.op == "[]"):
            a, b = (n.a, n.b) if n.k == "Idx" else (n.args[0], n.args[1])
            if n.k == "OpCall" and is_ap(a.type):
                return [(None, s)]
            out = []
            for c, t in self.place(a, s):
                for v, u in self.ev(b, t):
                    i = const(v[1]) if v is not None and v[0] == "n" else None
                    arr = u.env.get(c) if c else None
                    if c is None:
                        out.append((None, u))
                    elif i is not None and not (arr is not None and arr[0] == "sum"):
                        out.append((("i", c, i), u))
                    else:
                        out.append((("sum", c), u))
            return out
        if n.k in ("Un", "OpCall") and n.op == "*" and (n.a is not None or n.args):
            return self.place(n.a if n.k == "Un" else n.args[0], s)
        if n.k in ("Materialize", "Bind") and n.e is not None:
            return self.place(n.e, s)
        return [(None, s)]

    def read(self, c, s, n):
        if c is None:
            return self.unknown(s, n.type)
        if c[0] == "sum":
            arr = s.env.get(c[1])
            if arr is not None and arr[0] == "sum":
                return self.elem(arr, s)
            if arr is not None and arr[0] == "arr":
                return self.unknown(s, n.type)
            return self.unknown(s, n.type)
        v = s.env.get(c)
        if v is not None and v[0] == "ref":
            return self.read(v[1], s, n)
        if v is None:
            if c[0] == "i":
                arr = s.env.get(c[1])
                if arr is not None and arr[0] == "arr" and len(arr) > 2 and arr[2] is not None:
                    return arr[2]
            v = self.unknown(s, n.type)
            if v is not None:
                s.env[c] = v
        return v

    def elem(self, arr, s):
        _, lo, hi, w, reduced = arr
        return num(sym(self.fresh(s, "el", lin(0), add(sym(M), lin(-1)) if reduced else lin((1 << w) - 1))), w)

    def write(self, c, v, s):
        if c is None:
            return
        if c[0] == "sum":
            arr = s.env.get(c[1])
            if arr is not None and arr[0] == "sum":
                red = arr[4] and v is not None and v[0] == "n" and entails(s.cons, add(add(sym(M), lin(-1)), v[1], -1))
                s.env[c[1]] = arr[:4] + (red,)
            else:
                for k in [k for k in s.env if k[0] == "i" and k[1] == c[1]]:
                    del s.env[k]
            return
        cur = s.env.get(c)
        if cur is not None and cur[0] == "ref":
            return self.write(cur[1], v, s)
        if v is None:
            s.env.pop(c, None)
        else:
            s.env[c] = v

    def ev(self, n, s):
        self.budget -= 1
        if self.budget < 0:
            raise Stop("too many steps")
        if n is None:
            return [(None, s)]
        k = n.k
        if k in ("Int", "Char"):
            return [(num(lin(int(n.v)), tywidth(n.type)[0]), s)]
        if k == "Bool":
            return [(num(lin(1 if n.v else 0), 1), s)]
        if n.d.get("cv") is not None and k not in ("Ref",) and isinstance(n.d["cv"], int):
            return [(num(lin(n.d["cv"]), tywidth(n.type)[0]), s)]
        if k == "DefArg":
            return self.ev(n.e, s) if n.e is not None else [(None, s)]
        if k in ("Materialize", "Bind", "StdInit", "StdInitList") and n.e is not None:
            return self.ev(n.e, s)
        if k == "Cast":
            out = []
            for v, t in self.ev(n.e, s):
                w, sg = tywidth(n.type)
                if v is not None and v[0] == "n" and w and n.ck in ("IntegralCast", "NoOp", "LValueToRValue", "UserDefinedConversion", "ConstructorConversion", "FunctionalCast", None, "IntegralToBoolean"):
                    if w == 1 and n.ck == "IntegralToBoolean":
                        out += self.boolvals(v, t); continue
                    if v[2] == w and tywidth(n.e.type)[1] == sg:
                        out.append((num(v[1], w), t))
                    else:
                        t = t.copy()
                        l = self.fit(t, v[1], w, sg, n, "cast")
                        out.append((num(l, w), t))
                else:
                    out.append((v, t))
            return out
        if k in ("Ref", "Mem", "Idx", "This"):
            if k == "Ref" and n.dk == "enum" and n.d.get("cv") is not None:
                return [(num(lin(n.d["cv"]), 32), s)]
            if k == "Ref" and n.d.get("cv") is not None and isinstance(n.d["cv"], int):
                return [(num(lin(n.d["cv"]), tywidth(n.type)[0]), s)]
            return [(self.read(c, t, n), t) for c, t in self.place(n, s.copy())]
        if k == "Cond":
            out = []
            for b, t in self.truth(n.c, s):
                x = n.a if b else n.b
                if any(y.q == "__assert_fail" for y in x.walk()):
                    continue
                out += self.ev(x, t)
            return out
        if k == "Un":
            if n.op in ("++", "--"):
                out = []
                for c, t in self.place(n.a, s.copy()):
                    v = self.read(c, t, n.a)
                    if v is None or v[0] != "n":
                        self.write(c, None, t); out.append((None, t)); continue
                    w, sg = tywidth(n.a.type)
                    l = self.fit(t, add(v[1], lin(1 if n.op == "++" else -1)), w, sg, n, "increment")
                    nv = num(l, v[2], v[3]); self.write(c, nv, t)
                    out.append((v if n.d.get("post") else nv, t))
                return out
            if n.op == "!":
                return [(num(lin(0 if b else 1), 1), t) for b, t in self.truth(n.a, s)]
            if n.op in ("-", "~", "+"):
                out = []
                for v, t in self.ev(n.a, s):
                    if v is not None and v[0] == "n" and n.op == "+":
                        out.append((v, t)); continue
                    if v is None or v[0] != "n" or n.op == "~":
                        t = t.copy(); out.append((self.unknown(t, n.type), t)); continue
                    w, sg = tywidth(n.type); t = t.copy()
                    out.append((num(self.fit(t, scale(v[1], -1), w, sg, n, "negation"), v[2], v[3]), t))
                return out
            if n.op in ("*", "&"):
                return [(self.read(c, t, n), t) for c, t in self.place(n, s.copy())] if n.op == "*" else [(None, s)]
            if n.op == "__extension__":
                return self.ev(n.a, s)
        if k == "Bin":
            if n.op in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
                return [(num(lin(1 if b else 0), 1), t) for b, t in self.truth(n, s)]
            if n.op == ",":
                return [(v, t) for _, u in self.ev(n.a, s) for v, t in self.ev(n.b, u)]
            out = []
            for (a, b), t in self.evs([n.a, n.b], s):
                t = t.copy(); w, sg = tywidth(n.type)
                out.append((self.arith(n.op, a, b, w, sg, n, t), t))
            return out
        if k in ("Assign", "CAssign"):
            out = []
            for v, t in self.ev(n.b, s):
                for c, u in self.place(n.a, t.copy()):
                    op = n.op or "="
                    if k == "CAssign" and op != "=":
                        cur = self.read(c, u, n.a); w, sg = tywidth(n.a.type)
                        v2 = self.arith(op[:-1] if op.endswith("=") else op, cur, v, w, sg, n, u)
                    else:
                        v2 = v
                    self.write(c, v2, u); out.append((v2, u))
            return out
        if k == "OpCall":
            return self.opcall(n, s)
        if k == "Ctor":
            return self.ctor(n, s)
        if k in ("Call", "MCall"):
            return self.call(n, s)
        if k == "Lambda":
            return [(("lam", n, self.frame), s)]
        if k == "InitList":
            out = []
            for vs, t in self.evs(n.args or [], s):
                out.append((("list", vs), t))
            return out
        s = s.copy()
        return [(self.unknown(s, n.type), s)]

    def arith(self, op, a, b, w, sg, n, s):
        if a is None or b is None or a[0] != "n" or b[0] != "n":
            return self.unknown(s, n.type, w)
        ap = a[3] or b[3]
        if ap:
            w, sg = (a[2] if a[3] else b[2]), False
        x, y = a[1], b[1]
        if op == "+":
            return num(self.fit(s, add(x, y), w, sg, n, "sum"), w, ap)
        if op == "-":
            return num(self.fit(s, add(x, y, -1), w, sg, n, "difference"), w, ap)
        if op == "*":
            return num(self.mul(x, y, w, sg, n, s), w, ap)
        if op in ("%", "/"):
            return num(self.divide(op, x, y, w, s), w, ap)
        cx, cy = const(x), const(y)
        if cx is not None and cy is not None and cx >= 0 and cy >= 0 and op in ("&", "|", "^", "<<", ">>"):
            r = {"&": cx & cy, "|": cx | cy, "^": cx ^ cy, "<<": cx << cy if cy < 2000 else 0, ">>": cx >> cy if cy < 2000 else 0}[op]
            return num(lin(r & ((1 << w) - 1) if w else r), w, ap)
        if op in (">>", "<<") and cy is not None and 0 <= cy < 200:
            if op == ">>":
                return num(self.divide("/", x, lin(1 << cy), w, s), w, ap)
            return num(self.fit(s, scale(x, 1 << cy), w, sg, n, "shift"), w, ap)
        if op == "&" and cy == 1 or op == "&" and cx == 1:
            return ("bit", x if cy == 1 else y, w)
        if op == "&" and cy is not None and (cy & (cy + 1)) == 0 and entails(s.cons, x):
            return num(self.divide("%", x, lin(cy + 1), w, s), w, ap)
        if op in ("&", "|", "^") and w:
            hi = (1 << w) - 1
            return num(sym(self.fresh(s, "unk", lin(0), lin(hi))), w, ap)
        return self.unknown(s, n.type, w)

    def mul(self, x, y, w, sg, n, s):
        cx, cy = const(x), const(y)
        if cx is not None or cy is not None:
            return self.fit(s, scale(y, cx) if cx is not None else scale(x, cy), w, sg, n, "product")
        p = pmul(self.residue(s, x), self.residue(s, y))
        if self.exact:
            return sym(self.fresh(s, "p", None, None, p))
        ux, uy = upper(s.cons, x), upper(s.cons, y)
        if entails(s.cons, x) and entails(s.cons, y) and ux is not None and uy is not None:
            z = self.fresh(s, "p", lin(0), lin(ux * uy), p)
            s.res[z] = p
            return self.fit(s, sym(z), w, sg, n, "product")
        return self.fit(s, sym(self.fresh(s, "unk")), w, sg, n, "product")

    def divide(self, op, x, y, w, s):
        cx, cy = const(x), const(y)
        if cx is not None and cy is not None and cx >= 0 and cy > 0:
            return lin(cx % cy if op == "%" else cx // cy)
        if entails(s.cons, x) and (cy or 0) >= 0:
            if op == "%":
                if entails(s.cons, add(add(y, x, -1), lin(-1))):
                    return x
                r = self.residue(s, x)
                if y != sym(M):
                    r = padd(r, pmul(psym(self.quotient(x, y)), self.residue(s, y)), -1)
                return sym(self.fresh(s, "r", lin(0), add(y, lin(-1)), r))
            if cy:
                if all(v % cy == 0 for k, v in x.items() if k != C1):
                    return {k: v for k, v in ((k, v // cy) for k, v in x.items()) if v}
                q = self.fresh(s, "unk", lin(0))
                s.cons.append(add(x, scale(sym(q), cy), -1))
                s.cons.append(add(add(scale(sym(q), cy), lin(cy - 1)), x, -1))
                return sym(q)
            q = self.quotient(x, y)
            s.cons += [sym(q), add(x, sym(q), -1)]
            return sym(q)
        return sym(self.fresh(s, "unk"))

    def quotient(self, x, y):
        k = (key(x), key(y))
        if k not in self.quots:
            self.n += 1
            self.quots[k] = f"q{self.n}"
        return self.quots[k]

    def boolvals(self, v, s):
        return [(num(lin(1 if b else 0), 1), t) for b, t in self.split(v[1], "!=", {}, s)]

    # ------------------------------------------------------------ conditions
    def split(self, x, op, y, s):
        """Branches of x op y: (truth, state) pairs with the constraint added."""
        d = add(x, y, -1)
        c = const(d)
        if c is not None:
            return [({"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op], s)]

        def case(o):
            if o == "<":
                return [[add(scale(d, -1), lin(-1))]]
            if o == "<=":
                return [[scale(d, -1)]]
            if o == ">":
                return [[add(d, lin(-1))]]
            if o == ">=":
                return [[d]]
            if o == "==":
                return [[d, scale(d, -1)]]
            return [[add(d, lin(-1))], [add(scale(d, -1), lin(-1))]]
        out = []
        ss = {q for q in d if q != C1}
        for b, o in ((True, op), (False, NEG[op])):
            for extra in case(o):
                if feasible(relevant(s.cons, ss) + extra):
                    t = s.copy(); t.cons += extra
                    if o == "==":
                        self.equate(t, d)
                    out.append((b, t))
        return out

    def equate(self, t, d):
        """d == 0: substitute a plain symbol when one occurs with coefficient one."""
        for q, v in d.items():
            if q != C1 and q != M and abs(v) == 1 and str(q).startswith(("r", "p", "el", "h", "unk")):
                rest = scale(add(d, {q: v}, -1), -v)
                if const(rest) is None or q in rest:
                    continue
                old = t.res.get(q, psym(q))
                self.subst(t, q, rest)
                t.res.setdefault(("eqs",), [])
                t.res[("eqs",)] = t.res[("eqs",)] + [(old, self.residue(t, rest))]
                return

    def subst(self, t, q, l):
        def f(x):
            if q in x:
                v = x[q]; y = dict(x); del y[q]
                return add(y, l, v)
            return x

        def fm(m):
            return tuple(sorted(((s_, key(f(unkey(e)))) for s_, e in m), key=str))

        def fp(p):
            r = {}
            for m, c in p.items():
                # an occurrence as a factor stays a symbol; only exponents are rewritten
                m = fm(m); m = tuple((a, e) for a, e in m if e)
                r[m] = r.get(m, 0) + c
            return {k: c for k, c in r.items() if c}
        t.cons = [f(c) for c in t.cons]
        for k, v in list(t.env.items()):
            if v is not None and v[0] == "n":
                t.env[k] = ("n", f(v[1]), v[2], v[3])
            elif v is not None and v[0] == "bit":
                t.env[k] = ("bit", f(v[1]), v[2])
        for k, p in list(t.res.items()):
            if k == ("eqs",):
                t.res[k] = [(fp(a), fp(b)) for a, b in p]
            else:
                t.res[k] = fp(p)

    def bit(self, x, s):
        """Branches on the lowest bit of x."""
        c = const(x)
        if c is not None:
            return [(bool(c & 1), s)]
        odd = [q for q, v in x.items() if q != C1 and v % 2]
        if not odd:
            return [(bool(x.get(C1, 0) & 1), s)]
        if len(odd) == 1 and abs(x[odd[0]]) == 1 and odd[0] != M:
            q = odd[0]
            out = []
            for b in (0, 1):
                t = s.copy(); self.n += 1
                kk = f"k{self.n}"
                self.subst(t, q, add(scale(sym(kk), 2), lin(b)))
                t.cons.append(sym(kk))
                y = add(add(x, {q: x[q]}, -1), add(scale(sym(kk), 2), lin(b)), x[q])
                out.append((bool(y.get(C1, 0) & 1), t))
            return out
        return [(True, s.copy()), (False, s.copy())]

    def truth(self, n, s):
        if n.k in ("Cast", "Materialize", "Bind") and n.e is not None and tywidth(n.e.type)[0] in (1, None) and not is_ap(n.e.type):
            return self.truth(n.e, s)
        if n.k == "Un" and n.op == "!":
            return [(not b, t) for b, t in self.truth(n.a, s)]
        if n.k == "Bin" and n.op in ("&&", "||"):
            out = []
            for b, t in self.truth(n.a, s):
                if b == (n.op == "||"):
                    out.append((b, t))
                else:
                    out += self.truth(n.b, t)
            return out
        if (n.k == "Bin" or n.k == "OpCall") and n.op in NEG:
            a, b = (n.a, n.b) if n.k == "Bin" else n.args[:2]
            out = []
            for (x, y), t in self.evs([a, b], s):
                if x is not None and y is not None and x[0] == "n" and y[0] == "n":
                    out += self.split(x[1], n.op, y[1], t)
                elif x is not None and y is not None and x[0] == "bit" and y[0] == "n" and const(y[1]) in (0, 1):
                    want = (const(y[1]) == 1) == (n.op == "==")
                    out += [(bb == want, u) for bb, u in self.bit(x[1], t)]
                else:
                    out += self.both(t)
            return out
        if n.k in ("Str", "Null"):
            return [(n.k == "Str", s)]
        out = []
        for v, t in self.ev(n, s):
            if v is not None and v[0] == "n":
                out += self.split(v[1], "!=", {}, t)
            elif v is not None and v[0] == "bit":
                out += self.bit(v[1], t)
            elif v is not None and v[0] in ("none", "some"):
                out.append((v[0] == "some", t))
            else:
                out += self.both(t)
        return out

    def both(self, t):
        """A condition the analysis does not model: either way, and the paths are marked."""
        a, b = t.copy(), t.copy()
        a.env[("imprecise",)] = b.env[("imprecise",)] = num(lin(1), 1)
        return [(True, a), (False, b)]

    def precise(self, s):
        return ("imprecise",) not in s.env and not any(str(q).startswith("unkcall") for cc in s.cons for q in cc if q != C1)

    # ------------------------------------------------------------ calls
    def opcall(self, n, s):
        op, A = n.op, n.args or []
        if op == "=" and len(A) == 2:
            out = []
            for v, t in self.ev(A[1], s):
                for c, u in self.place(A[0], t.copy()):
                    self.write(c, v, u); out.append((v, u))
            return out
        if op in ("+=", "-=", "*=", "<<=", ">>=", "%=", "/=", "^=", "|=", "&=") and len(A) == 2:
            out = []
            for v, t in self.ev(A[1], s):
                for c, u in self.place(A[0], t.copy()):
                    w, sg = tywidth(A[0].type)
                    r = self.arith(op[:-1], self.read(c, u, A[0]), v, w, sg, n, u)
                    self.write(c, r, u); out.append((r, u))
            return out
        if op in ("++", "--") and A:
            out = []
            for c, t in self.place(A[0], s.copy()):
                v = self.read(c, t, A[0])
                if v is not None and v[0] == "n":
                    r = num(self.fit(t, add(v[1], lin(1 if op == "++" else -1)), v[2], False, n, "increment"), v[2], v[3])
                else:
                    r = None
                self.write(c, r, t); out.append((r if len(A) == 1 else v, t))
            return out
        if op == "[]" and len(A) == 2:
            if is_ap(A[0].type):
                out = []
                for (x, i), t in self.evs(A, s):
                    if x is not None and x[0] == "n" and i is not None and const(i[1]) == 0:
                        out.append((("bit", x[1], 1), t))
                    else:
                        out += [(num(lin(0), 1), t.copy()), (num(lin(1), 1), t.copy())]
                return out
            return [(self.read(c, t, n), t) for c, t in self.place(n, s.copy())]
        if op in NEG and len(A) == 2:
            return [(num(lin(1 if b else 0), 1), t) for b, t in self.truth(n, s)]
        if op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^") and len(A) == 2:
            out = []
            for (a, b), t in self.evs(A, s):
                t = t.copy(); w, sg = tywidth(n.type)
                out.append((self.arith(op, a, b, w, sg, n, t), t))
            return out
        if op in ("*", "->") and len(A) == 1:
            return [(v[1] if v is not None and v[0] == "some" else v, t) for v, t in self.ev(A[0], s)]
        if op == "()" and A:
            out = []
            for vs, t in self.evs(A, s):
                if vs[0] is not None and vs[0][0] == "lam" and vs[0][1].body is not None:
                    out += self.calllam(vs[0], vs[1:], t)
                else:
                    t = t.copy(); out.append((self.unknown(t, n.type, call=True), t))
            return out
        if op == "!":
            return [(num(lin(0 if b else 1), 1), t) for b, t in self.truth(A[0], s)]
        return self.call(n, s)

    def ctor(self, n, s):
        A = [a for a in (n.args or []) if a.k != "DefArg"]
        if is_ap(n.type):
            if len(A) == 1:
                return self.ev(A[0], s)
            out = []
            for vs, t in self.evs(A[:2], s):
                w = const(vs[0][1]) if vs[0] is not None and vs[0][0] == "n" else None
                if w is None or vs[1] is None or vs[1][0] != "n":
                    t = t.copy(); out.append((self.unknown(t, "llvm::APInt", w), t)); continue
                t = t.copy()
                out.append((num(self.fit(t, vs[1][1], w, False, n, "construction"), w, True), t))
            return out
        w, sg = tywidth(n.type)
        if w and len(A) == 1:
            out = []
            for v, t in self.ev(A[0], s):
                t = t.copy()
                out.append(((num(self.fit(t, v[1], w, sg, n, "cast"), w) if v is not None and v[0] == "n" else self.unknown(t, n.type)), t))
            return out
        if w and not A:
            return [(num(lin(0), w), s)]
        if "optional<" in n.type and len(A) == 1:
            if "nullopt" in A[0].type:
                return [(("none",), s)]
            return self.ev(A[0], s)
        if "vector<" in n.type or "SmallVector<" in n.type or "initializer_list" in n.type:
            if not A:
                return [(("arr", num(lin(0), 64)), s)]
            if len(A) == 1 and ("vector<" in A[0].type or "initializer_list" in A[0].type or A[0].k in ("InitList", "StdInit", "StdInitList")):
                return self.ev(A[0], s)
            out = []
            for vs, t in self.evs(A[:2], s):
                if vs[0] is not None and vs[0][0] == "n":
                    out.append((("arr", vs[0], vs[1] if len(vs) > 1 else num(lin(0), 64)), t))
                else:
                    out.append((None, t))
            return out
        if len(A) == 1:
            return self.ev(A[0], s)
        return [(None, s)]

    def call(self, n, s):
        name = n.n or (n.q or "").split("::")[-1]
        if name == "__assert_fail":
            return []
        A = [a for a in (n.args or [])]
        if n.q in ("std::move", "std::forward", "std::as_const") and len(A) == 1:
            return self.ev(A[0], s)
        if self.hook is not None:
            r = self.hook(self, n, name, A, s)
            if r is not None:
                return r
        obj = n.obj if n.k == "MCall" else None
        if obj is not None and name in ("value", "has_value") and not A and "optional<" in obj.type:
            return [((v[1] if v[0] == "some" else None) if name == "value" and v is not None and v[0] in ("some", "none") else v, t) for v, t in self.ev(obj, s)]
        if obj is not None and name.startswith("operator ") and not A:      # conversion operator
            return self.ev(obj, s)
        if obj is not None and is_ap(obj.type):
            return self.apcall(n, name, obj, A, s)
        if obj is not None and name in ("size",):
            out = []
            for c, t in self.place(obj, s.copy()):
                v = t.env.get(c) if c else None
                if v is not None and v[0] == "arr":
                    out.append((v[1], t))
                elif v is not None and v[0] == "list":
                    out.append((num(lin(len(v[1])), 64), t))
                else:
                    out.append((self.unknown(t, "unsigned long"), t))
            return out
        if obj is not None and name in ("push_back", "emplace_back"):
            out = []
            for v, t in self.evs(A, s):
                for c, u in self.place(obj, t.copy()):
                    if c is not None:
                        u.env[("pushed", c)] = ("list", (u.env.get(("pushed", c)) or ("list", []))[1] + [v[0] if v else None])
                    out.append((None, u))
            return out
        if name in ("any_of", "all_of", "none_of", "for_each") and n.k == "Call" and A:
            r = self.algorithm(n, name, A, s)
            if r is not None:
                return r
        if name == "udivrem" and n.k == "Call" and len(A) == 4 and is_ap(A[0].type):
            return self.apcall(n, name, None, A, s)
        f = self.P.callee(n) if hasattr(self.P, "callee") else None
        if f is not None and f.body is not None and not f.dep and self.depth < 8 and f.rel.startswith("lib/"):
            return self.inline(f, A, s)
        out = []
        for vs, t in self.evs(A, s):
            t = t.copy()
            for a in A:
                if a.lv and is_ap(a.type) and a.k in ("Ref", "Mem", "Idx", "OpCall") and not a.type.startswith("const"):
                    for p, u in self.place(a, t)[:1]:
                        self.write(p, None, t)
            out.append((self.unknown(t, n.type, call=True), t))
        return out

    def calllam(self, lam, vals, s):
        node, fr = lam[1], lam[2]
        old = self.frame
        self.frame = fr
        try:
            t = s.copy()
            for p, v in zip(node.params or [], vals):
                c = ("v", p.d.get("id"), fr)
                if v is None:
                    t.env.pop(c, None)
                else:
                    t.env[c] = v
            rets = []
            ends = self.stmt(node.body, [t], rets, [], [])
            return rets + [(None, e) for e in ends]
        finally:
            self.frame = old

    def items(self, n, s):
        """Cells of a container of known length."""
        for c, t in self.place(n, s.copy()):
            v = t.env.get(c) if c else None
            while v is not None and v[0] == "ref":
                c = v[1]; v = t.env.get(c)
            if v is not None and v[0] == "arr" and const(v[1][1]) is not None and const(v[1][1]) <= 64:
                return [("i", c, i) for i in range(const(v[1][1]))]
        return None

    def algorithm(self, n, name, A, s):
        a0 = A[0]
        rest = A[1:]
        if a0.k == "MCall" and a0.n in ("begin", "cbegin") and len(A) == 3:
            a0, rest = a0.obj, A[2:]
        its = self.items(a0, s)
        if its is None or len(rest) != 1:
            return None
        out = []
        for lam, t in self.ev(rest[0], s):
            if lam is None or lam[0] != "lam" or lam[1].body is None:
                return None
            live = [t]
            for it in its:
                nx = []
                for u in live:
                    x = u.env.get(it)
                    for v, u2 in self.calllam(lam, [("ref", it) if x is not None else None], u):
                        if name in ("for_each",):
                            nx.append(u2); continue
                        if v is None or v[0] != "n":
                            return None
                        for b, u3 in self.split(v[1], "!=", {}, u2):
                            if b == (name != "all_of"):
                                out.append((num(lin({"any_of": 1, "none_of": 0, "all_of": 0}[name]), 1), u3))
                            else:
                                nx.append(u3)
                live = nx
            for u in live:
                out.append((num(lin({"any_of": 0, "none_of": 1, "all_of": 1}.get(name, 0)), 1), u))
        return out

    def inline(self, f, A, s):
        binds = []
        outs = [(s, [])]
        for p, a in zip(f.params, A):
            nx = []
            ref = "&" in p.type and not p.type.strip().startswith("const")
            for t, bs in outs:
                if ref:
                    for c, u in self.place(a, t.copy()):
                        nx.append((u, bs + [("ref", c) if c else None]))
                else:
                    for v, u in self.ev(a, t):
                        nx.append((u, bs + [v]))
            outs = nx
        res = []
        for t, bs in outs:
            old = self.frame
            self.n += 1
            self.frame = ("fr", self.n)
            self.depth += 1
            try:
                t2 = t.copy()
                for p, v in zip(f.params, bs):
                    if v is not None:
                        t2.env[("v", p.d.get("id"), self.frame)] = v
                rets = self.run_body(f, t2)
            finally:
                self.depth -= 1
                fr = self.frame
                self.frame = old
            back = []
            for v, u in rets:
                u = u.copy()
                for k in [k for k in u.env if self.inframe(k, fr)]:
                    del u.env[k]
                back.append((v, u))
            res += self.merge(back, t)
        return res

    def inframe(self, k, fr):
        while isinstance(k, tuple):
            if len(k) == 3 and k[0] == "v":
                return k[2] == fr
            k = k[1] if len(k) > 1 else None
        return False

    def merge(self, rets, pre):
        """Paths that return the same residue in the range of the modulus, without other effects, are one."""
        if len(rets) < 2:
            return rets
        v0 = rets[0][0]
        if any(v is None or v[0] != "n" or u.env != pre.env for v, u in rets):
            return rets
        ps = [self.residue(u, v[1]) for v, u in rets]
        if any(p != ps[0] for p in ps) or any(("eqs",) in u.res and u.res[("eqs",)] != pre.res.get(("eqs",)) for _, u in rets):
            return rets
        bad = {x for p in ps for x in psyms(p) if str(x).startswith(("wrap", "unk"))}
        if bad:
            return rets
        for v, u in rets:
            if not (entails(u.cons, v[1]) and entails(u.cons, add(add(sym(M), lin(-1)), v[1], -1))):
                return rets
        t = pre.copy()
        for v, u in rets:
            for k, p in u.res.items():
                t.res.setdefault(k, p)
        x = self.fresh(t, "r", lin(0), add(sym(M), lin(-1)), ps[0])
        return [(num(sym(x), v0[2], v0[3]), t)]

    def apcall(self, n, name, obj, A, s):
        out = []
        if name in APCMP and len(A) == 1:
            for (x, y), t in self.evs([obj, A[0]], s):
                if x and y and x[0] == "n" and y[0] == "n":
                    out += [(num(lin(1 if b else 0), 1), u) for b, u in self.split(x[1], APCMP[name], y[1], t)]
                else:
                    out += [(num(lin(0), 1), t.copy()), (num(lin(1), 1), t.copy())]
            return out
        if name == "udivrem" and len(A) == 4:
            for (x, y), t in self.evs(A[:2], s):
                for cq, t2 in self.place(A[2], t.copy()):
                    for cr, u in self.place(A[3], t2.copy()):
                        if not (x and y and x[0] == "n" and y[0] == "n"):
                            self.write(cq, None, u); self.write(cr, None, u); out.append((None, u)); continue
                        q = self.fresh(u, "q", lin(0))
                        r = self.fresh(u, "r", lin(0), add(y[1], lin(-1)), padd(self.residue(u, x[1]), pmul(psym(q), self.residue(u, y[1])), -1))
                        self.write(cq, num(sym(q), x[2], True), u); self.write(cr, num(sym(r), x[2], True), u)
                        out.append((None, u))
            return out
        if name in ("negate", "lshrInPlace", "ashrInPlace") or (name.startswith("set") or name.startswith("clear") or name.startswith("flip")):
            for vs, t in self.evs(A, s):
                for c, u in self.place(obj, t.copy()):
                    v = self.read(c, u, obj)
                    r = None
                    if name == "lshrInPlace" and v and v[0] == "n" and vs and vs[0] and const(vs[0][1]) is not None:
                        r = num(self.divide("/", v[1], lin(1 << const(vs[0][1])), v[2], u), v[2], True)
                    self.write(c, r, u); out.append((r, u))
            return out
        for vs, t in self.evs([obj] + A, s):
            x = vs[0]
            t = t.copy()
            if x is None or x[0] != "n":
                out.append((self.unknown(t, n.type), t)); continue
            w = x[2]
            a = vs[1] if len(vs) > 1 else None
            ca = const(a[1]) if a is not None and a[0] == "n" else None
            if name == "getBitWidth":
                out.append((num(lin(w), 32) if w else self.unknown(t, "unsigned int"), t))
            elif name in ("zext", "zextOrTrunc", "zextOrSelf", "trunc", "truncOrSelf", "sextOrTrunc", "sext"):
                if ca is None or ca < 0:
                    out.append((self.unknown(t, n.type), t))
                elif ca >= (w or 0) and name not in ("trunc",):
                    out.append((num(x[1], ca, True), t))
                else:
                    out.append((num(self.fit(t, x[1], ca, False, n, "truncation"), ca, True), t))
            elif name in ("urem", "udiv", "srem", "sdiv") and a is not None and a[0] == "n":
                if name[0] == "s" and w and not self.exact and not entails(t.cons, add(lin((1 << (w - 1)) - 1), x[1], -1)):
                    xx = self.fresh(t, "wrap", lin(0), lin((1 << w) - 1)); self.wraps[xx] = (n, "signed division of an unsigned value")
                    out.append((num(sym(xx), w, True), t))
                else:
                    out.append((num(self.divide("%" if "rem" in name else "/", x[1], a[1], w, t), w, True), t))
            elif name in ("lshr", "shl") and ca is not None:
                out.append((num(self.divide("/", x[1], lin(1 << ca), w, t), w, True) if name == "lshr" else
                            num(self.fit(t, scale(x[1], 1 << ca), w, False, n, "shift"), w, True), t))
            elif name in ("isZero", "isOne", "isNegative", "isNonNegative", "isStrictlyPositive"):
                o, v = {"isZero": ("==", 0), "isOne": ("==", 1), "isNegative": ("<", 0), "isNonNegative": (">=", 0), "isStrictlyPositive": (">", 0)}[name]
                if name in ("isZero", "isOne") or self.exact:
                    out += [(num(lin(1 if b else 0), 1), u) for b, u in self.split(x[1], o, lin(v), t)]
                else:
                    out += [(num(lin(1 if b == (o == "<") else 0), 1), u) for b, u in self.split(x[1], ">=", lin(1 << (w - 1)), t)]
            elif name in ("getZExtValue", "getLimitedValue"):
                out.append((num(self.fit(t, x[1], 64, False, n, "conversion"), 64), t))
            elif name in ("getSExtValue",) and w and w > 64:
                out.append((num(self.fit(t, x[1], 63, False, n, "conversion"), 64), t))
            else:
                out.append((self.unknown(t, n.type), t))
        return out

    # ------------------------------------------------------------ statements
    frame = ("fr", 0)

    def run_body(self, f, s):
        rets = []
        ends = self.stmt(f.body, [s], rets, [], [])
        for t in ends:
            rets.append((None, t))
        return rets

    def stmt(self, n, states, rets, brk, cont):
        if n is None:
            return states
        k = n.k
        if k == "Block":
            for x in n.s or []:
                states = self.stmt(x, states, rets, brk, cont)
                if not states:
                    break
            return states
        if k == "Decl":
            for v in n.v or []:
                nx = []
                for s in states:
                    c = ("v", v.d.get("id"), self.frame)
                    if v.init is None:
                        t = s.copy(); t.env.pop(c, None); nx.append(t); continue
                    if "&" in v.type and not v.type.startswith("const"):
                        for p, t in self.place(v.init, s.copy()):
                            t.env[c] = ("ref", p) if p else None
                            if p is None:
                                t.env.pop(c, None)
                            nx.append(t)
                        continue
                    for x, t in self.ev(v.init, s):
                        t = t.copy()
                        for kk in [kk for kk in t.env if kk[0] in ("i", "f", "pushed") and self.rooted(kk, c)]:
                            del t.env[kk]
                        if x is not None and x[0] == "list":
                            t.env[c] = ("arr", num(lin(len(x[1])), 64))
                            for i, y in enumerate(x[1]):
                                if y is not None:
                                    t.env[("i", c, i)] = y
                        elif x is None:
                            t.env.pop(c, None)
                        else:
                            t.env[c] = x
                        nx.append(t)
                states = nx
            return states
        if k == "If":
            out = []
            for s in states:
                if n.init is not None:
                    ss = self.stmt(n.init, [s], rets, brk, cont)
                else:
                    ss = [s]
                for s1 in ss:
                    for b, t in self.truth(n.c, s1):
                        x = n.a if b else n.b
                        out += self.stmt(x, [t], rets, brk, cont) if x is not None else [t]
            return out
        if k == "Return":
            for s in states:
                for v, t in (self.ev(n.e, s) if n.e is not None else [(None, s)]):
                    rets.append((v, t))
            return []
        if k == "Break":
            brk += states; return []
        if k == "Continue":
            cont += states; return []
        if k in ("For", "While", "Do"):
            out = []
            for s in states:
                ss = self.stmt(n.init, [s], rets, brk, cont) if n.init is not None else [s]
                for t in ss:
                    out += self.loop(n, t, rets)
            return out
        if k == "RFor":
            out = []
            for s in states:
                out += self.rfor(n, s, rets)
            return out
        if k in ("Switch", "Try", "Label", "Goto"):
            raise Stop(k)
        if k == "Nop":
            return states
        out = []
        for s in states:
            out += [t for _, t in self.ev(n, s)]
        return out

    def rooted(self, k, c):
        while isinstance(k, tuple) and k[0] in ("i", "f", "pushed", "sum"):
            if k[1] == c:
                return True
            k = k[1]
        return False

    def once(self, n, s, rets):
        """One pass: (continuing states, leaving states)."""
        brk, cont, out = [], [], []
        heads = self.truth(n.c, s) if n.c is not None and n.k != "Do" else [(True, s)]
        go = [t for b, t in heads if b]
        out = [t for b, t in heads if not b]
        ends = self.stmt(n.body, go, rets, brk, cont) + cont
        if n.k == "For" and n.inc is not None:
            ends = [t for e in ends for _, t in self.ev(n.inc, e)]
        if n.k == "Do":
            nx = []
            for e in ends:
                for b, t in self.truth(n.c, e):
                    (nx if b else out).append(t)
            ends = nx
        return ends, out + brk

    def loop(self, n, s, rets):
        # concrete unrolling while every condition is decided
        work, exits, steps = [s], [], 0
        saved = (self.n,)
        r2 = []
        ok = True
        while work:
            if n.c is not None and n.k != "Do" and any(len({b for b, _ in self.truth(n.c, w)}) > 1 for w in work):
                ok = False
                break
            steps += 1
            if steps > self.unroll or len(work) > 64:
                ok = False
                break
            if steps == 3 and any(self.changing(n, w) for w in ()):
                ok = False
            nx = []
            for w in work:
                e, o = self.once(n, w, r2)
                nx += e; exits += o
            work = nx
        if ok:
            rets += r2
            return exits
        return self.invariant(n, s, rets)

    def changing(self, n, w):
        return False

    def assigned(self, n, s):
        """Cells a loop may write, found by running it once from an arbitrary head."""
        cells = set()
        ids = set()
        for x in n.walk():
            t = None
            if x.k in ("Assign", "CAssign"):
                t = x.a
            elif x.k == "Un" and x.op in ("++", "--", "&"):
                t = x.a
            elif x.k == "OpCall" and x.op and (x.op.endswith("=") and x.op not in NEG or x.op in ("++", "--")) and x.args:
                t = x.args[0]
            elif x.k == "MCall" and not x.cm and x.obj is not None:
                t = x.obj
            ts = [t] if t is not None else []
            if x.k in ("Call", "MCall", "OpCall"):
                f = self.P.callee(x) if x.k != "OpCall" else None
                for i, a in enumerate(x.args or []):
                    p = f.params[i] if f is not None and i < len(f.params) else None
                    if a.lv and a.k in ("Ref", "Idx", "Mem") or (a.k == "OpCall" and a.op == "[]" and a.lv):
                        if p is not None and not ("&" in p.type and not p.type.strip().startswith("const")):
                            continue
                        if p is None and x.k == "OpCall":
                            continue
                        if p is None and (x.n in APCMP or x.n in ("any_of", "all_of", "none_of", "find_if", "count_if", "modularExponentiation", "modularMultiplication", "max", "min")):
                            continue
                        if a.type.startswith("const "):
                            continue
                        ts.append(a)
            for t in ts:
                while t is not None and t.k in ("Idx", "OpCall", "Cast", "Mem", "Un", "MCall"):
                    t = t.a if t.k in ("Idx", "Un") else (t.args[0] if t.k == "OpCall" and t.args else (t.e if t.k == "Cast" else t.obj if t.k == "MCall" else t.base))
                if t is not None and t.k == "Ref":
                    ids.add(("v", t.d.get("id"), self.frame))
        for c in ids:
            v = s.env.get(c)
            while v is not None and v[0] == "ref":
                c = v[1]; v = s.env.get(c)
            cells.add(c)
        return cells

    def invariant(self, n, s, rets):
        roots = self.assigned(n, s)
        cells = []
        for c, v in s.env.items():
            if v is None:
                continue
            if (c in roots or any(self.rooted(c, r) for r in roots)) and v[0] in ("n", "sum"):
                cells.append(c)
        arrs = [c for c in roots if s.env.get(c) is not None and s.env[c][0] == "arr" and not any(self.rooted(k, c) for k in s.env if k[0] == "i")]
        cand = {}
        for c in cells:
            v = s.env[c]
            if v[0] == "sum":
                if v[4]:
                    cand[("red", c)] = True
                continue
            if entails(s.cons, v[1]):
                cand[("nonneg", c)] = True
            if entails(s.cons, add(add(sym(M), lin(-1)), v[1], -1)):
                cand[("red", c)] = True
            c0 = const(v[1])
            if c0 is not None:
                cand[("set", c)] = {c0}
                cand[("lb", c)] = c0
        if self.templates is not None:
            for tkey, ok in self.templates(self, s, [c for c in cells if s.env[c][0] == "n"]):
                if ok:
                    cand[tkey] = True
        initial = dict(cand)
        for _ in range(60):
            ends = []
            for h, _o in self.heads(s, cells, cand, arrs, roots):
                ends += self.once(n, h, [])[0]
            # value sets grow first; every change restores the other candidates, which only shrink
            grown = False
            for ck in [k for k in cand if k[0] == "set"]:
                for e in ends:
                    v = e.env.get(ck[1])
                    c0 = const(v[1]) if v is not None and v[0] == "n" else None
                    if c0 is not None and c0 in cand[ck]:
                        continue
                    grown = True
                    if c0 is not None and len(cand[ck]) < 3:
                        initial[ck] = cand[ck] = cand[ck] | {c0}
                    else:
                        del cand[ck], initial[ck]
                        break
            if grown:
                cand = dict(initial)
                continue
            drop = [ck for ck in cand if ck[0] != "set" and not all(self.keeps(e, ck, cand[ck]) for e in ends)]
            for ck in drop:
                del cand[ck]
            if not drop:
                break
        else:
            raise Stop("no stable invariant")
        out = []
        for h, _ in self.heads(s, cells, cand, arrs, roots):
            ends, o = self.once(n, h, rets)
            out += o
        return out

    def keeps(self, e, ck, val):
        if ck[0] not in ("nonneg", "red", "lb"):
            return ck[-1].check(self, e, ck)
        v = e.env.get(ck[1])
        if ck[0] == "red" and v is not None and v[0] == "sum":
            return v[4]
        if v is None or v[0] != "n":
            return False
        if ck[0] == "nonneg":
            return entails(e.cons, v[1])
        if ck[0] == "lb":
            return entails(e.cons, add(v[1], lin(-val)))
        return entails(e.cons, add(add(sym(M), lin(-1)), v[1], -1))

    def heads(self, s, cells, cand, arrs, roots):
        base = s.copy()
        for r in roots:                      # anything else under an assigned root is forgotten
            for k in [k for k in base.env if (k == r or self.rooted(k, r)) and k not in cells and k not in arrs]:
                if base.env.get(k) is not None and base.env[k][0] in ("arr", "ref"):
                    continue
                del base.env[k]
        states = [base]
        for c in cells:
            v = s.env[c]
            nx = []
            for t in states:
                if v[0] == "sum":
                    t.env[c] = v[:4] + (("red", c) in cand,)
                    nx.append(t); continue
                if ("set", c) in cand:
                    for c0 in sorted(cand[("set", c)]):
                        u = t.copy(); u.env[c] = num(lin(c0), v[2], v[3]); nx.append(u)
                    continue
                w = v[2]
                x = self.fresh(t, "h", lin(0) if ("nonneg", c) in cand or not self.exact and v[3] else None,
                               lin((1 << w) - 1) if w and not (self.exact and v[3]) else None)
                if ("red", c) in cand:
                    t.cons.append(add(add(sym(M), lin(-1)), sym(x), -1))
                if ("lb", c) in cand:
                    t.cons.append(add(sym(x), lin(-cand[("lb", c)])))
                t.env[c] = num(sym(x), v[2], v[3])
                nx.append(t)
            states = nx
        for t in states:
            for ck in cand:
                if ck[0] not in ("nonneg", "red", "lb", "set"):
                    ck[-1].assume(self, t, ck)
        return [(t, None) for t in states]

    def rfor(self, n, s, rets):
        items = None
        for c, t in self.place(n.range, s.copy()):
            v = t.env.get(c) if c else None
            if v is not None and v[0] == "arr" and const(v[1][1]) is not None:
                items = [("i", c, i) for i in range(const(v[1][1]))]
                s = t
        states = [s]
        if items is not None and len(items) <= 64:
            exits = []
            for it in items:
                brk, cont = [], []
                go = []
                for t in states:
                    t = t.copy(); x = t.env.get(it)
                    cell = ("v", n.var.d.get("id"), self.frame)
                    if "&" in n.var.type and not n.var.type.startswith("const"):
                        t.env[cell] = ("ref", it)
                    elif x is not None:
                        t.env[cell] = x
                    else:
                        t.env.pop(cell, None)
                    go.append(t)
                states = self.stmt(n.body, go, rets, brk, cont) + cont
                exits += brk
            return states + exits
        raise Stop("iteration over an unknown range")
