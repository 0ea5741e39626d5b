"""Exact abstract evaluation of container-manipulating template code over opaque symbols.

The elements (vertices) are symbols of which the code can only ask equality and order; containers hold them as finite
structures.  Whatever is not modelled raises Unknown: the caller then reports nothing."""
import re
from . import prog


class Unknown(Exception):
    pass


class Fault(Exception):
    """The code does something undefined (reads a missing element) or does not come to an end."""


class _Sig(Exception):
    pass


class Brk(_Sig):
    pass


class Cont(_Sig):
    pass


class Ret(_Sig):
    def __init__(self, v):
        self.v = v


class Map:
    __slots__ = ("d", "vt", "ord")

    def __init__(self, vt, ordered):
        self.d, self.vt, self.ord = {}, vt, ordered

    def keys(self):
        return sorted(self.d, key=key) if self.ord else list(self.d)


class Set:
    __slots__ = ("d", "ord")

    def __init__(self, ordered, items=()):
        self.d, self.ord = dict.fromkeys(items), ordered

    def keys(self):
        return sorted(self.d, key=key) if self.ord else list(self.d)


class Que:
    __slots__ = ("l", "kind")

    def __init__(self, kind):
        self.l, self.kind = [], kind


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class It:
    __slots__ = ("c", "p")

    def __init__(self, c, p):
        self.c, self.p = c, p


class Ins:
    __slots__ = ("c", "p")

    def __init__(self, c, p):
        self.c, self.p = c, p


class Lam:
    __slots__ = ("n", "env", "this")

    def __init__(self, n, env, this):
        self.n, self.env, self.this = n, env, this


class Fail:
    def __repr__(self):
        return "failure"


FAIL = Fail()
END = "<end>"


class Uninit:
    pass


UNINIT = Uninit()


def key(x):
    return x


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, Map):
        m = Map(v.vt, v.ord); m.d = {k: copy(x) for k, x in v.d.items()}
        return m
    if isinstance(v, Set):
        return Set(v.ord, v.d)
    if isinstance(v, Que):
        q = Que(v.kind); q.l = [copy(x) for x in v.l]
        return q
    if isinstance(v, Obj):
        return Obj(v.cls, {k: copy(x) for k, x in v.f.items()})
    return v


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def base(t):
    t = re.sub(r"\b(const|struct|class|mutable|typename)\b", "", t or "").replace("&", "").strip()
    return t


def head(t):
    return base(t).split("<")[0].split("::")[-1] if "(" not in base(t).split("<")[0] else ""


INTS = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0),
        "short": (16, 1), "unsigned short": (16, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "bool": (1, 0),
        "size_t": (64, 0), "uint64_t": (64, 0), "int64_t": (64, 1), "int32_t": (32, 1), "uint32_t": (32, 0)}
MAPS = {"map": 1, "unordered_map": 0, "DenseMap": 0, "MapVector": 0, "SmallDenseMap": 0}
SETS = {"set": 1, "unordered_set": 0, "DenseSet": 0, "SmallSet": 0, "SmallDenseSet": 0, "SetVector": 0, "SmallSetVector": 0}
VECS = {"vector", "SmallVector", "SmallVectorImpl", "deque", "ArrayRef", "list", "MutableArrayRef", "initializer_list"}
QUES = {"queue", "stack", "priority_queue"}


def wrap(v, t):
    w = INTS.get(base(t))
    if w is None or not isinstance(v, int):
        return v
    if w[0] == 1:
        return int(bool(v))
    v &= (1 << w[0]) - 1
    return v - (1 << w[0]) if w[1] and v >> (w[0] - 1) else v


class Ev:
    def __init__(self, P, limit=200000):
        self.P, self.limit, self.steps = P, limit, 0
        self.this = None
        self.depth = 0

    # -- values -------------------------------------------------------------
    def new(self, t, zero=True):
        b, h = base(t), head(t)
        if b in INTS:
            return 0 if zero else UNINIT
        if b.endswith("*"):
            return None
        if h in MAPS:
            return Map(targs(b)[1], MAPS[h])
        if h in SETS:
            return Set(SETS[h])
        if h in VECS:
            return []
        if h in QUES:
            return Que(h)
        if h in ("function", "function_ref"):
            return None
        if h == "pair":
            return tuple(self.new(x) for x in targs(b)[:2])
        if h in ("FailureOr", "optional"):
            return FAIL
        r = self.P.recs.get(b)
        if r is not None:
            return self.object(r, zero)
        raise Unknown(f"type {b}")

    def object(self, r, zero=True):
        if r.bases:
            raise Unknown("base classes")
        o = Obj(r.full, {})
        for f in r.fields:
            o.f[f.n] = self.new(f.type, zero)
            if f.init is not None:
                o.f[f.n] = self.ev(f.init, {})
        return o

    def truth(self, v):
        if v is UNINIT:
            raise Fault("an uninitialised variable is read")
        if isinstance(v, int):
            return bool(v)
        if v is None or isinstance(v, Lam) or callable(v):
            return v is not None
        if v is FAIL:
            return False
        raise Unknown("condition")

    def seq(self, v):
        if isinstance(v, list):
            return list(v)
        if isinstance(v, Set):
            return v.keys()
        if isinstance(v, Map):
            return [(k, v.d[k]) for k in v.keys()]
        raise Unknown("sequence")

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Fault("the computation does not come to an end")

    # -- places ---------------------------------------------------------------
    def loc(self, n, env):
        """(container, key) such that container[key] is the place n denotes."""
        k = n.k
        if k == "Ref":
            i = n.d.get("id")
            if i in env:
                return env[i]
            raise Unknown(f"variable {n.n}")
        if k == "Mem":
            b = self.ev(n.base, env) if n.base is not None else self.this
            if isinstance(b, Obj):
                if n.n not in b.f:
                    raise Unknown(f"field {n.n}")
                return b.f, n.n
            if isinstance(b, It):
                b = self.deref(b)
            if isinstance(b, (tuple,)) and n.n in ("first", "second"):
                return list(b), 0 if n.n == "first" else 1
            raise Unknown(f"member {n.n}")
        if k == "Cast":
            return self.loc(n.e, env)
        if k == "OpCall" and n.op == "[]" or k == "Idx" or k == "MCall" and n.n == "at":
            a, i = (n.args if k == "OpCall" else (n.a, n.b) if k == "Idx" else (n.obj, n.args[0]))
            c = self.ev(a, env)
            i = self.val(i, env)
            if c is FAIL:
                raise Fault("the value of a failure is used")
            if isinstance(c, Map):
                if i not in c.d:
                    if k == "MCall":
                        raise Fault("at() for a key that is absent")
                    c.d[i] = self.new(c.vt)
                return c.d, i
            if isinstance(c, list):
                if not 0 <= i < len(c):
                    raise Fault(f"element {i} of a sequence of {len(c)}")
                return c, i
            raise Unknown("subscript")
        if k in ("Un", "OpCall") and n.op == "*":
            a = self.ev(n.a if k == "Un" else n.args[0], env)
            if isinstance(a, It) and isinstance(a.c, list):
                if not 0 <= a.p < len(a.c):
                    raise Fault("dereference of the end of a sequence")
                return a.c, a.p
            return [self.deref(a)], 0
        if k in ("Un", "Assign", "CAssign") and (k != "Un" or n.op in ("++", "--")):
            v = self.ev(n, env)
            return self.loc(n.a, env) if n.d.get("lv") else ([v], 0)
        if k == "MCall" and n.n in ("front", "back"):
            c = self.ev(n.obj, env)
            if isinstance(c, list):
                if not c:
                    raise Fault(f"{n.n} of an empty sequence")
                return c, 0 if n.n == "front" else len(c) - 1
        if k == "Call" and n.q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
            return self.loc(n.args[0], env)
        if k == "Cond":
            return self.loc(n.a if self.truth(self.val(n.c, env)) else n.b, env)
        return [self.ev(n, env)], 0

    def deref(self, a):
        if a is FAIL:
            raise Fault("the value of a failure is used")
        if isinstance(a, It):
            if a.p == END:
                raise Fault("dereference of the end of a container")
            if isinstance(a.c, Map):
                return (a.p, a.c.d[a.p])
            if isinstance(a.c, Set):
                if a.p not in a.c.d:
                    raise Fault("dereference of an erased element")
                return a.p
            if isinstance(a.c, list):
                if not 0 <= a.p < len(a.c):
                    raise Fault("dereference of the end of a sequence")
                return a.c[a.p]
        return a                      # FailureOr / optional hold their value

    def val(self, n, env):
        v = self.ev(n, env)
        if v is UNINIT:
            raise Fault("an uninitialised variable is read")
        return v

    # -- expressions -----------------------------------------------------------
    def ev(self, n, env):
        self.tick()
        if n is None:
            return None
        k = n.k
        if k == "Int":
            return int(n.v)
        if k == "Bool":
            return 1 if n.v else 0
        if k == "Null":
            return None
        if k == "This":
            return self.this
        if k == "Ref":
            if n.dk in ("param", "var", "bind", None) and n.d.get("id") in env:
                c, i = env[n.d["id"]]
                return c[i]
            cv = n.d.get("cv")
            if cv is not None and str(cv).lstrip("-").isdigit():
                return int(cv)
            if (n.q or n.n or "").endswith("nullopt"):
                return FAIL
            raise Unknown(f"name {n.n}")
        if k == "Mem":
            c, i = self.loc(n, env)
            return c[i]
        if k == "Cast":
            v = self.ev(n.e, env)
            return wrap(v, n.type) if isinstance(v, int) else v
        if k == "DefArg":
            d = n.d.get("def")
            d = d if isinstance(d, prog.N) else getattr(n, "def") or n.e
            return self.ev(d, env)
        if k == "Un":
            return self.unary(n, n.a, n.op, bool(n.d.get("post")), env)
        if k == "Bin":
            return self.bin(n, env)
        if k == "Assign" or k == "OpCall" and n.op == "=":
            l, r = (n.a, n.b) if k == "Assign" else n.args
            v = copy(self.val(r, env))
            c, i = self.loc(l, env)
            if isinstance(v, int):
                v = wrap(v, l.type)
            if isinstance(v, Que) and isinstance(c[i], Que) or isinstance(c[i], (Map, Set, list, Obj)) and type(c[i]) is type(v):
                pass
            c[i] = v
            return v
        if k == "CAssign":
            v = self.val(n.b, env)
            c, i = self.loc(n.a, env)
            c[i] = wrap(self.arith(n.op[:-1], c[i], v), n.a.type)
            return c[i]
        if k == "Cond":
            return self.ev(n.a if self.truth(self.val(n.c, env)) else n.b, env)
        if k == "Lambda":
            e = dict(env)
            for c in n.caps or []:
                i = c.d.get("id")
                if c.init is not None:
                    e[i] = ([copy(self.val(c.init, env))], 0)
                elif i is not None and not c.d.get("ref") and i in env:
                    cc, j = env[i]
                    e[i] = ([copy(cc[j])], 0)
            return Lam(n, e, self.this)
        if k in ("InitList",):
            vs = [copy(self.val(a, env)) for a in n.args or []]
            t = base(n.type)
            if head(t) == "pair" and len(vs) == 2:
                return tuple(vs)
            r = self.P.recs.get(n.d.get("cls") or t)
            if r is not None and len(r.fields) >= len(vs) and head(t) not in VECS:
                o = self.object(r)
                for f, v in zip(r.fields, vs):
                    o.f[f.n] = v
                return o
            if t in INTS:
                return vs[0] if vs else 0
            if head(t) in SETS:
                return Set(SETS[head(t)], vs)
            return vs
        if k in ("StdInitList", "StdInit", "Materialize", "Bind"):
            return self.ev(n.e, env)
        if k == "Ctor":
            return self.ctor(n, env)
        if k in ("Call", "MCall", "OpCall"):
            return self.call(n, env)
        if k == "Idx":
            c, i = self.loc(n, env)
            return c[i]
        raise Unknown(f"expression {k} at line {n.line}")

    def unary(self, n, a, op, post, env):
        if op in ("++", "--"):
            c, i = self.loc(a, env)
            old = c[i]
            if old is UNINIT:
                raise Fault("an uninitialised variable is read")
            if isinstance(old, It):
                new = self.advance(old, 1 if op == "++" else -1)
            elif isinstance(old, int):
                new = wrap(old + (1 if op == "++" else -1), a.type)
            else:
                raise Unknown("increment")
            c[i] = new
            return old if post else new
        v = self.val(a, env)
        if op == "!":
            return int(not self.truth(v))
        if op == "-" and isinstance(v, int):
            return wrap(-v, n.type)
        if op == "+":
            return v
        if op == "~" and isinstance(v, int):
            return wrap(~v, n.type)
        if op == "*":
            return self.deref(v)
        if op == "&":
            return v
        raise Unknown(f"operator {op}")

    def advance(self, it, k):
        if isinstance(it.c, list):
            return It(it.c, it.p + k)
        ks = it.c.keys()
        if it.p == END:
            j = len(ks) + k
        elif it.p not in it.c.d:
            raise Fault("an iterator to an erased element is advanced")
        else:
            j = ks.index(it.p) + k
        if not 0 <= j <= len(ks):
            raise Fault("an iterator leaves its container")
        return It(it.c, ks[j] if j < len(ks) else END)

    def bin(self, n, env):
        op = n.op
        if op in ("&&", "||"):
            a = self.truth(self.val(n.a, env))
            if a == (op == "||"):
                return int(a)
            return int(self.truth(self.val(n.b, env)))
        if op == ",":
            self.ev(n.a, env)
            return self.ev(n.b, env)
        a, b = self.val(n.a, env), self.val(n.b, env)
        return wrap(self.arith(op, a, b), n.type)

    def arith(self, op, a, b):
        if UNINIT in (a, b) if not isinstance(a, (Map, Set, list)) else False:
            raise Fault("an uninitialised variable is read")
        if op in ("==", "!="):
            if isinstance(a, It) and isinstance(b, It):
                if a.c is not b.c:
                    raise Unknown("iterators of different containers")
                r = self.norm(a) == self.norm(b)
            else:
                r = self.equal(a, b)
            return int(r == (op == "=="))
        if isinstance(a, It) and isinstance(b, It) and op == "-" and isinstance(a.c, list):
            return a.p - b.p
        if isinstance(a, It) and isinstance(b, int) and op in "+-":
            return self.advance(a, b if op == "+" else -b)
        if isinstance(a, (int, tuple, list)) and type(a) is type(b) and op in ("<", ">", "<=", ">="):
            return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%"):
                if b == 0:
                    raise Fault("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "/" else a - b * q
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                 "<<": lambda: a << b if 0 <= b < 64 else None, ">>": lambda: a >> b if 0 <= b < 64 else None}.get(op)
            r = f() if f else None
            if r is not None:
                return r
        raise Unknown(f"operator {op}")

    def norm(self, it):
        if isinstance(it.c, list):
            return it.p
        return it.p

    def equal(self, a, b):
        if isinstance(a, Set) and isinstance(b, Set):
            return set(a.d) == set(b.d)
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Unknown("equality of structures")
        return a == b

    def ctor(self, n, env):
        t = n.type or n.d.get("cls")
        args = [a for a in n.args or [] if a.k != "DefArg"]
        h = head(t)
        if n.copy or n.move:
            v = self.val(args[0], env)
            return v if n.move and isinstance(args[0], prog.N) and args[0].k != "Call" else copy(v)
        if not args:
            return self.new(t)
        if h in ("function", "function_ref", "reference_wrapper"):
            return self.val(args[0], env)
        if h in ("FailureOr", "optional") or h == "LogicalResult":
            v = self.val(args[0], env)
            return copy(v)
        vs = [self.val(a, env) for a in args]
        if h == "pair" and len(vs) == 2:
            return tuple(vs)
        if h in VECS or h in SETS or h in MAPS:
            if len(vs) == 2 and isinstance(vs[0], It):
                items = self.span(*vs)
            elif h in VECS and isinstance(vs[0], int) and len(vs) <= 2 and "initializer_list" not in (args[0].type or ""):
                if vs[0] > 100000 or vs[0] < 0:
                    raise Fault(f"a sequence of {vs[0]} elements")
                return [copy(vs[1]) if len(vs) == 2 else self.new(targs(base(t))[0]) for _ in range(vs[0])]
            elif len(vs) == 1 and isinstance(vs[0], (list, Set)):
                items = self.seq(vs[0])
            elif h in SETS and callable(vs[0]):
                raise Unknown("comparator")
            else:
                raise Unknown(f"constructor of {h}")
            if h in VECS:
                return [copy(x) for x in items]
            if h in SETS:
                return Set(SETS[h], items)
            m = self.new(t)
            for x in items:
                m.d.setdefault(x[0], copy(x[1]))
            return m
        f = self.P.callee(n)
        r = self.P.recs.get(base(t))
        if f is not None and f.body is not None and r is not None and f.rel.startswith(("lib/", "/verif")):
            o = self.object(r, False)
            e = self.bindparams(f.params, args, vs, env)
            save, self.this = self.this, o
            for i in f.inits:
                if i.n in o.f and i.e is not None:
                    o.f[i.n] = copy(self.val(i.e, e))
            try:
                self.stmt(f.body, e)
            except Ret:
                pass
            self.this = save
            return o
        if len(vs) == 1 and base(t) in INTS:
            return vs[0]
        raise Unknown(f"constructor of {base(t)}")

    def span(self, a, b):
        if not (isinstance(a, It) and isinstance(b, It)) or a.c is not b.c:
            raise Unknown("range")
        if isinstance(a.c, list):
            if a.p > b.p:
                raise Fault("a reversed range")
            return a.c[a.p:b.p]
        s = self.seq(a.c)
        ks = a.c.keys()
        i = len(ks) if a.p == END else ks.index(a.p)
        j = len(ks) if b.p == END else ks.index(b.p)
        return s[i:j]

    # -- calls -----------------------------------------------------------------
    def bindparams(self, params, nodes, vals, env):
        e = {}
        for i, p in enumerate(params):
            t = p.type or ""
            if i < len(vals):
                if "&" in t and nodes is not None and nodes[i] is not None and "const" not in t:
                    e[p.d["id"]] = self.loc(nodes[i], env)
                elif "&" in t:
                    e[p.d["id"]] = ([vals[i]], 0)
                else:
                    e[p.d["id"]] = ([copy(vals[i])], 0)
        return e

    def callfn(self, f, vals, this=None, nodes=None, env=None):
        if self.depth > 60:
            raise Fault("the recursion does not come to an end")
        if len(f.params) != len(vals):
            raise Unknown("argument count")
        e = self.bindparams(f.params, nodes, vals, env or {})
        save, self.this = self.this, this
        self.depth += 1
        try:
            self.stmt(f.body, e)
            r = None
        except Ret as x:
            r = x.v
            if "&" not in (f.ret or ""):
                r = copy(r)
                if isinstance(r, int):
                    r = wrap(r, f.ret)
        finally:
            self.this = save
            self.depth -= 1
        return r

    def apply(self, fv, vals, nodes=None, env=None):
        if fv is None:
            raise Fault("an empty function is called")
        if callable(fv):
            return fv(*vals)
        if not isinstance(fv, Lam):
            raise Unknown("callee")
        if self.depth > 60:
            raise Fault("the recursion does not come to an end")
        n = fv.n
        cand = [n] if not n.d.get("generic") else [x for x in (n.specs or []) if isinstance(x, prog.N)]
        cand = [x for x in cand if x.body is not None and len(x.params or []) == len(vals)]
        if len(cand) != 1:
            raise Unknown("lambda")
        x = cand[0]
        e = dict(fv.env)
        e.update(self.bindparams(x.params or [], nodes, vals, env or {}))
        save, self.this = self.this, fv.this
        self.depth += 1
        try:
            self.stmt(x.body, e)
            return None
        except Ret as r:
            return r.v
        finally:
            self.this = save
            self.depth -= 1

    def less(self, a, b, cmp=None):
        if cmp is not None:
            return self.truth(self.apply(cmp, [a, b]))
        if isinstance(a, Obj):
            fs = [f for f in self.P.all if f.name == "operator<" and f.cls == a.cls and not f.dep]
            if len(fs) != 1:
                raise Unknown("order")
            return self.truth(self.callfn(fs[0], [b], this=a))
        return a < b

    def sort(self, l, cmp=None):
        out = []
        for x in l:
            i = len(out)
            while i and self.less(x, out[i - 1], cmp):
                i -= 1
            out.insert(i, x)
        if cmp is not None:
            for x in out:
                if self.less(x, x, cmp):
                    raise Fault("the order used for sorting is not irreflexive")
        return out

    def call(self, n, env):
        op = n.op if n.k == "OpCall" else None
        args = [a for a in n.args or []]
        f = self.P.callee(n)
        if f is not None and f.body is not None and f.rel.startswith("lib/"):
            if n.k == "MCall":
                o = self.ev(n.obj, env) if n.obj is not None else self.this
                if isinstance(o, It):
                    o = self.deref(o)
                vals = [self.val(a, env) for a in args]
                if isinstance(o, Obj):
                    return self.callfn(f, vals, o, args, env)
                raise Unknown(f"object of {f.name}")
            if n.k == "OpCall" and f.cls:
                o = self.val(args[0], env)
                return self.callfn(f, [self.val(a, env) for a in args[1:]], o, args[1:], env)
            return self.callfn(f, [self.val(a, env) for a in args], None, args, env)
        if op == "()":
            fv = self.val(args[0], env)
            return self.apply(fv, [self.val(a, env) for a in args[1:]], args[1:], env)
        if op == "[]":
            c, i = self.loc(n, env)
            return c[i]
        if op in ("++", "--"):
            return self.unary(n, args[0], op, len(args) > 1, env)
        if op in ("*", "->") and len(args) == 1:
            return self.deref(self.val(args[0], env))
        if op in ("!", "-") and len(args) == 1:
            return self.unary(n, args[0], op, False, env)
        if op in ("+=", "-=") and len(args) == 2:
            c, i = self.loc(args[0], env)
            c[i] = self.arith(op[0], c[i], self.val(args[1], env))
            return c[i]
        if op and len(args) == 2:
            return self.arith(op, self.val(args[0], env), self.val(args[1], env))
        if n.k == "MCall":
            return self.method(n, args, env)
        q = n.q or n.n or ""
        sh = q.split("::")[-1]
        if sh in ("move", "forward", "as_const", "ref", "cref") and len(args) == 1:
            return self.ev(args[0], env)
        if sh == "max" and not args or sh == "min" and not args:
            w = INTS.get(base(n.type))
            if w is None:
                raise Unknown("limits")
            return (1 << (w[0] - w[1])) - 1 if sh == "max" else -(1 << (w[0] - 1)) if w[1] else 0
        if sh == "failure":
            return FAIL
        if sh == "success":
            return 1
        vs = [self.val(a, env) for a in args]
        if sh in ("failed", "succeeded") and len(vs) == 1:
            return int((vs[0] is FAIL) == (sh == "failed"))
        if sh in ("min", "max") and len(vs) == 2 and all(isinstance(v, int) for v in vs):
            return min(vs) if sh == "min" else max(vs)
        if sh in ("make_pair",):
            return tuple(copy(v) for v in vs)
        if sh in ("inserter",) and len(vs) == 2:
            return Ins(vs[0], None)
        if sh in ("back_inserter",):
            return Ins(vs[0], END)
        if sh == "swap" and len(vs) == 2:
            (c, i), (d, j) = self.loc(args[0], env), self.loc(args[1], env)
            c[i], d[j] = d[j], c[i]
            return None
        if sh in ("begin", "end") and len(vs) == 1:
            return self.iters(vs[0], sh)
        if sh in ("sort", "stable_sort"):
            if isinstance(vs[0], It):
                c = vs[0].c
                i, j = vs[0].p, vs[1].p
                cmp = vs[2] if len(vs) > 2 else None
            else:
                c, i, j = vs[0], 0, len(vs[0])
                cmp = vs[1] if len(vs) > 1 else None
            if not isinstance(c, list):
                raise Unknown("sort")
            c[i:j] = self.sort(c[i:j], cmp)
            return None
        if sh == "reverse":
            if len(vs) == 2 and isinstance(vs[0].c, list):
                c = vs[0].c
                c[vs[0].p:vs[1].p] = c[vs[0].p:vs[1].p][::-1]
                return None
            return self.seq(vs[0])[::-1]
        if sh in ("find", "count", "is_contained"):
            if isinstance(vs[0], It):
                c, l, i0 = vs[0].c, self.span(vs[0], vs[1]), vs[0].p
                last = vs[1]
            else:
                c, l, i0 = vs[0], self.seq(vs[0]), 0
                last = self.iters(c, "end")
            if sh == "is_contained":
                return int(vs[1] in l)
            if sh == "count":
                return l.count(vs[-1])
            if vs[-1] not in l:
                return last
            return It(c, i0 + l.index(vs[-1])) if isinstance(c, list) else It(c, vs[-1])
        if sh in ("any_of", "all_of", "none_of", "count_if", "find_if", "for_each", "copy_if", "copy", "transform", "remove_if", "erase_if"):
            if isinstance(vs[0], It):
                c, l, rest = vs[0].c, self.span(vs[0], vs[1]), vs[2:]
            else:
                c, l, rest = vs[0], self.seq(vs[0]), vs[1:]
            if sh in ("copy_if", "copy", "transform"):
                out = rest[0]
                for x in l:
                    if sh == "copy_if" and not self.truth(self.apply(rest[1], [x])):
                        continue
                    if sh == "transform":
                        x = self.apply(rest[1], [x])
                    if not isinstance(out, Ins):
                        raise Unknown("output")
                    if isinstance(out.c, list):
                        out.c.append(copy(x))
                    elif isinstance(out.c, Set):
                        out.c.d[x] = None
                    else:
                        out.c.d.setdefault(x[0], copy(x[1]))
                return out
            if sh == "erase_if":
                for x in l:
                    if self.truth(self.apply(rest[0], [x])):
                        if isinstance(c, list):
                            c.remove(x)
                        else:
                            c.d.pop(x[0] if isinstance(c, Map) else x)
                return None
            if sh == "remove_if":
                raise Unknown("remove_if")
            if sh == "for_each":
                for x in l:
                    self.apply(rest[0], [x])
                return None
            if sh == "count_if":
                return sum(self.truth(self.apply(rest[0], [x])) for x in l)
            for i, x in enumerate(l):
                t = self.truth(self.apply(rest[0], [x]))
                if sh == "any_of" and t:
                    return 1
                if sh == "all_of" and not t:
                    return 0
                if sh == "none_of" and t:
                    return 0
                if sh == "find_if" and t:
                    return It(c, i + (vs[0].p if isinstance(vs[0], It) else 0)) if isinstance(c, list) else It(c, x if isinstance(c, Set) else x[0])
            if sh == "find_if":
                return vs[1] if isinstance(vs[0], It) else self.iters(c, "end")
            return int(sh != "any_of")
        if sh in ("next", "prev") and isinstance(vs[0], It):
            return self.advance(vs[0], (vs[1] if len(vs) > 1 and isinstance(vs[1], int) else 1) * (1 if sh == "next" else -1))
        if sh == "distance" and len(vs) == 2:
            return len(self.span(*vs))
        if sh in ("max_element", "min_element") and isinstance(vs[0], It) and len(vs) <= 3:
            l = self.span(vs[0], vs[1])
            if not l:
                return vs[1]
            b = 0
            for i, x in enumerate(l):
                if self.less(l[b], x, vs[2] if len(vs) > 2 else None) if sh == "max_element" else self.less(x, l[b], vs[2] if len(vs) > 2 else None):
                    b = i
            return It(vs[0].c, vs[0].p + b) if isinstance(vs[0].c, list) else It(vs[0].c, vs[0].c.keys()[b])
        if sh in ("to_vector", "make_range", "ArrayRef"):
            return self.seq(vs[0])
        if sh in ("seq",) and all(isinstance(v, int) for v in vs):
            return list(range(*vs))
        if sh in ("is_sorted",) and isinstance(vs[0], It):
            l = self.span(vs[0], vs[1])
            return int(l == sorted(l))
        raise Unknown(f"call of {q} at line {n.line}")

    def iters(self, c, nm):
        if nm in ("begin", "cbegin"):
            if isinstance(c, list):
                return It(c, 0)
            ks = c.keys()
            return It(c, ks[0] if ks else END)
        return It(c, len(c)) if isinstance(c, list) else It(c, END)

    def method(self, n, args, env):
        nm = n.n
        o = self.ev(n.obj, env)
        if nm in ("value", "has_value") or nm == "operator bool":
            if nm == "value":
                return self.deref(o)
            if isinstance(o, int) and nm != "has_value":
                return int(bool(o))
            return int(o is not None and o is not FAIL)
        if nm.startswith("operator ") and "Result" in nm:
            return o
        if nm in ("succeeded", "failed") and not args:
            return int((o is FAIL) == (nm == "failed"))
        if n.arrow and isinstance(o, It):
            o = self.deref(o)
        if o is FAIL:
            raise Fault("the value of a failure is used")
        vs = [self.val(a, env) for a in args if a.k != "DefArg"]
        if isinstance(o, Map):
            if nm == "at" or nm == "lookup":
                if vs[0] not in o.d:
                    if nm == "lookup":
                        return self.new(o.vt)
                    raise Fault("at() for a key that is absent")
                return o.d[vs[0]]
            if nm in ("count", "contains"):
                return int(vs[0] in o.d)
            if nm in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                if nm == "insert" and len(vs) == 2 and isinstance(vs[0], It):
                    for k, v in self.span(*vs):
                        o.d.setdefault(k, copy(v))
                    return None
                kv = vs if len(vs) == 2 else vs[0] if len(vs) == 1 and isinstance(vs[0], tuple) else (vs[0], self.new(o.vt)) if nm == "try_emplace" else None
                if kv is None:
                    raise Unknown("insert")
                fresh = kv[0] not in o.d
                if fresh or nm == "insert_or_assign":
                    o.d[kv[0]] = copy(kv[1])
                return (It(o, kv[0]), int(fresh))
            if nm == "erase":
                return self.erase(o, vs)
            if nm == "find":
                return It(o, vs[0] if vs[0] in o.d else END)
        if isinstance(o, Set):
            if nm in ("count", "contains"):
                return int(vs[0] in o.d)
            if nm in ("insert", "emplace"):
                if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                    for x in self.span(*vs):
                        o.d[x] = None
                    return None
                if len(vs) == 1 and isinstance(vs[0], list):
                    for x in vs[0]:
                        o.d[x] = None
                    return None
                if len(vs) != 1:
                    raise Unknown("insert")
                fresh = vs[0] not in o.d
                o.d.setdefault(vs[0])
                return int(fresh) if "SetVector" in (n.d.get("cls") or "") else (It(o, vs[0]), int(fresh))
            if nm == "erase" or nm == "remove":
                return self.erase(o, vs)
            if nm == "find":
                return It(o, vs[0] if vs[0] in o.d else END)
            if nm in ("back", "front", "pop_back", "pop_back_val"):
                ks = o.keys()
                if not ks:
                    raise Fault(f"{nm} of an empty set")
                x = ks[0] if nm == "front" else ks[-1]
                if nm.startswith("pop"):
                    o.d.pop(x)
                return x
        if isinstance(o, (Map, Set)):
            if nm == "size":
                return len(o.d)
            if nm == "empty":
                return int(not o.d)
            if nm == "clear":
                o.d.clear()
                return None
            if nm in ("begin", "end", "cbegin", "cend"):
                return self.iters(o, nm)
            if nm in ("rbegin",):
                return It(self.seq(o)[::-1], 0)
            if nm in ("reserve",):
                return None
            if nm == "swap" and type(vs[0]) is type(o):
                o.d, vs[0].d = vs[0].d, o.d
                return None
            if nm == "takeVector":
                r = o.keys(); o.d.clear()
                return r
        if isinstance(o, list):
            if nm in ("push_back", "emplace_back"):
                if len(vs) != 1:
                    raise Unknown(nm)
                o.append(copy(vs[0]))
                return o[-1]
            if nm in ("pop_back", "pop_back_val", "pop_front"):
                if not o:
                    raise Fault(f"{nm} of an empty sequence")
                return o.pop(0 if nm == "pop_front" else -1)
            if nm == "push_front":
                o.insert(0, copy(vs[0]))
                return None
            if nm in ("front", "back", "at"):
                c, i = self.loc(n, env)
                return c[i]
            if nm == "size":
                return len(o)
            if nm == "empty":
                return int(not o)
            if nm == "clear":
                o.clear()
                return None
            if nm == "reserve":
                return None
            if nm in ("begin", "end", "cbegin", "cend"):
                return self.iters(o, nm)
            if nm in ("rbegin", "rend"):
                raise Unknown("reverse iterators")
            if nm == "resize":
                t = targs(base(n.obj.type))
                while len(o) > vs[0]:
                    o.pop()
                while len(o) < vs[0]:
                    o.append(copy(vs[1]) if len(vs) > 1 else self.new(t[0]))
                return None
            if nm == "insert" and len(vs) == 2 and isinstance(vs[0], It):
                o.insert(vs[0].p, copy(vs[1]))
                return It(o, vs[0].p)
            if nm == "insert" and len(vs) == 3 and isinstance(vs[1], It):
                o[vs[0].p:vs[0].p] = [copy(x) for x in self.span(vs[1], vs[2])]
                return It(o, vs[0].p)
            if nm == "append" and vs:
                o.extend(copy(x) for x in (self.span(*vs) if len(vs) == 2 else self.seq(vs[0])))
                return None
            if nm == "erase":
                return self.erase(o, vs)
            if nm == "assign" and len(vs) == 2 and isinstance(vs[0], It):
                o[:] = [copy(x) for x in self.span(*vs)]
                return None
            if nm == "swap":
                o[:], vs[0][:] = list(vs[0]), list(o)
                return None
        if isinstance(o, Que):
            if nm in ("push", "emplace"):
                if len(vs) != 1:
                    raise Unknown(nm)
                o.l.append(copy(vs[0]))
                return None
            if nm == "empty":
                return int(not o.l)
            if nm == "size":
                return len(o.l)
            if nm in ("front", "top", "back", "pop"):
                if not o.l:
                    raise Fault(f"{nm} of an empty queue")
                if o.kind == "priority_queue":
                    b = 0
                    for i in range(1, len(o.l)):
                        if self.less(o.l[b], o.l[i]):
                            b = i
                elif o.kind == "stack":
                    b = len(o.l) - 1
                else:
                    b = len(o.l) - 1 if nm == "back" else 0
                return o.l.pop(b) if nm == "pop" else o.l[b]
        raise Unknown(f"method {nm} at line {n.line}")

    def erase(self, o, vs):
        if len(vs) == 1 and not isinstance(vs[0], It):
            r = vs[0] in o.d
            o.d.pop(vs[0], None)
            return int(r)
        if len(vs) == 1:
            if isinstance(o, list):
                if not 0 <= vs[0].p < len(o):
                    raise Fault("erasing the end of a sequence")
                o.pop(vs[0].p)
                return vs[0]
            if vs[0].p == END:
                raise Fault("erasing the end of a container")
            nx = self.advance(vs[0], 1)
            o.d.pop(vs[0].p)
            return nx
        if len(vs) == 2 and isinstance(o, list):
            del o[vs[0].p:vs[1].p]
            return vs[0]
        raise Unknown("erase")

    # -- statements ---------------------------------------------------------------
    def stmt(self, n, env):
        if n is None:
            return
        self.tick()
        k = n.k
        if k == "Block":
            for c in n.s or []:
                self.stmt(c, env)
        elif k == "Decl":
            for v in n.v or []:
                self.decl(v, env)
        elif k == "If":
            if n.init is not None:
                self.stmt(n.init, env)
            if n.cvar is not None:
                self.decl(n.cvar, env)
            if self.truth(self.val(n.c, env)):
                self.stmt(n.a, env)
            elif n.b is not None:
                self.stmt(n.b, env)
        elif k in ("While", "For", "Do"):
            if k == "For" and n.init is not None:
                self.stmt(n.init, env)
            first = k == "Do"
            while True:
                self.tick()
                if not first and n.c is not None and not self.truth(self.val(n.c, env)):
                    break
                first = False
                try:
                    self.stmt(n.body, env)
                except Brk:
                    break
                except Cont:
                    pass
                if k == "For" and n.inc is not None:
                    self.ev(n.inc, env)
                if k == "Do" and not self.truth(self.val(n.c, env)):
                    break
        elif k == "RFor":
            c = self.val(n.range, env)
            if isinstance(c, list):
                i = 0
                size = len(c)
                while i < len(c):
                    self.iterate(n, env, c, i)
                    if self.stop:
                        return
                    if len(c) != size:
                        raise Fault("a sequence is resized while it is being iterated")
                    i += 1
            elif isinstance(c, (Set, Map)):
                ks = c.keys()
                while ks:
                    x = ks[0]
                    self.iterate(n, env, [(x, c.d[x])] if isinstance(c, Map) else [x], 0, c if isinstance(c, Map) else None)
                    if self.stop:
                        return
                    if x not in c.d:
                        raise Fault("an element is erased from a container while it is being iterated")
                    ks = c.keys()
                    ks = ks[ks.index(x) + 1:]
            else:
                raise Unknown("range")
        elif k == "Return":
            raise Ret(self.val(n.e, env) if n.e is not None else None)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Nop":
            pass
        elif k in ("Switch", "Case", "Default", "Try", "Label", "Goto"):
            raise Unknown(k)
        else:
            self.ev(n, env)

    stop = False

    def iterate(self, n, env, c, i, m=None):
        self.stop = False
        v = n.var
        b = v.bind
        if "&" in (v.type or "") or b:
            env[v.d["id"]] = (c, i) if m is None else ([c[i]], 0)
        else:
            env[v.d["id"]] = ([copy(c[i])], 0)
        if b:
            self.bind(v, c[i], env, m)
        try:
            self.stmt(n.body, env)
        except Brk:
            self.stop = True
            return
        except Cont:
            pass
        self.stop = False

    def bind(self, v, x, env, m=None):
        bs = v.bind
        if isinstance(x, Obj):
            x = list(x.f.values())
        if not isinstance(x, (tuple, list)) or len(bs) != len(x):
            raise Unknown("structured binding")
        for j, b in enumerate(bs):
            i = b.d.get("id") if isinstance(b, prog.N) else b.get("id") if isinstance(b, dict) else b
            env[i] = (m.d, x[0]) if m is not None and j == 1 else ([x[j]], 0)

    def decl(self, v, env):
        t = v.type or ""
        i = v.d["id"]
        bs = v.bind
        if v.init is None:
            env[i] = ([self.new(t, zero=base(t) not in INTS)], 0)
            return
        if "&" in t and not bs:
            env[i] = self.loc(v.init, env)
            return
        cell = [UNINIT]
        env[i] = (cell, 0)            # a closure may refer to the variable it initialises
        x = copy(self.val(v.init, env))
        if isinstance(x, int):
            x = wrap(x, t)
        cell[0] = x
        if bs:
            self.bind(v, x, env)
