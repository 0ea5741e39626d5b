"""C07: the adjacency views of the graph containers mirror each other, and derived answers read the current edges.

A relational effect analysis: each method body is reduced, per path, to effects on the adjacency relations over
symbolic vertices (parameters and "any element of row R[a]"), quantified where they occur in a loop; the effects on the
two views must be equal as updates of one edge relation, given that they were mirrors before."""
import os, re
from .prog import N
from . import prog, facts

DRIVER = os.path.join(facts.VERIF, "drivers", "c07_driver.cpp")
MAXP = 400
ADJ = re.compile(r"^(const )?std::(unordered_)?map<int, std::(unordered_)?set<int")


class Giveup(Exception):
    pass


class St:
    __slots__ = ("env", "eff", "facts", "flags", "org")

    def __init__(self, env=None, eff=(), fs=frozenset(), flags=None, org=None):
        self.env, self.eff, self.facts, self.flags, self.org = env or {}, eff, fs, flags or {}, org or {}

    def but(self, **k):
        x = St(dict(self.env), self.eff, self.facts, dict(self.flags), self.org)
        for a, b in k.items():
            setattr(x, a, b)
        return x

    def var(self, i, v):
        x = self.but(); x.env[i] = v
        return x

    def do(self, *e):
        return self.but(eff=self.eff + (e,))

    def fact(self, f, val):
        fs = frozenset(x for x in self.facts if x[0] != f)
        return self.but(facts=fs | {(f, val)})

    def known(self, f):
        for x, v in self.facts:
            if x == f:
                return v
        return None


class Walk:
    """Symbolic execution of effects over one class instantiation."""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.n = 0
        self.stack = []

    def fresh(self):
        self.n += 1
        return self.n

    # -- expressions: list of (value, state) ----------------------------------
    def strip(self, n):
        while n.k in ("Cast", "Paren", "Temp", "Cleanup") and n.e is not None:
            n = n.e
        return n

    def ev(self, n, s):
        n = self.strip(n)
        k = n.k
        if k in ("Int",):
            try:
                return [(("c", int(n.v)), s)]
            except (TypeError, ValueError):
                return [(None, s)]
        if k == "Bool":
            return [(("c", int(n.v in (True, 1, "1", "true", "True"))), s)]
        if k == "Ref":
            i = n.d.get("id")
            return [(s.env.get(i), s)]
        if k == "This":
            return [(("this",), s)]
        if k == "Mem":
            b = self.strip(n.base) if n.base is not None else None
            if b is None or b.k == "This":
                t = re.sub(r"^const ", "", n.type or "")
                if t == "bool":
                    return [(s.flags.get(n.n, ("flag", n.n)), s)]
                if ADJ.match(t):
                    return [(("map", n.n), s)]
                return [(("mem", n.n), s)]
            r = []
            for v, s1 in self.ev(b, s):
                if n.n == "second" and v is not None and v[0] == "entry":
                    r.append((("row", v[1], v[2]), s1))
                elif n.n == "first" and v is not None and v[0] == "entry":
                    r.append((v[2], s1))
                elif n.n in ("first", "second") and v is not None and v[0] == "pair":
                    r.append((v[1 if n.n == "first" else 2], s1))
                else:
                    r.append((None, s1))
            return r
        if k == "Un":
            if n.op == "!":
                return [(self.neg(v), s1) for v, s1 in self.ev(n.a, s)]
            if n.op == "*":
                return [(self.deref(v), s1) for v, s1 in self.ev(n.a, s)]
            if n.op == "&":
                return self.ev(n.a, s)
            return self.opaque([n.a], s)
        if k == "Bin":
            if n.op in ("&&", "||"):
                out = []
                for v, s1 in self.ev(n.a, s):
                    for t, s2 in self.branch(v, s1):
                        if t == (n.op == "||"):
                            out.append((("c", int(t)), s2))
                        else:
                            out += self.ev(n.b, s2)
                return out
            out = []
            for a, s1 in self.ev(n.a, s):
                for b, s2 in self.ev(n.b, s1):
                    out.append((self.cmp(n.op, a, b), s2))
            return out
        if k == "Cond":
            out = []
            for v, s1 in self.ev(n.c, s):
                for t, s2 in self.branch(v, s1):
                    out += self.ev(n.a if t else n.b, s2)
            return out
        if k == "Assign":
            out = []
            for v, s1 in self.ev(n.b, s):
                l = self.strip(n.a)
                if l.k == "Ref" and n.op == "=":
                    out.append((v, s1.var(l.d.get("id"), v)))
                elif l.k == "Mem" and re.sub("^const ", "", l.type or "") == "bool" and n.op == "=":
                    x = s1.but(); x.flags[l.n] = v if v is not None else ("?",)
                    out.append((v, x))
                else:
                    self.touch(l)
                    out.append((v, s1))
            return out
        if k == "Lambda":
            return [(("lambda", n), s)]
        if k in ("Ctor", "InitList", "ZeroInit"):
            a = [x for x in n.args or [] if x.k != "DefArg"]
            t = re.sub(r"^const ", "", n.type or n.d.get("cls") or "")
            if not a:
                return [(("local", self.fresh()) if re.match(r"std::(set|vector|unordered_set)<", t) else None, s)]
            vs = self.evs(a, s)
            out = []
            for v, s1 in vs:
                if len(v) == 1:
                    out.append((v[0], s1))
                elif t.startswith("std::pair") and len(v) == 2:
                    out.append((("pair", v[0], v[1]), s1))
                elif len(v) == 2 and v[0] is not None and v[0][0] == "beg" and v[1] == ("end", v[0][1]):
                    out.append((v[0][1], s1))
                else:
                    out.append((None, s1))
            return out
        if k in ("MCall", "Call", "OpCall"):
            return self.call(n, s)
        if k == "DefArg":
            return [(None, s)]
        if k in ("Null", "Str", "Float", "Char"):
            return [(None, s)]
        self.touch(n)
        return [(None, s)]

    def evs(self, l, s):
        out = [((), s)]
        for a in l:
            out = [(v + (w,), s2) for v, s1 in out for w, s2 in self.ev(a, s1)]
        return out

    def opaque(self, l, s):
        for a in l:
            if a is not None:
                self.touch(a)
        return [(None, s)]

    def touch(self, n):
        """An unmodelled use: fatal if it can change an adjacency relation or the vertex set."""
        for x in n.walk():
            if x.k == "Mem" and (ADJ.match(re.sub("^const ", "", x.type or "")) or x.n == "vertices") and not (x.type or "").startswith("const "):
                raise Giveup(f"line {n.line}: {n.k}")

    def deref(self, v):
        if v is not None and v[0] == "it":
            return ("entry", v[1], v[2])
        return None

    def neg(self, v):
        if v is None:
            return None
        if v[0] == "c":
            return ("c", int(not v[1]))
        if v[0] == "not":
            return v[1]
        return ("not", v)

    def cmp(self, op, a, b):
        if a is None or b is None:
            return None
        if b[0] != "c" and a[0] == "c":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "c" and b[0] == "c":
            return ("c", int({"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}.get(op, 0)))
        if b[0] == "c" and a[0] in ("in", "haskey", "edge"):      # counts of set members are 0 or 1
            t = {("==", 0): False, ("!=", 0): True, (">", 0): True, ("==", 1): True, (">=", 1): True, ("<", 1): False, ("!=", 1): False}.get((op, b[1]))
            return None if t is None else a if t else ("not", a)
        if b[0] == "c" and a[0] == "size":
            e = ("empty", a[1])
            t = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<", 1): True, (">=", 1): False}.get((op, b[1]))
            return None if t is None else e if t else ("not", e)
        if op in ("==", "!=") and {a[0], b[0]} == {"it", "mend"}:
            i = a if a[0] == "it" else b
            h = ("haskey", i[1], i[2])
            return ("not", h) if op == "==" else h
        if op in ("==", "!=") and {a[0], b[0]} == {"sit", "end"}:
            i = a if a[0] == "sit" else b
            h = self.member(i[1], i[2])
            return None if h is None else ("not", h) if op == "==" else h
        if op in ("==", "!="):
            e = ("eq",) + tuple(sorted((a, b), key=str))
            if a == b:
                e = ("c", 1)
            return e if op == "==" else self.neg(e)
        return None

    def member(self, c, x):
        if c is None or x is None:
            return None
        if c[0] == "row":
            return ("edge", c[1], c[2], x)
        if c == ("mem", "vertices"):
            return ("in", x)
        return None

    def branch(self, v, s):
        if v is None:
            return [(True, s), (False, s)]
        if v[0] == "c":
            return [(bool(v[1]), s)]
        if v[0] == "not":
            return [(not t, s1) for t, s1 in self.branch(v[1], s)]
        if v[0] == "flag" or v[0] in ("in", "haskey", "edge", "empty", "eq"):
            k = s.known(v)
            if k is not None:
                return [(k, s)]
            if v[0] == "haskey" and s.known(("in", v[2])) is False:
                pass
            out = []
            for t in (True, False):
                x = s.fact(v, t)
                if v[0] == "edge" and t:
                    x = x.fact(("in", v[2]), True).fact(("in", v[3]), True)
                if v[0] == "flag":
                    x.flags[v[1]] = ("c", int(t))
                out.append((t, x))
            return out
        return [(True, s), (False, s)]

    # -- calls ----------------------------------------------------------------
    def row(self, v):
        return v is not None and v[0] == "row"

    def call(self, n, s):
        args = [a for a in n.args or [] if a.k != "DefArg"]
        name = n.n
        if n.k == "MCall":
            obj = self.strip(n.obj) if n.obj is not None else None
            f = self.P.callee(n)
            if obj is not None and obj.k == "This" and f is not None and f.body is not None:
                out = []
                for vs, s1 in self.evs(args, s):
                    out += self.inline(f, vs, s1)
                return out
            out = []
            for o, s1 in (self.ev(obj, s) if obj is not None else [(None, s)]):
                for vs, s2 in self.evs(args, s1):
                    out += self.method(n, name, o, vs, s2)
            return out
        if n.k == "OpCall":
            out = []
            for vs, s1 in self.evs(args, s):
                if n.op == "[]" and len(vs) == 2 and vs[0] is not None and vs[0][0] == "map":
                    if vs[1] is None:
                        raise Giveup(f"line {n.line}: row of an unknown vertex")
                    out.append((("row", vs[0][1], vs[1]), s1))
                elif n.op in ("==", "!=") and len(vs) == 2:
                    out.append((self.cmp(n.op, vs[0], vs[1]), s1))
                elif n.op == "->" and len(vs) == 1:
                    out.append((self.deref(vs[0]), s1))
                elif n.op == "*" and len(vs) == 1:
                    out.append((self.deref(vs[0]), s1))
                elif n.op == "()" and vs and vs[0] is not None and vs[0][0] == "lambda":
                    out += self.lam(vs[0][1], vs[1:], s1)
                elif n.op == "=" and len(vs) == 2:
                    l = self.strip(args[0])
                    if l.k == "Ref" and (s1.env.get(l.d.get("id")) or ("",))[0] not in ("row", "map"):
                        out.append((vs[1], s1.var(l.d.get("id"), vs[1])))
                    else:
                        self.touch(n)
                        if any(self.row(v) for v in vs[:1]):
                            raise Giveup(f"line {n.line}: row assigned")
                        out.append((None, s1))
                else:
                    if any(v is not None and v[0] in ("row", "map") for v in vs):
                        raise Giveup(f"line {n.line}: operator {n.op}")
                    out.append((None, s1))
            return out
        f = self.P.callee(n)
        if f is not None and f.body is not None and f.rel.startswith("lib/Utils/Graph") and not n.obj:
            out = []
            for vs, s1 in self.evs(args, s):
                out += self.inline(f, vs, s1)
            return out
        q = n.d.get("q") or ""
        out = []
        for vs, s1 in self.evs(args, s):
            out += self.algo(n, name, q, args, vs, s1)
        return out

    def algo(self, n, name, q, args, vs, s):
        if name in ("sort", "stable_sort", "reverse") and q.startswith(("std::", "llvm::")):
            return [(None, s)]
        if name in ("move", "forward", "as_const") and vs:
            return [(vs[0], s)]
        if name in ("make_pair",) and len(vs) == 2:
            return [(("pair",) + tuple(vs), s)]
        if name == "inserter" and vs and vs[0] is not None:
            return [(("ins", vs[0]), s)]
        if name == "is_contained" and len(vs) == 2:
            return [(self.member(vs[0], vs[1]), s)]
        if name == "copy_if" and vs and vs[-1] is not None and vs[-1][0] == "lambda":
            src = vs[0] if len(vs) == 3 else vs[0][1] if vs[0] is not None and vs[0][0] == "beg" else None
            dst = vs[-2]
            if src is not None and dst is not None and dst[0] == "ins":
                return [(None, self.loop(src, s, lambda el, s1: self.copyif(vs[-1][1], el, dst[1], s1), n))]
        if name == "for_each" and len(vs) == 2 and vs[1] is not None and vs[1][0] == "lambda":
            return [(None, self.loop(vs[0], s, lambda el, s1: [s2 for _, s2 in self.lam(vs[1][1], [el], s1)], n))]
        for a in args:
            self.touch(a)
        if any(v is not None and v[0] in ("row", "lambda") for v in vs):
            raise Giveup(f"line {n.line}: call of {name}")
        return [(None, s)]

    def copyif(self, lam, el, dst, s):
        out = []
        for v, s1 in self.lam(lam, [el], s):
            for t, s2 in self.branch(v, s1):
                out.append(s2.do("put", dst, el) if t else s2)
        return out

    def lam(self, l, vs, s):
        if l.body is None:
            specs = [x for x in (l.specs or []) if isinstance(x, N) and x.body is not None]
            if len(specs) != 1:
                raise Giveup(f"line {l.line}: generic lambda")
            l = specs[0]
        ps = l.params or []
        if len(ps) != len(vs):
            raise Giveup(f"line {l.line}: lambda parameters")
        if l in self.stack:
            raise Giveup(f"line {l.line}: recursive lambda")
        x = s.but()
        for p, v in zip(ps, vs):
            x.env[p.d["id"]] = v
        self.stack.append(l)
        r = [(v, s1) for k, s1, v in self.stmt(l.body, x)]
        self.stack.pop()
        return r

    def inline(self, f, vs, s):
        if f in self.stack or len(self.stack) > 6:
            raise Giveup(f"recursion in {f.name}")
        self.stack.append(f)
        x = s.but()
        for p, v in zip(f.params, vs):
            x.env[p.d["id"] if isinstance(p, N) else p.id] = v
        r = self.stmt(f.body, x)
        self.stack.pop()
        if len(r) > MAXP:
            raise Giveup("too many paths")
        return [(v, s1) for k, s1, v in r]

    def method(self, n, name, o, vs, s):
        if o is None:
            for a in n.args or []:
                if a.k != "DefArg":
                    self.touch(a)
            if any(self.row(v) for v in vs):
                raise Giveup(f"line {n.line}: call of {name}")
            return [(None, s)]
        v0 = vs[0] if vs else None
        if o[0] == "map":
            if name == "at":
                return [(("row", o[1], v0), s)] if v0 is not None else self.no(n)
            if name in ("count", "contains"):
                return [(("haskey", o[1], v0) if v0 is not None else None, s)]
            if name == "find":
                return [(("it", o[1], v0) if v0 is not None else None, s)]
            if name in ("end", "cend"):
                return [(("mend", o[1]), s)]
            if name == "erase":
                k = v0[2] if v0 is not None and v0[0] == "it" else v0
                return [(None, s.do("delrow", o[1], k))] if k is not None else self.no(n)
            if name in ("try_emplace", "emplace", "insert") and len(vs) == 1 and v0 is not None and v0[0] != "pair":
                return [(None, s)]
            if name in ("size", "empty"):
                return [(None, s)]
            return self.no(n)
        if o[0] == "row":
            if name in ("insert", "emplace") and len(vs) == 1:
                return [(None, s.do("add", o[1], o[2], v0))] if v0 is not None else self.no(n)
            if name == "erase" and len(vs) == 1:
                k = v0[2] if v0 is not None and v0[0] == "sit" else v0
                return [(None, s.do("del", o[1], o[2], k))] if k is not None else self.no(n)
            if name == "clear":
                return [(None, s.do("delrow", o[1], o[2]))]
            if name == "find":
                return [(("sit", o, v0) if v0 is not None else None, s)]
            if name in ("count", "contains"):
                return [(self.member(o, v0), s)]
            if name in ("begin", "cbegin"):
                return [(("beg", o), s)]
            if name in ("end", "cend"):
                return [(("end", o), s)]
            if name == "size":
                return [(("size", o), s)]
            if name == "empty":
                return [(("empty", o), s)]
            return self.no(n)
        if o[0] == "mem":
            if o[1] == "vertices":
                if name in ("insert", "emplace") and len(vs) == 1 and v0 is not None:
                    return [(None, s.do("vadd", v0).fact(("in", v0), True))]
                if name == "erase" and v0 is not None:
                    return [(None, s.do("vdel", v0).fact(("in", v0), False))]
                if name in ("count", "contains"):
                    return [(("in", v0) if v0 is not None else None, s)]
                if name == "find":
                    return [(("sit", o, v0) if v0 is not None else None, s)]
                if name in ("begin", "cbegin", "end", "cend"):
                    return [(("beg" if "beg" in name else "end", o), s)]
                if name == "clear":
                    return self.no(n)
                return [(None, s)]
            if name == "clear":
                return [(None, s.do("mclear", o[1]))]
            if name in ("insert", "emplace") and vs:
                return [(None, s.do("mput", o[1], v0 if len(vs) == 1 else ("pair",) + tuple(vs)))]
            return [(None, s)]
        if o[0] in ("local", "ins"):
            if name in ("insert", "emplace", "push_back", "emplace_back") and len(vs) == 1:
                return [(None, s.do("put", o, v0))]
            if name in ("begin", "cbegin", "end", "cend"):
                return [(("beg" if "beg" in name else "end", o), s)]
            return [(None, s)]
        if any(self.row(v) for v in vs):
            return self.no(n)
        return [(None, s)]

    def no(self, n):
        raise Giveup(f"line {n.line}: {n.n}")

    # -- statements: list of (kind, state, value) -------------------------------
    def stmt(self, n, s):
        if n is None:
            return [("next", s, None)]
        k = n.k
        if k == "Block":
            cur = [("next", s, None)]
            for x in n.s or []:
                nxt = []
                for kd, s1, v in cur:
                    nxt += self.stmt(x, s1) if kd == "next" else [(kd, s1, v)]
                cur = nxt
                if len(cur) > MAXP:
                    raise Giveup("too many paths")
            return cur
        if k == "If":
            cur = [("next", s, None)]
            if n.init is not None:
                cur = self.stmt(n.init, s)
            out = []
            for kd, s0, v0 in cur:
                for v, s1 in self.ev(n.c, s0):
                    for t, s2 in self.branch(v, s1):
                        out += self.stmt(n.a if t else n.b, s2)
            return out
        if k == "Return":
            if n.e is None:
                return [("ret", s, None)]
            return [("ret", s1, v) for v, s1 in self.ev(n.e, s)]
        if k == "Decl":
            cur = [s]
            for v in n.v or []:
                nxt = []
                for s1 in cur:
                    if v.init is None:
                        nxt.append(s1.var(v.d.get("id"), None)); continue
                    nxt += [s2.var(v.d.get("id"), x) for x, s2 in self.ev(v.init, s1)]
                cur = nxt
            return [("next", s1, None) for s1 in cur]
        if k == "RFor":
            out = []
            for r, s1 in self.ev(n.range, s):
                out += [("next", self.loop(r, s1, lambda el, s2: self.body(n, el, s2), n), None)]
            return out
        if k in ("Empty", "Null"):
            return [("next", s, None)]
        if k in ("Continue", "Break"):
            return [(k, s, None)]
        if k in ("While", "For", "DoWhile", "Do", "Switch", "Try", "Goto"):
            self.touch(n)
            for x in n.walk():
                if x.k in ("MCall", "Call"):
                    f = self.P.callee(x)
                    if f is not None and f.cls == self.cls and not x.cm:
                        raise Giveup(f"line {n.line}: loop with calls")
            return [("next", s, None)]
        return [("next", s1, None) for v, s1 in self.ev(n, s)]

    def body(self, n, el, s):
        x = s
        if n.var.d.get("bind"):
            bs = n.var.d["bind"]
            parts = [el[2], ("row", el[1], el[2])] if el is not None and el[0] == "entry" else [None, None]
            x = s.but()
            for b, p in zip(bs, parts):
                i = b.d.get("id") if isinstance(b, N) else b.get("id")
                x.env[i] = p
        else:
            x = s.var(n.var.d.get("id"), el)
        out = []
        for kd, s1, v in self.stmt(n.body, x):
            if kd in ("ret", "Break"):
                raise Giveup(f"line {n.line}: loop left early")
            out.append(s1)
        return out

    def guards(self, o, s0, key):
        return frozenset(f for f in o.facts if f not in s0.facts and key is not None and has(f, key) and f[0][0] == "eq")

    def excused(self, e, o, s1, key):
        """The path o skips the update e because it would change nothing."""
        for f, v in o.facts:
            if f[0] == "edge" and v is (e[0] == "add") and (f[1:] == e[1:4] or f[1] != e[1] and f[2:] == (e[3], e[2])):
                return True                   # the views are mirrors before the call
        if e[0] == "add":
            return False
        return o.known(("haskey", e[1], e[2])) is False or o.known(("empty", ("row",) + e[1:3])) is True

    def loop(self, rng, s, body, n):
        """State after a loop over a row, the vertices or a relation: the effects of its body are quantified."""
        if rng is not None and rng[0] == "local":
            fill = [e for e in s.eff if e[0] == "put" and e[1] == rng]
            if not fill:
                return s                      # still empty
            rng = None
        if self.row(rng):
            if any(e[0] == "delrow" and e[1:] == rng[1:] for e in s.eff) or any(e[0] == "del" and e[1:3] == rng[1:] and e[3] == ("any", rng, frozenset()) for e in s.eff):
                return s                      # emptied before
            el = ("el", self.fresh())
            s0 = s.fact(("in", el), True).fact(("in", rng[2]), True)
        elif rng == ("mem", "vertices"):
            el = ("el", self.fresh())
            s0 = s.fact(("in", el), True)
        elif rng is not None and rng[0] == "map":
            el = ("entry", rng[1], ("el", self.fresh()))
            s0 = s.fact(("in", el[2]), True)
        else:
            el, s0 = None, s
        key = el[2] if el is not None and el[0] == "entry" else el
        outs = body(el, s0)
        eff = []
        flags = None
        for s1 in outs:
            new = s1.eff[len(s.eff):]
            g = frozenset(f for f in s1.facts if f not in s0.facts and key is not None and has(f, key) and f[0][0] == "eq")
            oth = frozenset(f for f in s1.facts if f not in s0.facts and f not in g and f[0][0] in ("empty", "haskey", "edge") and key is not None and has(f, key))
            for e in new:
                q = ("any", rng if rng is not None else ("?", n.line), frozenset(subst(x, key, ("self",)) for x in g))
                e2 = subst(e, key, q) if key is not None else e
                if e[0] == "put" and oth:
                    e2 = e2 + (frozenset(subst(x, key, ("self",)) for x in oth),)
                if not has(e, key):
                    e2 = e2 + (("while", rng),)
                if e[0] in ("add", "del") and any(not self.excused(e, o, s1, key) for o in outs if e not in o.eff[len(s.eff):] and self.guards(o, s0, key) == g):
                    o = [o for o in outs if e not in o.eff[len(s.eff):] and self.guards(o, s0, key) == g and not self.excused(e, o, s1, key)][0]
                    if o.facts <= s1.facts:
                        raise Giveup(f"line {n.line}: an update under a condition that is not understood")
                    e2 = e2 + (("cond",),)
                if e2 not in eff:
                    eff.append(e2)
            fl = {k: v for k, v in s1.flags.items()}
            flags = fl if flags is None else {k: v if flags.get(k) == v else ("?",) for k, v in fl.items()}
        # the body may not run, so a flag it sets is known afterwards only if it already had that value; the effects of
        # the loop, though, come with the flag as the same iteration leaves it
        fl0 = dict(s.flags)
        org = dict(s.org)
        if flags is not None:
            for k in set(flags) | set(fl0):
                if flags.get(k, ("flag", k)) != fl0.get(k, ("flag", k)):
                    fl0[k] = ("?",)
            for e in eff:
                org[e] = flags
        return St(dict(s.env), s.eff + tuple(eff), s.facts, fl0, org)


def has(t, x):
    if x is None:
        return False
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(has(y, x) for y in t)
    return False


def subst(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        return tuple(subst(z, x, y) for z in t)
    if isinstance(t, frozenset):
        return frozenset(subst(z, x, y) for z in t)
    return t


# -- relations ---------------------------------------------------------------
def edge(e, out):
    """Effect on a view as (source, target) of the edge relation."""
    if e[0] == "delrow":
        return (e[2], "*") if e[1] == out else ("*", e[2])
    return (e[2], e[3]) if e[1] == out else (e[3], e[2])


def isany(t, rel, of):
    return isinstance(t, tuple) and t[0] == "any" and t[1] == ("row", rel, of)


def widen(p, out, inn):
    """(a, any of Out(a)) is (a, *), (any of In(b), b) is (*, b); the guard x != c leaves c out."""
    a, b = p
    if isany(b, out, a):
        ex = except_(b)
        return (a, "*") if ex == frozenset() else (a, "*", ex) if ex is not None else p
    if isany(a, inn, b):
        ex = except_(a)
        return ("*", b) if ex == frozenset() else ("*", b, ex) if ex is not None else p
    return p


def except_(t):
    ex = set()
    for f, val in t[2]:
        if f[0] == "eq" and not val and ("self",) in f[1:]:
            ex.add([x for x in f[1:] if x != ("self",)][0] if f[1] != f[2] else None)
        else:
            return None
    return frozenset(ex)


def covers(ps, p):
    """Is the set of deleted pairs p contained in the union of ps?"""
    if p in ps:
        return True
    for q in ps:
        if len(q) == 2 and (q[0] in ("*", p[0])) and (q[1] in ("*", p[1])):
            return True
        if len(q) == 3 and len(p) == 2:
            # q = (a, *) without some targets
            for ax in (0, 1):
                if q[1 - ax] == "*" and q[ax] == p[ax]:
                    rest = [((p[ax], x) if ax == 0 else (x, p[ax])) for x in q[2]]
                    if p[1 - ax] == "*":
                        if all(covers([r for r in ps if r != q], r) for r in rest):
                            return True
                    elif p[1 - ax] not in q[2] and not (isinstance(p[1 - ax], tuple) and p[1 - ax][0] == "any"):
                        return False or None
        if len(q) == 2 and len(p) == 3 and q == p[:2]:
            return True
        if len(q) == 3 and len(p) == 3 and q[:2] == p[:2] and q[2] <= p[2]:
            return True
    return False


def name(t):
    if t == "*":
        return "every vertex"
    if t[0] == "p":
        return t[1]
    if t[0] == "any":
        return f"each element of {name(t[1])}"
    if t[0] == "row":
        return f"{t[1]}[{name(t[2])}]"
    return str(t)


def pname(p):
    return f"{name(p[0])} -> {name(p[1])}"


def run(P, f):
    w = Walk(P, f.cls)
    s = St()
    for p in f.params:
        i = p.d["id"] if isinstance(p, N) else p.id
        s.env[i] = ("p", p.n if isinstance(p, N) else p.name)
    return [(s1, v) for k, s1, v in w.stmt(f.body, s)]


def members(P, f, seen=None):
    """Adjacency members a method reads, through the methods it calls."""
    seen = seen if seen is not None else set()
    if id(f) in seen:
        return set()
    seen.add(id(f))
    out = set()
    for x in f.body.walk():
        if x.k == "Mem" and ADJ.match(re.sub("^const ", "", x.type or "")):
            out.add(x.n)
        if x.k in ("MCall", "Call"):
            g = P.callee(x)
            if g is not None and g.body is not None and g.cls == f.cls:
                out |= members(P, g, seen)
    return out


def check(c):
    c.rule("each method's effects on the two adjacency views, per path, are the same update of one edge relation (given that the views were mirrors before); an edge is added only where both ends are known to be present; removing a vertex removes every edge at it from both views")
    c.rule("a path that changes the edges marks the cached edge list stale; the cached list is returned only when not stale, and rebuilt from empty otherwise")
    c.rule("each adjacency query reads the view and row it is named after")
    P = prog.Program([facts.extract(DRIVER, (), True)])
    fs = [f for f in P.all if not f.dep and f.body is not None and re.match(r"mlir::heir::graph::(Undirected)?Graph<", f.full) and f.rel.endswith("Graph.h")]
    directed = [f for f in fs if "::Graph<" in f.full]
    undirected = [f for f in fs if "::UndirectedGraph<" in f.full]
    if directed:
        check_directed(c, P, directed)
    if undirected:
        check_undirected(c, P, undirected)
    if not directed or not undirected:
        c.undecided("graph containers", "not instantiated: " + facts_err(P))
    else:
        c.need("methods", 12)
    if directed and undirected:
        from . import c28
        c28.sequences(c, P, c.tier == "thorough")
        c.rule("evaluated abstractly over every relation among few opaque vertices, insertions and contractions in turn leave every query answering from the relation they define")
    c.assume.append("vertices are compared by value; a merge function does not change which vertex its argument denotes")
    return c.finish("Graph and UndirectedGraph are instantiated by a driver; each method is reduced to per-path effects on the adjacency relations over symbolic vertices and compared as updates of one edge relation.")


def facts_err(P):
    return "the driver does not instantiate them"


def paths(c, P, f, label):
    try:
        return run(P, f)
    except (Giveup, RecursionError) as e:
        c.undecided(label, str(e)[:100])
        return None


def ends(c, f, label, s, pairs):
    """Both ends of added edges are present."""
    for p in pairs:
        for x in p:
            if isinstance(x, tuple) and x[0] == "any":
                continue                      # elements of rows and of the vertex set are vertices
            k = s.known(("in", x))
            if k is not True:
                pend = any(e[0] == "vadd" and e[1] == x for e in s.eff)
                if not pend:
                    c.bad(f"{label}:guard:{name(x)}", f.where(), f"{label} adds the edge {pname(p)} on a path on which {name(x)} " + ("is not" if k is False else "may not be") + " a vertex")
                    return False
    return True


def check_directed(c, P, fs):
    by = {}
    for f in fs:
        by.setdefault(f.name, []).append(f)
    out = inn = None
    add = [f for f in by.get("addEdge", []) if len(f.params) == 2]
    if len(add) == 1:
        r = paths(c, P, add[0], "Graph::addEdge")
        src = ("p", add[0].params[0].name if not isinstance(add[0].params[0], N) else add[0].params[0].n)
        for s, v in r or []:
            for e in s.eff:
                if e[0] == "add" and e[2] == src:
                    out = e[1]
    maps = sorted(set().union(*[members(P, f) for f in fs]))
    if out is None or len(maps) != 2 or out not in maps:
        c.undecided("Graph", f"adjacency views not recognised ({maps})")
        return
    inn = [m for m in maps if m != out][0]
    c.count("adjacency views", 2)
    stale = cache(c, P, by, out, inn)
    inner = helpers(P, fs)
    for f in fs:
        label = "Graph::" + f.name
        if f in inner:
            continue                          # analysed where it is called
        c.count("methods")
        if f.name.startswith("operator") or f.name in ("Graph", "~Graph"):
            continue
        r = paths(c, P, f, label)
        if r is None:
            continue
        for s, v in r:
            adj = [e for e in s.eff if e[0] in ("add", "del", "delrow")]
            vdel = [e[1] for e in s.eff if e[0] == "vdel"]
            if not adj and not vdel:
                continue
            c.count("effect paths")
            # additions
            A = {m: {(edge(e, out), e[4:]) for e in adj if e[0] == "add" and e[1] == m} for m in maps}
            D = {m: {widen(edge(e, out), out, inn) for e in adj if e[0] in ("del", "delrow") and e[1] == m and not e[4 if e[0] == "del" else 3:]} for m in maps}
            okk = True
            for m, o in ((out, inn), (inn, out)):
                for p, cond in sorted(A[m], key=str):
                    if (p, cond) not in A[o]:
                        c.bad(f"{label}:mirror:{m}:{pname(p)}", f.where(), f"{label} adds the edge {pname(p)} to {m} but not to {o}"); okk = False
                for p in sorted(D[m], key=str):
                    if covers(D[o], p) is False:
                        c.bad(f"{label}:unmirror:{m}:{pname(p)}", f.where(), f"{label} removes the edge {pname(p)}{' (with exceptions)' if len(p) == 3 else ''} from {m} but not from {o}"); okk = False
            for x in vdel:
                for m in maps:
                    for p in ((x, "*"), ("*", x)):
                        if covers(D[m] | (set() if okk else D[inn if m == out else out]), p) is False:
                            c.bad(f"{label}:vertex:{m}", f.where(), f"{label} removes the vertex {name(x)} but leaves edges {pname(p)} in {m}"); okk = False
            okk = ends(c, f, label, s, sorted({p for m in maps for p, _ in A[m]}, key=str)) and okk
            if stale is not None and adj:
                fl = s.flags.get(stale[0])
                left = [e for e in adj if (s.org.get(e) or {}).get(stale[0]) != ("c", stale[1])]
                if fl is None or fl[0] == "flag" or fl[0] == "?" and left:
                    c.bad(f"{label}:stale", f.where(), f"{label} changes the edges on a path on which it does not mark the cached edge list stale"); okk = False
                elif fl == ("c", 1 - stale[1]):
                    c.bad(f"{label}:stale", f.where(), f"{label} changes the edges and marks the cached edge list current"); okk = False
            if f.name == "contractEdge" and len(f.params) >= 2 and v != ("c", 0):
                redirect(c, f, label, s, out, inn, {p for p, x in A[out] if ("cond",) not in x})
            if okk:
                c.ok(f"{label}: views agree")
    queries(c, P, by, out, inn)


def redirect(c, f, label, s, out, inn, A):
    """Contracting a -> b moves the edges of b to a and removes b."""
    a, b = ("p", pn(f, 0)), ("p", pn(f, 1))
    if ("vdel", a) in s.eff:
        c.bad(f"{label}:keeps", f.where(), f"{label} removes {name(a)}, the vertex that remains"); return
    if not any(e[0] == "vdel" for e in s.eff):
        c.bad(f"{label}:removes", f.where(), f"{label} reports success on a path on which {name(b)} stays a vertex"); return
    for nm, want, swap in (("successors", lambda p: p[0] == a and isany(p[1], out, b) and except_(p[1]) in ({a}, {a, b}), lambda p: p[1] == a and isany(p[0], out, b)),
                           ("predecessors", lambda p: p[1] == a and isany(p[0], inn, b) and except_(p[0]) in ({a}, {a, b}), lambda p: p[0] == a and isany(p[1], inn, b))):
        if any(want(p) for p in A):
            c.ok(f"{label} redirects {nm}")
        elif any((p[0] == a and isany(p[1], out, b) if nm[0] == "s" else p[1] == a and isany(p[0], inn, b)) and a not in (except_([x for x in p if x != a][0]) or {a}) or except_([x for x in p if x != a][0]) == frozenset() for p in A):
            c.bad(f"{label}:self:{nm}", f.where(), f"{label} joins {name(a)} to itself when it is one of the {nm} of {name(b)}")
        elif any(swap(p) for p in A):
            c.bad(f"{label}:redirect:{nm}", f.where(), f"{label} reverses the edges of the {nm} of {name(b)} when it moves them to {name(a)}")
        elif not any(isinstance(x, tuple) and x[0] == "any" for p in A for x in p if has(x, b)) or all(has(p, "?") is False for p in A):
            rel = [p for p in A if any(isany(x, out if nm[0] == "s" else inn, b) for x in p)]
            if not rel and all(any(isany(x, m, b) for x in p for m in (out, inn)) for p in A):
                c.bad(f"{label}:redirect:{nm}", f.where(), f"{label} does not move the edges of the {nm} of {name(b)} to {name(a)}")
            else:
                c.undecided(label, f"redirection of {nm}")
        else:
            c.undecided(label, f"redirection of {nm}")


def helpers(P, fs):
    """Methods only other methods of the class call: private in effect."""
    inside, outside = set(), set()
    for g in P.all:
        if g.dep or g.body is None:
            continue
        for x in g.body.walk():
            if x.k in ("MCall", "Call"):
                f = P.callee(x)
                if f is not None and f in fs:
                    (inside if g in fs else outside).add(f)
    return inside - outside


def cache(c, P, by, out, inn):
    """(flag, stale value) of the edge cache."""
    g = by.get("getEdges", [])
    if len(g) != 1:
        c.undecided("Graph::getEdges", "not found"); return None
    f = g[0]
    r = paths(c, P, f, "Graph::getEdges")
    if r is None:
        return None
    res = None
    for s, v in r:
        puts = [e for e in s.eff if e[0] == "mput" or e[0] == "put"]
        fl = [(x[0][1], x[1]) for x in s.facts if x[0][0] == "flag"]
        if puts:
            for e in puts:
                p = e[2]
                if p is None or p[0] != "pair":
                    c.undecided("Graph::getEdges", "pairs"); continue
                ok = None
                for m, a, b in ((out, p[1], p[2]), (inn, p[2], p[1])):
                    if isinstance(a, tuple) and a[0] == "any" and a[1] == ("map", m) and isinstance(b, tuple) and b[0] == "any" and b[1] == ("row", m, a):
                        ok = True
                    if isinstance(b, tuple) and b[0] == "any" and b[1] == ("map", m) and isinstance(a, tuple) and a[0] == "any" and a[1] == ("row", m, b):
                        ok = False
                if ok:
                    c.ok("Graph::getEdges lists the edges of the relation")
                elif ok is False:
                    c.bad("Graph::getEdges:orientation", f.where(), "getEdges lists the edges from target to source")
                else:
                    c.undecided("Graph::getEdges", "source of the pairs")
            if len(fl) == 1:
                res = (fl[0][0], int(fl[0][1]))
                end = s.flags.get(fl[0][0])
                cached = [e for e in puts if e[0] == "mput"]
                if cached and not any(e[0] == "mclear" and e[1] == cached[0][1] for e in s.eff[:s.eff.index(cached[0])]):
                    c.bad("Graph::getEdges:clear", f.where(), "getEdges rebuilds the cached edge list without clearing it first")
                elif cached and v != ("mem", cached[0][1]) and v is not None:
                    c.undecided("Graph::getEdges", "returned value")
                else:
                    c.ok("Graph::getEdges rebuilds from empty")
    if res is None:
        for s, v in r:
            if v is not None and v[0] == "mem" and not any(e[0] in ("mput", "put") for e in s.eff):
                adds = [x for g in by.get("addEdge", []) for x, _ in paths(c, P, g, "Graph::addEdge") or [] if any(e[0] == "add" for e in x.eff)]
                if adds and not any(("mclear", v[1]) in x.eff or any(e[0] == "mput" and e[1] == v[1] for e in x.eff) for x in adds):
                    c.bad("Graph::getEdges:stale", f.where(), f"getEdges returns {v[1]} without rebuilding it on a path that does not depend on whether edges changed since")
    if res is not None:
        for s, v in r:
            if s.known(("flag", res[0])) == bool(res[1]) and not any(e[0] in ("mput", "put") for e in s.eff):
                c.bad("Graph::getEdges:stale", f.where(), "getEdges returns the cached edge list on a path on which it is stale")
    return res


def queries(c, P, by, out, inn):
    def one(nm):
        l = by.get(nm, [])
        return l[0] if len(l) == 1 else None
    for nm, m, o in (("edgesOutOf", out, inn), ("edgesInto", inn, out)):
        f = one(nm)
        r = paths(c, P, f, "Graph::" + nm) if f is not None else None
        if r is None:
            continue
        p = ("p", pn(f, 0))
        for s, v in r:
            if v == ("row", m, p):
                c.ok(f"Graph::{nm} reads {m}")
            elif v is not None and v[0] == "row" and v[1] == o:
                c.bad(f"Graph::{nm}:view", f.where(), f"{nm} returns a row of {o}")
            elif v is not None and v[0] == "local" and not any(e[0] == "put" and e[1] == v for e in s.eff):
                if s.known(("in", p)) is False or s.known(("haskey", m, p)) is False or s.known(("empty", ("row", m, p))) is True:
                    c.ok(f"Graph::{nm} of an unknown vertex is empty")
                else:
                    c.bad(f"Graph::{nm}:empty", f.where(), f"{nm} returns nothing on a path on which the vertex may have edges")
            else:
                c.undecided(f"Graph::{nm}", "returned value")
    for nm, m, o in (("getOutDegree", out, inn), ("getInDegree", inn, out)):
        f = one(nm)
        r = paths(c, P, f, "Graph::" + nm) if f is not None else None
        if r is None:
            continue
        p = ("p", pn(f, 0))
        for s, v in r:
            if v == ("size", ("row", m, p)):
                c.ok(f"Graph::{nm} counts {m}")
            elif v is not None and v[0] == "size" and v[1][0] == "row":
                c.bad(f"Graph::{nm}:view", f.where(), f"{nm} counts {name(v[1])}")
            elif v is not None and v[0] == "c":
                if v[1] == 0 and (s.known(("haskey", m, p)) is False or s.known(("in", p)) is False):
                    c.ok(f"Graph::{nm} without a row is 0")
                elif s.known(("haskey", o, p)) is False and v[1] == 0 or v[1] != 0 or not s.facts:
                    c.bad(f"Graph::{nm}:zero", f.where(), f"{nm} returns {v[1]} on a path on which {m} may list neighbours of the vertex")
                else:
                    c.undecided(f"Graph::{nm}", "constant")
            else:
                c.undecided(f"Graph::{nm}", "returned value")
    f = one("hasEdge")
    r = paths(c, P, f, "Graph::hasEdge") if f is not None else None
    for s, v in r or []:
        a, b = ("p", pn(f, 0)), ("p", pn(f, 1))
        good = {("edge", out, a, b), ("edge", inn, b, a)}
        if v in good:
            c.ok("Graph::hasEdge")
        elif v is not None and (v[0] == "edge" or v[0] == "not" and v[1][0] == "edge"):
            c.bad("Graph::hasEdge:view", f.where(), "hasEdge(source, target) answers " + ("whether the edge is missing" if v[0] == "not" else f"for {name(('row', v[1], v[2]))} and {name(v[3])}"))
        elif v == ("c", 0):
            if any(s.known(("in", x)) is False for x in (a, b)) or any(s.known(("haskey", m, x)) is False for m, x in ((out, a), (inn, b))) or any(s.known(g) is False for g in good):
                c.ok("Graph::hasEdge without vertices")
            else:
                c.undecided("Graph::hasEdge", "false")
        elif v == ("c", 1):
            if any(s.known(g) is True for g in good):
                c.ok("Graph::hasEdge")
            elif any(x[0][0] == "edge" and x[1] for x in s.facts) or not any(x[0][0] == "edge" for x in s.facts):
                c.bad("Graph::hasEdge:true", f.where(), "hasEdge answers true on a path on which the edge may be missing")
        else:
            c.undecided("Graph::hasEdge", "returned value")
    for nm, m, o in (("getSources", inn, out), ("getSinks", out, inn)):
        f = one(nm)
        r = paths(c, P, f, "Graph::" + nm) if f is not None else None
        for s, v in r or []:
            if v is None or v[0] != "local":
                c.undecided(f"Graph::{nm}", "returned value"); continue
            puts = [e for e in s.eff if e[0] == "put" and e[1] == v]
            if not puts:
                c.undecided(f"Graph::{nm}", "no elements"); continue
            for e in puts:
                el = e[2]
                g = e[3] if len(e) > 3 and isinstance(e[3], frozenset) else frozenset()
                if not (isinstance(el, tuple) and el[0] == "any" and el[1] in (("mem", "vertices"), ("map", m))):
                    c.undecided(f"Graph::{nm}", "elements"); continue
                row = ("row", m, ("self",))
                if (("empty", row), True) in g or (("haskey", m, ("self",)), False) in g:
                    if el[1] == ("mem", "vertices"):
                        c.ok(f"Graph::{nm}")
                    else:
                        c.bad(f"Graph::{nm}:isolated", f.where(), f"{nm} considers only vertices that have a row in {m}")
                elif (("empty", row), False) in g:
                    c.bad(f"Graph::{nm}:polarity", f.where(), f"{nm} lists vertices whose {m} is not empty")
                elif any(x[0][0] == "empty" for x in g):
                    c.bad(f"Graph::{nm}:view", f.where(), f"{nm} decides by {o} instead of {m}")
                else:
                    c.undecided(f"Graph::{nm}", "condition")


def pn(f, i):
    p = f.params[i]
    return p.n if isinstance(p, N) else p.name


def check_undirected(c, P, fs):
    maps = sorted(set().union(*[members(P, f) for f in fs]))
    if len(maps) != 1:
        c.undecided("UndirectedGraph", f"adjacency not recognised ({maps})"); return
    m = maps[0]
    for f in fs:
        label = "UndirectedGraph::" + f.name
        c.count("methods")
        r = paths(c, P, f, label)
        for s, v in r or []:
            adj = [e for e in s.eff if e[0] in ("add", "del", "delrow")]
            if adj:
                c.count("effect paths")
                okk = True
                for kd in ("add", "del"):
                    S = {(e[2], e[3]) for e in adj if e[0] == kd}
                    if any(e[0] == "delrow" for e in adj) and kd == "del":
                        c.undecided(label, "rows removed"); continue
                    for a, b in sorted(S, key=str):
                        if (b, a) not in S:
                            c.bad(f"{label}:mirror:{name(a)}", f.where(), f"{label} {'adds' if kd == 'add' else 'removes'} {name(b)} {'to' if kd == 'add' else 'from'} the neighbours of {name(a)} but not the reverse"); okk = False
                okk = ends(c, f, label, s, sorted({(e[2], e[3]) for e in adj if e[0] == "add"}, key=str)) and okk
                if okk:
                    c.ok(f"{label}: symmetric")
            if f.name == "edgesIncidentTo":
                p = ("p", pn(f, 0))
                if v == ("row", m, p):
                    c.ok("UndirectedGraph::edgesIncidentTo")
                elif v is not None and v[0] == "local" and not any(s.known(x) is False for x in (("in", p), ("haskey", m, p))) and s.known(("empty", ("row", m, p))) is not True:
                    c.bad(f"{label}:empty", f.where(), "edgesIncidentTo returns nothing on a path on which the vertex may have edges")
            if f.name == "hasEdge":
                a, b = ("p", pn(f, 0)), ("p", pn(f, 1))
                if v in (("edge", m, a, b), ("edge", m, b, a)):
                    c.ok("UndirectedGraph::hasEdge")
                elif v is not None and v[0] == "not" and v[1][0] == "edge":
                    c.bad(f"{label}:polarity", f.where(), "hasEdge answers whether the edge is missing")
