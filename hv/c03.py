"""C03: isl objects, contexts and strings are released exactly once (ownership typestate)."""
import re
from .prog import N
from .flow import Flow, key
from . import prog, facts

ISL_T = re.compile(r"^(const )?(struct )?isl_\w+ \*( ?const)?$")
SRCS = ["lib/Utils/Layout/IslConversion.cpp"]
NOT_OBJECTS = ("isl_printer_",)


def isl(t):
    return bool(ISL_T.match(t))


def is_ctx(t):
    return isl(t) and "isl_ctx" in t


def strip(n):
    while n is not None and (n.k == "Cast" or (n.k == "Ctor" and n.args and len(n.args) == 1 and isl(n.args[0].type))
                             or (n.k == "Call" and n.q in ("std::move", "std::exchange") and n.args)):
        n = n.e if n.k == "Cast" else n.args[0]
    return n


def ann(n, i):
    pa = n.pa
    if pa and i < len(pa):
        a = pa[i]
        if isinstance(a, list):
            a = " ".join(a)
        if "isl_take" in a:
            return "take"
        if "isl_keep" in a:
            return "keep"
    return None


class Own(Flow):
    """State: ("st",var) -> frozenset of own|moved|null|borrow|param ; ("ctx",var) -> variable holding its context."""

    def __init__(self, P, fn, rep, stats, summ, mode=None):
        super().__init__()
        self.P, self.fn, self.rep, self.stats, self.summ = P, fn, rep, stats, summ
        self.names = {}
        self.exits = []     # (node, state, returned status)
        self.infer = mode == "infer"

    def join(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        out = {}
        for k in set(a) | set(b):
            if k[0] == "st":
                out[k] = a.get(k, frozenset()) | b.get(k, frozenset())
            elif k in a and k in b:
                if a[k] == b[k]:
                    out[k] = a[k]
            elif k[0] == "ctx":
                out[k] = a.get(k, b.get(k))
        return out

    def report(self, n, kind, msg):
        if self.reporting and not self.infer:
            self.rep(self.fn, n, kind, msg)

    # evaluation ---------------------------------------------------------
    def origin(self, e, s):
        """(kind, var) of an isl-valued expression: ('var',id) | ('give',ctxvar) | ('borrow',None) | ('null',None) | ('ctxof',id)."""
        e = strip(e)
        if e is None:
            return ("borrow", None)
        if e.k == "Null" or (e.k == "Int" and e.v == "0"):
            return ("null", None)
        if e.k == "Ref" and "id" in e.d and e.dk not in ("global", "func", "enum"):
            return ("var", e.d["id"])
        if e.k in ("Call",):
            if e.n and e.n.endswith("_get_ctx") and e.args:
                o = self.origin(e.args[0], s)
                return ("ctxof", o[1]) if o[0] == "var" else ("borrow", None)
            if self.gives(e):
                return ("give", self.ctx_of_call(e, s))
            return ("borrow", None)
        if e.k == "Cond":
            a, b = self.origin(e.a, s), self.origin(e.b, s)
            return a if a == b else ("unknown", None)
        return ("unknown", None)

    def gives(self, e):
        if e.n in ("isl_ctx_alloc",):
            return True
        if e.an and any("isl_give" in x for x in e.an):
            return True
        f = self.P.callee(e)
        if f is not None:
            return self.summ(f)["give"]
        return False

    def ctx_of_call(self, e, s):
        for a in e.args or []:
            if is_ctx(a.type):
                o = self.origin(a, s)
                if o[0] == "var":
                    return o[1]
                if o[0] == "ctxof":
                    return ("of", o[1])
        for a in e.args or []:
            if isl(a.type):
                o = self.origin(a, s)
                if o[0] == "var":
                    return s.get(("ctx", o[1]), ("of", o[1]))
                if o[0] == "give":
                    return o[1]
        return None

    def effect(self, e, i):
        """take | keep for argument i of a call."""
        if e.n == "isl_ctx_free" or e.n == "free":
            return "take"
        f = self.P.callee(e)
        if f is not None:
            d = self.summ(f)["params"].get(i)
            if d:
                return d
        return ann(e, i) or "keep"

    # transfer -------------------------------------------------------------
    def bind(self, vid, name, e, s, n):
        s = dict(s)
        self.names[vid] = name
        s.pop(("ctx", vid), None)
        if e is None:
            s[("st", vid)] = frozenset(["null"])
            return s
        o = self.origin(e, s)
        if o[0] == "give":
            s[("st", vid)] = frozenset(["own"])
            if o[1] is not None:
                s[("ctx", vid)] = o[1]
        elif o[0] == "null":
            s[("st", vid)] = frozenset(["null"])
        elif o[0] == "ctxof":
            s[("st", vid)] = frozenset(["ctxof"])
            s[("ctx", vid)] = ("of", o[1])
        elif o[0] == "var":
            if o[1] == vid:
                return s
            if ("st", o[1]) in s and "own" in s[("st", o[1])]:
                # plain pointer copy: ownership follows the new name
                s[("st", vid)] = s[("st", o[1])]
                if ("ctx", o[1]) in s:
                    s[("ctx", vid)] = s[("ctx", o[1])]
                s[("alias", vid)] = o[1]
            else:
                s[("st", vid)] = s.get(("st", o[1]), frozenset(["borrow"]))
            if s[("st", vid)] & {"own"}:
                s[("st", o[1])] = frozenset(["borrow"])
        else:
            s[("st", vid)] = frozenset(["borrow"])
        return s

    def decl(self, v, s):
        if isl(v.type) or (v.type == "char *" and v.init is not None and self.is_str(v.init)):
            return self.bind(v.d["id"], v.n, v.init, s, v)
        return s

    def is_str(self, e):
        e = strip(e)
        return e is not None and e.k == "Call" and self.gives(e)

    def tracked(self, o, s):
        return o[0] == "var" and ("st", o[1]) in s

    def call(self, n, s):
        s = dict(s)
        for i, a in enumerate(n.args or []):
            if not (isl(a.type) or (n.n == "free" and i == 0)):
                continue
            o = self.origin(a, s)
            eff = self.effect(n, i)
            if self.reporting:
                self.stats["uses"] += 1
            if o[0] == "ctxof":
                if eff == "take" and n.n == "isl_ctx_free":
                    s = self.free_ctx(n, ("of", o[1]), s)
                continue
            if o[0] == "give" and eff == "keep" and not is_ctx(a.type):
                self.report(n, "leak", f"the object returned by {strip(a).n} is only lent to {n.n} and then lost")
                continue
            if not self.tracked(o, s):
                continue
            st = s[("st", o[1])]
            nm = self.names.get(o[1], "?")
            if "moved" in st:
                self.report(n, "released", f"passes '{nm}' to {n.n} although it was already given away or released on some path")
            c = s.get(("ctx", o[1]))
            if c is not None and not isinstance(c, tuple) and "moved" in s.get(("st", c), ()) and "own" in st and n.n != "isl_ctx_free":
                self.report(n, "ctxdead", f"uses '{nm}' after its context was released")
            if eff == "take":
                if "ctxof" in st:
                    s = self.free_ctx(n, s.get(("ctx", o[1])), s)
                    s[("st", o[1])] = frozenset(["moved"])
                    continue
                if st & {"borrow", "keep"}:
                    self.report(n, "borrowed", f"gives away '{nm}', which it does not own, to {n.n}")
                if is_ctx(a.type):
                    self.check_alive(n, o[1], s)
                s[("st", o[1])] = frozenset(["moved"])
                f = self.P.callee(n)
                if f is not None and i in self.summ(f)["frees_ctx"]:
                    s = self.free_ctx(n, c if c is not None else ("of", o[1]), s, alive=False)
            else:
                f = self.P.callee(n)
                if f is not None and i in self.summ(f)["frees_ctx"]:
                    s = self.free_ctx(n, c if c is not None else ("of", o[1]), s, alive=False)
        return s

    def free_ctx(self, n, c, s, alive=True):
        s = dict(s)
        if isinstance(c, tuple):
            k = ("ctxfreed", c[1])
            if s.get(k):
                self.report(n, "released", "releases the same context twice")
            if alive:
                self.check_alive(n, c, s)
            s[k] = True
        elif c is not None and ("st", c) in s:
            if "moved" in s[("st", c)]:
                self.report(n, "released", f"releases the context '{self.names.get(c)}' again")
            if alive:
                self.check_alive(n, c, s)
            s[("st", c)] = frozenset(["moved"])
        return s

    def check_alive(self, n, c, s):
        for k, st in s.items():
            if k[0] != "st" or k[1] == c or not (st & {"own", "take"}):
                continue
            cc = s.get(("ctx", k[1]), ("of", k[1]))
            if cc == c:
                self.report(n, "ctxlive", f"releases the context while '{self.names.get(k[1])}' still belongs to it")

    def visit(self, n, s):
        if n.k in ("Call", "MCall"):
            return self.call(n, s)
        if n.k == "Assign" and (isl(n.a.type) or n.a.type == "char *") and n.a.k == "Ref":
            vid = n.a.d.get("id")
            st = s.get(("st", vid), frozenset())
            o = self.origin(n.b, s)
            if "own" in st and not (o[0] == "var" and o[1] == vid):
                self.report(n, "leak", f"overwrites '{n.a.n}' while it still owns an object")
            if isl(n.a.type) or self.is_str(n.b) or ("st", vid) in s:
                return self.bind(vid, n.a.n, n.b, s, n)
        if n.k in ("Ctor", "InitList") and n.args and not isl(n.type):
            # handed to a wrapper object: ownership leaves our view
            for a in n.args:
                o = self.origin(a, s) if isl(a.type) else ("x",)
                if o[0] == "var" and ("st", o[1]) in s:
                    s = dict(s); s.pop(("st", o[1]))
                    self.stats["escaped"] += self.reporting
        return s

    def lambda_(self, n, s):
        if s is not None:
            for x in n.walk():
                if x.k == "Ref" and ("st", x.d.get("id")) in s:
                    s = dict(s); s.pop(("st", x.d["id"]))
        return super().lambda_(n, s)

    def stmt(self, n, s):
        x = n
        while x is not None and x.k == "Cast":
            x = x.e
        if s is not None and x is not None and x.k == "Call" and (isl(x.type) or x.type == "char *") and self.gives(x):
            self.report(x, "leak", f"the object returned by {x.n} is dropped")
        return super().stmt(n, s)

    def assume(self, c, truth, s):
        if s is None or c is None:
            return s
        if c.k == "Un" and c.op == "!":
            return self.assume(c.a, not truth, s)
        if c.k == "Cast":
            return self.assume(c.e, truth, s)
        if c.k == "Bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == truth:
                return self.assume(c.b, truth, self.assume(c.a, truth, s))
            return self.join(self.assume(c.a, truth, self.copy(s)), self.assume(c.b, truth, self.assume(c.a, not truth, self.copy(s))))
        if c.k == "Bin" and c.op in ("==", "!="):
            for x, y in ((c.a, c.b), (c.b, c.a)):
                y2 = strip(y)
                if y2.k == "Null" or (y2.k == "Int" and y2.v == "0" and isl(x.type)):
                    return self.assume(x, truth == (c.op == "!="), s)
            return s
        e = strip(c)
        if e is not None and e.k == "Ref" and ("st", e.d.get("id")) in s and isl(e.type):
            k = ("st", e.d["id"])
            st = s[k]
            s = dict(s)
            if truth:
                s[k] = st - {"null"} or st
            elif st & {"own", "take", "param"}:
                s[k] = frozenset(["null"])
        return s

    def on_return(self, n, s):
        self.leave(n, s, n.e)

    def leave(self, n, s, e):
        s = dict(s)
        give = None
        x = strip(e)
        if x is not None and isl(x.type):
            o = self.origin(x, s)
            if o[0] == "give":
                give = True
            elif o[0] == "var" and ("st", o[1]) in s:
                st = s[("st", o[1])]
                if "moved" in st:
                    self.report(n, "released", f"returns '{self.names.get(o[1])}' after giving it away")
                if st & {"own", "take"}:
                    give = True
                    s[("st", o[1])] = frozenset(["moved"])
                elif st & {"param"}:
                    give = True
                    s[("st", o[1])] = frozenset(["moved"])
                elif "null" in st:
                    give = None
                elif st & {"borrow", "keep"}:
                    give = False
                    if self.declared_give():
                        self.report(n, "borrowed", f"returns '{self.names.get(o[1])}', which it does not own, as an owned object")
            elif o[0] == "null":
                give = None
        self.exits.append((n, s, give))
        if self.reporting and not self.infer:
            self.stats["exits"] += 1
            for k, st in s.items():
                if k[0] == "st" and st & {"own", "take"}:
                    self.report(n, "leak", f"'{self.names.get(k[1])}' is not released on a path that ends here")
                elif k[0] == "st" and "moved" not in st and ("alias", k[1]) in s:
                    pass

    def declared_give(self):
        return bool(self.fn.d.get("an") and any("isl_give" in x for x in self.fn.d["an"]))

    def start(self):
        s = {}
        for i, p in enumerate(self.fn.params):
            if isl(p.type):
                vid = p.d["id"]
                self.names[vid] = p.n
                a = " ".join(p.an or [])
                if "isl_take" in a:
                    st = "own"
                elif "isl_keep" in a:
                    st = "keep"
                elif self.infer:
                    st = "param"
                else:
                    st = {"take": "own"}.get(self.summ(self.fn)["params"].get(i), "keep")
                s[("st", vid)] = frozenset([st])
        return s

    def go(self):
        end = self.run(self.fn, self.start())
        if end is not None:
            self.leave(self.fn.body, end, None)


def summaries(P):
    memo = {}

    def summ(f):
        if f.usr in memo:
            return memo[f.usr]
        memo[f.usr] = {"give": bool(f.d.get("an") and any("isl_give" in x for x in f.d["an"])), "params": {}, "frees_ctx": set(), "mixed": []}
        if f.dep or not (isl(f.ret) or any(isl(p.type) for p in f.params)):
            return memo[f.usr]
        o = Own(P, f, lambda *a: None, __import__("collections").Counter(), summ, "infer")
        o.go()
        r = {"give": memo[f.usr]["give"] or (isl(f.ret) and not is_ctx(f.ret) and any(g for _, _, g in o.exits)),
             "params": {}, "frees_ctx": set(), "mixed": []}
        for i, p in enumerate(f.params):
            if not isl(p.type):
                continue
            vid = p.d["id"]
            a = " ".join(p.an or [])
            ends = [s.get(("st", vid), frozenset()) for _, s, _ in o.exits]
            ends = [e for e in ends if e != {"null"}]
            if "isl_take" in a:
                r["params"][i] = "take"
            elif "isl_keep" in a:
                r["params"][i] = "keep"
            elif ends and all(e == {"moved"} for e in ends):
                r["params"][i] = "take"
            elif any("moved" in e for e in ends):
                r["params"][i] = "take"     # released on some paths only: the others then leak
            else:
                r["params"][i] = "keep"
            fr = [bool(s.get(("ctxfreed", vid))) for _, s, _ in o.exits]
            if any(fr):
                r["frees_ctx"].add(i)
                if not all(fr):
                    r["mixed"].append((p.n, [n for (n, s, _), x in zip(o.exits, fr) if not x][0]))
        memo[f.usr] = r
        return r
    return summ


def analyse(P):
    import collections
    st = collections.Counter()
    out, seen = [], set()

    def rep(fn, n, kind, msg):
        k = (fn.name, n.line, kind, msg)
        if k not in seen:
            seen.add(k)
            out.append((fn, n, kind, msg))
    summ = summaries(P)
    for f in P.all:
        if f.dep or f.rel.endswith("Test.cpp"):
            continue
        touches = any(isl(n.type) for n in f.walk() if n.k in ("Ref", "Call"))
        if not touches:
            continue
        st["functions"] += 1
        Own(P, f, rep, st, summ).go()
        for nm, n in summ(f)["mixed"]:
            rep(f, n, "leak", f"the context of '{nm}' is released on some paths but not on one that ends here")
    return out, st


def isl_sources():
    import subprocess
    out = []
    for s in facts.sources():
        try:
            t = open(facts.REPO + "/" + s).read()
        except OSError:
            continue
        if "isl_" in t or "include/isl/" in t:
            out.append(s)
    return out


def check(c):
    srcs = isl_sources()
    P = prog.load(srcs, facts.ISL)
    c.rule("ownership typestate driven by the isl headers' take/give/keep annotations: every given object is on every path taken, returned or freed exactly once; nothing is used or released after it was given away; nothing borrowed is given away")
    c.rule("a context is released exactly once, only after every object of it, on every path (a context reached through isl_*_get_ctx of a parameter counts as that parameter's); summaries of repository functions are inferred from their bodies where they carry no annotation")
    out, st = analyse(P)
    for f, n, kind, msg in out:
        c.bad(f"{f.rel}:{f.name}:{kind}", f.where(n), f"{f.q} {msg}")
    c.obl += st["uses"] + st["exits"]; c.done += st["uses"] + st["exits"] - len(out)
    for k in ("functions", "uses", "exits", "escaped"):
        c.count(k, st[k])
    c.count("translation units", len(srcs))
    c.need("functions", 2); c.need("uses", 10)
    c.selftest("c03_positive.cpp", lambda p: analyse(p)[0], facts.ISL)
    return c.finish("Every function of the buildable sources that mentions isl; obligations are the argument positions holding isl objects and the function exits.")
