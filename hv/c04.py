"""C04: every walk over a kernel graph processes every operand of every node."""
import os, re
from .prog import N
from .flow import Flow, key
from . import prog, facts

EXTRA = ("-I" + os.path.join(facts.VERIF, "drivers", "shim"),)
SRCS = ["lib/Kernel/RotationCountVisitor.cpp", "lib/Kernel/TestingUtils.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp",
        "lib/Kernel/EvalVisitor.cpp", os.path.join(facts.VERIF, "drivers", "c04_driver.cpp")]

# (visitor, node, field): why the visitor legitimately does not process it.
EXEMPT = {
    ("RotationCountVisitor", "LeftRotateNode", "shift"): "rotation amounts are plaintext index arithmetic",
    ("RotationCountVisitor", "LeftRotateBulkNode", "shifts"): "rotation amounts are plaintext index arithmetic",
    ("RotationCountVisitor", "ForLoopNode", "inductionVar"): "bound variable",
    ("RotationCountVisitor", "ForLoopNode", "iterArgs"): "bound variables",
    ("EvalVisitor", "ForLoopNode", "inductionVar"): "bound variable, assigned per iteration",
    ("EvalVisitor", "ForLoopNode", "iterArgs"): "bound variables, assigned per iteration",
    ("EvalVisitor", "ForLoopNode", "body"): "zero-trip loops do not evaluate their body",
    ("PrintVisitor", "ExtractNode", "operand"): "documented abbreviation",
    ("PrintVisitor", "ForLoopNode", "*"): "documented abbreviation",
    ("MultiplicativeDepthVisitorImpl", "LeftRotateNode", "shift"): "plaintext index arithmetic",
    ("MultiplicativeDepthVisitorImpl", "ExtractNode", "index"): "plaintext index arithmetic",
    ("MultiplicativeDepthVisitorImpl", "ForLoopNode", "*"): "approximation of a test helper: body only",
}
# nodes of which an evaluator processes exactly one of several alternatives
ONE_OF = {("EvalVisitor", "IfElseNode"): ("thenBody", "elseBody")}


def short(q):
    return re.sub(r"<.*", "", q).split("::")[-1].strip(" &*").replace("const ", "")


def node_name(t):
    t = t.replace("const ", "").strip(" &")
    return short(t)


def strip(n):
    while n is not None:
        if n.k == "Cast":
            n = n.e
        elif n.k == "Ctor" and n.args and len([a for a in n.args if a.k != "DefArg"]) == 1:
            n = n.args[0]
        elif n.k == "Call" and n.q in ("std::move", "std::forward", "std::as_const") and n.args:
            n = n.args[0]
        elif n.k == "InitList" and n.args and len(n.args) == 1:
            n = n.args[0]
        else:
            return n
    return n


class Cover(Flow):
    """State: ("done",path) -> True; ("is",var) -> path (alias of a child or of the node itself)."""

    def __init__(self, P, fn, param_id, disp, sums, stats):
        super().__init__()
        self.P, self.fn, self.disp, self.sums, self.stats = P, fn, disp, sums, stats
        self.pid = param_id
        self.exits = []
        self.may = set()
        self.unclear = set()      # containers walked by a loop of another form

    def join(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        return {k: v for k, v in a.items() if k in b and b[k] == v}

    def path(self, e, s):
        """() for the node, (field,), (field,'[]') for an element, (field,'[0]') for a constant element; else None."""
        e = strip(e)
        if e is None:
            return None
        if e.k == "Ref":
            if e.d.get("id") == self.pid:
                return ()
            return s.get(("is", e.d.get("id")))
        if e.k == "Mem":
            b = self.path(e.base, s) if e.base is not None else None
            if b == ():
                return (e.n,)
            return None
        if e.k == "OpCall" and e.op == "[]" and len(e.args) == 2:
            b = self.path(e.args[0], s)
            if b is not None and len(b) == 1:
                i = strip(e.args[1])
                return b + (("[%s]" % i.v) if i.k == "Int" else "[]",)
        if e.k == "Idx":
            b = self.path(e.a, s)
            if b is not None and len(b) == 1:
                i = strip(e.b)
                return b + (("[%s]" % i.v) if i.k == "Int" else "[]",)
        if e.k == "MCall" and e.n in ("front", "back", "at") and e.obj is not None:
            b = self.path(e.obj, s)
            if b is not None and len(b) == 1:
                return b + ("[0]" if e.n != "at" else "[]",)
        if e.k == "MCall" and e.n == "get" and e.obj is not None:
            return self.path(e.obj, s)
        if e.k in ("OpCall", "Un") and e.op == "*":
            return self.path(e.args[0] if e.k == "OpCall" else e.a, s)
        return None

    def decl(self, v, s):
        s = dict(s)
        s.pop(("is", v.d["id"]), None)
        if v.init is not None:
            p = self.path(v.init, s)
            if p is not None:
                s[("is", v.d["id"])] = p
        return s

    def on_range_var(self, n, s):
        p = self.path(n.range, s)
        if p is not None and len(p) == 1:
            s = dict(s)
            s[("is", n.var.d["id"])] = p + ("[]",)
        return s

    def mark(self, p, s):
        s = dict(s)
        s[("done", p)] = True
        self.may.add(p)
        if len(p) == 2 and p[1] in ("[0]",) and s.get(("one", p[0])):
            s[("done", (p[0],))] = True
        return s

    def lam(self, e):
        """The lambda an expression denotes: written in place or the initialiser of a local variable."""
        e = strip(e)
        while e is not None and e.k in ("Materialize", "Bind"):
            e = strip(e.e)
        if e is not None and e.k == "Lambda":
            return e
        if e is not None and e.k == "Ref" and e.dk == "var":
            for x in self.fn.walk():
                if x.k == "Decl":
                    for v in x.v or []:
                        if v.d.get("id") == e.d.get("id"):
                            i = strip(v.init) if v.init is not None else None
                            return i if i is not None and i.k == "Lambda" else None
        return None

    def lam_done(self, lam, s, elem=None):
        """What a call of the lambda processes on every normal return."""
        key_ = ("lam", lam.d.get("id"))
        if key_ in self.sums.busy or lam.body is None:
            return set()
        self.sums.busy.add(key_)
        try:
            c = type(self)(self.P, self.fn, self.pid, self.disp, self.sums, self.stats)
            st = self.copy(s)
            if elem is not None:
                st.pop(("done", elem), None)
                for p in lam.params or []:
                    if isinstance(p, N):
                        st[("is", p.d.get("id"))] = elem
            done = c.go(lam.body, st)
            self.may |= c.may
            return done or set()
        finally:
            self.sums.busy.discard(key_)

    def visit(self, n, s):
        if n.k == "OpCall" and n.op == "()" and n.args and "lambda" in n.args[0].type:
            lam = self.lam(n.args[0])
            if lam is not None:
                for d in self.lam_done(lam, s):
                    s = self.mark(d, s)
        elif n.k == "Call" and n.args and (n.n or (n.q or "").split("::")[-1]) in ("for_each", "transform", "accumulate", "map_to_vector", "for_each_n"):
            lams = [l for l in (self.lam(a) for a in n.args) if l is not None]
            for a in n.args:
                a = strip(a)
                p = self.path(a.obj if a is not None and a.k == "MCall" and a.n in ("begin", "cbegin") else a, s)
                if p is not None and len(p) == 1 and any((p[0], "[]") in self.lam_done(l, s, (p[0], "[]")) for l in lams):
                    s = self.mark(p, s)
        if n.k in ("Call", "MCall", "OpCall") and n.args:
            f = self.P.callee(n)
            for i, a in enumerate(n.args):
                p = self.path(a, s)
                if p is None:
                    continue
                if n.usr in self.disp or (n.k == "MCall" and n.n in self.disp):
                    if p:
                        s = self.mark(p, s)
                elif f is not None and (f.usr, i) not in self.sums.busy:
                    for q in self.sums.covers(f, i):
                        s = self.mark(p + q, s)
        return s

    def assume(self, c, truth, s):
        if s is None or c is None:
            return s
        if c.k == "Un" and c.op == "!":
            return self.assume(c.a, not truth, s)
        if c.k == "Bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == truth:
                return self.assume(c.b, truth, self.assume(c.a, truth, s))
            return self.join(self.assume(c.a, truth, self.copy(s)), self.assume(c.b, truth, self.assume(c.a, not truth, self.copy(s))))
        if c.k == "Cast":
            return self.assume(c.e, truth, s)
        if c.k == "Bin" and c.op in ("==", "!=", "<", ">", "<=", ">="):
            for x, y in ((c.a, c.b), (c.b, c.a)):
                x = strip(x); y = strip(y)
                if x.k == "MCall" and x.n == "size" and x.obj is not None and y.k == "Int" and c.op in ("==", "!="):
                    p = self.path(x.obj, s)
                    if p is not None and len(p) == 1 and (c.op == "==") == truth:
                        s = dict(s)
                        if y.v == "1":
                            s[("one", p[0])] = True
                        if y.v == "0":
                            s[("done", p)] = True
                if y.k == "Null":
                    p = self.path(x, s)
                    if p and (c.op == "==") == truth:
                        s = dict(s); s[("done", p)] = True
            return s
        if c.k == "OpCall" and c.op in ("==", "!=") and len(c.args) == 2 and (strip(c.args[1]).k == "Null" or "nullptr" in c.args[1].type):
            p = self.path(c.args[0], s)
            if p and (c.op == "==") == truth:
                s = dict(s); s[("done", p)] = True
            return s
        if c.k == "MCall" and c.n == "empty" and c.obj is not None and truth:
            p = self.path(c.obj, s)
            if p:
                s = dict(s); s[("done", p)] = True
            return s
        x = c.obj if c.k == "MCall" and c.n == "operator bool" else c
        p = self.path(x, s)
        if p and not truth:   # absent child
            s = dict(s); s[("done", p)] = True
        return s

    def stmt(self, n, s):
        if n is not None and n.k in ("RFor", "For") and s is not None:
            before = s
            o = super().stmt(n, s)
            # a loop over all elements whose body processes the element on every path covers the container
            fld = self.loop_field(n, before)
            if fld is not None and o["next"] is not None and self.body_covers(n, before, fld):
                o["next"] = self.mark((fld,), o["next"])
            elif fld is None and n.k == "For":
                self.note_loop(n, before)
            return o
        if n is not None and n.k in ("While", "Do") and s is not None:
            self.note_loop(n, s)
        return super().stmt(n, s)

    def note_loop(self, n, s):
        """A loop of a form not understood may still visit every element; one that starts late or stops early does not."""
        if n.k == "For":
            short = n.init is not None and n.init.k == "Decl" and any(v.init is not None and strip(v.init).k == "Int" and strip(v.init).v != "0" for v in n.init.v)
            short = short or n.c is not None and n.c.op != "<=" and any(x.k == "Bin" and x.op in ("-", "+") for x in n.c.walk())
            if short:
                return
        for x in n.walk():
            if x.k in ("Mem", "Ref"):
                p = self.path(x, s)
                if p is not None and len(p) == 1:
                    self.unclear.add(p[0])

    def loop_field(self, n, s):
        if n.k == "RFor":
            p = self.path(n.range, s)
            if p is not None and len(p) == 1:
                return p[0]
            return None
        # for (i = 0; i < F.size(); ++i)
        for x in (n.c.walk() if n.c is not None else ()):
            if x.k == "MCall" and x.n == "size" and x.obj is not None:
                p = self.path(x.obj, s)
                if p is not None and len(p) == 1:
                    starts0 = n.init is not None and n.init.k == "Decl" and any(v.init is not None and strip(v.init).k == "Int" and strip(v.init).v == "0" for v in n.init.v)
                    up = n.inc is not None and any(y.op == "++" or y.k in ("CAssign", "Bin") and y.op in ("+=", "+") and y.b is not None and strip(y.b).k == "Int" and strip(y.b).v == "1" for y in n.inc.walk())
                    lt = n.c.k == "Bin" and n.c.op in ("<", "!=", ">") and not any(y.k == "Bin" and y.op in ("-", "+") for y in n.c.walk())
                    if starts0 and up and lt:
                        return p[0]
        return None

    def body_covers(self, n, s, fld):
        c = Cover(self.P, self.fn, self.pid, self.disp, self.sums, self.stats)
        st = self.copy(s)
        st.pop(("done", (fld, "[]")), None)
        if n.k == "For":
            if n.init is not None:
                st = c.stmt(n.init, st)["next"]
        else:
            st = c.decl(n.var, st)
            st = c.on_range_var(n, st)
        r = c.stmt(n.body, st)
        if r["break"] is not None:
            return False
        ends = [x for x in (r["next"], r["continue"]) if x is not None]
        self.may |= c.may
        self.unclear |= c.unclear
        return bool(ends) and all(e.get(("done", (fld, "[]"))) for e in ends)

    def on_return(self, n, s):
        if n.e is not None and self.depth == 0:
            pass
        if self.depth == 0:
            self.exits.append(s)

    def go(self, body=None, init=None):
        s = dict(init or {})
        if body is None:
            end = self.run(self.fn, s)
        else:
            end = self.stmt(body, s)["next"]
        if end is not None:
            self.exits.append(end)
        if not self.exits:
            return None     # never returns normally
        out = None
        for e in self.exits:
            d = {k[1] for k in e if k[0] == "done"}
            out = d if out is None else out & d
        return out


class Sums:
    def __init__(self, P, disp):
        self.P, self.disp, self.busy, self.memo = P, disp, set(), {}

    def covers(self, f, i):
        """Paths (relative to parameter i) that f processes on every normal return; () is the parameter itself."""
        k = (f.usr, i)
        if k in self.memo:
            return self.memo[k]
        if f.dep or i >= len(f.params) or "ArithmeticDagNode" not in "".join(f.tu["types"][p.d["t"]] for p in f.params if isinstance(p.d.get("t"), int)) and "Node" not in f.params[i].type:
            return set()
        self.busy.add(k)
        c = Cover(self.P, f, f.params[i].d["id"], self.disp, self, {})
        # the parameter itself may be handed on
        r = CoverSelf(self.P, f, f.params[i].d["id"], self.disp, self, {}).go() if True else set()
        self.busy.discard(k)
        self.memo[k] = r or set()
        return self.memo[k]


class CoverSelf(Cover):
    def visit(self, n, s):
        if n.k in ("Call", "MCall", "OpCall") and n.args and (n.usr in self.disp or (n.k == "MCall" and n.n in self.disp)):
            for a in n.args:
                if self.path(a, s) == ():
                    s = dict(s)
                    s[("done", ())] = True
        return super().visit(n, s)


def dispatchers(P):
    """Functions that take a node pointer and dispatch on its variant (std::visit), and those of a
    visitor that hand their parameter on to one (the vector form)."""
    d = set()
    for f in P.all:
        if any("ArithmeticDagNode" in p.type for p in f.params):
            if any(n.k == "Call" and n.q == "std::visit" for n in f.walk()) and f.name not in ("operator()",):
                d.add(f.usr)
            elif f.cls and f.name in {P_.name for P_ in P.all if P_.usr in d} and f.cls:
                d.add(f.usr)
    names = {f.name for f in P.all if f.usr in d}
    for f in P.all:
        if f.cls and f.name in names and any("ArithmeticDagNode" in p.type for p in f.params):
            d.add(f.usr)
    return d


def node_records(P):
    out = {}
    for r in P.recs.values():
        if r.dep or not r.q.split("::")[-1].endswith("Node") or "ArithmeticDagNode" == r.q.split("::")[-1]:
            continue
        fl = [(f.n, f.type) for f in r.fields]
        out.setdefault(short(r.q), fl)
    return out


def visitors(P):
    """(class, node) -> Fn for every operator() whose first parameter is a node struct."""
    out = {}
    for f in P.all:
        if f.dep or f.name != "operator()" or not f.cls or not f.params:
            continue
        nn = node_name(f.params[0].type)
        if nn.endswith("Node"):
            out[(short(f.clsq or f.cls), nn)] = f
    return out


def exempt(v, nn, fld):
    return EXEMPT.get((v, nn, fld)) or EXEMPT.get((v, nn, "*"))


PURE = {"size", "empty", "get", "front", "back", "at", "operator bool"}


def escapes(P, f, fld, disp):
    """The operand field (or an iterator of it, or a lambda that processes it) reaches a callee whose body is unknown."""
    pid = f.params[0].d["id"]
    for x in f.walk():
        if x.k in ("Call", "MCall", "OpCall", "Ctor"):
            if x.usr in disp or (x.k == "MCall" and x.n in {"process", "processInternal"}) or x.q in ("std::move", "std::forward", "std::as_const"):
                continue
            if x.k == "OpCall" and x.op in ("[]", "==", "!=", "*", "->", "bool"):
                continue
            if x.k == "Ctor" and (x.copy or x.move):
                continue
            ops = list(x.args or [])
            if x.k == "MCall":
                if x.n in ("begin", "end", "rbegin", "rend", "cbegin", "cend") and x.obj is not None:
                    ops.append(x.obj)
                elif x.n in PURE:
                    continue
            if P.callee(x) is not None and P.callee(x).rel.startswith("lib/"):
                continue
            # library code can only call back through a callable it is given
            if re.match(r"(std|llvm|__gnu_cxx)::", x.q or "") and not any(
                    y.k in ("Lambda", "This") or re.search(r"lambda|std::function|function_ref|\(\*\)|\) ?const$", y.type or "") for a in (x.args or []) for y in a.walk()):
                continue
            for a in ops:
                for y in a.walk():
                    if y.k == "Mem" and y.n == fld and y.base is not None and strip(y.base).k == "Ref" and strip(y.base).d.get("id") == pid:
                        # an argument that is itself the value of a processing call is not an escape
                        if not any(z.k in ("Call", "MCall") and (z.usr in disp or z.n in ("process", "processInternal")) and any(w is y for w in z.walk()) for z in a.walk()):
                            return True
                    if y.k == "Lambda":
                        return any(z.k == "Mem" and z.n == fld for z in x.walk())
    return False


def analyse(P, c=None):
    out = []
    disp = dispatchers(P)
    recs = node_records(P)
    sums = Sums(P, disp)
    n_obl = 0
    ptr = lambda t: "shared_ptr" in t and "ArithmeticDagNode" in t
    for (v, nn), f in sorted(visitors(P).items()):
        if v == "CachingVisitor" or nn not in recs:
            continue
        cov = Cover(P, f, f.params[0].d["id"], disp, sums, {})
        done = cov.go()
        if done is None:
            continue
        for fld, t in recs[nn]:
            if not ptr(t):
                continue
            n_obl += 1
            if exempt(v, nn, fld):
                continue
            if (fld,) in done:
                if c: c.ok(f"{f.where()} {v}({nn}).{fld}")
                continue
            alt = ONE_OF.get((v, nn))
            if alt and fld in alt:
                ok = all(any(("done", (x,)) in e for x in alt) for e in cov.exits) and (fld,) in cov.may
                if ok:
                    if c: c.ok(f"{f.where()} {v}({nn}).{fld} (one of)")
                    continue
            if fld in cov.unclear:
                if c: c.undecided(f"{f.where()} {v}({nn}).{fld}", "a loop over the operands has a form that is not understood")
                continue
            if escapes(P, f, fld, disp):
                if c: c.undecided(f"{f.where()} {v}({nn}).{fld}", "the operand is handed to code whose body is not known")
                continue
            out.append((f, f.body, f"{v}:{nn}:{fld}", f"{v} does not process '{fld}' of {nn} on every path"))
    # cache clearing: one specialisation of the visiting lambda per node kind
    for f in P.all:
        if f.dep or f.usr not in disp or "lear" not in f.name:
            continue
        for lam in [n for n in f.walk() if n.k == "Lambda"]:
            for sp in lam.specs or [lam]:
                if not sp.params or sp.body is None:
                    continue
                nn = node_name(sp.params[0].type)
                if nn not in recs:
                    continue
                cov = Cover(P, f, sp.params[0].d["id"], disp, sums, {})
                done = cov.go(sp.body)
                for fld, t in recs[nn]:
                    if ptr(t):
                        n_obl += 1
                        if done is not None and (fld,) in done:
                            if c: c.ok(f"{f.where()} {f.name}({nn}).{fld}")
                        else:
                            out.append((f, lam, f"{f.name}:{nn}:{fld}", f"{f.name} does not clear '{fld}' of {nn}"))
    return out, n_obl


# -- factories ----------------------------------------------------------------
def params_of(e, ids, fn=None, seen=None):
    """Parameter ids that an expression is built from (through locals of the factory)."""
    out = []
    for x in e.walk():
        if x.k == "Ref" and x.d.get("id") in ids:
            out.append(x.d["id"])
        elif x.k == "Ref" and fn is not None and x.d.get("id") in fn and x.d["id"] not in (seen or ()):
            for i in fn[x.d["id"]]:
                out += params_of(i, ids, fn, (seen or ()) + (x.d["id"],))
    return out


def factories(P, c=None):
    """Every factory stores each of its arguments in the field of its role, same-typed ones in order."""
    out, n = [], 0
    recs = node_records(P)
    for f in P.all:
        if f.dep or not f.clsq or short(f.clsq) != "ArithmeticDagNode" or not f.params or "shared_ptr" not in f.ret:
            continue
        ids = {p.d["id"]: p for p in f.params}
        defs = {}
        for x in f.walk():
            if x.k == "Decl":
                for v in x.v or []:
                    if v.init is not None:
                        defs.setdefault(v.d["id"], []).append(v.init)
            if x.k == "Assign":
                b = x.a
                while b is not None and b.k in ("OpCall", "Idx", "Mem"):
                    b = b.args[0] if b.k == "OpCall" else (b.a if b.k == "Idx" else b.base)
                if b is not None and b.k == "Ref":
                    defs.setdefault(b.d.get("id"), []).append(x.b)
            if x.k == "OpCall" and x.op == "=" and len(x.args or []) == 2:
                b = x.args[0]
                while b is not None and b.k in ("OpCall", "Idx", "Mem"):
                    b = b.args[0] if b.k == "OpCall" else (b.a if b.k == "Idx" else b.base)
                if b is not None and b.k == "Ref":
                    defs.setdefault(b.d.get("id"), []).append(x.args[1])
        # aggregate initialisation of a node struct
        lists = [x for x in f.walk() if x.k == "InitList" and node_name(x.type) in recs]
        calls = [x for x in f.walk() if x.k in ("Call", "MCall") and x.usr and (P.callee(x) is not None)
                 and short(P.callee(x).clsq or "") == "ArithmeticDagNode" and P.callee(x).name == f.name and P.callee(x) is not f]
        news = [x for x in f.walk() if x.k == "Ctor" and "ArithmeticDagNode" in x.type and x.args and "shared_ptr" not in x.type]
        if lists:
            il = lists[0]
            flds = recs[node_name(il.type)]
            vals = il.args or []
            owner = {}
            used = []
            for (fld, t), a in zip(flds, vals):
                ps = params_of(a, ids, defs)
                for p_ in ps:
                    owner.setdefault(p_, []).append(fld)
                used.append((fld, t, ps))
            for pid, p in ids.items():
                n += 1
                if pid not in owner:
                    out.append((f, il, f"factory:{f.name}:{p.n}", f"factory {f.name} does not store its argument '{p.n}' in the {node_name(il.type)}"))
                elif c:
                    c.ok()
            for fld, t, ps in used:
                n += 1
                if not ps and ("shared_ptr" in t and fld not in ("inductionVar",)):
                    out.append((f, il, f"factory:{f.name}:{fld}", f"factory {f.name} leaves field '{fld}' without an argument"))
                elif c:
                    c.ok()
            # same-typed arguments keep their order, and a field named like an argument holds that argument
            order = []
            for fld, t, ps in used:
                order += [q for q in dict.fromkeys(ps)]
            order = list(dict.fromkeys(order))
            pl = [p.d["id"] for p in f.params]
            for i in range(len(order)):
                for j in range(i + 1, len(order)):
                    a, b = ids[order[i]], ids[order[j]]
                    if a.type == b.type and pl.index(order[i]) > pl.index(order[j]):
                        out.append((f, il, f"factory:{f.name}:order", f"factory {f.name} stores '{a.n}' and '{b.n}' in swapped order"))
        elif calls:
            got = set()
            for x in calls:
                for a in x.args or []:
                    got |= set(params_of(a, ids, defs))
            for pid, p in ids.items():
                n += 1
                if pid not in got:
                    out.append((f, calls[0], f"factory:{f.name}:{p.n}", f"factory {f.name} drops its argument '{p.n}'"))
                elif c:
                    c.ok()
            g = P.callee(calls[0])
            seq = [next(iter(params_of(a, ids, defs)), None) for a in calls[0].args or []]
            seq = [x for x in seq if x is not None]
            pl = [p.d["id"] for p in f.params]
            for i in range(len(seq)):
                for j in range(i + 1, len(seq)):
                    if ids[seq[i]].type == ids[seq[j]].type and pl.index(seq[i]) > pl.index(seq[j]):
                        out.append((f, calls[0], f"factory:{f.name}:order", f"factory {f.name} passes '{ids[seq[i]].n}' and '{ids[seq[j]].n}' in swapped order"))
        elif news:
            for pid, p in ids.items():
                n += 1
                if not any(pid in params_of(x, ids, defs) for x in news):
                    out.append((f, f.body, f"factory:{f.name}:{p.n}", f"factory {f.name} drops its argument '{p.n}'"))
                elif c:
                    c.ok()
        elif c:
            c.undecided(f"{f.where()} factory {f.name}", "neither an aggregate nor a forwarding call found")
    return out, n


def caching(P, c=None):
    """The memo table answers for the node it was filled for."""
    out, n = [], 0
    for f in P.all:
        if f.dep or f.name != "process" or not f.cls or "CachingVisitor" not in (f.clsq or ""):
            continue
        finds = [x for x in f.walk() if x.k == "MCall" and x.n in ("find", "count", "contains", "at", "try_emplace", "insert", "emplace", "insert_or_assign") and x.obj is not None and "unordered_map" in x.obj.type]
        subs = [x for x in f.walk() if x.k == "OpCall" and x.op == "[]" and "unordered_map" in x.args[0].type]
        if not finds and not subs:
            continue
        defs = {v.d["id"]: v.init for x in f.walk() if x.k == "Decl" for v in x.v or [] if v.init is not None}
        pid = f.params[0].d["id"]

        def isnode(e):
            e = strip(e)
            if e.k == "Ref" and e.d.get("id") in defs:
                return isnode(defs[e.d["id"]])
            return e.k == "MCall" and e.n == "get" and strip(e.obj).k == "Ref" and strip(e.obj).d.get("id") == pid
        for x in finds + subs:
            a = x.args[0] if x.k == "MCall" else x.args[1]
            n += 1
            if isnode(a):
                if c: c.ok(f"{f.where(x)} memo key")
            else:
                out.append((f, x, "memo:key", "the memo table is accessed under a key other than the processed node"))
    return out, n


class _F:
    def __init__(self, name):
        self.name = name


def selftest_marks(p):
    """Driver convention: visitor classes Bad_x / Good_x have marker functions bad_x / good_x."""
    for f, node, k, msg in analyse(p)[0]:
        v = k.split(":")[0]
        if v.startswith(("Bad_", "Good_")):
            yield (_F(v[0].lower() + v[1:]),)


def check(c):
    srcs = list(dict.fromkeys(SRCS))
    P = prog.load(srcs, EXTRA)
    c.rule("must-coverage dataflow per (visitor, node kind, operand field): on every path to a normal return the field (every element, for lists) is handed to the visitor's dispatcher; null/empty operands count as processed; helpers are summarised from their bodies")
    c.rule("cache clearing covers every operand field of every node kind (one specialisation of the visiting lambda per kind)")
    c.rule("each factory stores each argument, same-typed arguments in declaration order; the memo table is keyed by the processed node")
    for part in (analyse, factories, caching):
        out, n = part(P, c)
        for f, node, k, msg in out:
            c.bad(f"{f.rel}:{k}", f.where(node), msg)
        c.count(part.__name__, n)
    vs = visitors(P)
    c.count("visitor methods", len(vs))
    for (v, nn, fld), why in EXEMPT.items():
        c.assume.append(f"{v}({nn}).{fld} need not be processed: {why}")
    c.need("analyse", 50); c.need("factories", 40); c.need("caching", 2)
    c.selftest("c04_positive.cpp", selftest_marks, EXTRA)
    return c.finish("All visitors over the kernel graph (rotation count, rotation evaluation, evaluation, printing, depth) and the graph's factories, instantiated; obligations are (visitor, node kind, operand field) triples and factory arguments. IRMaterializingVisitor does not parse against the installed MLIR and is not covered.")
