"""C02: a failing step makes the operation that contains it fail."""
import re
from .prog import N
from .flow import Flow, key, kill
from . import prog, facts

RES = re.compile(r"^(const )?(llvm::LogicalResult|mlir::ParseResult|llvm::ParseResult|mlir::OptionalParseResult|(llvm|mlir)::FailureOr<.*>|llvm::Error|llvm::Expected<.*>)$")
PRED = re.compile(r"^(can|is|has|should|does|supports)[A-Z]")
ERR = re.compile(r"emit(Op)?Error$|emitError$")


def is_res(t):
    return bool(RES.match(t))


def strip(n):
    while n is not None and (n.k == "Cast" or (n.k == "Ctor" and n.args and len([a for a in n.args if a.k != "DefArg"]) == 1 and (n.copy or n.move or is_res(n.type)))):
        n = n.e if n.k == "Cast" else n.args[0]
    return n


class C02(Flow):
    """State: ("failed",k) -> (line, what): a sub-step is known to have failed on some path here;
    ("signalled",) : the pass failure has been signalled; ("val",id) -> ok|fail : constant LogicalResult;
    ("pend",id) -> line : result stored and not yet read; ("rec",) : failure recorded in an outer variable."""

    def __init__(self, P, fn, rep, stats):
        super().__init__()
        self.P, self.fn, self.rep, self.stats = P, fn, rep, stats
        self.kinds = ["fn"]
        self.escaped = set()

    def join(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        out = {}
        for k in set(a) | set(b):
            if k[0] in ("failed", "pend"):
                out[k] = a.get(k) or b.get(k)
            elif k in a and k in b and a[k] == b[k]:
                out[k] = a[k]
        for src, oth in ((a, b), (b, a)):
            for flag in (("signalled",), ("rec",)):
                if flag in src and flag not in oth:
                    for k in list(out):
                        if k[0] == "failed" and k in src and k not in oth:
                            del out[k]
        return out

    def enter_lambda(self, n, s):
        return {k: v for k, v in s.items() if k[0] in ("alias",)}

    def after_lambda(self, n, s, ex):
        return s

    def lambda_(self, n, s):
        # captured by reference: reads and writes inside count as reads
        if s is not None:
            for x in n.walk():
                if x.k == "Ref" and x.dk != "func" and "id" in x.d:
                    s = dict(s)
                    s.pop(("pend", x.d["id"]), None)
                    s.pop(("val", x.d["id"]), None)
                    self.escaped.add(x.d["id"])
        self.kinds.append("lambda")
        r = super().lambda_(n, s)
        self.kinds.pop()
        return r

    def decl(self, v, s):
        if v.init is not None and (v.type in ("bool", "const bool") or is_res(v.type)):
            s = dict(s)
            s[("alias", v.d["id"])] = v.init
            self.store(v.d["id"], v.type, v.init, v.line, s)
        return s

    def store(self, vid, t, init, line, s):
        s.pop(("val", vid), None)
        if is_status(t):
            w = self.verdict(init, s)
            if w in ("ok", "fail"):
                s[("val", vid)] = w
            i = strip(init)
            s.pop(("pend", vid), None)
            if vid not in self.escaped and i is not None and i.k in ("Call", "MCall", "OpCall") and w not in ("ok", "fail"):
                s[("pend", vid)] = line

    def assume(self, c, truth, s):
        if s is None or c is None:
            return s
        k = c.k
        if (k == "Un" or k == "OpCall") and c.op == "!":
            return self.assume(c.a if k == "Un" else c.args[0], not truth, s)
        if k == "Bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == truth:
                return self.assume(c.b, truth, self.assume(c.a, truth, s))
            a = self.assume(c.a, truth, self.copy(s))
            b = self.assume(c.b, truth, self.assume(c.a, not truth, self.copy(s)))
            return self.join(a, b)
        if k == "Cast" or (k == "Ctor" and c.args and len(c.args) == 1):
            inner = c.e if k == "Cast" else c.args[0]
            if is_res(inner.type) and "ParseResult" in inner.type and c.type == "bool":
                return self.fact(inner, truth, s)
            return self.assume(inner, truth, s)
        if k == "Call" and c.n in ("failed", "succeeded") and c.args:
            return self.fact(c.args[0], truth == (c.n == "failed"), s)
        if k == "MCall" and c.n in ("failed", "succeeded"):
            return self.fact(c.obj, truth == (c.n == "failed"), s)
        if k == "MCall" and c.n == "operator bool" and c.obj is not None and "ParseResult" in c.obj.type:
            return self.fact(c.obj, truth, s)
        if k == "Bool" and c.v is not None:
            return s if bool(c.v) == truth else None
        if k == "Ref" and ("alias", c.d["id"]) in s:
            return self.assume(s[("alias", c.d["id"])], truth, s)
        return s

    def fact(self, x, failed, s):
        x = strip(x)
        kx = key(x) or ("node", x.line, x.q or x.k)
        s = dict(s)
        if x.k in ("Call", "MCall") and x.n and PRED.match(x.n):
            return s   # a predicate phrased as LogicalResult: its negative answer is not a failure
        if failed:
            if self.reporting:
                self.stats["checked"] += 1
            s[("failed", kx)] = (x.line, x.n or (x.q or x.k))
            if kx[0] == "v":
                s[("val", kx[1])] = "fail"
        else:
            s.pop(("failed", kx), None)
            if kx[0] == "v":
                s[("val", kx[1])] = "ok"
        return s

    def visit(self, n, s):
        if n.k in ("MCall", "Call") and n.n == "signalPassFailure":
            s = dict(s); s[("signalled",)] = True
        if n.k == "Ref" and ("pend", n.d.get("id")) in s and not self.lhs(n):
            s = dict(s); s.pop(("pend", n.d["id"]), None)
        if n.k == "Assign" or (n.k == "OpCall" and n.op == "=" and len(n.args) == 2):
            l = n.a if n.k == "Assign" else n.args[0]
            r = n.b if n.k == "Assign" else n.args[1]
            kl = key(l)
            s = dict(s)
            if kl is not None:
                s = {k: v for k, v in s.items() if not (k[0] == "failed" and k[1] == kl)}
                if kl[0] == "v" and l.k == "Ref":
                    if ("pend", kl[1]) in s and is_status(l.type):
                        self.report(n, "lost", f"the result stored in '{l.n}' at line {s[('pend', kl[1])]} is overwritten before anything reads it")
                    if is_status(l.type):
                        self.store(kl[1], l.type, r, n.line, s)
                        if self.verdict(r, s) == "fail":
                            s[("rec",)] = True
                    elif l.type == "bool":
                        s[("rec",)] = True
        return s

    def lhs(self, n):
        return n.d.get("_lhs")

    def report(self, n, kind, msg):
        if self.reporting:
            self.rep(self.fn, n, kind, msg)

    def expr(self, n, s):
        # mark plain assignment targets so that they do not count as reads
        if n is not None and (n.k == "Assign" or (n.k == "OpCall" and n.op == "=" and n.args and len(n.args) == 2)):
            l = n.a if n.k == "Assign" else n.args[0]
            if l.k == "Ref":
                l.d["_lhs"] = True
        return super().expr(n, s)

    def on_return(self, n, s):
        self.leaf(n, s, n.e)

    def stmt(self, n, s):
        x = n
        void = False
        while x is not None and x.k == "Cast":
            void = void or x.type == "void"
            x = x.e
        if s is not None and x is not None:
            if x.k in ("OpCall", "MCall", "Call", "Ctor") and "InFlightDiagnostic" in x.type:
                d = [y for y in x.walk(lambdas=False) if y.k in ("Call", "MCall") and y.n and ERR.search(y.n)]
                o = super().stmt(n, s)
                if d and o["next"] is not None:
                    o["next"] = dict(o["next"])
                    o["next"][("failed", ("diag", n.line))] = (n.line, d[0].n)
                return o
            if x.k in ("Call", "MCall", "OpCall") and is_res(x.type) and not (x.k == "OpCall" and x.op == "="):
                if self.reporting:
                    self.stats["statements"] += 1
                if not (x.n or "").startswith("applyPatterns") and not (x.n or "").startswith("try"):
                    self.report(x, "discarded", f"the result of {x.n or x.q} is discarded")
            if x.k in ("MCall", "Call") and "WalkResult" in x.type and x.n == "walk":
                bad = self.walk_fails(x)
                if bad:
                    self.report(x, "walk", f"the callback stops the walk after {bad} but the walk's result is discarded")
        return super().stmt(n, s)

    def walk_fails(self, x):
        """Does a callback interrupt after a failure without recording it anywhere?"""
        found = []
        outer = self
        class W(C02):
            def leaf(self, n, s, e):
                if self.kinds[-1] == "lambda" and len(self.kinds) == 2 and self.verdict(e, s) == "fail" and ("rec",) not in s:
                    f = [v for k, v in s.items() if k[0] == "failed"]
                    if f:
                        found.append(f"{f[0][1]} failed (line {f[0][0]})")
                    elif e is not None and any(y.k in ("Call", "MCall") and y.n and ERR.search(y.n) for y in e.walk()):
                        found.append(f"an error (line {n.line})")
        w = W(self.P, self.fn, lambda *a: None, __import__("collections").Counter())
        w.expr(x, {})
        return found[0] if found else None

    def leaf(self, n, s, e):
        for k, v in s.items():
            if k[0] == "pend":
                if not any(x.k == "Ref" and x.d.get("id") == k[1] for x in (e.walk() if e is not None else ())):
                    self.report(n, "unread", f"the result stored at line {v} is never read on this path")
        bad = [v for k, v in s.items() if k[0] == "failed"]
        if not bad or ("signalled",) in s:
            return
        v = self.verdict(e, s)
        if self.reporting:
            self.stats["fail paths"] += 1
        if v == "ok" or (v == "void" and ("rec",) not in s):
            what = ", ".join(sorted({f"{b[1]} (line {b[0]})" for b in bad}))
            self.report(n, "success", f"reports success on a path on which {what} failed")

    def must_signal(self):
        return self.fn.name == "runOnOperation" and len(self.kinds) == 1

    def verdict(self, e, s):
        x = e
        while x is not None and x.k == "Ctor" and x.type.startswith(("llvm::FailureOr", "mlir::FailureOr")):
            a = [y for y in x.args or [] if y.k != "DefArg"]
            if len(a) != 1:
                break
            t = a[0].type
            if not is_res(t) and "Diagnostic" not in t and "FailureOr" not in t and "LogicalResult" not in t and "ParseResult" not in t:
                return "ok"
            x = a[0]
        e = strip(e)
        if e is None:
            return "void"
        if e.k == "Ref" and ("val", e.d.get("id")) in s:
            return s[("val", e.d["id"])]
        if e.k == "Cond":
            a, b = self.verdict(e.a, s), self.verdict(e.b, s)
            return a if a == b else "other"
        if e.k == "Call" and e.n in ("success", "failure"):
            a = [a for a in e.args or [] if a.k != "DefArg"]
            t = True
            if a:
                if a[0].k != "Bool":
                    return "other"
                t = a[0].v
            return "ok" if (e.n == "success") == bool(t) else "fail"
        if e.k in ("Call", "MCall") and e.n == "interrupt":
            return "fail"
        if e.k in ("Call", "MCall") and e.n in ("advance", "skip"):
            return "ok"
        if any(x.k in ("Call", "MCall") and x.n and (ERR.search(x.n) or x.n == "notifyMatchFailure") for x in e.walk(lambdas=False)):
            return "fail"
        if e.k == "Ref" and "nullopt" in e.type:
            return "fail"
        return "other"


def is_status(t):
    return bool(re.match(r"^(const )?(llvm::LogicalResult|(mlir|llvm)::ParseResult|mlir::OptionalParseResult|llvm::Error)$", t))


def analyse(P):
    import collections
    st = collections.Counter()
    out, seen = [], set()

    def rep(fn, n, kind, msg):
        k = (fn.rel, n.line, kind, msg)
        if k not in seen:
            seen.add(k)
            out.append((fn, n, kind, msg))
    for f in P.all:
        if f.dep:
            continue
        st["functions"] += 1
        a = C02(P, f, rep, st)
        end = a.run(f, {})
        if end is not None:
            a.leaf(f.body, end, None)
    return out, st


def check(c):
    P = prog.load()
    c.rule("path-sensitive: after a branch establishes that a LogicalResult/ParseResult/FailureOr is failed, or an error diagnostic was emitted, no path reaches a literal success return (or the normal end of a pass/void function without signalPassFailure or a recorded failure); predicates phrased as results (can*/is*/has*) are exempt")
    c.rule("no status result is discarded, overwritten before it is read, or left unread on a path; no walk whose callback stops on a failure has its result discarded ((void) pattern-driver calls are exempt: not converging is not a failure of a step)")
    out, st = analyse(P)
    for f, n, kind, msg in out:
        c.bad(f"{f.rel}:{f.name}:{kind}", f.where(n), f"{f.q} {msg}")
    c.obl += st["fail paths"] + st["statements"]; c.done += st["fail paths"] + st["statements"] - len(out)
    for k in ("functions", "checked", "fail paths", "statements"):
        c.count(k, st[k])
    c.need("functions", 500); c.need("checked", 40)
    c.selftest("c02_positive.cpp", lambda p: analyse(p)[0])
    return c.finish("Every function definition of the C++ sources the build covers; obligations are the path ends on which some step is known to have failed, and the statements that ignore a result.")
