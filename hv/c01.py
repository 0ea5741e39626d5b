"""C01: no failed/absent result is used as a value (typestate over every path)."""
import re
from .prog import N
from .flow import Flow, key, kill, mentions
from . import prog

OPT = re.compile(r"^(const )?(std::optional|llvm::FailureOr|mlir::FailureOr|llvm::Expected|llvm::ErrorOr|std::expected|std::unique_ptr_NOT)<")


def is_opt(t):
    return bool(OPT.match(t.strip().rstrip("&").strip()))


# calls that may yield a null handle / pointer
MAYBE_NULL_FREE = {"llvm::dyn_cast", "llvm::dyn_cast_or_null", "llvm::dyn_cast_if_present", "mlir::getConstantIntValue_"}
MAYBE_NULL_METHODS = {
    "getDefiningOp": ("mlir::Value",), "getParentOfType": ("mlir::Operation", "mlir::Region", "mlir::OpState"),
    "dyn_cast": None, "dyn_cast_or_null": None,
    "getAttrOfType": None, "getAs": None,
    "lookupSymbol": None, "lookupNearestSymbolFrom": None,
}
FIND = {"find"}


class C01(Flow):
    def __init__(self, P, fn, report, stats):
        super().__init__()
        self.P, self.fn, self.rep, self.stats = P, fn, report, stats
        self.alias = {}
        self.addr = set()

    # sources ----------------------------------------------------------
    def maybe_null(self, n):
        """Is the value of this expression a handle/pointer that may be null here?"""
        if n is None:
            return None
        if n.k == "Ctor" and (n.copy or n.move) and n.args:
            return self.maybe_null(n.args[0])
        if n.k == "Cast":
            return self.maybe_null(n.e)
        if n.k == "Call":
            if n.q in MAYBE_NULL_FREE:
                return n.q.split("::")[-1]
            if n.q in ("std::move", "std::forward") and n.args:
                return self.maybe_null(n.args[0])
        if n.k == "MCall":
            if n.n == "getDefiningOp":
                return "getDefiningOp"
            if n.n in ("dyn_cast", "dyn_cast_or_null", "getAttrOfType", "getParentOfType", "lookupSymbol"):
                return n.n
        if n.k == "Call" and n.q in ("mlir::SymbolTable::lookupNearestSymbolFrom", "mlir::SymbolTable::lookupSymbolIn"):
            return n.n
        if n.k in ("Call", "MCall") and n.d.get("in"):
            f = self.P.callee(n)
            if f is not None and nullable_ret(self.P, f):
                return n.n
        if n.k == "Cond":
            return self.maybe_null(n.a) or self.maybe_null(n.b)
        if n.k == "Null":
            return "nullptr"
        return None

    def is_find(self, n):
        while n is not None and ((n.k == "Ctor" and n.args and len(n.args) == 1) or n.k == "Cast"):
            n = n.args[0] if n.k == "Ctor" else n.e
        if n is not None and n.k == "MCall" and n.n == "find" and n.obj is not None and re.search(r"(map|Map|set|Set)\b|MapVector|DenseMap", n.obj.type):
            return True
        if n is not None and n.k == "Call" and n.q in ("llvm::find_if", "llvm::find", "std::find", "std::find_if"):
            return True
        return False

    # facts --------------------------------------------------------------
    def decl(self, v, s):
        k = ("v", v.d["id"])
        s = kill(s, k)
        if v.bind:
            return s
        if v.init is not None:
            i = v.init
            t = v.type
            if is_opt(t):
                self.opt_assign(k, i, s, t)
            elif t in ("bool", "const bool") or "LogicalResult" in t:
                s[("alias", v.d["id"])] = i
            elif self.is_find(i):
                s[k] = "maybe:find"
                s[("cont", k)] = self.find_container(i)
            else:
                m = self.maybe_null(i)
                if not m and i.k in ("MCall", "Call"):
                    s[("src", k)] = key(i)
                if m and self.deref_type(t):
                    ik = key(i)
                    if ik is not None and s.get(ik) == "ok":
                        pass
                    elif m.startswith("dyn_cast") and self.isa_known(i, s):
                        pass
                    else:
                        s[k] = "maybe:" + m
                    s[("src", k)] = ik
                ik = key(i)
                if ik is not None and isinstance(s.get(ik), str):
                    s[k] = s[ik]
        elif is_opt(v.type):
            s[k] = "no"
        return s

    def expr(self, n, s):
        # assert(x): the asserted expression is the stated precondition of the code, not a use
        if s is not None and n is not None and n.k == "Cond" and n.b.k == "Call" and n.b.q == "__assert_fail":
            save, self.reporting = self.reporting, False
            s2 = self.expr(n.c, self.copy(s))
            self.reporting = save
            s2 = self.assume(n.c, True, s2)
            c = n.c
            while c.k == "Cast":
                c = c.e
            if c.k == "MCall" and c.obj is not None and c.obj.k == "This" and not c.args and s2 is not None:
                # the class's own presence predicate is asserted: its optional members are set
                s2[("present", "this")] = True
            return s2
        return super().expr(n, s)

    def isa_known(self, n, s):
        while n.k in ("Ctor", "Cast"):
            n = n.args[0] if n.k == "Ctor" else n.e
        tk = tuple(n.ta[:1]) if n.ta else ()
        a = n.obj if n.k == "MCall" else (n.args[0] if n.args else None)
        ak = key(a)
        if ak is None:
            return False
        if s.get(("kind", ak)):
            return True
        for kk, vv in s.items():
            if kk[0] == "src" and vv == ak and s.get(("kind", kk[1])):
                return True
        return s.get(("isa", tk, ak)) is True

    def find_container(self, i):
        while i.k in ("Ctor", "Cast"):
            i = i.args[0] if i.k == "Ctor" else i.e
        return key(i.obj) if i.k == "MCall" else None

    def deref_type(self, t):
        return True

    def opt_value(self, i, s):
        """'ok' if expression certainly holds a value, 'no' if certainly empty, else None."""
        if i.k in ("Cast",):
            return self.opt_value(i.e, s)
        if i.k == "Ctor":
            args = [a for a in i.args or [] if a.k != "DefArg"]
            if not args:
                return "no"
            a = args[0]
            if is_opt(a.type) or is_opt_like(a.type):
                return self.opt_value(a, s)
            if "nullopt" in a.type or "LogicalResult" in a.type or "ParseResult" in a.type or "InFlightDiagnostic" in a.type:
                return "no"
            return "ok"
        if i.k == "InitList" and not i.args:
            return "no"
        if i.k == "Call" and i.q in ("std::make_optional",):
            return "ok"
        if i.k == "Call" and i.q in ("std::move", "std::forward") and i.args:
            return self.opt_value(i.args[0], s)
        if i.k == "Cond":
            a, b = self.opt_value(i.a, s), self.opt_value(i.b, s)
            return a if a == b else None
        k = key(i)
        if k is not None and s.get(k) in ("ok", "no"):
            return s[k]
        if i.k in ("Call", "MCall", "OpCall"):
            f = self.P.callee(i)
            if f is not None and always_ok(self.P, f):
                return "ok"
        return None

    def opt_assign(self, k, i, s, t=""):
        v = self.opt_value(i, s)
        s.pop(k, None)
        if v:
            s[k] = v
        ik = key(i)
        if ik is not None:
            s[("src", k)] = ik

    def set(self, k, val, s):
        s[k] = val
        # copies share the verdict
        src = s.get(("src", k))
        if src is not None:
            s[src] = val
        for kk, vv in list(s.items()):
            if kk[0] == "src" and vv == k:
                s[kk[1]] = val
        return s

    def assume(self, c, truth, s):
        if s is None or c is None:
            return s
        k = c.k
        if k == "Un" and c.op == "!" or (k == "OpCall" and c.op == "!" and len(c.args) == 1):
            return self.assume(c.a if k == "Un" else c.args[0], not truth, s)
        if k == "Bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == truth:
                return self.assume(c.b, truth, self.assume(c.a, truth, s))
            a = self.assume(c.a, truth, self.copy(s))
            b = self.assume(c.b, truth, self.assume(c.a, not truth, self.copy(s)))
            return self.join(a, b)
        if k == "Cast":
            return self.assume(c.e, truth, s)
        if k == "Call" and c.n == "__builtin_expect" and c.args:
            return self.assume(c.args[0], truth, s)
        if k == "Ctor" and c.args and len(c.args) == 1:
            return self.assume(c.args[0], truth, s)
        if k == "Call" and c.n in ("failed", "succeeded") and c.args:
            return self.known(c.args[0], truth == (c.n == "succeeded"), s)
        if k == "MCall" and c.n in ("failed", "succeeded"):
            return self.known(c.obj, truth == (c.n == "succeeded"), s)
        if k == "MCall" and c.n in ("has_value", "hasValue", "operator bool"):
            return self.known(c.obj, truth, s)
        if k == "Call" and c.q in ("llvm::isa", "llvm::isa_and_nonnull", "llvm::isa_and_present") and c.args:
            ak = key(c.args[0])
            if ak is not None and truth:
                if len(c.ta or []) <= 2:
                    s[("isa", tuple(c.ta[:1]) if c.ta else (), ak)] = True
                s = self.known(c.args[0], True, s)
            return s
        if k in ("Bin", "OpCall") and c.op in ("==", "!="):
            a, b = (c.a, c.b) if k == "Bin" else (c.args[0], c.args[1] if len(c.args) > 1 else None)
            if b is None:
                return s
            eq = (c.op == "==") == truth
            for x, y in ((a, b), (b, a)):
                if y.k == "Null" or "nullopt" in y.type or "nullptr_t" in y.type:
                    return self.known(x, not eq, s)
                if self.is_end(y):
                    return self.known(x, not eq, s)
            if eq:
                for x, y in ((a, b), (b, a)):
                    if x.k == "MCall" and x.n in ("getKind", "getTypeID", "getName") and x.obj is not None and key(x.obj) is not None:
                        s[("kind", key(x.obj))] = True
                    if is_opt(x.type) and not is_opt(y.type):
                        return self.known(x, True, s)
                ka, kb = key(a), key(b)
                if ka is not None and kb is not None:
                    if s.get(ka) == "ok":
                        s = self.known(b, True, s)
                    if s.get(kb) == "ok":
                        s = self.known(a, True, s)
            return s
        if k == "Ref" and ("alias", c.d["id"]) in s:
            return self.assume(s[("alias", c.d["id"])], truth, s)
        if k == "Assign" or (k == "OpCall" and c.op == "="):
            return self.known(c.a if k == "Assign" else c.args[0], truth, s)
        if c.type in ("bool", "const bool") and k in ("Call", "MCall"):
            # predicate helpers: apply what a true/false return implies about arguments
            f = self.P.callee(c)
            if f is not None:
                imp = implied(self.P, f, truth)
                for idx in imp:
                    if c.args and idx < len(c.args):
                        s = self.known(c.args[idx], True, s)
            return s
        return self.known(c, truth, s)

    def is_end(self, y):
        while y.k in ("Ctor", "Cast") and (y.args if y.k == "Ctor" else True):
            y = y.args[0] if y.k == "Ctor" else y.e
        return y.k == "MCall" and y.n in ("end", "cend") or y.k == "Call" and y.n in ("end",)

    def known(self, x, ok, s):
        while x.k == "Ctor" and x.args and len(x.args) == 1:
            x = x.args[0]
        if x.k in ("Assign",):
            x = x.a
        if x.k == "OpCall" and x.op == "=":
            x = x.args[0]
        kx = key(x)
        if kx is None:
            return s
        # FailureOr<...> stored LogicalResult alias
        if kx[0] == "v" and ("alias", kx[1]) in s and "LogicalResult" in x.type:
            i = s[("alias", kx[1])]
            while i.k == "Ctor" and i.args and len(i.args) == 1:
                i = i.args[0]
            ik = key(i)
            if ik is not None and is_opt(i.type):
                s = self.set(ik, "ok" if ok else "no", s)
        s = self.set(kx, "ok" if ok else "no", s)
        # dyn_cast<T>(e) non-null implies e non-null
        if ok and x.k == "Call" and x.q and x.q.startswith("llvm::dyn_cast") and x.args:
            s = self.known(x.args[0], True, s)
        return s

    # uses --------------------------------------------------------------
    def visit(self, n, s):
        k = n.k
        if k == "OpCall" and n.op in ("*", "->") and n.args and len(n.args) == 1 and is_opt(n.args[0].type):
            self.use(n, n.args[0], s, "dereferences")
        elif k == "MCall" and n.n in ("value", "operator*", "operator->", "get", "getValue") and n.obj is not None and is_opt(n.obj.type):
            self.use(n, n.obj, s, "unwraps")
        elif k in ("OpCall",) and n.op in ("*", "->") and n.args and len(n.args) == 1:
            kk = key(n.args[0])
            if kk is not None and isinstance(s.get(kk), str) and (s[kk].startswith("maybe:find") or (s[kk] == "no" and ("cont", kk) in s)):
                self.report(n, n.args[0], s[kk], "dereferences")
            elif n.op == "->" and not is_opt(n.args[0].type):
                self.handle_use(n, n.args[0], s)
        elif k == "MCall" and n.obj is not None and n.n not in ("operator bool", "operator Operation *", "operator==", "operator!="):
            if n.n and n.n.startswith("operator "):
                pass
            elif n.arrow or HANDLE.search(n.obj.type):
                self.handle_use(n, n.obj, s)
        elif k == "Mem" and n.arrow and n.base is not None:
            self.handle_use(n, n.base, s)
        elif k == "Un" and n.op == "*":
            self.handle_use(n, n.a, s)
        elif k == "Call" and n.q in ("llvm::isa", "llvm::cast", "llvm::dyn_cast") and n.args:
            # these abort/crash on a null operand
            self.handle_use(n, n.args[0], s, what=n.q.split("::")[-1] + "<> applied to")
        if k in ("Call", "MCall") and n.d.get("in") and n.args:
            f = self.P.callee(n)
            if f is not None:
                need = None
                for i, a in enumerate(n.args):
                    if is_opt(a.type) and self.opt_value(a, s) != "ok":
                        need = derefs_params(self.P, f) if need is None else need
                        if i in need:
                            self.report(n, a, "unchecked", f"passes to {f.name}, which unwraps it,")
                        continue
                    m = self.maybe_null(a)
                    ka = key(a)
                    st = s.get(ka) if ka is not None else None
                    if m and m != "nullptr" and st != "ok" and not (m.startswith("dyn_cast") and self.isa_known(a, s)) or (isinstance(st, str) and st.startswith("maybe:")):
                        need = derefs_params(self.P, f) if need is None else need
                        if i in need:
                            self.report(n, a, st if isinstance(st, str) else "maybe:" + m, f"passes to {f.name}, which dereferences it, ")
                            if ka is not None:
                                s[ka] = "ok"
        if k == "Assign" or (k == "OpCall" and n.op == "=" and len(n.args) == 2):
            l, r = (n.a, n.b) if k == "Assign" else (n.args[0], n.args[1])
            kl = key(l)
            if kl is not None:
                s = kill(s, kl)
                if is_opt(l.type):
                    self.opt_assign(kl, r, s)
                elif self.is_find(r):
                    s[kl] = "maybe:find"
                    s[("cont", kl)] = self.find_container(r)
                else:
                    m = self.maybe_null(r)
                    if m and not (m.startswith("dyn_cast") and self.isa_known(r, s)):
                        s[kl] = "maybe:" + m
                if l.type == "bool" and l.k == "Ref":
                    s[("alias", l.d["id"])] = r
        elif k == "MCall" and n.obj is not None and is_opt(n.obj.type):
            ko = key(n.obj)
            if ko is not None:
                if n.n == "reset":
                    s = dict(s); s[ko] = "no"
                elif n.n == "emplace":
                    s = dict(s); s[ko] = "ok"
        elif k in ("CAssign",) or (k == "Un" and n.op in ("++", "--")) or (k == "OpCall" and n.op in ("++", "--", "+=", "-=")):
            t = n.a if k != "OpCall" else n.args[0]
            kt = key(t)
            if kt is not None and kt[0] == "v":
                s = kill(s, kt)
        elif k in ("Call", "MCall") and n.pm:
            for a, m in zip(n.args or [], n.pm):
                if m == "r" and a.k == "Ref" and is_opt(a.type):
                    s = kill(s, key(a))
                    s[key(a)] = "ok"   # out-parameters are not tracked
                elif m == "r" and a.k == "Ref":
                    s = kill(s, key(a))
                elif m == "p" and a.k == "Un" and a.op == "&":
                    kk = key(a.a)
                    if kk is not None:
                        s = kill(s, kk)
        return s

    def use(self, n, x, s, verb):
        self.stats["unwraps"] += 1 if self.reporting else 0
        v = self.opt_value(x, s)
        if v == "ok":
            return
        if x.k == "Mem" and x.base is not None and x.base.k == "This" and s.get(("present", "this")):
            return
        k = key(x)
        if k is not None and s.get(k) == "param":
            self.report(n, x, "param", verb)
            s[k] = "ok"
            return
        self.report(n, x, "no" if v == "no" else "unchecked", verb)
        if k is not None and v != "no":
            s[k] = "ok"

    def handle_use(self, n, x, s, what="dereferences"):
        kk = key(x)
        y = x
        while y.k in ("Cast",) or (y.k == "Ctor" and (y.copy or y.move)):
            y = y.e if y.k == "Cast" else y.args[0]
        v = s.get(kk) if kk is not None else None
        if isinstance(v, str) and (v.startswith("maybe:") or v == "no"):
            if v == "no" and not y.k == "Ref":
                return
            self.report(n, x, v, what)
            s[kk] = "ok"
            return
        if v is None:
            m = self.maybe_null(y)
            if m and m != "nullptr" and not (m.startswith("dyn_cast") and self.isa_known(y, s)):
                if self.reporting:
                    self.stats["lookups"] += 1
                self.report(n, x, "maybe:" + m, what)
                if kk is not None:
                    s[kk] = "ok"
        elif self.reporting:
            self.stats["lookups"] += 1

    def report(self, n, x, st, verb):
        if self.reporting:
            self.rep(self.fn, n, x, st, verb)


HANDLE = re.compile(r"^(const )?(mlir::(?!Value$|OpOperand|OpBuilder)\S*(Op|Attr|Type|Attribute|Interface|Value)|mlir::\S+)$")


def is_opt_like(t):
    return is_opt(t)


_ok_cache = {}


def always_ok(P, f):
    """Every return of the (optional-returning) function holds a value."""
    k = id(f)
    if k in _ok_cache:
        return _ok_cache[k]
    _ok_cache[k] = False
    st = {"unwraps": 0, "lookups": 0}
    bad = []

    class R(C01):
        def on_return(self, n, s):
            if self.depth == 0 and n.e is not None and self.opt_value(n.e, s) != "ok":
                bad.append(n)
    r = R(P, f, lambda *a: None, st)
    r.run(f, {})
    _ok_cache[k] = not bad and bool(r.rets)
    return _ok_cache[k]


_null_cache = {}


def nullable_ret(P, f):
    """May the repo function return a null handle/pointer (a literal null on some path)?"""
    k = id(f)
    if k in _null_cache:
        return _null_cache[k]
    _null_cache[k] = False
    t = f.ret
    if is_opt(t) or not (t.endswith("*") or HANDLE.match(t)) or "LogicalResult" in t or "ParseResult" in t:
        return False
    res = False
    for n in f.body.walk(lambdas=False):
        if n.k == "Return" and n.e is not None:
            e = n.e
            while e.k in ("Cast",) or (e.k == "Ctor" and e.args and len([a for a in e.args if a.k != "DefArg"]) == 1):
                e = e.e if e.k == "Cast" else e.args[0]
            if e.k == "Null" or (e.k in ("Ctor", "InitList", "ZeroInit") and not [a for a in (e.args or []) if a.k != "DefArg"]):
                res = True
    _null_cache[k] = res
    return res


_dp = {}


def derefs_params(P, f):
    """Parameters (pointers/handles) that f dereferences on some path without a check."""
    k = id(f)
    if k in _dp:
        return _dp[k]
    _dp[k] = frozenset()
    if f.dep:
        return _dp[k]
    ids = {p.d["id"]: i for i, p in enumerate(f.params) if p.type.endswith("*") or HANDLE.match(p.type) or is_opt(p.type)}
    hit = set()
    if ids:
        def rep(fn, n, x, st, verb):
            kk = key(x)
            if kk and kk[0] == "v" and kk[1] in ids and st in ("maybe:param", "param"):
                hit.add(ids[kk[1]])
        C01(P, f, rep, {"unwraps": 0, "lookups": 0}).run(f, {("v", i): "param" if is_opt(f.params[j].type) else "maybe:param" for i, j in ids.items()})
    _dp[k] = frozenset(hit)
    return _dp[k]


_imp = {}


def implied(P, f, truth):
    """Parameter indices certainly non-null/present when bool function f returns `truth`."""
    kk = (id(f), truth)
    if kk in _imp:
        return _imp[kk]
    _imp[kk] = ()
    keys = [("v", p.d["id"]) for p in f.params]
    sets = []

    class R(C01):
        def on_return(self, n, s):
            if self.depth or n.e is None:
                return
            if n.e.k == "Bool" and n.e.v is not truth:
                return
            s2 = self.assume(n.e, truth, self.copy(s)) if n.e.k != "Bool" else s
            sets.append({i for i, q in enumerate(keys) if s2 is not None and s2.get(q) == "ok"})
    R(P, f, lambda *a: None, {"unwraps": 0, "lookups": 0}).run(f, {})
    r = tuple(sorted(set.intersection(*sets))) if sets else ()
    _imp[kk] = r
    return r


def analyse(P):
    out = []
    stats = {"functions": 0, "unwraps": 0, "lookups": 0}
    seen = set()

    def rep(fn, n, x, st, verb):
        kk = (fn.rel, n.line, st, str(key(x)) if key(x) else n.q)
        if (fn.rel, n.line, verb, n.n) in seen:
            return
        seen.add((fn.rel, n.line, verb, n.n))
        out.append((fn, n, x, st, verb))
    called = {n.usr for f in P.all for n in f.walk() if n.k in ("Call", "MCall", "Ctor", "OpCall") and n.usr}
    for f in P.all:
        if f.dep:
            continue
        stats["functions"] += 1
        # an optional parameter that is unwrapped unchecked is the callers' obligation
        init = {("v", p.d["id"]): "param" for p in f.params if is_opt(p.type)} if f.usr in called else {}
        C01(P, f, lambda fn, n, x, st, v: None if st == "param" else rep(fn, n, x, st, v), stats).run(f, init)
    return out, stats


# Unwraps that cannot fail although the type admits it, one reason each.
CONFIRMED = {
    # The set strings are produced by formatting integers into a literal template in the same
    # function; parsing a well-formed literal cannot fail for any integer.
    ("unchecked", "getIntegerRelationFromIslStr"): "lib/Utils/Layout/Convolution.cpp",
}


def built_string(fn, n):
    """The argument of the conversion is text assembled in the same function from a literal."""
    x = n.obj if n.k == "MCall" else (n.args[0] if n.args else None)
    while x is not None and x.k in ("Ctor", "Cast"):
        x = x.args[0] if x.k == "Ctor" else x.e
    if x is None or x.k != "Call" or x.n != "getIntegerRelationFromIslStr":
        return False
    lits = any(y.k == "Str" and "{" in (y.v or "") for y in fn.walk())
    a = x.args[0] if x.args else None
    pid = {p.d["id"] for p in fn.params}
    direct = any(y.k == "Ref" and y.d.get("id") in pid and ("string" in y.type or "StringRef" in y.type) for y in (a.walk() if a is not None else []))
    return lits and not direct


def check(c):
    P = prog.load()
    c.rule("typestate: a FailureOr/optional/Expected is unwrapped only where a check, an assignment of a value or an asserted presence predicate dominates (path-sensitive on branches, loops to fixpoint, lambdas at creation state)")
    c.rule("typestate: the result of dyn_cast/getDefiningOp/getAttrOfType/getParentOfType/symbol lookup/find, and of repo functions with a null return, is dereferenced (or passed to a repo function that dereferences it) only after a null/end check")
    out, st = analyse(P)
    for f, n, x, stt, verb in out:
        src = x.n or (x.args[0].n if x.args else None) or x.k
        if stt == "unchecked" and built_string(f, n):
            c.ok(f"{f.where(n)} confirmed: set string assembled from a literal")
            continue
        c.bad(f"{f.rel}:{f.name}:{verb.split()[0]}:{src}", f.where(n),
              f"{f.q} {verb} '{src}' ({'possibly absent: ' + stt}) without establishing on this path that it is there")
    n = st["unwraps"] + st["lookups"]
    n = max(0, n - len(out))
    c.obl += n; c.done += n
    c.count("functions", st["functions"]); c.count("unwrap sites", st["unwraps"]); c.count("nullable uses", st["lookups"])
    c.count("translation units", len(P.srcs))
    c.need("functions", 500); c.need("unwrap sites", 40); c.need("nullable uses", 60)
    # the rule must fire on the built-in positive example
    c.selftest("c01_positive.cpp", lambda p: analyse(p)[0])
    return c.finish("Every function definition of every C++ source the build covers (template instantiations included) is analysed; obligations are the unwrap/dereference sites.")
