"""C19: nothing depends on hash order, addresses, uninitialised state or other sources that vary between runs."""
import re
from . import prog, facts
from .prog import N

HASH = re.compile(r"^(?:const )?(?:std::|llvm::)?(?:std::)?(unordered_(?:multi)?(?:map|set)|DenseMap|DenseSet|SmallDenseMap|SmallDenseSet|DenseMapBase|SmallPtrSet|SmallPtrSetImpl|StringMap|StringSet)\b")
TREE = re.compile(r"^(?:const )?std::(?:multi)?(map|set)<")
SEQ = re.compile(r"^(?:const )?(?:std::|llvm::|mlir::)?(?:std::)?(vector|SmallVector|SmallVectorImpl|SetVector|SmallSetVector|MapVector|list|deque|queue|stack|basic_string|SmallString|TypedSmallVector)\b")
KEYED = re.compile(r"^(?:const )?(?:std::|llvm::)?(?:std::)?((?:unordered_)?(?:multi)?(?:map|set)|DenseMap|DenseSet|SmallDenseMap|SmallDenseSet|DenseMapBase|SmallPtrSet|SmallPtrSetImpl|StringMap|StringSet|EquivalenceClasses|BitVector|SmallBitVector|bitset)\b")
STREAM = re.compile(r"raw_ostream|raw_indented_ostream|raw_string_ostream|raw_\w*ostream|basic_ostream|ostringstream|stringstream|Diagnostic\b")
BUILD = re.compile(r"\b(OpBuilder|PatternRewriter|RewriterBase|ConversionPatternRewriter|IRRewriter|ImplicitLocOpBuilder)\b")
IRPTR = re.compile(r"^(?:const )?(?:mlir::|llvm::)?(?:\w+::)*(Operation|Block|Region|OpOperand|void|\w*Storage|ValueImpl)(?: const)? \*(?: const)?$")
SORTS = ("sort", "stable_sort", "array_pod_sort", "partial_sort", "nth_element")
PICK = ("min_element", "max_element")
PURE = ("any_of", "all_of", "none_of", "is_contained", "count", "count_if", "find", "find_if", "size", "empty", "contains", "hasSingleElement", "set_intersects", "equal_range")
SCALAR = re.compile(r"^(?:const )?(?:bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|unsigned|long|unsigned long|long long|unsigned long long|float|double)$|\*(?: const)?$")
VARY = {"rand", "srand", "random", "drand48", "lrand48", "time", "clock", "getpid", "gettid", "gettimeofday", "clock_gettime", "getrandom", "tmpnam", "tempnam", "mktemp", "get_threadid"}
VARYQ = re.compile(r"random_device|chrono::\w*clock|this_thread::get_id|Process::GetRandomNumber|sys::Process::getProcessId|TimePoint")


def bare(t):
    t = (t or "").strip()
    while True:
        u = re.sub(r"^const |\s*(&&|&)$|\s*const$", "", t).strip()
        if u == t:
            return t
        t = u


def targ(t):
    """First template argument of a type."""
    i = t.find("<")
    if i < 0:
        return ""
    d = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">":
            d -= 1
        if d == 0 or (d == 1 and t[j] == ","):
            return t[i + 1:j].strip()
    return ""


def nargs(t):
    i = t.find("<"); d = 0; n = 1
    for ch in t[i:]:
        d += ch == "<"; d -= ch == ">"
        n += ch == "," and d == 1
        if d == 0:
            break
    return n


def addressed(k):
    """The type compares by address: a pointer, or a pair of them."""
    return bool(re.search(r"\*", k)) and not re.search(r"\(|char \*", k)


def unordered(t):
    """Why iterating the type has no fixed order, or None."""
    t = bare(t)
    m = HASH.match(t)
    if m:
        return "hash order of " + m.group(1)
    m = TREE.match(t)
    if m and addressed(targ(t)) and nargs(t) <= (2 if "map" in m.group(1) else 1):
        return "address order of std::" + m.group(1) + " keyed by " + targ(t)
    return None


def strip(n):
    while n is not None:
        if n.k in ("Cast", "Materialize", "Bind", "DefInit", "ExprWithCleanups", "StdInit"):
            n = n.e
        elif n.k == "Ctor" and (n.copy or n.move) and len(n.args or []) == 1:
            n = n.args[0]
        else:
            return n
    return n


VIEWS = ("make_first_range", "make_second_range", "map_range", "make_filter_range", "reverse", "enumerate", "make_range", "drop_begin", "drop_end", "concat", "make_early_inc_range", "to_vector", "to_vector_of", "as_const", "move", "forward", "seq")


def source(n):
    """(container expression, why) when iterating expression n follows an unordered container."""
    n = strip(n)
    if n is None:
        return None
    w = unordered(n.type)
    if w:
        return n, w
    if n.k == "Call" and n.n in VIEWS:
        for a in n.args or []:
            r = source(a)
            if r:
                return r
    if n.k == "MCall" and n.n in ("keys", "values", "begin", "end", "cbegin", "rbegin", "getArrayRef") and n.obj is not None:
        return source(n.obj)
    if n.k in ("Call", "MCall") and n.q in RETURNS:
        return n, RETURNS[n.q]
    if n.k in ("Ctor", "Init", "InitList") and n.args:
        return source(n.args[0]) if n.k == "Ctor" else None
    return None


def root(n):
    n = strip(n)
    while n is not None:
        if n.k == "Ref":
            return ("var", n.d.get("id")) if n.d.get("id") is not None and n.dk != "global" else ("glob", n.q)
        if n.k == "This":
            return ("this",)
        if n.k in ("Mem", "DMem"):
            b = strip(n.base)
            if b is None or b.k == "This":
                return ("mem", n.n)
            n = b
        elif n.k == "Idx":
            n = strip(n.a)
        elif n.k == "OpCall" and n.op in ("[]", "*", "->", "<<") and n.args:
            n = strip(n.args[0])
        elif n.k == "Un" and n.op in ("*", "&"):
            n = strip(n.a)
        elif n.k == "MCall" and n.obj is not None:
            n = strip(n.obj)
        elif n.k == "Call" and n.n in ("get", "move", "forward", "as_const", "begin", "end") and n.args:
            n = strip(n.args[0])
        else:
            return None
    return None


def ids(n):
    return {x.d.get("id") for x in n.walk() if x.k == "Ref" and x.d.get("id") is not None}


def declared(n):
    out = set()
    for x in n.walk():
        if x.k in ("Var", "Param") and x.d.get("id") is not None:
            out.add(x.d["id"])
        for b in (x.d.get("bind") or []) if x.k == "Var" else []:
            i = b.get("id") if isinstance(b, dict) else b.d.get("id")
            if i is not None:
                out.add(i)
        for p in (x.params or []) if x.k == "Lambda" else []:
            if p.d.get("id") is not None:
                out.add(p.d["id"])
    return out


def const(n):
    """The expression has the same value whichever element is visited."""
    n = strip(n)
    return n is None or not any(x.k in ("Ref", "This") and x.dk not in ("global", "fn", "func", "enumc", "enum") and not (x.k == "Ref" and x.d.get("id") is None) for x in n.walk())


def debug(n):
    return (n.d.get("mac") or "") in ("LLVM_DEBUG", "DEBUG_WITH_TYPE", "LDBG", "assert")


def debugstream(n):
    return any(x.k == "Call" and x.n in ("dbgs", "errs") for x in n.walk())


class Fx:
    """Effects of a statement executed once per element of an unordered container."""

    def __init__(self, f, elem, body, lambdas):
        self.f = f; self.local = set(elem) | declared(body); self.elem = set(elem)
        # everything computed from the element
        grew = True
        while grew:
            grew = False
            for x in body.walk():
                if x.k == "Var" and x.init is not None and x.d.get("id") not in self.elem and ids(x.init) & self.elem:
                    self.elem.add(x.d.get("id")); grew = True
        self.ev = []
        self.lam = lambdas
        self.stmt(body, [], False)

    def islocal(self, r):
        return r is not None and r[0] == "var" and r[1] in self.local

    def add(self, kind, n, r=None, msg=""):
        self.ev.append((kind, n, r, msg))

    def stmt(self, n, conds, inlam):
        if n is None or debug(n):
            return
        k = n.k
        if k == "If":
            for x in (n.init, n.c):
                self.expr(x, conds, inlam, True)
            self.stmt(n.a, conds + [n.c], inlam); self.stmt(n.b, conds + [n.c], inlam)
            return
        if k in ("Block", "Decl", "Var", "Case", "Default", "For", "RFor", "While", "Do", "Switch", "Try", "None") or k is None:
            for x in n.children():
                self.stmt(x, conds, inlam)
            return
        if k == "Return":
            if n.e is not None:
                self.expr(n.e, conds, inlam, True)
                if not inlam and ids(n.e) & self.elem:
                    self.add("chosen", n)
            return
        self.expr(n, conds, inlam, False)

    def expr(self, n, conds, inlam, used):
        if n is None or debug(n):
            return
        k = n.k
        if k == "Lambda":
            return
        if k in ("Assign", "CAssign"):
            self.expr(n.b, conds, inlam, True)
            self.assign(n, n.a, n.b, n.op if k == "CAssign" else "=", conds)
            return
        if k == "Un" and n.op in ("++", "--"):
            r = root(n.a)
            if used and not self.islocal(r) and r is not None:
                self.add("numbered", n, r)
            return
        if k == "OpCall":
            op = n.op
            if op == "<<" and STREAM.search((n.args[0].type or "") if n.args else ""):
                r = root(n.args[0])
                b = n.args[0]
                while b is not None and strip(b) is not None and strip(b).k == "OpCall" and strip(b).op == "<<":
                    b = strip(b).args[0]
                b = strip(b)
                if b is not None and (b.k in ("MCall", "Call")) and re.match(r"emit(Op)?(Error|Warning|Remark)", b.n or ""):
                    self.add("diagnostic", n)
                elif not self.islocal(r) and not debugstream(n):
                    if re.search(r"Diagnostic", n.args[0].type or ""):
                        self.add("diagnostic", n)
                    else:
                        self.add("printed", n)
                for a in n.args[1:]:
                    self.expr(a, conds, inlam, True)
                return
            if op and re.fullmatch(r"([-+*/%&|^]|<<|>>)?=", op) and len(n.args or []) == 2:
                self.expr(n.args[1], conds, inlam, True)
                self.assign(n, n.args[0], n.args[1], op, conds)
                return
            if op in ("++", "--"):
                return
            if op == "()" and n.args:
                l = self.lam.get(root(n.args[0]))
                if l is not None and l.body is not None and len(conds) < 12:
                    self.stmt(l.body, conds + [None], True)
                for a in n.args[1:]:
                    self.expr(a, conds, inlam, True)
                return
        if k in ("Call", "MCall", "Ctor", "New"):
            self.call(n, conds, inlam)
            return
        for x in n.children():
            self.expr(x, conds, inlam, True)

    def assign(self, n, l, rhs, op, conds):
        r = root(l)
        if r is None or self.islocal(r):
            return
        ls = strip(l)
        if ls.k in ("Idx",) or ls.k == "OpCall" and ls.op == "[]" or ls.k == "MCall" and ls.n == "at":
            a = ls.b if ls.k == "Idx" else ls.args[-1] if ls.args else None
            base = strip(ls.a if ls.k == "Idx" else ls.args[0] if ls.k == "OpCall" else ls.obj)
            if SEQ.match(bare(base.type)) and re.search(r"MapVector", base.type or ""):
                self.add("append", n, root(base))
            if rhs is not None and op == "=" and any(x.k == "MCall" and x.n in ("size", "getNumElements") and root(x.obj) == root(base) for x in rhs.walk()):
                self.add("numbered", n, r)
            if a is not None and ids(a) & self.elem:
                return
        t = bare(l.type)
        if op == "=":
            if const(rhs) or not ids(rhs) & self.elem:
                return
            if any(x.k in ("Bin", "OpCall") and x.op in ("|", "&", "||", "&&", "^", "+", "*") and root(x.a if x.k == "Bin" else x.args[0]) == r for x in [strip(rhs)]) and not re.search(r"string", t):
                return
            if any(x.k == "Call" and x.n in ("min", "max") for x in [strip(rhs)]):
                return
            if any(c is not None and any(root(x) == r for x in c.walk() if x.k in ("Ref", "Mem")) for c in conds):
                self.add("unclear", n, r, "value chosen by comparison")
                return
            self.add("last", n, r)
            return
        if re.search(r"basic_string|SmallString", t):
            self.add("append", n, r)
        elif re.search(r"\b(float|double)\b", t) and op in ("+=", "*=", "-="):
            self.add("unclear", n, r, "floating-point accumulation")
        elif op in ("<<=", ">>=", "/=", "%="):
            self.add("last", n, r)

    def call(self, n, conds, inlam):
        args = n.args or []
        nm = n.n or ""
        if n.k == "MCall":
            ob = strip(n.obj)
            r = root(n.obj)
            t = bare(ob.type if ob is not None else "")
            t = re.sub(r" ?\*$", "", t)
            self.expr(n.obj, conds, inlam, True)
            if re.match(r"emit(Op)?(Error|Warning|Remark)$", nm):
                self.add("diagnostic", n)
            elif BUILD.search(t) and nm not in ("getContext", "setInsertionPoint", "setInsertionPointAfter", "setInsertionPointToStart", "setInsertionPointToEnd", "getInsertionBlock", "eraseOp", "getListener") and not n.cm and not re.match(r"get\w+(Attr|Type|Loc)$|get(I\d+|Index|F\d+)Type$", nm):
                if nm in ("create", "clone", "createBlock", "insert", "createOrFold", "replaceOpWithNewOp"):
                    self.add("built", n)
            elif self.islocal(r) or r is None:
                pass
            elif SEQ.match(t):
                if nm in ("push_back", "emplace_back", "append", "insert", "push_front", "push", "emplace", "assign", "try_emplace", "emplace_front", "replace", "push_back_n", "insert_or_assign"):
                    self.add("append", n, r)
                elif nm in ("pop_back", "pop", "erase"):
                    self.add("unclear", n, r, "removal from a sequence")
            elif KEYED.match(t) or n.cm:
                if KEYED.match(t) and nm in ("try_emplace", "insert", "emplace", "insert_or_assign") and any(x.k == "MCall" and x.n == "size" and root(x.obj) == r for a in args for x in a.walk()):
                    self.add("numbered", n, r)
            elif ids(n.obj) & self.elem:
                pass
            elif STREAM.search(t) and nm in ("write", "write_escaped", "indent", "unindent", "printReindented"):
                if nm.startswith("write") or nm == "printReindented":
                    self.add("printed", n)
            elif re.match(r"(get|is|has|lookup|find|contains|count|size|empty|begin|end|front|back|reserve|walk|signalPassFailure|at)\b|get[A-Z]|is[A-Z]|has[A-Z]", nm):
                pass
            else:
                self.add("unclear", n, r, f"call of {nm}")
        elif n.k == "Call":
            if re.match(r"emit(Error|Warning|Remark)$", nm):
                self.add("diagnostic", n)
            if nm in ("create", "createOrFold") and args and BUILD.search(args[0].type or ""):
                self.add("built", n)
            elif nm in ("append_range",) and args:
                r = root(args[0])
                if not self.islocal(r):
                    self.add("append", n, r)
            else:
                for a, m in zip(args, n.d.get("pm") or []):
                    if m == "m" and a is not None:
                        r = root(a)
                        ty = bare(a.type)
                        if r is None or self.islocal(r) or nm in ("move", "forward", "get", "dyn_cast", "isa", "cast", "swap", "dyn_cast_or_null", "find", "any_of", "all_of", "none_of"):
                            continue
                        if STREAM.search(ty):
                            if not debugstream(a):
                                self.add("printed", n)
                        elif BUILD.search(ty):
                            self.add("unclear", n, r, f"{nm} receives the builder")
                        elif SEQ.match(ty):
                            self.add("unclear", n, r, f"{nm} receives a sequence")
        for a in args:
            s = strip(a)
            if s is not None and s.k == "Lambda" and s.body is not None:
                self.stmt(s.body, conds + [None], True)
            else:
                self.expr(a, conds, inlam, True)


RETURNS = {}   # function -> why the sequence it returns has no fixed order
FILLS = {}     # (function, parameter index) -> why what it appends there has no fixed order


SAY = {"printed": "writes to a stream", "diagnostic": "emits a diagnostic", "built": "creates operations", "chosen": "returns a value that depends on the element reached first",
       "numbered": "numbers elements in the order of visiting", "last": "keeps the value of the element visited last"}


class Scan:
    def __init__(self, c, P, f, callers):
        self.c = c; self.P = P; self.f = f; self.callers = callers
        self.par = {}
        self.lams = {}
        for x in f.body.walk():
            for ch in x.children():
                self.par[id(ch)] = x
            if x.k == "Var" and x.init is not None and strip(x.init) is not None and strip(x.init).k == "Lambda":
                self.lams[("var", x.d.get("id"))] = strip(x.init)
        self.params = {p.d.get("id"): p for p in f.params}
        self.seen = set()
        self.followed = set()

    def up(self, n):
        p = self.par.get(id(n))
        while p is not None and (p.k in ("Cast", "Materialize", "Bind", "ExprWithCleanups") or p.k == "Ctor" and (p.copy or p.move)):
            n, p = p, self.par.get(id(p))
        return p, n

    def indebug(self, n):
        while n is not None:
            if debug(n):
                return True
            n = self.par.get(id(n))
        return self.f.name in ("dump", "dumpToString") and True

    def gives(self, n, why, idx=None):
        """The function hands out a sequence in no fixed order: judged where it is used, when its callers are visible."""
        q = self.f.q
        api = self.f.rel.endswith(".h") and self.f.d.get("access") not in (1, 2) and not self.f.d.get("static")
        if self.callers.get(q) and not api:
            if idx is None:
                RETURNS.setdefault(q, why)
            else:
                FILLS.setdefault((q, idx), why)
        elif idx is None:
            self.bad(n, f"returns a sequence in {why}")
        else:
            self.bad(n, f"fills the caller's sequence in {why}")

    def bad(self, n, msg):
        k = (n.line, msg)
        if k not in self.seen:
            self.seen.add(k)
            self.c.bad(f"{self.f.name}:{msg[:60]}", self.f.where(n), f"{self.f.full.split('(')[0]} {msg}")
        self.failed = True

    def run(self):
        f = self.f
        for n in f.body.walk():
            if n.k == "RFor" and n.range is not None:
                s = source(n.range)
                if s and not self.indebug(n):
                    self.c.count("unordered iterations")
                    self.loop(n, declared(n.var) if n.var is not None else set(), n.body, s[1], 0)
            elif n.k == "For":
                its = [v for v in (n.init.walk() if n.init is not None else []) if v.k == "Var" and v.init is not None and strip(v.init) is not None and strip(v.init).k == "MCall" and strip(v.init).n in ("begin", "cbegin", "rbegin")]
                src = [(v, source(strip(v.init).obj)) for v in its]
                src = [(v, s) for v, s in src if s]
                if src and not self.indebug(n):
                    self.c.count("unordered iterations")
                    if len(its) > 1:
                        self.bad(n, f"walks two containers in step, one in {src[0][1][1]}: the elements paired depend on that order")
                    else:
                        self.loop(n, {src[0][0].d.get("id")}, n.body, src[0][1][1], 0)
            elif n.k == "Call" and not self.indebug(n):
                self.callrules(n)
            elif n.k in ("Var",) and n.init is not None and (SEQ.match(bare(n.type)) or strip(n.init) is not None and strip(n.init).k in ("Call", "MCall") and strip(n.init).q in RETURNS) and not self.indebug(n):
                s = self.filled(n.init)
                if s:
                    self.c.count("unordered iterations")
                    self.failed = False
                    self.sequence(("var", n.d.get("id")), n, s[1], 0)
                    if not self.failed:
                        self.c.ok()
            elif n.k == "Return" and n.e is not None and not unordered(n.e.type) and not KEYED.match(bare(n.e.type)):
                s = self.filled(n.e)
                if s:
                    self.gives(n, s[1])
            if n.k in ("Call", "MCall") and not self.indebug(n):
                for i, a in enumerate(n.args or []):
                    if (n.q, i) in FILLS:
                        self.failed = False
                        self.target(root(a), n, FILLS[n.q, i], 0, "append")
            if n.k == "Bin" and n.op in ("<", ">", "<=", ">=") and IRPTR.match(bare(n.a.type)) and IRPTR.match(bare(n.b.type)) and not self.indebug(n):
                self.bad(n, "orders operations by their addresses")
            if n.k == "OpCall" and n.op == "*" or n.k == "Un" and n.op == "*":
                a = strip(n.args[0] if n.k == "OpCall" and n.args else n.a)
                if a is not None and a.k == "MCall" and a.n in ("begin", "cbegin") and not self.indebug(n):
                    s = source(a.obj)
                    if s and not any(x.k == "MCall" and x.n == "size" and root(x.obj) == root(s[0]) or x.k == "Call" and x.n == "hasSingleElement" for x in f.body.walk()):
                        self.bad(n, f"picks the first element in {s[1]}")
            if n.k in ("Call", "MCall", "Ctor") and not self.indebug(n):
                if n.n in VARY and (n.q or "").replace("std::", "") == n.n or VARYQ.search(n.q or "") or n.k == "Ctor" and VARYQ.search(n.cls or ""):
                    self.bad(n, f"uses {n.q or n.n}, which differs from run to run")
            if n.k == "OpCall" and n.op == "<<" and len(n.args or []) == 2 and STREAM.search(n.args[0].type or "") and re.search(r"void \*", n.args[1].type or "") and not debugstream(n) and not self.indebug(n):
                self.bad(n, "prints an address")
            if n.k == "Cast" and n.d.get("ck") == "PointerToIntegral" and not re.search(r"[hH]ash", f.name) and not self.indebug(n):
                self.bad(n, "uses an address as a number")

    def filled(self, e):
        """Unordered source from which a sequence is constructed by expression e."""
        e = strip(e)
        if e is None:
            return None
        if e.k == "Ctor" and e.args and not e.copy and not e.move:
            a = [strip(x) for x in e.args if x.k != "DefArg"]
            if a and a[0] is not None and a[0].k == "MCall" and a[0].n in ("begin", "cbegin", "rbegin"):
                return source(a[0].obj)
            if a and a[0] is not None and a[0].k == "Call" and a[0].n in ("begin", "adl_begin") and a[0].args:
                return source(a[0].args[0])
            if len(a) == 1:
                return source(a[0]) if unordered((a[0].type if a[0] is not None else "")) else self.filled(a[0])
        if e.k in ("Call", "MCall") and e.q in RETURNS:
            return e, RETURNS[e.q]
        if e.k == "Call" and e.n in ("to_vector", "to_vector_of", "map_to_vector", "filter_to_vector") and e.args:
            return source(e.args[0])
        return None

    def cmpok(self, n, first):
        """Whether a sort call leaves an order that does not depend on addresses: True, False, None."""
        l = next((strip(a) for a in n.args or [] if strip(a) is not None and (strip(a).k == "Lambda" or self.lams.get(root(a)))), None)
        if l is not None and l.k != "Lambda":
            l = self.lams.get(root(l))
        et = re.sub(r" ?\*$", "", targ(first)) if "iterator" in first else re.sub(r" ?\*$", "", first) if not SEQ.match(first) else targ(first)
        if "iterator" not in first and not SEQ.match(first) and first.endswith("*"):
            et = first[:-1].strip()
        if l is not None:
            if any(x.k == "Bin" and x.op in ("<", ">", "<=", ">=") and IRPTR.match(bare(x.a.type)) for x in l.body.walk()):
                return False
            return True
        rest = [a for a in n.args or [] if not (strip(a) is not None and (strip(a).k == "MCall" and strip(a).n in ("begin", "end") or root(a) and SEQ.match(bare(a.type))))]
        if [a for a in rest if a.k != "DefArg"] and not SEQ.match(first):
            if any("*" not in (a.type or "*") and "iterator" not in (a.type or "") for a in rest):
                return None
        if "*" in et and "char" not in et:
            return False
        return True

    def callrules(self, n):
        if n.n in SORTS + PICK and n.args:
            self.c.count("sorts")
            if self.cmpok(n, bare(n.args[0].type)) is False:
                self.bad(n, f"{'sorts' if n.n in SORTS else 'picks'} by address: what is compared are pointers")
            else:
                self.c.ok()
        if n.n in ("copy", "copy_if", "transform", "for_each") and n.args:
            a = strip(n.args[0])
            s = source(a.obj) if a is not None and a.k == "MCall" and a.n in ("begin", "cbegin") else source(a)
            if s is None:
                return
            self.c.count("unordered iterations")
            if n.n == "for_each":
                l = next((strip(x) for x in n.args if strip(x) is not None and strip(x).k == "Lambda"), None)
                if l is not None:
                    self.loop(n, {p.d.get("id") for p in l.params or []}, l.body, s[1], 0)
                return
            d = next((x for a in n.args for x in a.walk() if x.k == "Call" and x.n in ("back_inserter", "front_inserter")), None)
            if d is not None and d.args:
                self.failed = False
                self.target(root(d.args[0]), n, s[1], 0, "append")
                if not self.failed:
                    self.c.ok()
            else:
                self.c.ok()
        if n.n in ("equal", "zip", "zip_equal", "zip_first", "mismatch", "lexicographical_compare", "interleaveComma", "interleave", "accumulate", "join") and n.args:
            for a in n.args:
                a = strip(a)
                s = source(a.obj) if a is not None and a.k == "MCall" and a.n in ("begin", "cbegin") else source(a)
                if s:
                    if n.n in ("accumulate",) and not re.search(r"string", n.type or ""):
                        continue
                    self.bad(n, f"passes elements in {s[1]} to {n.n}")
                    return
        if n.n in ("append_range",) and len(n.args or []) == 2:
            s = source(n.args[1])
            if s:
                self.c.count("unordered iterations")
                self.failed = False
                self.target(root(n.args[0]), n, s[1], 0, "append")
                if not self.failed:
                    self.c.ok()

    def loop(self, n, elem, body, why, depth):
        fx = Fx(self.f, elem, body, self.lams)
        self.failed = False
        und = None
        done = set()
        for kind, x, r, msg in fx.ev:
            if kind in SAY:
                self.bad(x, f"{SAY[kind]} while iterating in {why}")
            elif kind == "append":
                if r not in done:
                    done.add(r)
                    self.target(r, n, why, depth, kind)
            else:
                und = msg
        if und and not self.failed:
            self.c.undecided(self.f.where(n), f"iteration in {why}: {und}")
        elif not self.failed and depth == 0:
            self.c.ok()

    def target(self, r, n, why, depth, kind):
        if r is None:
            self.c.undecided(self.f.where(n), f"where elements in {why} are appended")
            return
        if r[0] == "mem" or r[0] == "glob" or r[0] == "this":
            if self.sorted(r, n) is not True:
                self.c.undecided(self.f.where(n), f"member filled in {why}")
            return
        if r[1] in self.params:
            p = self.params[r[1]]
            if re.search(r"&|\*|ostream", p.type or "") and self.sorted(r, n) is not True:
                self.gives(n, why, list(self.params).index(r[1]))
                return
        self.sequence(r, n, why, depth)

    def sorted(self, r, n):
        for x in self.f.body.walk():
            if x.k == "Call" and x.n in SORTS and x.args and root(x.args[0]) == r and x.line >= n.line:
                if self.cmpok(x, bare(x.args[0].type)) is not False:
                    return True
        return False

    def sequence(self, r, n, why, depth):
        """A local sequence whose elements came in no fixed order: every use must be indifferent to that."""
        if self.sorted(r, n) or depth > 4:
            return
        if (r, why) in self.followed:
            return
        self.followed.add((r, why))
        inside = {id(x) for x in n.walk()}
        for x in self.f.body.walk():
            if x.k != "Ref" or x.d.get("id") != r[1] or id(x) in inside or x.line < n.line or self.indebug(x):
                continue
            self.use(x, r, why, depth)

    def use(self, x, r, why, depth):
        """One use of a sequence without a fixed order."""
        p, ch = self.up(x)
        # the same sequence under another expression: a result unwrapped, moved, or one of several indexed
        while p is not None and (p.k == "MCall" and p.obj is not None and p.n in ("value", "getValue") and not p.args or p.k == "OpCall" and p.op in ("*", "->") and len(p.args or []) == 1
                                 or p.k == "Call" and p.n in ("move", "forward", "ref", "as_const", "reverse", "drop_begin", "drop_end", "take_front", "enumerate") and len(p.args or []) >= 1 and strip(p.args[0]) is ch
                                 or (p.k == "Idx" or p.k == "OpCall" and p.op == "[]" or p.k == "MCall" and p.n == "at") and SEQ.match(bare(p.type)) or p.k == "Ctor" and len(p.args or []) == 1 and (SEQ.match(bare(p.type)) or re.match(r"^(llvm::|mlir::|std::)?(FailureOr|optional|ArrayRef)\b", bare(p.type)))):
            x = p
            p, ch = self.up(x)
        if p is None:
            return
        if p.k == "MCall" and p.obj is not None and ch is not None and id(ch) in {id(y) for y in p.obj.walk()}:
            if p.n in ("size", "empty", "reserve", "clear", "push_back", "emplace_back", "count", "contains", "capacity", "append", "insert", "resize", "erase"):
                return
            q, _ = self.up(p)
            if p.n in ("begin", "end", "rbegin", "rend", "cbegin", "cend") and q is not None and q.k == "Call" and q.n in PURE + SORTS + ("reverse",):
                return
            if p.n in ("begin", "end") and q is not None and q.k == "Ctor" and (unordered(q.type) or KEYED.match(bare(q.type))):
                return
            if p.n in ("front", "back", "pop_back_val", "top"):
                # a worklist: what is done with each element taken from it
                v = q
                lp = self.par.get(id(p))
                while lp is not None and lp.k not in ("While", "For", "Do"):
                    if lp.k == "Var" and v is not lp:
                        v = lp
                    lp = self.par.get(id(lp))
                if lp is not None and v is not None and v.k == "Var":
                    was = getattr(self, "failed", False)
                    self.loop(lp, {v.d.get("id")}, lp.body, why, depth + 1)
                    self.failed |= was
                    return
                self.c.undecided(self.f.where(x), f"use of a sequence filled in {why}")
            elif p.n in ("pop_back", "pop", "pop_front"):
                return
            elif p.n in ("begin", "end", "at"):
                self.c.undecided(self.f.where(x), f"use of a sequence filled in {why}")
            return
        if p.k == "RFor" and p.range is not None and id(ch) in {id(y) for y in p.range.walk()}:
            was = getattr(self, "failed", False)
            self.loop(p, declared(p.var) if p.var is not None else set(), p.body, why, depth + 1)
            self.failed |= was
            return
        if p.k == "Call" and p.n in PURE + SORTS + ("failed", "succeeded"):
            return
        if p.k == "Var" and p.d.get("id") is not None:
            if not unordered(p.type) and not KEYED.match(bare(p.type)):
                self.sequence(("var", p.d["id"]), p, why, depth + 1)
            return
        if p.k == "Return":
            self.gives(x, why)
        elif p.k in ("Call", "MCall") and p.n in ("interleaveComma", "interleave", "join", "create", "zip", "zip_equal", "enumerate", "replaceOp", "replaceAllUsesWith", "setOperands", "addOperands", "getStrArrayAttr", "getArrayAttr"):
            self.bad(x, f"passes a sequence filled in {why} to {p.n}")
        elif p.k == "OpCall" and p.op == "<<":
            self.bad(x, f"prints what was collected in {why}")
        elif p.k in ("Cast", "Cond", "If", "While", "Bin", "Un", "Block"):
            return
        else:
            self.c.undecided(self.f.where(x), f"use of a sequence filled in {why}")


# -- uninitialised state --------------------------------------------------------
class Assigned:
    """Definite assignment of scalar locals without an initial value."""

    def __init__(self, f):
        self.f = f
        self.vars = {}
        for x in f.body.walk():
            if x.k == "Decl":
                for v in x.v if isinstance(x.v, list) else [x.v] if x.v is not None else []:
                    if v.k == "Var" and v.init is None and SCALAR.search(bare(v.type)) and "&" not in (v.type or "") and not v.d.get("static") and v.d.get("id") is not None and not v.d.get("bind"):
                        self.vars[v.d["id"]] = v
        self.bad = []; self.maybe = []
        if self.vars:
            self.brk = []
            self.inlam = False
            self.s(f.body, frozenset())

    def correlated(self, n):
        """Whether a condition met before the read could tell the paths with an assignment from those without."""
        v = n.d["id"]
        par = {id(ch): x for x in self.f.body.walk() for ch in x.children()}

        def up(x):
            while x is not None:
                x = par.get(id(x))
                if x is not None:
                    yield x
        told = set(); first = None
        for x in self.f.body.walk():
            if x.k == "Assign" and strip(x.a) is not None and strip(x.a).k == "Ref" and strip(x.a).d.get("id") == v:
                first = x.line if first is None else min(first, x.line)
                for u in up(x):
                    if u.k in ("If", "While", "For", "Switch") and u.c is not None:
                        told |= ids(u.c)
                    if u.k == "Block":
                        for y in u.s or []:
                            if y.k == "Assign":
                                told |= ids(y.a)
                            elif y.k == "OpCall" and y.op == "=" and y.args:
                                told |= ids(y.args[0])
                            elif y.k == "Un" and y.op in ("++", "--"):
                                told |= ids(y.a)
        told.discard(v)
        around = {id(u) for u in up(n)}
        for x in self.f.body.walk():
            if x.k in ("If", "While", "Cond", "Switch", "Bin") and x.line <= n.line and first is not None and (id(x) in around or x.line > first or x.line == first):
                cnd = x.c if x.k != "Bin" else x.a if x.op in ("&&", "||") else None
                if cnd is None or not ids(cnd) & told:
                    continue
                if any(y.k == "Assign" and strip(y.a) is not None and strip(y.a).k == "Ref" and strip(y.a).d.get("id") == v for y in x.walk()) and id(x) not in around:
                    continue
                return True
        return False

    def e(self, n, A):
        if n is None or A is None:
            return A
        k = n.k
        if k in ("Assign",):
            A = self.e(n.b, A)
            l = strip(n.a)
            if l is not None and l.k == "Ref" and l.d.get("id") in self.vars:
                return A | {l.d["id"]}
            return self.e(n.a, A)
        if k == "Bin" and n.op in ("&&", "||") or k == "Cond":
            A1 = self.e(n.a if k == "Bin" else n.c, A)
            if k == "Cond":
                x, y = self.e(n.a, A1), self.e(n.b, A1)
                return x & y if x is not None and y is not None else x if y is None else y
            B = self.e(n.b, A1)
            # inside a condition the right operand may assign what the guarded branch reads
            return A1 | (B or frozenset()) if n.op == "&&" else A1
        if k == "Lambda":
            w = {x.d["id"] for x in n.walk() if x.k == "Ref" and x.d.get("id") in self.vars}
            # nothing but this lambda ever assigns them: its first run meets them as they are here
            inside = {id(x) for x in n.walk()}
            only = {v for v in w - A if not any(x.k == "Ref" and x.d.get("id") == v and id(x) not in inside for x in self.f.body.walk())}
            if only and n.body is not None and not self.inlam:
                self.inlam = True
                brk, self.brk = self.brk, []
                self.s(n.body, frozenset((set(self.vars) - only) | A))
                self.brk = brk
                self.inlam = False
            return A | w
        if k == "Ref":
            if n.d.get("id") in self.vars and n.d["id"] not in A:
                (self.maybe if self.correlated(n) else self.bad).append(n)
                return A | {n.d["id"]}
            return A
        if k == "Un" and n.op == "&":
            return A | {x.d["id"] for x in n.walk() if x.k == "Ref" and x.d.get("id") in self.vars}
        if k in ("Call", "MCall", "OpCall", "Ctor", "UCtor", "New", "E?", "ParenList", "InitList"):
            pm = n.d.get("pm") or []
            args = n.args or []
            off = len(args) - len(pm) if k == "OpCall" else 0
            for x in [n.obj, n.fn]:
                A = self.e(x, A)
            for i, a in enumerate(args):
                m = pm[i - off] if 0 <= i - off < len(pm) else "m"
                s = strip(a)
                if s is not None and s.k == "Ref" and s.d.get("id") in self.vars and m not in ("v", "c") and not (k == "Ctor" and re.match(r"^(llvm::|mlir::|std::)?(FailureOr|optional|pair|tuple)\b", bare(n.type))):
                    A = A | {s.d["id"]}
                    continue
                A = self.e(a, A)
            return A
        if k in ("SizeOf", "Sizeof", "Decltype"):
            return A
        for x in n.children():
            A = self.e(x, A)
        return A

    def s(self, n, A):
        """Assigned after n; None: does not get there."""
        if n is None or A is None:
            return A
        k = n.k
        if k in ("Block",):
            for x in n.s or []:
                A = self.s(x, A)
                if A is None:
                    return None
            return A
        if k == "Decl":
            for v in n.v if isinstance(n.v, list) else [n.v]:
                if isinstance(v, N) and v.init is not None:
                    A = self.e(v.init, A)
                if isinstance(v, N) and v.d.get("id") in self.vars:
                    A = A - {v.d["id"]}
            return A
        if k == "If":
            A = self.s(n.init, A) if n.init is not None else A
            A = self.s(n.d.get("cvar") and n.cvar, A) if n.d.get("cvar") else A
            A = self.e(n.c, A)
            x = self.s(n.a, A)
            y = self.s(n.b, A) if n.b is not None else A
            return y if x is None else x if y is None else x & y
        if k in ("For", "While", "RFor", "Do"):
            if k == "For" and n.init is not None:
                A = self.s(n.init, A)
            if k == "RFor":
                A = self.e(n.range, A)
                ids_ = declared(n.var) if n.var is not None else set()
                A = A | (ids_ & set(self.vars))
            if k in ("For", "While"):
                A = self.e(n.c, A)
            self.brk.append([])
            B = self.s(n.body, A)
            br = self.brk.pop()
            if k == "For" and B is not None:
                self.e(n.inc, B)
            if k == "Do":
                out = self.e(n.c, B) if B is not None else None
            else:
                out = A
                if n.c is None and k in ("For", "While") or k == "While" and strip(n.c) is not None and strip(n.c).k == "Bool" and str(strip(n.c).v).lower() in ("true", "1"):
                    out = None
            for b in br:
                out = b if out is None else out & b
            return out
        if k == "Switch":
            A = self.e(n.c, A)
            self.brk.append([])
            outs = []
            cur = None
            body = n.body.s if n.body is not None and n.body.k == "Block" else [n.body]
            for x in body or []:
                y = x
                while y is not None and y.k in ("Case", "Default"):
                    cur = A if cur is None else A & cur
                    z = y.s
                    y = z[0] if isinstance(z, list) and z else z if isinstance(z, N) else None
                if cur is not None:
                    cur = self.s(y, cur) if y is not None else cur
            br = self.brk.pop()
            outs = br + ([cur] if cur is not None else [])
            if not outs:
                return None if any(x.k == "Default" for x in n.walk()) else A
            r = outs[0]
            for o in outs[1:]:
                r = r & o
            return r
        if k == "Break":
            if self.brk:
                self.brk[-1].append(A)
            return None
        if k in ("Continue", "Goto"):
            return None
        if k in ("Return", "Throw"):
            self.e(n.e, A)
            return None
        if k in ("Try", "Label", "Case", "Default"):
            for x in n.children():
                A = self.s(x, A)
            return A
        A = self.e(n, A)
        if k in ("Call", "OpCall", "MCall") and (n.d.get("noret") or (n.q or "") in ("llvm::llvm_unreachable_internal", "llvm::report_fatal_error", "abort", "exit", "std::abort", "std::exit")):
            return None
        if k == "Do" or n.d.get("mac") == "llvm_unreachable":
            return None if n.d.get("mac") == "llvm_unreachable" else A
        return A


def fields(c, P):
    """Scalar members of classes with constructors must be set by every constructor."""
    ctors = {}; told = set()

    def ismine(n, name):
        n = strip(n)
        return n is not None and n.k in ("Mem", "DMem") and n.n == name and (strip(n.base) is None or strip(n.base).k == "This")

    for f in P.all:
        if f.clsq and f.name == re.sub(r"<.*", "", f.clsq).split("::")[-1]:
            ctors.setdefault(f.clsq, []).append(f)
    for q, r in P.recs.items():
        if not r.rel.startswith("lib/") or re.search(r"(Test|Benchmark)\b", r.rel):
            continue
        sc = [x for x in r.fields if SCALAR.search(bare(x.type)) and "&" not in (x.type or "")]
        cs = ctors.get(q) or ctors.get(r.full) or []
        priv = any(x.d.get("acc") == 2 for x in r.fields)
        for x in sc:
            g = P.recs.get(re.sub(r"<.*", "", q))
            if x.init is not None or g is not None and any(z.n == x.n and z.init is not None for z in g.fields):
                c.count("members"); c.ok()
                continue
            if not cs:
                reads = []
                for f in P.all:
                    if f.clsq and (f.clsq == q or f.clsq == r.full or re.sub(r"<.*", "", f.clsq) == re.sub(r"<.*", "", q)) and f.body is not None:
                        par = {id(ch): y for y in f.body.walk() for ch in y.children()}
                        for y in f.body.walk():
                            if y.k == "CAssign" and ismine(y.a, x.n) or y.k == "Un" and y.op in ("++", "--") and ismine(y.a, x.n):
                                reads.append((f, y))
                            elif x.d.get("acc") in (1, 2) and y.k == "Cast" and y.d.get("ck") == "LValueToRValue" and ismine(y.e, x.n) or x.d.get("acc") in (1, 2) and y.k == "If" and any(ismine(z, x.n) for z in [strip(y.c), strip(y.c.a) if strip(y.c) is not None and y.c.k == "Un" else None] if z is not None):
                                reads.append((f, y))
                aggregate = all(z.d.get("acc") == 0 for z in r.fields)
                initialised = any(z.init is not None for z in r.fields if SCALAR.search(bare(z.type)))
                if reads and (not aggregate or initialised):
                    f, y = reads[0]
                    k = (q.split("<")[0], x.n)
                    if k not in told:
                        told.add(k)
                        c.count("members")
                        c.bad(f"uninitialised:{k[0]}:{x.n}", f.where(y), f"{f.full.split('(')[0]} reads {x.n}, which has no value in a newly created {k[0]}")
                continue
            for f in cs:
                if any(i.d.get("deleg") or i.d.get("base") and False for i in f.inits) or any(i.f is None and i.e is not None and i.e.k == "Ctor" and (i.e.cls or "") == q for i in f.inits):
                    continue
                if len(f.params) == 1 and bare(f.params[0].type) in (q, r.full):
                    continue
                c.count("members")
                set_ = any(i.f == x.n for i in f.inits) or any(y.k in ("Assign",) and strip(y.a).k == "Mem" and strip(y.a).n == x.n for y in f.body.walk())
                if set_:
                    c.ok()
                elif f.body is None or any(y.k in ("Call", "MCall") and (y.obj is None or y.obj.k == "This" or True) and y.n not in ("assert",) for y in f.body.walk()):
                    c.undecided(f.where(), f"whether the constructor sets {x.n}")
                else:
                    c.bad(f"uninitialised:{q}:{x.n}", f.where(), f"constructor of {q} leaves {x.n} without a value")


class Log:
    """Records what is said to a check."""

    def __init__(self):
        self.ev = []

    def __getattr__(self, m):
        return lambda *a: self.ev.append((m, a))


def check(c):
    P = prog.load()
    c.rule("A loop over a hashed container, or one ordered by addresses, has no effect that depends on the order of visiting")
    c.rule("No sort, minimum or comparison is by address; no address is printed or used as a number")
    c.rule("No clock, random source, process or thread identity is read")
    c.rule("No local variable or member is read before it has a value")
    done = set(); fs = []
    for f in P.all:
        if f.body is None or f.dep or not f.rel.startswith("lib/") or re.search(r"(Test|Benchmark)\w*\.(cpp|h)$", f.rel):
            continue
        k = (f.rel, f.line, f.full, tuple(f.ta or ()))
        if k not in done:
            done.add(k); fs.append(f)
    callers = {}
    for f in fs:
        for x in f.body.walk():
            if x.k in ("Call", "MCall") and x.q:
                callers.setdefault(x.q, set()).add(id(f))
    RETURNS.clear(); FILLS.clear()
    while True:
        was = len(RETURNS) + len(FILLS)
        log = Log()
        for f in fs:
            Scan(log, P, f, callers).run()
        if len(RETURNS) + len(FILLS) == was:
            break
    for m, a in log.ev:
        getattr(c, m)(*a)
    c.count("functions", len(fs))
    for f in fs:
        a = Assigned(f)
        c.count("uninitialised declarations", len(a.vars))
        for v in a.vars:
            if not any(x.d.get("id") == v for x in a.bad + a.maybe):
                c.ok()
        for x in a.maybe:
            c.undecided(f.where(x), f"whether {x.n} has a value here")
        for x in a.bad:
            c.bad(f"unset:{f.name}:{x.n}", f.where(x), f"{f.full.split('(')[0]} reads {x.n} on a path where it has no value")
    fields(c, P)
    c.need("functions", 400); c.need("unordered iterations", 3)
    return c.finish("Every compiled function is searched for iteration over containers without a fixed order; the effects of each such loop are classified, sequences filled in it are followed to a sort or to their uses. Sorts, comparisons of addresses, varying sources and reads before assignment are decided per construct.")
