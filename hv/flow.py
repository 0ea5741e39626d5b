"""Structured, branch-sensitive forward dataflow over the extracted AST.

A state is a dict; None means unreachable. Clients override the hooks."""
from .prog import N

NORETURN = {"llvm::llvm_unreachable_internal", "llvm::report_fatal_error", "__assert_fail", "abort", "exit",
            "std::abort", "std::exit", "std::terminate", "_exit", "llvm::report_bad_alloc_error", "__builtin_unreachable",
            "llvm::reportFatalInternalError", "llvm::reportFatalUsageError"}


def is_noreturn(n):
    return n.k in ("Call",) and (n.q in NORETURN)


def constbool(n):
    """Truth value of a constant condition, or None."""
    if n is None:
        return None
    if n.k == "Bool":
        return None if n.v is None else bool(n.v)
    if n.d.get("cv") is not None:
        return str(n.d["cv"]) != "0"
    if n.k == "Int":
        return str(n.v) != "0"
    if n.k == "Cast":
        return constbool(n.e)
    if n.k == "Un" and n.op == "!":
        v = constbool(n.a)
        return None if v is None else not v
    if n.k == "Bin" and n.op in ("&&", "||"):
        a, b = constbool(n.a), constbool(n.b)
        if n.op == "&&":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    return None


class Flow:
    MAXIT = 6

    def __init__(self):
        self.rets = []
        self.depth = 0
        self.reporting = True

    # -- hooks -------------------------------------------------------------
    def copy(self, s):
        return None if s is None else dict(s)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: v for k, v in a.items() if k in b and b[k] == v}

    def visit(self, n, s):
        """Post-order transfer for an expression node; returns the state."""
        return s

    def assume(self, c, truth, s):
        return s

    def decl(self, v, s):
        return s

    def on_return(self, n, s):
        pass

    def on_range_var(self, n, s):
        return s

    def enter_lambda(self, n, s):
        """State in which the body of a lambda starts (default: creation state)."""
        return self.copy(s)

    def call_args(self, n, s):
        for a in n.args or []:
            s = self.expr(a, s)
        return s

    # -- expressions -------------------------------------------------------
    def expr(self, n, s):
        if s is None or n is None:
            return s
        k = n.k
        if k == "Bin" and n.op in ("&&", "||"):
            s = self.expr(n.a, s)
            if s is None:
                return None
            short = self.assume(n.a, n.op == "||", self.copy(s))
            cont = self.assume(n.a, n.op == "&&", self.copy(s))
            cont = self.expr(n.b, cont)
            return self.visit_j(n, self.join(short, cont))
        if k == "Cond":
            s = self.expr(n.c, s)
            a = self.expr(n.a, self.assume(n.c, True, self.copy(s)) if s is not None else None)
            b = self.expr(n.b, self.assume(n.c, False, self.copy(s)) if s is not None else None)
            return self.visit_j(n, self.join(a, b))
        if k == "Assign" or (k == "OpCall" and n.op == "=" and n.args and len(n.args) == 2):
            l, r = (n.a, n.b) if k == "Assign" else (n.args[0], n.args[1])
            s = self.expr(r, s)
            s = self.expr(l, s)
            return self.visit_j(n, s)
        if k == "Lambda":
            for c in n.caps or []:
                if isinstance(c, N) and c.init is not None:
                    s = self.expr(c.init, s)
            return self.lambda_(n, s)
        if k == "DefArg":
            return s
        if k == "SizeOf":
            return s
        for key in ("fn", "obj", "base", "c", "e", "a", "b"):
            ch = getattr(n, key) if key in n.d else None
            if isinstance(ch, N):
                s = self.expr(ch, s)
        if n.args:
            for a in n.args:
                if isinstance(a, N):
                    s = self.expr(a, s)
        if k == "StmtExpr" and n.body is not None:
            o = self.stmt(n.body, s)
            s = o["next"]
        if s is None:
            return None
        s = self.visit(n, s)
        if is_noreturn(n) or k == "Throw":
            return None
        return s

    def visit_j(self, n, s):
        return None if s is None else self.visit(n, s)

    def lambda_(self, n, s):
        if s is None:
            return None
        bodies = [(x.body, x) for x in (n.specs or [])] if n.generic and n.specs else [(n.body, n)]
        out = s
        for body, ln in bodies:
            if body is None:
                continue
            st = self.enter_lambda(ln, s)
            save, self.rets = self.rets, []
            self.depth += 1
            self.lam_stack = getattr(self, "lam_stack", []) + [n]
            o = self.stmt(body, st)
            self.lam_stack = self.lam_stack[:-1]
            self.depth -= 1
            ex = o["next"]
            for _, rs in self.rets:
                ex = self.join(ex, rs)
            self.rets = save
            out = self.after_lambda(n, out, ex)
        return self.visit_j(n, out)

    def after_lambda(self, n, s, ex):
        return self.join(s, ex) if ex is not None else s

    # -- statements --------------------------------------------------------
    def stmt(self, n, s):
        """Returns dict next/break/continue states."""
        o = {"next": None, "break": None, "continue": None}
        if n is None:
            o["next"] = s
            return o
        k = n.k
        if s is None and k not in ("Block", "Case", "Default", "Switch"):
            return o
        if k == "Block":
            for c in n.s or []:
                r = self.stmt(c, s)
                s = r["next"]
                o["break"] = self.join(o["break"], r["break"])
                o["continue"] = self.join(o["continue"], r["continue"])
            o["next"] = s
            return o
        if k == "Decl":
            for v in n.v or []:
                s = self.vardecl(v, s)
            o["next"] = s
            return o
        if k == "If":
            if n.init is not None:
                s = self.stmt(n.init, s)["next"]
            if n.cvar is not None:
                s = self.vardecl(n.cvar, s)
            s = self.expr(n.c, s)
            t = self.assume(n.c, True, self.copy(s)) if s is not None else None
            f = self.assume(n.c, False, self.copy(s)) if s is not None else None
            if n.cexpr:
                cv = constbool(n.c)
                if cv is not None:
                    t, f = (t, None) if cv else (None, f)
            a = self.stmt(n.a, t)
            b = self.stmt(n.b, f) if n.b is not None else {"next": f, "break": None, "continue": None}
            for key in o:
                o[key] = self.join(a[key], b[key])
            return o
        if k in ("For", "While", "Do", "RFor"):
            return self.loop(n, s)
        if k == "Switch":
            if n.init is not None:
                s = self.stmt(n.init, s)["next"]
            if n.cvar is not None:
                s = self.vardecl(n.cvar, s)
            s = self.expr(n.c, s)
            return self.switch(n, s)
        if k == "Return":
            if n.e is not None:
                s = self.expr(n.e, s)
            if s is not None:
                self.rets.append((n, s))
                if self.reporting:
                    self.on_return(n, s)
            return o
        if k == "Break":
            o["break"] = s
            return o
        if k == "Continue":
            o["continue"] = s
            return o
        if k in ("Case", "Default", "Label"):
            return self.stmt(n.s, s)
        if k == "Nop":
            o["next"] = s
            return o
        if k == "Try":
            r = self.stmt(n.body, self.copy(s))
            for h in n.h or []:
                q = self.stmt(h, self.copy(s))
                for key in o:
                    r[key] = self.join(r[key], q[key])
            return r
        if k == "Goto":
            return o
        o["next"] = self.expr(n, s)
        return o

    def vardecl(self, v, s):
        if s is None:
            return None
        if v.init is not None:
            s = self.expr(v.init, s)
            if s is None:
                return None
        return self.decl(v, s)

    def switch(self, n, s):
        o = {"next": None, "break": None, "continue": None}
        if s is None:
            return o
        entry = s
        body = n.body.s if n.body.k == "Block" else [n.body]
        cur = None
        has_default = False
        seen = []
        for st in body or []:
            x = st
            while x is not None and x.k in ("Case", "Default"):
                if x.k == "Default":
                    has_default = True
                    cur = self.join(cur, self.switch_case(n, None, self.copy(entry)))
                else:
                    seen.append(x.v)
                    cur = self.join(cur, self.switch_case(n, x.v, self.copy(entry)))
                x = x.s
            r = self.stmt(x, cur)
            cur = r["next"]
            o["break"] = self.join(o["break"], r["break"])
            o["continue"] = self.join(o["continue"], r["continue"])
        nxt = self.join(cur, o["break"])
        if not has_default and not self.switch_exhaustive(n, seen):
            nxt = self.join(nxt, self.copy(entry))
        o["next"] = nxt
        o["break"] = None
        return o

    def switch_case(self, n, v, s):
        return s

    def switch_exhaustive(self, n, seen):
        return False

    def loop(self, n, s):
        o = {"next": None, "break": None, "continue": None}
        k = n.k
        if n.init is not None:
            s = self.stmt(n.init, s)["next"]
        if k == "RFor":
            s = self.expr(n.range, s)
        if s is None:
            return o
        head = s
        exit_ = None
        save_rep = self.reporting
        nrets = len(self.rets)
        for it in range(self.MAXIT):
            last = it == self.MAXIT - 1
            del self.rets[nrets:]
            self.reporting = False
            r, nxt, ex = self.loop_once(n, head)
            new = self.join(self.copy(head), nxt)
            if self.same(new, head):
                break
            head = new
        del self.rets[nrets:]
        self.reporting = save_rep
        r, nxt, ex = self.loop_once(n, head)
        o["next"] = self.join(ex, r["break"])
        return o

    def same(self, a, b):
        return a == b

    def loop_once(self, n, head):
        s = self.copy(head)
        ex = None
        k = n.k
        if k in ("For", "While"):
            if n.cvar is not None:
                s = self.vardecl(n.cvar, s)
            if n.c is not None:
                s = self.expr(n.c, s)
                ex = self.assume(n.c, False, self.copy(s)) if s is not None else None
                s = self.assume(n.c, True, s) if s is not None else None
                if n.c.k == "Bool" and n.c.v is True:
                    ex = None
            r = self.stmt(n.body, s)
            nxt = self.join(r["next"], r["continue"])
            if k == "For" and n.inc is not None:
                nxt = self.expr(n.inc, nxt)
        elif k == "RFor":
            ex = self.copy(s)
            s = self.decl(n.var, s)
            s = self.on_range_var(n, s)
            r = self.stmt(n.body, s)
            nxt = self.join(r["next"], r["continue"])
        else:  # Do
            r = self.stmt(n.body, s)
            x = self.join(r["next"], r["continue"])
            x = self.expr(n.c, x)
            nxt = ex = None
            if x is not None:
                ex = self.assume(n.c, False, self.copy(x))
                nxt = self.assume(n.c, True, self.copy(x))
                if n.c.k in ("Bool",) and n.c.v is False or (n.c.k == "Int" and n.c.v == "0"):
                    nxt = None
        return r, nxt, ex

    def run(self, fn, s):
        for i in fn.inits:
            if i.e is not None:
                s = self.expr(i.e, s)
        o = self.stmt(fn.body, s)
        return o["next"]


# -- access paths ---------------------------------------------------------
def key(n):
    """Stable identity of the place/pure value an expression denotes, or None."""
    if n is None:
        return None
    k = n.k
    if k == "Ref":
        if n.dk == "enum":
            return ("enum", n.q)
        if n.dk == "func":
            return ("func", n.usr)
        if n.dk in ("global", "other"):
            return ("g", n.q)
        return ("v", n.d["id"])
    if k == "This":
        return ("this",)
    if k == "Mem":
        b = key(n.base)
        return None if b is None else (".", b, n.n)
    if k in ("Int", "Bool", "Str", "Char", "Float"):
        return ("lit", n.v)
    if k == "Null":
        return ("lit", None)
    if k == "Cast":
        return key(n.e)
    if k == "Ctor" and (n.copy or n.move) and n.args:
        return key(n.args[0])
    if k == "Ctor" and n.args is not None and len([a for a in n.args if a.k != "DefArg"]) == 1 and not n.list:
        return key(n.args[0])
    if k == "Call" and n.q in ("std::move", "std::forward") and n.args:
        return key(n.args[0])
    if k == "Un" and n.op in ("*", "-", "!", "&"):
        b = key(n.a)
        return None if b is None else (n.op, b)
    if k == "OpCall" and n.op in ("*", "->") and n.args and len(n.args) == 1:
        b = key(n.args[0])
        return None if b is None else ("*", b)
    if k == "OpCall" and n.op == "[]" and len(n.args) == 2:
        a, b = key(n.args[0]), key(n.args[1])
        return None if a is None or b is None else ("[]", a, b)
    if k == "Idx":
        a, b = key(n.a), key(n.b)
        return None if a is None or b is None else ("[]", a, b)
    if k == "MCall" and n.obj is not None:
        o = key(n.obj)
        if o is None:
            return None
        if n.n and n.n.startswith("operator ") and not n.args:  # conversion operator
            return o
        ks = [key(a) for a in n.args or [] if a.k != "DefArg"]
        if any(x is None for x in ks):
            return None
        return ("m", n.n, tuple(n.ta or ()), o) + tuple(ks)
    if k == "Call" and n.q:
        ks = [key(a) for a in n.args or [] if a.k != "DefArg"]
        if any(x is None for x in ks):
            return None
        return ("c", n.q, tuple(n.ta or ())) + tuple(ks)
    if k == "Bin" and n.op not in (",",):
        a, b = key(n.a), key(n.b)
        return None if a is None or b is None else ("b", n.op, a, b)
    return None


def mentions(k, sub):
    if k == sub:
        return True
    if isinstance(k, tuple):
        return any(mentions(x, sub) for x in k)
    return False


def kill(s, sub):
    """Drops every fact about a key that contains `sub`."""
    return {k: v for k, v in s.items() if not mentions(k, sub)}
