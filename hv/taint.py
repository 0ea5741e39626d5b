"""Flow-insensitive data dependence inside one function: which sources reach which expressions."""
from .prog import N


class Taint:
    """source(node) -> label or None. dep(node) is the set of labels that may reach the node's value."""

    def __init__(self, fn, source, params=None):
        self.fn = fn
        self.source = source
        self.env = {}
        for p in fn.params:
            if params and p.n in params:
                self.env[p.d["id"]] = {params[p.n]}
        changed = True
        rounds = 0
        nodes = list(fn.walk())
        while changed and rounds < 12:
            changed = False; rounds += 1
            for n in nodes:
                changed |= self.transfer(n)

    def add(self, tgt, labels):
        root = self.root(tgt)
        if root is None or not labels:
            return False
        cur = self.env.setdefault(root, set())
        k = len(cur)
        cur |= labels
        return len(cur) != k

    def root(self, n):
        while n is not None:
            if n.k == "Ref" and n.d.get("id") is not None:
                return n.d["id"]
            if n.k == "Mem":
                if n.base is None or n.base.k == "This":
                    return ("this", n.n)
                n = n.base
            elif n.k in ("Un", "Idx"):
                n = n.a
            elif n.k == "OpCall" and n.args:
                n = n.args[0]
            elif n.k == "Cast":
                n = n.e
            elif n.k == "MCall":
                n = n.obj
            elif n.k == "Call" and n.q in ("std::move", "std::forward", "std::back_inserter") and n.args:
                n = n.args[0]
            else:
                return None
        return None

    MUT = {"push_back", "emplace_back", "insert", "append", "emplace", "resize", "assign", "push", "try_emplace", "insert_or_assign"}

    def transfer(self, n):
        ch = False
        if n.k == "Decl":
            for v in n.v or []:
                if v.init is not None:
                    d = self.dep(v.init)
                    if d:
                        cur = self.env.setdefault(v.d["id"], set()); k = len(cur); cur |= d
                        ch |= len(cur) != k
                    for b in v.d.get("b") or []:
                        pass
        elif n.k == "RFor" and n.var is not None:
            d = self.dep(n.range)
            if d:
                cur = self.env.setdefault(n.var.d["id"], set()); k = len(cur); cur |= d
                ch |= len(cur) != k
        elif n.k in ("Assign", "CAssign"):
            ch |= self.add(n.a, self.dep(n.b))
        elif n.k == "OpCall" and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and len(n.args or []) == 2:
            ch |= self.add(n.args[0], self.dep(n.args[1]))
        elif n.k == "MCall" and n.n in self.MUT and n.obj is not None:
            d = set()
            for a in n.args or []:
                d |= self.dep(a)
            ch |= self.add(n.obj, d)
        elif n.k == "Call" and (n.q or "").split("::")[-1] in ("transform", "copy", "append_range", "copy_if"):
            d = set()
            for a in n.args or []:
                d |= self.dep(a)
            for a in n.args or []:
                if a.k == "Call" and "inserter" in (a.q or ""):
                    ch |= self.add(a, d)
        return ch

    def dep(self, n):
        if n is None:
            return set()
        s = self.source(n)
        if s is not None:
            return {s}
        if n.k == "Ref" and n.d.get("id") is not None:
            return set(self.env.get(n.d["id"], ()))
        if n.k == "Mem" and (n.base is None or n.base.k == "This"):
            return set(self.env.get(("this", n.n), ()))
        out = set()
        if n.k == "Lambda":
            for c in (n.body.walk() if n.body is not None else ()):
                if c.k == "Return":
                    out |= self.dep(c.e)
            return out
        for c in n.children():
            out |= self.dep(c)
        return out
