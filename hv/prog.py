"""Program model over extracted facts: nodes, functions, records, call graph."""
import re
from . import facts

CHILD_KEYS = ("init", "cvar", "fn", "obj", "base", "c", "e", "a", "b", "args", "range", "var", "body", "inc", "s", "v", "v2", "h", "def", "inits", "caps")


class N:
    """AST node. Attributes are the extractor's keys; missing ones read as None."""
    __slots__ = ("d", "tu", "_ch")

    def __init__(self, d, tu):
        self.d = d; self.tu = tu; self._ch = None

    def __getattr__(self, k):
        v = self.d.get(k)
        if type(v) is dict:
            v = N(v, self.tu); self.d[k] = v
        elif type(v) is list and v and any(type(x) is dict for x in v):
            v = [N(x, self.tu) if type(x) is dict else x for x in v]
            self.d[k] = v
        return v

    @property
    def type(self):
        t = self.d.get("t")
        return self.tu["types"][t] if isinstance(t, int) and t >= 0 else ""

    @property
    def line(self):
        return self.d.get("l") or 0

    def children(self):
        if self._ch is None:
            out = []
            for k in CHILD_KEYS:
                if k in self.d:
                    v = getattr(self, k)
                    if isinstance(v, N):
                        out.append(v)
                    elif isinstance(v, list):
                        out.extend(x for x in v if isinstance(x, N))
            self._ch = out
        return self._ch

    def walk(self, lambdas=True):
        """Pre-order; lambda bodies included unless lambdas is False."""
        st = [self]
        while st:
            n = st.pop()
            yield n
            if not lambdas and n.k == "Lambda" and n is not self:
                continue
            st.extend(reversed(n.children()))

    def __repr__(self):
        return f"<{self.k} {self.d.get('n') or self.d.get('op') or self.d.get('v') or ''} @{self.line}>"


class Fn:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.q = d["q"]; self.full = d["full"]; self.name = d["n"]; self.usr = d["usr"]
        self.file = tu["files"][d["file"]]
        self.rel = self.file[len(facts.REPO) + 1:] if self.file.startswith(facts.REPO + "/") else self.file
        self.line = d["line"]; self.end = d["end"]
        self.cls = d.get("cls"); self.clsq = d.get("clsq")
        self.dep = d.get("dep", False); self.inst = d.get("inst", False)
        self.ta = d.get("ta", [])
        self.body = N(d["body"], tu)
        self.params = [N(p, tu) for p in d["params"]]
        self.inits = [N(i, tu) for i in d.get("inits", [])]
        self.ret = tu["types"][d["ret"]] if d["ret"] >= 0 else ""

    def walk(self, lambdas=True):
        for i in self.inits:
            if i.e is not None:
                yield from i.e.walk(lambdas)
        yield from self.body.walk(lambdas)

    def where(self, n=None):
        return f"{self.rel}:{n.line if n is not None and n.line else self.line}"

    def __repr__(self):
        return f"<Fn {self.full} {self.rel}:{self.line}>"


class Rec:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu; self.q = d["q"]; self.full = d["full"]
        self.file = tu["files"][d["file"]]
        self.rel = self.file[len(facts.REPO) + 1:] if self.file.startswith(facts.REPO + "/") else self.file
        self.line = d["line"]
        self.dep = d.get("dep", False)
        self.fields = [N(f, tu) for f in d["fields"]]
        self.bases = [tu["types"][b] for b in d["bases"] if b >= 0]
        self.methods = [N(m, tu) for m in d["methods"]]


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.fns = {}          # (usr, file, line) -> Fn ; usr alone is ambiguous for static/anon functions
        self.by_usr = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.srcs = []
        for tu in tus:
            for d in tu["functions"]:
                key = (d["usr"], tu["files"][d["file"]], d["line"], tuple(d.get("ta", [])), d["full"])
                if key in self.fns:
                    continue
                f = Fn(d, tu)
                self.fns[key] = f
                self.by_usr.setdefault(d["usr"], []).append(f)
            for d in tu["records"]:
                if d["full"] not in self.recs:
                    self.recs[d["full"]] = Rec(d, tu)
            for d in tu["enums"]:
                self.enums.setdefault(d["q"], [(v["n"], int(v["v"])) for v in d["vals"]])
            for d in tu["globals"]:
                self.globals.setdefault(d["q"], N(d, tu))
        self.all = list(self.fns.values())

    def callee(self, n):
        """The Fn a call/ctor node resolves to, or None."""
        u = n.usr if isinstance(n, N) else n
        c = self.by_usr.get(u)
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        same = [f for f in c if isinstance(n, N) and f.tu is n.tu]
        return (same or c)[0]

    def find(self, q=None, file=None, name=None, inst=None):
        out = []
        for f in self.all:
            if q and f.q != q:
                continue
            if name and f.name != name:
                continue
            if file and not f.rel.endswith(file):
                continue
            out.append(f)
        return out

    def one(self, q, file=None):
        r = [f for f in self.find(q=q, file=file) if not f.dep]
        if not r:
            raise facts.AnalysisBroken(f"anchor not found: {q} {file or ''}")
        return r[0]


_cache = {}


def load(srcs=None, extra=(), gen=()):
    srcs = tuple(srcs) if srcs is not None else tuple(facts.sources())
    key = (srcs, tuple(extra), tuple(gen))
    if key not in _cache:
        p = Program(facts.extract_all(srcs, extra, gen))
        p.srcs = list(srcs)
        _cache[key] = p
    return _cache[key]
