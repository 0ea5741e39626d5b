"""Abstract evaluation over descriptions of IR: operations, values, types and attributes are symbolic entities.

A check describes a small piece of IR (operation kind, operand names and types, attributes); the source that
inspects or translates it is evaluated over that description.  Names and constants stay opaque tokens;
anything the description does not determine stays unknown."""
import math, re
from .cprop import I, T, truth, compare, flat
from .ceval import Eval, conc

M = "mlir::"
H = "mlir::heir::"
BASES = {
    M + "RankedTensorType": ("mlir::TensorType", "mlir::ShapedType"),
    M + "MemRefType": ("mlir::BaseMemRefType", "mlir::ShapedType"),
    M + "VectorType": ("mlir::ShapedType",),
    M + "Float16Type": ("mlir::FloatType",), M + "Float32Type": ("mlir::FloatType",), M + "Float64Type": ("mlir::FloatType",),
    M + "BoolAttr": ("mlir::IntegerAttr",),
    M + "DenseIntElementsAttr": ("mlir::DenseElementsAttr", "mlir::ElementsAttr"),
}
ANY = {"mlir::Operation", "mlir::Value", "mlir::Type", "mlir::Attribute"}


def clean(t):
    t = re.sub(r"\b(const|class|struct|volatile)\b", "", t or "")
    t = t.replace("&", "").replace("*", "").strip()
    return t[2:] if t.startswith("::") else t


class Ent:
    def __init__(self, world, kind, cls, **d):
        self.kind, self.cls, self.d = kind, cls, d
        self.id = len(world.E)
        world.E.append(self)
        self.isa = {cls} | set(BASES.get(cls, ())) | set(d.pop("isa", ()))

    def __getattr__(self, k):
        try:
            return self.__dict__["d"][k]
        except KeyError:
            raise AttributeError(k)

    @property
    def v(self):
        return T("ir", self.id)

    def __repr__(self):
        return f"<{self.kind} {self.cls} {self.d.get('name') or ''}>"


def apint(width, val, signed=None):
    return T("apint", width, val & ((1 << width) - 1))


def sval(a):
    w, u = a[2], a[3]
    return u - (1 << w) if w and u >> (w - 1) else u


class World(Eval):
    GATES = ("AND", "NAND", "OR", "NOR", "XOR", "XNOR", "NOT")

    def __init__(self, P, **kw):
        kw.setdefault("depth", 60)
        super().__init__(P, **kw)
        self.E = []
        self.types = {}
        self.failures = []
        self.decls = {}
        self.accessors = {}
        self.modelled = None
        self.cmphook = self.cmpent
        self.trace = None
        self.MAXREC = 6

    # -- building descriptions ----------------------------------------------
    def ty(self, cls, **d):
        key = (cls, tuple(sorted((k, v.id if isinstance(v, Ent) else v) for k, v in d.items() if k != "isa")))
        if key not in self.types:
            self.types[key] = Ent(self, "type", cls, **d)
        return self.types[key]

    def int(self, w, sign=""):
        return self.ty(M + "IntegerType", width=w, sign=sign, text={"": "i", "s": "si", "u": "ui"}[sign] + str(w))

    def idx(self):
        return self.ty(M + "IndexType", text="index")

    def flt(self, w):
        return self.ty(M + f"Float{w}Type", fwidth=w, text=f"f{w}")

    def tensor(self, shape, elt):
        return self.ty(M + "RankedTensorType", shape=tuple(shape), elt=elt, text="tensor<%s%s>" % ("".join(f"{d}x" for d in shape), elt.d.get("text")))

    def memref(self, shape, elt, strides=None, offset=0):
        return self.ty(M + "MemRefType", shape=tuple(shape), elt=elt, strides=strides, offset=offset, text="memref<%s%s>" % ("".join(f"{d}x" for d in shape), elt.d.get("text")))

    def mk(self, cls, traits=(), **d):
        return self.ty(cls, traits=tuple(traits), **d)

    def arg(self, name, ty, n=0):
        return Ent(self, "value", M + "BlockArgument", name=name, ty=ty, op=None, num=n, users=[])

    def op(self, cls, opnds=(), res=(), acc=None, regions=(), opname=None, names=None, **d):
        """An operation; res is a list of (name, type)."""
        o = Ent(self, "op", cls, opnds=list(opnds), acc=dict(acc or {}), regions=[list(r) for r in regions], opname=opname or cls, parent=None, nxt=None, **d)
        o.d["res"] = [Ent(self, "value", M + "OpResult", name=n, ty=t, op=o, num=i, users=[]) for i, (n, t) in enumerate(res)]
        for v in o.opnds:
            if isinstance(v, Ent) and v.kind == "value":
                v.users.append(o)
        o.d["blocks"] = []
        for r in o.regions:
            b = Ent(self, "block", M + "Block", ops=r, args=d.get("blockargs", []), parent=o)
            o.blocks.append(b)
            for i, x in enumerate(r):
                x.d["parent"] = o
                x.d["block"] = b
                x.d["nxt"] = r[i + 1] if i + 1 < len(r) else None
        return o

    def attr(self, cls, **d):
        return Ent(self, "attr", cls, **d)

    def intattr(self, val, ty, cls=M + "IntegerAttr"):
        w = ty.d.get("width") or 64
        return self.attr(cls, apint=apint(w, val), ty=ty)

    # -- entities -------------------------------------------------------------
    def ent(self, v):
        return self.E[v[2]] if v is not None and v[:2] == ("t", "ir") else None

    def lift(self, x):
        """Python-side accessor result to an abstract value."""
        if isinstance(x, Ent):
            return x.v
        if isinstance(x, bool):
            return I(int(x))
        if isinstance(x, int):
            return I(x)
        if isinstance(x, str):
            return ("s", x)
        if isinstance(x, (list, range)):
            return ("l", tuple(self.lift(e) for e in x))
        if x is None:
            return ("fail",)
        return x

    def isa(self, e, cls):
        """True/False; entity e is of the C++ class cls."""
        cls = clean(cls)
        if cls in e.isa or cls in ANY and {"op": "Operation", "value": "Value", "type": "Type", "attr": "Attribute"}.get(e.kind) == cls[6:]:
            return True
        return False

    def cmpent(self, op, a, b):
        if op not in ("==", "!="):
            return None
        ea, eb = self.ent(a), self.ent(b)
        if ea is not None and ea.kind == "op" and eb is not None and eb.kind == "value" and len(ea.res) == 1:
            ea = ea.res[0]
        if eb is not None and eb.kind == "op" and ea is not None and ea.kind == "value" and len(eb.res) == 1:
            eb = eb.res[0]
        if ea is not None and eb is not None:
            return (ea is eb) == (op == "==")
        if ea is not None and b == ("fail",) or eb is not None and a == ("fail",):
            return op == "!="
        if a is not None and b is not None and a[0] == "l" and b[0] == "l":
            if len(a[1]) != len(b[1]):
                return op == "!="
            r = [compare("==", x, y) if self.cmpent("==", x, y) is None else self.cmpent("==", x, y) for x, y in zip(a[1], b[1])]
            if False in r:
                return op == "!="
            return None if None in r else op == "=="
        if a is not None and b is not None and a[:2] == ("t", "apint") and b[:2] == ("t", "apint"):
            return (a[3] == b[3]) == (op == "==")
        if a is not None and a[:2] == ("t", "apint") and conc(b) is not None:
            return (a[3] == conc(b)) == (op == "==")
        return None

    # -- expression hooks -----------------------------------------------------
    def cast(self, n, v):
        if self.ent(v) is not None and n.d.get("ck") in ("PointerToBoolean", "MemberPointerToBoolean"):
            return I(1)
        if v is not None and v[:1] == ("l",) and n.d.get("ck") == "PointerToBoolean":
            return I(1)
        return super().cast(n, v)

    def place(self, n, s):
        if n is not None and n.k == "Ref" and n.dk == "global" and ("g", n.q) in s:
            return ("g", n.q)
        if n is not None and n.k in ("Un", "OpCall") and n.op == "*":
            p = super().place(n, s)
            v = self.getp(p, s) if p is not None else None
            return None if v is not None and v[:2] == ("t", "iter") else p
        return super().place(n, s)

    def unary(self, n, s):
        p = self.place(n.a, s) if n.op in ("++", "--", "++post", "--post", "post++", "post--") or "++" in (n.op or "") or "--" in (n.op or "") else None
        if p is not None:
            v = self.getp(p, s)
            if v is not None and v[:2] == ("t", "iter"):
                nv = T("iter", v[2], v[3] + (1 if "++" in n.op else -1))
                s = self.setp(p, nv, s)
                return (v if n.d.get("post") or "post" in n.op else nv), s
        if n.op == "*":
            v, s2 = self.ev(n.a, s)
            if v is not None and v[:2] == ("t", "iter") and v[2][0] == "l" and 0 <= v[3] < len(v[2][1]):
                return v[2][1][v[3]], s2
            if v is not None and v[:2] == ("t", "iter") and v[2][0] == "l":
                self.failures.append((n, "dereference past the end"))
                return None, s2
            if self.ent(v) is not None:
                return v, s2
        return super().unary(n, s)

    def ev(self, n, s):
        if n is not None and n.k == "Ref" and n.dk == "global" and s is not None and ("g", n.q) in s:
            return s[("g", n.q)], s
        if n is not None and s is not None and n.k == "OpCall" and n.op == "=" and len(n.args or []) == 2:
            l = n.args[0]
            while l is not None and l.k in ("Cast", "Materialize", "Bind"):
                l = l.e
            if l is not None and l.k == "Call" and (l.q or "") == "std::tie":
                v, s = self.ev(n.args[1], s)
                if s is None:
                    return None, None
                vs = v[1] if v is not None and v[0] == "l" else [x for _, x in v[1]] if v is not None and v[0] == "st" else [None] * len(l.args)
                for a, x in zip(l.args, vs):
                    p = self.place(a, s)
                    if p is not None:
                        s = self.setp(p, x, s)
                return v, s
        return super().ev(n, s)

    def can_inline(self, f, n):
        if len(self.stack) >= self.maxdepth or self.stack.count(f.usr) >= self.MAXREC:
            return False
        if self.opaque and self.opaque(f, n):
            return False
        return f.rel.startswith(("lib/", "tools/"))

    def inline(self, f, n, obj, pa, s, ov=None):
        if f.usr not in self.stack:
            return super().inline(f, n, obj, pa, s, ov)
        ids = self.decls.get(f.usr)
        if ids is None:
            ids = self.decls[f.usr] = {x.d["id"] for x in f.body.walk() if x.k in ("Var", "Param") and x.d.get("id") is not None} | \
                {b["id"] for x in f.body.walk() if x.k == "Var" for b in (x.d.get("bind") or [])}
        keep = {k: s.get(k) for i in ids for k in (("v", i), ("al", i))}
        v, st = super().inline(f, n, obj, pa, s, ov)
        if st is not None:
            st = dict(st)
            for k, x in keep.items():
                if x is None:
                    st.pop(k, None)
                else:
                    st[k] = x
        return v, st

    def apply(self, fv, vals, s, nodes=None):
        n = self.closure(fv)
        if n is not None and n.d.get("generic") and self.ent(vals[0] if vals else None) is not None:
            specs = [x for x in (n.specs or []) if x.body is not None and len(x.params or []) == len(vals)]
            e = self.ent(vals[0])
            m = [x for x in specs if self.isa(e, x.params[0].type)]
            exact = [x for x in m if clean(x.params[0].type) == e.cls]
            if len(exact or m) >= 1:
                return self.applyspec((exact or m)[0], vals, s)
        return super().apply(fv, vals, s, nodes)

    def applyspec(self, x, vals, s):
        fs = dict(s)
        saved = {}
        for p, v in zip(x.params, vals):
            for key in (("v", p.d["id"]), ("al", p.d["id"])):
                saved[key] = s.get(key)
                fs.pop(key, None)
            if v is not None:
                fs[("v", p.d["id"])] = v
        self.stack.append(("lam", id(x.d)))
        self.retstack.append([])
        o = self.stmt(x.body, fs)
        rets = self.retstack.pop()
        self.stack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        if not rets:
            return None, None
        from .cprop import joinv
        val, st = rets[0]
        for v2, s2 in rets[1:]:
            val = joinv(val, v2)
            st = self.join(st, s2)
        st = dict(st)
        for k, v in saved.items():
            if v is None:
                st.pop(k, None)
            else:
                st[k] = v
        return val, st

    # -- text -------------------------------------------------------------------
    def rep(self, v):
        if v is not None and v[:2] == ("t", "apint"):
            return str(sval(v))
        e = self.ent(v)
        if e is not None:
            return self.text(e)
        r = super().rep(v)
        if r is None and v is not None and v[0] == "e":
            return v[2]
        return r

    def text(self, e):
        if e.kind == "type":
            return e.d.get("text") or e.cls
        if e.kind == "op":
            return f"<<{e.opname}>>"
        if e.kind == "attr" and "apint" in e.d:
            return f"{sval(e.apint)} : {e.ty.d.get('text')}"
        return f"<<{e.cls}>>"

    # -- model of the library ----------------------------------------------------
    def targs(self, n):
        return [clean(t) for t in (n.d.get("ta") or [])]

    def decl(self, v, s):
        s = super().decl(v, s)
        if s is not None and "graph::Graph<" in (v.type or "") and "&" not in v.type and v.d.get("id") is not None and self.getp(("v", v.d["id"]), s) is None:
            i = v.init
            if i is None or i.k in ("Ctor", "New", "Init") and not (i.args or []):
                s = self.setp(("v", v.d["id"]), T("graph", (), ()), s)
        return s

    def graphmethod(self, n, name, ov, vals, s):
        """graph::Graph as a set of vertices and edges; levels are longest distances to a sink, as documented."""
        V, E = ov[2], ov[3]
        p = self.place(n.obj, s)
        if any(x is None for x in vals):
            return None
        if name == "addVertex" and p is not None:
            return None, self.setp(p, T("graph", V if vals[0] in V else V + (vals[0],), E), s)
        if name == "addEdge" and p is not None and len(vals) == 2:
            ok = vals[0] in V and vals[1] in V
            return I(int(ok)), self.setp(p, T("graph", V, E + (tuple(vals),) if ok and tuple(vals) not in E else E), s)
        if name == "empty":
            return I(int(not V)), s
        if name == "contains":
            return I(int(vals[0] in V)), s
        if name == "sortGraphByLevels":
            lev = {}

            def depth(v, seen=()):
                if v in seen:
                    return None
                if v not in lev:
                    ds = [depth(b, seen + (v,)) for a, b in E if a == v]
                    if None in ds:
                        return None
                    lev[v] = 1 + max(ds, default=-1)
                return lev[v]
            if any(depth(v) is None for v in V):
                return ("fail",), s
            m = max(lev.values(), default=0)
            return ("l", tuple(("l", tuple(v for v in V if m - lev[v] == k)) for k in range(m + 1))), s
        return None

    def model(self, n, name, q, ov, vals, s):
        if n.k == "MCall" and name == "clear" and ov is not None and ov[0] == "s" and not vals:
            p = self.place(n.obj, s)
            return (None, self.setp(p, ("s", ""), s)) if p is not None else None
        if n.k == "MCall" and (n.d.get("cls") or "").startswith("mlir::heir::graph::Graph<") and ov is not None and ov[:2] == ("t", "graph"):
            r = self.graphmethod(n, name, ov, vals, s)
            if r is not None:
                return r
        if q in ("llvm::failed", "mlir::failed", "llvm::succeeded", "mlir::succeeded") and len(vals) == 1 and self.ent(vals[0]) is not None:
            return I(int(name == "succeeded")), s
        op = n.op if n.k == "OpCall" else None
        r = self.irmodel(n, name, q, op, ov, vals, s)
        if r is not None:
            return r
        return super().model(n, name, q, ov, vals, s)

    def irmodel(self, n, name, q, op, ov, vals, s):
        short = q.split("::")[-1] if q else name
        if short in ("isa", "dyn_cast", "cast", "isa_and_nonnull", "dyn_cast_or_null", "dyn_cast_if_present", "isa_and_present", "cast_or_null", "isPresent") and (n.k == "Call" or n.k == "MCall"):
            subj = vals[0] if n.k == "Call" and vals else ov
            e = self.ent(subj)
            ta = self.targs(n)
            if n.k == "Call" and short.startswith("isa") and len(ta) > 1:
                ta = ta[:-1]
            elif n.k == "Call" and not short.startswith("isa"):
                ta = ta[:1]
            if subj == ("fail",):
                if short in ("dyn_cast", "isa", "cast"):
                    self.failures.append((n, "null"))
                return (I(0) if short.startswith("isa") else ("fail",)), s
            if e is not None and ta:
                if e.kind == "op" and len(e.res) == 1 and any(t in ("mlir::BlockArgument", "mlir::OpResult") for t in ta):
                    e = e.res[0]
                hit = any(self.isa(e, t) for t in ta)
                if short.startswith("isa"):
                    return I(int(hit)), s
                if short.startswith("cast"):
                    if not hit:
                        self.failures.append((n, "cast"))
                        return None, s
                    return e.v, s
                return (e.v if hit else ("fail",)), s
            return None
        if "TypeSwitch" in (n.cls or "") or ov is not None and ov[:2] == ("t", "tsw"):
            if ov is not None and ov[:2] == ("t", "tsw"):
                return self.tswitch(n, name, ov, vals, s)
        if name in ("emitError", "emitOpError", "emitRemark", "emitWarning", "mlirEmitError") or short in ("emitError", "emitWarning", "emitRemark"):
            if "Error" in short + name:
                for a in n.args or []:
                    if a.k == "Str":
                        break
                return ("fail",), self.event(("err", n.line), s)
            return T("diag"), s
        if op == "()" and vals and vals[0] == T("emitErrorFn"):
            return ("fail",), s
        if op == "<<" and vals and vals[0] == ("fail",):
            return ("fail",), s
        if name == "getNameForValue" and len(vals) == 1:
            e = self.val(vals[0])
            return (("s", e.name) if e is not None else None), s
        if name == "getIntForValue" and len(vals) == 1:
            e = self.val(vals[0])
            return (I(7000 + e.id) if e is not None else None), s
        if short in ("make_pair", "make_tuple", "pair", "tuple") and n.k == "Call" and len(vals) > 1:
            return ("l", tuple(vals)), s
        if re.search(r"FailureOr<|optional<", n.cls or "") and ov is not None and name in ("value", "operator*", "get", "value_or") and ov != ("fail",):
            return ov, s
        if op == "*" and len(vals) == 1 and re.search(r"(FailureOr|optional)<", n.q or "") and vals[0] is not None and vals[0] != ("fail",):
            return vals[0], s
        m = re.match(r"symbolize(\w*GateEnum)$", short)
        if m and len(vals) == 1 and vals[0] is not None and vals[0][0] == "s":
            return (("e", m.group(1), vals[0][1]) if vals[0][1] in self.GATES else ("fail",)), s
        if name in ("has_value", "operator bool") and ov is not None and n.k == "MCall" and re.search(r"optional<", n.cls or ""):
            return I(int(ov != ("fail",))), s
        if n.k == "MCall" and ov is not None and ov[0] == "s" and not vals and name in ("upper", "lower"):
            return ("s", getattr(ov[1], name)()), s
        if short == "interleave" and len(vals) >= 4 and vals[0] is not None and vals[0][0] == "l":
            sep = vals[3]
            for i, x in enumerate(vals[0][1]):
                if i:
                    s = self.event(("o", self.sname(n.args[1], s), sep), s)
                r = self.apply(vals[2], [x], s)
                if r is None or r[1] is None:
                    return None
                s = r[1]
            return None, s
        if short == "interleaveComma" and len(vals) >= 2 and vals[0] is not None and vals[0][0] == "l":
            for i, x in enumerate(vals[0][1]):
                if i:
                    s = self.event(("o", self.sname(n.args[1], s), ("s", ", ")), s)
                if len(vals) == 2:
                    s = self.event(("o", self.sname(n.args[1], s), x), s)
                else:
                    r = self.apply(vals[2], [x], s)
                    if r is None or r[1] is None:
                        return None
                    s = r[1]
            return None, s
        if q.endswith(("WalkResult::advance", "WalkResult::interrupt", "WalkResult::skip")):
            return T("wr", name), s
        if ov is not None and ov[:2] == ("t", "wr") and name in ("wasInterrupted", "wasSkipped"):
            return I(int(ov[2] == {"wasInterrupted": "interrupt", "wasSkipped": "skip"}[name])), s
        if q in ("mlir::affine::expandAffineMap",) and len(vals) == 4:
            m = self.ent(vals[2])
            return (self.lift(m.expand(vals[3], self)) if m is not None and "expand" in m.d else None), s
        if ov is not None and ov[:2] == ("t", "apint") or vals and vals[0] is not None and vals[0][:2] == ("t", "apint"):
            r = self.apintop(n, name, op, ov, vals, s)
            if r is not None:
                return r
        if op == "[]" and len(vals) == 2 and self.ent(vals[0]) is not None and "items" in self.ent(vals[0]).d and conc(vals[1]) is not None:
            it = self.ent(vals[0]).items
            k = conc(vals[1])
            if 0 <= k < len(it):
                return self.lift(it[k]), s
            self.failures.append((n, "index past the end"))
            return None, s
        if op == "!" and len(vals) == 1 and (self.ent(vals[0]) is not None or vals[0] == ("fail",)):
            return I(int(vals[0] == ("fail",))), s
        if op in ("->", "*") and len(vals) == 1 and self.ent(vals[0]) is not None:
            return vals[0], s
        if n.k == "MCall":
            e = self.ent(ov)
            if name.startswith("operator ") and not vals and e is not None:
                if "bool" in name:
                    return I(1), s
                return ov, s
            if name.startswith("operator ") and "bool" in name and ov == ("fail",):
                return I(0), s
            if e is not None:
                r = self.entmodel(n, e, name, vals, s)
                if r is not None:
                    return r
            if ov is not None and ov[0] == "l" and name in ("getTypes", "getType") and all(self.val(x) is not None for x in ov[1]):
                return ("l", tuple(self.val(x).ty.v for x in ov[1])), s
            if ov is not None and ov[0] == "l" and name in ("getValue", "value"):
                return ov, s
        return None

    def iterable(self, v):
        e = self.ent(v)
        if e is not None:
            if e.kind == "block":
                return self.lift(e.ops)
            if e.kind == "op" and len(e.blocks) == 1:
                return self.lift(e.blocks[0].ops)
            if e.kind == "attr" and "items" in e.d:
                return self.lift(e.items)
        return v

    def sname(self, node, s):
        while node is not None and node.k == "Cast":
            node = node.e
        return self.streamname(node, s)

    def val(self, v):
        """Value entity of a value or single-result operation."""
        e = self.ent(v)
        if e is not None and e.kind == "op":
            return e.res[0] if len(e.res) == 1 else None
        return e if e is not None and e.kind == "value" else None

    def tswitch(self, n, name, ov, vals, s):
        e = self.ent(ov[2])
        if name in ("Case", "CaseValue"):
            if ov[3] is not None:
                return ov, s
            ta = [t for t in self.targs(n) if not t.startswith("(lambda")]
            if not ta and vals:
                l = self.closure(vals[0])
                ta = [clean(p.type) for p in (l.params or [])[:1]] if l is not None else []
            if e is None or not ta:
                return T("tsw", ov[2], T("unknown")), s
            hits = [t for t in ta if self.isa(e, t)]
            if hits:
                r = self.apply(vals[0], [ov[2]], s)
                if r is None or r[1] is None:
                    # a constant handed over instead of a callable
                    if vals[0] is not None and self.closure(vals[0]) is None:
                        return T("tsw", ov[2], T("val", vals[0])), s
                    return (None, None) if r is not None else (T("tsw", ov[2], T("unknown")), s)
                return T("tsw", ov[2], T("val", r[0])), r[1]
            return ov, s
        if name in ("Default", "DefaultUnreachable"):
            if ov[3] is not None:
                return (ov[3][2] if ov[3][:2] == ("t", "val") else None), s
            if vals and self.closure(vals[0]) is not None:
                r = self.apply(vals[0], [ov[2]], s)
                return r if r is not None else (None, s)
            return (vals[0] if vals else None), s
        if name.startswith("operator "):
            return (ov[3][2] if ov[3] is not None and ov[3][:2] == ("t", "val") else None), s
        return None

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        if "TypeSwitch" in cls:
            args = [a for a in n.args or [] if a.k != "DefArg"]
            if len(args) == 1:
                v, s = self.ev(args[0], s)
                if v is not None and v[:2] == ("t", "tsw"):
                    return v, s
                return T("tsw", v, None), s
        if re.match(r"^(const )?std::pair<|^(const )?std::tuple<", cls) and not n.copy and not n.move:
            args = [a for a in n.args or [] if a.k != "DefArg"]
            if len(args) > 1:
                vs, s = self.evs(args, s)
                return ("l", tuple(vs)), s
        if clean(cls) in ANY or cls.startswith(("mlir::detail::TypedValue", "mlir::TypedValue")):
            args = [a for a in n.args or [] if a.k != "DefArg"]
            if not args:
                return ("fail",), s
        return super().ctor(n, s)

    def apintop(self, n, name, op, ov, vals, s):
        a = ov if n.k == "MCall" else vals[0]
        if a is None or a[:2] != ("t", "apint"):
            return None
        w = a[2]
        if name in ("getZExtValue", "getLimitedValue"):
            return I(a[3]), s
        if name == "getSExtValue":
            return I(sval(a)), s
        if name in ("isZero", "isOne", "isNegative", "isAllOnes", "isStrictlyPositive"):
            return I(int({"isZero": a[3] == 0, "isOne": a[3] == 1, "isNegative": sval(a) < 0, "isAllOnes": a[3] == (1 << w) - 1, "isStrictlyPositive": sval(a) > 0}[name])), s
        if name == "getBitWidth":
            return I(w), s
        if name == "abs":
            return apint(w, abs(sval(a))), s
        if name in ("toStringSigned", "toStringUnsigned", "toString") and n.args:
            p = self.place(n.args[0], s)
            if p is not None:
                sg = name == "toStringSigned" or name == "toString" and len(vals) > 2 and truth(vals[2])
                return None, self.setp(p, ("s", str(sval(a) if sg else a[3])), s)
        if op in ("==", "!="):
            r = self.cmpent(op, vals[0], vals[1])
            if r is not None:
                return I(int(r)), s
        u, sv, M2 = a[3], sval(a), (1 << w) - 1
        simple = {"getActiveBits": lambda: u.bit_length(), "countl_zero": lambda: w - u.bit_length(), "countLeadingZeros": lambda: w - u.bit_length(),
                  "getSignificantBits": lambda: (sv if sv >= 0 else ~sv).bit_length() + 1, "getNumSignBits": lambda: w - (sv if sv >= 0 else ~sv).bit_length(),
                  "popcount": lambda: bin(u).count("1"), "isPowerOf2": lambda: int(u > 0 and u & (u - 1) == 0), "isNonNegative": lambda: int(sv >= 0),
                  "isNonPositive": lambda: int(sv <= 0), "isSignBitSet": lambda: int(sv < 0), "isSignBitClear": lambda: int(sv >= 0), "isSignMask": lambda: int(u == 1 << (w - 1)),
                  "isMaxValue": lambda: int(u == M2), "isMaxSignedValue": lambda: int(u == M2 >> 1), "isMinSignedValue": lambda: int(u == 1 << (w - 1)),
                  "logBase2": lambda: u.bit_length() - 1, "ceilLogBase2": lambda: (u - 1).bit_length() if u else w,
                  "countr_zero": lambda: (u & -u).bit_length() - 1 if u else w, "getNumWords": lambda: (w + 63) // 64, "getBoolValue": lambda: int(u != 0)}
        if n.k == "MCall" and name in simple and not vals:
            return I(simple[name]()), s
        k = conc(vals[0]) if n.k == "MCall" and vals else None
        if name in ("zext", "trunc", "zextOrTrunc") and k:
            return apint(k, u), s
        if name in ("sext", "sextOrTrunc") and k:
            return apint(k, sv), s
        if name in ("isIntN", "isSignedIntN") and k:
            return I(int(u.bit_length() <= k if name == "isIntN" else -(1 << (k - 1)) <= sv < 1 << (k - 1))), s
        other = vals[0] if n.k == "MCall" and vals else vals[1] if n.k != "MCall" and len(vals) > 1 else None
        if other is not None and other[:2] == ("t", "apint"):
            b, bs = other[3], sval(other)
        else:
            b = bs = conc(other) if other is not None else None
        if b is not None:
            cmp = {"ult": u < (b & M2), "ule": u <= (b & M2), "ugt": u > (b & M2), "uge": u >= (b & M2), "slt": sv < bs, "sle": sv <= bs, "sgt": sv > bs, "sge": sv >= bs, "eq": u == (b & M2), "ne": u != (b & M2)}
            if n.k == "MCall" and name in cmp:
                return I(int(cmp[name])), s
            if n.k != "MCall" and op in ("==", "!=") and other[:1] == ("i",):
                return I(int((u == b) == (op == "=="))), s
            if op in ("+", "-", "*", "&", "|", "^") and n.k != "MCall":
                return apint(w, {"+": u + b, "-": u - b, "*": u * b, "&": u & b, "|": u | b, "^": u ^ b}[op]), s
            if n.k == "MCall" and name in ("urem", "udiv") and b:
                return (apint(w, u % b if name == "urem" else u // b) if other[:2] == ("t", "apint") else I(u % b) if name == "urem" else apint(w, u // b)), s
            if n.k == "MCall" and name in ("shl", "lshr"):
                return apint(w, u << b if name == "shl" else u >> b), s
        if op == "~" and n.k != "MCall":
            return apint(w, ~u), s
        if name == "GreatestCommonDivisor" and len(vals) == 2 and b is not None and other[:2] == ("t", "apint") and other[2] == w:
            return apint(w, math.gcd(u, b)), s
        return None

    def entmodel(self, n, e, name, vals, s):
        """Methods of IR entities; None when not described."""
        acc = e.d.get("acc") or {}
        if name in acc:
            r = acc[name]
            if callable(r):
                r = r(self, vals, s)
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict):
                    return r
            return self.lift(r), s
        ta = self.targs(n)
        if e.kind == "op":
            if name in ("getOperation", "clone"):
                return e.v, s
            if name == "getOperands":
                return self.lift(e.opnds), s
            if name == "getNumOperands":
                return I(len(e.opnds)), s
            if name in ("getOperand",) and conc(vals[0]) is not None:
                k = conc(vals[0])
                if k >= len(e.opnds):
                    self.failures.append((n, f"operand {k} of {len(e.opnds)}"))
                    return None, s
                return self.lift(e.opnds[k]), s
            if name in ("getResults", "getOpResults"):
                return self.lift(e.res), s
            if name == "getNumResults":
                return I(len(e.res)), s
            if name == "getResultTypes":
                return self.lift([r.ty for r in e.res]), s
            if name == "getOperandTypes":
                return self.lift([r.ty for r in e.opnds]), s
            if name in ("getResult", "getOpResult"):
                k = conc(vals[0]) if vals else 0
                if k is not None and k < len(e.res):
                    return e.res[k].v, s
                if k is not None:
                    self.failures.append((n, f"result {k} of {len(e.res)}"))
                return None, s
            if name in ("getBlock",) and e.d.get("block") is not None:
                return e.block.v, s
            if name == "getNextNode":
                return self.lift(e.nxt), s
            if name == "getParentOp":
                return self.lift(e.parent), s
            if name in ("getParentOfType",) and ta:
                p = e.parent
                while p is not None and not self.isa(p, ta[0]):
                    p = p.parent
                return self.lift(p), s
            if name == "getRegions":
                return ("l", tuple(b.v for b in e.blocks)), s
            if name == "walk" and vals:
                return self.walk(n, e, vals, s)
            if name in ("getDialect",):
                return self.dialect(e).v, s
            if name in ("getLoc", "getContext", "getName", "getOperationName"):
                return T(name, e.v) if name != "getName" else ("s", e.opname), s
            if name in ("getType", "getUsers", "getDefiningOp", "getUses", "use_empty", "hasOneUse", "user_begin") and len(e.res) == 1:
                return self.entmodel(n, e.res[0], name, vals, s)
        if e.kind == "value":
            if name == "getType":
                return e.ty.v, s
            if name == "getDefiningOp":
                o = e.d["op"]
                if o is not None and ta and not self.isa(o, ta[0]):
                    o = None
                return self.lift(o), s
            if name in ("getUsers",):
                return self.lift(e.users), s
            if name in ("use_empty",):
                return I(int(not e.users)), s
            if name in ("hasOneUse",):
                return I(int(len(e.users) == 1)), s
            if name == "getArgNumber":
                return I(e.num), s
            if name in ("getLoc", "getContext"):
                return T(name, e.v), s
        if e.kind == "block":
            if name in ("getOperations",):
                return self.lift(e.ops), s
            if name in ("front", "back") and e.ops:
                return e.ops[0 if name == "front" else -1].v, s
            if name == "getArguments":
                return self.lift(e.args), s
            if name in ("getBlocks",):
                return ("l", (e.v,)), s
            if name in ("getOps",) and ta:
                return self.lift([o for o in e.ops if self.isa(o, ta[0])]), s
            if name == "getParentOp":
                return self.lift(e.parent), s
            if name == "walk" and vals:
                return self.walk(n, e, vals, s)
            if name in ("begin", "end"):
                l = self.lift(e.ops)
                return T("iter", l, 0 if name == "begin" else len(e.ops)), s
        if e.kind == "type":
            d = e.d
            if name in ("getWidth", "getIntOrFloatBitWidth") and (d.get("width") or d.get("fwidth")):
                return I(d.get("width") or d["fwidth"]), s
            if name in ("isUnsigned", "isSigned", "isSignless") and "width" in d:
                return I(int(d["sign"] == {"isUnsigned": "u", "isSigned": "s", "isSignless": ""}[name])), s
            if name in ("isUnsignedInteger", "isSignedInteger", "isSignlessInteger", "isInteger", "isIntOrIndex", "isIndex", "isSignlessIntOrIndex", "isIntOrFloat", "isF32", "isF64", "isFloat"):
                isint = e.cls == M + "IntegerType"
                w = conc(vals[0]) if vals else None
                if vals and w is None:
                    return None
                okw = w is None or d.get("width") == w
                idx = e.cls == M + "IndexType"
                res = {"isUnsignedInteger": isint and d.get("sign") == "u" and okw, "isSignedInteger": isint and d.get("sign") == "s" and okw,
                       "isSignlessInteger": isint and d.get("sign") == "" and okw, "isInteger": isint and okw, "isIntOrIndex": isint or idx,
                       "isIndex": idx, "isSignlessIntOrIndex": idx or isint and d.get("sign") == "", "isIntOrFloat": isint or "fwidth" in d,
                       "isF32": d.get("fwidth") == 32, "isF64": d.get("fwidth") == 64, "isFloat": "fwidth" in d}[name]
                return I(int(bool(res))), s
            if name == "isSigned" or name == "isUnsigned":
                return I(0), s
            if name == "getShape" and "shape" in d:
                return self.lift(list(d["shape"])), s
            if name == "getElementType" and "elt" in d:
                return d["elt"].v, s
            if name == "getRank" and "shape" in d:
                return I(len(d["shape"])), s
            if name == "hasRank" and "shape" in d:
                return I(1), s
            if name == "hasStaticShape" and "shape" in d:
                return I(int(all(x >= 0 for x in d["shape"]))), s
            if name == "getDimSize" and "shape" in d and conc(vals[0]) is not None and conc(vals[0]) < len(d["shape"]):
                return I(d["shape"][conc(vals[0])]), s
            if name in ("getNumElements",) and "shape" in d:
                k = 1
                for x in d["shape"]:
                    k *= x
                return I(k), s
            if name == "getStridesAndOffset" and "shape" in d:
                st = d.get("strides")
                if st is None:
                    st, a = [], 1
                    for x in reversed(d["shape"]):
                        st.insert(0, a)
                        a *= x
                return ("l", (self.lift(list(st)), I(d.get("offset") or 0))), s
            if name == "hasTrait" and n.d.get("ta"):
                t = (n.d.get("ta") or [""])[0].split("<")[0].split("::")[-1]
                return I(int(t in d.get("traits", ()))), s
            if name in ("getDialect",):
                return self.dialect(e).v, s
            if name in ("getContext",):
                return T(name, e.v), s
        if e.kind == "attr":
            if name == "getValue" and "apint" in e.d:
                return e.apint, s
            if name in ("getInt", "getSInt") and "apint" in e.d:
                return I(sval(e.apint)), s
            if name == "getUInt" and "apint" in e.d:
                return I(e.apint[3]), s
            if name == "getType" and "ty" in e.d:
                return e.ty.v, s
            if "items" in e.d:
                if name in ("size", "getNumElements"):
                    return I(len(e.items)), s
                if name in ("getValue", "getGates", "getValues"):
                    return self.lift(e.items), s
                if name in ("begin", "value_begin", "end", "value_end"):
                    l = self.lift(e.items)
                    return T("iter", l, 0 if "begin" in name else len(e.items)), s
        return None

    def dialect(self, e):
        ns = e.cls.rsplit("::", 1)[0]
        cls = {"mlir": "mlir::BuiltinDialect", "mlir::heir::tfhe_rust": "mlir::heir::tfhe_rust::TfheRustDialect",
               "mlir::heir::tfhe_rust_bool": "mlir::heir::tfhe_rust_bool::TfheRustBoolDialect"}.get(ns, ns + "::Dialect")
        key = ("dialect", cls)
        if key not in self.types:
            self.types[key] = Ent(self, "dialect", cls, acc={"getNamespace": ns.split("::")[-1]})
        return self.types[key]

    def walk(self, n, e, vals, s):
        l = self.closure(vals[-1])
        if l is None:
            return None
        ta = self.targs(n)
        pre = any("PreOrder" in t for t in ta)
        pt = clean(l.params[0].type) if l.params else "mlir::Operation"
        res = [T("wr", "advance")]

        def visit(o, s):
            hit = pt == "mlir::Operation" or self.isa(o, pt)
            if pre and hit:
                s = call(o, s)
                if s is None or res[0] != T("wr", "advance"):
                    if res[0] == T("wr", "skip"):
                        res[0] = T("wr", "advance")
                    return s
            for b in o.d.get("blocks", []):
                for x in list(b.ops):
                    s = visit(x, s)
                    if s is None or res[0] != T("wr", "advance"):
                        return s
            if not pre and hit:
                s = call(o, s)
            return s

        def call(o, s):
            r = self.apply(vals[-1], [o.v], s)
            if r is None:
                res[0] = None
                return s
            v, s = r
            if v is not None and v[:2] == ("t", "wr"):
                res[0] = v
            elif v == ("fail",):
                res[0] = T("wr", "interrupt")
            elif v is None and "WalkResult" in str(l.rt or ""):
                res[0] = None
            return s
        if e.kind == "block":
            for o in list(e.ops):
                s = visit(o, s)
                if s is None or res[0] != T("wr", "advance"):
                    break
        else:
            s = visit(e, s)
        return res[0], s


def dialect_ns(cls):
    return cls.rsplit("::", 1)[0]


def text(w, tr, streams=lambda nm: nm not in ("errs", "dbgs", "emitError", "emitOpError", "emitWarning", "emitRemark")):
    """(text, unknown pieces) emitted on the output stream along a single path."""
    out, unk = "", []

    def go(tr):
        nonlocal out
        for ev in tr:
            if ev[0] == "alt":
                unk.append("branch")
            elif ev[0] == "loop":
                if any(x[0] == "o" for x in flat(ev[2])):
                    unk.append("loop")
            elif ev[0] == "o" and streams(ev[1]):
                r = w.rep(ev[2])
                if r is None:
                    if not (ev[2] is not None and ev[2][:2] in (("t", "endl"),)):
                        unk.append(str(ev[2])[:80])
                else:
                    out += r
    go(tr)
    return out, unk
