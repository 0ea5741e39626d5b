"""C26: what an analysis answers about a value holds."""
import itertools, os
from .cprop import I, T
from .ceval import conc
from .rewrite import RW
from .alg import Alg
from .c15 import NW
from .world import M, Ent, clean
from . import prog

H = M + "heir::"
CQ = "lib/Analysis/Cpp/ConstQualifierAnalysis.cpp"
LF = "lib/Analysis/LayoutFoldingAnalysis/LayoutFoldingAnalysis.cpp"


def fn(P, full, k=None):
    g = [f for f in P.all if f.full == H + full and f.body is not None and not f.dep and (k is None or len(f.params) == k)]
    return g[0] if len(g) == 1 else None


# -- const qualifiers ----------------------------------------------------------
class QW(NW, RW):
    """Operations with regions, memory effects and in-place operands."""

    def isa(self, e, cls):
        if clean(cls) == M + "MemoryEffectOpInterface" and e.kind == "op" and "effects" in e.d:
            return e.effects is not None
        return super().isa(e, cls)

    def entmodel(self, n, e, name, vals, s):
        if name == "hasTrait" and e.kind == "op" and any("HasRecursiveMemoryEffects" in str(t) for t in (n.ta or [])):
            return I(int(bool(e.d.get("rec")))), s
        return super().entmodel(n, e, name, vals, s)

    def setof(self, f):
        return next((x.n for r in [self.P.recs.get(f.clsq or "")] if r is not None for x in r.fields if "Set<" in x.type or "set<" in x.type or "Map<" in x.type), None)


def fun(w, spec, mem=False):
    """spec: (results, [blocks of (arguments, [op spec])], key); all values by name, uses added afterwards."""
    vals = {}
    ty = w.memref([4], w.int(32)) if mem else w.int(32)

    def build(cls, o):
        res, regs, key = o
        e = w.op(cls, [], [(r, ty) for r in res], effects=())
        for r in e.res:
            vals[r.name] = r
        vals["op:" + key] = e
        e.d["regs"] = []
        for blocks in regs:
            bs = []
            for args, ops in blocks:
                av = [w.arg(a, ty, i) for i, a in enumerate(args)]
                vals.update({a.name: a for a in av})
                kids = [build(H + "test::SomeOp", k) for k in ops]
                b = Ent(w, "block", M + "Block", ops=kids, args=av, parent=e)
                for i, k in enumerate(kids):
                    k.d.update(parent=e, block=b, nxt=kids[i + 1] if i + 1 < len(kids) else None)
                bs.append(b)
            e.blocks.extend(bs)
            e.regs.append(Ent(w, "region", M + "Region", blks=bs, parent=e))
        return e
    return build(M + "func::FuncOp", spec), vals


SHAPES = [
    ([], [[(["a", "b"], [(["x"], [], "1"), (["y", "z"], [], "2"), ([], [], "3")])]], "f"),
    ([], [[(["a"], [(["x"], [[(["i", "b"], [(["y"], [], "2"), (["z"], [], "3")])]], "1")])]], "f"),
    ([], [[(["a"], [(["x"], [], "1")]), (["b", "i"], [(["y"], [], "2"), (["z"], [], "3")])]], "f"),
    ([], [[(["a"], [(["x"], [[(["b"], [(["y"], [], "2")])], [(["i"], [(["z"], [[(["j"], [(["k"], [], "4")])]], "3")])]], "1")])]], "f"),
]


def uses(shape):
    """(text, [(op key, operands, write effect on, in-place operand)])"""
    names = []

    def collect(o):
        names.extend(o[0])
        for blocks in o[1]:
            for args, ops in blocks:
                names.extend(args)
                for k in ops:
                    collect(k)
    collect(shape)
    last = "3"
    for v in names:
        o = next(n for n in names if n != v)
        yield v, o, []
        yield v, o, [(last, [v], None, None)]
        yield v, o, [(last, [v], v, None)]
        yield v, o, [(last, [o, v], o, None)]
        yield v, o, [(last, [o, v], v, None)]
        yield v, o, [(last, [v, o], None, 0)]
        yield v, o, [(last, [v, o], None, 1)]
        yield v, o, [(last, [o, v], None, 1)]
        yield v, o, [(last, [v, v], None, 1)]
        yield v, o, [("2", [v], None, None), (last, [v], v, None)]
        yield v, o, [("2", [v], v, None), (last, [v, o], None, None)]
        yield v, o, [("2", [v, o], None, 1), (last, [o, v], None, 1)]
        yield v, o, [("2", [v], None, 0), (last, [v], None, None)]
        yield v, o, [(last, [o, v], "rw", None)]
        yield v, o, [(last, [v], "rw", None)]
        yield v, o, [(last, [o, v], "?", None)]
        yield v, o, [("2", [v], None, None), (last, [v], "?", None)]
        yield v, o, [(last, [v, o], "rec", None)]


EFF = {"rw": "reads and writes its last operand", "?": "of unknown effects", "rec": "with the effects of its regions"}


def consts(c, P):
    f = fn(P, "ConstQualifierAnalysis::ConstQualifierAnalysis", 1)
    g = fn(P, "ConstQualifierAnalysis::canBeMarkedConst", 1)
    if f is None or g is None:
        c.undecided("ConstQualifierAnalysis", "constructor or query not found")
        return
    told = set()
    for shape, mem in itertools.product(SHAPES, (False, True)):
        for v, o, us in uses(shape):
            w = QW(P)
            fo, vals = fun(w, shape, mem)
            mut = set()
            for key, ops, wr, inpl in us:
                e = vals["op:" + key]
                e.d["opnds"] = [vals[x] for x in ops]
                if wr == "rw":                    # reads and writes its last operand
                    e.d["effects"] = tuple(("Read", vals[x]) for x in ops) + (("Write", vals[ops[-1]]),)
                    wr = ops[-1]
                elif wr in ("?", "rec"):          # declares no effects; those of its regions
                    e.d["effects"] = None
                    e.d["rec"] = wr == "rec"
                    mut.update(ops if wr == "?" and mem else ())
                    wr = None
                else:
                    e.d["effects"] = ((("Write", vals[wr]),) if wr else ()) + tuple(("Read", vals[x]) for x in ops if x != wr)
                for x in dict.fromkeys(ops):
                    vals[x].users.append(e)
                if wr:
                    mut.add(wr)
                if inpl is not None:
                    e.isa = tuple(e.isa) + (H + "InPlaceOpInterface",)
                    e.acc["getInPlaceOperandIndex"] = inpl
                    mut.add(ops[inpl])
            fld = w.setof(f)
            init = {("m", ("this",), fld): ("l", ())} if fld else {}
            try:
                _, st = w.run(f, {0: fo.v}, init)
            except Exception:
                if os.environ.get("HV_DEBUG"):
                    raise
                st = None
            c.count("functions analysed")
            text = f"operations on {'buffer ' if mem else ''}{v}: " + "; ".join(f"#{k}({', '.join(x)}){' ' + EFF.get(wr, 'writes ' + wr) if wr else ''}{' in place on operand ' + str(ip) if ip is not None else ''}" for k, x, wr, ip in us)
            if st is None or w.failures:
                c.undecided(text, "the analysis does not finish")
                continue
            for nm, e in vals.items():
                if e.kind != "value":
                    continue
                r, _ = w.run(g, {0: e.v}, {k: x for k, x in st.items() if k[0] == "m"})
                b = conc(r)
                c.count("values classified")
                if b is None:
                    c.undecided(f"{nm} with {text}", "answer not determined")
                elif bool(b) == (nm not in mut):
                    c.ok()
                else:
                    kind = ("a block argument" if e.cls.endswith("BlockArgument") else "a result")
                    key = f"const:{'missed' if b else 'extra'}:{kind}"
                    if key not in told:
                        told.add(key)
                        c.bad(f"{CQ}:{key}", f.where(), f"{kind} that {'is written' if nm in mut else 'nothing writes'} is {'' if b else 'not '}answered constant ({text})")


# -- freedom of layouts -----------------------------------------------------------
class LW(Alg):
    """Lattice elements hold what the analysis' own join makes of them."""

    def __init__(self, P):
        super().__init__(P)
        self.value = {}
        self.cls = next((r for q, r in P.recs.items() if q == H + "LayoutIsFree"), None)
        self.fld = next((x.n for x in self.cls.fields), None) if self.cls is not None else None

    def free(self, b):
        return ("st", ((self.fld, I(int(b))),))

    def lattice(self, b):
        e = Ent(self, "lattice", H + "LayoutIsFreeLattice", acc={})
        self.value[e.id] = self.free(b)
        return e

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        if cls.endswith("LayoutIsFree") and not n.copy and not n.move:
            f = self.P.callee(n)
            if f is None or f.body is None and not f.inits:
                return None, s
            vs, s = self.evs(list(n.args or []), s)
            if s is not None and len(vs) == 1 and vs[0] is not None and vs[0][0] == "st":
                return vs[0], s
            return self.build(f, vs, s) if s is not None else (None, None)
        return super().ctor(n, s)

    def truth(self, v):
        d = dict(v[1]) if v is not None and v[0] == "st" else {}
        return conc(d.get(self.fld))

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "lattice":
            if name in ("getValue",):
                return self.value[e.id], s
            if name == "join" and len(vals) == 1:
                x = vals[0]
                if self.ent(x) is not None and self.ent(x).kind == "lattice":
                    x = self.value[self.ent(x).id]
                j = fn(self.P, "LayoutIsFree::join", 2)
                r = None
                if j is not None and x is not None:
                    r, _ = self.run(j, {0: self.value[e.id], 1: x}, {})
                self.value[e.id] = r
                return T("change", r), s
        return super().entmodel(n, e, name, vals, s)

    def model(self, n, name, q, ov, vals, s):
        if n.k == "MCall" and (q or "").startswith(H + "LayoutIsFree::") and ov is not None and ov[0] == "st" and None not in vals:
            f = self.P.callee(n)
            if f is not None and f.body is not None and f.usr not in self.stack:
                r, st = self.callfn(f, vals, s, this=ov)
                return r, (st if st is not None else s)
        if name == "isCurrentDebugType":
            return I(0), s
        if name in ("getStringRef", "str", "getIdentifier", "getAsOpaquePointer") and n.k == "MCall" and ov is not None and ov[0] == "s" and not vals:
            return ov, s
        if name == "propagateIfChanged":
            return None, s
        if name == "lookupState" and n.k == "MCall":
            return self.found, s
        return super().model(n, name, q, ov, vals, s)


def layouts(c, P):
    visit, ext = fn(P, "LayoutIsFreeAnalysis::visitOperation", 3), fn(P, "LayoutIsFreeAnalysis::visitExternalCall", 3)
    entry, ask = fn(P, "LayoutIsFreeAnalysis::setToEntryState", 1), fn(P, "isLayoutFree", 2)
    told = set()

    def judge(f, what, w, st, pairs):
        c.count("transfers evaluated")
        for e, want in pairs:
            b = w.truth(w.value.get(e.id))
            if st is None or b is None or w.failures:
                c.undecided(what, "answer not determined")
            elif bool(b) == want:
                c.ok()
            elif (f.name, want) not in told:
                told.add((f.name, want))
                c.bad(f"{LF}:{f.name}:{'lost' if want else 'free'}", f.where(), f"{what}: a result is {'free' if b else 'not free'}, but it is {'' if want else 'not '}")

    def run(w, f, args):
        try:
            return w.run(f, args, {})
        except Exception:
            if os.environ.get("HV_DEBUG"):
                raise
            return None, None
    if visit is None:
        c.undecided("LayoutIsFreeAnalysis::visitOperation", "not found")
    else:
        for name in ("linalg.reduce", "tensor_ext.assign_layout", "arith.addf", "tensor.extract", "linalg.matvec", "func.call"):
            for k in range(4):
                for fr in itertools.product((True, False), repeat=k):
                    for nr, before in ((1, True), (2, True), (1, False)):
                        w = LW(P)
                        opn = [w.lattice(b) for b in fr]
                        res = [w.lattice(before) for _ in range(nr)]
                        o = w.op(H + "test::SomeOp", [w.arg(f"o{i}", w.int(32)) for i in range(k)], [(f"r{i}", w.int(32)) for i in range(nr)], opname=name)
                        v, st = run(w, visit, {0: o.v, 1: w.lift(opn), 2: w.lift(res)})
                        want = (name == "tensor_ext.assign_layout" or k == 0 or all(fr) and name != "linalg.reduce") and before
                        judge(visit, f"{name} of operands {['free' if b else 'not free' for b in fr]}{'' if before else ', results known not to be free'}", w, st, [(r, want) for r in res])
    if ext is None:
        c.undecided("LayoutIsFreeAnalysis::visitExternalCall", "not found")
    else:
        for fr in ((), (True,), (False,), (True, True), (True, False), (False, True), (True, True, True)):
            w = LW(P)
            res = [w.lattice(True), w.lattice(True)]
            call = w.op(M + "func::CallOp", [w.arg(f"o{i}", w.int(32)) for i in range(len(fr))], [("r", w.int(32))])
            v, st = run(w, ext, {0: call.v, 1: w.lift([w.lattice(b) for b in fr]), 2: w.lift(res)})
            judge(ext, "a call of an external function", w, st, [(r, False) for r in res])
    if entry is None:
        c.undecided("LayoutIsFreeAnalysis::setToEntryState", "not found")
    else:
        for before in (True, False):
            w = LW(P)
            e = w.lattice(before)
            v, st = run(w, entry, {0: e.v})
            judge(entry, "the state at an entry", w, st, [(e, before)])
    comb = fn(P, "LayoutIsFree::combine", 1)
    if comb is not None:
        for k in range(4):
            for fr in itertools.product((True, False), repeat=k):
                w = LW(P)
                v, st = run(w, comb, {0: ("l", tuple(w.free(b) for b in fr))})
                r = w.truth(v)
                c.count("combinations")
                if r is None:
                    c.undecided("LayoutIsFree::combine", "answer not determined")
                elif bool(r) == all(fr):
                    c.ok()
                else:
                    c.bad(f"{LF}:combine", comb.where(), f"combining {['free' if b else 'not free' for b in fr]} gives {'free' if r else 'not free'}")
    if ask is None:
        c.undecided("isLayoutFree", "not found")
    else:
        for known, b in ((False, False), (True, True), (True, False)):
            w = LW(P)
            w.found = w.lattice(b).v if known else ("fail",)
            v, st = run(w, ask, {0: w.arg("v", w.int(32)).v, 1: T("solver")})
            r = conc(v)
            c.count("queries")
            if r is None:
                c.undecided("isLayoutFree", "answer not determined")
            elif bool(r) == (known and b):
                c.ok()
            else:
                c.bad(f"{LF}:isLayoutFree", ask.where(), f"answers {'free' if r else 'not free'} for a value {'that is' + ('' if b else ' not') + ' free' if known else 'nothing is known about'}")


def check(c):
    c.rule("A value is answered constant exactly when no user at any depth writes it and no in-place operation targets it, for results and block arguments of every region")
    c.rule("A layout is answered free only if every operand's is, the operation is not linalg.reduce nor an external call and no earlier state was not free; assign_layout and operations without operands give free layouts; nothing known means not free")
    P = prog.load([CQ, LF])
    consts(c, P)
    layouts(c, P)
    return c.finish(EXPLANATION)


EXPLANATION = "Both analyses evaluated abstractly on described functions and operations: every value's answer compared with what its users and operands say."
