"""C12: the dispatch of each Rust generator agrees with its printers and its pre-check.

translate() is evaluated for a bare operation of every class that has a printer, that the pre-check names or that
another generator knows, with the printers themselves replaced by stand-ins of either outcome."""
import re
from .cprop import T
from .world import World, clean
from .c11 import Gen, ENC, ENB, ct
from . import prog

NOOPS = {"mlir::memref::GlobalOp", "mlir::memref::DeallocOp", "mlir::affine::AffineYieldOp"}
OUTER = {"mlir::ModuleOp", "mlir::func::FuncOp"}


class Dispatch(World):
    """World in which calls of printOperation are recorded and have a chosen outcome."""
    outcome = T("success")

    def inline(self, f, n, obj, pa, s, ov=None):
        if f.name == "printOperation" and f.params:
            self.calls.append((clean(f.params[0].type), pa[0][2] if pa and len(pa[0]) > 2 else None))
            return self.outcome, s
        return super().inline(f, n, obj, pa, s, ov)


def run(P, f, cls, outcome, opnds=0, cfg=None, gen=None):
    w = Dispatch(P)
    w.gen, w.enc, w.calls, w.outcome = gen, ENB if gen.kind == "bool" else ENC, [], outcome
    o = w.op(cls, [w.arg(f"x{i}", ct(w)) for i in range(opnds)], [("r", ct(w))])
    v, s = w.run(f, {0: o.v}, gen.state(w))
    return v, s, w.calls, o


class Nested(Dispatch):
    """Only the printers of leaf operations are stand-ins; one chosen operation fails."""
    def inline(self, f, n, obj, pa, s, ov=None):
        if f.name == "printOperation" and f.params and clean(f.params[0].type) in OUTER | {"mlir::affine::AffineForOp"}:
            return World.inline(self, f, n, obj, pa, s, ov)
        if f.name == "printOperation" and f.params:
            x = pa[0][2] if pa and len(pa[0]) > 2 else None
            self.calls.append(x)
            return (("fail",) if x == self.fails else T("success")), s
        return super().inline(f, n, obj, pa, s, ov)


def nested(c, P, g, leaf):
    """The failure of any operation inside loops and functions is the failure of the module."""
    for k in range(5):
        w = Nested(P)
        w.gen, w.enc, w.calls, w.outcome = g, ENB if g.kind == "bool" else ENC, [], T("success")
        leaves = []

        def lf():
            leaves.append(w.op(leaf, [], []))
            return leaves[-1]

        def loop(body):
            o = w.op("mlir::affine::AffineForOp", [], [], regions=[body], acc=dict(
                getInductionVar=w.arg("iv", w.idx()), hasConstantBounds=True, getConstantLowerBound=0, getConstantUpperBound=4, getStepAsInt=1, getStep=1,
                getInits=[], getNumIterOperands=0, getNumRegionIterArgs=0, getRegionIterArgs=[], getNumResults=0, getIterOperands=[]))
            o.acc["getBody"] = o.blocks[0]
            return o

        def func(n, body):
            o = w.op("mlir::func::FuncOp", [], [], regions=[body], opname="func", acc=dict(
                getName=n, getSymName=n, getArguments=[], getNumArguments=0, getNumResults=0, getResultTypes=[], getArgumentTypes=[], isDeclaration=False, isExternal=False, isPrivate=False))
            o.acc["getBlocks"] = [o.blocks[0]]
            o.acc["getBody"] = o.blocks[0]
            return o
        fs = [func("fa", [lf(), loop([lf()]), lf()]), func("fb", [lf()])]
        m = w.op("mlir::ModuleOp", [], [], regions=[fs], opname="module")
        m.acc["getBody"] = m.blocks[0]
        w.fails = leaves[k].v if k < len(leaves) else None
        v, s = w.run(g.f, {0: m.v}, g.state(w))
        c.count("nested failures", 1)
        what = "the first operation of a function|an operation in a loop|the last operation of a function|the operation of another function".split("|")
        if v not in (T("success"), ("fail",)):
            c.undecided(f"{g.label}: nested", f"status {str(v)[:60]}"); continue
        if k < len(leaves) and v == T("success"):
            c.bad(f"{g.label}:nested:{k}", g.f.where(), f"translate() of a module succeeds although the printer of {what[k]} fails")
        elif k == len(leaves) and v != T("success"):
            c.undecided(f"{g.label}: nested", "a module without failures fails")
        elif k == len(leaves) and [x for x in w.calls] != [x.v for x in leaves]:
            c.bad(f"{g.label}:nested:order", g.f.where(), "translate() of a module does not print every operation once, in order")
        else:
            c.ok(f"{g.label}: failure of {what[k] if k < 4 else 'no operation'}")


def printers(P, g):
    return {clean(f.params[0].type): f for f in P.all if f.name == "printOperation" and f.full.split("::")[-2] == g.cls and f.params and f.body is not None}


def named(P, fs):
    """Classes named in the cases of the type switches of the functions."""
    out = set()
    for f in fs:
        for n in f.body.walk():
            if n.k in ("MCall", "Call") and n.n in ("Case", "isa", "dyn_cast"):
                for t in n.ta or []:
                    t = clean(t if isinstance(t, str) else "")
                    if re.search(r"Op$", t):
                        out.add(t)
    return out


def precheck(P, f, classes):
    """Outcome of the pre-check for a function with operations of the given classes (innermost last)."""
    w = World(P)
    w.gen, w.enc = Gen(P, "rs"), ENC
    body = [w.op(c, [], []) for c in classes]
    fn = w.op("mlir::func::FuncOp", [], [], regions=[body], opname="func", acc=dict(getName="f"))
    v, s = w.run(f, {0: fn.v}, {})
    return v


def check(c):
    P = prog.load()
    gs = [Gen(P, k) for k in ("rs", "bool", "hl")]
    pre = [f for f in P.all if f.name == "canEmitFuncForTfheRust" and f.body is not None]
    pr = {g.cls: printers(P, g) for g in gs if g.f is not None}
    universe = set().union(*[set(x) for x in pr.values()]) if pr else set()
    pre = pre[0] if len(pre) == 1 else None
    listed = named(P, ([pre] if pre else []) + [g.f for g in gs if g.f is not None])
    universe |= listed
    c.count("operation classes", len(universe))
    ok, bad = T("success"), ("fail",)
    adm = {}
    if pre is None:
        c.undecided("pre-check", "canEmitFuncForTfheRust not found")
    else:
        for k in sorted(universe | {"mlir::heir::UnknownOp"}):
            adm[k] = {ok: True, bad: False}.get(precheck(P, pre, [k]))
            if adm[k] is None:
                c.undecided("pre-check", k)
            c.count("pre-check evaluations", 1)
        good = [k for k in sorted(universe) if adm.get(k)][:2]
        for cl in (["mlir::heir::UnknownOp"], good + ["mlir::heir::UnknownOp"], ["mlir::heir::UnknownOp"] + good):
            v = precheck(P, pre, cl)
            if v == bad:
                c.ok("pre-check rejects a function with an unknown operation")
            elif v == ok:
                c.bad("precheck:unknown", pre.where(), f"the pre-check admits a function with the operations {cl}, one of which no generator knows")
            else:
                c.undecided("pre-check", str(cl))
    for g in gs:
        if g.f is None:
            c.undecided("generator", g.cls); continue
        c.count("generators", 1)
        mine = pr[g.cls]
        for k in sorted(universe | {"mlir::heir::UnknownOp"}):
            where = (mine.get(k) or g.f).where()
            v, s, calls, o = run(P, g.f, k, ok, gen=g)
            c.count("dispatch evaluations", 1)
            if v not in (ok, bad):
                c.undecided(f"{g.cls}: {k}", f"status {str(v)[:60]}"); continue
            short = k.replace("mlir::", "").replace("heir::", "")
            if k in mine:
                if [x for x, _ in calls] != [k] or v != ok:
                    c.bad(f"{g.cls}:{short}:dispatch", where, f"translate() of {short} " + (f"calls the printer of {calls[0][0]}" if calls else "succeeds without calling its printer" if v == ok else "fails without calling its printer"))
                    continue
                if calls[0][1] is not None and calls[0][1] != o.v:
                    c.bad(f"{g.cls}:{short}:argument", where, f"the printer of {short} is called with another operation"); continue
                v2 = run(P, g.f, k, bad, gen=g)[0]
                if v2 == ok:
                    c.bad(f"{g.cls}:{short}:failure", g.f.where(), f"translate() succeeds although the printer of {short} fails"); continue
                if v2 != bad:
                    c.undecided(f"{g.cls}: {k}", "status of a failing printer"); continue
                if k not in OUTER and adm.get(k) is False:
                    c.bad(f"{g.cls}:{short}:admission", pre.where(), f"{g.cls} has a printer for {short}, but the pre-check skips every function with such an operation"); continue
                c.ok(f"{g.cls}: {short} reaches its printer and passes on its failure")
                continue
            if calls:
                c.bad(f"{g.cls}:{short}:printer", g.f.where(), f"translate() of {short} calls the printer of {calls[0][0]}"); continue
            if v == ok:
                if k not in NOOPS:
                    c.bad(f"{g.cls}:{short}:ignored", g.f.where(), f"translate() accepts {short} without emitting anything"); continue
                if k.endswith("YieldOp"):
                    v3, _, calls3, _ = run(P, g.f, k, ok, opnds=1, gen=g)
                    if v3 == ok and not calls3:
                        c.bad(f"{g.cls}:{short}:operands", g.f.where(), f"translate() accepts {short} with operands without emitting anything"); continue
            c.ok(f"{g.cls}: {short} is " + ("rejected" if v == bad else "a no-op"))
        for cfg in ({}, {"useLevels": 1}) if g.kind == "rs" else ({},):
            leaf = sorted(k for k in mine if adm.get(k) and k.endswith("BitAndOp" if g.kind == "rs" else "AndOp"))
            if leaf:
                nested(c, P, Gen(P, g.kind, cfg), leaf[0])
    c.need("dispatch evaluations", 30)
    c.assume.append("llvm::TypeSwitch runs the first case whose class the operation has")
    return c.finish("translate() of each Rust generator and the pre-check are evaluated for one operation of every class that any printer or case names and for an unknown one, "
                    "with printers replaced by stand-ins that succeed or fail; printer reached, failure passed on, silent acceptance only of global, dealloc and an empty yield.")
