"""IR rewrites evaluated over descriptions of small programs: the rewriter's calls are recorded as effects."""
import re
from .cprop import I, T
from .ceval import conc
from .world import World, Ent, M, clean, sval

REW = T("rewriter")
ISA = {"StoreOp": (), }


class RW(World):
    """World with a pattern rewriter, dominance, memory effects and index folding."""

    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.attrs = {}
        self.uses = []        # operations used after they were erased
        self.nulls = []       # member calls on a null pointer
        self.cross = 0        # answer of isBeforeInBlock for operations of different blocks, which is arbitrary
        self.crossed = False

    # -- building ---------------------------------------------------------------
    def ixval(self, k):
        """An index value: a name (unknown at compile time) or a number (a constant operation)."""
        if isinstance(k, str):
            return self.arg(k, self.idx())
        o = self.op(M + "arith::ConstantOp", [], [(f"c{k}", self.idx())], acc=dict(getValue=self.const(k), getValueAttr=self.const(k)), isa=("mlir::arith::ConstantIndexOp",), effects=())
        o.acc["value"] = k
        return o.res[0]

    def const(self, k):
        if k not in self.attrs:
            self.attrs[k] = self.attr(M + "IntegerAttr", apint=T("apint", 64, k & ((1 << 64) - 1)), ty=self.idx(), isa=(M + "TypedAttr",))
        return self.attrs[k]

    def constof(self, v):
        """Integer of an index value or attribute, None if it is not a constant."""
        e = self.ent(v) if not isinstance(v, Ent) else v
        if e is None:
            return None
        if e.kind == "op" and len(e.res) == 1:
            e = e.res[0]
        if e.kind == "value" and e.d.get("op") is not None and e.op.cls == M + "arith::ConstantOp":
            e = self.ent(self.lift(e.op.acc["getValue"]))
        if e is not None and e.kind == "attr" and "apint" in e.d:
            return sval(e.apint)
        return None

    def region_of(self, o):
        return o.d.get("block")

    def properly_before(self, a, b):
        """a properly dominates b (straight-line blocks, nested regions)."""
        while b is not None and b.d.get("block") is not a.d.get("block"):
            b = b.d.get("parent")
            if b is a:
                return False
        if b is None or b is a:
            return False
        x = a.nxt
        while x is not None:
            if x is b:
                return True
            x = x.nxt
        return False

    # -- effects ----------------------------------------------------------------
    def dead(self, e, s, n, what):
        if e is not None and e.kind == "op" and s.get(("erased", e.id)):
            self.uses.append((n, what, e))

    def kill(self, e, s):
        s = dict(s)
        s[("erased", e.id)] = True
        return s

    def irmodel(self, n, name, q, op, ov, vals, s):
        short = q.split("::")[-1] if q else name
        if n.k == "MCall" and ov == ("fail",) and n.obj is not None and re.search(r"(Operation|Block|Region) ?\*$", (n.obj.type or "").strip()):
            self.nulls.append((n, name))
        if n.k == "MCall" and self.ent(ov) is not None:
            self.dead(self.ent(ov), s, n, name)
        if n.k in ("Call", "OpCall"):
            for v in vals:
                if self.ent(v) is not None and short not in ("operator==", "operator!=") and op not in ("==", "!="):
                    self.dead(self.ent(v), s, n, short or op)
        if n.k == "MCall" and re.search(r"(Rewriter(Base)?|PatternRewriter|OpBuilder|Builder|IRRewriter)$", clean(n.cls or "")):
            return self.rewriter(n, name, vals, s)
        if n.k == "MCall" and name in ("properlyDominates", "dominates") and "Dominance" in (n.cls or "") and len(vals) >= 2:
            a, b = self.ent(vals[0]), self.ent(vals[1])
            if a is None or b is None:
                return None, s
            if a.kind == "block" and b.kind == "block":
                x = b
                while x is not None and x is not a:
                    x = x.parent.d.get("block") if x.parent is not None else None
                return I(int(x is a and (a is not b or name == "dominates"))), s
            if a.kind != "op" or b.kind != "op":
                return None, s
            return I(int(self.properly_before(a, b) or name == "dominates" and a is b)), s
        if n.k == "MCall" and name == "isBeforeInBlock" and len(vals) == 1:
            a, b = self.ent(ov), self.ent(vals[0])
            if a is not None and b is not None and a.d.get("block") is b.d.get("block"):
                return I(int(self.properly_before(a, b))), s
            if a is not None and b is not None and a.d.get("block") is not None and b.d.get("block") is not None:
                self.crossed = True
                return I(self.cross), s
        if n.k == "MCall" and name in ("hasEffect", "getEffectOnValue", "hasNoEffect", "onlyHasEffect") and self.ent(ov) is not None:
            e = self.ent(ov)
            if "effects" not in e.d or e.effects is None:
                return None, s
            if name == "hasNoEffect":
                return I(int(e.effects == ())), s
            r = self.haseffect(n, "hasEffect", [ov] + (vals if name == "getEffectOnValue" else []))
            if name == "onlyHasEffect":
                kinds = [k for k in ("Read", "Write", "Free", "Allocate") if any(k in str(t) for t in (n.ta or []))]
                r = all(k in kinds for k, _ in e.effects) and e.effects != ()
            return (I(int(r)) if r is not None and name != "getEffectOnValue" else T("effect") if r else ("fail",) if r is False else None), s
        if n.k == "Call":
            if short == "is_contained" and len(vals) == 2 and vals[0] is not None and vals[0][0] == "l" and self.ent(vals[1]) is not None and all(self.ent(x) is not None for x in vals[0][1]):
                return I(int(vals[1] in vals[0][1])), s
            if short == "expandAffineMap" and len(vals) == 4 and None not in vals[2:]:
                return ("l", (T("expand", vals[2], vals[3]),)), s
            if short == "make_early_inc_range" and len(vals) == 1:
                return vals[0], s
            if short in ("isMemoryEffectFree", "isPure") and len(vals) == 1:
                e = self.ent(vals[0])
                if e is not None and e.kind == "op" and "effects" in e.d:
                    return I(int(e.effects == ())), s
                return None, s
            if short in ("hasEffect", "hasSingleEffect") and vals:
                r = self.haseffect(n, short, vals)
                return (I(int(r)) if r is not None else None), s
            if short == "getConstantIntValue" and len(vals) == 1 and self.ent(vals[0]) is not None:
                k = self.constof(vals[0])
                return (I(k) if k is not None else ("fail",)), s
            if short == "getConstantIntValues" and len(vals) == 1 and vals[0] is not None and vals[0][0] == "l":
                ks = [self.constof(x) for x in vals[0][1]]
                return (("l", tuple(I(k) for k in ks)) if None not in ks else ("fail",)), s
            if short == "getAsOpFoldResult" and len(vals) == 1:
                def fold(x):
                    k = self.constof(x)
                    return x if k is None else self.const(k).v
                v = vals[0]
                if v is not None and v[0] == "l":
                    return ("l", tuple(fold(x) for x in v[1])), s
                if self.ent(v) is not None:
                    return fold(v), s
            if short == "getValueOrCreateConstantIndexOp":
                return None, s
            if short in ("isEqualConstantIntOrValue", "isEqualConstantIntOrValueArray", "isConstantIntValue", "isZeroInteger", "isZeroIndex"):
                def same(x, y):
                    if x is None or y is None:
                        return None
                    kx, ky = self.constof(x), self.constof(y)
                    if kx is not None and ky is not None:
                        return kx == ky
                    return x == y
                if short.startswith("isZero") and vals:
                    return I(int(self.constof(vals[0]) == 0)), s
                if short == "isConstantIntValue" and len(vals) == 2:
                    return (I(int(self.constof(vals[0]) == conc(vals[1]))) if conc(vals[1]) is not None else None), s
                if len(vals) == 2 and short.endswith("Array"):
                    a, b = vals
                    if a is not None and b is not None and a[0] == "l" and b[0] == "l":
                        if len(a[1]) != len(b[1]):
                            return I(0), s
                        rs = [same(x, y) for x, y in zip(a[1], b[1])]
                        return (I(0) if False in rs else None if None in rs else I(1)), s
                elif len(vals) == 2:
                    r = same(*vals)
                    return (I(int(r)) if r is not None else None), s
        if op == "[]" and len(vals) == 2 and self.ent(vals[0]) is not None and "items" in self.ent(vals[0]).d and vals[1] is not None and vals[1][0] == "l":
            e = self.ent(vals[0])
            shape = e.d.get("shape")
            ks = [conc(x) for x in vals[1][1]]
            if shape and None not in ks and len(ks) == len(shape):
                f = 0
                for k, d in zip(ks, shape):
                    f = f * d + k
                if 0 <= f < len(e.items):
                    return self.lift(e.items[f]), s
        return super().irmodel(n, name, q, op, ov, vals, s)

    def haseffect(self, n, short, vals):
        """mlir::hasEffect / hasSingleEffect of an operation (on a value)."""
        e = self.ent(vals[0])
        if e is None or e.kind != "op" or "effects" not in e.d:
            return None
        kinds = [k for k in ("Read", "Write", "Free", "Allocate") if any(k in str(t) for t in (n.ta or []))]
        if e.effects is None:
            return False                      # no declared effects
        v = self.val(vals[1]) if len(vals) > 1 else None
        if len(vals) > 1 and v is None and vals[1] not in (None, T("nullopt")):
            return None
        on = [k for k, x in e.effects if v is None or x is v]
        if short == "hasSingleEffect":
            return len(on) == 1 and on[0] in kinds
        return any(k in kinds for k in on)

    def rewriter(self, n, name, vals, s):
        if name == "notifyMatchFailure":
            return ("fail",), s
        if name in ("replaceAllUsesWith", "replaceAllOpUsesWith") and len(vals) == 2:
            return None, self.event(("rauw", vals[0], vals[1]), s)
        if name == "eraseOp" and vals:
            e = self.ent(vals[0])
            s = self.event(("erase", vals[0]), s)
            return None, self.kill(e, s) if e is not None else s
        if name == "replaceOp" and len(vals) == 2:
            e = self.ent(vals[0])
            s = self.event(("replace", vals[0], vals[1]), s)
            return None, self.kill(e, s) if e is not None else s
        if name in ("replaceOpWithNewOp", "create"):
            cls = next((clean(t) for t in (n.ta or []) if isinstance(t, str) and clean(t).startswith("mlir")), "?")
            o = self.op(cls, [], [("new", self.ty("?"))], effects=None)
            s = self.event(("new", cls, vals[0] if name != "create" else None, ("l", tuple(vals[1:]))), s)
            e = self.ent(vals[0]) if name != "create" and vals else None
            if e is not None:
                s = self.kill(e, s)
            return o.v, s
        if name in ("modifyOpInPlace", "updateRootInPlace") and len(vals) == 2:
            s = dict(self.event(("modify", vals[0]), s))
            old = s.get(("tracked",))
            s[("tracked",)] = True
            r = self.apply(vals[1], [], s)
            s = r[1] if r is not None else s
            if s is not None and not old:
                s = dict(s); s.pop(("tracked",), None)
            return None, s
        if name in ("startOpModification", "startRootUpdate"):
            s = dict(s); s[("tracked",)] = True
            return None, s
        if name in ("finalizeOpModification", "finalizeRootUpdate", "cancelOpModification"):
            s = dict(self.event(("modify", vals[0] if vals else None), s)); s.pop(("tracked",), None)
            return None, s
        if name in ("moveOpBefore", "moveOpAfter"):
            return None, self.event((name,) + tuple(vals), s)
        if name in ("setInsertionPoint", "setInsertionPointAfter",
                    "setInsertionPointToStart", "setInsertionPointToEnd", "setInsertionPointAfterValue"):
            return None, s
        if name.startswith("get"):
            return T(name, *[v if v is not None else "?" for v in vals]), s
        return None, self.event(("other", name), s)

    def regionof(self, b):
        if b.d.get("region") is None:
            b.d["region"] = Ent(self, "region", M + "Region", block=b, parent=b.parent)
        return b.region

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "block" and e.d.get("parent") is not None:
            if name == "isEntryBlock" and not vals:
                return I(1), s
            if name == "getParent" and not vals:
                return self.regionof(e).v, s
        if e.kind == "region":
            if name in ("front", "back", "getBlocks") and not vals:
                return e.block.v if name != "getBlocks" else ("l", (e.block.v,)), s
            if name == "getParentOp" and not vals:
                return self.lift(e.parent), s
            if name == "getParentRegion" and not vals and e.parent is not None and e.parent.d.get("block") is not None:
                return self.regionof(e.parent.block).v, s
        if e.kind == "op" and name == "getParentRegion" and not vals and e.d.get("block") is not None:
            return self.regionof(e.block).v, s
        if e.kind == "op" and name == "hasTrait" and any("IsIsolatedFromAbove" in str(x) for x in (n.d.get("ta") or [])):
            return I(int(e.cls.split("::")[-1] in ("FuncOp", "ModuleOp"))), s
        if e.kind == "value" and name == "getOwner" and not vals:
            return self.lift(e.d.get("block") or e.d.get("op")), s
        if e.kind == "op":
            if name == "erase" and not vals:
                s = self.event(("erase", e.v), self.event(("direct", name, e.v), s))
                return None, self.kill(e, s)
            if name in ("setAttr", "removeAttr", "setOperand", "setOperands", "replaceUsesOfWith", "moveBefore", "moveAfter", "setDiscardableAttr", "setAttrs"):
                return None, s if s.get(("tracked",)) else self.event(("direct", name, e.v), s)
            if name == "getNumRegions":
                return I(len(e.regions)), s
            if name == "getOpOperands":
                return None
            if name in ("isBeforeInBlock",):
                return None
        if e.kind in ("value", "op") and name == "replaceAllUsesWith" and len(vals) == 1:
            return None, self.event(("rauw", e.v, vals[0]), self.event(("direct", name, e.v), s))
        return super().entmodel(n, e, name, vals, s)

    def isa(self, e, cls):
        cls = clean(cls)
        if cls == M + "MemoryEffectOpInterface":
            return e.kind == "op" and e.d.get("effects") is not None
        return super().isa(e, cls)
