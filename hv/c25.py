"""C25: fusing a convolution with the pooling and the scaling that follow computes the same result."""
import itertools, os
from fractions import Fraction
from .cprop import I, T
from .ceval import conc
from .alg import Alg, atom, padd, pmul, ptext, const, q, isq, unq, oobtext
from .world import M, Ent, apint, clean
from . import alg, facts, prog

F = "lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp"
SEM, OTHERSEM = ("e", "Sem", "this"), ("e", "Sem", "other")
CONV = ("F", "C", "kH", "kW", "strideH", "strideW", "dilationH", "dilationW")
POOL = ("pH", "pW", "strideH", "strideW", "dilationH", "dilationW")
SHAPE = ("RankedTensorType", "DenseElementsAttr")


def st(names, vals):
    return ("st", tuple(sorted((k, I(v)) for k, v in zip(names, vals))))


def span(pool, dil, stride, k, dk):
    return (pool - 1) * dil * stride + (k - 1) * dk + 1


def cases(thorough):
    """(F, C, kH, kW, sH, sW, dH, dW), (pH, pW, sH, sW, dH, dW); the two axes always differ somewhere."""
    ax = [(k, s, d, p, sp, dp) for k in (1, 2, 3) for s in (1, 2, 3) for d in (1, 2) for p in (1, 2, 3) for sp in (1, 2) for dp in (1, 2)]
    pick = ax if thorough else ax[::5]
    out, m = [], len(ax)
    for i, h in enumerate(pick):
        w = ax[(i * 61 + 29) % m]
        fc = ((1, 1), (2, 1), (1, 2), (2, 3))[i % 4]
        out.append((fc + (h[0], w[0], h[1], w[1], h[2], w[2]), (h[3], w[3], h[4], w[4], h[5], w[5])))
    return out


class CW(Alg):
    """Filters as lists of polynomials over the weights; floats and integers of any width are ring elements."""

    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        args = [a for a in n.args or []]
        if cls.endswith("APInt") and not n.copy and not n.move and len(args) >= 2:
            vs, s1 = self.evs(args, s)
            k = conc(vs[1]) if s1 is not None else None
            if k is not None:
                return q(const(k)), s1
        return super().ctor(n, s)

    def hook(self, n, name, qn, ov, vals, s):
        if name == "getOne" and qn and "APFloat" in qn:
            return q(const(1)), s
        if name == "getZero" and qn and "APFloat" in qn:
            return (q(const(0)) if not any(conc(v) for v in vals[1:2]) else None), s
        if name in ("getZero", "getAllOnes") and qn and "APInt" in qn:
            return (q(const(0)) if name == "getZero" else None), s
        if name == "getSemantics" and isq(ov):
            return (OTHERSEM if foreign(unq(ov)) else SEM), s
        if name == "value_or" and len(vals) == 1 and n.k == "MCall":
            if ov in (("fail",), T("nullopt")):
                return vals[0], s
            if isq(ov):
                return ov, s
            return None, s
        return super().hook(n, name, qn, ov, vals, s)


def foreign(p):
    return any(a.startswith("h") for m in p for a in m)


def one(P, name):
    g = [f for f in P.all if f.name == name and f.rel == F and f.body is not None and not f.dep]
    return g[0] if len(g) == 1 else None


def callp(P, f, vals, cls=CW):
    w = cls(P)
    try:
        v, s = w.callfn(f, vals, {"tr": ()})
    except Exception:
        if os.environ.get("HV_DEBUG"):
            raise
        return None, False, w
    return v, w.halted and s is None, w


def fused(conv, pool, scale):
    """Every weight at the offset its input element has from the corner of the pooling window."""
    Fo, C, kH, kW, sH, sW, dH, dW = conv
    pH, pW, _, _, eH, eW = pool
    H, W = span(pH, eH, sH, kH, dH), span(pW, eW, sW, kW, dW)
    out = [{} for _ in range(Fo * C * H * W)]
    for f, c, a, b, i, j in itertools.product(range(Fo), range(C), range(pH), range(pW), range(kH), range(kW)):
        w = atom(f"w{f},{c},{i},{j}")
        o = ((f * C + c) * H + a * eH * sH + i * dH) * W + b * eW * sW + j * dW
        out[o] = padd(out[o], pmul(w, scale))
    return H, W, out


def filters(c, P):
    for fn, axis in (("getEffectiveKernelHeight", 0), ("getEffectiveKernelWidth", 1)):
        f = one(P, fn)
        if f is None or len(f.params) != 2:
            c.undecided(fn, "not found in the form the callers use")
            continue
        for conv, pool in cases(c.tier == "thorough"):
            H, W, _ = (span(pool[0], pool[4], conv[4], conv[2], conv[6]), span(pool[1], pool[5], conv[5], conv[3], conv[7]), 0)
            v, dead, w = callp(P, f, [st(CONV, conv), st(POOL, pool)])
            k = conc(v)
            c.count("fused sizes evaluated")
            if k is None:
                c.undecided(fn, "value not determined")
                break
            if k != (H, W)[axis]:
                c.bad(f"{F}:{fn}", f"{F}:{f.line} {fn}", f"for convolution {dict(zip(CONV, conv))} and pooling {dict(zip(POOL, pool))} the fused "
                      f"{('height', 'width')[axis]} is {k}, not {(H, W)[axis]}")
                break
            c.ok()
    for fn, flt in (("fuseFloatFilters", True), ("fuseIntFilters", False)):
        f = one(P, fn)
        if f is None or len(f.params) != (5 if flt else 4):
            c.undecided(fn, "not found in the form the callers use")
            continue
        for i, (conv, pool) in enumerate(cases(c.tier == "thorough")):
            scale = atom("scale") if flt and i % 2 else const(1)
            Fo, C, kH, kW = conv[:4]
            ws = ("l", tuple(q(atom(f"w{a},{b},{x},{y}")) for a, b, x, y in itertools.product(range(Fo), range(C), range(kH), range(kW))))
            args = [ws, st(CONV, conv), st(POOL, pool)] + ([SEM, q(scale) if i % 2 else ("fail",)] if flt else [I(16)])
            v, dead, w = callp(P, f, args)
            H, W, want = fused(conv, pool, scale)
            where, key = f"{F}:{f.line} {fn}", f"{F}:{fn}"
            ctx = f"for convolution {dict(zip(CONV, conv))} and pooling {dict(zip(POOL, pool))}"
            c.count("fused filters evaluated")
            if dead and not w.forks:
                c.bad(key + ":aborts", where, f"{ctx} an assertion fails")
                break
            if w.oob and not w.forks:
                c.bad(key + ":range", where, f"{ctx} uses {oobtext(w.oob[0])}")
                break
            got = [unq(x) for x in v[1]] if v is not None and v[0] == "l" else None
            if got is None or None in got or w.forks:
                c.undecided(where, "value not determined")
                break
            if len(got) != len(want):
                c.bad(key, where, f"{ctx} the fused filter has {len(got)} weights, not {len(want)}")
                break
            bad = [k for k in range(len(want)) if got[k] != want[k]]
            if bad:
                k = bad[0]
                p = (k // (C * H * W), k // (H * W) % C, k // W % H, k % W)
                c.bad(key, where, f"{ctx} weight {p} of the fused filter is {ptext(got[k])[:120]}, not {ptext(want[k])[:120]}")
                break
            c.ok(f"{where} {i}")


# -- recognising the scaling -------------------------------------------------
def nosplat(w, vals, s):
    w.oob.append("the splat value of an attribute that is not a splat")
    return None, s


class MW(CW):
    """The operation after the pooling, described with its operands, maps and body."""

    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.f32, self.f16 = self.flt(32), self.flt(16)
        self.tt = self.tensor((2, 2), self.f32)
        self.maps = {k: Ent(self, "map", M + "AffineMap", name=k, acc=dict(
            isIdentity=k == "id", isPermutation=k in ("id", "swap"), isProjectedPermutation=True, getNumResults=1 if k == "bcast" else 2, getNumDims=2,
            getNumInputs=2, getNumSymbols=0, isMinorIdentity=k == "id", isEmpty=False)) for k in ("id", "swap", "bcast")}

    def model(self, n, name, q, ov, vals, s):
        short = (q or name or "").split("::")[-1]
        if short == "matchPattern" and n.k == "Call" and len(vals) == 2 and len(n.args) == 2:
            m = n.args[1]
            while m is not None and m.k in ("Cast", "Materialize", "Bind", "Temp", "Ctor") and (m.e is not None or m.k == "Ctor" and len(m.args or []) == 1):
                m = m.e if m.e is not None else m.args[0]
            if m is None or m.k != "Call" or (m.q or "").split("::")[-1] not in ("m_Constant", "m_ConstantFloat"):
                return None, s
            e = self.val(vals[0])
            if e is None:
                return None, s
            a = e.op.acc.get("getValue") if e.op is not None and e.op.cls == M + "arith::ConstantOp" else None
            if a is None:
                return I(0), s
            if m.args:
                b = m.args[0]
                pl = self.place(b.a, s) if b.k == "Un" and b.op == "&" else None
                if pl is None:
                    return None, s
                t = clean(b.type or "").replace("*", "").strip()
                if t in (M + "TypedAttr", M + "Attribute", M + "ElementsAttr", M + "DenseElementsAttr", M + "FloatAttr") and not (t in (M + "TypedAttr", M + "Attribute") or self.isa(a, t)):
                    return I(0), s
                s = self.setp(pl, a.v, s)
            return I(1), s
        return super().model(n, name, q, ov, vals, s)

    def arith(self, op, a, b):
        if op == "/" and isq(a) and isq(b):
            d = unq(b)
            if len(d) == 1 and () in d:
                return q(pmul(unq(a), const(1 / Fraction(d[()]))))
            if len(d) == 1 and len(next(iter(d))) == 1 and not next(iter(d))[0].endswith("^-1"):
                (m, k), = d.items()
                return q(pmul(unq(a), {(m[0] + "^-1",): 1 / Fraction(k)}))
            return None
        return super().arith(op, a, b)

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "block":
            if name == "getNumArguments":
                return I(len(e.args)), s
            if name == "getArgument" and vals and conc(vals[0]) is not None and conc(vals[0]) < len(e.args):
                return e.args[conc(vals[0])].v, s
            if name == "getTerminator" and e.ops:
                return e.ops[-1].v, s
            if name == "without_terminator":
                return self.lift(e.ops[:-1]), s
            if name in ("size",):
                return I(len(e.ops)), s
        if e.kind == "attr" and name in ("getSplatValue", "getValue") and e.d.get("num") is not None and "getValues" not in e.acc:
            return q(e.num), s
        return super().entmodel(n, e, name, vals, s)

    def cst(self, num, kind):
        """kind: float | splat | dense | int"""
        if kind == "float":
            a = self.attr(M + "FloatAttr", acc={}, num=num, ty=self.f32, isa=(M + "TypedAttr",))
        elif kind == "int":
            a = self.attr(M + "IntegerAttr", apint=apint(32, 4), ty=self.int(32), isa=(M + "TypedAttr",))
        else:
            a = self.attr(M + "DenseElementsAttr" if kind == "dense" else M + "SplatElementsAttr", num=num if kind == "splat" else None, ty=self.tt,
                          acc=dict(isSplat=kind == "splat", getElementType=self.f32, **({} if kind == "splat" else {"getSplatValue": nosplat})),
                          isa=(M + "TypedAttr", M + "ElementsAttr", M + "DenseElementsAttr", M + "DenseFPElementsAttr"))
        o = self.op(M + "arith::ConstantOp", [], [("cst", a.ty)], acc=dict(getValue=a, getValueAttr=a), isa=("mlir::arith::ConstantFloatOp",) if kind == "float" else ())
        return o.res[0]

    def bin(self, cls, a, b):
        return self.op(M + "arith::" + cls, [a, b], [("x", a.ty)], acc=dict(getLhs=a, getRhs=b), names=None)

    def generic(self, ins, init, maps, body, args):
        def operand(v, i):
            return Ent(self, "opoperand", M + "OpOperand", acc=dict(get=v, getOperandNumber=i), num=i)
        ops = [operand(v, i) for i, v in enumerate(ins + [init])]
        ni = len(ins)
        ms = [self.maps[m] for m in maps]

        def pick(l):
            return lambda w, vals, s: (l[conc(vals[0])].v, s) if vals and conc(vals[0]) is not None and conc(vals[0]) < len(l) else (None, s)

        def of(l):
            def g(w, vals, s):
                e = w.ent(vals[0]) if vals else None
                return (l[e.num].v if e is not None and e.kind == "opoperand" else None), s
            return g
        g = self.op(M + "linalg::GenericOp", ins + [init], [("o", self.tt)], regions=[body], blockargs=args, isa=(M + "linalg::LinalgOp", M + "DestinationStyleOpInterface"))
        g.acc.update(getNumDpsInputs=ni, getNumDpsInits=1, getInputs=list(ins), getDpsInputs=list(ins), getOutputs=[init], getDpsInits=[init],
                     getDpsInputOperand=pick(ops[:-1]), getDpsInitOperand=pick(ops[-1:]), getDpsInputOperands=ops[:-1], getOpOperand=pick(ops),
                     getIndexingMapsArray=ms, getMatchingIndexingMap=of(ms), getMatchingBlockArgument=of(args), getNumLoops=2, getNumParallelLoops=2,
                     getNumReductionLoops=0, getBody=g.blocks[0], getBlock=g.blocks[0], getRegionInputArgs=args[:-1], getRegionOutputArgs=args[-1:],
                     hasPureTensorSemantics=True, getIteratorTypesArray=[("e", "utils::IteratorType", "parallel")] * 2)
        return g


class DW(MW):
    """Attributes built from a type and a list of values."""

    def hook(self, n, name, qn, ov, vals, s):
        if name == "get" and qn and n.k != "MCall":
            if "RankedTensorType" in qn and len(vals) >= 2 and vals[0] is not None and vals[0][0] == "l":
                ks = [conc(x) for x in vals[0][1]]
                e = self.ent(vals[1])
                return (T("ttype", tuple(ks), vals[1]) if None not in ks and e is not None and e.kind == "type" else None), s
            if "DenseElementsAttr" in qn and len(vals) == 2:
                t = vals[0]
                return (T("dense", t[2], t[3], vals[1]) if t is not None and t[:2] == ("t", "ttype") and vals[1] is not None else None), s
        return super().hook(n, name, qn, ov, vals, s)

    def isa(self, e, cls):
        if clean(cls) == M + "FloatType" and e.kind == "type":
            return "fwidth" in e.d
        return super().isa(e, cls)

    def entmodel(self, n, e, name, vals, s):
        if e.kind == "type" and name == "getFloatSemantics" and "fwidth" in e.d:
            return SEM, s
        return super().entmodel(n, e, name, vals, s)


OPS = {"DivFOp": "/", "MulFOp": "*", "AddFOp": "+", "SubFOp": "-", "MaximumFOp": "max"}


def compute(op, a, b):
    if a is None or b is None or op == "max":
        return None
    if op == "/":
        return pmul(a, const(1 / Fraction(b[()]))) if len(b) == 1 and () in b else None
    return pmul(a, b) if op == "*" else padd(a, b, 1 if op == "+" else -1)


def scalings(P):
    """(text, world, user, pool result, what it computes or None, the constant is of another format)"""
    four, p, x, y = const(4), atom("p"), atom("x"), atom("y")
    for cls, op in OPS.items():
        for l, r in (("p", "c"), ("c", "p"), ("p", "p"), ("p", "x"), ("x", "p"), ("x", "c")):
            for kind in ("splat", "dense") if "c" in (l, r) else ("splat",):
                for half in (False, True) if kind == "splat" and (l, r) == ("p", "c") and op in "/*" else (False,):
                    w = MW(P)
                    k = four if not half else atom("h")
                    v = {"p": w.arg("p", w.tt), "x": w.arg("x", w.tt, 1), "c": w.cst(k, kind)}
                    d = {"p": p, "x": x, "c": k if kind == "splat" and not half else None}
                    if (l, r) == ("x", "c"):
                        continue
                    yield (f"arith.{cls[:-2].lower()}({l}, {r}) on tensors, c {'a splat' if kind == 'splat' else 'not a splat'}{' of another format' if half else ''}",
                           w, w.bin(cls, v[l], v[r]), v["p"], compute(op, d[l], d[r]))
    for ins, init in ((("p",), "x"), (("x",), "p"), (("p",), "p"), (("p", "x"), "y"), (("x", "p"), "y")):
        for m in itertools.product(("id", "swap", "bcast"), ("id", "swap")):
            for cls, l, r, yld in itertools.chain(
                    itertools.product(("DivFOp", "MulFOp"), ("a0", "c", "b", "a1"), ("c", "a0", "b"), ("o", "a0", "b", "c")), [("AddFOp", "a0", "c", "o"), ("MaximumFOp", "a0", "c", "o")]):
                if l == r == "c" or "a1" in (l, r) and len(ins) < 2 or "bcast" in m and len(ins) > 1 or (m != ("id", "id") and (len(ins) > 1 or l != "a0" or r != "c")):
                    continue
                w = MW(P)
                v = {"p": w.arg("p", w.tt), "x": w.arg("x", w.tt, 1), "y": w.arg("y", w.tt, 2)}
                args = [w.arg(f"a{i}", w.f32, i) for i in range(len(ins) + 1)]
                sc = {f"a{i}": a for i, a in enumerate(args)}
                sc["b"] = args[-1]
                sc["c"] = w.cst(four, "float")
                o = w.bin(cls, sc[l], sc[r])
                sc["o"] = o.res[0]
                yo = w.op(M + "linalg::YieldOp", [sc[yld]], [], acc=dict(getValues=[sc[yld]]))
                g = w.generic([v[i] for i in ins], v[init], [m[0]] * len(ins) + [m[1]], [o, yo], args)

                def den(nm):
                    if nm == "c":
                        return four
                    who = init if nm == "b" else ins[int(nm[1])]
                    mp = m[1] if nm == "b" else m[0]
                    # element of the operand this iteration reads, against the element of the result it writes
                    same = mp == m[1]
                    return atom(who if same else who + "'")
                d = {k: den(k) for k in ("a0", "b", "c") + (("a1",) if len(ins) > 1 else ())}
                d["o"] = compute(OPS[cls], d[l], d[r])
                yield (f"linalg.generic ins({', '.join(ins)}) outs({init}) maps ({m[0]}, {m[1]}): o = {cls[:-2].lower()} {l}, {r}; yield {yld}", w, g, v["p"], d[yld])
    # a body of three operations
    for second in ("MulFOp", "AddFOp"):
        w = MW(P)
        v = {"p": w.arg("p", w.tt), "x": w.arg("x", w.tt, 1)}
        args = [w.arg(f"a{i}", w.f32, i) for i in range(2)]
        k = w.cst(four, "float")
        o1 = w.bin("DivFOp", args[0], k)
        o2 = w.bin(second, o1.res[0], k)
        yo = w.op(M + "linalg::YieldOp", [o2.res[0]], [], acc=dict(getValues=[o2.res[0]]))
        g = w.generic([v["p"]], v["x"], ["id", "id"], [o1, o2, yo], args)
        yield f"linalg.generic ins(p) outs(x): o1 = divf a0, c; o2 = {second[:-2].lower()} o1, c; yield o2", w, g, v["p"], compute(OPS[second], pmul(p, const(Fraction(1, 4))), four)


def matching(c, P):
    f = one(P, "matchScalingFactor")
    if f is None or len(f.params) != 3:
        c.undecided("matchScalingFactor", "not found in the form the callers use")
        return
    where, key = f"{F}:{f.line} matchScalingFactor", f"{F}:matchScalingFactor"
    hits, told = 0, set()
    for text, w, user, pool, want in scalings(P):
        c.count("scaling candidates evaluated")
        try:
            v, s = w.callfn(f, [user.v, pool.v, SEM], {"tr": ()})
        except Exception:
            if os.environ.get("HV_DEBUG"):
                raise
            v, s = None, {}
        if s is None and w.halted and not w.forks:
            c.bad(key + ":aborts", where, f"on {text}: an assertion fails")
            continue
        if w.oob and not w.forks:
            c.bad(key + ":range", where, f"on {text}: uses {oobtext(w.oob[0])}")
            continue
        if v == ("fail",) and not w.forks:
            c.ok(f"{text}: no match")
            continue
        d = dict(v[1]) if v is not None and v[0] == "st" else {}
        sc = unq(d.get("scale")) if d.get("scale") is not None else None
        if w.forks or sc is None or w.ent(d.get("op")) is None:
            c.undecided(f"matchScalingFactor on {text[:90]}", "value not determined")
            continue
        hits += 1
        if w.ent(d["op"]) is not user:
            c.bad(key + ":op", where, f"on {text}: reports another operation than the one that scales")
        elif foreign(sc):
            c.bad(key + ":format", where, f"on {text}: reports a scale in a floating-point format other than the filter's")
        elif want is None or pmul(sc, atom("p")) != want:
            why = text.split(":")[0]
            if why in told:
                continue
            told.add(why)
            c.bad(key + (":generic" if "generic" in text else ":arith"), where, f"on {text}: reports the scale {ptext(sc)}, but it computes {ptext(want) if want is not None else 'no multiple of the pooled tensor'}")
        else:
            c.ok(f"{text}: {ptext(sc)}")
    c.count("scalings recognised", hits)


def wrapper(c, P):
    f = one(P, "fuseConv2DPoolingFilters")
    if f is None or len(f.params) != 4:
        c.undecided("fuseConv2DPoolingFilters", "not found in the form the callers use")
    else:
        where, key = f"{F}:{f.line} fuseConv2DPoolingFilters", f"{F}:fuseConv2DPoolingFilters"
        for i, (conv, pool) in enumerate(cases(c.tier == "thorough")):
            if i % 6 and c.tier != "thorough":
                continue
            for elt in ("float", "int"):
                w = DW(P)
                et = w.f32 if elt == "float" else w.int(16)
                Fo, C, kH, kW = conv[:4]
                ws = ("l", tuple(q(atom(f"w{a},{b},{x},{y}")) for a, b, x, y in itertools.product(range(Fo), range(C), range(kH), range(kW))))
                ft = w.tensor((Fo, C, kH, kW), et)
                a = w.attr(M + "DenseElementsAttr", ty=ft, acc=dict(getType=ft, getValues=ws, getElementType=et, isSplat=False), isa=(M + "ElementsAttr", M + "TypedAttr"))
                scale = atom("scale") if i % 12 == 0 and elt == "float" else const(1)
                try:
                    v, s = w.callfn(f, [a.v, st(CONV, conv), st(POOL, pool), q(scale) if i % 12 == 0 else ("fail",)], {"tr": ()})
                except Exception:
                    if os.environ.get("HV_DEBUG"):
                        raise
                    v, s = None, {}
                c.count("attributes fused")
                H, W, want = fused(conv, pool, scale)
                if s is None and w.halted and not w.forks:
                    c.bad(key + ":aborts", where, f"on a filter of {elt} elements: an assertion fails")
                    continue
                if v is None or v[:2] != ("t", "dense") or w.forks:
                    c.undecided(where, f"attribute not determined for {elt} elements")
                    continue
                shape, gt, got = v[2], v[3], [unq(x) for x in v[4][1]] if v[4] is not None and v[4][0] == "l" else [None]
                if None in got:
                    c.undecided(where, f"values not determined for {elt} elements")
                elif shape != (Fo, C, H, W) or gt != et.v:
                    c.bad(key + ":type", where, f"for convolution {dict(zip(CONV, conv))} and pooling {dict(zip(POOL, pool))} the fused filter has shape {shape} "
                          f"{'of the filter element type' if gt == et.v else 'of another element type'}, not {(Fo, C, H, W)}")
                elif got != want:
                    c.bad(key, where, f"for convolution {dict(zip(CONV, conv))} and pooling {dict(zip(POOL, pool))} on {elt} elements the attribute does not hold the fused weights")
                else:
                    c.ok(f"{where} {i} {elt}")
    f = one(P, "extractFloatAttr")
    if f is None or len(f.params) != 1:
        c.undecided("extractFloatAttr", "not found in the form the callers use")
        return
    for kind in ("float", "int", "splat", "dense", "int splat"):
        w = DW(P)
        e = w.cst(atom("k"), "splat" if kind == "int splat" else kind).op.acc["getValue"]
        if kind == "int splat":
            e.acc["getElementType"] = w.int(32)
        v, s = w.callfn(f, [e.v], {"tr": ()})
        if w.oob and not w.forks:
            c.bad(f"{F}:extractFloatAttr:range", f"{F}:{f.line} extractFloatAttr", f"of a {kind} attribute uses {oobtext(w.oob[0])}")
            continue
        r = unq(v) if v is not None and v != ("fail",) else v
        c.count("attributes read")
        if r is None or w.forks:
            c.undecided(f"extractFloatAttr of a {kind} attribute", "value not determined")
        elif (r == ("fail",)) != (kind not in ("float", "splat")) or r != ("fail",) and r != atom("k"):
            c.bad(f"{F}:extractFloatAttr", f"{F}:{f.line} extractFloatAttr", f"of a {kind} attribute is {'absent' if r == ('fail',) else ptext(r)}")
        else:
            c.ok()


def check(c):
    c.rule("getEffectiveKernelHeight/Width equal (p - 1) dilP strideC + (k - 1) dilC + 1 on every enumerated combination of sizes")
    c.rule("fuseFloatFilters and fuseIntFilters, evaluated on their source with one unknown per weight and an unknown scale, put scale * w at the offset "
           "(ph dilP strideC + kh dilC, pw dilP strideC + kw dilC) for every window position and add where they meet, inside the array")
    try:
        P = prog.load([F])
    except facts.AnalysisBroken as e:
        c.undecided("fusion", str(e)[:200])
        return c.finish(EXPLANATION)
    filters(c, P)
    wrapper(c, P)
    matching(c, P)
    c.need("fused filters evaluated", 20)
    return c.finish(EXPLANATION)


EXPLANATION = "Filter fusion evaluated as a linear map of the weights, and the recogniser of scalings evaluated on descriptions of the operations it may meet."
