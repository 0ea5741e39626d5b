"""C09: the ring dimension chosen is the smallest secure and large enough one."""
import os
from .cprop import Interp, I, T, flat
from .taint import Taint
from . import prog, facts

SRC = "lib/Parameters/RLWESecurityParams.cpp"
# Homomorphic Encryption Security Guidelines (ia.cr/2024/463), 128-bit classical, uniform ternary secret
TABLE = [(1024, 26), (2048, 53), (4096, 106), (8192, 214), (16384, 430), (32768, 868), (65536, 1747), (131072, 3523)]
IMAX = 2 ** 31 - 1


def spec(logpq, mind):
    for d, q in TABLE:
        if d >= mind and q >= logpq:
            return d
    return None


def constants(P, fns):
    """Every integer constant the decision can compare against."""
    out = set()
    for f in fns:
        for n in f.walk():
            if n.k == "Int":
                out.add(int(n.v))
            cv = n.d.get("cv")
            if cv is not None and str(cv).lstrip("-").isdigit():
                out.add(int(cv))
    for g in P.globals.values():
        if g.init is not None:
            for n in g.init.walk():
                if n.k == "Int":
                    out.add(int(n.v))
    return out


def cells(points):
    """Singletons at every cut point and the open intervals between: behaviour is constant on each."""
    pts = sorted(p for p in points if -1 <= p <= IMAX)
    out = []
    for a, b in zip(pts, pts[1:] + [None]):
        out.append((a, a))
        if b is not None and b - a > 1:
            out.append((a + 1, b - 1))
    return out


def analyse_fn(P, f, collect):
    cs = constants(P, [f] + reach(P, f))
    qs = {0, IMAX} | {q for _, q in TABLE} | {q + 1 for _, q in TABLE} | {c + d for c in cs for d in (-1, 0, 1)}
    ds = {0, IMAX} | {d for d, _ in TABLE} | {d + 1 for d, _ in TABLE} | {c + d for c in cs for d in (-1, 0, 1)}
    qs = {x for x in qs if x >= 0}
    ds = {x for x in ds if x >= 0}
    for ql, qh in cells(qs):
        for dl, dh in cells(ds):
            want = spec(qh, dh)
            it = Interp(P)
            it.trust_globals = True
            v, st = it.run(f, {0: ("i", ql, qh), 1: ("i", dl, dh)})
            collect((ql, qh, dl, dh), want, v)


def reach(P, f):
    out, todo = [], [f]
    seen = {f.usr}
    while todo:
        g = todo.pop()
        for n in g.walk():
            c = P.callee(n) if n.k in ("Call", "MCall", "OpCall") else None
            if c is not None and c.usr not in seen:
                seen.add(c.usr); out.append(c); todo.append(c)
    return out


def verdict(want, v):
    """'ok', 'bad' or 'undecided' for the value the code yields on a whole cell."""
    if v == ("noret",):
        return "ok" if want is None else "bad"
    if v is None or v[0] not in ("i", "set", "fail"):
        return "undecided"
    vals = [x for x in (v[1] if v[0] == "set" else (v,))]
    if any(x is None or x[0] != "i" or x[1] != x[2] for x in vals):
        return "undecided"
    got = {x[1] for x in vals}
    if len(got) > 1:
        return "undecided"
    g = got.pop()
    if want is None:
        return "bad"
    return "ok" if g == want else "bad"


def table_of(P):
    out = []
    for q, g in P.globals.items():
        if "ecurityParam" in q and g.init is not None:
            it = Interp(P); it.trust_globals = True
            v, _ = it.ev(g.init, {"tr": ()})
            if v and v[0] == "l" and v[1] and all(x and x[0] == "st" for x in v[1]):
                out.append((q, g, [dict(x[1]) for x in v[1]]))
    return out


def check(c):
    c.rule("interval evaluation of computeRingDim: the (modulus size, minimum dimension) plane is cut at every constant "
           "of the code and of the standard's table; on each cell the abstractly computed result must be the smallest "
           "tabulated dimension that is >= the minimum and whose limit is >= the size; if there is none, the function must not return a dimension")
    P = prog.load([SRC])
    f = P.one("mlir::heir::computeRingDim")
    bad = []

    def collect(cell, want, v):
        r = verdict(want, v)
        c.count("cells")
        if r == "ok":
            c.ok()
        elif r == "bad":
            bad.append((cell, want, v))
        else:
            c.undecided(f"computeRingDim on cell {cell}", f"abstract result {v}")
    analyse_fn(P, f, collect)
    if bad:
        cell, want, v = bad[0]
        got = "no value" if v == ("noret",) else str(v)
        c.bad("computeRingDim", f.where(),
              f"for modulus sizes {cell[0]}..{cell[1]} and minimum dimension {cell[2]}..{cell[3]} the result is {got}, "
              f"the standard requires {want if want else 'an error'} ({len(bad)} cells differ)")
    for q, g, rows in table_of(P):
        c.count("tables")
        for r in rows:
            vals = sorted(x[1] for x in r.values() if x and x[0] == "i" and x[1] == x[2])
            if len(vals) == 2 and (vals[1], vals[0]) in TABLE:
                c.ok(f"{q}: row {vals[1]}/{vals[0]} is the standard's")
            elif len(vals) == 2:
                std = dict(TABLE).get(vals[1])
                if std is None or vals[0] > std:
                    c.bad(f"{q}:{vals[1]}", f"{SRC}:{g.line}", f"row {vals[1]} -> {vals[0]} bits exceeds the standard's limit {std}")
                else:
                    c.bad(f"{q}:{vals[1]}", f"{SRC}:{g.line}", f"row {vals[1]} -> {vals[0]} bits is not the standard's {std}")
    callers(c)
    c.need("cells", 1)
    selftest(c)
    return c.finish(
        "computeRingDim is evaluated over intervals on every cell of the plane (modulus size >= 0) x (minimum dimension >= 0) "
        "cut at each constant occurring in the code or in the 128-bit table of ia.cr/2024/463; the result must be the smallest admissible "
        "row, or none. Every compiled caller must hand on the requested sizes to it (doubled slot count where slots are half the ring).")


ARGS = {   # callee -> for each argument position the one quantity it carries
    "getConservativeRLWESchemeParam": ["level", "minSlotCount", "usePublicKey", "encryptionTechniqueExtended"],
    "getConcreteRLWESchemeParam": ["logqi", "minSlotCount", "usePublicKey", "encryptionTechniqueExtended", "plaintextModulus"],
}
REBUILD = [{"getLogN"}, {"getQ"}, {"getQ"}, {"getQ"}, {"getQ", "getP"}, {"getP"}, {"getP"}, {"getEncryptionType"}, {"getEncryptionTechnique"}]


def flows(c, P, src):
    """Each quantity handed to a parameter constructor is the one of that name."""
    for f in P.all:
        if f.dep or f.rel != src:
            continue
        names = {p.n: p.n for p in f.params}
        getters = f.name == "getSchemeParamFromAttr"

        def source(n):
            if getters and n.k == "MCall" and (n.n or "").startswith("get") and n.obj is not None and n.obj.k == "Ref" and n.obj.dk == "param":
                return n.n
            return None
        t = None
        for n in f.walk():
            want = None
            if n.k in ("Call", "MCall") and n.n in ARGS and set(ARGS[n.n]) <= set(names):
                want = [{x} for x in ARGS[n.n]]
            elif n.k == "Ctor" and getters and (n.d.get("cls") or "").endswith("RLWESchemeParam") and len(n.args or []) == 9:
                want = REBUILD
            elif n.k == "Ctor" and (n.d.get("cls") or "").endswith("bgv::SchemeParam") and len(n.args or []) == 2 and f.name.startswith("get"):
                want = [None, {"getPlaintextModulus"} if getters else {"plaintextModulus"}]
            if want is None:
                continue
            t = t or Taint(f, source, None if getters else names)
            for i, w in enumerate(want):
                if w is None:
                    continue
                d = t.dep(n.args[i]) if i < len(n.args) else set()
                c.count("parameter flows")
                what = f"{f.name}: argument {i + 1} of {n.n or 'SchemeParam'}"
                if d == w:
                    c.ok(f"{what} carries {', '.join(sorted(w))}")
                elif d or i >= len(n.args) or n.args[i].k == "DefArg" or all(x.k in ("Int", "Float", "Bool", "Cast", "Ctor", "Un") for x in n.args[i].walk()):
                    c.bad(f"{f.name}:{n.n or 'SchemeParam'}:{i}", f.where(n), f"{what} carries {', '.join(sorted(d)) or 'a constant'} instead of {', '.join(sorted(w))}")
                else:
                    c.undecided(what, "origin of the argument not resolved")


def fields(c, P):
    """The parameter classes store each constructor argument in the field of its name and answer from it."""
    for f in P.all:
        if f.dep or not f.rel.startswith("lib/Parameters/"):
            continue
        if f.name == (f.clsq or f.cls or "").split("::")[-1]:
            names = {p.n for p in f.params}
            for i in f.inits:
                if i.f in names and i.e is not None and len(names) > 1:
                    refs = {x.n for x in i.e.walk() if x.k == "Ref" and x.dk == "param"}
                    c.count("parameter fields")
                    if i.f in refs:
                        c.ok()
                    elif refs:
                        c.bad(f"{f.full}:{i.f}", f.where(), f"field {i.f} is initialised from {', '.join(sorted(refs))}")
                    else:
                        c.undecided(f"{f.full}: {i.f}", "not initialised from a parameter")
        elif f.name.startswith("get") and not f.params:
            rs = [x for x in f.walk() if x.k == "Return"]
            r = P.recs.get(f.cls)
            if len(rs) != 1 or r is None or rs[0].e is None:
                continue
            e = rs[0].e
            while e.k in ("Cast", "Ctor") and (e.e is not None or len(e.args or []) == 1):
                e = e.e if e.k == "Cast" else e.args[0]
            fl = {x.n.lower() for x in r.fields}
            if e.k == "Mem" and f.name[3:].lower() in fl:
                c.count("parameter getters")
                if e.n.lower() == f.name[3:].lower():
                    c.ok()
                else:
                    c.bad(f"{f.full}", f.where(), f"{f.name} answers from the field {e.n}")


def callers(c):
    """BGV parameters: the minimum ring dimension requested covers the slots needed."""
    src = "lib/Parameters/BGV/Params.cpp"
    P = prog.load([src])
    flows(c, P, src)
    fields(c, P)
    for f in P.all:
        if f.name not in ("getConservativeSchemeParam", "getConcreteSchemeParam") or f.dep or f.rel != src:
            continue
        ms = [i for i, p in enumerate(f.params) if p.n == "minSlotCount"]
        if not ms:
            continue
        c.count("parameter builders")
        bad = und = seen = 0
        for k in (1, 2, 3, 1024, 32768, 65536):
            it = Interp(P, record=lambda e: e[0] == "c")
            v, st = it.run(f, {ms[0]: I(k)})
            for e in flat(st["tr"] if st else ()):
                if e[1] in ARGS:
                    seen = 1
                    a = e[3][1] if len(e[3]) > 1 else None
                    if a is not None and a[0] == "i" and a[1] == a[2]:
                        bad += a[1] != 2 * k
                    else:
                        und += 1
        if bad:
            c.bad(f"{src}:{f.name}:slots", f.where(), "the minimum ring dimension passed on is not twice the requested slot count")
        elif und or not seen:
            c.undecided(f.full, "minimum ring dimension not resolved")
        else:
            c.ok(f"{f.full}: twice the slot count is the minimum ring dimension")
    for f in P.all:
        if f.name == "getSchemeParamFromAttr" and f.rel == src:
            bad = und = seen = badlv = 0
            badfl = set()
            for k in (10, 13, 16, 17):
                it = Interp(P, inputs=lambda n, s: I(k) if n.k == "MCall" and n.n == "getLogN" else
                            (I(k) if n.k == "MCall" and n.n == "size" else powv(n, s, k)), record=lambda e: False)
                it.run(f, {})
                for n, vals in it.ctors:
                    if (n.d.get("cls") or "").endswith("RLWESchemeParam") and len(vals) == 9:
                        seen = 1
                        if vals[0] is not None and vals[0][0] == "i" and vals[0][1] == vals[0][2]:
                            bad += vals[0][1] != 1 << k
                        else:
                            und += 1
                        if vals[1] is not None and vals[1][0] == "i" and vals[1] != I(k - 1):
                            badlv = vals[1]
                        for j, en in ((7, "pk"), (8, "extended")):
                            v = vals[j]
                            if v is not None and v[0] == "t" and v[1] in ("==", "!=") and len(v) == 4:
                                e = [x for x in v[2:] if x is not None and x[0] == "e"]
                                if len(e) == 1 and (v[1] == "!=") == (e[0][2] == en):
                                    badfl.add((j, v[1], e[0][2]))
            if badlv:
                c.bad(f"{src}:{f.name}:level", f.where(), "the level rebuilt from the attribute is not the number of moduli minus one")
            for j, o, e in sorted(badfl):
                c.bad(f"{src}:{f.name}:{j}", f.where(), f"argument {j + 1} is set when the attribute {o} {e}")
            if bad:
                c.bad(f"{src}:{f.name}:ringDim", f.where(), "the ring dimension rebuilt from the attribute is not 2^logN")
            elif und or not seen:
                c.undecided(f.full, "ring dimension not resolved")
            else:
                c.ok(f"{f.full}: ring dimension is 2^logN")


def powv(n, s, k):
    """pow/exp2 of constants."""
    if n.k == "Call" and n.q in ("pow", "std::pow", "exp2", "std::exp2"):
        it = Interp(None, inputs=lambda m, s2: I(k) if m.k == "MCall" and m.n == "getLogN" else None)
        vs = [it.ev(a, s)[0] for a in n.args]
        if all(v is not None and v[0] == "i" and v[1] == v[2] and v[1] is not None for v in vs):
            return I(vs[0][1] ** vs[1][1] if len(vs) == 2 else 2 ** vs[0][1])
    return None


def mentions(v, t):
    return v == t or (isinstance(v, tuple) and any(mentions(x, t) for x in v))


def selftest(c):
    p = prog.Program([facts.extract(os.path.join(facts.VERIF, "drivers", "c09_positive.cpp"))])
    for f in p.all:
        if not f.name.startswith(("bad", "good")):
            continue
        res = []
        analyse_fn(p, f, lambda cell, want, v: res.append(verdict(want, v)))
        if ("bad" in res) != f.name.startswith("bad") or (f.name.startswith("good") and "undecided" in res):
            raise facts.AnalysisBroken(f"C09: self test: {f.name}: {sorted(set(res))}")
        c.count("self-test examples")
