"""C14: module markers. Abstract evaluation over every set of markers a module can carry."""
import os, re
from itertools import product
from .cprop import Interp, I, T, compare, atoms
from . import prog, facts

SRC = "lib/Dialect/ModuleAttributes.cpp"
ANN = "lib/Transforms/AnnotateModule/AnnotateModule.cpp"
SCHEMES = ["bgv", "bfv", "ckks", "cggi"]
BACKENDS = ["openfhe", "lattigo"]
OTHER = ["scheme.requested_slot_count", "scheme.actual_slot_count", "backend.config_override", "unrelated"]
SET = {"setAttr", "setDiscardableAttr", "setInherentAttr"}
DEL = {"removeAttr", "removeDiscardableAttr", "removeInherentAttr"}
GET = {"getAttr", "getAttrOfType", "getDiscardableAttr"}
HAS = {"hasAttr", "hasAttrOfType", "hasDiscardableAttr"}
FAILURE = "signalPassFailure"


def text(v):
    return v[1] if v is not None and v[0] == "s" else None


class World:
    """Interprets the attribute interface of an operation; ('attr', name) -> 0 absent, 1 unit marker, 2 another value."""

    def __init__(self, P, fixed=None):
        self.P = P
        self.fixed = fixed or {}

    def interp(self):
        it = Interp(self.P, record=lambda e: e[0] == "c" and e[1] in (FAILURE,), inputs=self.inputs)
        it.callhook = self.call
        it.maxdepth = 9
        return it

    def inputs(self, n, s):
        if n.k == "Mem" and (n.base is None or n.base.k == "This" or n.base.k == "Cast") and n.n in self.fixed:
            return self.fixed[n.n]
        return None

    def call(self, n, name, q, ov, vals, s):
        if q.endswith("UnitAttr::get"):
            return ("e", "attr", "unit"), s
        if re.search(r"(StringAttr|Identifier|StringRef)::get$", q) and vals:
            return next((v for v in vals if text(v) is not None), None), s
        if name == "get" and "CompilationTargetRegistry" in q:
            return self.fixed.get("<registered>", None), s
        if q.endswith("Attr::get"):
            return ("e", "attr", "other"), s
        if n.k != "MCall" and not (n.k == "OpCall"):
            return None
        if name in SET and len(vals) == 2:
            t = text(vals[0])
            if t is None:
                return None, unknown(s)
            st = dict(s)
            st[("attr", t)] = I(1) if vals[1] == ("e", "attr", "unit") else (I(2) if vals[1] == ("e", "attr", "other") else None)
            return None, st
        if name in DEL and len(vals) == 1:
            t = text(vals[0])
            if t is None:
                return None, unknown(s)
            old = s.get(("attr", t))
            st = dict(s); st[("attr", t)] = I(0)
            return self.attrval(old), st
        if name in GET | HAS and len(vals) == 1:
            t = text(vals[0])
            if t is None:
                return None, s
            a = s.get(("attr", t))
            if a is not None and a[0] == "i" and a[1] == a[2]:
                want_unit = "UnitAttr" in (n.type or "") or "UnitAttr" in str(n.d.get("ta", ""))
                present = a[1] != 0 and not (want_unit and a[1] == 2)
                if name in HAS:
                    return I(int(present)), s
                return (("e", "attr", "unit" if a[1] == 1 else "other") if present else ("fail",)), s
            return None, s
        if name in ("getAttrs", "getAttrDictionary", "setAttrs", "getDiscardableAttrs"):
            return None, unknown(s)
        return None

    def attrval(self, a):
        if a is None or a[0] != "i" or a[1] != a[2]:
            return None
        return ("fail",) if a[1] == 0 else ("e", "attr", "unit" if a[1] == 1 else "other")


def worlds():
    names = ["scheme." + x for x in SCHEMES] + ["backend." + x for x in BACKENDS]
    for bits in product((0, 1), repeat=len(names)):
        w = dict(zip(names, bits))
        for o in OTHER:
            w[o] = 2
        yield w


def start(w):
    return {"known": I(1), **{("attr", k): I(v) for k, v in w.items()}}


def unknown(s):
    return {k: v for k, v in s.items() if k != "known"}


def final(st, w):
    """Marker map after the run, None where unknown."""
    out = {}
    for k in set(w) | {k[1] for k in st if isinstance(k, tuple) and len(k) == 2 and k[0] == "attr"}:
        v = st.get(("attr", k))
        out[k] = v[1] if v is not None and v[0] == "i" and v[1] == v[2] else None
    return out


def marker_of(name):
    x = name.lower()
    return "scheme." + x if x in SCHEMES else ("backend." + x if x in BACKENDS else None)


def run(P, f, w, fixed=None):
    it = World(P, fixed).interp()
    v, st = it.run(f, {}, start(w))
    return it, v, st


def judge_set(want, st, w):
    """'ok' | ('bad', text) | 'undecided'."""
    if st is None or not st.get("known"):
        return "undecided"
    got = final(st, w)
    wrong = [k for k in got if got[k] is not None and got[k] != want.get(k, 0)]
    if wrong:
        k = sorted(wrong)[0]
        had = sorted(x for x in w if w[x] == 1)
        state = {0: "absent", 1: "present", 2: "present with a value that is not a marker"}
        return ("bad", f"starting from {had or 'no marker'}, {k} ends up {state.get(got[k], got[k])} instead of {state.get(want.get(k, 0))}")
    if any(v is None for v in got.values()):
        return "undecided"
    return "ok"


def expect(w, scheme=None, backend=None):
    r = dict(w)
    if scheme is not None:
        for x in SCHEMES:
            r["scheme." + x] = int(x == scheme)
    if backend is not None:
        for x in BACKENDS:
            r["backend." + x] = int(x == backend)
    return r


def spec(name):
    """What a helper of this name must do: (kind, function of the initial markers)."""
    m = re.match(r"moduleIs(\w+?)(?:Or(\w+))?$", name)
    if m:
        ms = [marker_of(x) for x in m.groups() if x]
        if all(ms):
            return "query", lambda w: int(any(w[x] == 1 for x in ms))
    m = re.match(r"moduleSet(\w+)$", name)
    if m and marker_of(m.group(1)):
        x = m.group(1).lower()
        return "set", (lambda w: expect(w, scheme=x)) if x in SCHEMES else (lambda w: expect(w, backend=x))
    if name == "moduleClearScheme":
        return "set", lambda w: expect(w, scheme="")
    if name == "moduleClearBackend":
        return "set", lambda w: expect(w, backend="")
    return None


def analyse(P, fns, note):
    for f in fns:
        sp = spec(re.sub(r"^(good|bad)\d*_", "", f.name))
        if sp is None:
            continue
        kind, want = sp
        res = []
        for w in worlds():
            it, v, st = run(P, f, w)
            if kind == "query":
                if v is None or v[0] not in ("i",) or v[1] != v[2]:
                    res.append("undecided")
                    continue
                r = "ok" if v[1] == want(w) else ("bad", f"with {sorted(x for x in w if w[x] == 1) or 'no marker'} the answer is {bool(v[1])}")
                if r == "ok" and st is not None and st.get("known") and final(st, w) != {**final(start(w), w)}:
                    r = ("bad", "the query changes the module")
            else:
                r = judge_set(want(w), st, w)
            res.append(r)
        note(f, kind, res)


def check(c):
    c.rule("abstract evaluation of every marker helper from each of the 2^6 sets of markers a module can carry: a setter must end with its "
           "own marker present as a unit attribute, the other markers of its kind absent and everything else unchanged; a query must answer from its marker")
    c.rule("annotate-module, for each requested scheme and backend (valid, empty, unknown, unregistered) and each initial marker set, must end with "
           "exactly the requested markers, or signal failure")
    P = prog.load([SRC, ANN], gen=("lib/Target/",))
    seen = set()

    def note(f, kind, res):
        seen.add(re.sub(r"^(good|bad)\d*_", "", f.name))
        c.count("helpers"); c.count("states evaluated", len(res))
        report(c, f, f.name, res)
    analyse(P, [f for f in P.all if f.rel == SRC and not f.dep], note)
    for x in ["BGV", "BFV", "CKKS", "CGGI", "Openfhe", "Lattigo"]:
        for p in ("moduleSet", "moduleIs"):
            if p + x not in seen:
                c.undecided(p + x, "helper not found")
    client(c, P)
    annotate(c, P)
    c.need("helpers", 1)
    selftest(c)
    return c.finish("Every helper of ModuleAttributes.cpp and the annotate-module pass are evaluated abstractly from all 64 marker sets; "
                    "the resulting marker set (or answer) is compared with what the helper's name promises. "
                    "Attribute access is modelled by name; unmodelled access makes an obligation undecided.")


def report(c, f, key, res):
    bad = [r for r in res if isinstance(r, tuple)]
    if bad:
        c.bad(key, f.where(), f"{f.name}: {bad[0][1]} ({len(bad)} of {len(res)} initial states)")
    elif "undecided" in res:
        c.undecided(f.name, "attribute access not understood")
    else:
        c.ok(f"{f.name}: all {len(res)} marker sets")


CLIENT = ["client.enc_func", "client.dec_func", "client.pack_func", "client.enc_zero_func", "client.preprocessed_func"]


def client(c, P):
    for f in P.all:
        if f.name != "isClientHelper" or f.dep:
            continue
        res = []
        for bits in product((0, 2), repeat=len(CLIENT)):
            w = dict(zip(CLIENT, bits)); w["unrelated"] = 2; w["client.other"] = 2
            it, v, st = run(P, f, w)
            if v is None or v[0] != "i" or v[1] != v[2]:
                res.append("undecided")
            elif bool(v[1]) != any(bits):
                res.append(("bad", f"with {[x for x in CLIENT if w[x]] or 'no client marker'} the answer is {bool(v[1])}"))
            else:
                res.append("ok")
        c.count("helpers"); c.count("states evaluated", len(res))
        report(c, f, f.name, res)
        return


def annotate(c, P):
    fs = [f for f in P.all if f.rel == ANN and f.name == "runOnOperation" and not f.dep]
    for f in fs:
        for reg in (True, False):
            for sch in SCHEMES + ["", "unknown"]:
                for be in BACKENDS + ["", "unknown"]:
                    res = []
                    for w in worlds():
                        fixed = {"scheme": ("s", sch), "backend": ("s", be), "<registered>": ("st", ()) if reg else ("fail",)}
                        it, v, st = run(P, f, w, fixed)
                        res.append(judge_annotate(sch, be, reg, it, st, w))
                    c.count("pass configurations"); c.count("states evaluated", len(res))
                    report(c, f, f"annotate:{sch}:{be}:{reg}", [r if not isinstance(r, tuple) else ("bad", f"scheme={sch!r} backend={be!r}{'' if reg else ' (not registered)'}: {r[1]}") for r in res])


def judge_annotate(sch, be, reg, it, st, w):
    from .cprop import paths
    if st is None:
        return "undecided"
    fails = {any(e[0] == "c" and e[1] == FAILURE for e in p) for p in paths(st["tr"])}
    if len(fails) != 1:
        return "undecided"
    failed = fails.pop()
    invalid = sch == "unknown" or be == "unknown" or (be and not reg)
    if invalid:
        return "ok" if failed else ("bad", "the request is accepted silently")
    if failed:
        return ("bad", "a valid request is rejected")
    return judge_set(expect(w, sch or None, be or None), st, w)


def selftest(c):
    p = prog.Program([facts.extract(os.path.join(facts.VERIF, "drivers", "c14_positive.cpp"))])
    got = {}

    def note(f, kind, res):
        got[f.name] = "bad" if any(isinstance(r, tuple) for r in res) else ("undecided" if "undecided" in res else "ok")
    analyse(p, [f for f in p.all if f.name.startswith(("good", "bad"))], note)
    for n, r in got.items():
        c.count("self-test examples")
        if (r == "bad") != n.startswith("bad") or (n.startswith("good") and r != "ok"):
            raise facts.AnalysisBroken(f"C14: self test: {n}: {r}")
    if len(got) < 5:
        raise facts.AnalysisBroken("C14: self test examples not found")
