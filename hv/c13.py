"""C13: target settings and overrides take effect completely and in isolation."""
import hashlib, json, os, re, subprocess
from .cprop import Interp, I, T, flat, paths
from . import prog, facts

CT = "lib/Target/CompilationTarget/CompilationTarget.cpp"
REG = "lib/Target/CompilationTarget/RegisterAllBackends.cpp"
PASS = "lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp"
TD = "lib/Target/CompilationTarget/AllTargets.td"
DRV = os.path.join(facts.VERIF, "drivers")


def declared(td):
    """What the description declares: (class fields name -> type/default, defs name -> values), from tablegen's own dump."""
    r = subprocess.run([facts.LLVM20 + "/bin/llvm-tblgen", "-dump-json", "-I" + facts.REPO, td], capture_output=True, text=True)
    if r.returncode:
        raise facts.AnalysisBroken("target description does not parse: " + r.stderr[:300])
    j = json.loads(r.stdout)
    defs = {}
    for d in j["!instanceof"].get("CompilationTarget", []):
        defs[d] = {k: v for k, v in j[d].items() if not k.startswith("!")}
    return defs


def fields_of(defs):
    out = {}
    for d in defs.values():
        for k, v in d.items():
            out[k] = "string" if isinstance(v, str) else "int"
    return out


class World:
    """Scenario-driven evaluation: attribute casts and parses succeed or fail as the scenario says."""

    def __init__(self, P, **sc):
        self.P, self.sc = P, sc
        it = self.it = Interp(P, record=lambda e: e[0] in ("c", "a"))
        it.callhook = self.call
        self.calls = []

    def call(self, n, name, q, ov, vals, s):
        sc = self.sc
        if re.search(r"(^|::)(dyn_cast|dyn_cast_or_null|dyn_cast_if_present|cast)$", q) and vals:
            want = (n.type or "").split("::")[-1].strip(" >&*")
            if "kind" in sc and want in ("IntegerAttr", "StringAttr"):
                return (("st", (("<as " + want + ">", vals[0]),)) if sc["kind"] == want else ("fail",)), s
        if re.search(r"(^|::)isa$", q) and vals and "kind" in sc:
            want = str(n.d.get("ta") or "")
            m = re.search(r"(IntegerAttr|StringAttr)", want)
            return (I(int(m.group(1) == sc["kind"])) if m else None), s
        if name in ("getAsInteger", "consumeInteger") and "isint" in sc and n.args:
            p = self.it.place(n.args[-1], s)
            if p is not None:
                s = self.it.setp(p, T("int of", ov) if sc["isint"] else None, s)
            return I(int(not sc["isint"])), s
        if name in ("to_integer",) and "isint" in sc and len(n.args) > 1:
            p = self.it.place(n.args[1], s)
            if p is not None:
                s = self.it.setp(p, T("int of", vals[0]) if sc["isint"] else None, s)
            return I(int(sc["isint"])), s
        if name in ("emitError", "emitOpError"):
            s = self.it.event(("c", "<error>", "", ()), s)
            return ("fail",), s
        if name in ("operator LogicalResult", "operator FailureOr", "operator ParseResult"):
            return (("fail",) if "Diagnostic" in q else ov), s
        if name == "get" and q.endswith("Attr::get"):
            return T("attr", q.split("::")[-2], *vals), s
        return None

    def run(self, f, args=None, init=None):
        return self.it.run(f, args or {}, init)


def ok_fail(v):
    """'ok' / 'fail' / None of a LogicalResult-like value."""
    if v == ("fail",):
        return "fail"
    if v == T("success"):
        return "ok"
    if v is not None and v[0] in ("t", "st", "s", "e") and v[:2] != ("t", "p"):
        return "value"
    return None


def mentions(v, t):
    return v == t or (isinstance(v, tuple) and any(mentions(x, t) for x in v))


def has(v, label):
    return isinstance(v, tuple) and (len(v) > 1 and v[0] == "t" and v[1] == label or any(has(x, label) for x in v))


# -- generated code -------------------------------------------------------
def generated(P, defs, note, tag, cfile):
    flds = fields_of(defs)
    rec = next((r for q, r in P.recs.items() if q.endswith("heir::CompilationTarget")), None)
    where = f"{cfile}"
    if rec is None:
        return note("undecided", tag + "struct", where, "generated structure not found")
    have = {f.n: f for f in rec.fields}
    for k, ty in flds.items():
        f = have.get(k)
        if f is None:
            note("bad", f"{tag}field:{k}", where, f"the declared setting {k} is missing from the generated structure")
            continue
        t = f.type
        good = ("BackendName" in t) if k == "backendName" else (("string" in t) if ty == "string" else ("long" in t or "int64" in t))
        note("ok" if good else "bad", f"{tag}field:{k}", where, f"setting {k} is generated with type {t}")
    # name table
    eq = next((k for k in P.enums if k.endswith("heir::BackendName")), None)
    names = [n for n, _ in P.enums.get(eq, [])]
    for d in defs:
        note("ok" if d in names else "bad", f"{tag}name:{d}", where, f"target {d} has {'an' if d in names else 'no'} enumerator")
    to = [f for f in P.all if f.name == "toString" and f.params and "BackendName" in f.params[0].type]
    pa = [f for f in P.all if f.name == "parseBackendName"]
    if to and pa:
        from . import c06
        c06.codec(P, "BackendName", [(to[0], 0)], pa[0], lambda k, key, w, m: note(k, tag + key, w if k != "bad" else cfile, m), none="None")
        for d, vals in defs.items():
            t, _ = c06.printed(P, to[0], 0, eq, d)
            if t is not None:
                note("ok" if t == vals["backendName"] else "bad", f"{tag}text:{d}", where, f"target {d} is named {t!r}, declared {vals['backendName']!r}")
    # registration
    for d, vals in defs.items():
        fs = [f for f in P.all if f.name == "registerTarget" + d]
        if not fs:
            note("bad" if tag else "undecided", f"{tag}register:{d}", where, f"no registration is generated for {d}")
            continue
        it = Interp(P, record=lambda e: e[0] == "c", opaque=lambda f, n: f.name == "registerTarget")
        it.run(fs[0], {})
        v, st = it.run(fs[0], {})
        reg = [e for e in flat(st["tr"]) if e[0] == "c" and e[1] == "registerTarget"] if st else []
        if len(reg) != 1 or reg[0][3][0] is None or reg[0][3][0][0] != "st":
            note("undecided", f"{tag}register:{d}", where, "registered value not constant")
            continue
        got = dict(reg[0][3][0][1])
        for k, want in vals.items():
            g = got.get(k)
            if g is None and k in got or k not in got:
                note("undecided", f"{tag}register:{d}:{k}", where, "registered value not constant")
                continue
            gv = g[2] if g[0] == "e" else (g[1] if g[0] == "s" or g[0] == "i" and g[1] == g[2] else None)
            w = d if k == "backendName" else want
            note("ok" if gv == w else "bad", f"{tag}register:{d}:{k}", where, f"target {d} registers {k} = {gv!r}, declared {w!r}")
    # overrides
    ap = [f for f in P.all if f.name == "applyCompilationTargetOverride"]
    vp = [f for f in P.all if f.name == "parseCompilationTargetOverrideValue"]
    for f in ap:
        overrides(P, f, flds, note, tag, cfile)
    for f in vp:
        values(P, f, flds, note, tag, cfile)
    if not ap or not vp:
        note("undecided", f"{tag}overrides", where, "generated override code not found")


def settable(flds):
    return {k: t for k, t in flds.items() if k != "backendName"}


def overrides(P, f, flds, note, tag, where):
    ids = {p.n: i for i, p in enumerate(f.params)}
    ti = next((i for i, p in enumerate(f.params) if "CompilationTarget" in p.type), 0)
    ki = next((i for i, p in enumerate(f.params) if "StringRef" in p.type), 1)
    vi = next((i for i, p in enumerate(f.params) if p.type.endswith("Attribute")), 2)
    val = T("p", vi, f.params[vi].n)
    for key in list(settable(flds)) + ["no such key", "", "backendName"]:
        want = {"int": "IntegerAttr", "string": "StringAttr"}.get(settable(flds).get(key))
        for kind in ("IntegerAttr", "StringAttr", "other"):
            w = World(P, kind=kind)
            v, st = w.run(f, {ki: ("s", key)})
            r = ok_fail(v)
            asg = [e for e in flat(st["tr"]) if e[0] == "a"] if st else []
            k = f"{tag}override:{key}:{kind}"
            if st is None or r is None:
                note("undecided", k, where, "result not constant")
            elif want is None or kind != want:
                why = "an unknown key" if want is None else f"a value of the wrong kind for {key}"
                if r != "fail":
                    note("bad", k, where, f"{why} is accepted" + (f" and sets {asg[0][1]}" if asg else ""))
                elif asg:
                    note("bad", k, where, f"{why} is rejected after setting {asg[0][1]}")
                else:
                    note("ok", k, where, f"{why} is rejected")
            elif r == "fail":
                note("bad", k, where, f"a valid value for {key} is rejected")
            else:
                names = {e[1] for e in asg}
                if not asg:
                    note("bad", k, where, f"an override of {key} changes nothing")
                elif names != {key}:
                    note("bad", k, where, f"an override of {key} sets {', '.join(sorted(map(str, names)))}")
                elif asg[-1][2] is None:
                    note("undecided", k, where, "assigned value not resolved")
                elif not mentions(asg[-1][2], val):
                    note("bad", k, where, f"an override of {key} sets it to something other than the value given")
                else:
                    note("ok", k, where, f"{key} := the given value")


def values(P, f, flds, note, tag, where):
    srs = [i for i, p in enumerate(f.params) if "StringRef" in p.type]
    if len(srs) != 2:
        return note("undecided", f"{tag}value", where, "parameters not recognised")
    ki, vi = srs
    val = T("p", vi, f.params[vi].n)
    for key in list(settable(flds)) + ["no such key", ""]:
        ty = settable(flds).get(key)
        for isint in (True, False):
            w = World(P, isint=isint)
            v, st = w.run(f, {ki: ("s", key)})
            k = f"{tag}value:{key}:{isint}"
            r = ok_fail(v)
            if r is None:
                note("undecided", k, where, "result not constant")
            elif ty is None or (ty == "int" and not isint):
                why = "an unknown key" if ty is None else f"a non-integer value for {key}"
                note("ok" if r == "fail" else "bad", k, where, f"{why} is {'rejected' if r == 'fail' else 'accepted'}")
            elif r == "fail":
                note("bad", k, where, f"a well-formed value for {key} is rejected")
            else:
                cls = "IntegerAttr" if ty == "int" else "StringAttr"
                if not has_attr(v, cls):
                    note("bad" if has_attr(v, None) else "undecided", k, where, f"the value of {key} is not turned into a {cls}")
                elif not mentions(v, val):
                    note("bad", k, where, f"the value of {key} does not come from the text given")
                else:
                    note("ok", k, where, f"{key}: {cls} of the text given")


def has_attr(v, cls):
    return isinstance(v, tuple) and (len(v) > 2 and v[:2] == ("t", "attr") and (cls is None and v[2] not in () or v[2] == cls) or any(has_attr(x, cls) for x in v))


# -- registry and resolution ----------------------------------------------
def registry(P, note):
    for f in P.find(q="mlir::heir::CompilationTargetRegistry::registerTarget"):
        key = T(".", T("p", 0, f.params[0].n), "backendName")
        looks = [n for n in f.walk() if n.k == "MCall" and n.n in ("try_emplace", "insert", "find", "contains", "count", "lookup")]
        writes = [n for n in f.walk() if n.k == "MCall" and n.n in ("try_emplace", "insert", "emplace", "insert_or_assign") or n.k == "OpCall" and n.op == "[]"]
        if not writes:
            note("undecided", "registerTarget", f.where(), "no insertion recognised")
            continue
        res = {}
        for dup in (False, True):
            it = Interp(P, record=lambda e: e[0] == "c")

            def call(n, name, q, ov, vals, s):
                if name in ("try_emplace", "insert", "emplace"):
                    s = it.event(("c", "<insert>", name, tuple(vals)), s)
                    return ("st", (("first", T("it")), ("second", I(int(not dup))))), s
                if name in ("contains", "count"):
                    return I(int(dup)), s
                if name == "find":
                    return T("found"), s
                if name == "end":
                    return T("end"), s
                return None
            it.callhook = call
            it.cmphook = lambda op, a, b: ((op == "==") == (not dup)) if {a, b} == {T("found"), T("end")} else None
            it.bindhook = lambda v: v
            v, st = it.run(f, {})
            res[dup] = (v, st)
        dead = {d: v == ("noret",) for d, (v, st) in res.items()}
        if dead[False]:
            note("bad", "registerTarget:new", f.where(), "registering a new target never succeeds")
        elif not looks:
            note("bad", "registerTarget:dup", f.where(), "a second registration of the same name silently replaces the first")
        elif not dead[True]:
            ins = [e for e in flat(res[True][1]["tr"]) if e[0] == "c" and e[1] == "<insert>"]
            r = res[True]
            note("bad", "registerTarget:dup", f.where(), "a duplicate registration is not reported")
        else:
            note("ok", "registerTarget", f.where(), "new names are stored, duplicates are fatal")
        st = res[False][1]
        for e in flat(st["tr"]) if st else ():
            if e[0] == "c" and e[1] == "<insert>" and e[2] == "try_emplace" and len(e[3]) >= 2:
                k, t = e[3][:2]
                if k is not None and k != key and not mentions(k, key):
                    note("bad", "registerTarget:key", f.where(), "the target is stored under something other than its name")
                elif t is not None and not mentions(t, T("p", 0, f.params[0].n)):
                    note("bad", "registerTarget:value", f.where(), "what is stored is not the target given")
                elif k is not None and t is not None:
                    note("ok", "registerTarget:entry", f.where(), "name -> target")
    for f in P.find(q="mlir::heir::CompilationTargetRegistry::get"):
        for present in (True, False):
            it = Interp(P)
            nm = T("p", 0, f.params[0].n)

            def call(n, name, q, ov, vals, s):
                if name == "find" and vals:
                    return T("found", vals[-1]), s
                if name == "end":
                    return T("end"), s
                if name in ("contains", "count") and vals:
                    return I(int(present)), s
                if name in ("at",) and vals:
                    return T(".", T("found", vals[-1]), "second"), s
                return None
            it.callhook = call
            it.cmphook = lambda op, a, b: ((op == "==") == (not present)) if T("end") in (a, b) else None
            v, st = it.run(f, {})
            k = f"registry get:{present}"
            if v is None or v[0] not in ("t", "fail"):
                note("undecided", k, f.where(), "result not resolved")
            elif not present:
                note("ok" if v == ("fail",) else "bad", k, f.where(), "an unregistered name yields " + ("nothing" if v == ("fail",) else "a target"))
            elif v == ("fail",):
                note("bad", k, f.where(), "a registered target is not found")
            elif mentions(v, T("found", nm)):
                note("ok", k, f.where(), "the entry of that name")
            elif has(v, "found"):
                note("bad", k, f.where(), "the entry looked up is not the one of the name asked for")
            else:
                note("undecided", k, f.where(), f"result {v}")


ATTRS = [("st", (("<key>", ("s", "k1")), ("<val>", T("v1")))), ("st", (("<key>", ("s", "k2")), ("<val>", T("v2"))))]


class Resolve:
    """Scenario for getTargetConfig and friends."""

    def __init__(self, P, backend=True, registered=True, overrides=True, applies=(True, True), opaque=("findBackend",)):
        self.P = P
        self.sc = (backend, registered, overrides, applies)
        self.applied = []
        it = self.it = Interp(P, record=lambda e: e[0] in ("c",), opaque=lambda f, n: f.name in ("findBackend", "applyCompilationTargetOverride", "toString", "getTargetConfig", "validateCompilationTargetOverride", "persistCompilationTargetOverride", "parseCompilationTargetOverrideValue") and f.usr != self.usr)
        it.callhook = self.call
        self.usr = None

    def call(self, n, name, q, ov, vals, s):
        be, reg, ovr, ap = self.sc
        if name == "findBackend":
            return (("e", "mlir::heir::BackendName", "<b>") if be else ("fail",)), s
        if name == "get" and "CompilationTargetRegistry" in q:
            s = self.it.event(("c", "<lookup>", "", tuple(vals)), s)
            return (("st", (("<registered>", I(1)),)) if reg else ("fail",)), s
        if name in ("getAttrOfType", "getAttr") and vals and vals[-1] == ("s", "backend.config_override"):
            return (("l", tuple(ATTRS)) if ovr else ("fail",)), s
        if ov in ATTRS:
            d = dict(ov[1])
            if name == "getName":
                return d["<key>"], s
            if name == "getValue":
                return d["<val>"], s
        if name in ("strref", "getValue", "str", "getName") and ov is not None and ov[0] == "s":
            return ov, s
        if name == "applyCompilationTargetOverride":
            a0 = n.args[0]
            k = vals[1][1] if vals[1] is not None and vals[1][0] == "s" else None
            i = {"k1": 0, "k2": 1}.get(k)
            base = a0
            while base.k in ("Cast",):
                base = base.e
            shared = base.k in ("Un", "OpCall") and base.op == "*"
            pl = self.it.place(a0, s)
            self.applied.append((k, vals[2] if len(vals) > 2 else None, shared, pl))
            s = self.it.event(("c", "<apply>", k, (vals[1], vals[2] if len(vals) > 2 else None)), s)
            good = ap[i] if i is not None and i < len(ap) else ap[0]
            if good and pl is not None:
                old = self.it.getp(pl, s)
                if old is not None:
                    s = self.it.setp(pl, T("with", old, vals[1], vals[2] if len(vals) > 2 else None), s)
            return (T("success") if good else ("fail",)), s
        if name in ("emitError",):
            return ("fail",), s
        if name in ("operator LogicalResult", "operator FailureOr"):
            return (("fail",) if "Diagnostic" in q else ov), s
        return None


def resolution(P, note):
    base = ("st", (("<registered>", I(1)),))
    for f in P.find(q="mlir::heir::getTargetConfig"):
        copy_checked = False
        for be, reg, ovr, ap in [(0, 1, 1, (1, 1)), (1, 0, 1, (1, 1)), (1, 1, 0, (1, 1)), (1, 1, 1, (1, 1)), (1, 1, 1, (0, 1)), (1, 1, 1, (1, 0))]:
            w = Resolve(P, be, reg, ovr, ap); w.usr = f.usr
            v, st = w.it.run(f, {})
            k = f"getTargetConfig:{be}{reg}{ovr}{ap[0]}{ap[1]}"
            what = "no backend" if not be else "unregistered backend" if not reg else f"overrides={'present' if ovr else 'absent'} outcome={ap}"
            if not be or not reg or (ovr and 0 in ap):
                if v == ("fail",):
                    note("ok", k, f.where(), what + ": failure")
                elif v is None:
                    note("undecided", k, f.where(), "result not resolved")
                else:
                    note("bad", k, f.where(), what + ": a configuration is returned instead of a failure")
                continue
            want = base
            if ovr:
                want = T("with", T("with", base, ("s", "k1"), T("v1")), ("s", "k2"), T("v2"))
                if any(a[2] for a in w.applied):
                    note("bad", k + ":shared", f.where(), "overrides are applied to the registered target itself")
                for a in w.applied:
                    pass
            if v is None:
                note("undecided", k, f.where(), "result not resolved")
            elif v == want:
                note("ok", k, f.where(), what + ": the registered settings" + (" with each override applied" if ovr else ""))
            elif v == ("fail",):
                note("bad", k, f.where(), what + ": a valid configuration is refused")
            elif v[0] in ("t", "st") and (mentions(v, base)):
                miss = [x for x in ("k1", "k2") if ovr and not mentions(v, ("s", x))]
                note("bad", k, f.where(), what + (f": override {miss[0]} is not applied" if miss else ": the result is not the registered settings with each override applied to the result"))
            else:
                note("undecided", k, f.where(), f"result {v}")
        aliases = [d for n in f.walk() if n.k == "Decl" for d in n.v or [] if "CompilationTarget" in d.type and ("&" in d.type or d.type.endswith("*")) and "const" not in d.type]
        for d in aliases:
            note("bad", f"getTargetConfig:alias:{d.n}", f.where(), f"{d.n} refers to the registered target and may change it")
    for f in P.find(q="mlir::heir::validateCompilationTargetOverride"):
        for cfg, ap in [(0, 1), (1, 1), (1, 0)]:
            w = Resolve(P, 1, 1, 0, (ap, ap)); w.usr = f.usr
            inner = w.call

            def call(n, name, q, ov, vals, s):
                if name == "getTargetConfig":
                    return (base if cfg else ("fail",)), s
                if name in ("setAttr", "removeAttr", "setDiscardableAttr"):
                    return None, w.it.event(("c", "<mutate>", name, ()), s)
                return inner(n, name, q, ov, vals, s)
            w.it.callhook = call
            v, st = w.it.run(f, {})
            k = f"validate:{cfg}{ap}"
            r = ok_fail(v)
            if st is not None and any(e[0] == "c" and e[1] == "<mutate>" for e in flat(st["tr"])):
                note("bad", k + ":mutates", f.where(), "validation changes the module")
            if r is None:
                note("undecided", k, f.where(), "result not resolved")
            else:
                good = cfg and ap
                note("ok" if (r == "ok") == bool(good) else "bad", k, f.where(), f"configuration {'resolves' if cfg else 'does not resolve'}, override {'applies' if ap else 'does not apply'}: {'accepted' if r == 'ok' else 'rejected'}")
            kp, vp = T("p", 1, f.params[1].n), T("p", 2, f.params[2].n)
            for e in flat(st["tr"]) if st and cfg else ():
                if e[0] == "c" and e[1] == "<apply>" and None not in e[3] and e[3] != (kp, vp):
                    note("bad", k + ":args", f.where(), "what is validated is not the key and value given")
    for f in P.find(q="mlir::heir::persistCompilationTargetOverride"):
        persist(P, f, note)


def persist(P, f, note):
    new = T("new")
    for existing, key in ((ATTRS, "k1"), (ATTRS, "k2"), (ATTRS, "k3"), (None, "k1")):
        it = Interp(P, record=lambda e: e[0] == "c")

        def call(n, name, q, ov, vals, s):
            if name in ("getAttrOfType", "getAttr") and vals and vals[-1] == ("s", "backend.config_override"):
                return (("l", tuple(existing)) if existing else ("fail",)), s
            if ov in ATTRS:
                d = dict(ov[1])
                if name == "getName":
                    return d["<key>"], s
                if name == "getValue":
                    return d["<val>"], s
            if name in ("strref", "getValue", "str", "getName") and ov is not None and ov[0] == "s":
                return ov, s
            if name == "get" and q.endswith("StringAttr::get") and vals:
                return next((x for x in vals if x is not None and x[0] == "s"), None), s
            if name == "get" and q.endswith("DictionaryAttr::get") and vals:
                return next((x for x in vals if x is not None and x[0] == "l"), None), s
            if name in ("setAttr", "setDiscardableAttr") and len(vals) == 2:
                return None, it.event(("c", "<set>", "", tuple(vals)), s)
            return None
        it.callhook = call
        v, st = it.run(f, {1: ("s", key), 2: new})
        k = f"persist:{'empty' if not existing else 'filled'}:{key}"
        sets = [e for e in flat(st["tr"]) if e[0] == "c" and e[1] == "<set>"] if st else []
        if len(sets) != 1 or sets[0][3][0] is None or sets[0][3][1] is None or sets[0][3][1][0] != "l":
            if st is not None and not sets:
                note("bad", k, f.where(), "the override is not recorded")
            else:
                note("undecided", k, f.where(), "recorded dictionary not resolved")
            continue
        if sets[0][3][0] != ("s", "backend.config_override"):
            note("bad", k, f.where(), f"the override is recorded under {sets[0][3][0]}")
            continue
        got = {}
        bad = None
        for e in sets[0][3][1][1]:
            if e is None:
                bad = "?"
                break
            if e in ATTRS:
                d = dict(e[1]); kk, vv = d["<key>"][1], d["<val>"]
            elif e[0] == "t" and e[1].startswith("new") and len(e) == 4 and e[2] is not None and e[2][0] == "s":
                kk, vv = e[2][1], e[3]
            else:
                bad = "?"
                break
            if kk in got:
                bad = f"key {kk} is recorded twice"
                break
            got[kk] = vv
        want = {dict(a[1])["<key>"][1]: dict(a[1])["<val>"] for a in (existing or [])}
        want[key] = new
        if bad == "?":
            note("undecided", k, f.where(), "recorded entry not resolved")
        elif bad or got != want:
            diff = bad or next((f"{'override ' + x + ' is lost' if x not in got else 'override ' + x + ' has the wrong value'}" for x in want if got.get(x) != want[x]), "an override nobody asked for is recorded")
            note("bad", k, f.where(), f"recording {key}: {diff}")
        else:
            note("ok", k, f.where(), f"recording {key} keeps every other override")


def override_pass(P, note):
    fs = [f for f in P.all if f.rel == PASS and f.name == "runOnOperation" and not f.dep]
    for f in fs:
        cases = []
        for text, kv in (("k=v", ("k", "v")), (" k = v ", ("k", "v")), ("k=", ("k", "")), ("k=a=b", ("k", "a=b")), ("noequals", None), ("", None)):
            for pr in (1, 0):
                for va in (1, 0):
                    cases.append(([text], [kv], pr, va))
        cases.append((["a=1", "b=2"], [("a", "1"), ("b", "2")], 1, 1))
        for texts, kvs, pr, va in cases:
            it = Interp(P, record=lambda e: e[0] == "c" and e[1].startswith("<"),
                        inputs=lambda n, s: ("l", tuple(("s", t) for t in texts)) if n.k == "Mem" and n.n == "config" else None)

            def call(n, name, q, ov, vals, s):
                if name == "parseCompilationTargetOverrideValue":
                    s = it.event(("c", "<parse>", "", tuple(vals[1:3])), s)
                    return (T("value", vals[1], vals[2]) if pr else ("fail",)), s
                if name == "validateCompilationTargetOverride":
                    s = it.event(("c", "<validate>", "", tuple(vals[1:3])), s)
                    return (T("success") if va else ("fail",)), s
                if name == "persistCompilationTargetOverride":
                    return None, it.event(("c", "<persist>", "", tuple(vals[1:3])), s)
                if name == "signalPassFailure":
                    return None, it.event(("c", "<fail>", "", ()), s)
                if re.search(r"(^|::)failed$", q) and vals and vals[0] is not None and vals[0][:2] == ("t", "value"):
                    return I(0), s
                return None
            it.callhook = call
            v, st = it.run(f, {})
            k = f"override pass:{'|'.join(texts)}:{pr}{va}"
            if st is None:
                note("undecided", k, f.where(), "no result"); continue
            ps = paths(st["tr"])
            if len(set(ps)) != 1:
                note("undecided", k, f.where(), "outcome not resolved"); continue
            ev = [(e[1], e[3]) for e in ps[0]]
            if any(None in a for _, a in ev):
                note("undecided", k, f.where(), "arguments not resolved"); continue
            failed = ("<fail>", ()) in ev
            stored = [a for nme, a in ev if nme == "<persist>"]
            want = [(("s", x[0]), T("value", ("s", x[0]), ("s", x[1]))) for x in kvs if x] if pr and va and all(kvs) else []
            good = bool(want)
            if failed == good:
                note("bad", k, f.where(), f"config {texts} with value {'parsed' if pr else 'malformed'} and override {'valid' if va else 'invalid'}: " + ("rejected" if failed else "no failure is reported"))
            elif stored != want:
                note("bad", k, f.where(), f"config {texts}: recorded {len(stored)} override(s)" + (f", expected {want[0][0][1]}" if want else ", expected none"))
            elif good and any(n2 == "<persist>" and ("<validate>", a) not in ev[:i] for i, (n2, a) in enumerate(ev)):
                note("bad", k, f.where(), "an override is recorded without being validated")
            else:
                note("ok", k, f.where(), f"config {texts}: " + ("recorded" if good else "rejected"))


def register_all(P, defs, note):
    for f in P.find(q="mlir::heir::registerAllBackends"):
        it = Interp(P, record=lambda e: e[0] == "c", opaque=lambda g, n: g.name == "registerTarget")
        v, st = it.run(f, {})
        got = []
        for e in flat(st["tr"]) if st else ():
            if e[0] == "c" and e[1] == "registerTarget":
                a = e[3][0]
                b = dict(a[1]).get("backendName") if a is not None and a[0] == "st" else None
                got.append(b[2] if b is not None and b[0] == "e" else None)
        if None in got or not got:
            note("undecided", "registerAllBackends", f.where(), "registered targets not resolved")
            continue
        for d in defs:
            n = got.count(d)
            note("ok" if n == 1 else "bad", f"registerAllBackends:{d}", f.where(), f"declared target {d} is registered {n} times")


def synthetic():
    """Generates code from a description with every kind of setting and loads it."""
    td = os.path.join(DRV, "c13_synthetic.td")
    th = hashlib.sha256(open(td, "rb").read())
    import glob
    for p in sorted(glob.glob(facts.REPO + "/lib/Tablegen/*")):
        if p.endswith((".cpp", ".h")):
            th.update(open(p, "rb").read())
    facts.gen_dir()
    tg = hashlib.sha256()
    for p in sorted(glob.glob(facts.REPO + "/lib/Tablegen/*")):
        if p.endswith((".cpp", ".h")):
            tg.update(open(p, "rb").read())
    exe = facts.generator(tg.hexdigest()[:16])
    out = os.path.join(facts.CACHE, "gen-syn-" + th.hexdigest()[:16])
    os.makedirs(out, exist_ok=True)
    for opt, dst in (("struct", "synthetic_struct.inc"), ("overrides", "synthetic_overrides.inc"), ("registration", "synthetic_registration.inc")):
        r = subprocess.run([exe, "-gen-compilation-target-" + opt, td, "-o", os.path.join(out, dst)], capture_output=True, text=True)
        if r.returncode:
            return None, "generator: " + r.stderr[:200]
    d = facts.extract(os.path.join(DRV, "c13_synthetic.cpp"), ("-I" + out,), True, (out,))
    if d.get("errors"):
        return None, "generated code does not compile: " + d.get("stderr", "")[:300]
    return prog.Program([d]), None


def check(c):
    c.rule("generated code, from the tree's own target descriptions and from one with settings of every supported kind: structure, registration, name table, "
           "override and value parsing are evaluated abstractly for every declared key, an unknown key, and right, wrong and malformed values")
    c.rule("registry, resolution, validation, recording and the override pass are evaluated abstractly over every combination of outcomes of their steps")

    def note(kind, key, where, msg):
        c.count("settings obligations")
        if kind == "ok":
            c.ok(f"{key}: {msg}")
        elif kind == "bad":
            c.bad(key, where, msg)
        else:
            c.undecided(key, msg)
    defs = declared(os.path.join(facts.REPO, TD))
    P = prog.load([CT, REG], gen=("lib/Target/",))
    generated(P, defs, note, "", "lib/Tablegen/CompilationTargetEmitter.cpp")
    registry(P, note)
    resolution(P, note)
    register_all(P, defs, note)
    override_pass(prog.load([PASS]), note)
    S, why = synthetic()
    if S is None:
        note("bad", "synthetic", "lib/Tablegen/CompilationTargetEmitter.cpp", why)
    else:
        generated(S, declared(os.path.join(DRV, "c13_synthetic.td")), note, "synthetic:", "lib/Tablegen/CompilationTargetEmitter.cpp")
    c.need("settings obligations", 20)
    return c.finish("The generated C++ of the target descriptions and the hand-written registry, resolution and override code are evaluated abstractly: "
                    "constants, cast outcomes and step outcomes are enumerated, assignments and recorded values are compared with what each key names.")
