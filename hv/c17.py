"""C17: rewrites leave no dangling operation and do not fail halfway; judged on the effects of the rewrites evaluated for C16 and of the hoisting patterns."""
import itertools
from .cprop import I, T
from .rewrite import RW, REW
from .world import M
from . import prog, c16
from .c16 import KINDS, OK, FAIL

CHANGE = {"rauw", "erase", "replace", "new", "modify", "moveOpBefore", "moveOpAfter", "direct", "other"}


class Quiet:
    """Stands in for a check when only the evaluation is wanted."""
    tier = "quick"

    def __getattr__(self, k):
        return lambda *a, **kw: None


def judge(c, P, f, w, v, tr, det, text, seen, owner=None):
    name = owner or f.full.split("::")[-2]
    c.count("rewrites evaluated", 1)
    if not det:
        c.undecided(name, text); return
    bad = []
    for n, what, e in w.uses:
        bad.append(("use", f"{name} uses an operation in {what}() after erasing or replacing it"))
    ev = [e for e in tr if e[0] in CHANGE]
    if v == FAIL and ev:
        bad.append(("late", f"{name} reports failure after it has changed the program ({ev[0][0]})"))
    if v == OK and not ev:
        bad.append(("idle", f"{name} reports success without changing the program"))
    for e in ev:
        if e[0] == "direct":
            bad.append((f"direct-{e[1]}", f"{name} changes an operation with {e[1]}() behind the rewriter's back"))
    gone = {}
    for e in ev:
        if e[0] in ("erase", "replace") or e[0] == "new" and e[2] is not None:
            x = w.ent(e[2] if e[0] == "new" else e[1])
            if x is not None and x.id in gone:
                bad.append(("twice", f"{name} erases an operation twice"))
            if x is not None:
                gone[x.id] = 1
    # an erased operation's results must have no users left
    dead = [w.ent(e[1]) for e in ev if e[0] == "erase"]
    fwd = {w.ent(e[1]) for e in ev if e[0] == "rauw"}
    for x in dead:
        if x is None or x.kind != "op":
            continue
        for r in x.res:
            left = [u for u in r.users if u not in dead]
            if left and r not in fwd and x not in fwd:
                bad.append(("dangling", f"{name} erases an operation whose result is still used"))
    if not bad:
        c.ok(f"{name}: {text}"); return
    for k, msg in bad:
        key = f"{name}:{k}"
        if key not in seen:
            seen[key] = 1
            c.bad(key, f.where(), f'{msg}; program: "{text}"')


def hoists(c, P, seen):
    """Hoisting patterns keep an operation behind the values it uses."""
    fs = [f for f in P.all if f.name == "matchAndRewrite" and f.body is not None and not f.dep and f.rel.endswith("TfheRust/IR/TfheRustPatterns.cpp")]
    for f in fs:
        name = f.full.split("::")[-2]
        c.count("patterns", 1)
        sources = ["sks", "a", "outer", "outer2", "iter", "inner", "inner2"]
        for nested in (False, True):
            avail = sources if nested else ["sks", "a", "outer", "outer2"]
            for k in (1, 2, 3):
                for ops in itertools.permutations(avail, k):
                    for hoisted in (False, True):
                        if hoisted and k > 1:
                            continue
                        if hoist(c, P, f, name, nested, ops, hoisted, seen, 0):
                            hoist(c, P, f, name, nested, ops, hoisted, seen, 1)


def hoist(c, P, f, name, nested, ops, hoisted, seen, cross):
    """Evaluates one program; true if positions of different blocks were compared, whose answer is arbitrary."""
    w = RW(P, record=lambda e: e[0] in KINDS)
    w.cross = cross
    hoist1(c, P, f, name, nested, ops, hoisted, seen, w)
    return w.crossed


def hoist1(c, P, f, name, nested, ops, hoisted, seen, w):
    ty = w.int(8)
    val = {"sks": w.arg("sks", ty), "a": w.arg("a", ty), "iter": w.arg("iter", ty)}

    def mk(n):
        o = w.op(M + "heir::tfhe_rust::OtherOp", [], [(n, ty)], effects=())
        val[n] = o.res[0]
        return o
    outer, outer2, inner, inner2 = mk("outer"), mk("outer2"), mk("inner"), mk("inner2")
    cls = f.params[0].type.replace("const ", "").strip(" &").split("::")[-1]
    cls = M + "heir::tfhe_rust::" + cls
    t = w.op(cls, [val[x] for x in ops], [("t", ty)], acc=dict(hasAttr=hoisted), effects=())
    tail, tail2 = mk("tail"), mk("tail2")
    if nested:
        loop = w.op(M + "affine::AffineForOp", [], [], regions=[[inner, inner2, tail2, t]], effects=None, blockargs=[val["iter"]])
        val["iter"].d["block"] = loop.blocks[0]
        body = [outer, outer2, tail, loop]
    else:
        body = [outer, outer2, tail, t]
    fn = w.op(M + "func::FuncOp", [], [], regions=[body], effects=None, blockargs=[val["sks"], val["a"]])
    val["sks"].d["block"] = val["a"].d["block"] = fn.blocks[0]
    v, s = w.run(f, {0: t.v, 1: REW}, {})
    tr = s["tr"] if s is not None else ()
    det = v in (OK, FAIL) and not any(e[0] in ("alt", "loop") for e in tr)
    text = f"{cls.split('::')[-1]}({', '.join(ops)}){' in a loop' if nested else ''}{' already hoisted' if hoisted else ''}"
    if w.nulls and not any(e[0] in ("alt", "loop") for e in tr):
        key = f"{name}:null"
        if key not in seen:
            seen[key] = 1
            c.bad(key, f.where(), f'{name} calls {w.nulls[0][1]}() through a null pointer; program: "{text}"')
        return
    judge(c, P, f, w, v, tr, det, text, seen)
    if not det or v == FAIL:
        return
    order = {}                 # position of each operation: block, index
    for e in tr:
        if e[0] not in ("moveOpBefore", "moveOpAfter"):
            continue
        x, to = w.ent(e[1]), w.ent(e[2]) if len(e) == 3 else None
        if x is not t or to is None or to.kind != "op":
            c.undecided(name, text); return
        for opn in ops:
            d = val[opn].d.get("op")
            if d is None:
                blk = val[opn].block
                b, ok = to.d.get("block"), False
                while b is not None:
                    if b is blk:
                        ok = True
                    b = b.parent.d.get("block") if b.parent is not None else None
                if not ok and to is not t:
                    report(c, f, name, text, opn, seen); return
            elif e[0] == "moveOpAfter" and not (d is to or w.properly_before(d, to)) or e[0] == "moveOpBefore" and not (w.properly_before(d, to)):
                report(c, f, name, text, opn, seen); return
    c.ok(f"{name}: operands stay before {text}")


def report(c, f, name, text, opn, seen):
    key = f"{name}:order"
    if key not in seen:
        seen[key] = 1
        c.bad(key, f.where(), f'{name} moves the operation in front of its operand {opn}; program: "{text}"')


def check(c):
    P = prog.load()
    c.rule("in every evaluated rewrite no operation is used after it was erased or replaced, and none with used results is erased")
    c.rule("a rewrite that reports failure has made no change, one that reports success has made one, and changes go through the rewriter")
    c.rule("a hoisted operation stays behind the definitions of its operands")
    seen = {}
    pats = set()

    def obs(f, w, v, tr, det, text):
        pats.add(f.full)
        judge(c, P, f, w, v, tr, det, text, seen)
    q = Quiet()
    q.tier = c.tier
    c16.OBSERVE[0] = obs
    try:
        for g in (c16.forwards, c16.removals, c16.unused, c16.lowerings, c16.tensors):
            g(q, P, c.tier)
    finally:
        c16.OBSERVE[0] = None
    hoists(c, P, seen)
    c.count("patterns", len(pats))
    c.need("patterns", 7)
    c.need("rewrites evaluated", 1000)
    c.assume.append("a load that is replaced has users (unused loads are erased by the driver before a pattern sees them)")
    return c.finish("Every rewrite pattern in the analysed sources is evaluated over the enumerated small programs; the recorded rewriter calls, direct changes and uses are judged by the rules.")
