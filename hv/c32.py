"""C32: the front-end's emitter gives each operator, cast, constant, branch and loop the IR with the same meaning."""
import ast, itertools
from .pyfront import *
from .pyprog import *
from . import mlirtext

EM = "frontend/heir/mlir_emitter.py"
SYM = {"add": "+", "sub": "-", "mul": "*", "lshift": "<<", "rshift": ">>", "and_": "&", "xor": "^", "or_": "|", "floordiv": "//", "mod": "%",
       "lt": "<", "ge": ">=", "eq": "==", "ne": "!=", "le": "<=", "gt": ">"}
OPTIONAL = ("le", "gt", "or_")                    # may be rejected
TYPES = ["i1", "i8", "i16", "i32", "i64", "f32", "f64", "tf32", "ti32"]


def mtype(t): return "tensor<?x%s>" % t[1:] if tensor(t) else t


def hook(ai, name, args, kw, node):
    if name == "fn:FunctionIR.get_assignee" or name.endswith(".get_assignee"): return (ai.build.assignee(args[-1]),)
    if name in ("numba.extending.type_callable",): return (Ext("numba.decorator"),)
    if name == "numba.decorator": return (args[0],)
    return None


def attrhook(ai, o, name, node):
    if name == "get_assignee" and isinstance(o, VObj) and o is getattr(ai.build, "f", None): return (Ext("ir.get_assignee"),)
    return None


def templates(thorough):
    """(key, source, {argument: type}, {argument: integer}, may be rejected)"""
    out = []
    kind = lambda t: "bool" if t == "i1" else "int" if isint(t) else "tensor" if tensor(t) else "float"
    for op, s in SYM.items():
        for a, b in itertools.product(TYPES, TYPES):
            if op in ("lshift", "rshift", "and_", "xor", "or_") and not (isint(a) and isint(b)): continue
            if tensor(a) != tensor(b): continue
            if op in ("floordiv", "mod") and tensor(a): continue
            if restype(op, a, b) is None: continue
            k = kind(a) if kind(a) == kind(b) else "mixed"
            out.append(("operator:%s:%s" % (op, k), "def f(a, b):\n  c = a %s b\n  return c" % s, {"a": a, "b": b}, {}, op in OPTIONAL))
        # an operand twice, and literals
        for t in ("i8", "i32", "i64"):
            out.append(("operator:%s:int" % op, "def f(a):\n  return a %s a" % s, {"a": t}, {}, op in OPTIONAL))
            for l in ("1", "5", "45", "300", "100000", "-3"):
                if op in ("lshift", "rshift"):
                    if l in ("1", "5") and t != "i1": out.append(("operator:%s:literal" % op, "def f(a):\n  return a %s %s" % (s, l), {"a": t}, {}, False))
                    continue
                for x, y in (("a", l), (l, "a")):
                    out.append(("operator:%s:literal" % op, "def f(a):\n  return %s %s %s" % (x, s, y), {"a": t}, {}, op in OPTIONAL))
        if op not in ("lshift", "rshift", "and_", "xor", "or_"):
            for x, y in (("a", "1.5"), ("0.25", "a"), ("a", "1e-05"), ("-2.5e+20", "a")):
                out.append(("operator:%s:literal" % op, "def f(a):\n  return %s %s %s" % (x, s, y), {"a": "f64"}, {}, op in OPTIONAL))
        if op not in CMP:
            for x, y in (("10", "45"), ("10", "30000"), ("300", "7"), ("-5", "100000"), ("3", "3")):
                if op in ("lshift", "rshift") and int(y) > 40: continue
                import operator
                if width(littype(getattr(operator, op)(int(x), int(y)))) < max(width(littype(int(x))), width(littype(int(y)))): continue
                out.append(("operator:%s:literals" % op, "def f(a):\n  x = %s\n  y = %s\n  z = x %s y\n  return z" % (x, y, s), {"a": "i32"}, {}, op in OPTIONAL))
    for l in ("True", "False", "0", "7", "-128", "128", "-129", "32767", "40000", "2147483648", "0.5", "-1.0", "1e-07", "1.25e+30"):
        out.append(("constant", "def f(a):\n  x = %s\n  return x" % l, {"a": "i8"}, {}, False))
    for t in TYPES[:7]:
        for u in TYPES[:7]:
            if t == u or (not isint(t) and not isint(u)): opt = True
            else: opt = False
            out.append(("cast:%s:%s" % (kind(t), kind(u)), "def f(a):\n  x = %s(a)\n  return x" % u.upper(), {"a": t}, {}, opt))
    P = lambda key, src, types, ints=None, opt=False: out.append((key, src, dict(types), ints or {}, opt))
    I = {"a": "i32", "b": "i32", "c": "i32"}
    # definitions and uses
    P("straight", "def f(a, b):\n  x = a - b\n  y = x * a\n  z = y - x\n  return z", I and {"a": "i32", "b": "i32"})
    P("straight", "def f(a, b):\n  x = a - b\n  x = x - a\n  x = b - x\n  return x", {"a": "i32", "b": "i32"})
    P("straight", "def f(a, b):\n  x = a\n  y = b\n  a = y\n  b = x\n  return a - b", {"a": "i32", "b": "i32"})
    P("straight", "def f(a, b):\n  x = (a - b) * (b - a) - (a << 2)\n  return x ^ (x >> 3)", {"a": "i16", "b": "i16"})
    P("straight", "def f(a):\n  x = I1((a >> 7) & 1)\n  return x", {"a": "i8"})
    P("straight", "def f(a, b):\n  x = a * b\n  y = x + b\n  return y", {"a": "i8", "b": "i32"})
    P("straight", "def f(a, b):\n  x = a - b\n  y = 7\n  y = x - y\n  y = y * x\n  return y", {"a": "i32", "b": "i32"})
    # branches
    B = {"c": "i1", "a": "i32", "b": "i32"}
    P("branch", "def f(c, a, b):\n  r = a * b\n  if c:\n    r = a\n  else:\n    r = b\n  return r", B)
    P("branch", "def f(c, a, b):\n  r = a * b\n  if c:\n    r = a - b\n    r = r - a\n  else:\n    r = b - a\n  return r - a", B)
    P("branch", "def f(c, a, b):\n  r = a * b\n  s = a + b\n  if c:\n    r = a\n    s = r - b\n  else:\n    r = b - s\n    s = a\n  x = r\n  return x - s", B)
    P("branch", "def f(c, a, b):\n  r = a\n  s = b\n  if c:\n    t = r\n    r = s\n    s = t\n  else:\n    r = s - r\n    s = r - s\n  return r - s", B, None, True)
    P("branch", "def f(a, b):\n  r = a\n  if a < b:\n    r = a\n  else:\n    r = b\n  return r", {"a": "i32", "b": "i32"})
    P("branch", "def f(a, b):\n  r = a\n  if a != b:\n    r = a - 1\n  else:\n    r = b * 2\n  q = r * a\n  return q - r", {"a": "i32", "b": "i32"})
    P("branch", "def f(c, a, b):\n  if c:\n    return a - b\n  else:\n    return b", B)
    P("branch", "def f(a, b):\n  if a >= b:\n    x = a - b\n    return x * a\n  else:\n    x = b - a\n    return x", {"a": "i32", "b": "i32"})
    P("branch", "def f(c, d, a, b):\n  r = a\n  if c:\n    r = a\n  else:\n    r = b\n  s = r\n  if d:\n    s = r - a\n  else:\n    s = b - r\n  return s", {"c": "i1", "d": "i1", "a": "i32", "b": "i32"}, None, True)
    P("branch", "def f(c, a, b):\n  r = a\n  if c:\n    r = a - b\n  else:\n    s = b\n  return r", B, None, True)
    # loops
    for hd in ("range(3)", "range(1, 4)", "range(1, 8, 3)", "range(0)", "range(5, 9)"):
        opt = hd.count(",") == 2
        P("loop", "def f(a, b):\n  s = a\n  for i in %s:\n    s = s - i\n  return s" % hd, {"a": "i64", "b": "i64"}, None, opt)
        P("loop", "def f(a, b):\n  s = a\n  for i in %s:\n    s = s * b\n    s = s - i\n  return s - a" % hd, {"a": "i64", "b": "i64"}, None, opt)
        P("loop", "def f(a, b):\n  s = a\n  t = b\n  for i in %s:\n    s = s - t\n    t = t * s\n  return s - t" % hd, {"a": "i64", "b": "i64"}, None, opt)
        P("loop", "def f(a, b):\n  s = a - b\n  t = b\n  u = a\n  for i in %s:\n    t = s - u\n    u = t * i\n    s = u - t\n  x = s - t\n  return x * u" % hd, {"a": "i64", "b": "i64"}, None, opt)
    for k in range(0, 4):
        P("loop", "def f(a, n):\n  s = a\n  for i in range(n):\n    s = s * a - i\n  return s", {"a": "i64", "n": "i64"}, {"n": k})
        P("loop", "def f(a, m, n):\n  s = a\n  for i in range(m, n):\n    s = s * a - i\n  return s", {"a": "i64", "m": "i64", "n": "i64"}, {"n": k, "m": 1})
        P("loop", "def f(a, n):\n  s = a\n  for i in range(n):\n    s = s * a - i\n  t = s - n\n  return t", {"a": "i64", "n": "i64"}, {"n": k}, True)
    P("loops", "def f(a, b):\n  s = a\n  for i in range(2):\n    s = s - i\n  t = s * b\n  for j in range(1, 3):\n    t = t * s - j\n  return t - s", {"a": "i64", "b": "i64"})
    P("loops", "def f(a, b):\n  s = a\n  for i in range(2):\n    s = s - i\n  for j in range(3):\n    s = s * b - j\n  return s", {"a": "i64", "b": "i64"}, None, True)
    P("loopif", "def f(c, a, b):\n  s = a\n  if c:\n    s = b\n  else:\n    s = a - b\n  t = s\n  for i in range(3):\n    t = t * s - i\n  return t", {"c": "i1", "a": "i64", "b": "i64"}, None, True)
    P("loopif", "def f(c, a, b):\n  s = a\n  for i in range(3):\n    if c:\n      s = s - i\n    else:\n      s = s * b\n  return s", {"c": "i1", "a": "i64", "b": "i64"}, None, True)
    P("nested", "def f(a, b):\n  s = a\n  for i in range(2):\n    for j in range(2):\n      s = s * b - j\n  return s", {"a": "i64", "b": "i64"}, None, True)
    # systematic combinations of updates inside branches and loops, and of straight-line assignments
    ups = ["r = s - r", "s = r - b", "r = a", "s = s * r", "t = r - s\n    r = s\n    s = t"]
    pairs = list(itertools.permutations(range(len(ups)), 2))
    for i, j in pairs:
        two = "%s\n    %s" % (ups[i], ups[j])
        P("loop", "def f(a, b):\n  r = a - b\n  s = b\n  t = a\n  for i in range(3):\n    %s\n  q = r - s\n  return q" % two, {"a": "i64", "b": "i64"}, None, True)
        for k, l in (pairs if thorough else pairs[::3]):
            if {ups[k][0], ups[l][0]} != {ups[i][0], ups[j][0]} or 4 in (i, j, k, l): continue
            P("branch", "def f(c, a, b):\n  r = a - b\n  s = b\n  if c:\n    %s\n  else:\n    %s\n    %s\n  q = r - s\n  return q * s" % (two, ups[k], ups[l]), {"c": "i1", "a": "i64", "b": "i64"}, None, True)
    st = ["x = a - b", "y = x - a", "x = y - x", "a = x * y", "b = a - 3", "y = b"]
    for q in itertools.permutations(range(len(st)), 4 if thorough else 3):
        P("straight", "def f(a, b):\n  x = b - a\n  y = a * 5\n  %s\n  return (a - b) * (x - y)" % "\n  ".join(st[i] for i in q), {"a": "i32", "b": "i32"})
    return out


def expected(src, types, ints):
    fn = ast.parse(src).body[0]
    env = {n: ((("int", ints[n]) if n in ints else ("arg", n)), types[n], None) for n in types}
    r = Meaning(types, ints).run(fn.body, env)
    return r


def retag(e):
    """tensor types inside trees as MLIR types"""
    if isinstance(e, tuple): return tuple(retag(x) for x in e)
    return mtype(e) if isinstance(e, str) and e in ("tf32", "ti32") else e


def run(src, types, direct=False):
    def go(ai):
        ai.build = b = None
        fresh = lambda: None
        b = Build(ai, src, types, direct)
        ai.build = b
        f, tm, rt = b.function()
        e = ai.call(ai.getattr(ai.module("heir.mlir_emitter"), "TextualMlirEmitter", None), [f, VList([]), tm, rt, "f"], {}, None)
        return ai.call(ai.getattr(e, "emit", None), [], {}, None)
    return go


def brief(e):
    if not isinstance(e, tuple): return str(e)
    if e[0] in ("arg", "int", "float"): return str(e[1])
    if e[0] == "val": return "%s[%s]" % (brief(e[2]), {"s": "signed", "u": "unsigned"}[e[1]])
    return "%s(%s)" % (e[0], ", ".join(brief(x) for x in e[1:]))


def topop(e):
    """operation where two trees first differ"""
    return e[0] if isinstance(e, tuple) and e else str(e)


def differ(a, b):
    """innermost pair of differing subtrees"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0]:
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) == 1: return differ(*d[0])
    return a, b


def check(c):
    c.rule("for every operator, every pair of operand types the type checker admits, literals and repeated operands: the emitted text is well-formed and well-typed, and denotes the operator on both operands in source order, "
           "each extended from its own type (bool without sign) to the operation's type; comparisons compare the operands' values")
    c.rule("for every cast, constant, branch and loop of the program templates the emitted text denotes the same value; each value is defined once, before its use and in scope")
    lst = templates(c.tier == "thorough")

    def job(i):
        key, src, types, ints, opt = lst[i]
        try: want = expected(src, types, ints)
        except Exception as e: return [("und", "template: %r" % e)]
        out = []
        ps = explore(run(src, types), limit=60, hook=hook, attrhook=attrhook, stubs=STUBS, maxfaults=0, maxiter=40)
        if "=" in src: ps += explore(run(src, types, True), limit=60, hook=hook, attrhook=attrhook, stubs=STUBS, maxfaults=0, maxiter=40)
        for p in ps:
            if p.kind == "undecided": out.append(("und", p.why + (" (%s)" % fname(p, p.node) if p.node is not None else ""))); continue
            if p.kind == "raise":
                if opt: out.append(("ok",))
                else: out.append(("bad", key + ":rejected", fname(p, p.node) if p.node is not None else EM, "is rejected with %s" % (p.value,)))
                continue
            if not isinstance(p.value, str): out.append(("und", "no text")); continue
            try:
                vals = mlirtext.Reader(p.value, {n: (("int", ints[n]) if n in ints else ("arg", n)) for n in types}).run()
            except mlirtext.Unknown as e: out.append(("und", "text: %s" % e)); continue
            except mlirtext.Ill as e:
                if opt: out.append(("ok",))
                else: out.append(("bad", key + ":ill-formed", EM, "is translated to ill-formed code: %s" % e))
                continue
            if len(vals) != 1: out.append(("bad", key + ":results", EM, "returns %d values" % len(vals))); continue
            got, w = vals[0][0], retag(want[0])
            if vals[0][1] != mtype(want[1]): out.append(("bad", key + ":type", EM, "has type %s instead of %s" % (vals[0][1], mtype(want[1]))))
            elif got != w:
                g, x = differ(got, w)
                out.append(("bad", "%s:%s" % (key, topop(g)), EM, "denotes %s instead of %s" % (brief(g)[:160], brief(x)[:160])))
            else: out.append(("ok",))
        return out
    seen = set()
    for (key, src, types, ints, opt), res in zip(lst, parallel(job, len(lst))):
        c.count("programs")
        d = "; ".join(l.strip() for l in src.split("\n")[1:]) + "  [" + ", ".join("%s: %s" % kv for kv in types.items()) + "]"
        for r in res:
            if r[0] == "ok": c.count("translations compared"); c.ok(d)
            elif r[0] == "bad": once(c, r[1], r[2], "%s %s" % (d, r[3]))
            elif (key, r[1]) not in seen:
                seen.add((key, r[1])); c.undecided(d, r[1])
    c.need("programs", 50)
    c.assume.append("numba's IR, type inference (with the repository's narrow integer rules) and control-flow graph are modelled: integers keep the wider operand type, literals their smallest type; "
                    "rejection by the IR's own parser or verifier counts as rejection")
    return c.finish("Abstract interpretation of the emitter on typed program templates; the emitted text is parsed and its meaning, as an expression tree over opaque inputs, compared with the program's")
