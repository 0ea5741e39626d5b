"""Conditional constant propagation with structured effect summaries.

Abstract values
  None                top
  ('i', lo, hi)       integer interval (lo/hi may be None = unbounded); booleans are 0/1
  ('e', type, name)   enumerator
  ('s', text)         string constant
  ('st', ((f, v)..))  aggregate
  ('l', (v..))        list / array
  ('fail',)           failure, nullopt, null
  ('set', frozenset)  one of several of the above
  ('t', label, ..)    symbolic term (value number)
A state maps variables and member paths to values and carries, under 'tr', a
structured summary of effects: a tuple of ('o', stream, value), ('c', name, args),
('alt', frozenset of tuples), ('loop', domain, tuple).
Nothing is executed: joins, intervals and terms over-approximate all runs."""
import re
from .flow import is_noreturn
from .prog import N

UNROLL = 160
CMP = {"==", "!=", "<", "<=", ">", ">="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def I(v):
    return ("i", v, v)


def T(label, *a):
    return ("t", label) + a


def atoms(v):
    return v[1] if v is not None and v[0] == "set" else (v,)


def joinv(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a[0] == "i" and b[0] == "i":
        return ("set", frozenset((a, b))) if a[1] == a[2] and b[1] == b[2] else ("i", _mn(a[1], b[1]), _mx(a[2], b[2]))
    s = frozenset(atoms(a)) | frozenset(atoms(b))
    if len(s) > 24:
        return None
    return ("set", s)


def _mn(a, b):
    return None if a is None or b is None else min(a, b)


def _mx(a, b):
    return None if a is None or b is None else max(a, b)


def isconst(v):
    return v is not None and (v[0] in ("e", "s", "fail") or (v[0] == "i" and v[1] is not None and v[1] == v[2]))


def truth(v):
    if v is None:
        return None
    if v[0] == "i":
        if v[1] == 0 and v[2] == 0:
            return False
        if (v[1] is not None and v[1] > 0) or (v[2] is not None and v[2] < 0):
            return True
        return None
    if v[0] == "fail":
        return False
    if v[0] == "st":
        return True
    if v[0] == "set":
        r = {truth(x) for x in v[1]}
        return r.pop() if len(r) == 1 else None
    if v[0] in ("e",):
        return None
    return None


def compare(op, a, b):
    """Truth of a op b, or None."""
    if a is None or b is None:
        return None
    if a[0] == "set" or b[0] == "set":
        r = {compare(op, x, y) for x in atoms(a) for y in atoms(b)}
        return r.pop() if len(r) == 1 else None
    if a[0] == "i" and b[0] == "i":
        al, ah, bl, bh = a[1], a[2], b[1], b[2]
        if op in ("<", ">=", ">", "<="):
            if op in (">", "<="):
                al, ah, bl, bh = bl, bh, al, ah   # a>b == b<a
            lt = None
            if ah is not None and bl is not None and ah < bl:
                lt = True
            elif al is not None and bh is not None and al >= bh:
                lt = False
            if lt is None:
                return None
            return lt if op in ("<", ">") else not lt
        if al is not None and al == ah and bl == bh and al == bl:
            return op == "=="
        if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh):
            return op == "!="
        return None
    if op in ("==", "!=") and isconst(a) and isconst(b):
        if a[0] == b[0]:
            return (a == b) == (op == "==")
        if "fail" in (a[0], b[0]):
            return op == "!="
    if op in ("==", "!=") and a[0] == "t" and a == b:
        return op == "=="
    return None


VEC = re.compile(r"^(const )?(\w+::)*(vector|SmallVector|SmallVectorImpl|deque|list)<")


# library functions that do not change the range or the objects they are given by reference
READONLY = set("""find find_if find_if_not any_of all_of none_of count count_if equal accumulate reduce distance next prev max_element min_element
is_sorted lower_bound upper_bound binary_search inner_product adjacent_find mismatch search lexicographical_compare is_contained contains
enumerate zip zip_equal zip_first zip_longest map_range make_range make_filter_range make_first_range make_second_range reverse drop_begin drop_end
begin end rbegin rend adl_begin adl_end size adl_size empty hasSingleElement hasNItems hasNItemsOrMore to_vector map_to_vector to_vector_of
filter_to_vector join interleave interleaveComma formatv fmt isa dyn_cast cast isa_and_nonnull dyn_cast_or_null cast_or_null isa_and_present
dyn_cast_if_present failed succeeded make_pair make_tuple tie pair tuple get as_const forward move ref cref addressof make_optional for_each
for_each_n early_inc make_early_inc_range concat drop_while take_front hash_combine hash_combine_range hash_value get_if holds_alternative visit
is_permutation all_equal is_sorted_constrained sum_of product_of max min minmax clamp to_string stoi make_unique make_shared make_scope_exit
make_range errs dbgs outs make_pointer_range make_pointee_range make_reverse_iterator seq back_inserter inserter front_inserter""".split())


class Interp:
    def __init__(self, P, inline=True, depth=7, opaque=(), record=None, inputs=None):
        self.P = P
        self.maxdepth = depth
        self.stack = []
        self.opaque = opaque          # predicate(fn, node) -> keep the call as an event instead of inlining
        self.record = record          # predicate(node, callee) -> record ('c', name, args)
        self.inputs = inputs or (lambda n, s: None)   # forced value of an expression
        self.cmphook = None
        self.callhook = None          # (node, name, q, object value, argument values, state) -> (value, state) or None
        self.retstack = []
        self.evals = 0
        self.forks = 0                # conditions with both outcomes possible, followed both ways
        self.ctors = []               # (node, argument values) of every construction seen

    # -- state ------------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a:
            if k == "tr":
                continue
            if k in b:
                v = joinv(a[k], b[k])
                if v is not None:
                    out[k] = v
        out["tr"] = jointr(a["tr"], b["tr"])
        return out

    # -- places -----------------------------------------------------------
    def place(self, n, s):
        if n is None:
            return None
        k = n.k
        if k == "Ref" and n.dk in ("param", "var", "bind", None) and n.d.get("id") is not None:
            al = s.get(("al", n.d["id"]))
            return al if al is not None else ("v", n.d["id"])
        if k == "Mem":
            b = self.place(n.base, s) if n.base is not None else None
            return ("m", b, n.n) if b is not None else None
        if k == "This":
            return s.get(("al", "this")) or ("this",)
        if k == "Cast":
            return self.place(n.e, s)
        if k in ("Un", "OpCall") and n.op in ("*", "->", "&"):
            a = n.a if k == "Un" else (n.args[0] if len(n.args) == 1 else None)
            return self.place(a, s)
        if k == "Call" and n.q in ("std::move", "std::forward", "std::as_const"):
            return self.place(n.args[0], s)
        return None

    def getp(self, p, s):
        if p in s:
            return s[p]
        if p[0] == "m":
            b = self.getp(p[1], s)
            if b is not None and b[0] == "st":
                return dict(b[1]).get(p[2])
            if b is not None and b[0] == "t":
                return T(".", b, p[2])
        if p == ("this",):
            return T("this")
        return None

    def setp(self, p, v, s):
        s = {k: x for k, x in s.items() if not (isinstance(k, tuple) and k != p and _under(k, p))}
        if p[0] == "m":
            b = self.getp(p[1], s)
            if b is not None and b[0] == "st":
                d = dict(b[1]); d[p[2]] = v
                return self.setp(p[1], ("st", tuple(sorted(d.items()))), s)
        if v is None:
            s.pop(p, None)
        else:
            s[p] = v
        return s

    # -- expressions ------------------------------------------------------
    def evs(self, ns, s):
        out = []
        for n in ns or []:
            v, s = self.ev(n, s)
            out.append(v)
            if s is None:
                return out, None
        return out, s

    def ev(self, n, s):
        if n is None or s is None:
            return None, s
        f = self.inputs(n, s)
        if f is not None:
            return f, s
        k = n.k
        if k == "Int":
            return I(int(n.v)), s
        if k == "Bool":
            return I(1 if n.v else 0), s
        if k == "Char":
            try:
                return I(int(n.v)), s
            except (TypeError, ValueError):
                return ("s", str(n.v)), s
        if k == "Str":
            return ("s", n.v), s
        if k == "Null":
            return ("fail",), s
        if k == "Float":
            return T("f", str(n.v)), s
        if k == "DefArg":
            if n.d.get("def") or n.e is not None:
                return self.ev(n.d["def"] if isinstance(n.d.get("def"), N) else (getattr(n, "def") or n.e), s)
            for c in n.children():
                return self.ev(c, s)
            return None, s
        if k == "Ref":
            if n.dk == "enum":
                return ("e", n.type.replace("const ", ""), n.n), s
            if (n.q or n.n or "").endswith("nullopt"):
                return ("fail",), s
            if n.dk in ("global", "other"):
                if n.d.get("cv") is not None and str(n.d["cv"]).lstrip("-").isdigit():
                    return I(int(n.d["cv"])), s
                return self.globalv(n, s), s
            p = self.place(n, s)
            if p is not None:
                v = self.getp(p, s)
                if v is None and n.d.get("cv") is not None and str(n.d["cv"]).lstrip("-").isdigit():
                    v = I(int(n.d["cv"]))
                return v, s
            return None, s
        if k == "This":
            al = s.get(("al", "this"))
            return (self.getp(al, s) if al is not None else T("this")), s
        if k == "Mem":
            p = self.place(n, s)
            if p is not None:
                v = self.getp(p, s)
                if v is not None:
                    return v, s
            b, s = self.ev(n.base, s) if n.base is not None else (None, s)
            if b is not None and b[0] == "st":
                return dict(b[1]).get(n.n), s
            if b is not None and b[0] == "t":
                return T(".", b, n.n), s
            return None, s
        if k == "Cast":
            v, s = self.ev(n.e, s)
            return self.cast(n, v), s
        if k == "Un":
            return self.unary(n, s)
        if k == "Bin":
            return self.binary(n, s)
        if k in ("Assign", "CAssign") or (k == "OpCall" and n.op == "=" and len(n.args or []) == 2):
            l, r = (n.a, n.b) if k != "OpCall" else n.args
            v, s = self.ev(r, s)
            op = n.op
            p = self.place(l, s) if s is not None else None
            if s is None:
                return None, None
            if op not in ("=", None) and k == "CAssign":
                old = self.getp(p, s) if p is not None else None
                v = self.arith(op[:-1], old, v)
            if p is not None:
                if p[0] == "m" or self.record_assign(p):
                    s = self.event(("a", _pname(p, n.a if k != "OpCall" else n.args[0]), v), s)
                s = self.setp(p, v, s)
            elif (r2 := self.assign_elem(l, v, op, s)) is not None:
                s = r2
            else:
                _, s = self.ev(l, s)
                b = l
                while b is not None and b.k in ("Idx", "OpCall", "Cast", "Mem", "Un") and self.place(b, s) is None:
                    b = b.a if b.k in ("Idx", "Un") else (b.args[0] if b.k == "OpCall" and b.args else (b.e if b.k == "Cast" else b.base))
                q = self.place(b, s) if b is not None else None
                if q is not None:
                    s = self.setp(q, None, s)
            return v, s
        if k == "Cond":
            c, s = self.ev(n.c, s)
            if s is None:
                return None, None
            t = truth(c)
            st = s if t else self.refine(n.c, True, s) if t is not False else None
            sf = s if t is False else self.refine(n.c, False, s) if t is not True else None
            va, sa = self.ev(n.a, st) if st is not None else (None, None)
            vb, sb = self.ev(n.b, sf) if sf is not None else (None, None)
            if sa is None:
                return vb, sb
            if sb is None:
                return va, sa
            self.forks += 1
            return joinv(va, vb), self.join(sa, sb)
        if k == "InitList":
            vs, s = self.evs(n.args, s)
            if len(vs) == 1 and re.fullmatch(r"(const )?(unsigned |signed )?(long long|long|int|short|char|bool|float|double)", str(n.type or "")):
                return vs[0], s
            rec = self.P.recs.get(n.d.get("cls")) if n.d.get("cls") else None
            if rec is not None and not rec.d.get("nb") and not n.d.get("nb") and len(rec.fields) >= len(vs):
                return ("st", tuple(sorted((f.n, v) for f, v in zip(rec.fields, vs)))), s
            return ("l", tuple(vs)), s
        if k in ("StdInitList", "StdInit") or (k in ("Materialize", "Bind") and n.e is not None):
            return self.ev(n.e, s)
        if k == "Ctor":
            return self.ctor(n, s)
        if k == "Lambda":
            for c in n.caps or []:
                if isinstance(c, N) and c.init is not None:
                    _, s = self.ev(c.init, s)
            return self.lam(n, s), s
        if k in ("Call", "MCall", "OpCall"):
            return self.call(n, s)
        if k == "Idx":
            a, s = self.ev(n.a, s)
            b, s = self.ev(n.b, s)
            return self.index(a, b), s
        if k == "StmtExpr" and n.body is not None:
            o = self.stmt(n.body, s)
            return None, o["next"]
        if k == "Throw":
            return None, None
        for c in n.children():
            _, s = self.ev(c, s)
            if s is None:
                return None, None
        return None, s

    # refined by ceval.Eval
    def model(self, n, name, q, ov, vals, s):
        return None

    def lam(self, n, s):
        return T("lambda", n.line)

    def assign_elem(self, l, v, op, s):
        return None

    def record_assign(self, p):
        return False

    def globalv(self, n, s):
        g = self.P.globals.get(n.q)
        if g is not None and g.init is not None and (g.d.get("const") or g.d.get("cexpr") or getattr(self, "trust_globals", False)):
            if n.q in self.stack:
                return None
            self.stack.append(n.q)
            v, _ = self.ev(g.init, {"tr": ()})
            self.stack.pop()
            return v
        return T("g", n.q)

    def index(self, a, b):
        if a is not None and a[0] == "l" and b is not None and b[0] == "i" and b[1] == b[2] and b[1] is not None:
            return a[1][b[1]] if 0 <= b[1] < len(a[1]) else None
        if a is not None and a[0] == "t":
            return T("[]", a, b)
        return None

    def cast(self, n, v):
        if v is None:
            return None
        ck = n.d.get("ck")
        if ck == "ToVoid":
            return None
        if v[0] == "e" and ck in ("IntegralCast",):
            return v
        return v

    def unary(self, n, s):
        op = n.op
        if op in ("++", "--"):
            p = self.place(n.a, s)
            old, s = self.ev(n.a, s)
            if s is None:
                return None, None
            new = self.arith("+" if op == "++" else "-", old, I(1))
            if p is not None:
                s = self.setp(p, new, s)
            return (old if n.d.get("post") else new), s
        v, s = self.ev(n.a, s)
        if op == "!":
            t = truth(v)
            return (I(0 if t else 1) if t is not None else (T("!", v) if v is not None else None)), s
        if op == "-":
            if v is not None and v[0] == "i":
                return ("i", None if v[2] is None else -v[2], None if v[1] is None else -v[1]), s
            return (T("neg", v) if v is not None else None), s
        if op in ("&", "*", "+", "__extension__"):
            return v, s
        return None, s

    def arith(self, op, a, b):
        if a is None or b is None:
            return None
        if a[0] == "set" or b[0] == "set":
            r = None; first = True
            for x in atoms(a):
                for y in atoms(b):
                    v = self.arith(op, x, y)
                    r = v if first else joinv(r, v); first = False
            return r
        if a[0] == "i" and b[0] == "i":
            (al, ah), (bl, bh) = a[1:], b[1:]
            if None in (al, ah, bl, bh):
                if op == "+":
                    return ("i", None if None in (al, bl) else al + bl, None if None in (ah, bh) else ah + bh)
                if op == "-":
                    return ("i", None if None in (al, bh) else al - bh, None if None in (ah, bl) else ah - bl)
                return None
            if op == "+":
                return ("i", al + bl, ah + bh)
            if op == "-":
                return ("i", al - bh, ah - bl)
            if op == "*":
                c = [al * bl, al * bh, ah * bl, ah * bh]
                return ("i", min(c), max(c))
            if op in ("/", "%", "<<", ">>", "&", "|", "^") and al == ah and bl == bh:
                try:
                    if op == "/":
                        q = abs(al) // abs(bl); return I(q if (al < 0) == (bl < 0) else -q)
                    if op == "%":
                        q = abs(al) % abs(bl); return I(-q if al < 0 else q)
                    return I({"<<": al << bl, ">>": al >> bl, "&": al & bl, "|": al | bl, "^": al ^ bl}[op])
                except (ZeroDivisionError, ValueError):
                    return None
            if op == "/" and bl == bh and bl > 0 and al >= 0:
                return ("i", al // bl, ah // bl)
            return None
        if op == "+" and a[0] == "s" and b[0] == "s":
            return ("s", a[1] + b[1])
        return T(op, a, b)

    def binary(self, n, s):
        op = n.op
        if op in ("&&", "||"):
            a, s = self.ev(n.a, s)
            if s is None:
                return None, None
            t = truth(a)
            if t is not None and t == (op == "||"):
                return I(int(t)), s
            cont = s if t is not None else self.refine(n.a, op == "&&", s)
            if cont is None:
                return I(int(op == "||")), s
            b, sb = self.ev(n.b, cont)
            if t is not None:
                return b, sb
            if sb is None:
                return I(int(op == "||")), self.refine(n.a, op == "||", s)
            v = None
            tb = truth(b)
            if tb is not None and tb == (op == "||") and False:
                v = I(int(tb))
            elif tb is not None and tb != (op == "&&"):
                v = I(int(tb)) if (op == "&&" and tb is False) or (op == "||" and tb is True) else None
            elif a is not None and b is not None:
                v = T(op, a, b)
            return v, self.join(s, sb)
        if op == ",":
            _, s = self.ev(n.a, s)
            return self.ev(n.b, s)
        a, s = self.ev(n.a, s)
        b, s = self.ev(n.b, s)
        if op in CMP:
            r = compare(op, a, b)
            if r is None and self.cmphook is not None:
                r = self.cmphook(op, a, b)
            if r is not None:
                return I(int(r)), s
            return (T(op, a, b) if a is not None and b is not None else None), s
        return self.arith(op, a, b), s

    def ctor(self, n, s):
        args = [a for a in n.args or [] if a.k != "DefArg"]
        vs, s = self.evs(args, s)
        if s is None:
            return None, None
        cls = n.d.get("cls") or ""
        if len(vs) > 1:
            self.ctors.append((n, vs))
        if len(vs) == 1:
            v = vs[0]
            if "StringSwitch" in cls and not n.copy and not n.move:
                return T("switch", v), s
            if v is not None and v[0] in ("e", "s", "i", "fail", "st", "l", "set"):
                if not (v[0] == "i" and "vector" in cls.lower()):
                    return v, s
            if n.copy or n.move or v is not None and v[0] == "t":
                return v, s
            return v, s
        if not vs:
            head = cls.split("<")[0].lower()
            if "string" in head or "twine" in head:
                return ("s", ""), s
            if "optional" in head or "nullopt" in head:
                return ("fail",), s
            if VEC.search(cls):
                return ("l", ()), s
            return None, s
        if "vector" in cls.lower() and len(vs) > 1 and False:
            return ("l", tuple(vs)), s
        return T("new " + cls.split("<")[0], *vs), s

    def listmethod(self, n, name, ov, vals, s):
        p = self.place(n.obj, s)
        if name == "size" and not vals:
            return I(len(ov[1])), s
        if name == "empty" and not vals:
            return I(int(not ov[1])), s
        if name in ("push_back", "emplace_back") and len(vals) == 1 and p is not None:
            return None, self.setp(p, ("l", ov[1] + (vals[0],)), s)
        if name == "front" and ov[1]:
            return ov[1][0], s
        if name == "back" and ov[1]:
            return ov[1][-1], s
        if name == "pop_back" and p is not None and ov[1]:
            return None, self.setp(p, ("l", ov[1][:-1]), s)
        if name == "clear" and p is not None:
            return None, self.setp(p, ("l", ()), s)
        if name in ("at",) and len(vals) == 1:
            return self.index(ov, vals[0]), s
        return None

    def strs(self, v):
        return v is not None and v[0] == "s"

    STREAM = ("ostream", "Diagnostic", "Twine", "InFlightDiagnostic", "stringstream", "ostringstream")

    def call(self, n, s):
        k = n.k
        op = n.op if k == "OpCall" else None
        # streaming
        if op == "<<" and any(x in (n.args[0].type or "") or x in (n.type or "") for x in self.STREAM):
            st, s = self.ev(n.args[0], s)
            v, s = self.ev(n.args[1], s)
            if s is None:
                return None, None
            root = n.args[0]
            while root is not None and root.k == "OpCall" and root.op == "<<":
                root = root.args[0]
            f = self.P.callee(n)
            a1 = n.args[1]
            if f is not None and not f.dep and len(f.params) == 2 and self.can_inline(f, n):
                return self.inline(f, n, None, list(zip(f.params, [n.args[0], n.args[1]], [st, v])), s)
            return st, self.event(("o", self.streamname(root, s), v, a1), s)
        obj = None
        ov = None
        if k == "MCall" and n.obj is not None:
            obj = n.obj
            ov, s = self.ev(obj, s)
        lamv = None
        args = [a for a in n.args or []]
        vals, s = self.evs(args, s)
        if s is None:
            return None, None
        if is_noreturn(n):
            return None, None
        q = n.q or ""
        name = n.n or q.split("::")[-1]
        if self.callhook is not None:
            r = self.callhook(n, name, q, ov, vals, s)
            if r is not None:
                return r
        r = self.model(n, name, q, ov, vals, s)
        if r is not None:
            return r
        if q == "std::get" and len(vals) == 1 and n.ta and re.match(r"\d+", str(n.ta[0])):
            k_ = int(re.match(r"\d+", n.ta[0]).group())
            if vals[0] is not None and vals[0][0] == "l" and k_ < len(vals[0][1]):
                return vals[0][1][k_], s
            return T("get" + n.ta[0], vals[0]) if vals[0] is not None else None, s
        if op in CMP and len(vals) == 2:
            r = compare(op, vals[0], vals[1])
            if r is None and self.cmphook is not None:
                r = self.cmphook(op, vals[0], vals[1])
            if r is not None:
                return I(int(r)), s
            if vals[0] is not None and vals[1] is not None:
                return T(op, vals[0], vals[1]), s
            return None, s
        if op in ("+", "-", "*", "/", "%") and len(vals) == 2:
            return self.arith(op, vals[0], vals[1]), s
        if op in ("++", "--") and n.args:
            p = self.place(n.args[0], s)
            if p is not None:
                s = self.setp(p, None, s)
            return None, s
        if op == "[]" and len(vals) == 2:
            return self.index(vals[0], vals[1]), s
        if op in ("*", "->") and len(vals) == 1:
            return vals[0], s
        if op == "!" and len(vals) == 1:
            t = truth(vals[0]); return (I(int(not t)) if t is not None else None), s
        if k == "MCall":
            if name.startswith("operator ") and not vals:
                if "bool" in name:
                    if ov is not None and ov[0] in ("e", "s", "st", "l"):
                        return I(1), s
                    if truth(ov) is not None:
                        return I(int(truth(ov))), s
                    return (T("bool", ov) if ov is not None else None), s
                return ov, s
            if self.strs(ov):
                r = self.strmethod(name, ov[1], vals)
                if r is not None:
                    return r, s
            if name in ("equals", "compare_equal") and len(vals) == 1:
                r = compare("==", ov, vals[0])
                return (I(int(r)) if r is not None else None), s
            if ov is not None and ov[0] == "l":
                r = self.listmethod(n, name, ov, vals, s)
                if r is not None:
                    return r
            if self.strs(ov) and name in ("consume_front", "consume_back") and len(vals) == 1 and self.strs(vals[0]):
                p = self.place(obj, s)
                hit = ov[1].startswith(vals[0][1]) if name == "consume_front" else ov[1].endswith(vals[0][1])
                if p is not None:
                    if hit:
                        k = len(vals[0][1])
                        s = self.setp(p, ("s", ov[1][k:] if name == "consume_front" else ov[1][:len(ov[1]) - k]), s)
                    return I(int(hit)), s
            if name in ("str", "data", "c_str", "getValue", "value", "get", "take_front_") and not vals and ov is not None and ov[0] in ("s", "e", "st"):
                return ov, s
            if name in ("Case", "Cases") and ov is not None and ov[0] == "t" and ov[1] == "switch" and len(vals) >= 2:
                return ov + tuple((x, vals[-1]) for x in vals[:-1]), s
            if name == "Default" and ov is not None and ov[0] == "t" and ov[1] == "switch":
                for kk, vv in ov[3:]:
                    r = compare("==", ov[2], kk)
                    if r is True:
                        return vv, s
                    if r is None:
                        return None, s
                return vals[0], s
        if q in ("std::move", "std::forward", "std::as_const", "std::make_optional", "llvm::cast", "mlir::cast") and vals:
            return vals[0], s
        if name in ("failure", "success") and re.search(r"(^|::)(failure|success)$", q):
            v = vals[0] if args and args[0].k not in ("DefArg", "DefaultArg") else I(1)
            t = truth(v)
            if t is not None:
                return (T("success") if t is (name == "success") else ("fail",)), s
            return (T("status", v if name == "success" else T("!", v)) if v is not None else None), s
        if q in ("llvm::failed", "mlir::failed") and vals:
            if vals[0] == ("fail",):
                return I(1), s
            if vals[0] is not None and vals[0][0] in ("e", "s", "st", "l", "i") or vals[0] == T("success"):
                return I(0), s
            if vals[0] is not None and vals[0][:2] == ("t", "status"):
                return T("!", vals[0][2]), s
            return (T("failed", vals[0]) if vals[0] is not None else None), s
        if q in ("llvm::succeeded", "mlir::succeeded") and vals:
            if vals[0] == ("fail",):
                return I(0), s
            if vals[0] == T("success"):
                return I(1), s
            if vals[0] is not None and vals[0][:2] == ("t", "status"):
                return vals[0][2], s
            return (T("!", T("failed", vals[0])) if vals[0] is not None else None), s
        f = self.P.callee(n)
        if f is not None and not f.dep and self.can_inline(f, n):
            pa = list(zip(f.params, args, vals)) if k != "OpCall" else list(zip(f.params, args[-len(f.params):] if f.params else [], vals[-len(f.params):] if f.params else []))
            return self.inline(f, n, obj, pa, s, ov)
        # unknown callee: arguments handed over by reference or address lose their value
        s = self.event(("c", name, q, tuple(vals), ov, n), s)
        for a in args:
            b = a
            if b.k == "Un" and b.op == "&":
                p = self.place(b.a, s)
                if p is not None:
                    s = self.setp(p, None, s)
            elif b.lv and b.k in ("Ref", "Mem") and k == "Call" and self.altered(n, a):
                p = self.place(b, s)
                v = self.getp(p, s) if p is not None else None
                if p is not None and (v is None or v[0] in ("l", "st", "s", "i") or v[:2] in (("t", "map"), ("t", "iter"), ("t", "graph"))):
                    s = self.setp(p, None, s)
            elif b.lv and k == "Call" and (b.k == "MCall" and b.n in ("front", "back", "at") and b.obj is not None or b.k == "OpCall" and b.op == "[]" and len(b.args or []) == 2) and self.altered(n, a):
                p = self.place(b.obj if b.k == "MCall" else b.args[0], s)       # an element of a list
                v = self.getp(p, s) if p is not None else None
                if p is not None and p != ("this",) and v is not None and v[0] in ("l", "s"):
                    s = self.setp(p, None, s)
            elif b.lv and b.k in ("Ref", "Mem") and not self.const_arg(n, a):
                p = self.place(b, s)
                v = self.getp(p, s) if p is not None else None
                if p is not None and (v is None or v[0] not in ("e", "s", "st", "t")) and b.type and "const" not in b.type and not isscalar(b.type):
                    s = self.setp(p, None, s)
        if k == "Call" and name not in READONLY:
            for a in args:      # iterators into a container the callee may write through
                b = a
                while b is not None and (b.k == "Cast" or b.k == "Ctor" and len(b.args or []) == 1):
                    b = b.e if b.k == "Cast" else b.args[0]
                o = None
                if b is not None and b.k == "Call" and (b.q or "").endswith("inserter") and b.args:
                    o = b.args[0]
                elif b is not None and b.k == "MCall" and b.n in ("begin", "end", "rbegin", "rend", "data") and (q or "").startswith(("std::", "llvm::")) and "const" not in (b.obj.type if b.obj is not None else "const"):
                    o = b.obj
                p = self.place(o, s) if o is not None else None
                if p is not None and p != ("this",) and (self.getp(p, s) is None or self.getp(p, s)[0] in ("l", "s")):
                    s = self.setp(p, None, s)
        if obj is not None and not n.cm:
            p = self.place(obj, s)
            if p is not None and p != ("this",):
                v = self.getp(p, s)
                if v is not None and v[0] in ("l", "st", "s"):
                    s = self.setp(p, None, s)
        if all(v is not None for v in vals) and (ov is not None or obj is None):
            num = [x for x in n.ta or [] if isinstance(x, str) and re.fullmatch(r"-?\d+[UL]*", x)]
            return T(name + ("<" + ",".join(num) + ">" if num else ""), *([ov] if obj is not None else []), *vals), s
        return None, s

    def altered(self, n, a):
        """True if a library function may change the argument a that it takes by reference."""
        if n.n in READONLY or not (n.q or "").startswith(("std::", "llvm::")):
            return False
        for x, m in zip(n.args or [], n.pm or []):
            if x is a or x.d is a.d:
                return m == "r"
        return False

    def const_arg(self, n, a):
        f = self.P.callee(n)
        if f is not None:
            try:
                i = n.args.index(a)
                t = f.params[i].type
                return t.startswith("const ") or "&" not in t
            except (ValueError, IndexError):
                pass
        return True

    def strmethod(self, name, t, vals):
        if name in ("str", "data", "c_str", "getValue", "trim", "ref", "strref", "toStringRef") and not vals:
            return ("s", t.strip() if name == "trim" else t)
        if name == "empty":
            return I(int(not t))
        if name in ("size", "length"):
            return I(len(t))
        if len(vals) == 1 and self.strs(vals[0]):
            o = vals[0][1]
            if name in ("starts_with", "startswith"):
                return I(int(t.startswith(o)))
            if name in ("ends_with", "endswith"):
                return I(int(t.endswith(o)))
            if name in ("equals", "equals_insensitive"):
                return I(int(t == o if name == "equals" else t.lower() == o.lower()))
            if name == "compare":
                return I((t > o) - (t < o))
            if name == "contains":
                return I(int(o in t))
        if name in ("split", "rsplit") and len(vals) == 1:
            o = vals[0][1] if self.strs(vals[0]) else (chr(vals[0][1]) if vals[0] is not None and vals[0][0] == "i" and vals[0][1] == vals[0][2] and vals[0][1] and vals[0][1] > 0 else None)
            if o:
                a, m, b = t.partition(o) if name == "split" else t.rpartition(o)
                if not m:
                    a, b = t, ""
                return ("st", (("first", ("s", a)), ("second", ("s", b))))
            return None
        if name == "contains" and len(vals) == 1 and vals[0] is not None and vals[0][0] == "i" and vals[0][1] == vals[0][2] and vals[0][1]:
            return I(int(chr(vals[0][1]) in t))
        if name in ("trim", "ltrim", "rtrim") and len(vals) == 1 and vals[0] is not None and vals[0][0] == "s":
            f = {"trim": str.strip, "ltrim": str.lstrip, "rtrim": str.rstrip}[name]
            return ("s", f(t, vals[0][1]))
        if name == "trim" and not vals:
            return ("s", t.strip())
        if name == "lower":
            return ("s", t.lower())
        if name == "upper":
            return ("s", t.upper())
        return None

    def streamname(self, root, s):
        if root is None:
            return "?"
        if root.k in ("Ref", "Mem"):
            return root.n
        if root.k in ("MCall", "Call"):
            return root.n or root.q
        return "?"

    def event(self, e, s):
        if self.record is not None and not self.record(e):
            return s
        s = dict(s)
        s["tr"] = s["tr"] + (tuple(x for x in e if not isinstance(x, N)) if not getattr(self, "keep_nodes", False) else e,)
        return s

    def can_inline(self, f, n):
        if len(self.stack) >= self.maxdepth or f.usr in self.stack:
            return False
        if self.opaque and self.opaque(f, n):
            return False
        return f.rel.startswith(("lib/", "tools/")) or "/drivers/" in f.file or "/gen-" in f.file

    def inline(self, f, n, obj, pa, s, ov=None):
        """Evaluates the callee in its own frame; by-reference parameters alias the caller's places."""
        self.stack.append(f.usr)
        saved = {}
        fs = {k: v for k, v in s.items()}
        for p, a, v in pa:
            pid = p.d["id"]
            key = ("v", pid, f.usr) if False else ("v", pid)
            saved[key] = s.get(key); saved[("al", pid)] = s.get(("al", pid))
            fs.pop(key, None); fs.pop(("al", pid), None)
            pl = self.place(a, s) if a is not None else None
            t = p.type
            if pl is not None and ("&" in t or t.endswith("*")) and pl != key:
                fs[("al", pid)] = pl
            elif v is not None:
                fs[key] = v
        tmp = None
        if obj is not None and n_is_method(f):
            saved[("al", "this")] = s.get(("al", "this"))
            pl = self.place(obj, s)
            if pl is not None:
                if pl != ("this",):
                    fs[("al", "this")] = pl
            elif ov is not None or obj.k != "This":
                tmp = ("tmp", len(self.stack))
                fs = {k: v for k, v in fs.items() if not (isinstance(k, tuple) and _under(k, tmp)) and k != tmp}
                fs[("al", "this")] = tmp
                if ov is not None:
                    fs[tmp] = ov
        self.retstack.append([])
        o = self.stmt(f.body, fs)
        rets = self.retstack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        self.stack.pop()
        if not rets:
            return None, None
        val, st = rets[0]
        for v2, s2 in rets[1:]:
            val = joinv(val, v2)
            st = self.join(st, s2)
        st = dict(st)
        for key, v in saved.items():
            if v is None:
                st.pop(key, None)
            else:
                st[key] = v
        return val, st

    # -- conditions -------------------------------------------------------
    def refine(self, c, want, s):
        """State in which condition c has the given truth; None if impossible."""
        if s is None or c is None:
            return s
        k = c.k
        if k == "Un" and c.op == "!":
            return self.refine(c.a, not want, s)
        if k == "Cast":
            return self.refine(c.e, want, s)
        if k == "Bin" and c.op in ("&&", "||"):
            if (c.op == "&&") == want:
                s = self.refine(c.a, want, s)
                return self.refine(c.b, want, s)
            a = self.refine(c.a, want, s)
            b = self.refine(c.b, want, self.refine(c.a, not want, s))
            return self.join(a, b)
        op = l = r = None
        if k == "Bin" and c.op in CMP:
            op, l, r = c.op, c.a, c.b
        elif k == "OpCall" and c.op in CMP and len(c.args) == 2:
            op, l, r = c.op, c.args[0], c.args[1]
        quiet = self.record; self.record = lambda e: False
        try:
            if op is None:
                if c.k == "MCall" and not c.cm:
                    return s
                v, _ = self.ev(c, s)
                t = truth(v)
                if t is not None and t != want:
                    return None
                return s
            a, _ = self.ev(l, s)
            b, _ = self.ev(r, s)
        finally:
            self.record = quiet
        t = compare(op, a, b)
        if t is not None:
            return s if t == want else None
        o = op if want else NEG[op]
        s = self.narrow(l, o, a, b, s)
        if s is None:
            return None
        return self.narrow(r, SWAP[o], b, a, s)

    def narrow(self, e, op, v, other, s):
        p = self.place(e, s)
        if p is None or v is None or other is None:
            return s
        if v[0] == "set":
            keep = frozenset(x for x in v[1] if compare(op, x, other) is not False)
            if not keep:
                return None
            return self.setp(p, next(iter(keep)) if len(keep) == 1 else ("set", keep), s)
        if v[0] == "i" and other[0] == "i":
            lo, hi = v[1], v[2]
            if op in ("<", "<=") and other[2] is not None:
                b = other[2] - (op == "<")
                hi = b if hi is None else min(hi, b)
            if op in (">", ">=") and other[1] is not None:
                b = other[1] + (op == ">")
                lo = b if lo is None else max(lo, b)
            if op == "==":
                if other[1] is not None:
                    lo = other[1] if lo is None else max(lo, other[1])
                if other[2] is not None:
                    hi = other[2] if hi is None else min(hi, other[2])
            if op == "!=" and other[1] == other[2] and other[1] is not None:
                if lo == other[1]:
                    lo += 1
                elif hi == other[1]:
                    hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            return self.setp(p, ("i", lo, hi), s)
        return s

    # -- statements -------------------------------------------------------
    def stmt(self, n, s):
        o = {"next": None, "break": None, "continue": None}
        if n is None or s is None:
            o["next"] = s
            if n is None or n.k not in ("Block", "Switch"):
                return o
            if s is None:
                return o
        k = n.k
        if k == "Block":
            for c in n.s or []:
                if s is None:
                    break
                r = self.stmt(c, s)
                s = r["next"]
                for x in ("break", "continue"):
                    o[x] = self.join(o[x], r[x])
            o["next"] = s
            return o
        if k == "Decl":
            for v in n.v or []:
                s = self.decl(v, s)
            o["next"] = s
            return o
        if k == "If":
            if n.init is not None:
                s = self.stmt(n.init, s)["next"]
            if n.cvar is not None:
                s = self.decl(n.cvar, s)
            v, s = self.ev(n.c, s)
            if s is None:
                return o
            t = truth(v)
            self.forks += t is None
            a = self.stmt(n.a, s if t else self.refine(n.c, True, s) if t is not False else None)
            sf = (s if t is False else self.refine(n.c, False, s)) if t is not True else None
            b = self.stmt(n.b, sf) if n.b is not None else {"next": sf, "break": None, "continue": None}
            for x in o:
                o[x] = self.join(a[x], b[x])
            return o
        if k in ("For", "While", "Do", "RFor"):
            return self.loop(n, s)
        if k == "Switch":
            if n.init is not None:
                s = self.stmt(n.init, s)["next"]
            if n.cvar is not None:
                s = self.decl(n.cvar, s)
            v, s = self.ev(n.c, s)
            return self.switch(n, v, s)
        if k == "Return":
            v = None
            if n.e is not None:
                v, s = self.ev(n.e, s)
            if s is not None and self.retstack:
                self.retstack[-1].append((v, s))
            return o
        if k == "Break":
            o["break"] = s
            return o
        if k == "Continue":
            o["continue"] = s
            return o
        if k in ("Case", "Default", "Label"):
            return self.stmt(n.s, s)
        if k == "Nop":
            o["next"] = s
            return o
        if k == "Try":
            return self.stmt(n.body, s)
        _, o["next"] = self.ev(n, s)
        return o

    def decl(self, v, s):
        if s is None:
            return None
        val = None
        if v.init is not None:
            pl = self.place(v.init, s) if "&" in v.type else None
            if pl is not None and pl != ("v", v.d["id"]):
                s = dict(s); s.pop(("v", v.d["id"]), None)
                _, s = self.ev(v.init, s)
                s = dict(s); s[("al", v.d["id"])] = pl
                return s
            val, s = self.ev(v.init, s)
            if s is None:
                return None
            if "StringSwitch" in v.type and val is not None and val[:2] != ("t", "switch"):
                val = T("switch", val)
        s = dict(s)
        s.pop(("al", v.d["id"]), None)
        s = self.setp(("v", v.d["id"]), val, s)
        return self.bind_struct(v, val, s)

    def case_val(self, x, s):
        cv = x.d.get("v")
        if isinstance(cv, (dict, N)):
            v, _ = self.ev(x.v if isinstance(x.v, N) else N(cv, x.tu), s)
            return v
        return cv

    def switch(self, n, v, s):
        o = {"next": None, "break": None, "continue": None}
        if s is None:
            return o
        body = n.body.s if n.body.k == "Block" else [n.body]
        labels = []
        for st in body or []:
            x = st
            while x is not None and x.k in ("Case", "Default"):
                if x.k == "Case":
                    labels.append(self.match(x, v, s))
                x = x.s
        cur = None
        hasdef = False
        for st in body or []:
            x = st
            while x is not None and x.k in ("Case", "Default"):
                if x.k == "Default":
                    hasdef = True
                    if not any(l is True for l in labels):
                        cur = self.join(cur, dict(s))
                else:
                    m = self.match(x, v, s)
                    if m is not False:
                        cur = self.join(cur, dict(s))
                x = x.s
            if cur is not None:
                r = self.stmt(x, cur)
                cur = r["next"]
                o["break"] = self.join(o["break"], r["break"])
                o["continue"] = self.join(o["continue"], r["continue"])
        nxt = self.join(cur, o["break"])
        if not hasdef and not any(l is True for l in labels):
            nxt = self.join(nxt, dict(s))
        o["next"] = nxt
        o["break"] = None
        return o

    def match(self, case, v, s):
        """True/False/None: does the case label match the value."""
        cv = case.v
        ce = getattr(case, "e", None)
        lab = None
        if isinstance(cv, N):
            lab, _ = self.ev(cv, s)
        elif isinstance(ce, N):
            lab, _ = self.ev(ce, s)
        elif cv is not None:
            names = case.d.get("en")
            try:
                lab = I(int(cv))
            except (TypeError, ValueError):
                lab = ("s", str(cv))
        if v is not None and lab is not None and v[0] == "e" and lab[0] == "i":
            num = self.enumnum(v)
            return None if num is None else num == lab[1]
        if v is not None and lab is not None and v[0] == "i" and lab[0] == "e":
            num = self.enumnum(lab)
            return None if num is None else compare("==", v, I(num))
        return compare("==", v, lab)

    def enumnum(self, e):
        t = e[1].split(" ")[-1]
        vals = self.P.enums.get(t)
        if vals is None:
            return e[3] if len(e) > 3 else None
        return dict(vals).get(e[2])

    def iterable(self, v):
        """What a range-for over v visits."""
        return v

    def loop(self, n, s):
        o = {"next": None, "break": None, "continue": None}
        k = n.k
        if n.init is not None:
            s = self.stmt(n.init, s)["next"]
        rng = None
        if k == "RFor":
            rng, s = self.ev(n.range, s)
            if s is None:
                return o
            rng = self.iterable(rng)
            if rng is not None and rng[0] == "l" and len(rng[1]) <= UNROLL:
                brk = None
                vp = ("v", n.var.d["id"])
                mut = "&" in (n.var.type or "") and not n.var.type.startswith("const ")
                lp = self.place(n.range, s) if mut else None
                for ix, el in enumerate(rng[1]):
                    if s is None:
                        break
                    s = dict(s); s.pop(("al", n.var.d["id"]), None)
                    s = self.setp(vp, el, s)
                    s = self.bind_struct(n.var, el, s)
                    r = self.stmt(n.body, s)
                    brk = self.join(brk, r["break"])
                    s = self.join(r["next"], r["continue"])
                    if lp is not None and s is not None and s.get(vp) != el and not n.var.d.get("bind"):
                        cur = self.getp(lp, s)      # an element was changed in place
                        s = self.setp(lp, ("l", cur[1][:ix] + (s.get(vp),) + cur[1][ix + 1:]) if cur is not None and cur[0] == "l" and len(cur[1]) > ix and brk is None else None, s)
                o["next"] = self.join(s, brk)
                return o
        else:
            r = self.try_unroll(n, s)
            if r is not None:
                return r
        # general loop: everything the body may assign becomes unknown
        head = self.havoc(n, s)
        pre = head["tr"]
        head = dict(head); head["tr"] = ()
        st = head
        ex = dict(head)
        if k == "RFor":
            st = dict(st); st.pop(("al", n.var.d["id"]), None)
            st = self.setp(("v", n.var.d["id"]), T("elem", rng) if rng is not None else None, st)
        elif n.c is not None and k != "Do":
            if n.cvar is not None:
                st = self.decl(n.cvar, st)
            _, st = self.ev(n.c, st)
            ex = self.refine(n.c, False, st) if st is not None else None
            st = self.refine(n.c, True, st) if st is not None else None
        nr = len(self.retstack[-1]) if self.retstack else 0
        r = self.stmt(n.body, st)
        end = self.join(r["next"], r["continue"])
        if n.inc is not None and end is not None:
            _, end = self.ev(n.inc, end)
        body = self.join(end, r["break"])
        dom = rng
        lp = (("loop", dom, body["tr"]),) if body is not None and body["tr"] else ()
        # a return inside the loop happens after an unknown number of iterations
        if self.retstack:
            for i in range(nr, len(self.retstack[-1])):
                v, rs = self.retstack[-1][i]
                rs = dict(rs); rs["tr"] = pre + lp + rs["tr"]
                self.retstack[-1][i] = (v, rs)
        out = self.join(ex, r["break"]) if not (n.c is not None and n.c.k == "Bool" and n.c.v) else r["break"]
        if k == "RFor" or k == "Do":
            out = self.join(self.join(ex if k == "RFor" else None, end), r["break"])
        if out is None:
            return o
        out = dict(out)
        out["tr"] = pre + lp
        for x in ():
            pass
        hv = self.havoc(n, out)
        o["next"] = hv
        return o

    def bind_struct(self, var, el, s):
        bs = var.d.get("bind")
        if not bs or s is None:
            return s
        pair = "pair<" in var.type or len(bs) == 2
        for i, b in enumerate(bs):
            v = None
            if el is not None and el[0] == "st" and len(el[1]) == len(bs):
                v = el[1][i][1]
            elif el is not None and el[0] == "l" and len(el[1]) == len(bs):
                v = el[1][i]
            elif el is not None and el[0] == "t":
                e = b.get("b") or {}
                v = T(".", el, e["n"] if e.get("k") == "Mem" else ("first", "second")[i] if pair else f"#{i}")
            s = dict(s)
            s.pop(("al", b["id"]), None)
            s = self.setp(("v", b["id"]), v, s)
        return s

    def havoc(self, n, s):
        s = dict(s)
        ids = set()
        for x in n.walk():
            t = None
            if x.k in ("Assign", "CAssign"):
                t = x.a
            elif x.k == "OpCall" and x.op and (x.op == "=" or x.op in ("+=", "-=", "*=", "|=", "++", "--")) and x.args:
                t = x.args[0]
            elif x.k == "Un" and x.op in ("++", "--", "&"):
                t = x.a
            elif x.k == "MCall" and not x.cm and x.obj is not None:
                t = x.obj
            if t is not None:
                p = self.place(t, s)
                while p is None and t is not None and t.k in ("Idx", "OpCall", "Mem", "Cast", "Un"):
                    t = t.a if t.k in ("Idx", "Un") else (t.args[0] if t.k == "OpCall" and t.args else (t.e if t.k == "Cast" else t.base))
                    p = self.place(t, s) if t is not None else None
                if p is not None and p != ("this",):
                    v = self.getp(p, s)
                    if x.k == "MCall" and v is not None and v[0] in ("t", "e"):
                        continue
                    ids.add(p)
        for p in ids:
            s = self.setp(p, None, s)
        return dict(s)

    def try_unroll(self, n, s):
        o = {"next": None, "break": None, "continue": None}
        brk = None
        nr = len(self.retstack[-1]) if self.retstack else 0
        cur = s
        first = n.k == "Do"
        for _ in range(UNROLL):
            if cur is None:
                o["next"] = brk
                return o
            if not first:
                if n.c is None:
                    break
                if n.cvar is not None:
                    cur = self.decl(n.cvar, cur)
                v, cur = self.ev(n.c, cur)
                t = truth(v)
                if t is False:
                    o["next"] = self.join(cur, brk)
                    return o
                if t is None:
                    self.forks += 1
                    break
            first = False
            r = self.stmt(n.body, cur)
            brk = self.join(brk, r["break"])
            cur = self.join(r["next"], r["continue"])
            if cur is not None and n.inc is not None:
                _, cur = self.ev(n.inc, cur)
        if self.retstack:
            del self.retstack[-1][nr:]
        return None

    # -- entry ------------------------------------------------------------
    def run(self, f, args=None, init=None):
        """(value, state) over all returns of f with parameters bound; missing parameters are symbols."""
        s = {"tr": ()}
        s.update(init or {})
        for i, p in enumerate(f.params):
            v = (args or {}).get(i)
            if v is None and (args or {}).get("sym", True):
                v = T("p", i, p.n)
            if v is not None and v != "top":
                s[("v", p.d["id"])] = v
        self.stack.append(f.usr)
        self.retstack.append([])
        for i in f.inits:
            if i.e is not None:
                v, s = self.ev(i.e, s)
                if i.f and s is not None:
                    s = self.setp(("m", ("this",), i.f), v, s)
        o = self.stmt(f.body, s)
        rets = self.retstack.pop()
        self.stack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        self.rets = rets
        if not rets:
            return ("noret",), None
        val, st = rets[0]
        for v2, s2 in rets[1:]:
            val = joinv(val, v2)
            st = self.join(st, s2)
        return val, st


def n_is_method(f):
    return bool(f.cls)


def isscalar(t):
    t = t.replace("const ", "").strip(" &")
    return t in ("int", "bool", "long", "unsigned int", "unsigned long", "double", "float", "char") or t.endswith("*")


def _under(k, p):
    while isinstance(k, tuple) and k and k[0] == "m":
        k = k[1]
        if k == p:
            return True
    return False


def _pname(p, n):
    return p[-1] if p[0] == "m" else (n.n if n is not None else None)


def jointr(a, b):
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    ra, rb = a[i:], b[i:]
    j = 0
    while j < len(ra) and j < len(rb) and ra[-1 - j] == rb[-1 - j]:
        j += 1
    suf = ra[len(ra) - j:] if j else ()
    ra, rb = ra[:len(ra) - j], rb[:len(rb) - j]
    alts = set()
    for r in (ra, rb):
        if len(r) == 1 and r[0][0] == "alt":
            alts |= r[0][1]
        else:
            alts.add(r)
    return a[:i] + (("alt", frozenset(alts)),) + suf


def paths(tr, limit=400):
    """Linearised effect sequences (loops taken once), at most `limit`."""
    out = [()]
    for e in tr:
        if e[0] == "alt":
            nxt = []
            for a in e[1]:
                for q in paths(a, limit):
                    nxt += [o + q for o in out]
            out = nxt[:limit]
        elif e[0] == "loop":
            nxt = []
            for q in paths(e[2], limit):
                nxt += [o + q for o in out]
            out = nxt[:limit]
        else:
            out = [o + (e,) for o in out]
    return out


def flat(tr):
    for e in tr:
        if e[0] == "alt":
            for a in e[1]:
                yield from flat(a)
        elif e[0] == "loop":
            yield from flat(e[2])
        else:
            yield e
