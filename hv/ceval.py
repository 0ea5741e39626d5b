"""Abstract evaluation of list-processing code: closures, library algorithms over known lists, format strings.

Extends cprop.Interp; everything not modelled stays unknown."""
import re
from .cprop import Interp, I, T, VEC, joinv, truth, compare, flat
from .prog import N


def conc(v):
    """The constant integer, or None."""
    return v[1] if v is not None and v[0] == "i" and v[1] is not None and v[1] == v[2] else None


def rep(t):
    """Text of a value used inside a formatted string, or None."""
    if t is None:
        return None
    if t[0] == "s":
        return t[1]
    if conc(t) is not None:
        return str(t[1])
    return None


MAPT = re.compile(r"^(const )?(\w+::)*(map|unordered_map|DenseMap|MapVector|StringMap|SmallDenseMap|SmallMapVector)<")
SETT = re.compile(r"^(const )?(\w+::)*(set|unordered_set|DenseSet|SetVector|SmallSet|SmallDenseSet|SmallSetVector|SmallPtrSet|StringSet|SmallPtrSetImpl)<")


def mval(t):
    """Mapped type of a map type is an integer?"""
    return re.search(r",\s*(bool|int|long|unsigned int|unsigned long|double|short)\s*(,|>)", t or "") is not None


class Eval(Interp):
    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.lams = []
        self.elide = False        # parameters of symbolic text allowed in strings

    def rep(self, v):
        return rep(v)

    # -- closures -----------------------------------------------------------
    def lam(self, n, s):
        for i, m in enumerate(self.lams):
            if m is n or m.d is n.d:
                return T("lambda", n.line, i)
        self.lams.append(n)
        return T("lambda", n.line, len(self.lams) - 1)

    def closure(self, v):
        return self.lams[v[3]] if v is not None and v[:2] == ("t", "lambda") and len(v) == 4 else None

    def apply(self, fv, vals, s, nodes=None):
        """Value and state of calling a closure or function value; None if it cannot be resolved."""
        n = self.closure(fv)
        if n is None:
            if fv is not None and fv[:2] == ("t", "fn"):
                return T("call", fv[2], *vals) if all(v is not None for v in vals) else None, s
            return None
        cand = [n] if not n.d.get("generic") else [x for x in (n.specs or []) if isinstance(x, N)]
        cand = [x for x in cand if x.body is not None and len(x.params or []) == len(vals)]
        if len(cand) > 1 and nodes and all(x is not None for x in nodes):
            def base(t):
                return re.sub(r"\bconst\b|&|\s", "", t or "")
            m = [x for x in cand if all(base(p.type) == base(a.type) for p, a in zip(x.params, nodes))]
            cand = m or cand
        if len(cand) != 1 or len(self.stack) >= self.maxdepth + 4 or self.stack.count(("lam", id(n.d))) > 1:
            return None
        x = cand[0]
        fs = dict(s)
        saved = {}
        for p, v in zip(x.params, vals):
            key = ("v", p.d["id"])
            saved[key] = s.get(key)
            saved[("al", p.d["id"])] = s.get(("al", p.d["id"]))
            fs.pop(("al", p.d["id"]), None)
            fs.pop(key, None)
            i = list(x.params).index(p)
            a = nodes[i] if nodes and i < len(nodes) else None
            pl = self.place(a, s) if a is not None else None
            if pl is not None and pl != key and "&" in (p.type or ""):
                fs[("al", p.d["id"])] = pl
            elif v is not None:
                fs[key] = v
        self.stack.append(("lam", id(n.d)))
        self.retstack.append([])
        o = self.stmt(x.body, fs)
        rets = self.retstack.pop()
        self.stack.pop()
        if o["next"] is not None:
            rets.append((None, o["next"]))
        if not rets:
            return None, None
        val, st = rets[0]
        for v2, s2 in rets[1:]:
            val = joinv(val, v2)
            st = self.join(st, s2)
        st = dict(st)
        for k, v in saved.items():
            if v is None:
                st.pop(k, None)
            else:
                st[k] = v
        return val, st

    # -- element assignment -------------------------------------------------
    def outofrange(self, k, n):
        pass

    def assign_elem(self, l, v, op, s):
        b = i = None
        if l.k == "OpCall" and l.op == "[]" and len(l.args or []) == 2:
            b, i = l.args
        elif l.k == "Idx":
            b, i = l.a, l.b
        elif l.k == "MCall" and l.n in ("front", "back", "at") and l.obj is not None:
            b = l.obj
        if b is None:
            return None
        p = self.place(b, s)
        if p is None:
            return None
        old = self.getp(p, s)
        if old is not None and old[:2] == ("t", "map"):
            k, s = self.ev(i if i is not None else l.args[0] if l.args else None, s)
            if op not in ("=", None):
                v = self.arith(op[:-1], self.mget(old, k, I(0)), v)
            return self.setp(p, self.mset(old, k, v), s)
        if old is None or old[0] != "l":
            return None
        if l.k == "MCall" and l.n != "at":
            k = 0 if l.n == "front" else len(old[1]) - 1
        else:
            iv, s = self.ev(i if i is not None else l.args[0], s)
            k = conc(iv)
        if k is None or not 0 <= k < len(old[1]):
            if k is not None:
                self.outofrange(k, len(old[1]))
            return self.setp(p, None, s)
        if op not in ("=", None):
            v = self.arith(op[:-1], old[1][k], v)
        return self.setp(p, ("l", old[1][:k] + (v,) + old[1][k + 1:]), s)

    def unary(self, n, s):
        if n.op in ("++", "--") and self.place(n.a, s) is None and n.a is not None and n.a.k in ("OpCall", "Idx", "MCall"):
            old, s = self.ev(n.a, s)
            if s is None:
                return None, None
            new = self.arith("+" if n.op == "++" else "-", old, I(1))
            s1 = self.assign_elem(n.a, new, "=", s)
            return (old if n.d.get("post") else new), (s if s1 is None else s1)
        return super().unary(n, s)

    # -- library ------------------------------------------------------------
    def ctor(self, n, s):
        cls = n.d.get("cls") or ""
        args = [a for a in n.args or [] if a.k != "DefArg"]
        if not args and MAPT.search(cls):
            return T("map", ()), s
        if not args and SETT.search(cls):
            return ("l", ()), s
        if VEC.search(cls) and not n.copy and not n.move and args and re.search(r"\b(int|long|unsigned|size_t|char)\b", args[0].type or "") and "initializer_list" not in (args[0].type or ""):
            vs, s = self.evs(args, s)
            k = conc(vs[0])
            if s is not None and k is not None and 0 <= k <= 256:
                return ("l", (vs[1] if len(vs) > 1 else None,) * k), s
            return None, s
        if VEC.search(cls) and len(args) == 2:
            vs, s = self.evs(args, s)
            r = self.span(*vs)
            if r is not None:
                return ("l", r), s
            return None, s
        return super().ctor(n, s)

    # -- maps and sets --------------------------------------------------------
    def samekey(self, a, b):
        if a is None or b is None:
            return None
        return True if a == b else compare("==", a, b)

    def mfind(self, items, k):
        """Index of key k, -1 if certainly absent, None if unknown."""
        unk = False
        for i, x in enumerate(items):
            e = self.samekey(x, k)
            if e is True:
                return i
            unk |= e is None
        return None if unk else -1

    def mget(self, m, k, default):
        i = self.mfind([x[0] for x in m[2]], k)
        return None if i is None else default if i < 0 else m[2][i][1]

    def mset(self, m, k, v):
        i = self.mfind([x[0] for x in m[2]], k)
        if i is None:
            return None
        return T("map", m[2] + ((k, v),) if i < 0 else m[2][:i] + ((k, v),) + m[2][i + 1:])

    def mapmethod(self, n, name, op, ov, obj, vals, s):
        p = self.place(obj, s) if obj is not None else None
        keys = [x[0] for x in ov[2]]
        if op == "[]" or name in ("at", "lookup"):
            i = self.mfind(keys, vals[0])
            if i is None:
                return None, s
            if i >= 0:
                return ov[2][i][1], s
            d = I(0) if mval((obj.type if obj is not None else "") or "") else None
            if op == "[]" and p is not None:
                s = self.setp(p, self.mset(ov, vals[0], d), s)
            return d, s
        if name in ("count", "contains") and vals:
            i = self.mfind(keys, vals[0])
            return (None if i is None else I(int(i >= 0))), s
        if name in ("clear",) and p is not None:
            return None, self.setp(p, T("map", ()), s)
        if name in ("size",):
            return I(len(keys)), s
        if name == "empty":
            return I(int(not keys)), s
        if name == "erase" and p is not None and len(vals) == 1:
            i = self.mfind(keys, vals[0])
            if i is None:
                return None, self.setp(p, None, s)
            return I(int(i >= 0)), (self.setp(p, T("map", ov[2][:i] + ov[2][i + 1:]), s) if i >= 0 else s)
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign") and p is not None:
            kv = vals
            if len(vals) == 1 and vals[0] is not None:
                kv = [x for x in vals[0][1]] if vals[0][0] == "l" else [x for _, x in vals[0][1]] if vals[0][0] == "st" else \
                    list(vals[0][2:]) if vals[0][0] == "t" and len(vals[0]) == 4 else []
            if len(kv) != 2:
                return None, self.setp(p, None, s)
            i = self.mfind(keys, kv[0])
            if i is None:
                return None, self.setp(p, None, s)
            if i < 0 or name == "insert_or_assign":
                s = self.setp(p, self.mset(ov, kv[0], kv[1]), s)
            return ("st", (("second", I(int(i < 0))),)), s
        return None

    def setmethod(self, n, name, ov, vals, s):
        p = self.place(n.obj, s)
        if name in ("insert", "emplace") and len(vals) == 1 and p is not None:
            i = self.mfind(ov[1], vals[0])
            if i is None:
                return None, self.setp(p, None, s)
            if i < 0:
                s = self.setp(p, ("l", ov[1] + (vals[0],)), s)
            return ("st", (("first", None), ("second", I(int(i < 0))))), s
        if name in ("count", "contains") and vals:
            i = self.mfind(ov[1], vals[0])
            return (None if i is None else I(int(i >= 0))), s
        if name == "clear" and p is not None:
            return None, self.setp(p, ("l", ()), s)
        if name == "erase" and p is not None and len(vals) == 1:
            i = self.mfind(ov[1], vals[0])
            if i is None:
                return None, self.setp(p, None, s)
            return I(int(i >= 0)), (self.setp(p, ("l", ov[1][:i] + ov[1][i + 1:]), s) if i >= 0 else s)
        return None

    def span(self, a, b):
        if a is not None and b is not None and a[:2] == ("t", "iter") and b[:2] == ("t", "iter") and a[2] == b[2]:
            return a[2][1][a[3]:b[3]]
        return None

    def each(self, fn, lst, s, nodes=None):
        out = []
        for el in lst:
            r = self.apply(fn, [el], s)
            if r is None:
                return None
            v, s = r
            if s is None:
                return None
            out.append(v)
        return tuple(out), s

    def model(self, n, name, q, ov, vals, s):
        op = n.op if n.k == "OpCall" else None
        args = n.args or []
        if op == "()" and vals:
            r = self.apply(vals[0], vals[1:], s, args[1:])
            if r is not None:
                return r
            return None
        if q == "std::swap" and len(vals) == 2 and None not in vals:
            s1 = s
            for a, v in zip(args, reversed(vals)):
                p = self.place(a, s1) if a.k in ("Ref", "Mem") else None
                s1 = self.setp(p, v, s1) if p is not None else self.assign_elem(a, v, "=", s1)
                if s1 is None:
                    break
            if s1 is not None:
                return None, s1
        if op in ("+=", "-=", "*=", "/=") and len(vals) == 2:
            p = self.place(args[0], s)
            v = self.arith(op[:-1], vals[0], vals[1])
            if p is not None:
                return v, self.setp(p, v, s)
            return None
        if op in ("++", "--") and args:
            p = self.place(args[0], s)
            v = vals[0]
            if p is not None and v is not None and v[:2] == ("t", "iter"):
                nv = T("iter", v[2], v[3] + (1 if op == "++" else -1))
                return (v if len(args) > 1 else nv), self.setp(p, nv, s)
            return None
        if op in ("*", "->") and len(vals) == 1 and vals[0] is not None and vals[0][:2] == ("t", "iter"):
            l, k = vals[0][2][1], vals[0][3]
            if not 0 <= k < len(l):
                self.outofrange(k, len(l))
            return (l[k] if 0 <= k < len(l) else None), s
        if op in ("+", "-") and len(vals) == 2 and vals[0] is not None and vals[0][:2] == ("t", "iter"):
            k = conc(vals[1])
            if k is not None:
                return T("iter", vals[0][2], vals[0][3] + (k if op == "+" else -k)), s
            if op == "-" and vals[1] is not None and vals[1][:2] == ("t", "iter") and vals[1][2] == vals[0][2]:
                return I(vals[0][3] - vals[1][3]), s
            return None
        if op in ("==", "!=", "<") and len(vals) == 2 and all(v is not None and v[:2] == ("t", "iter") for v in vals) and vals[0][2] == vals[1][2]:
            a, b = vals[0][3], vals[1][3]
            return I(int({"==": a == b, "!=": a != b, "<": a < b}[op])), s
        if op == "[]" and len(vals) == 2 and vals[0] is not None and vals[0][:2] == ("t", "map"):
            return self.mapmethod(n, name, op, vals[0], args[0], vals[1:], s)
        if n.k == "MCall":
            if ov is not None and ov[:2] == ("t", "map"):
                r = self.mapmethod(n, name, op, ov, n.obj, vals, s)
                if r is not None:
                    return r
            if ov is not None and ov[0] == "l" and SETT.search(re.sub(r"^const ", "", (n.obj.type if n.obj is not None else "") or "")):
                r = self.setmethod(n, name, ov, vals, s)
                if r is not None:
                    return r
            if ov is not None and ov[0] == "st" and not vals and name in dict(ov[1]):
                return dict(ov[1])[name], s
            if ov is not None and ov[0] == "l":
                l = ov[1]
                if name in ("begin", "cbegin"):
                    return T("iter", ov, 0), s
                if name in ("end", "cend"):
                    return T("iter", ov, len(l)), s
                if name in ("drop_front", "drop_back", "take_front", "take_back"):
                    k = conc(vals[0]) if vals else 1
                    if k is not None and name[0] == "t":
                        k = min(k, len(l))
                    if k is not None and k <= len(l):
                        return ("l", {"drop_front": l[k:], "drop_back": l[:len(l) - k], "take_front": l[:k], "take_back": l[len(l) - k:]}[name]), s
                    return None
                if name in ("slice",) and vals and all(conc(v) is not None for v in vals):
                    a = conc(vals[0])
                    return ("l", l[a:] if len(vals) == 1 else l[a:a + conc(vals[1])]), s
                p = self.place(n.obj, s) if n.obj is not None else None
                if name in ("append", "append_range") and p is not None:
                    add = vals[0][1] if len(vals) == 1 and vals[0] is not None and vals[0][0] == "l" else self.span(*vals) if len(vals) == 2 else None
                    return (None, self.setp(p, ("l", l + add) if add is not None else None, s))
                if name == "insert" and p is not None and len(vals) == 3 and vals[0] == T("iter", ov, len(l)):
                    add = self.span(vals[1], vals[2])
                    return None, self.setp(p, ("l", l + add) if add is not None else None, s)
                if name == "insert" and p is not None and len(vals) == 2 and vals[0] is not None and vals[0][:2] == ("t", "iter") and vals[0][2] == ov:
                    k = vals[0][3]
                    return None, self.setp(p, ("l", l[:k] + (vals[1],) + l[k:]), s)
                if name == "reserve":
                    return None, s
                if name == "resize" and p is not None:
                    k = conc(vals[0])
                    if k is None or k > 64:
                        return None, self.setp(p, None, s)
                    fill = vals[1] if len(vals) > 1 else None
                    return None, self.setp(p, ("l", (l + (fill,) * k)[:k]), s)
                if name in ("getShape", "vec", "getValue", "asArrayRef", "toVector") and not vals:
                    return ov, s
            return None
        short = q.split("::")[-1] if q else name
        if short in ("formatv", "createStringError") and vals:
            r = self.fmt(vals)
            if r is not None:
                return ("s", r), s
            return None
        if short == "to_string" and len(vals) == 1:
            r = self.rep(vals[0])
            return (("s", r) if r is not None else (T("to_string", vals[0]) if vals[0] is not None else None)), s
        l0 = vals[0][1] if vals and vals[0] is not None and vals[0][0] == "l" else None
        if q in ("llvm::map_to_vector", "llvm::map_range") and len(vals) >= 2:
            if l0 is not None:
                r = self.each(vals[1], l0, s)
                if r is not None:
                    return ("l", r[0]), r[1]
            return None
        if q in ("llvm::to_vector", "llvm::to_vector_of", "llvm::make_range", "llvm::ArrayRef", "llvm::to_address", "llvm::make_filter_range_") and l0 is not None and len(vals) == 1:
            return vals[0], s
        if q in ("llvm::enumerate",) and len(vals) == 1 and l0 is not None:
            return ("l", tuple(("st", (("index", I(i)), ("value", v))) for i, v in enumerate(l0))), s
        if q in ("llvm::zip", "llvm::zip_equal", "llvm::zip_first") and all(v is not None and v[0] == "l" for v in vals):
            return ("l", tuple(("l", t) for t in zip(*[v[1] for v in vals]))), s
        if q in ("llvm::reverse",) and l0 is not None:
            return ("l", l0[::-1]), s
        if q in ("llvm::seq", "llvm::index_range") or name == "seq":
            ks = [conc(v) for v in vals]
            if None not in ks and ks:
                a, b = (0, ks[0]) if len(ks) == 1 else ks[:2]
                if b - a <= 256:
                    return ("l", tuple(I(i) for i in range(a, b))), s
            return None
        if q == "std::reverse" and len(vals) == 2:
            r = self.span(*vals)
            p = self.place(args[0].obj, s) if args[0].k == "MCall" and args[0].n == "begin" and args[0].obj is not None else None
            if p is not None:
                return None, self.setp(p, ("l", r[::-1]) if r is not None and self.getp(p, s) == vals[0][2] and len(r) == len(vals[0][2][1]) else None, s)
            return None
        if q in ("std::next", "std::prev") and vals and vals[0] is not None and vals[0][:2] == ("t", "iter"):
            k = conc(vals[1]) if len(vals) > 1 and vals[1] is not None else 1
            if k is not None:
                return T("iter", vals[0][2], vals[0][3] + (k if q == "std::next" else -k)), s
        if q == "std::distance" and len(vals) == 2:
            r = self.span(*vals)
            return (I(len(r)) if r is not None else None), s
        if q in ("std::accumulate", "std::reduce") and len(vals) >= 3:
            r = self.span(vals[0], vals[1])
            if r is None:
                return None
            acc = vals[2]
            for el in r:
                if len(vals) == 3:
                    acc = self.arith("+", acc, el)
                    continue
                fv = vals[3]
                if self.closure(fv) is None:
                    t = (args[3].type or "")
                    o = "*" if "multiplies" in t else "+" if "plus" in t else None
                    if o is None:
                        return None
                    acc = self.arith(o, acc, el)
                    continue
                a = self.apply(fv, [acc, el], s)
                if a is None or a[1] is None:
                    return None
                acc, s = a
            return acc, s
        if q in ("llvm::accumulate", "llvm::product_of", "llvm::sum_of", "mlir::computeProduct") and l0 is not None:
            acc = vals[1] if len(vals) > 1 else I(0 if q == "llvm::sum_of" else 1)
            for el in l0:
                acc = self.arith("*" if "roduct" in q else "+", acc, el)
            return acc, s
        if q in ("std::transform",) and len(vals) == 4:
            r = self.span(vals[0], vals[1])
            if r is None:
                return None
            e = self.each(vals[3], r, s)
            if e is None:
                return None
            return self.outcopy(args[2], vals[2], e[0], e[1])
        if q in ("std::copy_if", "llvm::copy_if", "std::remove_copy_if"):
            st = q.startswith("std::")
            src = self.span(vals[0], vals[1]) if st and len(vals) == 4 else l0 if len(vals) == 3 else None
            e = self.each(vals[-1], src, s) if src is not None else None
            if e is None:
                return None
            ts = [truth(v) for v in e[0]]
            if None in ts:
                return None
            return self.outcopy(args[2 if st else 1], vals[2 if st else 1], [x for x, k in zip(src, ts) if k == ("remove" not in q)], e[1])
        if q in ("std::copy", "llvm::copy", "llvm::transform"):
            src = self.span(vals[0], vals[1]) if q == "std::copy" and len(vals) == 3 else l0
            if src is None:
                return None
            if q == "llvm::transform":
                e = self.each(vals[2], src, s) if len(vals) == 3 else None
                if e is None:
                    return None
                src, s = e
            return self.outcopy(args[2 if q == "std::copy" else 1], vals[2 if q == "std::copy" else 1], src, s)
        if q in ("llvm::for_each", "std::for_each"):
            src = self.span(vals[0], vals[1]) if q == "std::for_each" and len(vals) == 3 else l0
            if src is None:
                return None
            e = self.each(vals[-1], src, s)
            return (None, e[1]) if e is not None else None
        if q in ("llvm::all_of", "llvm::any_of", "llvm::none_of", "std::all_of", "std::any_of", "std::none_of", "llvm::count_if"):
            src = self.span(vals[0], vals[1]) if q.startswith("std::") and len(vals) == 3 else l0
            if src is None:
                return None
            ts, s1 = [], s
            for x in src:
                e = self.each(vals[-1], [x], s1)
                if e is None:
                    return None
                s1 = e[1]
                ts.append(truth(e[0][0]))
                if "count" not in q and ts[-1] is ("all_of" not in q):
                    break   # the remaining elements are not visited
            e = (ts, s1)
            if q == "llvm::count_if":
                return (I(sum(ts)) if None not in ts else None), e[1]
            if "all_of" in q:
                r = False if False in ts else None if None in ts else True
            else:
                r = True if True in ts else None if None in ts else False
                if "none_of" in q and r is not None:
                    r = not r
            return (I(int(r)) if r is not None else None), e[1]
        if q in ("llvm::is_contained",) and l0 is not None and len(vals) == 2:
            ts = [compare("==", x, vals[1]) for x in l0]
            if True in ts:
                return I(1), s
            return (I(0) if None not in ts else None), s
        if q == "llvm::join" and len(vals) == 2 and l0 is not None and vals[1] is not None and vals[1][0] == "s":
            rs = [self.rep(v) for v in l0]
            return (("s", vals[1][1].join(rs)) if None not in rs else None), s
        if short in ("divideCeilSigned", "divideCeil", "ceilDiv", "divideFloorSigned", "floorDiv") and len(vals) == 2 and all(conc(v) is not None for v in vals) and conc(vals[1]):
            a, b = conc(vals[0]), conc(vals[1])
            return I(-(-a // b) if "eil" in short else a // b), s
        if q in ("std::max", "std::min") and len(vals) == 2 and all(conc(v) is not None for v in vals):
            return I((max if q.endswith("x") else min)(conc(vals[0]), conc(vals[1]))), s
        return None

    def outcopy(self, node, val, items, s):
        """Writes items through an output iterator (back_inserter(x) or x.begin())."""
        x = node
        while x is not None and x.k in ("Cast",) or x is not None and x.k == "Ctor" and len(x.args or []) == 1:
            x = x.e if x.k == "Cast" else x.args[0]
        if x.k == "Call" and (x.q or "").endswith("back_inserter"):
            p = self.place(x.args[0], s)
            old = self.getp(p, s) if p is not None else None
            if p is not None:
                return None, self.setp(p, ("l", old[1] + tuple(items)) if old is not None and old[0] == "l" else None, s)
        if x.k == "MCall" and x.n == "begin" and x.obj is not None:
            p = self.place(x.obj, s)
            old = self.getp(p, s) if p is not None else None
            if p is not None:
                return None, self.setp(p, ("l", tuple(items) + old[1][len(items):]) if old is not None and old[0] == "l" and len(items) <= len(old[1]) else None, s)
        return None

    def fmt(self, vals):
        if vals[0] is None or vals[0][0] != "s":
            return None
        out, pos = "", 0
        text = vals[0][1]
        for m in re.finditer(r"\{\{|\{(\d+)([^}]*)\}", text):
            out += text[pos:m.start()]
            pos = m.end()
            if m.group(0) == "{{":
                out += "{"
                continue
            i = int(m.group(1)) + 1
            if i >= len(vals) or m.group(2):
                return None
            r = self.rep(vals[i])
            if r is None:
                return None
            out += r
        return out + text[pos:]
