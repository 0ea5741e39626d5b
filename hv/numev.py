"""Number theory on fixed-width integers: the source of the helpers evaluated with exact APInt semantics, the answers
compared with the definitions (divisors, orders, inverses)."""
from . import geval, prog
from .geval import FAIL, Fault, Unknown

H = "mlir::heir::"


class AP:
    __slots__ = ("w", "v")

    def __init__(self, w, v):
        self.w, self.v = w, v & ((1 << w) - 1)

    def s(self):
        return self.v - (1 << self.w) if self.v >> (self.w - 1) else self.v

    def __eq__(self, o):
        return isinstance(o, AP) and (self.w, self.v) == (o.w, o.v)

    def __hash__(self):
        return hash((self.w, self.v))


class NumEv(geval.Ev):
    def new(self, t, zero=True):
        if geval.base(t) == "llvm::APInt" or geval.base(t) == "APInt":
            return AP(64, 0)
        return super().new(t, zero)

    def ctor(self, n, env):
        if geval.base(n.type) in ("llvm::APInt", "mlir::APInt"):
            vs = [self.val(a, env) for a in n.args or []]
            if len(vs) == 1 and isinstance(vs[0], AP):
                return vs[0]
            if not vs:
                return AP(1, 0)
            if len(vs) >= 2 and isinstance(vs[0], int) and isinstance(vs[1], int):
                if not 0 < vs[0] < 1 << 16:
                    raise Fault("an integer of no width")
                v = vs[1] & ((1 << 64) - 1)
                if len(vs) > 2 and vs[2]:
                    v = v - (1 << 64) if v >> 63 else v
                return AP(vs[0], v)
            raise Unknown("APInt constructor")
        return super().ctor(n, env)

    def loc(self, n, env):
        if n.k == "OpCall" and n.op == "[]":
            c = self.val(n.args[0], env)
            if isinstance(c, AP):
                i = self.val(n.args[1], env)
                if not 0 <= i < c.w:
                    raise Fault(f"bit {i} of {c.w}")
                return [c.v >> i & 1], 0
        return super().loc(n, env)

    def arith(self, op, a, b):
        if isinstance(a, AP) or isinstance(b, AP):
            if isinstance(a, int) and isinstance(b, AP) and op in ("+", "*", "==", "!="):
                a, b = b, a
            if isinstance(a, int) and isinstance(b, AP) and op == "-":
                return AP(b.w, a - b.v)
            if not isinstance(a, AP):
                raise Unknown(f"operator {op}")
            if op in ("<<",):
                k = b.v if isinstance(b, AP) else b
                return AP(a.w, a.v << k if k < a.w else 0)
            if op in (">>",):
                raise Unknown(op)
            if isinstance(b, AP) and b.w != a.w:
                raise Fault("an operation on integers of different widths")
            y = b.v if isinstance(b, AP) else b & ((1 << 64) - 1) if isinstance(b, int) else None
            if y is None:
                raise Unknown(f"operator {op}")
            if op in ("==", "!="):
                return int((a.v == y) == (op == "=="))
            f = {"+": a.v + y, "-": a.v - y, "*": a.v * y, "&": a.v & y, "|": a.v | y, "^": a.v ^ y}.get(op)
            if f is None:
                raise Unknown(f"operator {op}")
            return AP(a.w, f)
        return super().arith(op, a, b)

    def unary(self, n, a, op, post, env):
        if op in ("++", "--"):
            c, i = self.loc(a, env)
            if isinstance(c[i], AP):
                old = c[i]
                c[i] = AP(old.w, old.v + (1 if op == "++" else -1))
                return old if post else c[i]
        elif op in ("-", "~", "!"):
            v = self.val(a, env)
            if isinstance(v, AP):
                return AP(v.w, -v.v) if op == "-" else AP(v.w, ~v.v) if op == "~" else int(v.v == 0)
            if op == "!" and v is FAIL:
                return 1
        return super().unary(n, a, op, post, env)

    def call(self, n, env):
        sh = (n.q or n.n or "").split("::")[-1]
        if n.k == "OpCall" and n.op in ("*=", "<<=", "&=", "|=", "^=") and len(n.args) == 2:
            c, i = self.loc(n.args[0], env)
            c[i] = self.arith(n.op[:-1], c[i], self.val(n.args[1], env))
            return c[i]
        if sh == "__assert_fail":
            raise Fault("an assertion of the source fails")
        if sh in ("udivrem", "sdivrem") and len(n.args) == 4:
            a, b = self.val(n.args[0], env), self.val(n.args[1], env)
            b = AP(a.w, b) if isinstance(b, int) else b
            if b.v == 0:
                raise Fault("division by zero")
            if sh == "sdivrem":
                q = abs(a.s()) // abs(b.s()) * (1 if (a.s() < 0) == (b.s() < 0) else -1)
                r = a.s() - b.s() * q
            else:
                q, r = divmod(a.v, b.v)
            for node, v in ((n.args[2], q), (n.args[3], r)):
                c, i = self.loc(node, env)
                c[i] = AP(a.w, v) if isinstance(c[i], AP) else v
            return None
        if n.k == "Call" and sh in ("getAllOnes", "getZero", "getMaxValue", "getOneBitSet", "getSignedMaxValue", "getSignedMinValue", "getLowBitsSet"):
            vs = [self.val(a, env) for a in n.args if a.k != "DefArg"]
            w = vs[0]
            return AP(w, {"getAllOnes": -1, "getMaxValue": -1, "getZero": 0, "getOneBitSet": 1 << vs[-1], "getSignedMaxValue": (1 << (w - 1)) - 1,
                          "getSignedMinValue": 1 << (w - 1), "getLowBitsSet": (1 << vs[-1]) - 1}[sh])
        if n.k == "Call" and sh in ("gcd", "GreatestCommonDivisor") and len(n.args) == 2:
            import math
            a, b = (self.val(x, env) for x in n.args)
            return AP(a.w, math.gcd(a.v, b.v)) if isinstance(a, AP) else math.gcd(a, b)
        return super().call(n, env)

    def truth(self, v):
        return bool(v) if isinstance(v, str) else super().truth(v)

    def ev(self, n, env):
        if n is not None and n.k == "Str":
            return "text"
        return super().ev(n, env)

    def method(self, n, args, env):
        o = self.ev(n.obj, env)
        nm = n.n
        if isinstance(o, AP) and nm in ("operator bool", "has_value", "value"):
            return o if nm == "value" else 1
        if n.arrow and not isinstance(o, AP):
            o = self.deref(o)
        if isinstance(o, list) and nm == "emplace_back" and len(args) == 2 and "APInt" in (n.obj.type or ""):
            w, v = (self.val(a, env) for a in args)
            o.append(AP(w, v))
            return o[-1]
        if isinstance(o, AP) and nm in ("umul_ov", "uadd_ov", "usub_ov") and len(args) == 2:
            b = self.val(args[0], env)
            if not isinstance(b, AP) or b.w != o.w:
                raise Fault("an operation on integers of different widths")
            r = o.v * b.v if nm == "umul_ov" else o.v + b.v if nm == "uadd_ov" else o.v - b.v
            c, i = self.loc(args[1], env)
            c[i] = int(not 0 <= r < 1 << o.w)
            return AP(o.w, r)
        if isinstance(o, AP):
            vs = [self.val(a, env) for a in args if a.k != "DefArg"]
            b = vs[0] if vs else None
            if isinstance(b, AP) and b.w != o.w and nm not in ("shl", "lshr", "ashr"):
                raise Fault("an operation on integers of different widths")
            y = b.v if isinstance(b, AP) else b & ((1 << 64) - 1) if isinstance(b, int) else None
            ys = b.s() if isinstance(b, AP) else b
            cmp = {"ult": lambda: o.v < y, "ule": lambda: o.v <= y, "ugt": lambda: o.v > y, "uge": lambda: o.v >= y, "eq": lambda: o.v == y, "ne": lambda: o.v != y,
                   "slt": lambda: o.s() < ys, "sle": lambda: o.s() <= ys, "sgt": lambda: o.s() > ys, "sge": lambda: o.s() >= ys}
            if nm in cmp and len(vs) == 1:
                return int(cmp[nm]())
            if nm in ("urem", "udiv", "srem", "sdiv") and len(vs) == 1:
                if y == 0:
                    raise Fault("division by zero")
                if nm[0] == "u":
                    r = o.v % y if nm == "urem" else o.v // y
                else:
                    q = abs(o.s()) // abs(ys) * (1 if (o.s() < 0) == (ys < 0) else -1)
                    r = q if nm == "sdiv" else o.s() - ys * q
                return AP(o.w, r) if isinstance(b, AP) or nm in ("udiv", "sdiv") else r
            if nm in ("zext", "sext", "trunc", "zextOrTrunc", "sextOrTrunc", "zextOrSelf"):
                if not isinstance(b, int) or b <= 0 or nm in ("zext", "sext") and b < o.w or nm == "trunc" and b > o.w:
                    raise Fault(f"{nm} of an integer of {o.w} bits to {b}")
                return AP(b, o.s() if nm.startswith("sext") else o.v)
            if nm in ("shl", "lshr", "ashr") and y is not None:
                return AP(o.w, o.v << y if nm == "shl" else o.v >> y if nm == "lshr" else o.s() >> y)
            if nm in ("shlInPlace", "lshrInPlace", "setBit", "clearBit", "negate", "flipAllBits") and n.obj is not None:
                c, i = self.loc(n.obj, env)
                c[i] = AP(o.w, {"shlInPlace": lambda: o.v << y, "lshrInPlace": lambda: o.v >> y, "setBit": lambda: o.v | 1 << y, "clearBit": lambda: o.v & ~(1 << y),
                                "negate": lambda: -o.v, "flipAllBits": lambda: ~o.v}[nm]())
                return None
            lz = o.w - o.v.bit_length()
            tz = (o.v & -o.v).bit_length() - 1 if o.v else o.w
            r = {"getBitWidth": o.w, "getActiveBits": o.w - lz, "isZero": int(o.v == 0), "isOne": int(o.v == 1), "isNegative": o.v >> (o.w - 1), "getLimitedValue": None,
                 "isNonNegative": 1 - (o.v >> (o.w - 1)), "isStrictlyPositive": int(o.s() > 0), "countTrailingZeros": tz, "countr_zero": tz, "countLeadingZeros": lz,
                 "countl_zero": lz, "popcount": bin(o.v).count("1"), "countPopulation": bin(o.v).count("1"), "isPowerOf2": int(bin(o.v).count("1") == 1),
                 "logBase2": o.w - lz - 1, "ceilLogBase2": max(o.v - 1, 0).bit_length(), "isAllOnes": int(o.v == (1 << o.w) - 1), "getBoolValue": int(o.v != 0),
                 "isMaxValue": int(o.v == (1 << o.w) - 1)}
            if nm in r and r[nm] is not None and not vs:
                return r[nm]
            if nm == "getZExtValue" and not vs:
                if o.w - lz > 64:
                    raise Fault("more than 64 bits are read as a 64-bit integer")
                return o.v
            if nm == "getSExtValue" and not vs:
                if not -(1 << 63) <= o.s() < 1 << 63:
                    raise Fault("more than 64 bits are read as a 64-bit integer")
                return o.s()
            if nm in ("isIntN",) and isinstance(b, int):
                return int(o.v.bit_length() <= b)
            if nm in ("abs",) and not vs:
                return AP(o.w, abs(o.s()))
            raise Unknown(f"APInt::{nm}")
        return super().method(n, args, env)


def primes(n):
    return [p for p in range(2, n) if all(p % d for d in range(2, int(p ** 0.5) + 1))]


BIG_PRIMES = [(1 << 61) - 1, 18446744073709551557, 18446744069414584321, 4294967291, 4294967311, 9223372036854775783]
PSEUDO = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461,
          3317044064679887385961981, 561, 1105, 1729, 2465, 6601, 8911, 4294967297, 4294967291 * 4294967279, 65537 * 65539]


def facs(n):
    out, d = [], 2
    while d * d <= n:
        if n % d == 0:
            out.append(d)
            while n % d == 0:
                n //= d
        d += 1
    return out + ([n] if n > 1 else [])


def order_is(g, k, q, ps):
    return pow(g, k, q) == 1 % q and all(pow(g, k // p, q) != 1 for p in ps)


class Num:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.ev = NumEv(P, 3000000)
        self.dead = set()

    def fn(self, name, k):
        fs = [f for f in self.P.all if f.full.split("(")[0] == H + name and f.body is not None and not f.dep and len(f.params) == k]
        return fs[0] if len(fs) == 1 else None

    def run(self, name, args, judge, txt):
        """judge(result) -> message or None."""
        if name in self.dead:
            return
        f = self.fn(name, len(args))
        if f is None:
            self.c.undecided(name, "not found"); self.dead.add(name); return
        self.ev.steps = 0
        self.ev.depth = 0
        try:
            import re
            m = judge(self.ev.callfn(f, [x & 0xffffffff if isinstance(x, int) and re.search(r"uint32_t|unsigned int", p.type or "") else x for x, p in zip(args, f.params)]))
        except Unknown as x:
            self.c.undecided(name, str(x)); self.dead.add(name); return
        except Fault as x:
            m = str(x)
        except (geval._Sig, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError, MemoryError) as x:
            self.c.undecided(name, f"{type(x).__name__} {x}"); self.dead.add(name); return
        if m:
            self.c.bad(f"{name}:{m}", f.where(), f"{name}({txt}): {m}"); self.dead.add(name)
        else:
            self.c.ok(name)


def check(c, P, deep):
    n = Num(c, P)
    ps = primes(400)

    def val(r, w):
        return r.v if isinstance(r, AP) and r.w == w else None

    for m in list(range(2, 26)) + [127, 128, 251, 255]:
        for w in {m.bit_length(), m.bit_length() + 1, 64}:
            for x in range(0, m) if m < 100 else (1, 2, 3, 100, 125, m - 1):
                want = pow(x, -1, m) if __import__("math").gcd(x, m) == 1 else 0
                n.run("multiplicativeInverse", (AP(w, x), AP(w, m)), lambda r: None if val(r, w) == want else "not the inverse" + (" (0 where there is none)" if not want else ""), f"{x}, {m} in {w} bits")
    for m in list(range(2, 14)) + [127, 255, 65537]:
        for b in (0, 1, 2, 3, 5, m - 1, m, m + 1):
            for e in (0, 1, 2, 3, 4, 7, 8, 10, m - 1):
                w = max((m + 1).bit_length(), e.bit_length())
                n.run("modularExponentiation", (AP(w, b), AP(w, e), AP(w, m)), lambda r: None if val(r, w) == pow(b, e, m) else "not the power", f"{b}, {e}, {m} in {w} bits")
    for q in BIG_PRIMES:
        w = q.bit_length()
        n.run("modularExponentiation", (AP(w, 3), AP(w, q - 2), AP(w, q)), lambda r: None if val(r, w) == pow(3, q - 2, q) else "not the power", f"3, {q - 2}, {q} in {w} bits")
    for x in range(0, 320 if deep else 160):
        for w in (9, 64):
            n.run("isPrime", (AP(w, x),), lambda r: None if r == int(x in ps) else "a prime is called composite" if x in ps else "a composite is called prime", f"{x} in {w} bits")
    for q in BIG_PRIMES + PSEUDO + [p * r for p in (73, 97, 331) for r in (73, 101, 331)]:
        for w in {q.bit_length(), max(64, q.bit_length()), 128}:
            pr = q in BIG_PRIMES
            n.run("isPrime", (AP(w, q),), lambda r: None if r == int(pr) else "a prime is called composite" if pr else "a composite is called prime", f"{q} in {w} bits")
    smooth = [1 << 63, 3 ** 40, (1 << 20) * 3 ** 10 * 5 ** 5 * 7 ** 3, 2 ** 32 * 65537, 255 * 257, 997 * 997, 991 * 997, 2 * 997 * 997, 4 * 49 * 121]
    def factors(r):
        if not isinstance(r, list) or not all(isinstance(y, AP) for y in r):
            return None
        if sorted(y.v for y in r) != facs(x):
            return "not the distinct prime factors"
        return None if all(y.w == w for y in r) else "factors of another width than the argument"

    for x in list(range(0, 130)) + smooth + [1 << 64, 3 ** 41, (1 << 70) * 15, 7 ** 30, 5 ** 28 * 11 ** 2, 1 << 127]:
        for w in {max(1, x.bit_length()), x.bit_length() + 1, 64 if x < 1 << 64 else 128}:
            n.run("factorize", (AP(w, x),), factors, f"{x} in {w} bits")
    roots = [q for q in ps if q < (200 if deep else 80)] + [257, 12289, 65537, 40961, 998244353]
    for q in roots:
        w = q.bit_length() + (q % 3 == 0)

        def root(r):
            if r is FAIL:
                return "no primitive root is found"
            v = val(r, w)
            if v is None:
                return "the root is not given in the width of the modulus"
            return None if 0 < v < q and order_is(v, q - 1, q, facs(q - 1)) else f"{v} is not a primitive root"
        n.run("findPrimitiveRoot", (AP(w, q),), root, f"{q} in {w} bits")
    for q in (0, 1, 4, 6, 8, 16, 100):
        n.run("findPrimitiveRoot", (AP(8, q),), lambda r: None if r is FAIL or q == 4 else "a root modulo a number that is not prime", f"{q} in 8 bits")
    for q in [x for x in roots if x > 2]:
        w = q.bit_length()
        for k in sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, (q - 1) // 2, q - 1, q, 2 * q, 1 << 32, 1 << 63, (1 << 64) - 1, (1 << 62) + 1, (1 << 32) + 1}):
            def r2(r):
                if k == 0 or (q - 1) % (2 * k):
                    return None if r is FAIL else "a root that cannot exist is returned"
                if r is FAIL:
                    return "an existing root is not found"
                v = val(r, w)
                return None if v is not None and 0 < v < q and order_is(v, 2 * k, q, facs(2 * k)) else "not a root of exactly the order asked for"
            if k and (q - 1) % (2 * k) == 0 and q > 1 << 20 and k not in (1, 2, 4, 8, 16):
                continue
            n.run("findPrimitive2nthRoot", (AP(w, q), k), r2, f"{q} in {w} bits, {k}")
