"""Discharging verification conditions: normal forms, then z3, then cvc5."""
import itertools
import math
import random
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import term as T  # noqa: E402

z3.set_param("verbose", 0)


def to_z3(root, memo=None):
    memo = {} if memo is None else memo
    for n in T.topo([root]):
        if n.id in memo:
            continue
        a = [memo[x.id] for x in n.args]
        memo[n.id] = _conv(n, a)
    return memo[root.id]


def _b(e):  # BV1 -> Bool
    return e == z3.BitVecVal(1, 1)


def _bv(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _conv(n, a):
    op, w = n.op, n.w
    if op == "const":
        return z3.RealVal(n.val) if w == 0 else z3.BitVecVal(n.val, w)
    if op == "var":
        return z3.Real(str(n.val)) if w == 0 else z3.BitVec(str(n.val), w)
    if op == "lin":
        r = None
        for x, k in zip(a, n.val[1]):
            if w == 0:
                t = x if k == 1 else z3.RealVal(k) * x
            else:
                ks = T.to_signed(k, w)
                if ks == 1:
                    t = x
                elif ks == -1 and r is not None:
                    r = r - x
                    continue
                elif ks == -1:
                    t = -x
                else:
                    t = x * z3.BitVecVal(k, w)
            r = t if r is None else r + t
        if n.val[0]:
            c = z3.RealVal(n.val[0]) if w == 0 else z3.BitVecVal(n.val[0], w)
            r = c if r is None else r + c
        return r
    if op == "mul":
        return a[0] * a[1]
    if op == "xor":
        r = None
        for x in a:
            r = x if r is None else r ^ x
        if n.val == T.mask(w):
            return ~r
        if n.val:
            r = r ^ z3.BitVecVal(n.val, w)
        return r
    if op == "and": return a[0] & a[1]
    if op == "or": return a[0] | a[1]
    if op == "shl": return a[0] << n.val
    if op == "lshr": return z3.LShR(a[0], n.val)
    if op == "ashr": return a[0] >> n.val
    if op == "bitrev":
        return z3.Concat(*[z3.Extract(i, i, a[0]) for i in range(w)])
    if op == "bsel":
        bits = [z3.Extract(i, i, a[0]) for i in n.val]
        bits += [z3.BitVecVal(0, 1)] * (w - len(bits))
        return z3.Concat(*bits[::-1]) if len(bits) > 1 else bits[0]
    if op == "trunc": return z3.Extract(w - 1, 0, a[0])
    if op == "zext": return z3.ZeroExt(w - n.args[0].w, a[0])
    if op == "sext": return z3.SignExt(w - n.args[0].w, a[0])
    if op == "eq": return _bv(a[0] == a[1])
    if op == "ult": return _bv(z3.ULT(a[0], a[1]))
    if op == "rlt": return _bv(a[0] < a[1])
    if op == "slt": return _bv(a[0] < a[1])
    if op == "ite": return z3.If(_b(a[0]), a[1], a[2])
    if op == "udiv": return z3.UDiv(a[0], a[1])
    if op == "urem": return z3.URem(a[0], a[1])
    if op == "floormod": return z3.If(a[1] == 0, a[0], a[0] % a[1])
    if op == "truncdiv": return z3.If(a[1] == 0, z3.BitVecVal(0, w), a[0] / a[1])
    if op == "floordiv":
        return z3.If(a[1] == 0, z3.BitVecVal(0, w), (a[0] - a[0] % a[1]) / a[1])
    if op in ("vshl", "vlshr", "vashr"):
        y = a[1]
        return a[0] << y if op == "vshl" else z3.LShR(a[0], y) if op == "vlshr" else a[0] >> y
    if op == "i2r": return z3.ToReal(z3.BV2Int(a[0], True))
    if op == "u2r": return z3.ToReal(z3.BV2Int(a[0], False))
    if op == "r2i":
        t = z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        return z3.Int2BV(t, w)
    if op == "rround":
        f = z3.ToInt(a[0] + z3.RealVal("1/2"))
        tie = z3.ToReal(f) == a[0] + z3.RealVal("1/2")
        return z3.ToReal(z3.If(z3.And(tie, f % 2 != 0), f - 1, f))
    if op == "rfloor": return z3.ToReal(z3.ToInt(a[0]))
    if op == "rdiv": return a[0] / a[1]
    if op == "zp":
        p = n.val[0]
        if p >> 62:
            r, k = z3.BitVecVal(0, w + 8), w + 8
            for m, c in n.val[1]:
                assert len(m) < 2 and len(n.val[1]) < 100
                ks = c if c < p // 2 else c - p
                t = z3.ZeroExt(8, a[m[0]]) if m else z3.BitVecVal(1, k)
                r = r + (t if ks == 1 else z3.BitVecVal(ks, k) * t)
            return z3.Extract(w - 1, 0, r % z3.BitVecVal(p, k))
        def red(e, k):   # signed word of width k -> residue as a word of 16 bits more than p needs
            return z3.Extract(31, 0, z3.SignExt(32, e) % z3.BitVecVal(p, k + 32)) if k > 1 else z3.ZeroExt(31, e)
        ra = [red(e, x.w) for e, x in zip(a, n.args)]
        r = z3.BitVecVal(0, 32)
        P = z3.BitVecVal(p, 32)
        for m, c in n.val[1]:
            t = z3.BitVecVal(c, 32)
            for i in m: t = z3.URem(t * ra[i], P)
            r = z3.URem(r + t, P)
        return z3.ZeroExt(w - 32, r) if w > 32 else z3.Extract(w - 1, 0, r)
    if op == "uf":
        sorts = [z3.BitVecSort(x.w) if x.w else z3.RealSort() for x in n.args]
        f = z3.Function(str(n.val[0]) + ("" if n.val[1] is None else repr(n.val[1])), *sorts,
                        z3.BitVecSort(w) if w else z3.RealSort())
        return f(*a) if a else z3.Const(str(n.val), z3.BitVecSort(w) if w else z3.RealSort())
    raise NotImplementedError(op)


class NotLinear(Exception):
    pass


def to_int(goal, assumptions, opaque=True):
    """the obligation over mathematical integers: every word is an Int with its range, every operation the exact
    integer relation (sum minus a multiple of 2^w, floor quotients for shifts and divisions).  Operations with no
    linear integer meaning become arbitrary integers in range (sound: only proofs are taken from this translation)."""
    cons, val, boo = [], {}, {}
    cnt = [0]

    def fresh(p="k"):
        cnt[0] += 1
        return z3.Int("%s!%d" % (p, cnt[0]))

    def rng(v, w, signed=True):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        cons.append(v >= lo); cons.append(v <= hi)

    def uns(n):      # unsigned reading of a signed Int
        v = val[n.id]
        return z3.If(v < 0, v + (1 << n.w), v)

    def wrap(e, w):
        v, k = fresh("v"), fresh()
        cons.append(v == e - (1 << w) * k)
        rng(v, w)
        return v

    def floor(e, d):
        q = fresh("q")
        cons.append(q * d <= e); cons.append(e < q * d + d)
        return q

    for n in T.topo(list(assumptions) + [goal]):
        op, w, a = n.op, n.w, n.args
        if w == 0:
            raise NotLinear("real")
        if w == 1:
            if op == "const": boo[n.id] = z3.BoolVal(bool(n.val))
            elif op == "var": boo[n.id] = z3.Bool(str(n.val))
            elif op == "xor":
                r = z3.BoolVal(bool(n.val))
                for x in a: r = z3.Xor(r, boo[x.id])
                boo[n.id] = z3.simplify(r)
            elif op == "lin":
                r = z3.BoolVal(bool(n.val[0] & 1))
                for x, k in zip(a, n.val[1]):
                    if k & 1: r = z3.Xor(r, boo[x.id])
                boo[n.id] = r
            elif op in ("and", "mul"): boo[n.id] = z3.And(boo[a[0].id], boo[a[1].id])
            elif op == "or": boo[n.id] = z3.Or(boo[a[0].id], boo[a[1].id])
            elif op == "ite": boo[n.id] = z3.If(boo[a[0].id], boo[a[1].id], boo[a[2].id])
            elif op == "eq": boo[n.id] = boo[a[0].id] == boo[a[1].id] if a[0].w == 1 else val[a[0].id] == val[a[1].id]
            elif op == "slt": boo[n.id] = val[a[0].id] < val[a[1].id]
            elif op == "ult": boo[n.id] = z3.And(z3.Not(boo[a[0].id]), boo[a[1].id]) if a[0].w == 1 else uns(a[0]) < uns(a[1])
            elif op == "trunc" and a[0].w > 1:
                if a[0].op in ("lshr", "ashr") and a[0].val == a[0].w - 1:
                    boo[n.id] = val[a[0].args[0].id] < 0
                else:
                    boo[n.id] = val[a[0].id] - 2 * floor(val[a[0].id], 2) == 1
            else:
                boo[n.id] = z3.Bool("ob!%d" % n.id)
            continue
        if op == "const": val[n.id] = z3.IntVal(T.to_signed(n.val, w))
        elif op == "var":
            v = z3.Int(str(n.val)); rng(v, w); val[n.id] = v
        elif op == "lin":
            e = z3.IntVal(T.to_signed(n.val[0], w))
            for x, k in zip(a, n.val[1]):
                e = e + T.to_signed(k, w) * val[x.id]
            val[n.id] = wrap(e, w)
        elif op == "shl": val[n.id] = wrap(val[a[0].id] * (1 << n.val), w)
        elif op == "ashr": val[n.id] = floor(val[a[0].id], 1 << n.val)
        elif op == "lshr":
            val[n.id] = floor(uns(a[0]), 1 << n.val) if n.val else val[a[0].id]
        elif op == "trunc": val[n.id] = wrap(val[a[0].id], w)
        elif op == "sext": val[n.id] = z3.If(boo[a[0].id], -1, 0) if a[0].w == 1 else val[a[0].id]
        elif op == "zext": val[n.id] = z3.If(boo[a[0].id], 1, 0) if a[0].w == 1 else uns(a[0])
        elif op == "ite": val[n.id] = z3.If(boo[a[0].id], val[a[1].id], val[a[2].id])
        elif op == "floordiv" and T.is_const(a[1]) and T.to_signed(a[1].val, w) > 0:
            val[n.id] = floor(val[a[0].id], T.to_signed(a[1].val, w))
        elif op == "udiv" and T.is_const(a[1]) and a[1].val:
            val[n.id] = floor(uns(a[0]), a[1].val) if a[1].val > 1 else val[a[0].id]
        elif op == "and" and any(T.is_const(x) and x.val and not x.val & (x.val + 1) and not x.val >> (w - 1) for x in a):
            c, x = (a[0], a[1]) if T.is_const(a[0]) else (a[1], a[0])
            val[n.id] = val[x.id] - (c.val + 1) * floor(val[x.id], c.val + 1)
        elif op == "zp" and not n.val[0] >> 62:
            v = z3.Int("op!%d" % n.id); cons.append(v >= 0); cons.append(v < n.val[0]); val[n.id] = v
        elif op == "xor" and n.val == T.mask(w) and len(a) == 1: val[n.id] = -1 - val[a[0].id]
        else:
            v = z3.Int("op!%d" % n.id); rng(v, w); val[n.id] = v
    return cons, [boo[x.id] for x in assumptions], boo[goal.id]


def prove_int(rel, goal, timeout):
    try:
        cons, ass, g = to_int(goal, rel)
    except (NotLinear, KeyError):
        return False
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", int(timeout * 1000))
    s.add(*cons); s.add(*ass); s.add(z3.Not(g))
    return s.check() == z3.unsat


class _LF:
    """integer-linear normal form: every word as an exact rational combination of integer unknowns.  Unknowns are words and
    floor quotients; a quotient is named by the (coefficient-reduced) form it divides, so equal quotients get equal names."""

    def __init__(self):
        self.memo, self.box, self.names, self.real = {}, {}, {}, set()

    def bounds(self, f):
        lo = hi = f.get((), Fraction(0))
        for v, c in f.items():
            if v == ():
                continue
            if self.box.get(v) is None:
                return None
            a, b = self.box[v]
            lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        return lo, hi

    @staticmethod
    def add(f, g, k=1):
        r = dict(f)
        for v, c in g.items():
            r[v] = r.get(v, 0) + k * c
            if not r[v]:
                del r[v]
        return r

    def atom(self, n):
        self.box[n.id] = T.interval(n)
        return {n.id: Fraction(1)}

    def name(self, key, box):
        k = self.names.setdefault(key, "q%d" % len(self.names))
        self.box.setdefault(k, box)
        self.names[k] = key
        return {k: Fraction(1)}

    def floor(self, f, d):
        """floor(f / d)"""
        if any(c.denominator != 1 or v in self.real for v, c in f.items()):
            raise NotLinear("fraction")
        q = {v: Fraction(math.floor(c / d)) for v, c in f.items()}
        rest = self.add(f, q, -d)
        q = {v: c for v, c in q.items() if c}
        b = self.bounds(rest)
        if b is not None and b[0] // d == b[1] // d:
            return self.add(q, {(): Fraction(b[0] // d)} if b[0] // d else {})
        if len(rest) == 1:
            (v, c), = rest.items()
            inner = self.names.get(v)
            if c == 1 and inner is not None and inner[0] == "floor":
                return self.add(q, self.floor(dict(inner[2]), inner[1] * d))
        key = ("floor", d, tuple(sorted(rest.items(), key=repr)))
        return self.add(q, self.name(key, None if b is None else (b[0] // d, b[1] // d)))

    def fit(self, f, n):
        """the signed word congruent to f modulo 2^w"""
        if n.op == "lin" and T.exact(n) is not None:
            return f
        b = self.bounds(f)
        half = 1 << (n.w - 1)
        if b is not None and -half <= b[0] and b[1] < half:
            return f
        lo, hi = T.interval(n)
        k = self.floor(self.add(f, {(): Fraction(half)}), 1 << n.w)
        return self.add(f, k, -(1 << n.w))

    def form(self, root):
        for n in T.topo([root]):
            if n.id not in self.memo:
                self.memo[n.id] = self._form(n, [self.memo[a.id] for a in n.args])
        return self.memo[root.id]

    def _form(self, n, a):
        op, w = n.op, n.w
        if op == "const":
            c = Fraction(n.val) if w == 0 else Fraction(T.to_signed(n.val, w) if w > 1 else n.val)
            return {(): c} if c else {}
        if op == "lin" and w != 1:
            r = {(): Fraction(n.val[0] if w == 0 else T.to_signed(n.val[0], w))} if n.val[0] else {}
            for x, k in zip(a, n.val[1]):
                r = self.add(r, x, Fraction(k) if w == 0 else T.to_signed(k, w))
            return r if w == 0 else self.fit(r, n)
        if op == "zp" and not n.val[0] >> 62 and all(len(m) < 2 for m, _ in n.val[1]):
            r = {}
            for m, c in n.val[1]:
                r = self.add(r, a[m[0]] if m else {(): Fraction(1)}, c)
            return self.add(r, self.floor(r, n.val[0]), -n.val[0])
        if op == "i2r":
            return a[0]
        if op == "u2r":
            u = n.args[0].w
            return a[0] if u == 1 else self.add(a[0], self.floor(a[0], 1 << u), -(1 << u))
        if op == "rdiv" and T.is_const(n.args[1]) and n.args[1].val:
            return {v: c / Fraction(n.args[1].val) for v, c in a[0].items()}
        if op == "rround" and not any(v in self.real for v in a[0]):
            i = {v: Fraction(math.floor(c + Fraction(1, 2))) for v, c in a[0].items()}
            rest = self.add(a[0], i, -1)
            b = self.bounds(rest)
            if b is not None and Fraction(-1, 2) < b[0] and b[1] < Fraction(1, 2):
                return {v: c for v, c in i.items() if c}
        if op == "r2i" and all(c.denominator == 1 and v not in self.real for v, c in a[0].items()):
            lo, hi = T.interval(n)
            return a[0] if lo > -(1 << (w - 1)) and hi < (1 << (w - 1)) - 1 else self.fit(a[0], n)
        if n.args and n.args[0].w > 1:
            u = n.args[0].w
            if op == "trunc" and w == 1:
                return self.add(a[0], self.floor(a[0], 2), -2)
            if op == "sext":
                return a[0]
            if op == "trunc":
                lo, hi = T.interval(n.args[0])
                return a[0] if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) else self.fit(a[0], n)
            if op == "zext":
                return self.add(a[0], self.floor(a[0], 1 << u), -(1 << u))
            if op == "ashr":
                return self.floor(a[0], 1 << n.val)
            if op == "lshr":
                return self.add(self.floor(a[0], 1 << n.val), self.floor(a[0], 1 << w), -(1 << (w - n.val)))
            if op == "bsel" and list(n.val) == list(range(n.val[0], n.val[0] + len(n.val))) and len(n.val) < w:
                i, k = n.val[0], len(n.val)
                return self.add(self.floor(a[0], 1 << i), self.floor(a[0], 1 << (i + k)), -(1 << k))
            if op == "floordiv" and T.is_const(n.args[1]) and T.to_signed(n.args[1].val, w) > 0:
                return self.floor(a[0], T.to_signed(n.args[1].val, w))
            if op == "and":
                for x, y in ((0, 1), (1, 0)):
                    c = n.args[x]
                    if T.is_const(c) and c.val and not c.val & (c.val + 1):
                        return self.add(a[y], self.floor(a[y], c.val + 1), -(c.val + 1))
        if op == "zext" and n.args[0].w == 1:
            return a[0]
        if op in _ROUND and (w == 0 or T.interval(n) != (-(1 << (w - 1)), (1 << (w - 1)) - 1)):
            return self.name(("round", op, tuple(sorted(a[0].items(), key=repr))), T.interval(n) if w else T.real_interval(n, {}))
        if w:
            return self.atom(n)
        if op == "var":
            self.box[n.id] = T.RANGES.get(n)
            self.real.add(n.id)
            return {n.id: Fraction(1)}
        raise NotLinear(op)

    def at_least(self, x, y):
        """lower bound of y - x over the reals; a rounded atom is its argument plus a rounding error"""
        d = self.add(self.form(y), self.form(x), -1)
        for _ in range(50):
            todo = [v for v in d if self.names.get(v, "-")[0] == "round"]
            if not todo:
                break
            for v in todo:
                _, op, f = self.names[v]
                c = d.pop(v)
                d = self.add(d, dict(f), c)
                d = self.add(d, self.name(("error", v), _ROUND[op]), c)
        b = self.bounds(d)
        return None if b is None else b[0]

    def holds(self, goal):
        if goal.op == "rlt":
            b = self.at_least(*goal.args)
            return b is not None and b > 0
        if goal.op == "xor" and goal.val == 1 and len(goal.args) == 1 and goal.args[0].op == "rlt":
            b = self.at_least(goal.args[0].args[1], goal.args[0].args[0])
            return b is not None and b >= 0
        if goal.op == "and" and goal.w == 1:
            return all(self.holds(g) for g in goal.args)
        return self.equal(goal)

    def equal(self, goal):
        if goal.op != "eq" or goal.args[0].w < 2:
            return False
        try:
            d = self.add(self.form(goal.args[0]), self.form(goal.args[1]), -1)
        except NotLinear:
            return False
        m = 1 << goal.args[0].w
        return all(c.denominator == 1 and c % m == 0 for c in d.values())


_ROUND = dict(r2i=(Fraction(-1), Fraction(1)), rround=(Fraction(-1, 2), Fraction(1, 2)), rfloor=(Fraction(-1), Fraction(0)))


def _ranges(assumptions):
    """variable ranges stated by the assumptions (signed)"""
    lo, hi = {}, {}
    for a in assumptions:
        u = a.args[0] if a.op == "xor" and a.val == 1 and len(a.args) == 1 else a
        if u.op == "rlt":
            y, x = u.args if u is not a else u.args[::-1]
            if T.is_const(x) and y.op == "var": lo[y] = max(lo.get(y, x.val), x.val)
            elif T.is_const(y) and x.op == "var": hi[x] = min(hi.get(x, y.val), y.val)
            continue
        x, y, strict = None, None, False
        if a.op == "slt":
            x, y, strict = a.args[0], a.args[1], True
        elif a.op == "xor" and a.val == 1 and len(a.args) == 1 and a.args[0].op == "slt":
            y, x = a.args[0].args          # not (y < x):  x <= y
        if x is None:
            continue
        if T.is_const(x) and y.op == "var":
            lo[y] = max(lo.get(y, -(1 << y.w)), T.to_signed(x.val, x.w) + strict)
        elif T.is_const(y) and x.op == "var":
            hi[x] = min(hi.get(x, 1 << x.w), T.to_signed(y.val, y.w) - strict)
    return {v: (lo[v], hi[v]) for v in lo if v in hi}


def linear_eq(assumptions, goal):
    if goal.w != 1:
        return False
    saved = dict(T.RANGES)
    T.RANGES.clear()
    T.RANGES.update(_ranges(assumptions))
    try:
        return _LF().holds(goal)
    except NotLinear:
        return False
    finally:
        T.RANGES.clear()
        T.RANGES.update(saved)


class Result:
    def __init__(self, status, backend, seconds, model=None, detail=""):
        self.status, self.backend, self.seconds = status, backend, seconds
        self.model, self.detail = model, detail


_CORNERS = (0, 1, 2, 3)


def _rand_val(rng, w):
    k = rng.randrange(8)
    if w == 0:
        from fractions import Fraction
        return Fraction(rng.randrange(-2**20, 2**20), 2 ** rng.randrange(0, 24))
    m = T.mask(w)
    if k == 0: return rng.randrange(4) & m
    if k == 1: return (-rng.randrange(4)) & m
    if k == 2: return ((1 << (w - 1)) + rng.randrange(-2, 2)) & m
    if k == 3: return (1 << rng.randrange(w)) & m
    if k == 4: return rng.getrandbits(max(1, w // 2)) & m
    if k == 5: return (-rng.getrandbits(max(1, w // 4))) & m
    return rng.getrandbits(w)


def random_refute(assumptions, goal, tries=60, seed=1, hints=None):
    """Search for an assignment with assumptions true and goal false."""
    rng = random.Random(seed)
    roots = list(assumptions) + [goal]
    vs = sorted(set().union(*[T.free_vars(r) for r in roots]), key=lambda v: str(v.val))
    hints = hints or {}
    for t in range(tries):
        env = {}
        for v in vs:
            h = hints.get(v)
            if h is not None:
                env[v] = h(rng)
            else:
                env[v] = _rand_val(rng, v.w)
        vals = T.evaluate(roots, env)
        if not vals[-1] and all(vals[:-1]):
            return env
    return None


def _relevant(assumptions, goal):
    """cone of influence closure over shared variables (sound: fewer assumptions)."""
    vs = set(T.free_vars(goal))
    rest = list(assumptions)
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for a in rest:
            if T.free_vars(a) & vs:
                vs |= T.free_vars(a)
                out.append(a)
                changed = True
            else:
                nxt.append(a)
        rest = nxt
    return out


def _bitwise_eq(goal):
    a, b = goal.args
    if not any(x.op in ("and", "or", "xor", "ite") for x in (a, b)):
        return False
    try:
        return T.anf(a) == T.anf(b)
    except (T.TooBig, KeyError):
        return False


def _ring_eq(goal):
    if T.is_const(goal):
        return bool(goal.val)
    if goal.op == "eq":
        try:
            if not T.poly(T.sub(*goal.args)):
                return True
        except (T.TooBig, RecursionError):
            pass
        return _bitwise_eq(goal)
    if goal.w == 1 and goal.op in ("xor", "or", "ite"):
        try:
            return T.anf(goal) == {frozenset(): 1}
        except (T.TooBig, KeyError):
            return False
    if goal.op == "and" and goal.w == 1:
        return all(_ring_eq(a) for a in goal.args)
    return False


def split_bits(goal, limit=12):
    """case split on the one-bit variables of the goal, each leaf closed by ring normal form"""
    vs = sorted((v for v in T.free_vars(goal) if v.w == 1), key=lambda v: str(v.val))
    if not vs or len(vs) > limit:
        return False

    def go(g, i):
        if _ring_eq(g):
            return True
        if T.is_const(g) or i == len(vs):
            return False
        return all(go(T.substitute([g], {vs[i]: T.const(b, 1)})[0], i + 1) for b in (0, 1))
    return go(goal, 0)


def _bit_vars(assumptions):
    """variables the assumptions confine to 0 or 1"""
    hi, lo = set(), set()
    for a in assumptions:
        if a.op == "slt" and a.args[0].op == "var" and T.is_const(a.args[1]) and a.args[1].val == 2: hi.add(a.args[0])
        if a.op == "xor" and a.val == 1 and len(a.args) == 1 and a.args[0].op == "slt":
            x, y = a.args[0].args
            if T.is_const(y) and x.op == "var" and y.val == 0: lo.add(x)
            if T.is_const(x) and y.op == "var" and x.val == 1: hi.add(y)
    return lo & hi


def _is_bit_word(t, bits=()):
    if t.op == "xor" and t.val < 2 and all(_is_bit_word(a, bits) for a in t.args): return True
    return t in bits or t.w == 1 or t.op == "zext" and t.args[0].w == 1 or t.op == "and" and any(T.is_const(a) and a.val == 1 for a in t.args)


def bit_formula(goal, assumptions=(), limit=7):
    """an equality of ring polynomials in a few bits, as the boolean formula that is true for exactly the same bits"""
    if goal.op != "eq" or goal.args[0].w < 2:
        return None
    d = T.sub(*goal.args)
    try:
        p = T.poly(d, limit=400)
    except (T.TooBig, RecursionError):
        return None
    ids = sorted({i for m in p for i in m})
    if not ids or len(ids) > limit:
        return None
    bits = _bit_vars(assumptions)
    atoms = {n.id: n for n in T.topo([d]) if n.id in set(ids)}
    if len(atoms) != len(ids) or not all(_is_bit_word(a, bits) for a in atoms.values()):
        return None
    M = T.mask(d.w)
    vs = [atoms[i] for i in ids]
    tab = {}
    for row in itertools.product((0, 1), repeat=len(ids)):
        env = dict(zip(ids, row))
        tab[row] = sum(c for m, c in p.items() if all(env[i] for i in m)) & M == 0
    return T._table_formula(vs, tab, ())


def prove(assumptions, goal, timeout=60, seed=1, hints=None, tries=60, use_cvc5=True, has_uf=False):
    """goal: width-1 term.  Valid under assumptions?"""
    t0 = time.time()
    if T.is_const(goal):
        if goal.val:
            return Result("proved", "normal-form", time.time() - t0)
    # equality of words: ring normal form
    g = goal
    if g.op == "eq":
        x, y = g.args
        try:
            if not T.poly(T.sub(x, y)):
                return Result("proved", "ring-normal-form", time.time() - t0)
        except (T.TooBig, RecursionError):
            pass
    if _ring_eq(goal):
        return Result("proved", "bitwise-normal-form", time.time() - t0)
    if any(T.is_const(a) and not a.val for a in assumptions):
        return Result("proved", "normal-form", time.time() - t0)
    assumptions = _relevant(assumptions, goal)
    m = random_refute(assumptions, goal, tries=tries, seed=seed, hints=hints)
    if m is not None:
        return Result("refuted", "evaluation", time.time() - t0, m)
    if split_bits(goal):
        return Result("proved", "bit-case-split+ring-normal-form", time.time() - t0)
    if linear_eq(assumptions, goal):
        return Result("proved", "integer-linear-normal-form", time.time() - t0)
    c = T.canon(assumptions + [goal])
    assumptions, goal = c[:-1], c[-1]
    if _ring_eq(goal):
        return Result("proved", "ring-normal-form", time.time() - t0)
    b = bit_formula(goal, assumptions)
    if b is not None:
        goal = b
        if T.is_const(goal) and goal.val:
            return Result("proved", "bit-table", time.time() - t0)
    rel = _relevant(assumptions, goal)
    memo = {}
    s = z3.Solver()
    for a in rel:
        s.add(_b(to_z3(a, memo)))
    s.add(z3.Not(_b(to_z3(goal, memo))))
    s.set("timeout", int(min(5, timeout) * 1000))
    r = s.check()
    if r == z3.unknown:
        if prove_int(rel, goal, min(15, timeout)):
            return Result("proved", "z3-%s-integers" % z3.get_version_string(), time.time() - t0)
        s.set("timeout", int(timeout * 1000))
        r = s.check()
    dt = time.time() - t0
    if r == z3.unsat:
        return Result("proved", "z3-" + z3.get_version_string(), dt)
    if r == z3.sat:
        mod = s.model()
        env = {}
        for v in set().union(*[T.free_vars(x) for x in list(assumptions) + [goal]]):
            e = memo.get(v.id)
            if e is None:
                # variable only in irrelevant assumptions: leave to the default
                continue
            val = mod.eval(e, model_completion=True)
            if v.w:
                env[v] = val.as_long()
            else:
                env[v] = val.as_fraction() if hasattr(val, "as_fraction") else 0
        vals = T.evaluate(rel + [goal], env)
        ok = not vals[-1] and all(vals[:-1])
        return Result("refuted" if ok or has_uf else "unknown", "z3-" + z3.get_version_string(), dt, env,
                      "" if ok else "model does not evaluate")
    if use_cvc5:
        try:
            rr = _cvc5(s, timeout)
            if rr == "unsat":
                return Result("proved", "cvc5", time.time() - t0)
        except Exception as e:  # pragma: no cover
            return Result("unknown", "cvc5", time.time() - t0, detail=repr(e))
    return Result("unknown", "z3+cvc5", time.time() - t0, detail=str(s.reason_unknown()))


def _cvc5(solver, timeout):
    import subprocess, tempfile, os
    txt = "(set-logic ALL)\n" + solver.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit", str(int(timeout * 1000)), name], capture_output=True, text=True,
                           timeout=timeout + 20)
        return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    finally:
        os.unlink(name)
