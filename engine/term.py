"""Hash-consed terms over fixed-width machine words and mathematical reals.

A word of width w is an integer modulo 2**w.  Sums are kept in linear normal form
('lin'), exclusive-ors in GF(2)-linear normal form ('xor'), so additive and xor masks
cancel structurally.  Everything else is an atom of those normal forms; the solver
back ends (engine.solve) get the full semantics of every operator.
Width 0 denotes the reals (used for float tensors).
"""
import itertools
import math
import numpy as np
from fractions import Fraction

REAL = 0


class Node:
    __slots__ = ("op", "w", "args", "val", "id", "z3", "_vars", "__weakref__")

    def __repr__(self):
        return show(self)

    # operators for specification code (numpy object arrays); ints are lifted
    def _l(self, o):
        return o if isinstance(o, Node) else const(o, self.w)

    def __add__(self, o): return NotImplemented if isinstance(o, np.ndarray) else add(self, self._l(o))
    def __radd__(self, o): return NotImplemented if isinstance(o, np.ndarray) else add(self._l(o), self)
    def __sub__(self, o): return NotImplemented if isinstance(o, np.ndarray) else sub(self, self._l(o))
    def __rsub__(self, o): return NotImplemented if isinstance(o, np.ndarray) else sub(self._l(o), self)
    def __mul__(self, o): return NotImplemented if isinstance(o, np.ndarray) else mul(self, self._l(o))
    def __rmul__(self, o): return NotImplemented if isinstance(o, np.ndarray) else mul(self._l(o), self)
    def __neg__(self): return neg(self)
    def __and__(self, o): return NotImplemented if isinstance(o, np.ndarray) else band(self, self._l(o))
    def __or__(self, o): return NotImplemented if isinstance(o, np.ndarray) else bor(self, self._l(o))
    def __xor__(self, o): return NotImplemented if isinstance(o, np.ndarray) else xor(self, self._l(o))
    def __invert__(self): return bnot(self)
    def __lshift__(self, k): return shl(self, k)


_table = {}
_ids = itertools.count(1)


def _mk(op, w, args=(), val=None):
    key = (op, w, tuple(a.id for a in args), val)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.w, n.args, n.val, n.id, n.z3, n._vars = op, w, tuple(args), val, next(_ids), None, None
        _table[key] = n
    return n


def reset():
    _table.clear()


def mask(w):
    return (1 << w) - 1


def const(v, w):
    if w == REAL:
        return _mk("const", 0, (), Fraction(v))
    return _mk("const", w, (), int(v) & mask(w))


def var(name, w):
    return _mk("var", w, (), name)


def is_const(n):
    return n.op == "const"


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ linear forms
def lin_parts(n):
    """-> (const, {atom: coeff})"""
    if n.op == "const":
        return n.val, {}
    if n.op == "lin":
        return n.val[0], dict(zip(n.args, n.val[1]))
    return 0, {n: 1}


def make_lin(c, d, w):
    if w:
        m = mask(w)
        c &= m
        d = {a: k & m for a, k in d.items() if k & m}
    else:
        d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return const(c, w)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = sorted(d.items(), key=lambda t: t[0].id)
    return _mk("lin", w, tuple(a for a, _ in items), (c, tuple(k for _, k in items)))


def add(*xs):
    w = xs[0].w
    c, d = lin_parts(xs[0])
    for x in xs[1:]:
        assert x.w == w, ("add width", w, x.w)
        c2, d2 = lin_parts(x)
        c += c2
        for a, k in d2.items():
            d[a] = d.get(a, 0) + k
    return make_lin(c, d, w)


def scale(x, k):
    if k == 1:
        return x
    c, d = lin_parts(x)
    return make_lin(c * k, {a: v * k for a, v in d.items()}, x.w)


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    assert x.w == y.w, ("mul width", x.w, y.w)
    if is_const(x):
        return scale(y, x.val)
    if is_const(y):
        return scale(x, y.val)
    # pull out single-coefficient factors
    k = 1
    def core(n):
        nonlocal k
        if n.op == "lin" and n.val[0] == 0 and len(n.args) == 1:
            k *= n.val[1][0]
            return n.args[0]
        return n
    x, y = core(x), core(y)
    if x.id > y.id:
        x, y = y, x
    if x.w == 1:
        r = band(x, y)
    else:
        r = _mk("mul", x.w, (x, y))
    return scale(r, k)


# ------------------------------------------------------------------ xor forms
def xor_parts(n):
    if n.op == "const":
        return n.val, frozenset()
    if n.op == "xor":
        return n.val, frozenset(n.args)
    return 0, frozenset((n,))


def make_xor(c, s, w):
    c &= mask(w)
    if not s:
        return const(c, w)
    if c == 0 and len(s) == 1:
        (a,) = s
        return a
    # recombine the two halves of a word:  (hi(E) << k) ^ lo(E)  ==  E
    for a in s:
        if a.op == "shl" and a.args[0].op == "zext":
            hi = a.args[0].args[0]
            k = a.val
            if hi.op == "trunc" and hi.args[0].op == "lshr" and hi.args[0].val == k and hi.args[0].w == w and hi.w == w - k:
                e = hi.args[0].args[0]
                lo = zext(trunc(e, k), w)
                cl, sl = xor_parts(lo)
                if sl and sl <= s:
                    ce, se = xor_parts(e)
                    return make_xor(c ^ cl ^ ce, (s ^ sl ^ frozenset((a,))) ^ se, w)
    return _mk("xor", w, tuple(sorted(s, key=lambda a: a.id)), c)


def xor(*xs):
    w = xs[0].w
    c, s = 0, frozenset()
    for x in xs:
        assert x.w == w
        c2, s2 = xor_parts(x)
        c ^= c2
        s = s ^ s2
    return make_xor(c, s, w)


def bnot(x):
    return xor(x, const(-1, x.w))


def band(x, y):
    assert x.w == y.w, ("and width", x.w, y.w)
    w = x.w
    if is_const(x):
        x, y = y, x
    if is_const(y):
        if is_const(x):
            return const(x.val & y.val, w)
        if y.val == 0:
            return y
        if y.val == mask(w):
            return x
        if x.op == "xor":
            return xor(*([band(a, y) for a in x.args] + [const(x.val & y.val, w)]))
        if x.op == "and" and is_const(x.args[1]):
            return band(x.args[0], const(x.args[1].val & y.val, w))
        return _mk("and", w, (x, y))
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return _mk("and", w, (x, y))


def bor(x, y):
    w = x.w
    if is_const(x):
        x, y = y, x
    if is_const(y):
        if is_const(x):
            return const(x.val | y.val, w)
        if y.val == 0:
            return x
        if y.val == mask(w):
            return y
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return _mk("or", w, (x, y))


# GF(2)-linear unary operators: distribute over xor
def _shl_c(v, k, w): return (v << k) & mask(w)
def _lshr_c(v, k, w): return v >> k
def _ashr_c(v, k, w): return (to_signed(v, w) >> k) & mask(w)
def _bitrev_c(v, k, w): return int(bin(v)[2:].zfill(w)[::-1], 2)


_GF2 = {"shl": _shl_c, "lshr": _lshr_c, "ashr": _ashr_c, "bitrev": _bitrev_c}


def _gf2(op, x, k):
    w = x.w
    if is_const(x):
        return const(_GF2[op](x.val, k, w), w)
    if x.op == "xor":
        return xor(*([_gf2(op, a, k) for a in x.args] + [const(_GF2[op](x.val, k, w), w)]))
    if op == "shl":
        if x.op in ("lin", "mul"):
            return scale(x, 1 << k)
        if x.op == "shl":
            return shl(x.args[0], k + x.val)
        if x.op == "and" and is_const(x.args[1]):
            return band(shl(x.args[0], k), const(x.args[1].val << k, w))
    if op == "lshr":
        if x.op == "lshr":
            return lshr(x.args[0], k + x.val)
        if x.op == "and" and is_const(x.args[1]):
            return band(lshr(x.args[0], k), const(x.args[1].val >> k, w))
        if x.op == "zext" and k >= x.args[0].w:
            return const(0, w)
        if x.op == "shl" and x.args[0].op == "zext" and x.args[0].args[0].w + x.val <= w:
            y = x.args[0]
            return shl(y, x.val - k) if x.val >= k else lshr(y, k - x.val)
        if x.op == "shl" and x.val == k:
            return band(x.args[0], const(mask(w - k), w))
        if x.op == "shl" and x.val > k:
            return band(shl(x.args[0], x.val - k), const(mask(w - k), w))
    if op == "ashr" and x.op == "zext" and x.args[0].w < w:
        return lshr(x, k)
    if op == "ashr" and x.op == "ashr":
        return ashr(x.args[0], k + x.val)
    if op == "bitrev" and x.op == "bitrev":
        return x.args[0]
    return _mk(op, w, (x,), k)


def shl(x, k):
    if k == 0: return x
    if k >= x.w: return const(0, x.w)
    return _gf2("shl", x, k)


def lshr(x, k):
    if k == 0: return x
    if k >= x.w: return const(0, x.w)
    return _gf2("lshr", x, k)


def ashr(x, k):
    if k == 0: return x
    k = min(k, x.w - 1)
    return _gf2("ashr", x, k)


def bitrev(x):
    return _gf2("bitrev", x, 0)


def bits_select(x, idxs, w=None):
    """word whose bit j is bit idxs[j] of x (GF(2)-linear)."""
    w = w or x.w
    idxs = tuple(idxs)
    def f(v):
        r = 0
        for j, i in enumerate(idxs):
            r |= ((v >> i) & 1) << j
        return r
    if is_const(x):
        return const(f(x.val), w)
    if x.op == "xor":
        return xor(*([bits_select(a, idxs, w) for a in x.args] + [const(f(x.val), w)]))
    return _mk("bsel", w, (x,), idxs)


# ------------------------------------------------------------------ width changes
def trunc(x, w):
    if w == x.w: return x
    assert w < x.w
    if is_const(x):
        return const(x.val, w)
    if x.op == "lin":
        return make_lin(x.val[0], _acc((trunc(a, w), k) for a, k in zip(x.args, x.val[1])), w) if all(
            not is_const(trunc(a, w)) and trunc(a, w).op != "lin" for a in x.args) else add(
            const(x.val[0], w), *[scale(trunc(a, w), k) for a, k in zip(x.args, x.val[1])])
    if x.op == "xor":
        return xor(*([trunc(a, w) for a in x.args] + [const(x.val, w)]))
    if x.op in ("sext", "zext"):
        if w <= x.args[0].w:
            return trunc(x.args[0], w)
        return zext(x.args[0], w) if x.op == "zext" else sext(x.args[0], w)
    if x.op == "shl" and x.val >= w:
        return const(0, w)
    if x.op == "and":
        return band(trunc(x.args[0], w), trunc(x.args[1], w))
    if x.op == "or":
        return bor(trunc(x.args[0], w), trunc(x.args[1], w))
    if x.op == "ite":
        return ite(x.args[0], trunc(x.args[1], w), trunc(x.args[2], w))
    if x.op == "mul" and w > 1:
        return mul(trunc(x.args[0], w), trunc(x.args[1], w))
    if x.op == "trunc":
        return trunc(x.args[0], w)
    return _mk("trunc", w, (x,))


def _acc(pairs):
    d = {}
    for a, k in pairs:
        d[a] = d.get(a, 0) + k
    return d


def sext(x, w):
    if w == x.w: return x
    if is_const(x):
        return const(to_signed(x.val, x.w), w)
    if x.op == "zext":
        return zext(x.args[0], w)
    if x.op == "xor":
        return xor(*([sext(a, w) for a in x.args] + [const(to_signed(x.val, x.w), w)]))
    return _mk("sext", w, (x,))


def zext(x, w):
    if w == x.w: return x
    if is_const(x):
        return const(x.val, w)
    if x.op == "zext":
        return zext(x.args[0], w)
    if x.op == "xor":
        return xor(*([zext(a, w) for a in x.args] + [const(x.val, w)]))
    return _mk("zext", w, (x,))


def _unhi(hi, k):
    """a word x with trunc(lshr(x, k)) is hi, if hi has that form"""
    if hi.op == "trunc" and hi.args[0].op == "lshr" and hi.args[0].val == k:
        return hi.args[0].args[0]
    if hi.op == "ite":
        ps = [_unhi(a, k) for a in hi.args[1:]]
        if all(p is not None for p in ps) and len({p.w for p in ps}) == 1:
            return ite(hi.args[0], *ps)
    if hi.op == "xor":
        ps = [_unhi(a, k) for a in hi.args]
        if all(p is not None for p in ps) and len({p.w for p in ps}) == 1:
            return xor(*ps)
    return None


def concat(hi, lo):
    """hi ++ lo"""
    w = hi.w + lo.w
    if is_const(hi) and is_const(lo):
        return const((hi.val << lo.w) | lo.val, w)
    x = _unhi(hi, lo.w)
    if hi.op == "ite" and lo.op == "ite" and hi.args[0] is lo.args[0] and x is not None:
        return ite(hi.args[0], concat(hi.args[1], lo.args[1]), concat(hi.args[2], lo.args[2]))
    if x is not None and x.w == w:
        cl = lo.val if lo.op in ("xor", "const") else 0
        ch = hi.val if hi.op in ("xor", "const") else 0
        base = xor_parts(x)[1]
        y = make_xor((ch << lo.w) | cl, base, w)
        for c in (y, x):
            if trunc(c, lo.w) is lo and trunc(lshr(c, lo.w), hi.w) is hi:
                return c
    return xor(shl(zext(hi, w), lo.w), zext(lo, w))


# ------------------------------------------------------------------ predicates (width 1)
TRUE = None
FALSE = None


def eq(x, y):
    assert x.w == y.w, ("eq width", x.w, y.w)
    if x is y:
        return const(1, 1)
    if is_const(x) and is_const(y):
        return const(int(x.val == y.val), 1)
    if x.w == 1:
        return bnot(xor(x, y))
    for a, b in ((x, y), (y, x)):
        if is_const(a) and b.op == "zext":
            i = b.args[0]
            return eq(const(a.val, i.w), i) if a.val <= mask(i.w) else const(0, 1)
    for a, b in ((x, y), (y, x)):
        if is_const(a) and not a.val and b.op == "zp" and RANGES and not b.val[0] >> 62:
            z = zp_is_zero(b)
            if z is not None: return z
    if x.id > y.id:
        x, y = y, x
    return _mk("eq", 1, (x, y))


def ult(x, y):
    assert x.w == y.w
    if x is y:
        return const(0, 1)
    if is_const(x) and is_const(y):
        return const(int(x.val < y.val), 1)
    return _mk("ult" if x.w else "rlt", 1, (x, y))


def slt(x, y):
    assert x.w == y.w
    if x.w == REAL:
        return ult(x, y)
    if x is y:
        return const(0, 1)
    if is_const(x) and is_const(y):
        return const(int(to_signed(x.val, x.w) < to_signed(y.val, y.w)), 1)
    return _mk("slt", 1, (x, y))


def sle(x, y): return bnot(slt(y, x))
def ule(x, y): return bnot(ult(y, x))


def ite(c, x, y):
    assert c.w == 1 and x.w == y.w
    if is_const(c):
        return x if c.val else y
    if x.op == "ite" and x.args[0] is c: x = x.args[1]
    if y.op == "ite" and y.args[0] is c: y = y.args[2]
    if x is y:
        return x
    if x.w == 1:
        if is_const(x) and is_const(y):
            return c if x.val else bnot(c)
    return _mk("ite", x.w, (c, x, y))


def conj(*xs):
    r = const(1, 1)
    for x in xs:
        r = band(r, x)
    return r


def disj(*xs):
    r = const(0, 1)
    for x in xs:
        r = bor(r, x)
    return r


def implies(a, b):
    return bor(bnot(a), b)


# ------------------------------------------------------------------ division
def _floormod_s(a, b, w):
    a, b = to_signed(a, w), to_signed(b, w)
    return a % b if b else a


def _floordiv_s(a, b, w):
    a, b = to_signed(a, w), to_signed(b, w)
    return a // b if b else 0


def _truncdiv_s(a, b, w):
    a, b = to_signed(a, w), to_signed(b, w)
    if not b: return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _udiv(a, b, w): return a // b if b else mask(w)
def _urem(a, b, w): return a % b if b else a


_DIV = {"floormod": _floormod_s, "floordiv": _floordiv_s, "truncdiv": _truncdiv_s, "udiv": _udiv, "urem": _urem}


def divop(op, x, y):
    assert x.w == y.w
    if is_const(x) and is_const(y):
        return const(_DIV[op](x.val, y.val, x.w), x.w)
    if op == "floormod" and is_const(y) and y.val in ZP_MODULI:
        r = zp_mod(x, y.val)
        if r is not None:
            return r
    if op in ("floormod", "urem") and is_const(y) and y.val:
        return sub(x, scale(divop("floordiv" if op == "floormod" else "udiv", x, y), y.val))
    return _mk(op, x.w, (x, y))


# ------------------------------------------------------------------ residues of a small modulus
# A word reduced modulo p in ZP_MODULI is kept as a polynomial over Z/p ("zp": args = atoms, val = (p, ((indices, coeff), ...))),
# its value being the residue in [0, p).  A word is only turned into one when interval arithmetic shows that its machine
# arithmetic did not wrap, using the ranges of the case at hand (RANGES, filled by the range assumptions, empty outside).
# Moduli of 63 bits and more (the odd ring) read their atoms unsigned and are built by zp_sum only.
ZP_MODULI = {107}
RANGES = {}
RESIDUES = {}      # variable -> modulus of which it is a canonical (unsigned) residue


def interval(n, memo=None):
    """(lo, hi): bounds of the signed reading of n"""
    memo = {} if memo is None else memo
    full = (-(1 << (n.w - 1)), (1 << (n.w - 1)) - 1) if n.w > 1 else (0, 1)
    if n.id in memo:
        return memo[n.id]
    op = n.op
    r = full
    if op == "const":
        v = to_signed(n.val, n.w) if n.w > 1 else n.val
        r = (v, v)
    elif op == "var":
        r = RANGES.get(n, full)
    elif op == "zp" and not n.val[0] >> 62:
        r = (0, n.val[0] - 1)
    elif op == "zext":
        r = (0, mask(n.args[0].w))
    elif op == "sext" and n.args[0].w > 1:
        r = interval(n.args[0], memo)
    elif op == "and" and any(is_const(a) and not a.val >> (n.w - 1) for a in n.args):
        r = (0, min(a.val for a in n.args if is_const(a)))
    elif op == "bsel" and len(n.val) < n.w:
        r = (0, mask(len(n.val)))
    elif op == "lshr" and n.val:
        r = (0, mask(n.w - n.val))
    elif op == "ite":
        a, b = interval(n.args[1], memo), interval(n.args[2], memo)
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op in ("lin", "mul"):
        e = exact(n, memo)
        if e is not None:
            r = e
        if op == "lin":      # x - d * floor(x / d)
            for a, k in zip(n.args, n.val[1]):
                if a.op == "floordiv" and is_const(a.args[1]) and k == -a.args[1].val & mask(n.w) and 0 < to_signed(a.args[1].val, n.w) \
                        and add(n, scale(a, a.args[1].val)) is a.args[0]:
                    r = (0, to_signed(a.args[1].val, n.w) - 1)
    elif op == "trunc" and n.w > 1:
        e = interval(n.args[0], memo)
        if -(1 << (n.w - 1)) <= e[0] and e[1] < 1 << (n.w - 1):
            r = e
    elif op == "floordiv" and is_const(n.args[1]) and to_signed(n.args[1].val, n.w) > 0:
        lo, hi = interval(n.args[0], memo)
        d = to_signed(n.args[1].val, n.w)
        r = (lo // d, hi // d)
    elif op == "r2i":
        e = real_interval(n.args[0], memo)
        if e is not None and full[0] < e[0] and e[1] < full[1]:
            r = (math.trunc(e[0]), math.trunc(e[1]))
    memo[n.id] = r
    return r


def real_interval(n, memo):
    """bounds of a real term, or None"""
    if n.op == "const":
        return n.val, n.val
    if n.op == "var":
        return RANGES.get(n)
    if n.op == "i2r":
        return interval(n.args[0], memo) if n.args[0].w > 1 else None
    if n.op == "u2r" and n.args[0].w > 1:
        lo, hi = interval(n.args[0], memo)
        return (lo, hi) if lo >= 0 else (0, mask(n.args[0].w))
    if n.op in ("rround", "rfloor"):
        e = real_interval(n.args[0], memo)
        return None if e is None else (math.floor(e[0]), math.ceil(e[1]))
    if n.op == "rdiv" and is_const(n.args[1]) and n.args[1].val > 0:
        e = real_interval(n.args[0], memo)
        return None if e is None else (Fraction(e[0]) / n.args[1].val, Fraction(e[1]) / n.args[1].val)
    if n.op == "lin":
        lo = hi = n.val[0]
        for a, k in zip(n.args, n.val[1]):
            e = real_interval(a, memo)
            if e is None:
                return None
            lo, hi = lo + min(k * e[0], k * e[1]), hi + max(k * e[0], k * e[1])
        return lo, hi
    return None


def exact(n, memo=None):
    """bounds of a sum or product read over the integers, when they fit the word (no wrap-around); else None"""
    memo = {} if memo is None else memo
    if n.w < 2:
        return None
    if n.op == "lin":
        lo = hi = to_signed(n.val[0], n.w)
        for a, k in zip(n.args, n.val[1]):
            k = to_signed(k, n.w)
            u, v = interval(a, memo)
            lo, hi = lo + min(k * u, k * v), hi + max(k * u, k * v)
    elif n.op == "mul":
        (a, b), (c, d) = interval(n.args[0], memo), interval(n.args[1], memo)
        ps = (a * c, a * d, b * c, b * d)
        lo, hi = min(ps), max(ps)
    else:
        return interval(n, memo)
    return (lo, hi) if -(1 << (n.w - 1)) <= lo and hi < 1 << (n.w - 1) else None


def is_bit(n):
    return n.w == 1 or interval(n) in ((0, 1), (0, 0), (1, 1)) or n.op == "zext" and n.args[0].w == 1


def _zp_reduce(r, p):
    return {m: c % p for m, c in r.items() if c % p}


def zp_poly(n, p, memo=None):
    """{tuple of atom nodes sorted by id: coefficient mod p}, congruent to the signed value of n"""
    memo = {} if memo is None else memo
    if n.op == "const":
        return _zp_reduce({(): to_signed(n.val, n.w) if n.w > 1 and not p >> 62 else n.val}, p)
    if n.op == "zp" and n.val[0] == p:
        return {tuple(n.args[i] for i in m): c for m, c in n.val[1]}
    if p >> 62:
        return {(n,): 1}
    if n.op == "lin" and exact(n, memo) is not None:
        r = {(): to_signed(n.val[0], n.w)}
        for a, k in zip(n.args, n.val[1]):
            k = to_signed(k, n.w)
            for m, c in zp_poly(a, p, memo).items():
                r[m] = r.get(m, 0) + k * c
        return _zp_reduce(r, p)
    if n.op == "trunc" and n.w > 1 and -(1 << (n.w - 1)) <= interval(n.args[0], memo)[0] and interval(n.args[0], memo)[1] < 1 << (n.w - 1):
        return zp_poly(n.args[0], p, memo)
    if n.op == "mul" and exact(n, memo) is not None:
        return _zp_mul(zp_poly(n.args[0], p, memo), zp_poly(n.args[1], p, memo), p)
    return {(n,): 1}


def _zp_mul(x, y, p):
    r = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = m1 + m2
            if m1 and m2:
                seen, out = set(), []
                for a in sorted(m, key=lambda t: t.id):
                    if a.id in seen and is_bit(a):
                        continue
                    seen.add(a.id)
                    out.append(a)
                m = tuple(out)
            r[m] = r.get(m, 0) + c1 * c2
    return _zp_reduce(r, p)


def zp_make(r, p, w):
    if not r or set(r) == {()}:
        return const(r.get((), 0), w)
    if len(r) == 1:
        (m, c), = r.items()
        if c == 1 and len(m) == 1:
            if p >> 62:
                return m[0] if RESIDUES.get(m[0]) == p else _mk("zp", w, m, (p, (((0,), 1),)))
            lo, hi = interval(m[0])
            if 0 <= lo and hi < p and m[0].w == w:
                return m[0]
    atoms = sorted({a for m in r for a in m}, key=lambda a: a.id)
    ix = {a: i for i, a in enumerate(atoms)}
    return _mk("zp", w, tuple(atoms), (p, tuple(sorted((tuple(ix[a] for a in m), c) for m, c in r.items()))))


def zp_sum(p, w, *pairs):
    """sum of coefficient * word (read unsigned) modulo p"""
    r = {}
    for k, n in pairs:
        for m, c in zp_poly(n, p).items():
            r[m] = r.get(m, 0) + k * c
    return zp_make(_zp_reduce(r, p), p, w)


def zp_mod(x, p):
    """x floormod p"""
    if x.op in ("lin", "mul") and exact(x) is None and interval(x)[1] - interval(x)[0] >= mask(x.w):
        return None
    return zp_make(zp_poly(x, p), p, x.w)


def zp_is_zero(n):
    """the condition n == 0 as a boolean formula, or None"""
    p = n.val[0]
    r = zp_poly(n, p)
    # a factor that is never a multiple of p (p prime: no zero divisors)
    while True:
        common = set.intersection(*[set(m) for m in r])
        common = [a for a in common if interval(a)[0] >= 1 and interval(a)[1] < p and all(m.count(a) == 1 for m in r)]
        if not common or any(p % d == 0 for d in range(2, int(p ** .5) + 1)):
            break
        r = {tuple(b for b in m if b is not common[0]): c for m, c in r.items()}
        if set(r) == {()}:
            return const(0, 1)
    if not all(is_bit(a) for m in r for a in m):
        return None
    return _zp_bool(r, p, 0)


def _bit(a):
    return a if a.w == 1 else trunc(a, 1)


def _zp_set(r, a, v, p):
    out = {}
    for m, c in r.items():
        if a in m:
            if not v: continue
            m = tuple(b for b in m if b is not a)
        out[m] = out.get(m, 0) + c
    return _zp_reduce(out, p)


def _zp_bool(r, p, depth):
    """P(bits) = 0 mod p, as a formula: split on bits that tie many others together, then P is a sum of functions of
    disjoint small groups of bits, whose exact range decides which multiple of p can be met"""
    r = {m: c - p if c > p // 2 else c for m, c in r.items()}
    parent = {}
    def find(a):
        while parent[a] is not a:
            a = parent[a]
        return a
    for m in r:
        for a in m:
            parent.setdefault(a, a)
        for a in m[1:]:
            x, y = find(m[0]), find(a)
            if x is not y: parent[x] = y
    groups = {}
    for m, c in r.items():
        if m: groups.setdefault(find(m[0]), {})[m] = c
    for g in groups.values():
        vs = sorted({a for m in g for a in m}, key=lambda a: a.id)
        if len(vs) > 3:
            if depth > 6: return None
            cnt = {a: sum(a in m for m in g) for a in vs}
            a = max(vs, key=lambda t: (cnt[t], -t.id))
            hi, lo = (_zp_bool(_zp_set(r, a, v, p), p, depth + 1) for v in (1, 0))
            return None if hi is None or lo is None else ite(_bit(a), hi, lo)
    tabs, lo, hi = [], r.get((), 0), r.get((), 0)
    for g in groups.values():
        vs = sorted({a for m in g for a in m}, key=lambda a: a.id)
        tab = {}
        for bits in itertools.product((0, 1), repeat=len(vs)):
            env = dict(zip(vs, bits))
            tab[bits] = sum(c for m, c in g.items() if all(env[a] for a in m))
        tabs.append((vs, tab))
        lo, hi = lo + min(tab.values()), hi + max(tab.values())
    mult = [k for k in range(-(-lo // p) * p, hi + 1, p)]
    if not mult:
        return const(0, 1)
    if len(mult) == 1 and mult[0] in (lo, hi):
        pick = min if mult[0] == lo else max
        out = []
        for vs, tab in tabs:
            t = pick(tab.values())
            out.append(_table_formula(vs, {b: v == t for b, v in tab.items()}, ()))
        return conj(*sorted(out, key=lambda n: n.id))
    return None


def _table_formula(vs, tab, pre):
    if len(pre) == len(vs):
        return const(int(tab[pre]), 1)
    hi, lo = _table_formula(vs, tab, pre + (1,)), _table_formula(vs, tab, pre + (0,))
    b = _bit(vs[len(pre)])
    if hi is lo: return hi
    if hi is bnot(lo): return xor(b, lo)
    return ite(b, hi, lo)


# variable shifts
def vshift(op, x, y):
    """op in shl/lshr/ashr with a symbolic amount (taken unsigned; >= w saturates)."""
    if is_const(y):
        return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](x, y.val)
    return _mk("v" + op, x.w, (x, y))


# ------------------------------------------------------------------ reals
def i2r(x, signed=True):
    if is_const(x):
        return const(to_signed(x.val, x.w) if signed and x.w > 1 else x.val, REAL)
    return _mk("i2r" if signed else "u2r", REAL, (x,))


def r2i(x, w):
    if x.op == "ite" and is_const(x.args[1]) and is_const(x.args[2]):
        return ite(x.args[0], r2i(x.args[1], w), r2i(x.args[2], w))
    """cast of a real to an integer word, truncating toward zero."""
    if is_const(x):
        return const(math.trunc(x.val), w)
    if x.op == "i2r" and x.args[0].w <= w:
        return sext(x.args[0], w)
    return _mk("r2i", w, (x,))


def rround(x):
    """round half to even"""
    if is_const(x):
        return const(round(x.val), REAL)
    return _mk("rround", REAL, (x,))


def rfloor(x):
    if is_const(x):
        return const(math.floor(x.val), REAL)
    return _mk("rfloor", REAL, (x,))


def rdiv(x, y):
    if is_const(y):
        return scale(x, 1 / y.val)
    return _mk("rdiv", REAL, (x, y))


def uf(name, w, *args, val=None):
    """uninterpreted function application"""
    return _mk("uf", w, args, (name, val))


# ------------------------------------------------------------------ evaluation
def _round_half_even(x):
    return Fraction(round(x))


def topo(roots):
    seen, order = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return order


def free_vars(n):
    if n._vars is None:
        for m in topo([n]):
            if m._vars is None:
                if m.op == "var":
                    m._vars = frozenset((m,))
                elif not m.args:
                    m._vars = frozenset()
                elif len(m.args) == 1:
                    m._vars = m.args[0]._vars
                else:
                    m._vars = frozenset().union(*[a._vars for a in m.args])
    return n._vars


def evaluate(roots, env, default=0, ufs=None):
    """env: var node -> int.  Returns list of values (words unsigned)."""
    memo = {}
    for n in topo(roots):
        op, w = n.op, n.w
        a = [memo[x.id] for x in n.args]
        if op == "const": v = n.val
        elif op == "var":
            v = env.get(n, default)
            if w: v &= mask(w)
        elif op == "lin":
            v = n.val[0]
            for k, x in zip(n.val[1], a): v += k * x
        elif op == "mul": v = a[0] * a[1]
        elif op == "xor":
            v = n.val
            for x in a: v ^= x
        elif op == "and": v = a[0] & a[1]
        elif op == "or": v = a[0] | a[1]
        elif op in _GF2: v = _GF2[op](a[0], n.val, w)
        elif op == "bsel":
            v = 0
            for j, i in enumerate(n.val): v |= ((a[0] >> i) & 1) << j
        elif op == "trunc": v = a[0]
        elif op == "zext": v = a[0]
        elif op == "sext": v = to_signed(a[0], n.args[0].w)
        elif op == "eq": v = int(a[0] == a[1])
        elif op in ("ult", "rlt"): v = int(a[0] < a[1])
        elif op == "slt": v = int(to_signed(a[0], n.args[0].w) < to_signed(a[1], n.args[0].w))
        elif op == "ite": v = a[1] if a[0] else a[2]
        elif op in _DIV: v = _DIV[op](a[0], a[1], w)
        elif op == "vshl": v = a[0] << a[1] if a[1] < w else 0
        elif op == "vlshr": v = a[0] >> a[1] if a[1] < w else 0
        elif op == "vashr": v = to_signed(a[0], w) >> min(a[1], w - 1)
        elif op == "i2r": v = Fraction(to_signed(a[0], n.args[0].w))
        elif op == "u2r": v = Fraction(a[0])
        elif op == "r2i": v = math.trunc(a[0])
        elif op == "rround": v = _round_half_even(a[0])
        elif op == "rfloor": v = Fraction(math.floor(a[0]))
        elif op == "rdiv": v = a[0] / a[1] if a[1] else Fraction(0)
        elif op == "zp":
            v = 0
            p = n.val[0]
            sa = [to_signed(x, y.w) if y.w > 1 and not p >> 62 else x for x, y in zip(a, n.args)]
            for m, c in n.val[1]:
                for i in m: c = c * sa[i] % p
                v += c
            v %= p
        elif op == "uf":
            key = (n.val, tuple(a))
            ufs = {} if ufs is None else ufs
            if key not in ufs:
                import random
                ufs[key] = random.Random(repr(key)).getrandbits(max(w, 1))
            v = ufs[key]
        else: raise NotImplementedError(op)
        memo[n.id] = v & mask(w) if w else v
    return [memo[r.id] for r in roots]


def substitute(roots, sub):
    """sub: {node: node}"""
    memo = {}
    for n in topo(roots):
        if n in sub:
            memo[n.id] = sub[n]
        else:
            args = [memo[a.id] for a in n.args]
            memo[n.id] = n if all(x is y for x, y in zip(args, n.args)) else rebuild(n, args)
    return [memo[r.id] for r in roots]


def rebuild(n, a):
    op, w = n.op, n.w
    if op == "lin":
        return add(const(n.val[0], w), *[scale(x, k) for x, k in zip(a, n.val[1])])
    if op == "mul": return mul(*a)
    if op == "xor": return xor(const(n.val, w), *a)
    if op == "and": return band(*a)
    if op == "or": return bor(*a)
    if op == "shl": return shl(a[0], n.val)
    if op == "lshr": return lshr(a[0], n.val)
    if op == "ashr": return ashr(a[0], n.val)
    if op == "bitrev": return bitrev(a[0])
    if op == "bsel": return bits_select(a[0], n.val, w)
    if op == "trunc": return trunc(a[0], w)
    if op == "zext": return zext(a[0], w)
    if op == "sext": return sext(a[0], w)
    if op == "eq": return eq(*a)
    if op in ("ult", "rlt"): return ult(*a)
    if op == "slt": return slt(*a)
    if op == "ite": return ite(*a)
    if op in _DIV: return divop(op, *a)
    if op in ("vshl", "vlshr", "vashr"): return vshift(op[1:], *a)
    if op in ("i2r", "u2r"): return i2r(a[0], op == "i2r")
    if op == "r2i": return r2i(a[0], w)
    if op == "rround": return rround(a[0])
    if op == "rfloor": return rfloor(a[0])
    if op == "rdiv": return rdiv(*a)
    if op == "zp":
        p = n.val[0]
        r = {}
        for m, c in n.val[1]:
            q = {(): c}
            for i in m: q = _zp_mul(q, zp_poly(a[i], p), p)
            for k, v in q.items(): r[k] = r.get(k, 0) + v
        return zp_make(_zp_reduce(r, p), p, w)
    if op == "uf": return uf(n.val[0], w, *a, val=n.val[1])
    raise NotImplementedError(op)


# ------------------------------------------------------------------ polynomial normal form
class TooBig(Exception):
    pass


def poly(n, memo=None, limit=20000):
    """dict {sorted tuple of atom ids: coeff mod 2^w} ; atoms are non lin/mul nodes."""
    memo = {} if memo is None else memo
    w = n.w
    def go(n):
        if n.id in memo: return memo[n.id]
        if n.op == "const":
            r = {(): n.val} if n.val else {}
        elif n.op == "lin":
            r = {}
            if n.val[0]: r[()] = n.val[0]
            for a, k in zip(n.args, n.val[1]):
                for m, c in go(a).items():
                    r[m] = r.get(m, 0) + c * k
        elif n.op == "mul":
            p, q = go(n.args[0]), go(n.args[1])
            if len(p) * len(q) > limit: raise TooBig()
            r = {}
            for m1, c1 in p.items():
                for m2, c2 in q.items():
                    m = tuple(sorted(m1 + m2))
                    r[m] = r.get(m, 0) + c1 * c2
        elif n.op == "shl":
            r = {m: c << n.val for m, c in go(n.args[0]).items()}
        else:
            r = {(n.id,): 1}
        if w:
            M = mask(w)
            r = {m: c & M for m, c in r.items() if c & M}
        else:
            r = {m: c for m, c in r.items() if c}
        memo[n.id] = r
        return r
    return go(n)


def anf(n, memo=None, limit=3000):
    """bitwise normal form {set of atom ids: mask}: the xor over the sets of (and of the atoms) & mask"""
    memo = {} if memo is None else memo
    w = n.w
    full = mask(w)

    def mulp(p, q):
        if len(p) * len(q) > limit:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                c = c1 & c2
                if c:
                    m = m1 | m2
                    c ^= r.get(m, 0)
                    if c:
                        r[m] = c
                    else:
                        r.pop(m, None)
        return r

    def addp(p, q):
        r = dict(p)
        for m, c in q.items():
            c ^= r.get(m, 0)
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r

    for x in topo([n]):
        if x.w != w or x.id in memo:
            continue
        e = frozenset()
        if x.op == "const":
            r = {e: x.val} if x.val else {}
        elif x.op == "xor":
            r = {e: x.val} if x.val else {}
            for a in x.args:
                r = addp(r, memo[a.id])
        elif x.op == "and":
            r = mulp(memo[x.args[0].id], memo[x.args[1].id])
        elif x.op == "or":
            p, q = memo[x.args[0].id], memo[x.args[1].id]
            r = addp(addp(p, q), mulp(p, q))
        elif x.op == "ite" and w == 1:
            c, p, q = [memo[a.id] for a in x.args]
            r = addp(q, mulp(c, addp(p, q)))
        elif x.op == "eq" and w == 1 and x.args[0].w == 1:
            r = addp(addp(memo[x.args[0].id], memo[x.args[1].id]), {e: 1})
        elif x.op == "lin" and w == 1:
            r = {e: 1} if x.val[0] & 1 else {}
            for a, k in zip(x.args, x.val[1]):
                if k & 1:
                    r = addp(r, memo[a.id])
        elif x.op == "mul" and w == 1:
            r = mulp(memo[x.args[0].id], memo[x.args[1].id])
        else:
            r = {frozenset((x.id,)): full}
        if len(r) > limit:
            raise TooBig()
        memo[x.id] = r
    return memo[n.id]


def canon(roots, limit=400):
    """the same terms with every sum of products multiplied out (where that stays small)"""
    memo = {}
    byid = {}
    for n in topo(roots):
        a = [memo[x.id] for x in n.args]
        m = n if all(x is y for x, y in zip(a, n.args)) else rebuild(n, a)
        if m.op in ("lin", "mul") and m.w > 1 and any(x.op == "mul" for x in (m.args if m.op == "lin" else (m,))):
            try:
                p = poly(m, limit=limit)
                if len(p) <= limit:
                    for x in topo([m]):
                        byid[x.id] = x
                    r = []
                    for mon, c in sorted(p.items()):
                        t = const(1, m.w)
                        for i in mon:
                            t = mul(t, byid[i])
                        r.append(scale(t, c))
                    m = add(*r) if r else const(0, m.w)
            except (TooBig, KeyError):
                pass
        memo[n.id] = m
    return [memo[x.id] for x in roots]


def show(n, depth=6):
    if n.op == "const": return str(n.val if not n.w or n.w == 1 else to_signed(n.val, n.w))
    if n.op == "var": return str(n.val)
    if depth == 0: return "…"
    if n.op == "lin":
        s = [] if n.val[0] == 0 else [str(n.val[0] if not n.w else to_signed(n.val[0], n.w))]
        for a, k in zip(n.args, n.val[1]):
            k = k if not n.w else to_signed(k, n.w)
            s.append(("" if k == 1 else "-" if k == -1 else f"{k}*") + show(a, depth - 1))
        return "(" + " + ".join(s) + ")"
    if n.op == "xor":
        return "(" + " ^ ".join(([hex(n.val)] if n.val else []) + [show(a, depth - 1) for a in n.args]) + ")"
    v = "" if n.val is None else f"[{n.val}]"
    return f"{n.op}{v}(" + ", ".join(show(a, depth - 1) for a in n.args) + ")"
