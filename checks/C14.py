"""Tensor backends: every operation of a backing tensor is the operation of its ring, element by element.

A backend element is a tuple of components, each a residue modulo its own modulus (one component except for the 100-bit
residue-number backend).  Specifications are numpy functions over exact ring elements; the residue-number backend is tied
to the integers by its decoding, remainder, truncation and bit decomposition, stated on the represented integer itself."""
import itertools
import math

import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import spec as R
from tf_encrypted.tensor import factories
from tf_encrypted.tensor import native as NAT
from tf_encrypted.tensor.boolfactory import bool_factory
from tf_encrypted.protocol.securenn import securenn as SN

MODULI = [1201, 1433, 1217, 1237, 1321, 1103, 1129, 1367, 1093, 1039]
M100 = math.prod(MODULI)
T.ZP_MODULI |= set(MODULI) | {67}


class Z:
    """an exact residue modulo p, kept as a polynomial over the input words"""
    def __init__(self, p, poly):
        self.p, self.poly = p, poly

    def _bin(self, o, k):
        r = dict(self.poly)
        for m, c in o.poly.items():
            r[m] = r.get(m, 0) + k * c
        return Z(self.p, T._zp_reduce(r, self.p))

    def __add__(self, o): return self._bin(o, 1)
    def __sub__(self, o): return self._bin(o, -1)
    def __neg__(self): return Z(self.p, {})._bin(self, -1)
    def __mul__(self, o): return Z(self.p, T._zp_mul(self.poly, o.poly, self.p))
    def node(self, w): return T.zp_make(self.poly, self.p, w)


class Backend:
    """how to make elements and read them: components, word width, modulus of each component (None: 2^w)"""
    moduli = (None,)

    def __init__(self, tag, factory, w, moduli=(None,), dtype=None):
        self.tag, self.f, self.w, self.moduli, self.dtype = tag, factory, w, tuple(moduli), dtype or factory.native_type

    def raw(self, h, name, shape):
        out = []
        for i, m in enumerate(self.moduli):
            n = name if len(self.moduli) == 1 else "%s_c%d" % (name, i)
            out.append(h.array(n, shape, self.w) if m is None else h.array(n, shape, self.w, 0, m - 1))
        return out

    def make(self, h, name, shape):
        """-> (backing tensor, per component object arrays of ring elements)"""
        raw = self.raw(h, name, shape)
        return self.wrap(h, raw), [self.elements(a, m) for a, m in zip(raw, self.moduli)]

    def elements(self, a, m):
        return a if m is None else vmap(lambda t: Z(m, T.zp_poly(t, m)), a)

    def wrap(self, h, raw):
        return self.f.tensor(h.tensor(raw[0], self.dtype), encode=False)

    def read(self, h, t):
        return [h.terms(t.value)]

    def words(self, e, m):
        return e if m is None else vmap(lambda z: z.node(self.w), e)

    def const(self, v):
        return [T.const(v, self.w) if m is None else Z(m, {(): v % m} if v % m else {}) for m in self.moduli]

    def check(self, h, label, t, want):
        """t holds `want` (list per component) and says so in its shape"""
        got = self.read(h, t)
        for g, e, m in zip(got, want, self.moduli):
            e = R.z0(e) if not isinstance(e, np.ndarray) else e
            h.ensure_true(label + ".shape", tuple(t.shape) == e.shape, "shape %s, expected %s" % (tuple(t.shape), e.shape))
            h.ensure_eq(label, g, self.words(e, m))
            h.ensure_true(label + ".backend", t.factory is self.f, "result belongs to another backend")


class I128(Backend):
    def wrap(self, h, raw):
        return self.f.tensor(h.tensor128(raw[0]), encode=False)

    def read(self, h, t):
        return [h.val(t)]


class Crt(Backend):
    def wrap(self, h, raw):
        return self.f.tensor([h.tensor(a, rtf.int32) for a in raw], encode=False)

    def read(self, h, t):
        return [h.terms(x) for x in t.backing]


def vmap(f, *a):
    r = np.empty(np.broadcast(*a).shape, dtype=object)
    bs = np.broadcast_arrays(*a)
    for i in np.ndindex(*r.shape):
        r[i] = f(*[b[i] for b in bs])
    return r


def backends():
    out = [Backend("int%d" % w, factories[w], w) for w in (8, 16, 32, 64)]
    out.append(I128("int128", factories[128], 128, dtype=rtf.int64))
    out.append(Backend("bool", factories[rtf.bool], 1))
    out.append(Crt("int100", factories[100], 32, MODULI))
    out.append(Backend("int32mod67", NAT.native_factory(rtf.int32, 67), 32, (67,)))
    out.append(Backend("int64mod107", NAT.native_factory(rtf.int64, 107), 64, (107,)))
    return out


def each(f, *es):
    """apply a reference function component by component"""
    return [f(*c) for c in zip(*es)]


# ------------------------------------------------------------------ structural operations
def structural(r, b):
    f = b.f
    is100, isbool, is128 = isinstance(b, Crt), b.tag == "bool", b.tag == "int128"
    ops = []

    def add(name, shapes, real, ref):
        ops.append((name, shapes, real, ref))
    one = lambda n, shape, real, ref: add(n, [shape], lambda x: real(x), lambda X: ref(X))
    one("identity", (2, 3), lambda x: x.identity(), lambda X: X)
    one("identity[]", (), lambda x: x.identity(), lambda X: X)
    for shape in ([6], [3, 2], [1, -1], [2, 1, 3], [-1, 2]):
        one("reshape%s" % shape, (2, 3), lambda x, s=shape: x.reshape(list(s)), lambda X, s=shape: X.reshape(s))
    for perm in ([1, 0, 2], [2, 0, 1], [0, 2, 1], [2, 1, 0]):
        one("transpose%s" % perm, (2, 3, 2), lambda x, p=perm: x.transpose(p), lambda X, p=perm: X.transpose(p))
    one("transpose[None]", (2, 3), lambda x: x.transpose(None), lambda X: X.T)
    for ax in (0, 1, 2, -1, -2):
        one("expand_dims%d" % ax, (2, 3), lambda x, a=ax: x.expand_dims(axis=a), lambda X, a=ax: np.expand_dims(X, a))
    for ax in ([0], [2], [0, 2], [-1]):
        one("squeeze%s" % ax, (1, 3, 1), lambda x, a=ax: x.squeeze(axis=a), lambda X, a=ax: np.squeeze(X, tuple(a)))
    one("squeeze", (1, 3, 1), lambda x: x.squeeze(), lambda X: np.squeeze(X))
    for ix, ax in (([0, 1], 0), ([2, 0, 0], 1), ([1], -1), ([[0, 1], [1, 0]], 0)):
        one("gather%s,%d" % (ix, ax), (2, 3), lambda x, i=ix, a=ax: x.gather(i, axis=a), lambda X, i=ix, a=ax: np.take(X, i, axis=a))
    for n, ax, cuts in ((2, 0, [1]), (3, 1, [1, 2]), (3, -1, [1, 2]), ([1, 2], 1, [1])):
        for part in range(len(cuts) + 1):
            one("split%s,%d[%d]" % (n, ax, part), (2, 3), lambda x, n=n, a=ax, p=part: x.split(n, axis=a)[p],
                lambda X, a=ax, c=cuts, p=part: np.split(X, c, axis=a)[p])
    sl = [("0", np.s_[0]), ("1:", np.s_[1:]), ("::-1", np.s_[::-1]), (":,1", np.s_[:, 1]), ("...,0", np.s_[..., 0]), ("1,2", np.s_[1, 2]), ("...,1:", np.s_[..., 1:]),
          (":,::2", np.s_[:, ::2]), ("newaxis", np.s_[:, None]), ("-1", np.s_[-1]), ("...", np.s_[...])]
    for n, s in sl:
        one("getitem[%s]" % n, (2, 3), lambda x, s=s: x[s], lambda X, s=s: X[s])
    one("strided_slice", (3, 4), lambda x: x.strided_slice(([1, 0], [3, 4], [1, 2]), {}), lambda X: X[1:3, 0:4:2])
    one("strided_slice[masks]", (3, 4), lambda x: x.strided_slice(([1, 1], [3, 4], [1, 2]), {"begin_mask": 2}), lambda X: X[1:3, 0:4:2])
    for ax in (0, 1, 2, -1):
        add("stack%d" % ax, [(2, 3), (2, 3)], lambda x, y, a=ax: f.stack([x, y], axis=a), lambda X, Y, a=ax: np.stack([X, Y], axis=a))
    for ax in (0, 1, -1):
        add("concat%d" % ax, [(2, 2), (2, 2)], lambda x, y, a=ax: f.concat([x, y], axis=a), lambda X, Y, a=ax: np.concatenate([X, Y], axis=a))
    add("concat-uneven", [(1, 2), (2, 2), (1, 2)], lambda *x: f.concat(list(x), axis=0), lambda *X: np.concatenate(X, axis=0))
    if not is100:
        for ax in ([0], [1], [0, 1], [-1]):
            one("reverse%s" % ax, (2, 3), lambda x, a=ax: x.reverse(a), lambda X, a=ax: np.flip(X, tuple(a)))
        for m in ([2, 1], [1, 3], [2, 2]):
            one("tile%s" % m, (2, 3), lambda x, m=m: f.tile(x, m), lambda X, m=m: np.tile(X, m))
    if not is100 and not isbool:
        for p in ([[0, 0], [1, 2]], [[1, 0], [0, 0]], [[1, 1], [1, 1]]):
            one("pad%s" % p, (2, 3), lambda x, p=p: f.pad(x, p), lambda X, p=p: R.pad_zeros(X, p))
        one("scatter_nd", (2,), lambda x: x.scatter_nd(rtf.constant([[3], [1]]), (4,)),
            lambda X: np.stack([R.zero_of(X), X[1], R.zero_of(X), X[0]]))
        one("scatter_nd[repeated]", (3,), lambda x: x.scatter_nd(rtf.constant([[1], [0], [1]]), (3,)),
            lambda X: np.stack([X[1], X[0] + X[2], R.zero_of(X)])) if not is128 and b.moduli == (None,) else None
    if not isbool:
        for blk, pads in (([2, 2], [[0, 0], [0, 0]]), ([2, 1], [[1, 1], [0, 0]]), ([2, 3], [[0, 0], [1, 1]])):
            one("space_to_batch%s%s" % (blk, pads), (1, 2, 4, 1), lambda x, k=blk, p=pads: x.space_to_batch(k, p), lambda X, k=blk, p=pads: R.space_to_batch(X, k, p))
        for blk, crops in (([2, 2], [[0, 0], [0, 0]]), ([2, 2], [[1, 0], [0, 1]])):
            one("batch_to_space%s%s" % (blk, crops), (4, 1, 2, 1), lambda x, k=blk, p=crops: x.batch_to_space(k, p), lambda X, k=blk, p=crops: R.batch_to_space(X, k, p))
        for (kh, kw), st, pad, df in itertools.product(((2, 2), (1, 3)), ([1, 1], [2, 1], [1, 2]), ("SAME", "VALID"), ("NCHW", "NHWC")):
            one("im2patches%s%s%s%s" % ((kh, kw), st, pad, df), (1, 2, 3, 4) if df == "NCHW" else (1, 3, 4, 2),
                lambda x, k=(kh, kw), st=st, pad=pad, df=df: x.im2patches(k, strides=st, padding=pad, data_format=df),
                lambda X, k=(kh, kw), st=st, pad=pad, df=df: im2patches(X, k, st, pad, df))
        if not is100:
            for k, st, pad, size, df in (((2, 2), [1, 1], "VALID", (3, 4), "NCHW"), ((2, 2), [2, 2], "VALID", (4, 5), "NCHW"), ((2, 2), [2, 1], "VALID", (4, 5), "NCHW"), ((2, 3), [1, 2], "VALID", (3, 5), "NCHW"),
                                         ((2, 2), [2, 2], "VALID", (4, 7), "NCHW"), ((2, 2), [2, 2], "VALID", (5, 4), "NCHW"), ((2, 2), [1, 1], "SAME", (3, 4), "NCHW"), ((2, 3), [2, 1], "SAME", (3, 4), "NHWC"),
                                         ((3, 2), [1, 2], "SAME", (3, 5), "NCHW")):
                oh, ow = R.pads(size[0], k[0], st[0], pad)[0], R.pads(size[1], k[1], st[1], pad)[0]
                ch = k[0] * k[1] * 2
                one("patches2im%s%s%s%s%s" % (k, st, pad, size, df), (1, ch, oh, ow) if df == "NCHW" else (1, oh, ow, ch),
                    lambda x, k=k, st=st, pad=pad, size=size, df=df: x.patches2im(k, strides=st, padding=pad, img_size=size, data_format=df),
                    lambda X, k=k, st=st, pad=pad, size=size, df=df: patches2im(X, k, st, pad, size, df))
            for (kh, kw), st, pad in itertools.product(((2, 2), (1, 3)), ([1, 1], [2, 1]), ("SAME", "VALID")):
                one("im2col%s%s%s" % ((kh, kw), st, pad), (2, 2, 3, 4), lambda x, k=(kh, kw), st=st, pad=pad: x.im2col(k[0], k[1], st, pad),
                    lambda X, k=(kh, kw), st=st, pad=pad: im2col(X, k, st, pad))
    for name, shapes, real, ref in ops:
        def fn(h, shapes=shapes, real=real, ref=ref):
            xs = [b.make(h, "xyz"[i], s) for i, s in enumerate(shapes)]
            b.check(h, "result", real(*[x for x, _ in xs]), each(ref, *[e for _, e in xs]))
        r.case("%s.%s" % (b.tag, name), fn, trials=1)

    def consts(h):
        if not is100 and not isbool:
            for shape in ((), (2,), (2, 3)):
                z, o = f.zeros(shape), f.ones(shape)
                b.check(h, "zeros", z, [full(shape, c) for c in b.const(0)])
                b.check(h, "ones", o, [full(shape, c) for c in b.const(1)])
                b.check(h, "zeros_like", f.zeros_like(o), [full(shape, c) for c in b.const(0)])
                b.check(h, "ones_like", f.ones_like(z), [full(shape, c) for c in b.const(1)])
        if is100:
            b.check(h, "zero", f.zero(), [full((), c) for c in b.const(0)])
            b.check(h, "one", f.one(), [full((), c) for c in b.const(1)])
        m = {"bool": 2, "int128": 2**128, "int100": M100, "int32mod67": 67, "int64mod107": 107}.get(b.tag, 2**b.w)
        h.ensure_true("modulus", f.modulus == m, "modulus %s" % f.modulus)
        big = {"int8": 127, "int16": 2**15 - 1, "int32": 2**31 - 1, "int100": 2**62, "bool": 1, "int32mod67": 66, "int64mod107": 106}.get(b.tag, 2**63 - 1)
        low = {"int100": -2**62, "bool": 0, "int32mod67": 0, "int64mod107": 0}.get(b.tag, -big - 1)
        vals = [v for v in (0, 1, -1, 5, big, low) if low <= v <= big]
        dt = bool if isbool else (np.int64 if is100 or is128 else b.dtype.as_numpy_dtype)
        for mk, wrap in ((lambda v: v, f.tensor), (lambda v: v, f.constant)):
            b.check(h, "from-array", wrap(np.array(vals, dtype=dt)), [np.array([b.const(v)[i] for v in vals], dtype=object) for i in range(len(b.moduli))])
            for v in vals:
                if abs(v) < 2**31:
                    b.check(h, "from-int", wrap(bool(v) if isbool else v), [full((), b.const(v)[i]) for i in range(len(b.moduli))])
    r.case("%s.constants" % b.tag, consts, trials=1)

    if not is100:
        def where(h):
            x, X = b.make(h, "x", (2, 2))
            y, Y = b.make(h, "y", (2, 2))
            c = h.array("c", (2, 2), 1)
            got = b.read(h, f.where(h.tensor(c, rtf.bool), x, y))
            for g, p, q, m in zip(got, X, Y, b.moduli):
                h.ensure_eq("where", g, vmap(T.ite, c, b.words(p, m), b.words(q, m)))
        r.case("%s.where" % b.tag, where)


def full(shape, v):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = v
    return a


def im2patches(X, k, st, pad, df):
    if df == "NCHW":
        X = X.transpose(0, 2, 3, 1)
    n, hh, ww, c = X.shape
    oh, pt, _ = R.pads(hh, k[0], st[0], pad)
    ow, pl, _ = R.pads(ww, k[1], st[1], pad)
    z = R.zero_of(X)
    out = np.empty((n, oh, ow, k[0] * k[1] * c), dtype=object)
    for a, i, j, y, x, q in itertools.product(range(n), range(oh), range(ow), range(k[0]), range(k[1]), range(c)):
        yy, xx = i * st[0] + y - pt, j * st[1] + x - pl
        out[a, i, j, (y * k[1] + x) * c + q] = X[a, yy, xx, q] if 0 <= yy < hh and 0 <= xx < ww else z
    return out.transpose(0, 3, 1, 2) if df == "NCHW" else out


def patches2im(X, k, st, pad, size, df):
    """every image position receives the sum of the patch entries laid over it"""
    if df == "NCHW":
        X = X.transpose(0, 2, 3, 1)
    n, oh, ow, ch = X.shape
    c = ch // (k[0] * k[1])
    _, pt, _ = R.pads(size[0], k[0], st[0], pad)
    _, pl, _ = R.pads(size[1], k[1], st[1], pad)
    out = full((n, size[0], size[1], c), R.zero_of(X))
    for a, i, j, y, x, q in itertools.product(range(n), range(oh), range(ow), range(k[0]), range(k[1]), range(c)):
        yy, xx = i * st[0] + y - pt, j * st[1] + x - pl
        if 0 <= yy < size[0] and 0 <= xx < size[1]:
            out[a, yy, xx, q] = out[a, yy, xx, q] + X[a, i, j, (y * k[1] + x) * c + q]
    return out.transpose(0, 3, 1, 2) if df == "NCHW" else out


def im2col(X, k, st, pad):
    """one column per output position (rows-major over positions, batch fastest), channel-first patches"""
    n, c, hh, ww = X.shape
    P = im2patches(X, k, st, pad, "NCHW").transpose(0, 2, 3, 1)
    _, oh, ow, _ = P.shape
    out = np.empty((c * k[0] * k[1], oh * ow * n), dtype=object)
    for a, i, j, y, x, q in itertools.product(range(n), range(oh), range(ow), range(k[0]), range(k[1]), range(c)):
        out[(q * k[0] + y) * k[1] + x, (i * ow + j) * n + a] = P[a, i, j, (y * k[1] + x) * c + q]
    return out


# ------------------------------------------------------------------ ring operations
def ring(r, b):
    f = b.f
    is100, is128 = isinstance(b, Crt), b.tag == "int128"
    SH = [((), ()), ((2,), (2,)), ((2, 2), (2,)), ((2, 1), (1, 2))]
    bin_ = [("add", lambda x, y: x + y, lambda X, Y: X + Y), ("sub", lambda x, y: x - y, lambda X, Y: X - Y), ("mul", lambda x, y: x * y, lambda X, Y: X * Y),
            ("x.add", lambda x, y: x.add(y), lambda X, Y: X + Y), ("x.sub", lambda x, y: x.sub(y), lambda X, Y: X - Y), ("x.mul", lambda x, y: x.mul(y), lambda X, Y: X * Y)]
    for n, real, ref in bin_:
        for s, t in SH:
            def fn(h, real=real, ref=ref, s=s, t=t):
                (x, X), (y, Y) = b.make(h, "x", s), b.make(h, "y", t)
                b.check(h, "result", real(x, y), each(lambda p, q: vmap(ref, p, q), X, Y))
            r.case("%s.%s%s%s" % (b.tag, n, s, t), fn)
    ints = [0, 1, -1, 3, 12, 101] + ([2**40 + 7, 2**62] if b.w >= 64 and b.moduli == (None,) and b.tag != "int128" else []) + ([2**40 + 7, -2**90] if is100 else [])
    for s in ((), (2,)):
        def ifn(h, s=s):
            x, X = b.make(h, "x", s)
            for k in ints:
                K = b.const(k)
                for n, got, ref in (("x+k", x + k, lambda p, c: p + c), ("k+x", k + x, lambda p, c: p + c), ("x-k", x - k, lambda p, c: p - c), ("k-x", k - x, lambda p, c: c - p),
                                    ("x*k", x * k, lambda p, c: p * c), ("k*x", k * x, lambda p, c: p * c)):
                    b.check(h, "%s[k=%d]" % (n, k), got, [vmap(lambda p, c=c: ref(p, c), p) for p, c in zip(X, K)])
            b.check(h, "negative", x.negative(), each(lambda p: vmap(lambda e: -e, p), X))
            if not is100:
                b.check(h, "neg", -x, each(lambda p: vmap(lambda e: -e, p), X))
        r.case("%s.with-integers%s" % (b.tag, s), ifn)
    if b.w >= 32:
        for s, t in (((2, 3), (3, 2)), ((1, 2), (2, 1)), ((2, 2), (2, 3))) + ((((2, 2, 2), (2, 2, 1)),) if not is128 else ()):
            def mm(h, s=s, t=t):
                (x, X), (y, Y) = b.make(h, "x", s), b.make(h, "y", t)
                b.check(h, "matmul", x.matmul(y), each(R.matmul, X, Y))
            r.case("%s.matmul%s%s" % (b.tag, s, t), mm, trials=1)
    if b.moduli == (None,) and b.w >= 32 or is100:
        for (kh, kw), st, pad in itertools.product(((2, 2), (1, 2)), ([1, 1], [2, 1]), ("SAME", "VALID")):
            def cv(h, k=(kh, kw), st=st, pad=pad):
                (x, X), (y, Y) = b.make(h, "x", (1, 2, 3, 3)), b.make(h, "y", k + (2, 2))
                b.check(h, "conv2d", x.conv2d(y, st, pad), each(lambda p, q: R.conv2d_nchw(p, q, st, pad), X, Y))
            r.case("%s.conv2d%s%s%s" % (b.tag, (kh, kw), st, pad), cv, trials=1)
    if b.w >= 32 or True:
        for ax, kd in ((0, False), (1, True), (None, False), (-1, False), ((0, 1), False), (1, False)):
            def rs(h, ax=ax, kd=kd):
                x, X = b.make(h, "x", (2, 3))
                b.check(h, "reduce_sum", x.reduce_sum(axis=list(ax) if isinstance(ax, tuple) else ax, keepdims=kd), each(lambda p: R.reduce_sum(p, ax, kd), X))
            r.case("%s.reduce_sum%s,%s" % (b.tag, ax, kd), rs, trials=1)
    if not is128:
        for ax, ex, rv in itertools.product((0, 1), (False, True), (False, True)):
            def cs(h, ax=ax, ex=ex, rv=rv):
                x, X = b.make(h, "x", (2, 3))
                b.check(h, "cumsum", x.cumsum(axis=ax, exclusive=ex, reverse=rv), each(lambda p: R.cumsum(p, ax, ex, rv), X))
            r.case("%s.cumsum%d,%s,%s" % (b.tag, ax, ex, rv), cs, trials=1)

    def eqs(h):
        (x, X), (y, Y) = b.make(h, "x", (2,)), b.make(h, "y", (2,))
        same = [vmap(T.eq, b.words(p, m), b.words(q, m)) for p, q, m in zip(X, Y, b.moduli)]
        eq = same[0]
        for s in same[1:]:
            eq = vmap(T.band, eq, s)
        got = x.equal(y)
        if is128:
            h.ensure_eq("equal", h.terms(got), eq)
            return
        w = 32 if is100 else b.w
        for i in range(len(b.moduli)):
            h.ensure_eq("equal", b.read(h, got)[i], vmap(lambda e: T.zext(e, w), eq))
        other = factories[64]
        h.ensure_eq("equal[other type]", h.terms(x.equal(y, other).value), vmap(lambda e: T.zext(e, 64), eq))
        zero = [vmap(lambda t: T.eq(t, T.const(0, b.w)), b.words(p, m)) for p, m in zip(X, b.moduli)]
        ez = zero[0]
        for s in zero[1:]:
            ez = vmap(T.band, ez, s)
        h.ensure_eq("equal_zero", h.terms(x.equal_zero(other).value), vmap(lambda e: T.zext(e, 64), ez))
    r.case("%s.equal" % b.tag, eqs)


# ------------------------------------------------------------------ words: shifts, logic, bits
def words(r, b):
    w, is128 = b.w, b.tag == "int128"
    for n, real, ref in (("xor", lambda x, y: x ^ y, T.xor), ("and", lambda x, y: x & y, T.band), ("or", lambda x, y: x | y, T.bor)):
        for s, t in (((2,), (2,)), ((2, 2), (2,))):
            def fn(h, real=real, ref=ref, s=s, t=t):
                (x, X), (y, Y) = b.make(h, "x", s), b.make(h, "y", t)
                b.check(h, "result", real(x, y), each(lambda p, q: vmap(ref, p, q), X, Y))
            r.case("%s.%s%s%s" % (b.tag, n, s, t), fn)

    def inv(h):
        x, X = b.make(h, "x", (2,))
        b.check(h, "invert", ~x, each(lambda p: vmap(T.bnot, p), X))
    r.case("%s.invert" % b.tag, inv)
    for k in sorted({0, 1, 3, w // 2 - 1, w // 2, w // 2 + 1, w - 1}):
        def sh(h, k=k):
            x, X = b.make(h, "x", (2,))
            b.check(h, "lshift", x << k, each(lambda p: vmap(lambda e: T.shl(e, k), p), X))
            b.check(h, "rshift", x >> k, each(lambda p: vmap(lambda e: T.ashr(e, k), p), X))
            b.check(h, "right_shift", x.right_shift(k), each(lambda p: vmap(lambda e: T.ashr(e, k), p), X))
            b.check(h, "truncate", x.truncate(k), each(lambda p: vmap(lambda e: T.ashr(e, k), p), X))
            b.check(h, "logical_rshift", x.logical_rshift(k), each(lambda p: vmap(lambda e: T.lshr(e, k), p), X))
        r.case("%s.shift%d" % (b.tag, k), sh)
    for size in sorted({1, 3, w // 2, w} | ({100} if is128 else set())):
        for tgt in (None, 64, 1):  # 1: bool
            def bt(h, size=size, tgt=tgt):
                x, X = b.make(h, "x", (2,))
                fac = None if tgt is None else factories[rtf.bool if tgt == 1 else tgt]
                got = x.bits(fac, size) if size != w or is128 else x.bits(fac)
                ww = w if tgt is None else tgt
                want = np.empty((2, size), dtype=object)
                for i, j in np.ndindex(2, size):
                    v = T.trunc(T.lshr(X[0][i], j), 1)
                    want[i, j] = v if ww == 1 else T.zext(v, ww)
                h.ensure_eq("bits", h.val(got), want)
            if w >= 32:  # no tf.range kernel for the narrow types
                r.case("%s.bits%d,%s" % (b.tag, size, tgt), bt)
    if not is128:
        for ax in (0, 1, None):
            def rm(h, ax=ax):
                x, X = b.make(h, "x", (2, 3))
                got = h.val(x.reduce_max(axis=ax))
                ref = X[0].reshape(1, -1) if ax is None else np.moveaxis(X[0], ax, -1)
                out = np.empty(ref.shape[:-1], dtype=object)
                for i in np.ndindex(*out.shape):
                    v = ref[i][0]
                    for e in ref[i][1:]:
                        v = T.ite(T.slt(v, e), e, v)
                    out[i] = v
                h.ensure_eq("reduce_max", got, out.reshape(()) if ax is None else out)
            r.case("%s.reduce_max%s" % (b.tag, ax), rm)
        for k in (2, 3, 10, 100):
            def md(h, k=k):
                x, X = b.make(h, "x", (2,))
                b.check(h, "mod", x % k, each(lambda p: vmap(lambda e: T.divop("floormod", e, T.const(k, w)), p), X))
            r.case("%s.mod%d" % (b.tag, k), md)
        # division by a public divisor: exact whenever the divisor is odd and divides what is left
        for base, amount in ((3, 4), (3, 1), (5, 2)):
            if base**amount < 2**(w - 1):
                def td(h, base=base, amount=amount):
                    x, X = b.make(h, "x", (2,))
                    q = vmap(lambda e: T.divop("floordiv", e, T.const(base**amount, w)), X[0])
                    h.ensure_eq("truncate", h.val(x.truncate(amount, base)), q)
                r.case("%s.truncate%d^%d" % (b.tag, base, amount), td)
    for tgt in (8, 16, 32, 64):
        if b.tag == "int128" or tgt <= w:
            def ca(h, tgt=tgt):
                x, X = b.make(h, "x", (2,))
                got = x.cast(factories[tgt])
                h.ensure_true("backend", got.factory is factories[tgt])
                h.ensure_eq("cast", h.val(got), vmap(lambda e: T.trunc(e, tgt) if tgt < w else e, X[0]))
            r.case("%s.cast%d" % (b.tag, tgt), ca)

    def tb(h):
        x, X = b.make(h, "x", (2,))
        h.ensure_eq("cast", h.terms(x.cast(factories[rtf.bool]).value), vmap(lambda e: T.bnot(T.eq(e, T.const(0, w))), X[0]))
    r.case("%s.cast-bool" % b.tag, tb)


def boolean(r, b):
    for n, real, ref in (("xor", lambda x, y: x ^ y, T.xor), ("and", lambda x, y: x & y, T.band), ("or", lambda x, y: x | y, T.bor),
                         ("equal", lambda x, y: x.equal(y), lambda p, q: T.bnot(T.xor(p, q)))):
        def fn(h, real=real, ref=ref):
            (x, X), (y, Y) = b.make(h, "x", (2, 2)), b.make(h, "y", (2,))
            b.check(h, "result", real(x, y), each(lambda p, q: vmap(ref, p, q), X, Y))
        r.case("bool." + n, fn)

    def inv(h):
        x, X = b.make(h, "x", (2,))
        b.check(h, "invert", ~x, each(lambda p: vmap(T.bnot, p), X))
        h.ensure_eq("cast", h.val(x.cast(factories[64])), vmap(lambda e: T.zext(e, 64), X[0]))
        h.ensure_eq("cast8", h.val(x.cast(factories[8])), vmap(lambda e: T.zext(e, 8), X[0]))
        h.ensure_eq("native", h.terms(x.to_native()), X[0])
    r.case("bool.invert", inv)


def native_io(r, b):
    """host integers in, host integers out"""
    w = b.w
    def fn(h):
        a = h.array("x", (2, 2), w)
        for dt in (rtf.int64, b.dtype):
            ww = S.width(dt)
            if ww < w:
                continue
            src = vmap(lambda e: T.sext(e, ww) if ww > w else e, a)
            x = b.f.tensor(h.tensor(src, dt))
            h.ensure_eq("in", h.val(x), a)
            h.ensure_eq("out", h.terms(x.to_native()), a)
            h.ensure_eq("constant", h.val(b.f.constant(h.tensor(src, dt))), a)
            v = b.f.variable(h.tensor(src, dt))
            h.ensure_eq("variable", h.val(v), a)
            h.ensure_eq("variable.read", h.val(v.read_value()), a)
            h.ensure_eq("variable[tensor]", h.val(b.f.variable(x)), a)
    r.case("%s.io" % b.tag, fn)


def io128(r, b):
    def fn(h):
        a = h.array("x", (2,), 64)
        x = b.f.tensor(h.tensor(a, rtf.int64))
        h.ensure_eq("in", h.val(x), vmap(lambda e: T.sext(e, 128), a))
        s = h.array("y", (2,), 64, -2**53, 2**53)
        y = b.f.tensor(h.tensor(s, rtf.int64))
        got = y.to_native()
        if got.dtype.is_floating:
            h.ensure_eq("out", h.terms(got), vmap(T.i2r, s))
        else:
            h.ensure_eq("out", h.terms(got), s)
        v = b.f.variable(x)
        h.ensure_eq("variable.read", h.val(v.read_value()), vmap(lambda e: T.sext(e, 128), a))
    r.case("int128.io", fn)


# ------------------------------------------------------------------ residue numbers as integers
EDGE = M100 // 2 - (M100 >> 10)      # stay away from +-M/2, where the code's float32 rounding decides


def crt(r, b):
    def number(h, name, shape, lo=-EDGE, hi=EDGE):
        v = h.array(name, shape, 128, lo, hi)
        raw = [vmap(lambda e: T.trunc(residue(e, m), 32), v) for m in MODULI]
        return b.wrap(h, raw), v

    def residue(e, m):
        return T.divop("floormod", e, T.const(m, 128))

    def check(h, label, t, v):
        for g, m in zip(b.read(h, t), MODULI):
            h.ensure_eq(label, g, vmap(lambda e: T.trunc(residue(e, m), 32), v))

    for s in ((), (2,)):
        def nat(h, s=s):
            x, v = number(h, "v", s, -2**31, 2**31 - 1)
            h.ensure_eq("to_native", h.terms(x.to_native()), vmap(lambda e: T.trunc(e, 32), v))
        r.case("int100.to_native%s" % (s,), nat)

        def natw(h, s=s):
            x, v = number(h, "v", s)
            h.ensure_eq("to_native-low-word", h.terms(x.to_native()), vmap(lambda e: T.trunc(e, 32), v))
        r.case("int100.to_native-wraps%s" % (s,), natw)
        for k in (2, 2**8, 2**13, 2**16):
            def md(h, k=k, s=s):
                x, v = number(h, "v", s)
                check(h, "mod", x % k, vmap(lambda e: T.divop("floormod", e, T.const(k, 128)), v))
            r.case("int100.mod%d%s" % (k, s), md)

            def tr(h, k=k, s=s):
                x, v = number(h, "v", s)
                n = k.bit_length() - 1
                check(h, "truncate", x.truncate(n), vmap(lambda e: T.ashr(e, n), v))
                check(h, "right_shift", x.right_shift(n), vmap(lambda e: T.ashr(e, n), v))
            r.case("int100.truncate%d%s" % (k, s), tr)

    def enc(h):
        a = h.array("x", (2,), 64)
        x = b.f.tensor(h.tensor(a, rtf.int64))
        check(h, "in", x, vmap(lambda e: T.sext(e, 128), a))
        for v in (b.f.variable(x), b.f.constant(h.tensor(a, rtf.int64))):
            check(h, "variable", v, vmap(lambda e: T.sext(e, 128), a))
    r.case("int100.encode", enc)

    def bits(h):
        x, v = number(h, "v", (2,), 0, EDGE)
        got = h.terms(x.bits(factories[32]).value)
        n = math.ceil(math.log2(M100))
        h.ensure_true("count", got.shape == (2, n), "%s" % (got.shape,))
        want = np.empty((2, n), dtype=object)
        for i, j in np.ndindex(2, n):
            want[i, j] = T.zext(T.trunc(T.lshr(v[i], j), 1), 32)
        h.ensure_eq("bits", got, want)
    r.case("int100.bits", bits, trials=6)

    # long inner products are split; the accumulation must not overflow the components
    def longmm(h):
        n = 2500
        rng = np.random.RandomState(h.rng.randrange(2**31) if h.rng else 0)
        worst = rng.randint(3) == 0
        X = [[(m - 1 if worst else int(rng.randint(m))) for _ in range(n)] for m in MODULI]
        Y = [[(m - 1 if worst else int(rng.randint(m))) for _ in range(n)] for m in MODULI]
        mk = lambda A, s: [np.array([T.const(v, 32) for v in a], dtype=object).reshape(s) for a in A]
        got = b.wrap(h, mk(X, (1, n))).matmul(b.wrap(h, mk(Y, (n, 1))))
        for g, x, y, m in zip(b.read(h, got), X, Y, MODULI):
            h.ensure_eq("matmul", g, full((1, 1), T.const(sum(p * q for p, q in zip(x, y)) % m, 32)))
    r.case("int100.matmul-long", longmm, sym=False, trials=4, bounded_note="inner products of 2500 terms, sampled and at the largest components")


def build(r):
    r.assumptions += [
        "shapes are the ones listed in the case names; element values are arbitrary",
        "the residue-number backend rounds a float32 sum; it is treated as exact, on represented integers at least M/1024 away from +-M/2 (the float32 error is below 2^-18)",
        "inner products and sums of the residue-number backend of at most 1024 terms (the code's own bound)",
        "the 128-bit kernels and the auxiliary bit kernels satisfy their contracts (C17)"]
    r.trusted += ["TensorFlow integer kernels: +,-,*,%,<<,>>,&,|,^,~, matmul, reductions wrap modulo 2^w"]
    for b in backends():
        structural(r, b)
        if b.tag != "bool":
            ring(r, b)
        if b.moduli == (None,) and b.tag != "bool":
            words(r, b)
        if b.tag == "bool":
            boolean(r, b)
        elif b.tag == "int128":
            io128(r, b)
        elif isinstance(b, Crt):
            crt(r, b)
        elif b.moduli == (None,):
            native_io(r, b)


if __name__ == "__main__":
    main("C14", build)
