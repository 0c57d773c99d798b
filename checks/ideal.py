"""The protocol's contracts as seen by a caller: every operation returns the mathematical function of its operands over the reals.

Words are polynomials with rational coefficients over *atoms*: input variables and applications of functions the encrypted
operations compute (sigmoid, logarithm, reciprocal, comparison bits, arg-max indicators).  Derivatives are formal."""
import math
from fractions import Fraction

import numpy as np
import tensorflow as tf

from tf_encrypted.protocol import protocol as PR


class Atom:
    """name applied to a tuple of polynomials (no arguments: an arbitrary real)"""
    table = {}

    def __new__(cls, name, args=(), idx=0):
        key = (name, idx, tuple(a.key() for a in args))
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.name, o.args, o.idx, o.id = name, tuple(args), idx, len(cls.table)
            o.skey = "%s|%s|%s" % key
            cls.table[key] = o
        return o

    def __repr__(self):
        return self.name + ("#%d" % self.idx if self.idx else "") + ("(%s)" % ", ".join(map(repr, self.args)) if self.args else "")

    def eval(self, env):
        if self.name in env and not self.args:
            return env[self.name]
        v = [a.eval(env) for a in self.args]
        n = self.name
        if n == "sigmoid": return 1 / (1 + math.exp(-v[0]))
        if n == "tanh": return math.tanh(v[0])
        if n == "log": return math.log(v[0])
        if n == "inv": return 1 / v[0]
        if n == "isqrt": return 1 / math.sqrt(v[0])
        if n == "sqrt": return math.sqrt(v[0])
        if n == "pos": return 1.0 if v[0] > 0 else 0.0
        if n == "argmax": return 1.0 if max(range(len(v)), key=lambda i: v[i]) == self.idx else 0.0
        if n == "softmax":
            m = max(v)
            e = [math.exp(x - m) for x in v]
            return e[self.idx] / sum(e)
        raise KeyError(n)

    def diff(self, x):
        """derivative with respect to atom x (the indicators are piecewise constant)"""
        if self is x:
            return ONE
        n, a = self.name, self.args
        if not a or n in ("pos", "argmax"):
            return ZERO
        me = P.atom(self)
        if n == "softmax":
            r = ZERO
            for j, p in enumerate(a):
                d = p.diff(x)
                if d.m:
                    r = r + me * ((ONE if j == self.idx else ZERO) - P.fn("softmax", a, j)) * d
            return r
        d = a[0].diff(x)
        if not d.m:
            return ZERO
        if n == "sigmoid": return me * (ONE - me) * d
        if n == "tanh": return (ONE - me * me) * d
        if n == "log": return recip(a[0]) * d
        if n == "inv": return -(me * me) * d
        if n == "sqrt": return Fraction(1, 2) * recip(me) * d
        if n == "isqrt": return Fraction(-1, 2) * me * me * me * d
        raise KeyError(n)


def frac(v):
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return Fraction(float(v))


class P:
    """polynomial: monomial (sorted tuple of (atom id, atom, exponent)) -> coefficient"""
    __slots__ = ("m", "_k")

    def __init__(self, m):
        self.m, self._k = m, None

    @staticmethod
    def const(v):
        v = frac(v)
        return P({(): v} if v else {})

    @staticmethod
    def atom(a):
        return P({((a.skey, a, 1),): Fraction(1)})

    @staticmethod
    def fn(name, args, idx=0):
        return P.atom(Atom(name, args, idx))

    @staticmethod
    def var(name):
        return P.atom(Atom(name))

    def key(self):
        if self._k is None:
            self._k = "+".join(sorted("%s*%s" % (round_key(c), ",".join("%s^%d" % (k, e) for k, _, e in mono)) for mono, c in self.m.items()))
        return self._k

    def is_const(self):
        return all(k == () for k in self.m)

    def __add__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        o = lift(o)
        m = dict(self.m)
        for k, c in o.m.items():
            c2 = m.get(k, 0) + c
            if c2: m[k] = c2
            else: m.pop(k, None)
        return P(m)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        o = lift(o)
        out = {}
        extra = ZERO if "ZERO" in globals() else None
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                if not k1: k = k2
                elif not k2: k = k1
                else: k = mono_mul(k1, k2)
                out[k] = out.get(k, 0) + c1 * c2
        r = P({k: c for k, c in out.items() if c})
        return reduce_inv(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(lift(o))

    def eval(self, env):
        t = 0.0
        for mono, c in self.m.items():
            v = float(c)
            for _, a, e in mono:
                v *= a.eval(env) ** e
            t += v
        return t

    def diff(self, x):
        r = ZERO
        for mono, c in self.m.items():
            for i, (s, a, e) in enumerate(mono):
                d = a.diff(x)
                if d.m:
                    rest = mono[:i] + (((s, a, e - 1),) if e != 1 else ()) + mono[i + 1:]
                    r = r + P({rest: c * e}) * d
        return r

    def __repr__(self):
        return " + ".join("%s%s" % (c if c.denominator < 1000 else float(c), "".join("*%r%s" % (a, "^%d" % e if e != 1 else "") for _, a, e in k)) for k, c in list(self.m.items())[:6]) or "0"


def round_key(c):
    return repr(round(float(c), 9))


def mono_mul(k1, k2):
    d = {}
    for s, a, e in k1 + k2:
        if s in d:
            e2 = d[s][1] + e
            if a.name in ("pos", "argmax"):
                e2 = 1      # indicators are 0 or 1
            if e2: d[s] = (a, e2)
            else: del d[s]
        else:
            d[s] = (a, e)
    # the indicators of one window exclude each other: left to the polynomial identities
    return tuple(sorted(((s, a, e) for s, (a, e) in d.items()), key=lambda t: t[0]))


def reduce_inv(p):
    """q * inv(q) = 1 for polynomials q that are not monomials: the leading monomial of q is eliminated"""
    while True:
        hit = None
        for mono, c in p.m.items():
            for s, a, e in mono:
                if a.name == "inv" and e >= 1:
                    q = a.args[0]
                    lead = max((k for k in q.m if k), key=lambda k: (len(k), tuple(t[0] for t in k)))
                    if divides(lead, mono):
                        hit = (mono, c, a, q, lead)
                        break
            if hit: break
        if not hit:
            return p
        mono, c, a, q, lead = hit
        rest = mono_div(mono, lead)            # contains inv(q)
        less = mono_div(rest, ((a.skey, a, 1),))
        lc = q.m[lead]
        tail = P({k: v for k, v in q.m.items() if k != lead})
        new = P({less: c / lc})
        sub = raw_mul(P({rest: -c / lc}), tail)
        m = dict(p.m)
        del m[mono]
        p = P(m) + new + sub


def raw_mul(x, y):
    out = {}
    for k1, c1 in x.m.items():
        for k2, c2 in y.m.items():
            k = mono_mul(k1, k2) if k1 and k2 else k1 or k2
            out[k] = out.get(k, 0) + c1 * c2
    return P({k: c for k, c in out.items() if c})


def divides(a, b):
    d = {s: e for s, _, e in b}
    return all(d.get(s, 0) >= e for s, _, e in a)


def mono_div(b, a):
    d = {s: e for s, _, e in a}
    return tuple((s, x, e - d.get(s, 0)) for s, x, e in b if e != d.get(s, 0))


def lift(o):
    if isinstance(o, P):
        return o
    if isinstance(o, np.ndarray):
        o = o.item()
        if isinstance(o, P): return o
    return P.const(o)


ZERO, ONE = P({}), P.const(1)


def recip(p):
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        return P({tuple((s, a, -e) for s, a, e in mono): 1 / c})
    return P.fn("inv", (p,))


def same(a, b):
    """equal as real functions up to the double rounding of literal coefficients"""
    d = a - b
    scale = max([abs(float(c)) for c in list(a.m.values()) + list(b.m.values())] + [1.0])
    return all(abs(float(c)) <= 1e-9 * scale for c in d.m.values())


def arr(x):
    x = np.asarray(x, dtype=object)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = lift(x[i])
    return out


def vec(f):
    def run(x):
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = f(x[i])
        return out
    return run


def variables(name, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = P.var(name + "".join("_%d" % j for j in i))
    return out


def grad(scalar, wrt):
    """formal gradient of a polynomial with respect to an array of variables"""
    return vec(lambda v: scalar.diff(next(iter(v.m))[0][1]))(wrt)


sigmoid = vec(lambda p: P.fn("sigmoid", (p,)))
tanh = vec(lambda p: P.fn("tanh", (p,)))
log = vec(lambda p: P.fn("log", (p,)))
inv_sqrt = vec(lambda p: P.fn("isqrt", (p,)))
sqrt = vec(lambda p: P.fn("sqrt", (p,)))
pos = vec(lambda p: P.fn("pos", (p,)))


def relu(x):
    return x * pos(x)


def softmax(x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        a = tuple(x[i])
        for j in range(x.shape[-1]):
            out[i + (j,)] = P.fn("softmax", a, j)
    return out


def argmax(x, axis):
    """one-hot indicators of the largest element along axis"""
    y = np.moveaxis(x, axis, -1)
    out = np.empty(y.shape, dtype=object)
    for i in np.ndindex(*y.shape[:-1]):
        a = tuple(y[i])
        for j in range(len(a)):
            out[i + (j,)] = P.fn("argmax", a, j) if len(a) > 1 else ONE
    return np.moveaxis(out, -1, axis)


# ------------------------------------------------------------------ the tensors a caller of the protocol sees
class Bone(PR.TFETensorBone):
    def __init__(self, t):
        self.t = t


class Base:
    bone = property(lambda self: Bone(self))

    def __init__(self, prot, v, scaled=True, bit=False):
        self.prot, self.v, self.is_scaled, self.bit = prot, arr(v), scaled, bit
        self.share_type, self.backing_dtype, self.device_name = "ARITHMETIC", None, ""

    @property
    def shape(self):
        return tf.TensorShape(self.v.shape)

    def _new(self, v, bit=False):
        return self.prot._wrap(v, self, bit=bit)

    def __add__(self, o): return self.prot.add(self, o)
    def __radd__(self, o): return self.prot.add(o, self)
    def __sub__(self, o): return self.prot.sub(self, o)
    def __rsub__(self, o): return self.prot.sub(o, self)
    def __mul__(self, o): return self.prot.mul(self, o)
    def __rmul__(self, o): return self.prot.mul(o, self)
    def __neg__(self): return self.prot.negative(self)
    def __truediv__(self, o): return self.prot.div(self, o)
    def __matmul__(self, o): return self.prot.matmul(self, o)
    def __le__(self, o): return self.prot.less_equal(self, o)
    def __lt__(self, o): return self.prot.less(self, o)
    def __gt__(self, o): return self.prot.greater(self, o)
    def __ge__(self, o): return self.prot.greater_equal(self, o)
    def __getitem__(self, s): return self._new(self.v[s])
    def negative(self): return self.prot.negative(self)
    def add(self, o): return self.prot.add(self, o)
    def sub(self, o): return self.prot.sub(self, o)
    def mul(self, o): return self.prot.mul(self, o)
    def matmul(self, o): return self.prot.matmul(self, o)
    def dot(self, o): return self.prot.matmul(self, o)
    def square(self): return self.prot.mul(self, self)
    def transpose(self, perm=None): return self.prot.transpose(self, perm)
    def reshape(self, *s): return self.prot.reshape(self, list(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple, tf.TensorShape)) else list(s))
    def expand_dims(self, axis): return self.prot.expand_dims(self, axis)
    def reduce_sum(self, axis=None, keepdims=False): return self.prot.reduce_sum(self, axis, keepdims)
    def reveal(self): return self.prot.reveal(self)
    def to_native(self): return self.v


class Private(Base, PR.TFEPrivateTensor):
    pass


class Public(Base, PR.TFEPublicTensor):
    pass


class _Var:
    def read_value(self):
        return self.prot._wrap(self.v.copy(), self)


class PrivateVar(_Var, Private, PR.TFEPrivateVariable):
    pass


class PublicVar(_Var, Public, PR.TFEPublicVariable):
    pass


def _tup(s):
    return tuple(int(i) for i in (s.as_list() if isinstance(s, tf.TensorShape) else s))


class _FP:
    precision_fractional = 13


class Ideal(PR.Protocol):
    """stubs returning exactly what the contracts of C02..C10 promise, rounding aside"""
    fixedpoint_config = _FP

    def from_bone(self, bone):
        return bone.t

    def _wrap(self, v, *like, bit=False):
        private = any(isinstance(t, PR.TFEPrivateTensor) for t in like)
        return (Private if private else Public)(self, v, all(getattr(t, "is_scaled", True) for t in like), bit)

    def _num(self, x):
        return x.v if isinstance(x, Base) else arr(x.numpy() if hasattr(x, "numpy") else x)

    def _b(self, f, x, y):
        return self._wrap(f(self._num(x), self._num(y)), *[t for t in (x, y) if isinstance(t, Base)])

    # definitions
    def define_private_variable(self, v, *a, **k):
        if isinstance(v, Base): v = v.v
        return PrivateVar(self, v.numpy() if hasattr(v, "numpy") else v, k.get("apply_scaling", True))

    def define_public_variable(self, v, *a, **k):
        if isinstance(v, Base): v = v.v
        return PublicVar(self, v.numpy() if hasattr(v, "numpy") else v, k.get("apply_scaling", True))

    def define_constant(self, v, *a, **k):
        return Public(self, v, k.get("apply_scaling", True))

    def define_private_input(self, player, fn, *a, **k):
        v = fn()
        return Private(self, v.numpy() if hasattr(v, "numpy") else v)

    def define_private_tensor(self, v, *a, **k):
        return Private(self, v)

    def assign(self, var, value):
        assert isinstance(var, PR.TFEVariable) and isinstance(value, Base), type(value)
        assert isinstance(var, PR.TFEPrivateTensor) == isinstance(value, PR.TFEPrivateTensor), "assigning across visibility"
        assert var.v.shape == value.v.shape, "%s %s" % (var.v.shape, value.v.shape)
        assert var.is_scaled == value.is_scaled
        var.v = value.v.copy()
        return var

    def reveal(self, x):
        return Public(self, x.v, x.is_scaled)

    # arithmetic
    def add(self, x, y): return self._b(lambda a, b: a + b, x, y)
    def sub(self, x, y): return self._b(lambda a, b: a - b, x, y)
    def mul(self, x, y): return self._b(lambda a, b: a * b, x, y)
    def div(self, x, y): return self._b(lambda a, b: a * vec(recip)(b), x, y)
    def negative(self, x): return x._new(-x.v)
    def square(self, x): return self.mul(x, x)
    def matmul(self, x, y): return self._b(lambda a, b: a @ b, x, y)
    def reduce_sum(self, x, axis=None, keepdims=False): return x._new(np.sum(x.v, axis=tuple(axis) if isinstance(axis, list) else axis, keepdims=keepdims))
    def reciprocal(self, x, *a, **k): return x._new(vec(recip)(x.v))
    def sqrt(self, x, *a, **k): return x._new(sqrt(x.v))
    def inv_sqrt(self, x, *a, **k): return x._new(inv_sqrt(x.v))
    def log(self, x, *a, **k): return x._new(log(x.v))
    def sigmoid(self, x, *a, **k): return x._new(sigmoid(x.v))
    def tanh(self, x, *a, **k): return x._new(tanh(x.v))
    def softmax(self, x, *a, **k): return x._new(softmax(x.v))

    # comparisons
    def _pos(self, x, y):
        """[x > y]; for x = relu(p) and y = 0 this is [p > 0]"""
        def one(d):
            for mono in d.m:
                for s, a, e in mono:
                    if a.name == "pos" and a.args[0].key() == P({k2: c2 for k2, c2 in ((tuple(t for t in k if t[0] != s), c) for k, c in d.m.items())}).key():
                        return P.atom(a)
            return P.fn("pos", (d,))
        return self._b(lambda a, b: vec(one)(a - b), x, y)

    def _bit(self, t):
        t.bit = True
        return t

    def greater(self, x, y): return self._bit(self._pos(x, y))
    def greater_than(self, x, y): return self.greater(x, y)
    def less(self, x, y): return self.greater(y, x)
    def less_than(self, x, y): return self.less(x, y)
    def less_equal(self, x, y):
        g = self._pos(x, y)
        return self._bit(g._new(vec(lambda p: ONE - p)(g.v)))
    def greater_equal(self, x, y): return self.less_equal(y, x)
    def relu(self, x): return x._new(relu(x.v))
    def relu_with_cmp(self, x):
        b = pos(x.v)
        return x._new(x.v * b), x._new(b, bit=True)
    def select(self, c, x, y):
        assert c.bit, "the choice must be a bit"
        like = [t for t in (c, x, y) if isinstance(t, Base)]
        return self._wrap(self._num(x) + c.v * (self._num(y) - self._num(x)), *like)
    def maximum(self, x, y):
        b = self._pos(x, y)
        return self.select(b if self._bit(b) is b else b, y, x)

    # structure
    def transpose(self, x, perm=None): return x._new(np.transpose(x.v, perm))
    def reshape(self, x, shape): return x._new(np.reshape(x.v, _tup(shape)), bit=x.bit)
    def expand_dims(self, x, axis): return x._new(np.expand_dims(x.v, axis))
    def squeeze(self, x, axis=None): return x._new(np.squeeze(x.v, tuple(axis) if isinstance(axis, list) else axis))
    def concat(self, xs, axis): return xs[0]._new(np.concatenate([t.v for t in xs], axis))
    def stack(self, xs, axis=0): return xs[0]._new(np.stack([t.v for t in xs], axis))
    def split(self, x, n, axis=0): return [x._new(v) for v in (np.split(x.v, n, axis) if isinstance(n, int) else np.split(x.v, np.cumsum(n)[:-1], axis))]
    def tile(self, x, multiples): return x._new(np.tile(x.v, _tup(multiples)))
    def reverse(self, x, axis): return x._new(np.flip(x.v, tuple(axis)))
    def pad(self, x, paddings):
        from . import spec
        full = list(paddings) + [[0, 0]] * (x.v.ndim - len(paddings))
        return x._new(spec.pad_zeros(x.v, full))
    def strided_slice(self, x, begin, end, strides=None, **k):
        assert not k
        return x._new(x.v[tuple(slice(b, e, s) for b, e, s in zip(begin, end, strides or [1] * len(begin)))])
    def gather(self, x, indices, axis=0): return x._new(np.take(x.v, indices, axis))
    def expand(self, x, stride):
        s = (stride, stride) if isinstance(stride, int) else stride
        h, w = x.v.shape[:2]
        out = np.empty(((h - 1) * s[0] + 1, (w - 1) * s[1] + 1) + x.v.shape[2:], dtype=object)
        out[...] = ZERO
        out[::s[0], ::s[1]] = x.v
        return x._new(out)

    # convolution and pooling (NCHW)
    def conv2d(self, x, w, strides, padding):
        from . import spec
        return self._b(lambda a, b: spec.conv2d_nchw(a, b, _tup(strides), padding), x, w)

    def maxpool2d_with_argmax(self, x, pool_size, strides, padding):
        pat, mask = windows(x.v, pool_size, strides, padding)
        n, c, oh, ow, k = pat.shape
        am = np.empty(pat.shape, dtype=object)
        out = np.empty(pat.shape[:-1], dtype=object)
        for i in np.ndindex(n, c, oh, ow):
            live = [j for j in range(k) if mask[i][j]]
            hot = argmax(np.array([pat[i][j] for j in live], dtype=object), 0)
            am[i] = ZERO
            acc = ZERO
            for j, b in zip(live, hot):
                am[i + (j,)] = b
                acc = acc + b * pat[i][j]
            out[i] = acc
        return x._new(out), x._new(am, bit=True)

    def maxpool2d(self, x, pool_size, strides, padding):
        return self.maxpool2d_with_argmax(x, pool_size, strides, padding)[0]

    def avgpool2d(self, x, pool_size, strides, padding):
        pat, mask = windows(x.v, pool_size, strides, padding)
        out = np.empty(pat.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):      # the zeros of the padding count (fixed by the repository's own tests)
            out[i] = sum(list(pat[i]), ZERO) * Fraction(1, pat.shape[-1])
        return x._new(out)

    def reduce_max_with_argmax(self, x, axis=0, keepdims=False, output_style="onehot"):
        am = argmax(x.v, axis)
        return x._new(np.sum(am * x.v, axis=axis, keepdims=keepdims)), x._new(am, bit=True)

    def patches2im(self, x, patch_size, strides=[1, 1], padding="SAME", img_size=None, consolidation="SUM", data_format="NCHW"):
        """the adjoint of extracting patches: each element is added at the pixel it was taken from"""
        assert consolidation == "SUM"
        from . import spec
        v = x.v if data_format == "NHWC" else np.moveaxis(x.v, 1, -1)
        n, oh, ow, k = v.shape
        kh, kw = patch_size
        assert k == kh * kw
        h, w = (int(i) for i in img_size)
        _, pt, _ = spec.pads(h, kh, strides[0], padding)
        _, pl, _ = spec.pads(w, kw, strides[1], padding)
        out = np.empty((n, h, w), dtype=object)
        out[...] = ZERO
        for b, i, j, q in np.ndindex(*v.shape):
            r, s = i * strides[0] + q // kw - pt, j * strides[1] + q % kw - pl
            if 0 <= r < h and 0 <= s < w:
                out[b, r, s] = out[b, r, s] + v[b, i, j, q]
        return x._new(out)


def windows(v, pool, strides, padding):
    """N C H W -> patches (n, c, oh, ow, kh*kw) and which positions lie inside the image"""
    from . import spec
    n, c, h, w = v.shape
    kh, kw = pool
    oh, pt, _ = spec.pads(h, kh, strides[0], padding)
    ow, pl, _ = spec.pads(w, kw, strides[1], padding)
    pat = np.empty((n, c, oh, ow, kh * kw), dtype=object)
    mask = np.zeros(pat.shape, dtype=bool)
    pat[...] = ZERO
    for b, q, i, j, a, e in np.ndindex(n, c, oh, ow, kh, kw):
        r, s = i * strides[0] + a - pt, j * strides[1] + e - pl
        if 0 <= r < h and 0 <= s < w:
            pat[b, q, i, j, a * kw + e] = v[b, q, r, s]
            mask[b, q, i, j, a * kw + e] = True
    return pat, mask
