"""Symbolic host arrays: numpy arrays whose elements are terms, with numpy's own result types."""
import numpy as np

from . import symtf as S
from . import term as T

_W = {"b": 1}


def _width(d):
    d = np.dtype(d)
    return 1 if d.kind == "b" else 0 if d.kind == "f" else 8 * d.itemsize


def conv(a, src, dst):
    """numpy's astype on one element"""
    ws, wd = _width(src), _width(dst)
    if ws == 0:
        return a if wd == 0 else T.bnot(T.eq(a, T.const(0, 0))) if wd == 1 else T.r2i(a, wd)
    if wd == 0:
        return T.i2r(a, np.dtype(src).kind == "i")
    if wd == 1:
        return a if ws == 1 else T.bnot(T.eq(a, T.const(0, ws)))
    if wd <= ws:
        return T.trunc(a, wd) if wd < ws else a
    return T.sext(a, wd) if np.dtype(src).kind == "i" else T.zext(a, wd)


class HostArray(np.ndarray):
    """an ndarray of terms that behaves as an ndarray of dtype `hdt`"""
    hdt = None

    def __array_finalize__(self, obj):
        self.hdt = getattr(obj, "hdt", None)

    @property
    def dtype(self):
        return self.hdt

    def astype(self, dtype, *a, **k):
        dtype = np.dtype(dtype)
        if dtype.kind == "O":
            return self
        return make(S._vec(lambda e: conv(e, self.hdt, dtype))(raw(self)), dtype)

    def copy(self, *a, **k):
        return make(raw(self).copy(), self.hdt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out"):
            raise S.Unsupported("numpy %s.%s on symbolic host data" % (ufunc, method))
        probe = [np.ones(x.shape, x.hdt) if isinstance(x, HostArray) else x for x in inputs]
        with np.errstate(all="ignore"):
            out = ufunc(*probe)
        d, n = out.dtype, ufunc.__name__
        if _width(d) == 0 and d.itemsize < 8:
            S.CTX.narrow = True
        common = np.result_type(*[p if isinstance(p, np.ndarray) and p.ndim or not isinstance(p, (int, float)) else p for p in probe]) if len(probe) > 1 else probe[0].dtype
        if d.kind != "b":
            common = d
        ops = []
        for x in inputs:
            if isinstance(x, HostArray):
                ops.append(S._vec(lambda e, s=x.hdt: conv(e, s, common))(raw(x)))
            else:
                v = np.asarray(x).astype(common) if np.asarray(x).dtype.kind != "O" else np.asarray(x)
                w = _width(common)
                ops.append(S._vec(lambda e: T.const(T.Fraction(e) if w == 0 else int(e), w))(v.astype(object)))
        f = _UF.get(n)
        if f is None:
            raise S.Unsupported("numpy %s on symbolic host data" % n)
        return make(S._vec(lambda *e: f(np.dtype(common), *e))(*ops), d)

    def __array_function__(self, func, types, args, kwargs):
        ok = {"reshape", "transpose", "expand_dims", "squeeze", "broadcast_to", "moveaxis", "swapaxes", "ravel", "flip", "tile", "take", "shape", "ndim", "size"}
        if func.__name__ in ok:
            return super().__array_function__(func, types, args, kwargs)
        if func.__name__ in ("concatenate", "stack"):
            return make(func([raw(x) for x in args[0]], *args[1:], **kwargs), self.hdt)
        if func.__name__ in ("around", "round"):
            x = args[0]
            return make(S._vec(T.rround)(raw(x)), x.hdt) if _width(x.hdt) == 0 else x
        if func.__name__ in ("asarray", "array"):
            return args[0]
        raise S.Unsupported("numpy %s on symbolic host data" % func.__name__)


def _int_or_real(fi, fr):
    return lambda d, *a: fr(*a) if _width(d) == 0 else fi(d, *a)


def _rmul(x, y):
    if T.is_const(y): return T.scale(x, y.val)
    if T.is_const(x): return T.scale(y, x.val)
    return T.mul(x, y)


_UF = dict(add=lambda d, x, y: T.add(x, y), subtract=lambda d, x, y: T.sub(x, y), negative=lambda d, x: T.neg(x),
           multiply=lambda d, x, y: _rmul(x, y) if _width(d) == 0 else T.mul(x, y),
           true_divide=lambda d, x, y: T.rdiv(x, y), divide=lambda d, x, y: T.rdiv(x, y),
           remainder=lambda d, x, y: T.divop("floormod", x, y) if _width(d) else _bad("real remainder"),
           floor_divide=lambda d, x, y: T.divop("floordiv", x, y) if _width(d) else T.rfloor(T.rdiv(x, y)),
           rint=lambda d, x: T.rround(x), floor=lambda d, x: T.rfloor(x), trunc=lambda d, x: T.i2r(T.r2i(x, 128)),
           ceil=lambda d, x: T.neg(T.rfloor(T.neg(x))))


def _bad(m):
    raise S.Unsupported(m)


def raw(x):
    return np.ndarray.view(x, np.ndarray)


def make(arr, hdt):
    a = np.asarray(arr, dtype=object)
    if not isinstance(arr, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = arr
    r = np.ndarray.view(a, HostArray)
    r.hdt = np.dtype(hdt)
    return r


class NpFacade:
    """the `np` of tf_encrypted modules: numpy, except that arrays of terms stay arrays of terms"""
    def __init__(self, real):
        self._real = real

    def array(self, x, dtype=None, **kw):
        if isinstance(x, HostArray):
            return x.copy() if dtype is None else x.astype(dtype)
        return self._real.array(x, dtype, **kw) if dtype is not None else self._real.array(x, **kw)

    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, HostArray):
            return x if dtype is None else x.astype(dtype)
        return self._real.asarray(x, dtype, **kw) if dtype is not None else self._real.asarray(x, **kw)

    def __getattr__(self, k):
        return getattr(self._real, k)


def encode128(x):
    """contract of tf_i128.encode: the 128-bit two's complement of the element truncated toward zero, low word first"""
    e = S._vec(lambda t: conv(t, x.hdt, np.int64) if _width(x.hdt) else T.r2i(t, 128))(raw(x))
    if _width(x.hdt):
        e = S._vec(lambda t: T.sext(t, 128))(e)
    return make(np.stack([S._vec(S._lo64)(e), S._vec(S._hi64)(e)], axis=-1), np.int64)


def tensor(x, dtype):
    """conversion of a host array to a TensorFlow tensor of the given type"""
    dtype = S.rtf.as_dtype(dtype if dtype is not None else x.hdt)
    d = dtype.as_numpy_dtype
    return S.SymTensor(dtype, arr=S._vec(lambda e: conv(e, x.hdt, d))(raw(x)))
