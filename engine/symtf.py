"""A symbolic TensorFlow: the facade that replaces the module-global `tf` of tf_encrypted.*

Tensors carry either a concrete numpy value or an object array of terms (engine.term).
Structural operations (reshape, transpose, slicing, gather, ...) are executed by the real
TensorFlow on an array of element indices, so their semantics is TensorFlow's own.
Operations with only concrete inputs are delegated to the real TensorFlow.
"""
import contextlib
import itertools
import types

import numpy as np
import tensorflow as rtf  # the real one

from . import term as T


class Unsupported(Exception):
    """the symbolic executor does not model this operation on symbolic data"""


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.devices = [""]
        self.default_device = ""
        self.transfers = []      # (dst, src, tensor, opname)
        self.assumptions = []    # width-1 terms
        self.rand = []           # (name, kind, device, tensor, info)
        self.ops = {}            # op name -> count
        self.counter = itertools.count()
        self.track = True
        self.held = {}           # device -> list of tensors created there

    @property
    def device(self):
        return self.devices[-1]

    def fresh(self, prefix):
        return "%s%d" % (prefix, next(self.counter))

    def assume(self, t):
        if not (T.is_const(t) and t.val):
            self.assumptions.append(t)


CTX = Ctx()

_WIDTH = {rtf.int8: 8, rtf.int16: 16, rtf.int32: 32, rtf.int64: 64, rtf.uint8: 8, rtf.uint16: 16,
          rtf.uint32: 32, rtf.uint64: 64, rtf.bool: 1, rtf.float16: 0, rtf.float32: 0, rtf.float64: 0}


def width(dtype):
    try:
        return _WIDTH[dtype]
    except KeyError:
        raise Unsupported("dtype %s" % dtype)


def is_signed(dtype):
    return dtype in (rtf.int8, rtf.int16, rtf.int32, rtf.int64)


def is_float(dtype):
    return dtype.is_floating


class _Ref:
    def __init__(self, t):
        self.t = t
    def __hash__(self):
        return id(self.t)
    def __eq__(self, o):
        return isinstance(o, _Ref) and self.t is o.t
    def deref(self):
        return self.t


class SymTensor:
    __array_priority__ = 1000

    def __init__(self, dtype, value=None, arr=None, device=None):
        self.dtype = rtf.as_dtype(dtype)
        self._np = value
        self._arr = arr
        self.device = CTX.device if device is None else device
        self.name = "sym"
        if CTX.track:
            CTX.held.setdefault(self.device, []).append(self)

    # -- representation
    @property
    def concrete(self):
        return self._np is not None

    @property
    def arr(self):
        if self._arr is None:
            w = width(self.dtype)
            flat = np.empty(self._np.size, dtype=object)
            for i, v in enumerate(self._np.reshape(-1)):
                flat[i] = T.const(v.item() if w == 0 else int(v), w)
            self._arr = flat.reshape(self._np.shape)
        return self._arr

    @property
    def shape(self):
        return rtf.TensorShape((self._np if self._np is not None else self._arr).shape)

    def get_shape(self):
        return self.shape

    def set_shape(self, shape):
        if not self.shape.is_compatible_with(shape):
            raise ValueError("incompatible shape %s %s" % (self.shape, shape))

    @property
    def ndim(self):
        return len(self.shape)

    def numpy(self):
        if not self.concrete:
            raise Unsupported("numpy() of symbolic tensor")
        v = self._np
        return v if v.shape else v[()]

    def __array__(self, dtype=None, copy=None):
        v = np.asarray(self.numpy())
        return v.astype(dtype) if dtype is not None else v

    def ref(self):
        return _Ref(self)

    def __repr__(self):
        if self.concrete:
            return "<sym %s %s %s>" % (self.shape, self.dtype.name, self._np)
        return "<sym %s %s %s>" % (self.shape, self.dtype.name, self._arr.reshape(-1)[:4].tolist())

    def __hash__(self):
        raise TypeError("Tensor is unhashable. Instead, use tensor.ref() as the key.")

    def __bool__(self):
        return bool(self.numpy())

    def __int__(self):
        return int(self.numpy())

    def __index__(self):
        return int(self.numpy())

    def __float__(self):
        return float(self.numpy())

    def __len__(self):
        if not len(self.shape):
            raise TypeError("Scalar tensor has no `len()`")
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # -- operators
    def __add__(self, o): return _defer('__radd__', f_add, self, o)
    def __radd__(self, o): return f_add(o, self, like=self)
    def __sub__(self, o): return _defer('__rsub__', f_sub, self, o)
    def __rsub__(self, o): return f_sub(o, self, like=self)
    def __mul__(self, o): return _defer('__rmul__', f_mul, self, o)
    def __rmul__(self, o): return f_mul(o, self, like=self)
    def __mod__(self, o): return _defer('__rmod__', f_mod, self, o)
    def __rmod__(self, o): return f_mod(o, self, like=self)
    def __floordiv__(self, o): return _defer('__rfloordiv__', f_floordiv, self, o)
    def __rfloordiv__(self, o): return f_floordiv(o, self, like=self)
    def __truediv__(self, o): return _defer('__rtruediv__', f_truediv, self, o)
    def __rtruediv__(self, o): return f_truediv(o, self, like=self)
    def __pow__(self, o): return f_pow(self, o)
    def __rpow__(self, o): return delegate("pow", rtf.pow, o, self)
    def __neg__(self): return f_neg(self)
    def __abs__(self): return f_abs(self)
    def __and__(self, o): return f_bitand(self, o)
    def __or__(self, o): return f_bitor(self, o)
    def __xor__(self, o): return f_bitxor(self, o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return f_invert(self)
    def __lshift__(self, o): return f_lshift(self, o)
    def __rshift__(self, o): return f_rshift(self, o)
    def __matmul__(self, o): return f_matmul(self, o)
    def __lt__(self, o): return f_less(self, o)
    def __gt__(self, o): return f_greater(self, o)
    def __le__(self, o): return f_less_equal(self, o)
    def __ge__(self, o): return f_greater_equal(self, o)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, type)):
            return False
        return f_equal(self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, (str, type)):
            return True
        return f_not_equal(self, o)

    def __getitem__(self, slc):
        return structural("getitem", lambda x: x[topy(slc)], self)


def _defer(name, f, x, o):
    # tf binary operators fall back to the reflected method of an operand that is no tensor
    if type(o).__module__.startswith("tf_encrypted") and hasattr(type(o), name):
        return NotImplemented
    return f(x, o)


class SymVariable:
    """tf.Variable"""
    def __init__(self, initial_value=None, trainable=None, dtype=None, name=None, shape=None, **kw):
        v = lift(initial_value, dtype=dtype)
        if dtype is not None and v.dtype != rtf.as_dtype(dtype):
            raise ValueError("variable dtype mismatch")
        self._v = use("Variable", [v])[0]
        self.dtype = v.dtype
        self.device = CTX.device
        self.trainable = trainable
        self.name = name or "symvar"
        self._v = SymTensor(v.dtype, v._np, v._arr)

    @property
    def shape(self): return self._v.shape
    def _snap(self):
        return SymTensor(self.dtype, self._v._np, self._v._arr, device=self.device)
    def read_value(self): return self._snap()
    def value(self): return self._snap()
    def numpy(self): return self._v.numpy()
    def _set(self, v):
        with dev(self.device):
            v = use("assign", [v])[0]
            if not self._v.shape.is_compatible_with(v.shape):
                raise ValueError("shape mismatch in assign")
            self._v = SymTensor(self.dtype, v._np, v._arr)
        return self
    def assign(self, value, use_locking=False, name=None, read_value=True):
        v = lift(value, dtype=self.dtype)
        if v.dtype != self.dtype:
            raise ValueError("dtype mismatch in assign")
        return self._set(v)
    def assign_add(self, d, **kw): return self._set(f_add(self._snap(), d))
    def assign_sub(self, d, **kw): return self._set(f_sub(self._snap(), d))
    def initialized_value(self): return self._snap()
    def __getitem__(self, s): return self._snap()[s]
    def ref(self): return _Ref(self)
    def __hash__(self): raise TypeError("Variable is unhashable.")
    def __repr__(self): return "<symvar %s>" % (self._v,)


for _op in ("add radd sub rsub mul rmul mod floordiv truediv rtruediv neg and or xor invert lshift rshift matmul lt gt le ge "
            "eq ne").split():
    def _mkop(_op):
        def f(self, *a):
            return getattr(self._snap(), "__%s__" % _op)(*a)
        return f
    setattr(SymVariable, "__%s__" % _op, _mkop(_op))


@contextlib.contextmanager
def dev(d):
    CTX.devices.append(d)
    try:
        yield
    finally:
        CTX.devices.pop()


class f_device:
    def __init__(self, d):
        self.d = d if d is not None else CTX.default_device
        if not isinstance(self.d, str):
            self.d = str(self.d)
    def __enter__(self):
        CTX.devices.append(self.d)
    def __exit__(self, *a):
        CTX.devices.pop()
        return False


class f_scope:
    def __init__(self, *a, **k): pass
    def __enter__(self): return "scope"
    def __exit__(self, *a): return False


# ------------------------------------------------------------------ lifting
def topy(x):
    """replace concrete symbolic tensors by python/numpy values, recursively"""
    if isinstance(x, SymTensor):
        return x.numpy()
    if isinstance(x, SymVariable):
        return x.numpy()
    if isinstance(x, tuple):
        return tuple(topy(y) for y in x)
    if isinstance(x, list):
        return [topy(y) for y in x]
    if isinstance(x, dict):
        return {k: topy(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(topy(x.start), topy(x.stop), topy(x.step))
    return x


def has_sym(x):
    if isinstance(x, SymTensor):
        return not x.concrete
    if isinstance(x, SymVariable):
        return not x._v.concrete
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def wrap(x):
    """real tensors -> SymTensor (concrete)"""
    if isinstance(x, rtf.Variable):
        return SymVariable(x.numpy())
    if isinstance(x, rtf.Tensor):
        return SymTensor(x.dtype, value=np.asarray(x.numpy()))
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[wrap(y) for y in x])
    if isinstance(x, (list, tuple)):
        return type(x)(wrap(y) for y in x)
    return x


def _stack_lift(x, dtype):
    """nested python lists containing symbolic tensors"""
    parts = [lift(y, dtype=dtype) for y in x]
    return f_stack(parts, 0)


def lift(x, dtype=None):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, SymVariable):
        return x._snap()
    if isinstance(x, (rtf.Tensor, rtf.Variable)):
        return SymTensor(x.dtype, value=np.asarray(x.numpy()))
    if isinstance(x, T.Node):
        a = np.empty((), dtype=object)
        a[()] = x
        return SymTensor(dtype, arr=a)
    if type(x).__name__ == "HostArray":
        from . import hostnp
        return hostnp.tensor(x, dtype)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size and any(isinstance(e, T.Node) for e in x.reshape(-1)):
        w = width(dtype)
        y = np.empty(x.size, dtype=object)
        for i, e in enumerate(x.reshape(-1)):
            y[i] = e if isinstance(e, T.Node) else T.const(e, w)
        return SymTensor(dtype, arr=y.reshape(x.shape))
    if isinstance(x, (list, tuple)) and has_sym(x):
        return _stack_lift(x, dtype)
    v = rtf.convert_to_tensor(topy(x), dtype=dtype)
    return SymTensor(v.dtype, value=np.asarray(v.numpy()))


def count(op):
    CTX.ops[op] = CTX.ops.get(op, 0) + 1


def use(op, tensors):
    """record that `op`, executing on the current device, reads `tensors`"""
    count(op)
    d = CTX.device
    if CTX.track:
        for t in tensors:
            if t.device != d:
                CTX.transfers.append((d, t.device, t, op))
    return tensors


def delegate(name, fn, *args, **kw):
    """run the real op on concrete inputs"""
    if has_sym(args) or has_sym(kw):
        raise Unsupported("tf op %s on symbolic input" % name)
    ts = _tensors((args, kw))
    use(name, ts)
    return wrap(fn(*topy_real(args), **topy_real(kw)))


def topy_real(x):
    """concrete SymTensor -> real tf tensor (keeps dtype)"""
    if isinstance(x, (SymTensor, SymVariable)):
        t = x if isinstance(x, SymTensor) else x._v
        return rtf.constant(t.numpy(), dtype=t.dtype)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(topy_real(y) for y in x)
    if isinstance(x, list):
        return [topy_real(y) for y in x]
    if isinstance(x, dict):
        return {k: topy_real(v) for k, v in x.items()}
    return x


def _tensors(x):
    out = []
    if isinstance(x, SymTensor):
        out.append(x)
    elif isinstance(x, SymVariable):
        out.append(x._snap())
    elif isinstance(x, (list, tuple)):
        for y in x: out += _tensors(y)
    elif isinstance(x, dict):
        for y in x.values(): out += _tensors(y)
    return out


# ------------------------------------------------------------------ structural operations
def structural(name, fn, *xs, zero=None):
    """fn: real-TF function of index tensors.  Index 0 stands for the padding element."""
    xs = [lift(x) for x in xs]
    use(name, xs)
    if all(x.concrete for x in xs):
        return wrap(fn(*[rtf.constant(x._np, dtype=x.dtype) for x in xs]))
    dt = xs[0].dtype
    if any(x.dtype != dt for x in xs):
        raise TypeError("dtype mismatch in %s" % name)
    w = width(dt)
    flat = [T.const(0, w) if zero is None else zero]
    idx = []
    for x in xs:
        a = x.arr
        n = a.size
        idx.append(rtf.constant(np.arange(len(flat), len(flat) + n, dtype=np.int64).reshape(a.shape)))
        flat.extend(a.reshape(-1).tolist())
    table = np.empty(len(flat), dtype=object)
    table[:] = flat
    r = fn(*idx)
    def back(r):
        if isinstance(r, (list, tuple)):
            return [back(y) for y in r]
        i = r.numpy().astype(np.int64)
        a = np.empty(i.shape, dtype=object)
        a[...] = table[i]
        return SymTensor(dt, arr=a)
    return back(r)


def f_identity(x, name=None): return structural("identity", rtf.identity, x)
def f_reshape(x, shape, name=None): return structural("reshape", lambda a: rtf.reshape(a, topy(shape)), x)
def f_transpose(x, perm=None, conjugate=False, name=None): return structural("transpose", lambda a: rtf.transpose(a, topy(perm)), x)
def f_expand_dims(x, axis=None, name=None): return structural("expand_dims", lambda a: rtf.expand_dims(a, topy(axis)), x)
def f_squeeze(x, axis=None, name=None): return structural("squeeze", lambda a: rtf.squeeze(a, topy(axis)), x)
def f_gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    if has_sym(indices): raise Unsupported("gather with symbolic indices")
    return structural("gather", lambda a: rtf.gather(a, topy(indices), axis=topy(axis), batch_dims=batch_dims), params)
CHOOSE = [lambda n: 0]     # path oracle, set by engine.env
PERMS = []                 # orders drawn by sorting random words


def f_argsort(values, axis=-1, direction="ASCENDING", stable=False, name=None):
    """the order that sorts the last axis.  Sorting arbitrary words yields an arbitrary order; three orders are followed
    (as they come, reversed, one drawn at random), each as a path of its own."""
    values = lift(values)
    if values.concrete:
        return delegate("argsort", rtf.argsort, values, axis=axis, direction=direction, stable=stable)
    use("argsort", [values])
    n = len(values.shape)
    if axis not in (-1, n - 1): raise Unsupported("argsort along axis %s" % axis)
    k = int(values.shape[-1])
    how = CHOOSE[0](3)
    rng = np.random.RandomState(7)
    out = np.empty(tuple(values.shape), dtype=np.int32)
    for i in np.ndindex(*out.shape[:-1]):
        out[i] = np.arange(k) if how == 0 else np.arange(k)[::-1] if how == 1 else rng.permutation(k)
    PERMS.append(dict(keys=values.arr, device=CTX.device, order=out))
    return wrap(rtf.constant(out))


def f_gather_nd(params, indices, batch_dims=0, name=None):
    if has_sym(indices): raise Unsupported("gather_nd with symbolic indices")
    return structural("gather_nd", lambda a: rtf.gather_nd(a, topy(indices), batch_dims=batch_dims), params)
def f_tile(x, multiples, name=None): return structural("tile", lambda a: rtf.tile(a, topy(multiples)), x)
def f_reverse(x, axis, name=None): return structural("reverse", lambda a: rtf.reverse(a, topy(axis)), x)
def f_roll(x, shift, axis, name=None): return structural("roll", lambda a: rtf.roll(a, topy(shift), topy(axis)), x)
def f_broadcast_to(x, shape, name=None): return structural("broadcast_to", lambda a: rtf.broadcast_to(a, topy(shape)), x)
def f_repeat(x, repeats, axis=None, name=None): return structural("repeat", lambda a: rtf.repeat(a, topy(repeats), axis=topy(axis)), x)
def f_strided_slice(x, *args, **kw): return structural("strided_slice", lambda a: rtf.strided_slice(a, *topy(args), **topy(kw)), x)
def f_slice(x, begin, size, name=None): return structural("slice", lambda a: rtf.slice(a, topy(begin), topy(size)), x)
def f_split(value, num_or_size_splits, axis=0, num=None, name=None):
    return structural("split", lambda a: rtf.split(a, topy(num_or_size_splits), axis=topy(axis)), value)
def f_unstack(value, num=None, axis=0, name=None): return structural("unstack", lambda a: rtf.unstack(a, axis=topy(axis)), value)
def f_space_to_batch(x, block_shape, paddings, name=None):
    return structural("space_to_batch", lambda a: rtf.space_to_batch(a, topy(block_shape), topy(paddings)), x)
def f_batch_to_space(x, block_shape, crops, name=None):
    return structural("batch_to_space", lambda a: rtf.batch_to_space(a, topy(block_shape), topy(crops)), x)
def f_extract_patches(images, sizes, strides, rates, padding, name=None):
    return structural("extract_patches", lambda a: rtf.image.extract_patches(a, sizes, strides, rates, padding), images)
def f_boolean_mask(tensor, mask, axis=None, name=None):
    return structural("boolean_mask", lambda a: rtf.boolean_mask(a, topy(mask), axis=axis), tensor)


def f_pad(tensor, paddings, mode="CONSTANT", constant_values=0, name=None):
    t = lift(tensor)
    if mode.upper() != "CONSTANT" or constant_values != 0:
        if t.concrete:
            return delegate("pad", rtf.pad, t, paddings, mode, constant_values)
        return structural("pad", lambda a: rtf.pad(a, topy(paddings), mode, 0), t,
                          zero=T.const(constant_values, width(t.dtype)))
    return structural("pad", lambda a: rtf.pad(a, topy(paddings)), t)


def _common(xs, dtype=None):
    """lift a list to one dtype (python numbers adopt the dtype of the tensors)"""
    dt = dtype
    for x in xs:
        if isinstance(x, (SymTensor, SymVariable, rtf.Tensor, rtf.Variable)):
            dt = x.dtype
            break
    return [lift(x, dtype=dt) for x in xs]


def f_stack(values, axis=0, name=None):
    if isinstance(values, (SymTensor, np.ndarray, rtf.Tensor)):
        values = list(lift(values))
    xs = _common(values)
    return structural("stack", lambda *a: rtf.stack(list(a), axis=axis), *xs)


def f_concat(values, axis, name=None):
    xs = _common(values if isinstance(values, (list, tuple)) else [values])
    return structural("concat", lambda *a: rtf.concat(list(a), axis=topy(axis)), *xs)


def f_scatter_nd(indices, updates, shape, name=None):
    if has_sym(indices): raise Unsupported("scatter_nd symbolic indices")
    u = lift(updates)
    if u.concrete:
        return delegate("scatter_nd", rtf.scatter_nd, lift(indices), u, lift(shape, dtype=lift(indices).dtype))
    # duplicates accumulate: do it one leading slice at a time
    idx = np.asarray(topy(lift(indices)._np))
    use("scatter_nd", [u])
    shp = tuple(int(s) for s in np.asarray(topy(lift(shape)._np)))
    w = width(u.dtype)
    out = np.empty(shp, dtype=object)
    out[...] = T.const(0, w)
    depth = idx.shape[-1]
    lead = idx.reshape(-1, depth)
    uu = u.arr.reshape((lead.shape[0],) + shp[depth:])
    for k in range(lead.shape[0]):
        key = tuple(int(i) for i in lead[k])
        out[key] = _vec(T.add)(out[key], uu[k]) if depth < len(shp) else T.add(out[key], uu[k][()] if isinstance(uu[k], np.ndarray) else uu[k])
    return SymTensor(u.dtype, arr=out)


def f_tensor_scatter_nd_update(tensor, indices, updates, name=None):
    if has_sym(indices): raise Unsupported("scatter with symbolic indices")
    return structural("tensor_scatter_nd_update", lambda a, u: rtf.tensor_scatter_nd_update(a, topy(indices), u), tensor, updates)


# ------------------------------------------------------------------ elementwise
def _vec(f):
    g = {}
    def run(*arrs):
        n = len(arrs)
        if n not in g:
            g[n] = np.frompyfunc(f, n, 1)
        r = g[n](*arrs)
        if not isinstance(r, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = r
            return a
        return r
    return run


def _pair(x, y, like=None):
    if isinstance(x, (SymTensor, SymVariable, rtf.Tensor, rtf.Variable)):
        x = lift(x)
        if isinstance(y, np.ndarray) and y.dtype != object and y.dtype != x.dtype.as_numpy_dtype:
            y = rtf.convert_to_tensor(y, dtype=x.dtype) if x.dtype.is_floating or not np.issubdtype(y.dtype, np.floating) else y
        y = lift(y, dtype=x.dtype)
    else:
        y = lift(y)
        x = lift(x, dtype=y.dtype)
    if x.dtype != y.dtype:
        raise TypeError("cannot compute op: dtypes %s and %s differ" % (x.dtype, y.dtype))
    return x, y


def binary(name, rfn, tfn, out_dtype=None):
    vf = {}
    def op(x, y, like=None, name_=None, **kw):
        x, y = _pair(x, y)
        use(name, [x, y])
        if x.concrete and y.concrete:
            return wrap(rfn(rtf.constant(x._np, dtype=x.dtype), rtf.constant(y._np, dtype=y.dtype)))
        dt = x.dtype
        if dt not in vf:
            vf[dt] = _vec(tfn(dt))
        a = vf[dt](x.arr, y.arr)
        return SymTensor(out_dtype or dt, arr=a)
    def api(x, y, name=None):
        return op(x, y)
    op.api = api
    return op


def unary(name, rfn, tfn, out_dtype=None):
    vf = {}
    def op(x, name_=None, **kw):
        x = lift(x)
        use(name, [x])
        if x.concrete:
            return wrap(rfn(rtf.constant(x._np, dtype=x.dtype)))
        dt = x.dtype
        if dt not in vf:
            vf[dt] = _vec(tfn(dt))
        return SymTensor(out_dtype or dt, arr=vf[dt](x.arr))
    return op


def _need_int(dt, name):
    if dt.is_floating or dt == rtf.bool:
        raise TypeError("%s not defined on %s" % (name, dt))


def _num(dt, name, f):
    if dt == rtf.bool:
        raise TypeError("%s not defined on bool" % name)
    return f


def _div(op):
    def mk(dt):
        if dt.is_floating:
            if op == "floordiv":
                return lambda a, b: T.rfloor(T.rdiv(a, b))
            return lambda a, b: T.sub(a, T.mul(b, T.rfloor(T.rdiv(a, b))))
        if is_signed(dt):
            return lambda a, b: T.divop(op, a, b)
        return lambda a, b: T.divop("udiv" if op == "floordiv" else "urem", a, b)
    return mk


f_add = binary("add", lambda a, b: a + b, lambda dt: _num(dt, "add", T.add))
f_sub = binary("sub", lambda a, b: a - b, lambda dt: _num(dt, "sub", T.sub))
f_mul = binary("mul", lambda a, b: a * b, lambda dt: _num(dt, "mul", T.mul))
f_mod = binary("floormod", lambda a, b: a % b, _div("floormod"))
f_floordiv = binary("floordiv", lambda a, b: a // b, _div("floordiv"))


def f_truediv(x, y, like=None, name=None):
    x, y = _pair(x, y)
    if not x.dtype.is_floating:
        x, y = f_cast(x, rtf.float64), f_cast(y, rtf.float64)
    return _f_rdiv(x, y)


_f_rdiv = binary("truediv", lambda a, b: a / b, lambda dt: T.rdiv)


def f_pow(x, y, name=None):
    x = lift(x)
    if isinstance(y, int) and not x.concrete:
        if y == 0: return f_ones(x.shape, x.dtype)
        r = x
        for _ in range(y - 1): r = f_mul(r, x)
        return r
    return delegate("pow", rtf.pow, x, y)


f_neg = unary("negative", lambda a: -a, lambda dt: _num(dt, "neg", T.neg))


def f_abs(x, name=None):
    def mk(dt):
        w = width(dt)
        return lambda a: T.ite(T.slt(a, T.const(0, w)), T.neg(a), a)
    return unary("abs", rtf.abs, mk)(x)


def f_sign(x, name=None):
    def mk(dt):
        w = width(dt)
        return lambda a: T.ite(T.slt(a, T.const(0, w)), T.const(-1, w), T.ite(T.eq(a, T.const(0, w)), T.const(0, w), T.const(1, w)))
    return unary("sign", rtf.sign, mk)(x)


def _bitw(name, rfn, tfn):
    def mk(dt):
        _need_int(dt, name)
        return tfn
    return binary(name, rfn, mk)


b_and = _bitw("bitwise_and", rtf.bitwise.bitwise_and, T.band)
b_or = _bitw("bitwise_or", rtf.bitwise.bitwise_or, T.bor)
b_xor = _bitw("bitwise_xor", rtf.bitwise.bitwise_xor, T.xor)


def _inv(dt):
    _need_int(dt, "invert")
    return T.bnot


b_invert = unary("bitwise_invert", rtf.bitwise.invert, _inv)


def _shift(op):
    def mk(dt):
        _need_int(dt, op)
        o = op
        if op == "right":
            o = "ashr" if is_signed(dt) else "lshr"
        else:
            o = "shl"
        w = width(dt)
        def f(a, k):
            # TensorFlow clamps the amount to [0, w-1]
            if T.is_const(k):
                kk = T.to_signed(k.val, w) if is_signed(dt) else k.val
                kk = min(max(kk, 0), w - 1)
                return {"ashr": T.ashr, "lshr": T.lshr, "shl": T.shl}[o](a, kk)
            raise Unsupported("symbolic shift amount")
        return f
    return mk


b_left = binary("left_shift", rtf.bitwise.left_shift, _shift("left"))
b_right = binary("right_shift", rtf.bitwise.right_shift, _shift("right"))


def _cmp(kind):
    def mk(dt):
        lt = T.slt if (is_signed(dt) or dt.is_floating) else T.ult
        return {"lt": lt, "gt": lambda a, b: lt(b, a), "le": lambda a, b: T.bnot(lt(b, a)),
                "ge": lambda a, b: T.bnot(lt(a, b)), "eq": T.eq, "ne": lambda a, b: T.bnot(T.eq(a, b))}[kind]
    return mk


f_less = binary("less", rtf.less, _cmp("lt"), rtf.bool)
f_greater = binary("greater", rtf.greater, _cmp("gt"), rtf.bool)
f_less_equal = binary("less_equal", rtf.less_equal, _cmp("le"), rtf.bool)
f_greater_equal = binary("greater_equal", rtf.greater_equal, _cmp("ge"), rtf.bool)
f_equal = binary("equal", rtf.equal, _cmp("eq"), rtf.bool)
f_not_equal = binary("not_equal", rtf.not_equal, _cmp("ne"), rtf.bool)


def _boolop(name, tfn):
    def mk(dt):
        if dt != rtf.bool: raise TypeError("%s needs bool" % name)
        return tfn
    return mk


l_and = binary("logical_and", rtf.logical_and, _boolop("logical_and", T.band))
l_or = binary("logical_or", rtf.logical_or, _boolop("logical_or", T.bor))
l_xor = binary("logical_xor", rtf.math.logical_xor, _boolop("logical_xor", T.xor))
l_not = unary("logical_not", rtf.logical_not, _boolop("logical_not", T.bnot))


def f_bitand(x, y):
    x, y = _pair(x, y)
    return (l_and if x.dtype == rtf.bool else b_and)(x, y)
def f_bitor(x, y):
    x, y = _pair(x, y)
    return (l_or if x.dtype == rtf.bool else b_or)(x, y)
def f_bitxor(x, y):
    x, y = _pair(x, y)
    return (l_xor if x.dtype == rtf.bool else b_xor)(x, y)
def f_invert(x): return (l_not if x.dtype == rtf.bool else b_invert)(x)
def f_lshift(x, y): return b_left(x, y)
def f_rshift(x, y): return b_right(x, y)


def _minmax(mx):
    def mk(dt):
        lt = T.slt if (is_signed(dt) or dt.is_floating) else T.ult
        if mx: return lambda a, b: T.ite(lt(a, b), b, a)
        return lambda a, b: T.ite(lt(b, a), b, a)
    return mk


f_maximum = binary("maximum", rtf.maximum, _minmax(True))
f_minimum = binary("minimum", rtf.minimum, _minmax(False))


def f_round(x, name=None):
    def mk(dt):
        return T.rround if dt.is_floating else (lambda a: a)
    return unary("round", rtf.round, mk)(x)


def f_floor(x, name=None):
    return unary("floor", rtf.floor, lambda dt: T.rfloor)(x)


def f_where(condition, x=None, y=None, name=None):
    c = lift(condition)
    if x is None:
        return delegate("where", rtf.where, c)
    x, y = _pair(x, y)
    use("where", [c, x, y])
    if c.concrete and x.concrete and y.concrete:
        return wrap(rtf.where(*[rtf.constant(t._np, dtype=t.dtype) for t in (c, x, y)]))
    if c.dtype != rtf.bool:
        raise TypeError("where condition must be bool")
    return SymTensor(x.dtype, arr=_vec(T.ite)(c.arr, x.arr, y.arr))


def f_cast(x, dtype, name=None):
    dtype = rtf.as_dtype(dtype)
    x = lift(x)
    use("cast", [x])
    if x.concrete:
        return wrap(rtf.cast(rtf.constant(x._np, dtype=x.dtype), dtype))
    s = x.dtype
    if s == dtype:
        return SymTensor(dtype, arr=x._arr)
    ws, wd = width(s), width(dtype)
    if s.is_floating:
        if dtype.is_floating: f = lambda a: a
        elif dtype == rtf.bool: f = lambda a: T.bnot(T.eq(a, T.const(0, 0)))
        else: f = lambda a: T.r2i(a, wd)
    elif dtype.is_floating:
        if s == rtf.bool: f = lambda a: T.ite(a, T.const(1, 0), T.const(0, 0))
        else: f = lambda a: T.i2r(a, is_signed(s))
    elif dtype == rtf.bool:
        f = lambda a: T.bnot(T.eq(a, T.const(0, ws)))
    elif s == rtf.bool:
        f = lambda a: T.zext(a, wd)
    elif wd < ws: f = lambda a: T.trunc(a, wd)
    elif wd > ws: f = (lambda a: T.sext(a, wd)) if is_signed(s) else (lambda a: T.zext(a, wd))
    else: f = lambda a: a
    return SymTensor(dtype, arr=_vec(f)(x.arr))


def f_bitcast(x, type, name=None):
    x = lift(x)
    type = rtf.as_dtype(type)
    if not x.concrete and width(x.dtype) == width(type) and not x.dtype.is_floating:
        use("bitcast", [x])
        return SymTensor(type, arr=x._arr)
    return delegate("bitcast", rtf.bitcast, x, type)


# ------------------------------------------------------------------ creation
def f_constant(value, dtype=None, shape=None, name="Const"):
    if type(value).__name__ == "HostArray" or has_sym(value) or (isinstance(value, np.ndarray) and value.dtype == object and not _plain(value)):
        t = lift(value, dtype=dtype)
        if dtype is not None and t.dtype != rtf.as_dtype(dtype):
            t = f_cast(t, dtype)
        if shape is not None:
            t = f_broadcast_to(t, shape)
        return t
    count("constant")
    return wrap(rtf.constant(topy(value), dtype=dtype, shape=shape))


def _plain(a):
    return not any(isinstance(e, (T.Node, SymTensor)) for e in a.reshape(-1))


def f_convert_to_tensor(value, dtype=None, dtype_hint=None, name=None):
    if isinstance(value, (SymTensor, SymVariable)):
        t = lift(value)
        if dtype is not None and t.dtype != rtf.as_dtype(dtype):
            raise ValueError("Tensor conversion requested dtype %s for Tensor with dtype %s" % (dtype, t.dtype))
        return t
    if type(value).__name__ == "HostArray" or has_sym(value) or (isinstance(value, np.ndarray) and value.dtype == object and not _plain(value)):
        return lift(value, dtype=dtype)
    count("convert_to_tensor")
    return wrap(rtf.convert_to_tensor(topy(value), dtype=dtype))


def f_zeros(shape, dtype=rtf.float32, name=None): return wrap(rtf.zeros(topy(shape), dtype))
def f_ones(shape, dtype=rtf.float32, name=None): return wrap(rtf.ones(topy(shape), dtype))
def f_fill(dims, value, name=None):
    v = lift(value)
    return f_broadcast_to(v, dims)
def f_zeros_like(x, dtype=None, name=None):
    x = lift(x)
    return wrap(rtf.zeros(x.shape, dtype or x.dtype))
def f_ones_like(x, dtype=None, name=None):
    x = lift(x)
    return wrap(rtf.ones(x.shape, dtype or x.dtype))
def f_shape(x, out_type=rtf.int32, name=None): return wrap(rtf.constant(lift(x).shape.as_list(), dtype=out_type))
def f_size(x, out_type=rtf.int32, name=None): return wrap(rtf.constant(lift(x).shape.num_elements(), dtype=out_type))
def f_rank(x, name=None): return wrap(rtf.constant(len(lift(x).shape)))


# ------------------------------------------------------------------ reductions, contractions
def _axes(axis, n):
    axis = topy(axis)
    if axis is None: return tuple(range(n))
    if isinstance(axis, (int, np.integer)): axis = [axis]
    return tuple(sorted(set(int(a) % n if -n <= int(a) < n else _bad(a, n) for a in np.asarray(axis).reshape(-1))))


def _bad(a, n):
    raise ValueError("Invalid reduction dimension %s for input with %d dimension(s)" % (a, n))


def _reduce(name, rfn, f2, x, axis, keepdims):
    x = lift(x)
    use(name, [x])
    keepdims = bool(keepdims)
    if x.concrete:
        return wrap(rfn(rtf.constant(x._np, dtype=x.dtype), axis=topy(axis), keepdims=keepdims))
    n = len(x.shape)
    ax = _axes(axis, n)
    rest = [i for i in range(n) if i not in ax]
    a = np.transpose(x.arr, rest + list(ax)).reshape([x.arr.shape[i] for i in rest] + [-1])
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        out[i] = f2(list(a[i]))
    if keepdims:
        out = out.reshape([1 if i in ax else x.arr.shape[i] for i in range(n)])
    return SymTensor(x.dtype if name not in ("reduce_all", "reduce_any") else rtf.bool, arr=out)


def f_reduce_sum(x, axis=None, keepdims=False, name=None):
    x = lift(x)
    w = width(x.dtype)
    return _reduce("reduce_sum", rtf.reduce_sum, lambda l: T.add(T.const(0, w), *l), x, axis, keepdims)
def f_reduce_mean(x, axis=None, keepdims=False, name=None):
    x = lift(x)
    return _reduce("reduce_mean", rtf.reduce_mean, lambda l: T.scale(T.add(T.const(0, 0), *l), T.Fraction(1, len(l))), x, axis, keepdims)
def f_reduce_prod(x, axis=None, keepdims=False, name=None):
    def f(l):
        r = l[0]
        for e in l[1:]: r = T.mul(r, e)
        return r
    return _reduce("reduce_prod", rtf.reduce_prod, f, x, axis, keepdims)
def _red2(mk):
    def f(x):
        g = mk(x.dtype)
        def h(l):
            r = l[0]
            for e in l[1:]: r = g(r, e)
            return r
        return h
    return f
def f_reduce_max(x, axis=None, keepdims=False, name=None):
    x = lift(x)
    return _reduce("reduce_max", rtf.reduce_max, _red2(_minmax(True))(x), x, axis, keepdims)
def f_reduce_min(x, axis=None, keepdims=False, name=None):
    x = lift(x)
    return _reduce("reduce_min", rtf.reduce_min, _red2(_minmax(False))(x), x, axis, keepdims)
def f_reduce_all(x, axis=None, keepdims=False, name=None):
    return _reduce("reduce_all", rtf.reduce_all, lambda l: T.conj(*l), x, axis, keepdims)
def f_reduce_any(x, axis=None, keepdims=False, name=None):
    return _reduce("reduce_any", rtf.reduce_any, lambda l: T.disj(*l), x, axis, keepdims)


def f_argmax(x, axis=None, output_type=rtf.int64, name=None):
    x = lift(x)
    use("argmax", [x])
    if x.concrete:
        return wrap(rtf.argmax(rtf.constant(x._np, dtype=x.dtype), axis=topy(axis), output_type=output_type))
    ax = 0 if axis is None else int(topy(axis)) % len(x.shape)
    a = np.moveaxis(x.arr, ax, -1)
    lt = T.slt if (is_signed(x.dtype) or x.dtype.is_floating) else T.ult
    w = width(output_type)
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        l = list(a[i])
        best, bi = l[0], T.const(0, w)
        for j, e in enumerate(l[1:], 1):
            c = lt(best, e)
            best, bi = T.ite(c, e, best), T.ite(c, T.const(j, w), bi)
        out[i] = bi
    return SymTensor(output_type, arr=out)


def f_cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
    x = lift(x)
    use("cumsum", [x])
    if x.concrete:
        return wrap(rtf.cumsum(rtf.constant(x._np, dtype=x.dtype), axis, exclusive, reverse))
    w = width(x.dtype)
    a = np.moveaxis(x.arr, topy(axis), -1)
    out = np.empty(a.shape, dtype=object)
    n = a.shape[-1]
    for i in np.ndindex(*a.shape[:-1]):
        acc = T.const(0, w)
        for j in (range(n - 1, -1, -1) if reverse else range(n)):
            if exclusive:
                out[i + (j,)] = acc
                acc = T.add(acc, a[i + (j,)])
            else:
                acc = T.add(acc, a[i + (j,)])
                out[i + (j,)] = acc
    return SymTensor(x.dtype, arr=np.moveaxis(out, -1, topy(axis)))


def _dot(ra, rb, w):
    return T.add(T.const(0, w), *[T.mul(a, b) for a, b in zip(ra, rb)])


def f_matmul(a, b, transpose_a=False, transpose_b=False, name=None, **kw):
    a, b = _pair(a, b)
    use("matmul", [a, b])
    if a.concrete and b.concrete:
        return wrap(rtf.matmul(rtf.constant(a._np, dtype=a.dtype), rtf.constant(b._np, dtype=b.dtype),
                               transpose_a=transpose_a, transpose_b=transpose_b))
    if a.dtype in (rtf.int8, rtf.int16, rtf.bool):
        raise TypeError("matmul not available for %s" % a.dtype)
    A, B = a.arr, b.arr
    if A.ndim < 2 or B.ndim < 2:
        raise ValueError("matmul needs rank >= 2")
    if transpose_a: A = np.swapaxes(A, -1, -2)
    if transpose_b: B = np.swapaxes(B, -1, -2)
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul inner dimensions %s %s" % (A.shape, B.shape))
    w = width(a.dtype)
    batch = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, batch + A.shape[-2:])
    B = np.broadcast_to(B, batch + B.shape[-2:])
    out = np.empty(batch + (A.shape[-2], B.shape[-1]), dtype=object)
    for i in np.ndindex(*batch):
        for r in range(A.shape[-2]):
            for c in range(B.shape[-1]):
                out[i + (r, c)] = _dot(A[i][r, :], B[i][:, c], w)
    return SymTensor(a.dtype, arr=out)


def f_tensordot(a, b, axes, name=None):
    a, b = _pair(a, b)
    use("tensordot", [a, b])
    if a.concrete and b.concrete:
        return wrap(rtf.tensordot(rtf.constant(a._np, dtype=a.dtype), rtf.constant(b._np, dtype=b.dtype), topy(axes)))
    raise Unsupported("tensordot")


def f_conv2d(input, filters, strides, padding, data_format="NHWC", dilations=None, name=None):
    x, k = _pair(input, filters)
    use("conv2d", [x, k])
    if x.concrete and k.concrete:
        return wrap(rtf.nn.conv2d(rtf.constant(x._np, dtype=x.dtype), rtf.constant(k._np, dtype=k.dtype), strides, padding, data_format, dilations))
    if dilations not in (None, 1, [1, 1], [1, 1, 1, 1]):
        raise Unsupported("dilated conv2d")
    xx = x if data_format == "NHWC" else f_transpose(x, [0, 2, 3, 1])
    kh, kw_, ci, co = [int(d) for d in k.shape]
    if isinstance(strides, int): st = [1, strides, strides, 1]
    elif len(strides) == 1: st = [1, strides[0], strides[0], 1]
    elif len(strides) == 2: st = [1, strides[0], strides[1], 1]
    else: st = list(strides) if data_format == "NHWC" else [strides[0], strides[2], strides[3], strides[1]]
    if not isinstance(padding, str):
        raise Unsupported("explicit conv padding")
    p = f_extract_patches(xx, [1, kh, kw_, 1], st, [1, 1, 1, 1], padding)
    kk = k.arr.reshape(kh * kw_ * ci, co)
    w = width(x.dtype)
    a = p.arr
    out = np.empty(a.shape[:-1] + (co,), dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for c in range(co):
            out[i + (c,)] = _dot(a[i], kk[:, c], w)
    r = SymTensor(x.dtype, arr=out)
    return r if data_format == "NHWC" else f_transpose(r, [0, 3, 1, 2])


# ------------------------------------------------------------------ randomness (op-level models)
def _shape(shape):
    if isinstance(shape, rtf.TensorShape): return tuple(shape.as_list())
    s = topy(shape)
    if isinstance(s, rtf.Tensor): s = s.numpy()
    if isinstance(s, (int, np.integer)): return (int(s),)
    return tuple(int(i) for i in (s.tolist() if isinstance(s, np.ndarray) else s))


def _scalar(x):
    v = lift(x)
    if not v.concrete: raise Unsupported("symbolic sampling bound")
    return v._np


def rand_tensor(prefix, shape, dtype, lo, hi, known_to=None, info=None):
    """fresh uniform variables in [lo, hi)"""
    w = width(dtype)
    a = np.empty(shape, dtype=object)
    base = CTX.fresh(prefix)
    names = []
    for i in np.ndindex(*shape):
        v = T.var(base + "".join("_%d" % j for j in i), w)
        names.append(v)
        _range_assume(v, w, lo, hi, is_signed(dtype))
        a[i] = v
    t = SymTensor(dtype, arr=a)
    CTX.rand.append(dict(base=base, vars=names, device=CTX.device, lo=lo, hi=hi, dtype=dtype, info=info))
    return t


_STRICT_RANGE = [False]


def _range_assume(v, w, lo, hi, signed):
    """[lo, hi) ; the full ring (also when the exclusive upper end leaves out the largest element: a
    superset of the real draws, so universally quantified claims carry over)."""
    full_lo, full_hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    lo, hi = int(lo), int(hi)
    if lo <= full_lo and hi >= full_hi:
        return
    le, lt = (T.sle, T.slt) if signed else (T.ule, T.ult)
    if signed or hi < full_hi >> 1:
        T.RANGES[v] = (max(lo, -(1 << (w - 1))), min(hi - 1, (1 << (w - 1)) - 1))
    CTX.assume(le(T.const(lo, w), v))
    if hi <= full_hi:
        CTX.assume(lt(v, T.const(hi, w)))


def seed_key(seed):
    s = lift(seed)
    return tuple(n.id for n in s.arr.reshape(-1))


_seeded = {}


def op_seeded_uniform(shape, seed, minval, maxval, name=None):
    shape = _shape(shape)
    lo, hi = _scalar(minval), _scalar(maxval)
    dt = rtf.as_dtype(lo.dtype)
    s = lift(seed)
    use("secure_seeded_random_uniform", [s])
    key = (seed_key(s), dt, int(lo), int(hi))
    # the stream is a function of (seed, dtype, range): element i is the same for every shape
    n = int(np.prod(shape)) if shape else 1
    w = width(dt)
    lst = _seeded.setdefault(key, [])
    base = CTX.fresh("prf") if not lst else None
    if lst: base = lst[0].val.rsplit("_", 1)[0]
    while len(lst) < n:
        v = T.var("%s_%d" % (base, len(lst)), w)
        _range_assume(v, w, lo, hi, is_signed(dt))
        lst.append(v)
    a = np.empty(n, dtype=object)
    a[:] = lst[:n]
    CTX.rand.append(dict(base=base, vars=lst[:n], device=CTX.device, lo=int(lo), hi=int(hi), dtype=dt,
                         seed=s, key=key, info="seeded"))
    return SymTensor(dt, arr=a.reshape(shape))


def op_uniform(shape, minval, maxval, name=None):
    lo, hi = _scalar(minval), _scalar(maxval)
    return rand_tensor("rnd", _shape(shape), rtf.as_dtype(lo.dtype), int(lo), int(hi), info="uniform")


def op_secure_seed(name=None):
    t = rand_tensor("seed", (8,), rtf.int32, -2**31, 2**31 - 1, info="seed")
    return t


def join128(lo, hi):
    return T.concat(hi, lo)


def _i128(x):
    """[..., 2] int64 limbs -> array of width-128 terms"""
    x = lift(x)
    if x.dtype != rtf.int64 or len(x.shape) < 1 or x.shape[-1] != 2:
        raise ValueError("not an int128 tensor: %s %s" % (x.dtype, x.shape))
    a = x.arr
    return _vec(join128)(a[..., 0], a[..., 1])


def _lo64(a):
    return T.trunc(a, 64)


def _hi64(a):
    # hi limb of a 128-bit term
    return T.trunc(T.lshr(a, 64), 64)


def _from128(a):
    lo, hi = _vec(_lo64)(a), _vec(_hi64)(a)
    return SymTensor(rtf.int64, arr=np.stack([lo, hi], axis=-1))


def _c128(x):
    v = _scalar(x)
    return (int(v[0]) & (2**64 - 1)) | (int(v[1]) << 64)


def op_i128_seeded_uniform(shape, seed, minval, maxval, name=None):
    shape = _shape(shape)
    lo, hi = _c128(minval), _c128(maxval)
    s = lift(seed)
    use("i128_secure_seeded_random_uniform", [s])
    key = (seed_key(s), "i128", lo, hi)
    n = int(np.prod(shape)) if shape else 1
    lst = _seeded.setdefault(key, [])
    base = lst[0].val.rsplit("_", 1)[0] if lst else CTX.fresh("prf128")
    while len(lst) < n:
        v = T.var("%s_%d" % (base, len(lst)), 128)
        _range_assume(v, 128, lo, hi, True)
        lst.append(v)
    a = np.empty(n, dtype=object)
    a[:] = lst[:n]
    CTX.rand.append(dict(base=base, vars=lst[:n], device=CTX.device, lo=lo, hi=hi, dtype="int128", seed=s, key=key, info="seeded"))
    return _from128(a.reshape(shape))


def op_i128_uniform(shape, minval, maxval, name=None):
    lo, hi = _c128(minval), _c128(maxval)
    shape = _shape(shape)
    a = np.empty(shape, dtype=object)
    base = CTX.fresh("rnd128")
    for i in np.ndindex(*shape):
        v = T.var(base + "".join("_%d" % j for j in i), 128)
        _range_assume(v, 128, lo, hi, True)
        a[i] = v
    CTX.rand.append(dict(base=base, vars=list(a.reshape(-1)), device=CTX.device, lo=lo, hi=hi, dtype="int128", info="uniform"))
    return _from128(a)


def f_random_uniform(shape, minval=0, maxval=None, dtype=rtf.float32, seed=None, name=None):
    dtype = rtf.as_dtype(dtype)
    if dtype.is_floating:
        raise Unsupported("float randomness")
    return rand_tensor("tfrnd", _shape(shape), dtype, int(_scalar(minval)), int(_scalar(maxval)), info="uniform")


def f_stateless_uniform(shape, seed, minval=0, maxval=None, dtype=rtf.float32, **kw):
    dtype = rtf.as_dtype(dtype)
    if dtype.is_floating: raise Unsupported("float randomness")
    return op_seeded_uniform(shape, seed, np.array(minval, dtype.as_numpy_dtype), np.array(maxval, dtype.as_numpy_dtype))


# ------------------------------------------------------------------ custom op libraries (contracts; proved in C16/C17)
def bit_gather_idx(w, start, stride):
    return [i for i in range(start, w, stride)]


def op_bit_gather(x, start, stride, name=None):
    x = lift(x)
    w = width(x.dtype)
    if x.concrete: return delegate("bit_gather", REAL["aux_module"].bit_gather, x, start=start, stride=stride)
    use("bit_gather", [x])
    idx = bit_gather_idx(w, start, stride)
    return SymTensor(x.dtype, arr=_vec(lambda a: T.bits_select(a, idx, w))(x.arr))


def op_bit_split_and_gather(x, stride, name=None):
    x = lift(x)
    w = width(x.dtype)
    if x.concrete: return delegate("bit_split_and_gather", REAL["aux_module"].bit_split_and_gather, x, stride=stride)
    use("bit_split_and_gather", [x])
    parts = [_vec(lambda a, s=s: T.bits_select(a, bit_gather_idx(w, s, stride), w))(x.arr) for s in range(stride)]
    return SymTensor(x.dtype, arr=np.stack(parts, axis=0))


def op_bit_reverse(x, name=None):
    x = lift(x)
    if x.concrete: return delegate("bit_reverse", REAL["aux_module"].bit_reverse, x)
    use("bit_reverse", [x])
    return SymTensor(x.dtype, arr=_vec(T.bitrev)(x.arr))


def xor_indices_term(a):
    """xor of the positions of the set bits"""
    w = a.w
    r = T.const(0, w)
    lg = (w - 1).bit_length()
    for b in range(lg):
        # parity of the bits at positions whose index has bit b
        bits = [T.bits_select(a, [i], w) for i in range(w) if (i >> b) & 1]
        p = bits[0]
        for q in bits[1:]: p = T.xor(p, q)
        r = T.xor(r, T.shl(p, b))
    return r


def op_xor_indices(x, name=None):
    x = lift(x)
    if x.concrete: return delegate("xor_indices", REAL["aux_module"].xor_indices, x)
    use("xor_indices", [x])
    return SymTensor(x.dtype, arr=_vec(xor_indices_term)(x.arr))


REAL = {}


def _i128op(name, f):
    def op(*xs, **kw):
        xs = [lift(x) for x in xs]
        use(name, xs)
        return _from128(_vec(f)(*[_i128(x) for x in xs]))
    return op


def op_i128_matmul(x, y, name=None):
    x, y = lift(x), lift(y)
    use("i128_mat_mul", [x, y])
    A, B = _i128(x), _i128(y)
    if A.ndim != 2 or B.ndim != 2 or A.shape[1] != B.shape[0]:
        raise ValueError("i128_mat_mul shapes %s %s" % (A.shape, B.shape))
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _dot(A[i, :], B[:, j], 128)
    return _from128(out)


def op_i128_reduce_sum(x, axis, keepdims, name=None):
    x = lift(x)
    use("i128_reduce_sum", [x])
    a = _i128(x)
    n = a.ndim
    ax = _axes(axis, n)
    rest = [i for i in range(n) if i not in ax]
    b = np.transpose(a, rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = T.add(T.const(0, 128), *list(b[i]))
    if keepdims: out = out.reshape([1 if i in ax else a.shape[i] for i in range(n)])
    return _from128(out)


def op_i128_shift(name, f):
    def op(x, shmt, name_=None):
        x = lift(x)
        use(name, [x])
        k = int(topy(shmt))
        return _from128(_vec(lambda a: f(a, k))(_i128(x)))
    return op


def op_i128_equal(x, y, name=None):
    x, y = lift(x), lift(y)
    use("i128_equal", [x, y])
    return SymTensor(rtf.bool, arr=_vec(T.eq)(_i128(x), _i128(y)))


def op_to_i128(x, scale, name=None):
    x = lift(x)
    use("to_i128", [x])
    if x.concrete: return delegate("to_i128", REAL["tf_i128"].to_i128, x, scale)
    return _from128(_vec(lambda a: T.r2i(T.scale(a, scale), 128))(x.arr))


def op_from_i128(x, scale, name=None):
    x = lift(x)
    use("from_i128", [x])
    return SymTensor(rtf.float64, arr=_vec(lambda a: T.scale(T.i2r(a), T.Fraction(1, scale)))(_i128(x)))


def op_i128_bit_gather(x, start, stride, name=None):
    x = lift(x); use("i128_bit_gather", [x])
    return _from128(_vec(lambda a: T.bits_select(a, bit_gather_idx(128, start, stride), 128))(_i128(x)))


def op_i128_bit_split(x, stride, name=None):
    x = lift(x); use("i128_bit_split_and_gather", [x])
    a = _i128(x)
    parts = [_vec(lambda e, s=s: T.bits_select(e, bit_gather_idx(128, s, stride), 128))(a) for s in range(stride)]
    return _from128(np.stack(parts, axis=0))


def module_ns(name, d, real):
    class _M:
        def __getattr__(self, k):
            if k in d:
                return d[k]
            f = getattr(real, k)
            if callable(f):
                return lambda *a, **kw: delegate(k, f, *a, **kw)
            return f
    m = _M()
    return m


def abs128(a):
    return T.ite(T.slt(a, T.const(0, 128)), T.neg(a), a)


SECURE_RANDOM_OPS = dict(secure_seeded_random_uniform=op_seeded_uniform, secure_random_uniform=op_uniform,
                         secure_seed=op_secure_seed, i128_secure_seeded_random_uniform=op_i128_seeded_uniform,
                         i128_secure_random_uniform=op_i128_uniform)
AUX_OPS = dict(bit_gather=op_bit_gather, bit_split_and_gather=op_bit_split_and_gather, bit_reverse=op_bit_reverse,
               xor_indices=op_xor_indices)
I128_OPS = dict(i128_add=_i128op("i128_add", T.add), i128_sub=_i128op("i128_sub", T.sub), i128_mul=_i128op("i128_mul", T.mul),
                i128_negate=_i128op("i128_negate", T.neg), i128_abs=_i128op("i128_abs", abs128),
                i128_mat_mul=op_i128_matmul, i128_reduce_sum=op_i128_reduce_sum,
                i128_right_shift=op_i128_shift("i128_right_shift", T.ashr), i128_left_shift=op_i128_shift("i128_left_shift", T.shl),
                i128_logic_right_shift=op_i128_shift("i128_logic_right_shift", T.lshr), i128_equal=op_i128_equal,
                to_i128=op_to_i128, from_i128=op_from_i128, i128_bit_reverse=_i128op("i128_bit_reverse", T.bitrev),
                i128_bit_gather=op_i128_bit_gather, i128_bit_split_and_gather=op_i128_bit_split,
                i128_xor_indices=_i128op("i128_xor_indices", xor_indices_term))


# ------------------------------------------------------------------ facade
def f_function(func=None, **kw):
    if func is None:
        return lambda f: f
    return func


def f_cond(pred, true_fn=None, false_fn=None, name=None):
    p = lift(pred)
    if p.concrete:
        return true_fn() if bool(p) else false_fn()
    a, b = true_fn(), false_fn()
    def merge(x, y):
        if isinstance(x, (list, tuple)):
            return type(x)(merge(i, j) for i, j in zip(x, y))
        return f_where(p, x, y)
    return merge(a, b)


def f_group(*a, **k): return None
def f_no_op(*a, **k): return None
def f_print(*a, **k): return None
def f_debug(*a, **k): return None
def f_stop_gradient(x, name=None): return f_identity(x)


def f_control_dependencies(x):
    return f_scope()


def f_add_n(inputs, name=None):
    r = inputs[0]
    for x in inputs[1:]: r = f_add(r, x)
    return r


def _api2(op):
    def f(x, y, name=None): return op(x, y)
    return f


TABLE = {
    "Tensor": SymTensor, "Variable": SymVariable, "device": f_device, "name_scope": f_scope, "init_scope": f_scope,
    "control_dependencies": f_control_dependencies, "constant": f_constant, "convert_to_tensor": f_convert_to_tensor,
    "cast": f_cast, "bitcast": f_bitcast, "zeros": f_zeros, "ones": f_ones, "fill": f_fill, "zeros_like": f_zeros_like,
    "ones_like": f_ones_like, "shape": f_shape, "size": f_size, "rank": f_rank, "identity": f_identity, "reshape": f_reshape,
    "transpose": f_transpose, "expand_dims": f_expand_dims, "squeeze": f_squeeze, "gather": f_gather, "argsort": f_argsort, "gather_nd": f_gather_nd,
    "tile": f_tile, "reverse": f_reverse, "roll": f_roll, "broadcast_to": f_broadcast_to, "repeat": f_repeat,
    "strided_slice": f_strided_slice, "slice": f_slice, "split": f_split, "unstack": f_unstack, "space_to_batch": f_space_to_batch,
    "space_to_batch_nd": f_space_to_batch, "batch_to_space": f_batch_to_space, "pad": f_pad, "stack": f_stack, "concat": f_concat,
    "scatter_nd": f_scatter_nd, "tensor_scatter_nd_update": f_tensor_scatter_nd_update, "where": f_where, "boolean_mask": f_boolean_mask,
    "add": _api2(f_add), "subtract": _api2(f_sub), "multiply": _api2(f_mul), "negative": f_neg, "abs": f_abs, "sign": f_sign,
    "equal": _api2(f_equal), "not_equal": _api2(f_not_equal), "less": _api2(f_less), "greater": _api2(f_greater),
    "less_equal": _api2(f_less_equal), "greater_equal": _api2(f_greater_equal), "logical_and": _api2(l_and), "logical_or": _api2(l_or),
    "logical_not": lambda x, name=None: l_not(x), "maximum": _api2(f_maximum), "minimum": _api2(f_minimum), "round": f_round,
    "floor": f_floor, "pow": f_pow, "square": lambda x, name=None: f_mul(x, x), "add_n": f_add_n, "math.add_n": f_add_n,
    "reduce_sum": f_reduce_sum, "reduce_mean": f_reduce_mean, "reduce_prod": f_reduce_prod, "reduce_max": f_reduce_max,
    "reduce_min": f_reduce_min, "reduce_all": f_reduce_all, "reduce_any": f_reduce_any, "argmax": f_argmax, "cumsum": f_cumsum,
    "matmul": f_matmul, "tensordot": f_tensordot, "function": f_function, "cond": f_cond, "group": f_group, "no_op": f_no_op,
    "print": f_print, "stop_gradient": f_stop_gradient, "divide": f_truediv, "truediv": f_truediv,
    "bitwise.bitwise_and": _api2(b_and), "bitwise.bitwise_or": _api2(b_or), "bitwise.bitwise_xor": _api2(b_xor),
    "bitwise.invert": lambda x, name=None: b_invert(x), "bitwise.left_shift": _api2(b_left), "bitwise.right_shift": _api2(b_right),
    "math.logical_and": _api2(l_and), "math.logical_or": _api2(l_or), "math.logical_xor": _api2(l_xor),
    "math.logical_not": lambda x, name=None: l_not(x), "math.add": _api2(f_add), "math.subtract": _api2(f_sub), "math.multiply": _api2(f_mul),
    "math.negative": f_neg, "math.floormod": _api2(f_mod), "math.mod": _api2(f_mod), "math.floordiv": _api2(f_floordiv),
    "math.reduce_sum": f_reduce_sum, "math.reduce_mean": f_reduce_mean, "math.reduce_max": f_reduce_max, "math.reduce_prod": f_reduce_prod,
    "math.argmax": f_argmax, "math.cumsum": f_cumsum, "math.round": f_round, "math.floor": f_floor, "math.abs": f_abs, "math.equal": _api2(f_equal),
    "math.less": _api2(f_less), "math.greater": _api2(f_greater), "math.maximum": _api2(f_maximum), "math.minimum": _api2(f_minimum),
    "math.square": lambda x, name=None: f_mul(x, x), "math.sign": f_sign, "math.pow": f_pow, "linalg.matmul": f_matmul,
    "math.divide": f_truediv, "math.truediv": f_truediv,
    "nn.conv2d": f_conv2d, "image.extract_patches": f_extract_patches, "random.uniform": f_random_uniform,
    "random.stateless_uniform": f_stateless_uniform, "debugging.assert_equal": f_debug,
}


class Facade:
    def __init__(self, real, path=""):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_path", path)
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, k):
        c = self._cache
        if k in c:
            return c[k]
        p = self._path + k
        if p in TABLE:
            r = TABLE[p]
        else:
            v = getattr(self._real, k)
            if isinstance(v, types.ModuleType):
                r = Facade(v, p + ".")
            elif isinstance(v, type) or not callable(v):
                r = v
            else:
                def r(*a, _v=v, _p=p, **kw):
                    return delegate(_p, _v, *a, **kw)
        c[k] = r
        return r


FACADE = Facade(rtf)


def sym_input(name, shape, dtype, lo=None, hi=None):
    """a tensor of free variables (a harness input)"""
    w = width(dtype)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        v = T.var(name + "".join("_%d" % j for j in i), w)
        a[i] = v
        if lo is not None and w:
            CTX.assume(T.sle(T.const(lo, w), v)); CTX.assume(T.sle(v, T.const(hi, w)))
    return SymTensor(dtype, arr=a)


def sym_input128(name, shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = T.var(name + "".join("_%d" % j for j in i), 128)
    return _from128(a)
