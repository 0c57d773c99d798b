"""Reference functions on object arrays of terms, written with numpy only (no TensorFlow)."""
import numpy as np

from engine import term as T


def z0(n):
    a = np.empty((), dtype=object)
    a[()] = n
    return a


def zero_of(X):
    x = X.reshape(-1)[0]
    return x - x


def dot(xs, ys):
    r = None
    for a, b in zip(xs, ys):
        p = a * b
        r = p if r is None else r + p
    return r


def matmul(X, Y):
    batch = np.broadcast_shapes(X.shape[:-2], Y.shape[:-2])
    X = np.broadcast_to(X, batch + X.shape[-2:])
    Y = np.broadcast_to(Y, batch + Y.shape[-2:])
    out = np.empty(batch + (X.shape[-2], Y.shape[-1]), dtype=object)
    for i in np.ndindex(*batch):
        for r in range(X.shape[-2]):
            for c in range(Y.shape[-1]):
                out[i + (r, c)] = dot(X[i][r, :], Y[i][:, c])
    return out


def pads(n, k, s, padding):
    """TensorFlow padding rule -> (out, before, after)"""
    if padding == "VALID":
        return (n - k) // s + 1, 0, 0
    out = -(-n // s)
    total = max((out - 1) * s + k - n, 0)
    return out, total // 2, total - total // 2


def conv2d_nchw(X, K, strides, padding):
    """X: N C H W ; K: kh kw cin cout (cross-correlation)"""
    n, c, h, w = X.shape
    kh, kw, ci, co = K.shape
    oh, pt, pb = pads(h, kh, strides[0], padding)
    ow, pl, pr = pads(w, kw, strides[1], padding)
    zero = zero_of(X)
    out = np.empty((n, co, oh, ow), dtype=object)
    for b in range(n):
        for o in range(co):
            for i in range(oh):
                for j in range(ow):
                    acc = zero
                    for a in range(kh):
                        for e in range(kw):
                            y, x = i * strides[0] + a - pt, j * strides[1] + e - pl
                            if 0 <= y < h and 0 <= x < w:
                                for q in range(ci):
                                    acc = acc + X[b, q, y, x] * K[a, e, q, o]
                    out[b, o, i, j] = acc
    return out


def vec(f):
    g = np.frompyfunc(f, 1, 1)
    def run(x):
        r = g(x)
        return r if isinstance(r, np.ndarray) else z0(r)
    return run


def vec2(f):
    g = np.frompyfunc(f, 2, 1)
    def run(x, y):
        r = g(x, y)
        return r if isinstance(r, np.ndarray) else z0(r)
    return run


def reduce_sum(X, axis=None, keepdims=False):
    r = np.sum(X, axis=axis, keepdims=bool(keepdims))
    return r if isinstance(r, np.ndarray) else z0(r)


def cumsum(X, axis=0, exclusive=False, reverse=False):
    A = np.moveaxis(X, axis, 0)
    if reverse:
        A = A[::-1]
    out = np.empty(A.shape, dtype=object)
    acc = None
    zero = zero_of(X)
    for i in range(A.shape[0]):
        prev = np.full(A.shape[1:], zero, dtype=object) if acc is None else acc
        acc = prev + A[i]
        v = prev if exclusive else acc
        if A.ndim == 1:
            out[i] = v if not isinstance(v, np.ndarray) else v[()]
        else:
            out[i] = v
    if reverse:
        out = out[::-1]
    return np.moveaxis(out, 0, axis)


def pad_zeros(X, paddings):
    zero = zero_of(X)
    shape = tuple(n + a + b for n, (a, b) in zip(X.shape, paddings))
    out = np.empty(shape, dtype=object)
    out[...] = zero
    out[tuple(slice(a, a + n) for n, (a, b) in zip(X.shape, paddings))] = X
    return out


def space_to_batch(X, block, paddings):
    """N H W C, as tf.space_to_batch"""
    Xp = pad_zeros(X, [(0, 0)] + [tuple(p) for p in paddings] + [(0, 0)])
    n, h, w, c = Xp.shape
    b0, b1 = block
    Y = Xp.reshape(n, h // b0, b0, w // b1, b1, c).transpose(2, 4, 0, 1, 3, 5)
    return Y.reshape(n * b0 * b1, h // b0, w // b1, c)


def batch_to_space(X, block, crops):
    nb, h, w, c = X.shape
    b0, b1 = block
    n = nb // (b0 * b1)
    Y = X.reshape(b0, b1, n, h, w, c).transpose(2, 3, 0, 4, 1, 5).reshape(n, h * b0, w * b1, c)
    (t, b), (l, rr) = crops
    return Y[:, t:h * b0 - b, l:w * b1 - rr, :]


def window_sum(X, k, st, pad):
    """N C H W: the sum over every pooling window, zeros outside the image"""
    n, c, h, w = X.shape
    oh, pt, _ = pads(h, k[0], st[0], pad)
    ow, pl, _ = pads(w, k[1], st[1], pad)
    out = np.empty((n, c, oh, ow), dtype=object)
    for b, q, i, j in np.ndindex(n, c, oh, ow):
        acc = zero_of(X)
        for a, e in np.ndindex(*k):
            y, x = i * st[0] + a - pt, j * st[1] + e - pl
            if 0 <= y < h and 0 <= x < w:
                acc = acc + X[b, q, y, x]
        out[b, q, i, j] = acc
    return out
