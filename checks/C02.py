"""Two-server linear and structural operations."""
import itertools

import numpy as np

from engine import term as T
from engine.harness import main, TIER
from checks import lib_pond as L
from checks import spec

KINDS = ("public", "private", "masked")


def unary_table():
    """name -> (input shape, code, reference)"""
    t = []
    A = lambda name, shape, f, g: t.append((name, shape, f, g))
    A("negative", (2, 2), lambda p, x: p.negative(x), lambda X: -X)
    for ax in (None, 0, 1, -1):
        for kd in (None, True):
            A("reduce_sum[%s,%s]" % (ax, kd), (2, 3), lambda p, x, ax=ax, kd=kd: p.reduce_sum(x, axis=ax, keepdims=kd),
              lambda X, ax=ax, kd=kd: spec.reduce_sum(X, ax, bool(kd)))
    A("reduce_sum-axes", (2, 2, 2), lambda p, x: p.reduce_sum(x, axis=[0, 2]), lambda X: spec.reduce_sum(X, (0, 2)))
    A("sum-method", (2, 3), lambda p, x: x.sum(axis=1), lambda X: spec.reduce_sum(X, 1))
    for ax, ex, rv in itertools.product((0, 1), (False, True), (False, True)):
        A("cumsum[%d,%s,%s]" % (ax, ex, rv), (2, 3), lambda p, x, a=ax, e=ex, r=rv: p.cumsum(x, axis=a, exclusive=e, reverse=r),
          lambda X, a=ax, e=ex, r=rv: spec.cumsum(X, a, e, r))
    A("transpose", (2, 3), lambda p, x: p.transpose(x), lambda X: X.T)
    A("transpose-3", (1, 2, 3), lambda p, x: p.transpose(x), lambda X: X.transpose())
    for pm in ((1, 0, 2), (2, 0, 1), (0, 2, 1)):
        A("transpose%s" % (pm,), (1, 2, 3), lambda p, x, pm=pm: p.transpose(x, perm=list(pm)), lambda X, pm=pm: X.transpose(pm))
    A("sum-method-keepdims", (2, 3), lambda p, x: x.sum(1, True), lambda X: spec.reduce_sum(X, 1, True))
    A("reduce_sum-method", (2, 3), lambda p, x: x.reduce_sum(0, True), lambda X: spec.reduce_sum(X, 0, True))
    A("negative-method", (2, 2), lambda p, x: x.negative(), lambda X: -X)
    A("expand_dims-method", (2, 3), lambda p, x: x.expand_dims(axis=1), lambda X: np.expand_dims(X, 1))
    A("transpose-method-default", (1, 2, 3), lambda p, x: x.transpose(), lambda X: X.transpose())
    A("transpose-method", (1, 2, 3), lambda p, x: x.transpose([2, 1, 0]), lambda X: X.transpose(2, 1, 0))
    A("reshape", (2, 3), lambda p, x: p.reshape(x, [3, 2]), lambda X: X.reshape(3, 2))
    A("reshape-1", (2, 3), lambda p, x: p.reshape(x, [-1]), lambda X: X.reshape(-1))
    A("reshape-4", (2, 3), lambda p, x: x.reshape([1, 2, 3, 1]), lambda X: X.reshape(1, 2, 3, 1))
    for ax in (0, 1, 2, -1):
        A("expand_dims[%d]" % ax, (2, 3), lambda p, x, ax=ax: p.expand_dims(x, axis=ax), lambda X, ax=ax: np.expand_dims(X, ax))
    A("squeeze", (1, 2, 1), lambda p, x: p.squeeze(x), lambda X: X.reshape(2))
    A("squeeze[0]", (1, 2, 1), lambda p, x: p.squeeze(x, axis=[0]), lambda X: X.reshape(2, 1))
    A("squeeze[2]", (1, 2, 1), lambda p, x: p.squeeze(x, axis=[2]), lambda X: X.reshape(1, 2))
    A("strided_slice", (3, 4), lambda p, x: p.strided_slice(x, [0, 1], [3, 4], [2, 1]), lambda X: X[0:3:2, 1:4])
    A("strided_slice-neg", (3, 4), lambda p, x: p.strided_slice(x, [2, 3], [0, 0], [-1, -2]), lambda X: X[2:0:-1, 3:0:-2])
    A("strided_slice-kw", (3, 4), lambda p, x: p.strided_slice(x, begin=[1, 0], end=[3, 2], strides=[1, 1]), lambda X: X[1:3, 0:2])
    A("strided_slice-mask", (3, 4), lambda p, x: p.strided_slice(x, [1, 0], [2, 2], [1, 1], shrink_axis_mask=1), lambda X: X[1, 0:2])
    for i, slc in enumerate((0, -1, slice(1, 3), slice(None, None, 2), (slice(None), 1), (1, slice(0, 2)), (Ellipsis, 0), (slice(None), slice(None, None, -1)))):
        A("indexer[%d]" % i, (3, 2), lambda p, x, s=slc: x[s], lambda X, s=slc: X[s])
    A("gather", (3, 2), lambda p, x: p.gather(x, [2, 0, 2], axis=0), lambda X: X[[2, 0, 2]])
    A("gather-1", (2, 3), lambda p, x: p.gather(x, [1, 2], axis=1), lambda X: X[:, [1, 2]])
    A("identity", (2, 2), lambda p, x: p.identity(x), lambda X: X)
    A("pad", (2, 2), lambda p, x: p.pad(x, [[1, 0], [0, 2]]), lambda X: spec.pad_zeros(X, [(1, 0), (0, 2)]))
    A("pad-both", (2, 1), lambda p, x: p.pad(x, [[1, 2], [3, 1]]), lambda X: spec.pad_zeros(X, [(1, 2), (3, 1)]))
    A("space_to_batch", (1, 2, 3, 1), lambda p, x: p.space_to_batch(x, [2, 2], [[0, 0], [1, 0]]), lambda X: spec.space_to_batch(X, (2, 2), ((0, 0), (1, 0))))
    A("batch_to_space", (4, 1, 2, 1), lambda p, x: p.batch_to_space(x, [2, 2], [[0, 1], [1, 0]]), lambda X: spec.batch_to_space(X, (2, 2), ((0, 1), (1, 0))))
    return t


def multi_table():
    """name -> (input shape, code, reference list)"""
    t = []
    t.append(("split", (4, 2), lambda p, x: p.split(x, 2, axis=0), lambda X: np.split(X, 2, 0)))
    t.append(("split-1", (2, 3), lambda p, x: p.split(x, 3, axis=1), lambda X: np.split(X, 3, 1)))
    t.append(("split-sizes", (2, 4), lambda p, x: p.split(x, [1, 3], axis=1), lambda X: np.split(X, [1], 1)))
    return t


NO_MASKED = {"pad", "pad-both", "identity"}  # these refuse masked tensors explicitly


def build(r):
    for (name, shape, f, g), k, sc in itertools.product(unary_table(), KINDS, (False, True)):
        if k == "masked" and name in NO_MASKED:
            continue
        def fn(h, k=k, shape=shape, f=f, g=g, sc=sc):
            prot = L.new_prot(h)
            x, X = L.MAKE[k](h, prot, "x", shape, sc)
            L.check_any(h, prot, "value", f(prot, x), g(X), sc)
        r.case("%s[%s%s]" % (name, k, ",scaled" if sc else ""), fn, trials=1)
    for (name, shape, f, g), k, sc in itertools.product(multi_table(), KINDS, (False, True)):
        def fn(h, k=k, shape=shape, f=f, g=g, sc=sc):
            prot = L.new_prot(h)
            x, X = L.MAKE[k](h, prot, "x", shape, sc)
            got, want = f(prot, x), g(X)
            h.ensure_true("count", len(got) == len(want), "%d parts" % len(got))
            for i, (a, b) in enumerate(zip(got, want)):
                L.check_any(h, prot, "part%d" % i, a, b, sc)
        r.case("%s[%s%s]" % (name, k, ",scaled" if sc else ""), fn, trials=1)
    # several operands
    for k, sc in itertools.product(KINDS, (False, True)):
        for name, f, g in (
            ("stack0", lambda p, xs: p.stack(xs, axis=0), lambda Xs: np.stack(Xs, 0)),
            ("stack1", lambda p, xs: p.stack(xs, axis=1), lambda Xs: np.stack(Xs, 1)),
            ("stack-1", lambda p, xs: p.stack(xs, axis=-1), lambda Xs: np.stack(Xs, -1)),
            ("concat0", lambda p, xs: p.concat(xs, axis=0), lambda Xs: np.concatenate(Xs, 0)),
            ("concat1", lambda p, xs: p.concat(xs, axis=1), lambda Xs: np.concatenate(Xs, 1)),
            ("add_n", lambda p, xs: p.add_n(xs), lambda Xs: Xs[0] + Xs[1] + Xs[2]),
        ):
            def fn(h, k=k, sc=sc, f=f, g=g):
                prot = L.new_prot(h)
                both = [L.MAKE[k](h, prot, n, (2, 2), sc) for n in "xyz"]
                L.check_any(h, prot, "value", f(prot, [b[0] for b in both]), g([b[1] for b in both]), sc)
            r.case("%s[%s%s]" % (name, k, ",scaled" if sc else ""), fn, trials=1)
    # binary
    for kx, ky, sc in itertools.product(KINDS, KINDS, (False, True)):
        for name, shx, shy in (("same", (2, 2), (2, 2)), ("bcast", (2, 2), (2,)), ("bcast2", (1, 2), (2, 1)), ("scalar", (2,), ())):
            big = shx if kx != "public" else shy if ky != "public" else None
            if big is not None and "public" in (kx, ky) and np.broadcast_shapes(shx, shy) != big:
                continue  # the code refuses (assertion) a public operand that would enlarge a private one
            for op in ("add", "sub") + (("add-method", "sub-method", "+", "-") if name == "same" else ()):
                def fn(h, kx=kx, ky=ky, sc=sc, shx=shx, shy=shy, op=op):
                    prot = L.new_prot(h)
                    x, X = L.MAKE[kx](h, prot, "x", shx, sc)
                    y, Y = L.MAKE[ky](h, prot, "y", shy, sc)
                    z = x + y if op == "+" else x - y if op == "-" else getattr(x, op[:3])(y) if "method" in op else getattr(prot, op)(x, y)
                    L.check_any(h, prot, "value", z, X + Y if op[:3] in ("add", "+") else X - Y, sc)
                r.case("%s-%s[%s,%s%s]" % (op, name, kx, ky, ",scaled" if sc else ""), fn, trials=1)
    # Python numbers as public operands
    for k, sc in itertools.product(KINDS, (False, True)):
        for name, f, g in (
            ("x+3", lambda x: x + 3, lambda X, c: X + c(3)),
            ("3+x", lambda x: 3 + x, lambda X, c: X + c(3)),
            ("x-5", lambda x: x - 5, lambda X, c: X - c(5)),
            ("7-x", lambda x: 7 - x, lambda X, c: c(7) - X),
            ("x+2.5", lambda x: x + 2.5, lambda X, c: X + c(2.5)),
            ("x-(-1)", lambda x: x - (-1), lambda X, c: X - c(-1)),
        ):
            if not sc and "2.5" in name:
                continue
            def fn(h, k=k, sc=sc, f=f, g=g):
                prot = L.new_prot(h)
                x, X = L.MAKE[k](h, prot, "x", (2,), sc)
                s = prot.fixedpoint_config.scaling_factor if sc else 1
                L.check_any(h, prot, "value", f(x), g(X, lambda v: T.const(int(v * s), 64)), sc)
            r.case("%s[%s%s]" % (name, k, ",scaled" if sc else ""), fn, trials=1)
        if not sc:
            for name, f, g in (("x*3", lambda x: x * 3, 3), ("-4*x", lambda x: -4 * x, -4), ("x*1", lambda x: x * 1, 1), ("x*0", lambda x: x * 0, 0)):
                def fn(h, k=k, f=f, g=g):
                    prot = L.new_prot(h)
                    x, X = L.MAKE[k](h, prot, "x", (2,))
                    L.check_any(h, prot, "value", f(x), X * T.const(g, 64), False)
                r.case("%s[%s]" % (name, k), fn, trials=1)


if __name__ == "__main__":
    main("C02", build)
