"""Three-server linear and structural operations; replication, placement, share type, ring and flag invariants."""
import importlib
import itertools

import numpy as np

from engine import term as T
from engine.harness import main, Skip, TIER
from checks import lib_aby3 as L
from checks import spec
from checks.C14 import im2patches, patches2im, im2col
from tf_encrypted.tensor import factories

KINDS = {
    "public": lambda h, p, n, sh, sc=False, f=None: L.public(h, p, n, sh, sc, f),
    "arith": lambda h, p, n, sh, sc=False, f=None: L.private(h, p, n, sh, L.ARITH, sc, f),
    "bool": lambda h, p, n, sh, sc=False, f=None: L.private(h, p, n, sh, L.BOOL, sc, f),
}
ST = {"public": L.PUBLIC, "arith": L.ARITH, "bool": L.BOOL}


def structural():
    t = []
    A = lambda name, shape, f, g, kinds=("public", "arith", "bool"): t.append((name, shape, f, g, kinds))
    A("transpose", (2, 3), lambda p, x: p.transpose(x), lambda X: X.T)
    for pm in ((1, 0, 2), (2, 0, 1), (0, 2, 1)):
        A("transpose%s" % (pm,), (1, 2, 3), lambda p, x, pm=pm: p.transpose(x, perm=list(pm)), lambda X, pm=pm: X.transpose(pm))
    A("transpose-method", (1, 2, 3), lambda p, x: x.transpose([2, 0, 1]), lambda X: X.transpose(2, 0, 1))
    A("transpose-method-default", (1, 2, 3), lambda p, x: x.transpose(), lambda X: X.transpose())
    A("expand_dims-method", (2, 3), lambda p, x: x.expand_dims(1), lambda X: np.expand_dims(X, 1))
    A("reshape", (2, 3), lambda p, x: p.reshape(x, [3, 2]), lambda X: X.reshape(3, 2))
    A("reshape-1", (2, 3), lambda p, x: x.reshape([-1]), lambda X: X.reshape(-1))
    for ax in (0, 1, 2, -1):
        A("expand_dims[%d]" % ax, (2, 3), lambda p, x, ax=ax: p.expand_dims(x, axis=ax), lambda X, ax=ax: np.expand_dims(X, ax))
    A("squeeze", (1, 2, 1), lambda p, x: p.squeeze(x), lambda X: X.reshape(2))
    A("squeeze[0]", (1, 2, 1), lambda p, x: p.squeeze(x, axis=[0]), lambda X: X.reshape(2, 1))
    A("strided_slice", (3, 4), lambda p, x: p.strided_slice(x, [0, 1], [3, 4], [2, 1]), lambda X: X[0:3:2, 1:4])
    A("strided_slice-neg", (3, 4), lambda p, x: p.strided_slice(x, [2, 3], [0, 0], [-1, -2]), lambda X: X[2:0:-1, 3:0:-2])
    for i, slc in enumerate((0, -1, slice(1, 3), slice(None, None, 2), (slice(None), 1), (1, slice(0, 2)), (Ellipsis, 0), (slice(None), slice(None, None, -1)))):
        A("indexer[%d]" % i, (3, 2), lambda p, x, s=slc: x[s], lambda X, s=slc: X[s])
    A("gather", (3, 2), lambda p, x: p.gather(x, [2, 0, 2], axis=0), lambda X: X[[2, 0, 2]])
    A("gather-1", (2, 3), lambda p, x: p.gather(x, [1, 2], axis=1), lambda X: X[:, [1, 2]])
    A("tile", (2, 2), lambda p, x: p.tile(x, [2, 3]), lambda X: np.tile(X, (2, 3)))
    A("reverse", (2, 3), lambda p, x: p.reverse(x, [1]), lambda X: X[:, ::-1], ("arith", "bool"))
    A("reverse-01", (2, 3), lambda p, x: p.reverse(x, [0, 1]), lambda X: X[::-1, ::-1], ("arith", "bool"))
    A("pad", (2, 2), lambda p, x: p.pad(x, [[1, 0], [0, 2]]), lambda X: spec.pad_zeros(X, [(1, 0), (0, 2)]), ("public", "arith"))
    A("pad-both", (2, 1), lambda p, x: p.pad(x, [[1, 2], [3, 1]]), lambda X: spec.pad_zeros(X, [(1, 2), (3, 1)]), ("public", "arith"))
    for k, st, pad, df in (((2, 2), [1, 1], "VALID", "NCHW"), ((2, 2), [2, 1], "SAME", "NCHW"), ((1, 3), [1, 2], "SAME", "NHWC"), ((2, 3), [2, 2], "VALID", "NHWC")):
        A("im2patches%s%s%s%s" % (k, st, pad, df), (2, 2, 3, 4) if df == "NCHW" else (2, 3, 4, 2),
          lambda p, x, k=k, st=st, pad=pad, df=df: p.im2patches(x, k, strides=st, padding=pad, data_format=df),
          lambda X, k=k, st=st, pad=pad, df=df: im2patches(X, k, st, pad, df), ("arith",))
    return t


def folding():
    t = []
    for k, st, pad, df, size in (((2, 2), [1, 1], "VALID", "NCHW", (3, 4)), ((2, 2), [2, 1], "SAME", "NCHW", (3, 4)), ((1, 3), [1, 2], "SAME", "NHWC", (3, 4)),
                                 ((2, 3), [2, 2], "VALID", "NHWC", (5, 4)), ((2, 2), [2, 2], "SAME", "NCHW", (3, 3))):
        oh, ow = spec.pads(size[0], k[0], st[0], pad)[0], spec.pads(size[1], k[1], st[1], pad)[0]
        ch = k[0] * k[1] * 2
        t.append(("patches2im%s%s%s%s" % (k, st, pad, df), (1, ch, oh, ow) if df == "NCHW" else (1, oh, ow, ch),
                  lambda p, x, k=k, st=st, pad=pad, df=df, size=size: p.patches2im(x, k, strides=st, padding=pad, img_size=size, data_format=df),
                  lambda X, k=k, st=st, pad=pad, df=df, size=size: patches2im(X, k, st, pad, size, df), ("arith",)))
    def spread(X, st):
        h, w = X.shape[:2]
        out = np.full(((h - 1) * st[0] + 1, (w - 1) * st[1] + 1) + X.shape[2:], spec.zero_of(X), dtype=object)
        out[::st[0], ::st[1]] = X
        return out
    for st in (2, (1, 3), (2, 1)):
        t.append(("expand[%s]" % (st,), (2, 3, 1, 2), lambda p, x, st=st: p.expand(x, st), lambda X, st=st: spread(X, (st, st) if isinstance(st, int) else st), ("arith",)))
    for k, st, pad in (((2, 2), (1, 1), "VALID"), ((2, 2), (2, 2), "SAME"), ((1, 3), (2, 1), "SAME")):
        t.append(("im2col%s%s%s" % (k, st, pad), (2, 2, 3, 4), lambda p, x, k=k, st=st, pad=pad: p.im2col(x, k[0], k[1], st, pad),
                  lambda X, k=k, st=st, pad=pad: im2col(X, k, st, pad), ("public", "arith")))
    return t


def linear():
    t = []
    A = lambda name, shape, f, g, kinds=("public", "arith"): t.append((name, shape, f, g, kinds))
    A("negative", (2, 2), lambda p, x: p.negative(x), lambda X: -X)
    for ax in (None, 0, 1, -1):
        for kd in (False, True):
            A("reduce_sum[%s,%s]" % (ax, kd), (2, 3), lambda p, x, ax=ax, kd=kd: p.reduce_sum(x, axis=ax, keepdims=kd),
              lambda X, ax=ax, kd=kd: spec.reduce_sum(X, ax, kd))
    A("reduce_sum-axes", (2, 2, 2), lambda p, x: x.reduce_sum(axis=[0, 2]), lambda X: spec.reduce_sum(X, (0, 2)))
    A("reduce_sum-method", (2, 3), lambda p, x: x.reduce_sum(1, True), lambda X: spec.reduce_sum(X, 1, True))
    A("sum-method", (2, 3), lambda p, x: x.sum(0, True), lambda X: spec.reduce_sum(X, 0, True))
    A("negative-method", (2, 2), lambda p, x: x.negative(), lambda X: -X)
    A("-x", (2, 2), lambda p, x: -x, lambda X: -X)
    for c in (3, -5, 0, 1, 2, 8, 1024):
        A("x*%d" % c, (2,), lambda p, x, c=c: x * c, lambda X, c=c: X * c)
        A("%d*x" % c, (2,), lambda p, x, c=c: c * x, lambda X, c=c: X * c)
    return t


def one(r, name, shape, f, g, k, sc, bits, want_sc=None, **kw):
    def fn(h):
        prot = L.new_prot(h)
        x, X = KINDS[k](h, prot, "x", shape, sc, factories[bits])
        L.check(h, prot, "value", f(prot, x), g(X), sc if want_sc is None else want_sc, ST[k], factories[bits])
    r.case("%s[%s,%s%s]" % (name, k, bits, ",scaled" if sc else ""), fn, trials=1, **kw)


def own(r):
    for name, shape, f, g, kinds in structural():
        for k in kinds:
            for bits, sc in ((64, False), (64, True), (8, False), (128, False)):
                one(r, name, shape, f, g, k, sc, bits)
            if k == "bool":
                one(r, name, shape, f, g, k, False, 0)
    for name, shape, f, g, kinds in folding():
        for k in kinds:
            for bits, sc in ((64, False), (64, True)) + (((128, False),) if "im2col" not in name else ()):
                one(r, name, shape, f, g, k, sc, bits)
    for name, shape, f, g, kinds in linear():
        for k in kinds:
            for bits, sc in ((64, False), (64, True), (32, False), (128, False)):
                if "*" in name and sc:
                    continue
                one(r, name, shape, f, g, k, sc, bits)
    for k in KINDS:
        for sc, bits in ((False, 64), (True, 64), (False, 128)):
            for name, f, g in (
                ("stack0", lambda p, xs: p.stack(xs, axis=0), lambda Xs: np.stack(Xs, 0)),
                ("stack1", lambda p, xs: p.stack(xs, axis=1), lambda Xs: np.stack(Xs, 1)),
                ("stack-1", lambda p, xs: p.stack(xs, axis=-1), lambda Xs: np.stack(Xs, -1)),
                ("concat0", lambda p, xs: p.concat(xs, axis=0), lambda Xs: np.concatenate(Xs, 0)),
                ("concat1", lambda p, xs: p.concat(xs, axis=1), lambda Xs: np.concatenate(Xs, 1)),
                ("concat-1", lambda p, xs: p.concat(xs, axis=-1), lambda Xs: np.concatenate(Xs, -1)),
                ("add_n", lambda p, xs: p.add_n(xs), lambda Xs: Xs[0] + Xs[1] + Xs[2]),
            ):
                if k == "bool" and name == "add_n":
                    continue
                def fn(h, k=k, sc=sc, f=f, g=g, bits=bits):
                    prot = L.new_prot(h)
                    both = [KINDS[k](h, prot, n, (2, 2), sc, factories[bits]) for n in "xyz"]
                    L.check(h, prot, "value", f(prot, [b[0] for b in both]), g([b[1] for b in both]), sc, ST[k], factories[bits])
                r.case("%s[%s,%d%s]" % (name, k, bits, ",scaled" if sc else ""), fn, trials=1)
            for name, shape, f, g in (
                ("split", (4, 2), lambda p, x: p.split(x, 2, axis=0), lambda X: np.split(X, 2, 0)),
                ("split-1", (2, 3), lambda p, x: p.split(x, 3, axis=1), lambda X: np.split(X, 3, 1)),
                ("split-sizes", (2, 4), lambda p, x: p.split(x, [1, 3], axis=1), lambda X: np.split(X, [1], 1)),
            ):
                def fn(h, k=k, sc=sc, f=f, g=g, bits=bits, shape=shape):
                    prot = L.new_prot(h)
                    x, X = KINDS[k](h, prot, "x", shape, sc, factories[bits])
                    got, want = f(prot, x), g(X)
                    h.ensure_true("count", len(got) == len(want), "%d parts" % len(got))
                    for i, (a, b) in enumerate(zip(got, want)):
                        L.check(h, prot, "part%d" % i, a, b, sc, ST[k], factories[bits])
                r.case("%s[%s,%d%s]" % (name, k, bits, ",scaled" if sc else ""), fn, trials=1)
    for kx, ky in itertools.product(("public", "arith"), repeat=2):
        for sc, bits in ((False, 64), (True, 64), (False, 128), (False, 32)):
            for name, shx, shy in (("same", (2, 2), (2, 2)), ("bcast", (2, 2), (2,)), ("bcast2", (1, 2), (2, 1)), ("scalar", (2,), ())):
                if {kx, ky} == {"public", "arith"} and np.broadcast_shapes(shx, shy) != (shx if kx == "arith" else shy):
                    continue  # refused: a public operand may not enlarge a private one
                for op in ("add", "sub") + (("add-method", "sub-method", "+", "-") if name == "same" else ()):
                    def fn(h, kx=kx, ky=ky, sc=sc, shx=shx, shy=shy, op=op, bits=bits):
                        prot = L.new_prot(h)
                        x, X = KINDS[kx](h, prot, "x", shx, sc, factories[bits])
                        y, Y = KINDS[ky](h, prot, "y", shy, sc, factories[bits])
                        z = x + y if op == "+" else x - y if op == "-" else getattr(x, op[:3])(y) if "method" in op else getattr(prot, op)(x, y)
                        L.check(h, prot, "value", z, X + Y if op[:3] in ("add", "+") else X - Y, sc,
                                L.PUBLIC if kx == ky == "public" else L.ARITH, factories[bits])
                    r.case("%s-%s[%s,%s,%d%s]" % (op, name, kx, ky, bits, ",scaled" if sc else ""), fn, trials=1)
        # public scaling by a tensor
        if "public" in (kx, ky):
            for bits in (64, 128):
                for sx, sy in ((False, False), (True, False), (False, True)):
                    def fn(h, kx=kx, ky=ky, bits=bits, sx=sx, sy=sy):
                        prot = L.new_prot(h)
                        x, X = KINDS[kx](h, prot, "x", (2, 2), sx, factories[bits])
                        y, Y = KINDS[ky](h, prot, "y", (2, 2), sy, factories[bits])
                        L.check(h, prot, "value", prot.mul(x, y), X * Y, sx or sy,
                                L.PUBLIC if kx == ky == "public" else L.ARITH, factories[bits])
                    r.case("scale[%s,%s,%d,%s,%s]" % (kx, ky, bits, sx, sy), fn, trials=1)
    for k, sc in itertools.product(("public", "arith"), (False, True)):
        for name, f, g in (
            ("x+3", lambda x: x + 3, lambda X, c: X + c(3)),
            ("3+x", lambda x: 3 + x, lambda X, c: X + c(3)),
            ("x-5", lambda x: x - 5, lambda X, c: X - c(5)),
            ("7-x", lambda x: 7 - x, lambda X, c: c(7) - X),
            ("x+2.5", lambda x: x + 2.5, lambda X, c: X + c(2.5)),
            ("x-(-1)", lambda x: x - (-1), lambda X, c: X - c(-1)),
        ):
            if not sc and "2.5" in name:
                continue
            def fn(h, k=k, sc=sc, f=f, g=g):
                prot = L.new_prot(h)
                x, X = KINDS[k](h, prot, "x", (2,), sc)
                s = prot.fixedpoint_config.scaling_factor if sc else 1
                L.check(h, prot, "value", f(x), g(X, lambda v: T.const(int(v * s), 64)), sc, ST[k])
            r.case("%s[%s%s]" % (name, k, ",scaled" if sc else ""), fn, trials=1)
    # constants of the protocol
    for bits, st in itertools.product((64, 8, 128), (L.ARITH, L.BOOL, L.PUBLIC)):
        for nm, val in (("zeros", 0), ("ones", 1)):
            def fn(h, bits=bits, st=st, nm=nm, val=val):
                prot = L.new_prot(h)
                f = factories[bits]
                if nm == "zeros":
                    x = prot.zeros((2, 2), False, st, f)
                else:
                    fn_ = getattr(L.A, "_ones_public" if st == L.PUBLIC else "_ones_private", None)
                    if fn_ is None:
                        raise Skip("no such function")
                    x = fn_(prot, (2, 2), False, st, f)
                want = np.full((2, 2), T.const(val, L.width(f)), dtype=object)
                L.check(h, prot, "value", x, want, False, st, f)
            r.case("%s[%d,%s]" % (nm, bits, st), fn, trials=1)
    # which two servers reconstruct does not matter (any rotation of the split)
    for k, rot in itertools.product((L.ARITH, L.BOOL), range(3)):
        def fn(h, k=k, rot=rot):
            prot = L.new_prot(h)
            x, X = L.private(h, prot, "x", (2,), k, rot=rot)
            for j in range(3):
                s = [h.val(v) for v in (x.unwrapped[j][0], x.unwrapped[j][1], x.unwrapped[(j + 1) % 3][1])]
                h.ensure_eq("pair%d" % j, L._bin(T.add if k == L.ARITH else T.xor, *s), X)
            L.check(h, prot, "reveal", x, X, False, k)
        r.case("reconstruct[%s,%d]" % (k, rot), fn)
    # operations that take several steps keep the invariants
    def chain(h, order):
        prot = L.new_prot(h)
        x, X = L.private(h, prot, "x", (2, 2))
        y, Y = L.private(h, prot, "y", (2, 2))
        acc, A_ = x, X
        for o in order:
            if o == "add": acc, A_ = acc + y, A_ + Y
            if o == "neg": acc, A_ = prot.negative(acc), -A_
            if o == "t": acc, A_ = prot.transpose(acc), A_.T
            if o == "cat": acc, A_ = prot.concat([acc, y], 0)[1:3], np.concatenate([A_, Y], 0)[1:3]
            L.check(h, prot, "step-" + o, acc, A_, False, L.ARITH)
    for o in itertools.permutations(("add", "neg", "t", "cat")):
        r.case("chain[%s]" % ",".join(o), lambda h, o=o: chain(h, o), trials=1)


def build(r):
    own(r)
    # every other operation of the protocol: the contracts of the other checks, of which only the invariants count here
    for name in ("C06", "C07", "C08", "C09"):
        importlib.import_module("checks." + name).build(Borrowed(r, name))


INVARIANTS = (".kind", ".share_type", ".placement", ".one-ring", ".is_scaled", ".ring", ".revealed-flag")


class Borrowed:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.assumptions, self.trusted = [], []

    def case(self, name, fn, trials=None, **kw):
        def only_invariants(h):
            h.scope = lambda label: label.endswith(INVARIANTS) or ".replicated" in label
            n = h.checked
            fn(h)
            if h.checked == n: raise Skip("no three-server value in this case")
        self.r.case("invariants-of[%s:%s]" % (self.name, name), only_invariants, trials=1, **kw)


if __name__ == "__main__":
    main("C05", build)
