"""Two-server products."""
import itertools

import numpy as np

from engine import term as T
from engine.harness import main, TIER
from checks import lib_pond as L
from checks import spec


def build(r):
    kinds = ("public", "private", "masked")
    for kx, ky in itertools.product(kinds, kinds):
        for op, shx, shy in (("mul", (2, 2), (2, 2)), ("mul_bcast", (2, 2), (2,)), ("mul_scalar", (2,), ()), ("matmul", (2, 3), (3, 2)), ("matmul_row", (1, 2), (2, 1))):
            def fn(h, kx=kx, ky=ky, op=op, shx=shx, shy=shy):
                prot = L.new_prot(h)
                x, X = L.MAKE[kx](h, prot, "x", shx)
                y, Y = L.MAKE[ky](h, prot, "y", shy)
                if op.startswith("mul"):
                    z, want = prot.mul(x, y), X * Y
                else:
                    z, want = prot.matmul(x, y), spec.matmul(X, Y)
                L.check_any(h, prot, "product", z, want, False)
            r.case("%s[%s,%s]" % (op, kx, ky), fn)
        if kx != ky and "public" in (kx, ky):
            continue  # the code declares these combinations unsupported (NotImplementedError)
        for pad, st in (("VALID", 1), ("SAME", 1), ("SAME", 2)):
            def fn(h, kx=kx, ky=ky, pad=pad, st=st):
                prot = L.new_prot(h)
                x, X = L.MAKE[kx](h, prot, "x", (1, 2, 3, 3))
                y, Y = L.MAKE[ky](h, prot, "y", (2, 2, 2, 1))
                z = prot.conv2d(x, y, (st, st), pad)
                L.check_any(h, prot, "conv", z, spec.conv2d_nchw(X, Y, (st, st), pad), False)
            r.case("conv2d[%s,%s,%s,%d]" % (kx, ky, pad, st), fn)
    for k in kinds:
        for how, f in (("", lambda p, x: p.square(x)), ("-method", lambda p, x: x.square())):
            def fn(h, k=k, f=f):
                prot = L.new_prot(h)
                x, X = L.MAKE[k](h, prot, "x", (2, 2))
                L.check_any(h, prot, "square", f(prot, x), X * X, False)
            r.case("square%s[%s]" % (how, k), fn)
    # the same products through the operators and methods of the operands
    for kx, ky in itertools.product(kinds, kinds):
        for how, f, g in (
            ("*", lambda x, y: x * y, lambda X, Y: X * Y),
            ("mul-method", lambda x, y: x.mul(y), lambda X, Y: X * Y),
            ("matmul-method", lambda x, y: x.matmul(y), spec.matmul),
            ("dot-method", lambda x, y: x.dot(y), spec.matmul),
        ):
            def fn(h, kx=kx, ky=ky, f=f, g=g):
                prot = L.new_prot(h)
                x, X = L.MAKE[kx](h, prot, "x", (2, 2))
                y, Y = L.MAKE[ky](h, prot, "y", (2, 2))
                L.check_any(h, prot, "product", f(x, y), g(X, Y), False)
            r.case("%s[%s,%s]" % (how, kx, ky), fn, trials=1)
    # scaled operands: the product carries the flag iff an operand is scaled, and is rescaled once iff both are
    for kx, ky in itertools.product(kinds, kinds):
        for sx, sy in ((True, False), (False, True)):
            def fn(h, kx=kx, ky=ky, sx=sx, sy=sy):
                prot = L.new_prot(h)
                x, X = L.MAKE[kx](h, prot, "x", (2,), sx)
                y, Y = L.MAKE[ky](h, prot, "y", (2,), sy)
                L.check_any(h, prot, "product", prot.mul(x, y), X * Y, True)
            r.case("mul-flag[%s,%s,%s,%s]" % (kx, ky, sx, sy), fn)
    # reuse: one masked operand in several operations, in any order
    def reuse(h, order):
        prot = L.new_prot(h)
        x, X = L.private(h, prot, "x", (2, 2))
        y, Y = L.private(h, prot, "y", (2, 2))
        w, Wv = L.private(h, prot, "w", (2, 2))
        xm = prot.mask(x)
        ops = {
            "mul": lambda: L.check_any(h, prot, "mul", prot.mul(xm, y), X * Y, False),
            "matmul": lambda: L.check_any(h, prot, "matmul", prot.matmul(xm, w), spec.matmul(X, Wv), False),
            "square": lambda: L.check_any(h, prot, "square", prot.square(xm), X * X, False),
            "t": lambda: L.check_any(h, prot, "t", prot.matmul(prot.transpose(xm), y), spec.matmul(X.T, Y), False),
            "priv": lambda: L.check_any(h, prot, "priv", prot.mul(x, w), X * Wv, False),
            "self": lambda: L.check_any(h, prot, "self", prot.matmul(xm, xm), spec.matmul(X, X), False),
            "mask-again": lambda: L.check_any(h, prot, "mask-again", prot.mask(x), X, False),
        }
        for o in order:
            ops[o]()
    names = ["mul", "matmul", "square", "t", "priv", "self", "mask-again"]
    orders = [names, names[::-1]] + [names[i:] + names[:i] for i in range(1, len(names), 2)]
    for i, o in enumerate(orders):
        r.case("masked-reuse[%d]" % i, lambda h, o=o: reuse(h, o))


if __name__ == "__main__":
    main("C03", build)
