"""Three-server products."""
import itertools

import numpy as np

from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_aby3 as L
from checks import spec

PP = ("private", "public")
TC = (L.truncate_contract,)


def factory(w):
    return L.factories[w]


def make(h, prot, kind, name, shape, w=64, scaled=False, lo=None, hi=None, rot=0):
    f = factory(w)
    if kind == "private":
        return L.private(h, prot, name, shape, scaled=scaled, factory=f, lo=lo, hi=hi, rot=rot)
    return L.public(h, prot, name, shape, scaled, f, lo, hi)


def kind_of(*ks):
    return L.ARITH if "private" in ks else L.PUBLIC


def build(r):
    pairs = [p for p in itertools.product(PP, PP)]
    shapes = (("", (2, 2), (2, 2)), ("-bcast", (2, 2), (2,)), ("-bcast2", (2, 1), (1, 3)), ("-bcastx", (2,), (3, 2)), ("-scalar", (2,), ()), ("-scalarx", (), (2,)))
    for w in (64, 128):
        for kx, ky in pairs:
            for tag, shx, shy in shapes:
                def fn(h, kx=kx, ky=ky, shx=shx, shy=shy, w=w):
                    prot = L.new_prot(h)
                    x, X = make(h, prot, kx, "x", shx, w)
                    y, Y = make(h, prot, ky, "y", shy, w, rot=1)
                    L.check(h, prot, "product", prot.mul(x, y), X * Y, False, kind_of(kx, ky), factory(w))
                r.case("mul%s[%s,%s,%d]" % (tag, kx, ky, w), fn)
            if "private" not in (kx, ky):
                continue
            mats = [("", (2, 3), (3, 2)), ("-row", (1, 2), (2, 1)), ("-thin", (3, 1), (1, 2))]
            if w == 64:
                mats += [("-batch", (2, 1, 2), (2, 2, 2)), ("-bcast", (2, 1, 2), (2, 2)), ("-bcasty", (1, 2), (2, 2, 1)), ("-bcast1", (1, 2, 2), (2, 2, 1))]
            for tag, shx, shy in mats:
                def fn(h, kx=kx, ky=ky, shx=shx, shy=shy, w=w):
                    prot = L.new_prot(h)
                    x, X = make(h, prot, kx, "x", shx, w)
                    y, Y = make(h, prot, ky, "y", shy, w, rot=2)
                    L.check(h, prot, "matmul", prot.matmul(x, y), spec.matmul(X, Y), False, L.ARITH, factory(w))
                r.case("matmul%s[%s,%s,%d]" % (tag, kx, ky, w), fn)
            if w == 64:
                for how, f, g in (("*", lambda x, y: x * y, lambda X, Y: X * Y), ("mul-method", lambda x, y: x.mul(y), lambda X, Y: X * Y),
                                  ("matmul-method", lambda x, y: x.matmul(y), spec.matmul), ("dot-method", lambda x, y: x.dot(y), spec.matmul)):
                    def fn(h, kx=kx, ky=ky, f=f, g=g, w=w):
                        prot = L.new_prot(h)
                        x, X = make(h, prot, kx, "x", (2, 2), w)
                        y, Y = make(h, prot, ky, "y", (2, 2), w, rot=1)
                        L.check(h, prot, "product", f(x, y), g(X, Y), False, L.ARITH, factory(w))
                    r.case("%s[%s,%s]" % (how, kx, ky), fn, trials=1)
                for pad, st, shx, shk in (("VALID", 1, (1, 2, 3, 3), (2, 2, 2, 1)), ("SAME", 1, (1, 1, 2, 3), (2, 3, 1, 2)), ("SAME", 2, (1, 1, 3, 3), (2, 2, 1, 1)), ("VALID", 2, (2, 1, 3, 4), (1, 2, 1, 1))):
                    def fn(h, kx=kx, ky=ky, pad=pad, st=st, shx=shx, shk=shk, w=w):
                        prot = L.new_prot(h)
                        x, X = make(h, prot, kx, "x", shx, w)
                        y, Y = make(h, prot, ky, "y", shk, w)
                        z = prot.conv2d(x, y, [st, st], pad)
                        L.check(h, prot, "conv", z, spec.conv2d_nchw(X, Y, (st, st), pad), False, L.ARITH)
                    r.case("conv2d[%s,%s,%s,%d,%s]" % (kx, ky, pad, st, "x".join(map(str, shk))), fn)
        for k in PP:
            def fn(h, k=k, w=w):
                prot = L.new_prot(h)
                x, X = make(h, prot, k, "x", (2, 2), w)
                L.check(h, prot, "square", prot.square(x), X * X, False, kind_of(k), factory(w))
                L.check(h, prot, "square-method", x.square(), X * X, False, kind_of(k), factory(w))
            r.case("square[%s,%d]" % (k, w), fn)
        for p in range(1, 8):
            def fn(h, p=p, w=w):
                prot = L.new_prot(h)
                x, X = make(h, prot, "private", "x", (2,), w)
                want = X
                for _ in range(p - 1):
                    want = want * X
                L.check(h, prot, "pow", prot.pow(x, p), want, False, L.ARITH, factory(w))
            if w == 64 or p < 4:
                r.case("pow[%d,%d]" % (p, w), fn)
        for sh, ax, kd in (((2, 3), 0, False), ((2, 3), 1, False), ((2, 3), 1, True), ((5,), 0, False), ((1, 2), 0, True)):
            def fn(h, sh=sh, ax=ax, kd=kd, w=w):
                prot = L.new_prot(h)
                x, X = make(h, prot, "private", "x", sh, w)
                want = X.take(0, ax) if not kd else X.take([0], ax)
                for i in range(1, sh[ax]):
                    want = want * (X.take(i, ax) if not kd else X.take([i], ax))
                L.check(h, prot, "prod", prot.prod(x, ax, kd), want, False, L.ARITH, factory(w))
            r.case("prod[%s,%d,%s,%d]" % ("x".join(map(str, sh)), ax, kd, w), fn)

    # multiplying by a public number
    for k in PP:
        for c in (3, -5, 1, 2, 8, 0, np.array([3, -4])):
            def fn(h, k=k, c=c):
                prot = L.new_prot(h)
                x, X = make(h, prot, k, "x", (2,))
                C = np.broadcast_to(np.array(c), (2,))
                want = L.vmap(lambda a, b: a * T.const(int(b), 64), X, np.array([T.const(int(v), 64) for v in C], dtype=object)) if False else np.array([X[i] * T.const(int(C[i]), 64) for i in range(2)], dtype=object)
                z = prot.mul(x, c)
                L.check(h, prot, "by-number", z, want, False, kind_of(k))
                if not isinstance(c, np.ndarray):
                    L.check(h, prot, "number-by", prot.mul(c, x), want, False, kind_of(k))
            r.case("mul-number[%s,%s]" % (k, c), fn)

    # bit times arithmetic value
    for cfgname, w in (("l", 64), ("high", 128)):
        for kx in PP:
            for tag, shx, shy in (("", (2,), (2,)), ("-bcast", (2, 2), (2,)), ("-bcastx", (2,), (2, 2)), ("-scalar", (), ())):
                for scaled in (False, True):
                    def fn(h, kx=kx, cfgname=cfgname, w=w, shx=shx, shy=shy, scaled=scaled):
                        prot = L.new_prot(h, fixedpoint_config=cfgname)
                        x, X = make(h, prot, kx, "x", shx, w, scaled)
                        b, Bv = L.private(h, prot, "b", shy, L.BOOL, False, L.factories[rtf.bool], rot=1)
                        xs, bs = np.broadcast_arrays(X, Bv)
                        want = L.vmap(lambda a, c: T.ite(c, a, T.const(0, w)), xs, bs)
                        L.check(h, prot, "product", prot.mul_ab(x, b), want, scaled, L.ARITH, factory(w))
                        L.check(h, prot, "product2", prot.mul(x, b), want, scaled, L.ARITH, factory(w))
                    r.case("mul_ab%s[%s,%d,%s]" % (tag, kx, w, scaled), fn)

    # flags: the product is scaled iff an operand is, and is rescaled exactly once iff both are
    B = 2 ** 20
    for w in (64, 128):
        for kx, ky in pairs:
            for sx, sy in ((True, False), (False, True)):
                def fn(h, kx=kx, ky=ky, sx=sx, sy=sy, w=w):
                    prot = L.new_prot(h)
                    x, X = make(h, prot, kx, "x", (2,), w, sx)
                    y, Y = make(h, prot, ky, "y", (2,), w, sy)
                    L.check(h, prot, "product", prot.mul(x, y), X * Y, True, kind_of(kx, ky), factory(w))
                r.case("mul-flag[%s,%s,%s,%s,%d]" % (kx, ky, sx, sy, w), fn)

            def fn(h, kx=kx, ky=ky, w=w):
                prot = L.new_prot(h, fixedpoint_config="l" if w == 64 else "high")
                x, X = make(h, prot, kx, "x", (2, 2), w, True, -B, B)
                y, Y = make(h, prot, ky, "y", (2,), w, True, -B, B)
                L.check_rescaled(h, prot, "product", prot.mul(x, y), X * Y, kind=kind_of(kx, ky), factory=factory(w))
            r.case("mul-rescaled[%s,%s,%d]" % (kx, ky, w), fn, contracts=TC)
            if "private" not in (kx, ky):
                continue

            def fn(h, kx=kx, ky=ky, w=w):
                prot = L.new_prot(h, fixedpoint_config="l" if w == 64 else "high")
                x, X = make(h, prot, kx, "x", (2, 2), w, True, -B, B)
                y, Y = make(h, prot, ky, "y", (2, 1), w, True, -B, B)
                L.check_rescaled(h, prot, "matmul", prot.matmul(x, y), spec.matmul(X, Y), kind=L.ARITH, factory=factory(w))
            r.case("matmul-rescaled[%s,%s,%d]" % (kx, ky, w), fn, contracts=TC)
            if w == 128:
                continue

            def fn(h, kx=kx, ky=ky, w=w):
                prot = L.new_prot(h)
                x, X = make(h, prot, kx, "x", (1, 1, 3, 3), w, True, -B, B)
                y, Y = make(h, prot, ky, "y", (2, 2, 1, 1), w, True, -B, B)
                L.check_rescaled(h, prot, "conv", prot.conv2d(x, y, [1, 1], "VALID"), spec.conv2d_nchw(X, Y, (1, 1), "VALID"), kind=L.ARITH)
            r.case("conv2d-rescaled[%s,%s]" % (kx, ky), fn, contracts=TC)

    # average pooling: the window sum times the encoding of 1/size, rescaled once
    for kx, w in (("private", 64), ("public", 64)):
        for k, st, pad in (((2, 2), (2, 2), "VALID"), ((2, 2), (1, 1), "SAME"), ((1, 3), (2, 1), "SAME"), ((3, 2), (1, 2), "VALID")):
            def fn(h, kx=kx, k=k, st=st, pad=pad, w=w):
                prot = L.new_prot(h)
                x, X = make(h, prot, kx, "x", (2, 2, 3, 4), w, True, -B, B)
                c = int(prot.fixedpoint_config.scaling_factor * (1 / (k[0] * k[1])))
                power = c.bit_length() - 1 if c & (c - 1) == 0 else None
                want = L.vmap(lambda t: t * T.const(c, w), spec.window_sum(X, k, st, pad))
                L.check_rescaled_moved(h, prot, "avgpool2d", prot.avgpool2d(x, k, st, pad), want, power=power, kind=kind_of(kx), factory=factory(w))
            r.case("avgpool2d[%s,%s,%s,%s]" % (kx, k, st, pad), fn, contracts=TC)

    # polynomials with integer coefficients over unscaled values are exact
    for co in ([1], [0, 1], [3, -2, 5], [0, 0, 7], [-1, 4, 0, 2], [2, 3, 1]):
        def fn(h, co=co):
            prot = L.new_prot(h)
            x, X = make(h, prot, "private", "x", (2,))
            z = prot.polynomial(x, co)

            def ev(t):
                acc, p = T.const(co[0], 64), t
                for c in co[1:]:
                    acc = acc + p * T.const(c, 64)
                    p = p * t
                return acc
            if len(co) == 1:
                L.check(h, prot, "poly", z, L.vmap(ev, X), False)
            else:
                L.check(h, prot, "poly", z, L.vmap(ev, X), False, L.ARITH)
        r.case("polynomial[%s]" % co, fn)

    # zero sharing: the masks added to a product cancel, whatever was drawn before
    for w in (64, 128):
        def fn(h, w=w):
            prot = L.new_prot(h)
            for j, (sh, st) in enumerate((((2, 2), L.ARITH), ((3,), L.BOOL), ((), L.ARITH), ((2,), L.BOOL))):
                a = [h.val(t) for t in prot._gen_zero_sharing(list(sh), st, factory(w))]
                h.ensure_eq("zero%d" % j, L._bin(T.add if st == L.ARITH else T.xor, *a), L.vmap(lambda t: T.const(0, w), a[0]))
                q = prot._gen_random_sharing(list(sh), st, factory(w))
                L.check(h, prot, "random%d" % j, q, L.secret_of(h, q), None, st, factory(w))
        r.case("zero-sharing[%d]" % w, fn)

    # reuse of operands, chains: each result depends on its operands only
    def chain(h, order):
        prot = L.new_prot(h)
        x, X = make(h, prot, "private", "x", (2, 2))
        y, Y = make(h, prot, "private", "y", (2, 2))
        p, P = make(h, prot, "public", "p", (2, 2))
        ops = dict(
            mul=lambda: L.check(h, prot, "mul", x * y, X * Y, False),
            mulp=lambda: L.check(h, prot, "mulp", x * p, X * P, False),
            mat=lambda: L.check(h, prot, "mat", prot.matmul(x, y), spec.matmul(X, Y), False),
            tam=lambda: L.check(h, prot, "tam", prot.matmul(y, x), spec.matmul(Y, X), False),
            tr=lambda: L.check(h, prot, "tr", prot.matmul(prot.transpose(x), p), spec.matmul(X.T, P), False),
            three=lambda: L.check(h, prot, "three", (x * y) * (x + p), X * Y * (X + P), False),
        )
        for o in order:
            ops[o]()
    ns = ["mul", "mulp", "mat", "tam", "tr", "three"]
    for i, o in enumerate([ns, ns[::-1], ns[3:] + ns[:3]]):
        r.case("reuse[%d]" % i, lambda h, o=o: chain(h, o))


if __name__ == "__main__":
    main("C06", build)
