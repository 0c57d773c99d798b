"""Two-server comparison extension (SecureNN).

Layer 0: arithmetic of the odd ring (2^64-1).
Layer 1: private comparison of a shared bit string with a public word, over the prime 107.
Layer 2: least significant bit over the odd ring, against layers 0 and 1.
Layer 3: sign of a 64-bit ring element, against layer 2."""
import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_pond as L
from checks import C09 as Q
from checks import lib_securenn as K
from checks.lib_securenn import N, P, O, W, PRIME, vmap


def odd_value(h, name, shape=(2,)):
    """canonical residues"""
    a = h.array(name, shape, W)
    for v in a.reshape(-1):
        h.assume(K.canonical(v))
    return a


def u(t):
    """the unsigned reading, wide enough for sums"""
    return T.zext(t, W + 2)


def umod(t):
    """t mod 2^64-1 for t < 2*(2^64-1)"""
    n = T.const(K.ODD, W + 2)
    return T.trunc(T.ite(T.ult(t, n), t, T.sub(t, n)), W)


def odd_ops(h):
    prot = K.new_prot(h)
    f = prot.odd_factory
    h.ensure_true("modulus", f.modulus == K.ODD and f is O.oddint64_factory)
    a, b = odd_value(h, "x"), odd_value(h, "y")
    x, y = K.odd(h, prot, a, ""), K.odd(h, prot, b, "")
    h.ensure_eq("tensor", h.terms(x.value), a)
    n = T.const(K.ODD, W + 2)
    for label, r, want in (("add", x + y, vmap(lambda s, t: umod(T.add(u(s), u(t))), a, b)),
                           ("sub", x - y, vmap(lambda s, t: umod(T.add(T.sub(u(s), u(t)), n)), a, b))):
        h.ensure_eq(label, h.terms(r.value), want)
        h.ensure(label + ".canonical", vmap(K.canonical, h.terms(r.value)))
    h.ensure_eq("identity", h.terms(x.identity().value), a)
    h.ensure_eq("getitem", h.terms(x[1:].value), a[1:])
    for factory in (None, prot.prime_factory, prot.tensor_factory):
        h.ensure_eq("bits", h.terms(x.bits(factory).value), K.bits_of(a))
    h.ensure_eq("cast", h.val(x.cast(prot.tensor_factory)), a)
    # a word that is not canonical
    m = h.array("m", (1,), W)
    h.ensure_eq("tensor.reduces", h.terms(K.odd(h, prot, m, "").value), vmap(lambda t: T.ite(T.eq(t, T.const(-1, W)), T.const(0, W), t), m))


def odd_sample(h):
    prot = K.new_prot(h)
    r = prot.odd_factory.sample_uniform((3,))
    v = h.terms(r.value)
    h.ensure("canonical", vmap(K.canonical, v))
    h.ensure_eq("stable", h.terms(r.value), v)


def pc_operands(h, prot, shape):
    x = h.array("x", shape, W)
    r, ra = L.public(h, prot, "r", shape)
    b = h.array("beta", shape, W, 0, 1)
    beta = K.public_of(h, prot, prot.prime_factory, b)
    return x, K.share_prime(h, prot, "xs", K.bits_of(x)), r, ra, b, beta


def private_compare(shape):
    def fn(h):
        prot = K.new_prot(h)
        x, xb, r, ra, b, beta = pc_operands(h, prot, shape)
        z = N._private_compare(prot, xb, r, beta)
        want = vmap(lambda s, t, e: K.word(T.xor(T.ult(t, s), T.trunc(e, 1))), x, ra, b)
        L.check_any(h, prot, "private_compare", z, want, False)
        h.ensure_true("private_compare.ring", z.backing_dtype is prot.tensor_factory)
    return fn


# ---- layer 2, 3 -------------------------------------------------------------------
def lsb(shape):
    def fn(h):
        prot = K.new_prot(h)
        x, y = odd_value(h, "x", shape), odd_value(h, "y", shape)
        v = K.wrap_private(h, prot, prot.odd_factory, x, y)
        z = prot.lsb(v)
        want = vmap(lambda a, b: T.band(umod(T.add(u(a), u(b))), T.const(1, W)), x, y)
        L.check_any(h, prot, "lsb", z, want, False)
        h.ensure_true("lsb.ring", z.backing_dtype is prot.tensor_factory)
    return fn


def sign(a):
    return vmap(lambda t: K.word(T.slt(t, T.const(0, W))), a)


LIM = 2 ** 62 - 1


def msb_private(shape, scaled):
    def fn(h):
        prot = K.new_prot(h)
        x, a = L.private(h, prot, "x", shape, scaled)
        z = prot.msb(x)
        # excluded: the smallest ring element, and draws (of probability about 2^-64 each) that cancel a share of zero exactly
        for t in a.reshape(-1):
            h.assume(T.bnot(T.eq(t, T.const(-2 ** 63, W))))
        K.avoid(h, list(h.val(x.share0).reshape(-1)) + list(h.val(x.share1).reshape(-1)))
        L.check_any(h, prot, "msb", z, sign(a), False)
        h.ensure_true("msb.ring", z.backing_dtype is prot.tensor_factory)
    return fn


# ---- layer 4 ----------------------------------------------------------------------
CMP = dict(less=lambda a, b: T.slt(a, b), greater=lambda a, b: T.slt(b, a), less_equal=lambda a, b: T.sle(a, b), greater_equal=lambda a, b: T.sle(b, a))
MSB = (K.msb_contract,)
HIGH = (K.compare_contract, K.select_contract)


def operand(h, prot, kind, name, shape, scaled=True, lo=-LIM, hi=LIM):
    return L.MAKE[kind](h, prot, name, shape, scaled, lo=lo, hi=hi)


def ite_word(c, a, b):
    return T.ite(T.trunc(c, 1), a, b)


def groups(X, axis):
    axis %= X.ndim
    rest = [d for i, d in enumerate(X.shape) if i != axis]
    Y = np.moveaxis(X, axis, -1)
    return rest, {i: list(Y[i]) for i in np.ndindex(*rest)}


def layer4(r):
    for op, f in CMP.items():
        for kx, ky in (("private", "private"), ("private", "public"), ("public", "private"), ("public", "public")):
            for sx, sy in (((2,), (2,)), ((2, 1), (3,)), ((), ())):
                if kx != ky and sx == (2, 1):   # a public operand may not enlarge a private one
                    continue
                def fn(h, op=op, f=f, kx=kx, ky=ky, sx=sx, sy=sy):
                    prot = K.new_prot(h)
                    x, X = operand(h, prot, kx, "x", sx)
                    y, Y = operand(h, prot, ky, "y", sy)
                    z = getattr(prot, op)(x, y)
                    X, Y = np.broadcast_arrays(X, Y)
                    L.check_any(h, prot, op, z, vmap(lambda a, b: K.word(f(a, b)), X, Y), False)
                r.case("compare[%s,%s,%s,%s,%s]" % (op, kx, ky, sx, sy), fn, contracts=MSB, trials=1)

    for op, f in (("is_negative", lambda t: T.slt(t, T.const(0, W))), ("non_negative", lambda t: T.sle(T.const(0, W), t))):
        for kind in ("private", "public"):
            def fn(h, op=op, f=f, kind=kind):
                prot = K.new_prot(h)
                x, X = operand(h, prot, kind, "x", (3,), lo=-2 ** 63 + 1, hi=2 ** 63 - 1)
                L.check_any(h, prot, op, getattr(prot, op)(x), vmap(lambda t: K.word(f(t)), X), False)
            r.case("sign[%s,%s]" % (op, kind), fn, contracts=MSB, trials=2)

    def msb_pub(h):
        prot = K.new_prot(h)
        x, X = operand(h, prot, "public", "x", (2, 2), lo=None, hi=None)
        L.check_any(h, prot, "msb", prot.msb(x), sign(X), False)
        L.check_any(h, prot, "bits", prot.bits(x), K.bits_of(X), False)
        y, Y = operand(h, prot, "public", "y", (2, 2), False, lo=None, hi=None)
        L.check_any(h, prot, "lsb", prot.lsb(y), vmap(lambda t: T.band(t, T.const(1, W)), Y), False)
        L.check_any(h, prot, "equal_zero", prot.equal_zero(y), vmap(lambda t: K.word(T.eq(t, T.const(0, W))), Y), False)
        z = prot.equal_zero(y, prot.prime_factory)
        h.ensure_true("equal_zero.ring", z.backing_dtype is prot.prime_factory)
        L.check_any(h, prot, "equal_zero.prime", z, vmap(lambda t: K.word(T.eq(t, T.const(0, W))), Y), False)
    r.case("public-bits", msb_pub, trials=3)

    BIT = dict(bitwise_and=lambda a, b: T.band(a, b), bitwise_or=lambda a, b: T.bor(a, b), bitwise_xor=lambda a, b: T.xor(a, b))
    for op, f in BIT.items():
        for kx, ky in (("private", "private"), ("private", "public"), ("public", "private"), ("public", "public"), ("masked", "private")):
            def fn(h, op=op, f=f, kx=kx, ky=ky):
                prot = K.new_prot(h)
                x, X = K.bit_operand(h, prot, kx, "x", (2,))
                y, Y = K.bit_operand(h, prot, ky, "y", (2,))
                L.check_any(h, prot, op, getattr(prot, op)(x, y), vmap(lambda a, b: K.word(f(a, b)), X, Y), False)
            r.case("bitwise[%s,%s,%s]" % (op, kx, ky), fn, trials=1)
    for kx in ("private", "public", "masked"):
        def fn(h, kx=kx):
            prot = K.new_prot(h)
            x, X = K.bit_operand(h, prot, kx, "x", (2,))
            L.check_any(h, prot, "bitwise_not", prot.bitwise_not(x), vmap(lambda a: K.word(T.bnot(a)), X), False)
        r.case("bitwise[bitwise_not,%s]" % kx, fn, trials=1)

    for kc, kx, ky in (("private", "private", "private"), ("public", "private", "private"), ("private", "public", "public"), ("private", "private", "public"),
                       ("private", "public", "private"), ("public", "public", "public")):
        for sc in (((2,), (2,), (2,)), ((2, 1), (2, 3), (2, 3)), ((2,), (1,), (2,))):
            if ky == "public" != kx and sc[1] == (1,):
                continue
            def fn(h, kc=kc, kx=kx, ky=ky, sc=sc):
                prot = K.new_prot(h)
                c, C = K.bit_operand(h, prot, kc, "c", sc[0])
                x, X = operand(h, prot, kx, "x", sc[1], lo=None, hi=None)
                y, Y = operand(h, prot, ky, "y", sc[2], lo=None, hi=None)
                z = prot.select(c, x, y)
                C, X, Y = np.broadcast_arrays(C, X, Y)
                L.check_any(h, prot, "select", z, vmap(lambda a, b, d: T.ite(a, d, b), C, X, Y), True)
            r.case("select[%s,%s,%s,%s]" % (kc, kx, ky, sc), fn, trials=1)

    for shape, ms in (((2, 3), None), ((3,), None), ((), None), ((2, 3), 4), ((2, 5), 4), ((2, 3), 1), ((5,), 2), ((2, 2), 4), ((2, 4), 2), ((1, 2, 3), 2), ((2, 1, 4), 4)):
        for cmp in (False, True):
            def fn(h, shape=shape, ms=ms, cmp=cmp):
                prot = K.new_prot(h)
                x, X = operand(h, prot, "private", "x", shape, lo=-2 ** 63 + 1, hi=2 ** 63 - 1)
                kw = {} if ms is None else dict(max_size=ms)
                nn = vmap(lambda t: T.sle(T.const(0, W), t), X)
                if cmp:
                    z, d = prot.relu_with_cmp(x, **kw)
                    L.check_any(h, prot, "drelu", d, vmap(K.word, nn), False)
                else:
                    z = prot.relu(x, **kw)
                L.check_any(h, prot, "relu", z, vmap(lambda c, t: T.ite(c, t, T.const(0, W)), nn, X), True)
            r.case("relu%s[%s,%s]" % ("-cmp" if cmp else "", shape, ms), fn, contracts=MSB, trials=1)

    for kx, ky in (("private", "private"), ("private", "public"), ("public", "private"), ("public", "public")):
        def fn(h, kx=kx, ky=ky):
            prot = K.new_prot(h)
            x, X = operand(h, prot, kx, "x", (2, 1))
            y, Y = operand(h, prot, ky, "y", (2, 1))
            L.check_any(h, prot, "maximum", prot.maximum(x, y), vmap(lambda a, b: T.ite(T.slt(b, a), a, b), X, Y), True)
        r.case("maximum[%s,%s]" % (kx, ky), fn, contracts=MSB, trials=1)

    for kind in ("private", "public"):
        for shape, axis in (((2,), 0), ((3,), 0), ((4,), 0), ((5,), 0), ((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((1, 2, 3), 2), ((2, 2, 2), 1), ((1,), 0), ((2, 1), 1)):
            for what in ("reduce_max", "argmax", "both"):
                def fn(h, kind=kind, shape=shape, axis=axis, what=what):
                    prot = K.new_prot(h)
                    x, X = operand(h, prot, kind, "x", shape)
                    rest, g = groups(X, axis)
                    m = a = None
                    if what == "reduce_max":
                        m = prot.reduce_max(x, axis=axis)
                    elif what == "argmax":
                        a = prot.argmax(x, axis=axis)
                    else:
                        m, a = prot.reduce_max_with_argmax(x, axis=axis)
                    if m is not None:
                        got = K.secret(h, m)
                        h.ensure_true("max.shape", list(got.shape) == rest, "shape %s expected %s" % (got.shape, rest))
                        h.ensure_true("max.is_scaled", bool(m.is_scaled))
                        L.placement(h, prot, "max", m)
                        for i, xs in g.items():
                            Q.is_max(h, "max", got[i], xs)
                    if a is not None:
                        got = K.secret(h, a)
                        h.ensure_true("argmax.shape", list(got.shape) == rest, "shape %s expected %s" % (got.shape, rest))
                        s = 2 ** prot.fixedpoint_config.precision_fractional if prot.fixedpoint_config.scaling_base == 2 else prot.fixedpoint_config.scaling_factor
                        k = s if a.is_scaled else 1
                        for i, xs in g.items():
                            h.ensure("argmax", T.disj(*[T.conj(T.eq(got[i], T.const(j * k, W)), *[T.sle(o, t) for o in xs]) for j, t in enumerate(xs)]))
                r.case("%s[%s,%s,%s]" % (what, kind, shape, axis), fn, contracts=HIGH, trials=1)

    for kind in ("private", "public", "masked"):
        for sh, pool, st, pad in (((1, 1, 4, 4), (2, 2), (2, 2), "VALID"), ((2, 1, 3, 3), (2, 2), (1, 1), "VALID"), ((1, 2, 3, 4), (2, 3), (1, 1), "VALID"),
                                  ((1, 1, 3, 3), (2, 2), (2, 2), "SAME"), ((1, 2, 3, 3), (2, 2), (1, 1), "SAME"), ((1, 1, 4, 5), (2, 2), (2, 1), "VALID"),
                                  ((1, 1, 4, 5), (3, 2), (1, 2), "SAME")):
            def fn(h, kind=kind, sh=sh, pool=pool, st=st, pad=pad):
                prot = K.new_prot(h)
                x, X = operand(h, prot, kind, "x", sh)
                z = prot.maxpool2d(x, pool, st, pad)
                got = K.secret(h, z)
                oh, ow, top, left = Q.window_geometry(sh[2:], pool, st, pad)
                h.ensure_true("maxpool.shape", got.shape == (sh[0], sh[1], oh, ow), "shape %s expected %s" % (got.shape, (sh[0], sh[1], oh, ow)))
                h.ensure_true("maxpool.is_scaled", bool(z.is_scaled))
                L.placement(h, prot, "maxpool", z)
                for b, c, i, j in np.ndindex(*got.shape):
                    xs = [X[b, c, p, q] for p in range(i * st[0] - top, i * st[0] - top + pool[0]) for q in range(j * st[1] - left, j * st[1] - left + pool[1])
                          if 0 <= p < sh[2] and 0 <= q < sh[3]]
                    Q.is_max(h, "maxpool", got[b, c, i, j], xs)
            r.case("maxpool2d[%s,%s,%s,%s,%s]" % (kind, sh, pool, st, pad), fn, contracts=HIGH, trials=1)


def build(r):
    r.trusted += ["tf.argsort of arbitrary words yields an order of the axis; three orders are followed (the sum over the axis is the same for every order)"]
    r.case("odd[arithmetic]", odd_ops, trials=4)
    r.case("odd[sample]", odd_sample)
    r.case("private_compare[]", private_compare(()), trials=6)
    r.case("private_compare[2]", private_compare((2,)), trials=6)
    for shape in ((2,), (), (1, 2)):
        r.case("lsb[%s]" % (shape,), lsb(shape), contracts=(K.odd_arith_contract, K.private_compare_contract), trials=4)
        for scaled in (True, False):
            r.case("msb[%s,%s]" % (shape, scaled), msb_private(shape, scaled), contracts=(K.odd_arith_contract, K.lsb_contract), trials=4, uniform=True)
    layer4(r)


if __name__ == "__main__":
    main("C10", build)
