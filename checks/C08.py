"""Boolean circuits and share conversions."""
import itertools

import numpy as np

from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_aby3 as L
from checks import aby3_contracts as K
from checks.lib_aby3 import vmap, BOOL, ARITH

W = {1: rtf.bool, 8: rtf.int8, 16: rtf.int16, 32: rtf.int32, 64: rtf.int64}


def F(w):
    return L.factories[W[w]] if w in W else L.factories[w]


def cfg(w):
    return "high" if w == 128 else "l"


def operand(h, prot, kind, name, shape, w, scaled=False, rot=0):
    if kind == "public":
        return L.public(h, prot, name, shape, scaled, F(w))
    return L.private(h, prot, name, shape, BOOL if kind == "boolean" else ARITH, scaled, F(w), rot=rot)


def bit_shares(h, z):
    for i in range(3):
        for k in range(2):
            h.ensure_eq("share%d%d-is-a-bit" % (i, k), vmap(lambda a: T.lshr(a, 1), h.val(z.unwrapped[i][k])), vmap(lambda a: T.const(0, a.w), h.val(z.unwrapped[i][k])))


def build(r):
    # ---- bitwise operations -------------------------------------------------------
    BIN = dict(xor=(lambda p, x, y: p.xor(x, y), T.xor, ("boolean", "public")),
               and_=(lambda p, x, y: p.and_(x, y), T.band, ("boolean", "public")),
               or_=(lambda p, x, y: p.or_(x, y), T.bor, ("boolean",)))
    BIN["op^"] = (lambda p, x, y: x ^ y, T.xor, ("boolean", "public"))
    BIN["op&"] = (lambda p, x, y: x & y, T.band, ("boolean",))
    BIN["op|"] = (lambda p, x, y: x | y, T.bor, ("boolean",))
    BIN["bitwise_xor-method"] = (lambda p, x, y: x.bitwise_xor(y), T.xor, ("boolean", "public"))
    BIN["bitwise_and-method"] = (lambda p, x, y: x.bitwise_and(y), T.band, ("boolean",))
    BIN["bitwise_or-method"] = (lambda p, x, y: x.bitwise_or(y), T.bor, ("boolean",))
    for w in (1, 8, 32, 64, 128):
        for op, (f, spec, kinds) in BIN.items():
            for kx, ky in itertools.product(kinds, kinds):
                if kx == ky == "public" and T.xor is not spec:
                    continue
                for tag, shx, shy in (("", (2,), (2,)), ("-bcast", (2, 2), (2,)), ("-bcastx", (2,), (2, 1)), ("-scalar", (), ())):
                    if op != "xor" and op != "and_" and tag != "" and (w != 64 or op != "or_"):
                        continue

                    def fn(h, w=w, f=f, spec=spec, kx=kx, ky=ky, shx=shx, shy=shy):
                        prot = L.new_prot(h)
                        x, X = operand(h, prot, kx, "x", shx, w)
                        y, Y = operand(h, prot, ky, "y", shy, w, rot=1)
                        X, Y = np.broadcast_arrays(X, Y)
                        z = f(prot, x, y)
                        L.check(h, prot, "bitwise", z, vmap(spec, X, Y), False, BOOL if "boolean" in (kx, ky) else L.PUBLIC, F(w))
                    r.case("%s%s[%s,%s,%d]" % (op, tag, kx, ky, w), fn)

        def fn(h, w=w):
            prot = L.new_prot(h)
            x, X = operand(h, prot, "boolean", "x", (2,), w)
            L.check(h, prot, "not", prot.not_(x), vmap(T.bnot, X), False, BOOL, F(w))
            L.check(h, prot, "not-op", ~x, vmap(T.bnot, X), False, BOOL, F(w))
            L.check(h, prot, "not-method", x.invert(), vmap(T.bnot, X), False, BOOL, F(w))
        r.case("not[%d]" % w, fn)
        if w == 1:
            continue
        for kind in ("boolean", "public"):
            for s in sorted({0, 1, 3, w // 2, w - 1}):
                def fn(h, w=w, s=s, kind=kind):
                    prot = L.new_prot(h)
                    x, X = operand(h, prot, kind, "x", (2,), w)
                    kk = BOOL if kind == "boolean" else L.PUBLIC
                    L.check(h, prot, "lshift", prot.lshift(x, s), vmap(lambda a: T.shl(a, s), X), False, kk, F(w))
                    L.check(h, prot, "rshift", prot.rshift(x, s), vmap(lambda a: T.ashr(a, s), X), False, kk, F(w))
                    if kind == "boolean":
                        L.check(h, prot, "logical_rshift", prot.logical_rshift(x, s), vmap(lambda a: T.lshr(a, s), X), False, kk, F(w))
                        L.check(h, prot, "logical_rshift-method", x.logical_rshift(s), vmap(lambda a: T.lshr(a, s), X), False, kk, F(w))
                        L.check(h, prot, "lshift-method", x.lshift(s), vmap(lambda a: T.shl(a, s), X), False, kk, F(w))
                        L.check(h, prot, "rshift-method", x.rshift(s), vmap(lambda a: T.ashr(a, s), X), False, kk, F(w))
                        L.check(h, prot, "arith_rshift-method", x.arith_rshift(s), vmap(lambda a: T.ashr(a, s), X), False, kk, F(w))
                        L.check(h, prot, "op<<", x << s, vmap(lambda a: T.shl(a, s), X), False, kk, F(w))
                        L.check(h, prot, "op>>", x >> s, vmap(lambda a: T.ashr(a, s), X), False, kk, F(w))
                r.case("shift[%s,%d,%d]" % (kind, w, s), fn)
        for s in (0, 1, w - 2):
            def fn(h, w=w, s=s):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "arith", "x", (2,), w)
                L.check(h, prot, "lshift", prot.lshift(x, s), vmap(lambda a: T.shl(a, s), X), False, ARITH, F(w))
            r.case("lshift-arith[%d,%d]" % (w, s), fn)
        # ---- bit shuffles
        if w <= 64:
            for kind in ("boolean", "public"):
                kk = BOOL if kind == "boolean" else L.PUBLIC
                for start, stride in ((0, 2), (1, 2), (0, 4), (3, 4)):
                    def fn(h, w=w, start=start, stride=stride, kind=kind, kk=kk):
                        prot = L.new_prot(h)
                        x, X = operand(h, prot, kind, "x", (2,), w)
                        want = vmap(lambda a: T.bits_select(a, list(range(start, w, stride)), w), X)
                        L.check(h, prot, "gather", prot.bit_gather(x, start, stride), want, False, kk, F(w))
                    r.case("bit_gather[%s,%d,%d,%d]" % (kind, w, start, stride), fn)
                for stride in (2, 4):
                    def fn(h, w=w, stride=stride, kind=kind, kk=kk):
                        prot = L.new_prot(h)
                        x, X = operand(h, prot, kind, "x", (2,), w)
                        want = np.stack([vmap(lambda a: T.bits_select(a, list(range(s, w, stride)), w), X) for s in range(stride)])
                        L.check(h, prot, "split-gather", prot.bit_split_and_gather(x, stride), want, False, kk, F(w))
                    r.case("bit_split_and_gather[%s,%d,%d]" % (kind, w, stride), fn)

            if w < 64:
                continue  # these kernels are registered for 64-bit words only

            def fn(h, w=w):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "boolean", "x", (2,), w)
                L.check(h, prot, "reverse", prot.bit_reverse(x), vmap(T.bitrev, X), False, BOOL, F(w))
            r.case("bit_reverse[%d]" % w, fn)

            def fn(h, w=w):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "boolean", "x", (2,), w)

                def xi(a):
                    res = T.const(0, w)
                    for j in range(w.bit_length() - 1):
                        p = T.const(0, 1)
                        for i in range(w):
                            if (i >> j) & 1:
                                p = T.xor(p, K.bit(a, i))
                        res = T.xor(res, T.shl(T.zext(p, w), j))
                    return res
                L.check(h, prot, "xor_indices", prot.xor_indices(x), vmap(xi, X), False, BOOL, F(w))
            r.case("xor_indices[%d]" % w, fn)
            for nb in sorted({None, 1, 5, w}, key=lambda v: v or 0):
                def fn(h, w=w, nb=nb):
                    prot = L.new_prot(h)
                    x, X = operand(h, prot, "boolean", "x", (2,), w)
                    want = np.stack([vmap(lambda a: K.bit(a, i), X) for i in range(nb or w)], axis=-1)
                    L.check(h, prot, "bits", prot.bits(x, nb), want, False, BOOL, F(1))
                r.case("bits[%d,%s]" % (w, nb), fn)
        # ---- casts
        for w2 in (8, 16, 32, 64):
            if w2 == w or w == 128:
                continue

            def fn(h, w=w, w2=w2):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "boolean", "x", (2,), w)
                want = vmap(lambda a: T.trunc(a, w2) if w2 < w else T.sext(a, w2), X)
                L.check(h, prot, "cast", prot.cast(x, F(w2)), want, False, BOOL, F(w2))
                if w2 < w:
                    y, Y = operand(h, prot, "arith", "y", (2,), w)
                    L.check(h, prot, "cast-arith", prot.cast(y, F(w2)), vmap(lambda a: T.trunc(a, w2), Y), False, ARITH, F(w2))
                p, Pv = operand(h, prot, "public", "p", (2,), w)
                L.check(h, prot, "cast-public", prot.cast(p, F(w2)), vmap(lambda a: T.trunc(a, w2) if w2 < w else T.sext(a, w2), Pv), False, L.PUBLIC, F(w2))
            r.case("cast[%d,%d]" % (w, w2), fn)

    def fn(h):
        prot = L.new_prot(h)
        x, X = operand(h, prot, "boolean", "x", (2,), 1)
        for w2 in (8, 64):
            L.check(h, prot, "cast%d" % w2, prot.cast(x, F(w2)), vmap(lambda a: T.zext(a, w2), X), False, BOOL, F(w2))
    r.case("cast[1,any]", fn)

    # ---- adders ---------------------------------------------------------------------
    for w in (64, 128):
        for topo in ("kogge_stone", "sklansky"):
            for nb in (None, 1, 2, 5, 13, 32, w):
                if nb not in (None, w) and topo == "sklansky" and nb == 1:
                    continue

                def fn(h, w=w, topo=topo, nb=nb):
                    prot = L.new_prot(h, fixedpoint_config=cfg(w))
                    x, X = operand(h, prot, "boolean", "x", (1,), w)
                    y, Y = operand(h, prot, "boolean", "y", (1,), w, rot=2)
                    z = prot.ppa(x, y, nb, topology=topo)
                    if topo == "sklansky" and nb not in (None, w):
                        # only the low bits are promised
                        L.check(h, prot, "sum", z, None, False, BOOL, F(w))
                        h.ensure_eq("sum.low-bits", vmap(lambda a: T.trunc(a, nb), L.secret_of(h, z)), vmap(lambda a, b: T.trunc(T.add(a, b), nb), X, Y))
                    else:
                        L.check(h, prot, "sum", z, vmap(lambda a, b: K.low(T.add(a, b), nb or w), X, Y), False, BOOL, F(w), reveal=False)
                r.case("ppa[%s,%s,%d]" % (topo, nb, w), fn, contracts=(K.and_contract,), trials=3)
        for pos in [None, 0, 1, 2, 3, 6, 7, 30, 31, 32, 62] + ([63] if w == 64 else [63, 64, 126]):
            if w == 128:
                continue  # the carry tree is written for rings with bit-gather kernels (up to 64 bits)

            def fn(h, w=w, pos=pos):
                prot = L.new_prot(h, fixedpoint_config=cfg(w))
                x, X = operand(h, prot, "boolean", "x", (2,), w)
                y, Y = operand(h, prot, "boolean", "y", (2,), w, rot=1)
                z = prot.carry(x, y, pos)
                L.check(h, prot, "carry", z, vmap(lambda a, b: T.zext(K.carry_bit(a, b, w - 1 if pos is None else pos), 8), X, Y), False, BOOL, L.factories[1], reveal=False)
                bit_shares(h, z)
            r.case("carry[%s,%d]" % (pos, w), fn, contracts=(K.and_contract,), trials=3)
    for pos in (None, 5, 62):
        for order in (0, 1):
            def fn(h, pos=pos, order=order):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "boolean", "x", (2,), 64)
                y, Y = operand(h, prot, "public", "y", (2,), 64)
                z = prot.carry(x, y, pos) if order == 0 else prot.carry(y, x, pos)
                L.check(h, prot, "carry", z, vmap(lambda a, b: T.zext(K.carry_bit(a, b, 63 if pos is None else pos), 8), X, Y), False, BOOL, L.factories[1], reveal=False)
                bit_shares(h, z)
            r.case("carry-public[%s,%d]" % (pos, order), fn, contracts=(K.and_contract,), trials=3)

    # ---- conversions ----------------------------------------------------------------
    for w in (64, 128):
        for sh in ((2,), ()):
            for nb in (None, 3, 16, w):
                for scaled in (False, True):
                    def fn(h, w=w, sh=sh, nb=nb, scaled=scaled):
                        prot = L.new_prot(h, fixedpoint_config=cfg(w))
                        x, X = L.private(h, prot, "x", sh, ARITH, scaled, F(w))
                        L.check(h, prot, "a2b", prot.a2b(x, nb), vmap(lambda a: K.low(a, nb or w), X), scaled, BOOL, F(w))
                    r.case("a2b[%d,%s,%s,%s]" % (w, len(sh), nb, scaled), fn, contracts=(K.ppa_contract,))
            for scaled in (False, True):
                def fn(h, w=w, sh=sh, scaled=scaled):
                    prot = L.new_prot(h, fixedpoint_config=cfg(w))
                    x, X = L.private(h, prot, "x", sh, BOOL, scaled, F(w))
                    L.check(h, prot, "b2a", prot.b2a(x), X, scaled, ARITH, F(w))
                    y, Y = L.private(h, prot, "y", sh, BOOL, scaled, F(w))
                    L.check(h, prot, "b2a-again", prot.b2a(y), Y, scaled, ARITH, F(w))
                r.case("b2a[%d,%s,%s]" % (w, len(sh), scaled), fn, contracts=(K.ppa_contract,))

    for nb in (None, 1, 8, 63):
        for scaled in (False, True):
            def fn(h, nb=nb, scaled=scaled):
                prot = L.new_prot(h)
                x, X = L.private(h, prot, "x", (2,), BOOL, scaled, F(64))
                L.check(h, prot, "b2a", prot.b2a(x, nb, method="single"), vmap(lambda a: K.low(a, nb or 64), X), scaled, ARITH, F(64))
            r.case("b2a-single[%s,%s]" % (nb, scaled), fn, contracts=(K.b2a_single_contract,))
    for w in (64, 128):
        def fn(h, w=w):
            prot = L.new_prot(h, fixedpoint_config=cfg(w))
            x, X = L.private(h, prot, "x", (2, 2), BOOL, False, F(1))
            L.check(h, prot, "b2a_single", prot.b2a_single(x), vmap(lambda a: T.zext(a, w), X), False, ARITH, F(w))
        r.case("b2a_single[%d]" % w, fn)

    # ---- bit extraction ---------------------------------------------------------------
    for i in (range(64) if TIER == "thorough" else (0, 1, 2, 3, 7, 8, 31, 32, 33, 47, 61, 62, 63)):
        for kind in ("arith", "boolean"):
            for scaled in (False, True):
                if scaled and i not in (0, 63):
                    continue

                def fn(h, i=i, kind=kind, scaled=scaled):
                    prot = L.new_prot(h)
                    x, X = operand(h, prot, kind, "x", (2,), 64, scaled)
                    L.check(h, prot, "bit", prot.bit_extract(x, i), vmap(lambda a: K.bit(a, i), X), False, BOOL, F(1))
                    if i == 63:
                        L.check(h, prot, "msb", prot.msb(x), vmap(lambda a: K.bit(a, 63), X), False, BOOL, F(1))
                r.case("bit_extract[%s,%d,%s]" % (kind, i, scaled), fn, contracts=(K.carry_contract,))
    for w in (8, 32):
        for i in (0, w // 2, w - 1):
            def fn(h, i=i, w=w):
                prot = L.new_prot(h)
                x, X = operand(h, prot, "boolean", "x", (2,), w)
                L.check(h, prot, "bit", prot.bit_extract(x, i), vmap(lambda a: K.bit(a, i), X), False, BOOL, F(1))
            r.case("bit_extract[boolean,%d,w%d]" % (i, w), fn)

    # ---- round trips without any contract on the conversions (concrete) ---------------
    def fn(h):
        prot = L.new_prot(h)
        x, X = L.private(h, prot, "x", (3,), ARITH, True, F(64))
        b = prot.a2b(x)
        L.check(h, prot, "a2b", b, X, True, BOOL, F(64))
        L.check(h, prot, "back", prot.b2a(b), X, True, ARITH, F(64))
        L.check(h, prot, "back-single", prot.b2a(b, method="single"), X, True, ARITH, F(64))
    r.case("round-trip", fn, sym=False, trials=3, bounded_note="composition of the contracts above, run without them")

    # ---- powers of two from bits
    def fn(h):
        prot = L.new_prot(h)
        b, B = L.private(h, prot, "b", (2, 3), BOOL, False, F(1))
        want = np.empty((2,), dtype=object)
        for q in range(2):
            v = T.const(1, 64)
            for j in range(3):
                v = v * T.ite(B[q, j], T.const(2 ** (2 ** j), 64), T.const(1, 64))
            want[q] = v
        L.check(h, prot, "pow2", prot.pow2_from_bits(b), want, False, ARITH, F(64))
    r.case("pow2_from_bits", fn, contracts=(K.mul_ab_contract,))


if __name__ == "__main__":
    main("C08", build)
