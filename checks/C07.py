"""Three-server rescaling."""
import numpy as np

from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_aby3 as L
from checks.lib_aby3 import vmap


def ensure_trunc(h, label, got, x, f, lo, hi):
    """floor(x / 2^f) + lo <= got <= floor(x / 2^f) + hi"""
    def one(g, v):
        d = T.sub(g, T.ashr(v, f))
        h.ensure(label, T.conj(T.sle(T.const(lo, d.w), d), T.sle(d, T.const(hi, d.w))))
        return d
    vmap(one, got, x)


def build(r):
    for w, cfg in ((64, "l"), (128, "high")):
        F = L.factories[w]
        k = w
        # the heuristic truncation: |x| < 2^(k-2)
        half = 1 << (k - 2)
        for amount, scaled in ((None, True), (None, False), (1, True), (1, False), (3, False), (5, True)):
            for sh in ((2,), ()):
                def fn(h, cfg=cfg, F=F, amount=amount, scaled=scaled, half=half, sh=sh):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    f = prot.fixedpoint_config.precision_fractional if amount is None else amount
                    x, X = L.private(h, prot, "x", sh, L.ARITH, scaled, F, -half, half - 1)
                    y = prot.truncate(x, amount=amount) if sh else x.truncate(amount)
                    L.check(h, prot, "truncate", y, None, scaled, L.ARITH, F)
                    ensure_trunc(h, "within-one-unit", L.secret_of(h, y), X, f, 0, 1)
                r.case("heuristic[%s,%s,%d,%s]" % (amount, scaled, w, len(sh)), fn, trials=6)
        # truncation of a value with a zero top bit
        for method, lo, hi in (("secureq8", 0, 1), ("cheetah", -1, 0)):
            for amount in (None, 1, 7):
                if method == "cheetah" and w == 128:
                    continue  # the single-bit conversion it uses exists over the 64-bit ring only
                for scaled in (True, False):
                    def fn(h, cfg=cfg, F=F, amount=amount, scaled=scaled, method=method, lo=lo, hi=hi, k=k):
                        prot = L.new_prot(h, fixedpoint_config=cfg)
                        f = prot.fixedpoint_config.precision_fractional if amount is None else amount
                        x, X = L.private(h, prot, "x", (2,), L.ARITH, scaled, F, 0, (1 << (k - 1)) - 1)
                        y = prot.truncate_msb0(x, method=method, amount=amount)
                        L.check(h, prot, "truncate", y, None, scaled, L.ARITH, F)
                        ensure_trunc(h, "within-one-unit", L.secret_of(h, y), X, f, lo, hi)
                    r.case("msb0-%s[%s,%s,%d]" % (method, amount, scaled, w), fn, trials=6)
        # local truncation: exact up to one unit unless the split wraps around
        for amount in (None, 1, 9):
            for scaled in (True, False):
                B = 1 << (40 if w == 64 else 100)

                def fn(h, cfg=cfg, F=F, amount=amount, scaled=scaled, B=B, w=w):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    f = prot.fixedpoint_config.precision_fractional if amount is None else amount
                    X = h.array("x", (2,), w, -B, B)
                    # share of server 0 outside the 2B/2^k fraction for which the split wraps around
                    s0 = h.array("x_s0", (2,), w, -(1 << (w - 1)) + B + 1, (1 << (w - 1)) - 1 - B)
                    s1 = h.array("x_s1", (2,), w)
                    x = L.make_shares(h, prot, [s0, s1, L._bin(T.sub, X, s0, s1)], F, L.ARITH, scaled)
                    y = prot.truncate(x, method="local", amount=amount)
                    L.check(h, prot, "truncate", y, None, scaled, L.ARITH, F)
                    ensure_trunc(h, "within-one-unit", L.secret_of(h, y), X, f, -1, 0)
                r.case("local[%s,%s,%d]" % (amount, scaled, w), fn, trials=6)
        # public values: exact floor
        for method in ("local", "heuristic"):
            for amount in (None, 1, 9):
                for scaled in (True, False):
                    def fn(h, cfg=cfg, F=F, amount=amount, scaled=scaled, method=method):
                        prot = L.new_prot(h, fixedpoint_config=cfg)
                        f = prot.fixedpoint_config.precision_fractional if amount is None else amount
                        x, X = L.public(h, prot, "x", (2, 1), scaled, F)
                        y = prot.truncate(x, method=method, amount=amount)
                        L.check(h, prot, "floor", y, vmap(lambda t: T.ashr(t, f), X), scaled, L.PUBLIC)
                    r.case("public-%s[%s,%s,%d]" % (method, amount, scaled, w), fn)

        # division and multiplication by a power of two
        for c, f in ((2, 1), (8, 3)):
            for kind in ("private", "public"):
                def fn(h, cfg=cfg, F=F, c=c, f=f, kind=kind, half=half):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    if kind == "private":
                        x, X = L.private(h, prot, "x", (2,), L.ARITH, True, F, -half, half - 1)
                    else:
                        x, X = L.public(h, prot, "x", (2,), True, F)
                    for y in (prot.div(x, c), prot.mul(x, 1.0 / c)):
                        L.check(h, prot, "div", y, None, True)
                        got = L.secret_of(h, y) if kind == "private" else h.val(y.unwrapped[2])
                        ensure_trunc(h, "quotient", got, X, f, 0, 1)
                    L.check(h, prot, "mul", prot.mul(x, c), vmap(lambda t: T.shl(t, f), X), True)
                r.case("by-power-of-two[%d,%s,%d]" % (c, kind, w), fn)

    # fused multiplication and rescaling
    B = 1 << 24

    def contract(patches, h):
        """_gen_random_sharing: a sharing of an arbitrary word outside the 2*B^2/2^64 fraction that wraps around;
        b2a: a fresh arithmetic sharing of the same word (discharged in C08)"""
        h.stubbed = set()

        def rnd(prot, shape, share_type=L.ARITH, factory=None):
            h.stubbed.add("rnd")
            factory = factory or prot.default_factory
            v = h.array("r", tuple(shape), 64, -(1 << 63) + B * B + 1, (1 << 63) - 1 - B * B)
            return L.fresh_sharing(h, prot, v, share_type, factory, True, "r")

        def b2a(prot, x, nbits=None, method="ppa"):
            h.stubbed.add("b2a")
            return L.fresh_sharing(h, prot, L.secret_of(h, x), L.ARITH, x.backing_dtype, x.is_scaled, "b2a")
        patches.stub(L.A.ABY3, "_gen_random_sharing", rnd)
        patches.stub(L.A.ABY3, "b2a", b2a)
        return ["ABY3._gen_random_sharing (C06), its value outside the wrapping fraction", "ABY3.b2a (C08)"]

    def fn(h):
        prot = L.new_prot(h)
        F = L.factories[64]
        f = prot.fixedpoint_config.precision_fractional
        x, X = L.private(h, prot, "x", (2,), L.ARITH, True, F, -B, B)
        y, Y = L.private(h, prot, "y", (2,), L.ARITH, True, F, -B, B)
        if h.sym:
            # the exact product as one word P in range, so that the obligation is linear
            for a, b in zip(X, Y):
                p = a * b
                h.assume(T.conj(T.sle(T.const(-B * B, 64), p), T.sle(p, T.const(B * B, 64))))
        z = prot.mul_trunc2(x, y)
        if h.sym and h.stubbed != {"rnd", "b2a"}:
            raise L.NotReached("mask sampling or conversion")
        L.check(h, prot, "product", z, None, True, L.ARITH, F)
        ensure_trunc(h, "within-one-unit", L.secret_of(h, z), X * Y, f, -1, 0)
    r.case("mul_trunc2", fn, contracts=(contract,), trials=4, uniform=True)

    def fn(h):
        prot = L.new_prot(h)
        F = L.factories[64]
        x, X = L.private(h, prot, "x", (2,), L.ARITH, True, F)
        y, Y = L.private(h, prot, "y", (2,), L.ARITH, False, F)
        L.check(h, prot, "product", prot.mul_trunc2(x, y), X * Y, True, L.ARITH, F)
    r.case("mul_trunc2-unscaled", fn)


if __name__ == "__main__":
    main("C07", build)
