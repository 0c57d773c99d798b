"""Two-server rescaling."""
import itertools

import numpy as np

from engine import term as T
from engine.env import rtf, tfe
from engine.harness import main, TIER
from checks import lib_pond as L
from checks.lib_aby3 import vmap, NotReached, matched
from tf_encrypted.tensor import fixed as FX
from tf_encrypted.tensor import int100factory
P = L.P


def close(h, label, got, exact, sf, bound):
    """got is within one unit of exact/sf as a small signed integer"""
    def one(g, x):
        lim = bound // sf + 1
        small = T.conj(T.sle(T.const(-lim, g.w), g), T.sle(g, T.const(lim, g.w)))
        e = T.sub(x, T.scale(g, sf))
        near = T.conj(T.slt(T.const(-sf, g.w), e), T.slt(e, T.const(sf, g.w)))
        h.ensure(label + ".magnitude", small)
        h.ensure(label + ".within-one-unit", near)
        return near
    vmap(one, got, exact)


def split_private(h, prot, X, s0, scaled):
    f = prot.tensor_factory
    v0 = L.backing(h, prot, f, s0, prot.server_0.device_name)
    v1 = L.backing(h, prot, f, vmap(T.sub, X, s0), prot.server_1.device_name)
    return P.PondPrivateTensor(prot, v0, v1, scaled)


def revealed(h, prot, y):
    r = prot.reveal(y)
    a, b = [h.val(v) for v in r.unwrapped]
    h.ensure_eq("same-on-both-servers", a, b)
    return a


def build(r):
    CFG = dict(fixed64=FX.fixed64, fixed64_ni=FX.fixed64_ni)
    custom = dict(
        base5=FX.FixedpointConfig(5, 64, 4, 4, 16, 20, False),
        base3small=FX.FixedpointConfig(3, 64, 3, 5, 16, 10, False),
        base2wide=FX.FixedpointConfig(2, 64, 8, 20, 16, 20, True),
    )
    ALL = dict(CFG, **custom)
    for cname, cfg in ALL.items():
        sf, bound = cfg.scaling_factor, cfg.bound_double_precision
        for kind in ("private", "masked"):
            for sh in ((), (2,)):
                def fn(h, cfg=cfg, kind=kind, sh=sh, sf=sf, bound=bound):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    X = h.array("x", sh, 64, -bound, bound)
                    if cfg.use_noninteractive_truncation:
                        # share pairs that do not wrap around: all but a 2*bound/2^64 fraction
                        s0 = h.array("s", sh, 64, -2 ** 63 + bound + 1, 2 ** 63 - 1 - bound)
                    else:
                        s0 = h.array("s", sh, 64)
                    x = split_private(h, prot, X, s0, True)
                    if kind == "masked":
                        x = prot.mask(x)
                    y = x.truncate() if sh else prot.truncate(x)
                    h.ensure_true("kind", isinstance(y, P.PondPrivateTensor), str(type(y)))
                    h.ensure_true("is_scaled", y.is_scaled, "flag lost")
                    L.placement(h, prot, "result", y)
                    close(h, "quotient", revealed(h, prot, y), X, sf, bound)
                r.case("truncate[%s,%s,%s]" % (cname, kind, sh), fn, trials=8)

        def fn(h, cfg=cfg, sf=sf):
            prot = L.new_prot(h, fixedpoint_config=cfg)
            x, X = L.public(h, prot, "x", (2,), True)
            y = prot.truncate(x)
            L.check_public(h, "floor", y, vmap(lambda t: T.divop("floordiv", t, T.const(sf, 64)) if cfg.scaling_base != 2 else T.ashr(t, cfg.precision_fractional), X), True)
            L.placement(h, prot, "floor", y)
        r.case("truncate-public[%s]" % cname, fn)

    # products of scaled operands: rescaled exactly once, by the contract above
    def contract(patches, h):
        h.calls = []

        def truncate(prot, x):
            if isinstance(x, P.PondMaskedTensor):
                x = x.unmasked
            n = len(h.calls)
            vs = [h.val(v) for v in x.unwrapped]
            if isinstance(x, P.PondPrivateTensor):
                arg = vmap(T.add, *vs)
                q = h.array("quot%d" % n, arg.shape, 64)
                z = split_private(h, prot, q, h.array("quotshare%d" % n, arg.shape, 64), x.is_scaled)
            else:
                arg = vs[0]
                h.ensure_eq("public-copies", vs[1], arg, kind="pre")
                q = h.array("quot%d" % n, arg.shape, 64)
                z = P.PondPublicTensor(prot, *[L.backing(h, prot, prot.tensor_factory, q, s.device_name) for s in (prot.server_0, prot.server_1)], x.is_scaled)
            h.calls.append((arg, q))
            return z
        patches.stub(P.Pond, "truncate", truncate)
        return ["Pond.truncate (discharged in the truncate cases)"]

    kinds = ("public", "private", "masked")
    from checks import spec
    OPS = dict(
        mul=((2, 2), (2,), lambda p, x, y: p.mul(x, y), lambda X, Y: X * Y),
        matmul=((2, 2), (2, 1), lambda p, x, y: p.matmul(x, y), spec.matmul),
        conv=((1, 1, 3, 3), (2, 2, 1, 1), lambda p, x, y: p.conv2d(x, y, (1, 1), "VALID"), lambda X, Y: spec.conv2d_nchw(X, Y, (1, 1), "VALID")),
        square=((2, 2), None, lambda p, x, y: p.square(x), lambda X, Y: X * X),
    )
    for cname in ("fixed64", "fixed64_ni"):
        cfg = CFG[cname]
        B = int(cfg.bound_double_precision ** 0.5) // 4
        for op, (shx, shy, f, ref) in OPS.items():
            for kx, ky in itertools.product(kinds, kinds):
                if op == "square" and kx != ky:
                    continue
                if op == "conv" and kx != ky and "public" in (kx, ky):
                    continue
                for sx, sy in ((True, True), (True, False), (False, True)):
                    if op == "square" and not (sx and sy):
                        continue

                    def fn(h, cfg=cfg, B=B, shx=shx, shy=shy, f=f, ref=ref, kx=kx, ky=ky, sx=sx, sy=sy):
                        prot = L.new_prot(h, fixedpoint_config=cfg)
                        x, X = L.MAKE[kx](h, prot, "x", shx, sx, lo=-B, hi=B)
                        y, Y = L.MAKE[ky](h, prot, "y", shy, sy, lo=-B, hi=B) if shy else (None, None)
                        z = f(prot, x, y)
                        want = ref(X, Y)
                        if not (sx and sy):
                            if h.sym:
                                h.ensure_true("not-rescaled", not h.calls, "product of a scaled and an unscaled value is rescaled")
                            L.check_any(h, prot, "product", z, want, True)
                            return
                        if h.sym:
                            if len(h.calls) != 1:
                                raise NotReached("%d calls of Pond.truncate" % len(h.calls))
                            h.ensure_eq("rescaled-operand", h.calls[0][0], want)
                            L.check_any(h, prot, "product", z, h.calls[0][1], True)
                        else:
                            h.ensure_true("is_scaled", z.is_scaled, "flag lost")
                            got = revealed(h, prot, z) if not isinstance(z, P.PondPublicTensor) else h.val(z.unwrapped[0])
                            close(h, "product", got, want, cfg.scaling_factor, 8 * B * B)
                    r.case("rescale-%s[%s,%s,%s,%s,%s]" % (op, kx, ky, sx, sy, cname), fn, contracts=(contract,), trials=1,
                           real=not (cfg.use_noninteractive_truncation and sx and sy and (kx, ky) != ("public", "public")))

    # average pooling: the window sum times the encoding of 1/size, rescaled once
    for cname, kx in itertools.product(("fixed64", "fixed64_ni"), kinds):
        cfg = CFG[cname]
        B = int(cfg.bound_double_precision ** 0.5) // 16
        for k, st, pad in (((2, 2), (2, 2), "VALID"), ((2, 2), (2, 2), "SAME"), ((2, 2), (1, 1), "SAME"), ((1, 3), (2, 1), "SAME"), ((3, 2), (1, 2), "VALID")):
            shape = (2, 2, 2, 4) if (k, st) == ((2, 2), (2, 2)) else (2, 2, 3, 4)

            def fn(h, cfg=cfg, B=B, kx=kx, k=k, st=st, pad=pad, shape=shape):
                prot = L.new_prot(h, fixedpoint_config=cfg)
                x, X = L.MAKE[kx](h, prot, "x", shape, True, lo=-B, hi=B)
                z = prot.avgpool2d(x, k, st, pad)
                c = int(cfg.scaling_factor * (1 / (k[0] * k[1])))
                want = vmap(lambda t: t * T.const(c, 64), spec.window_sum(X, k, st, pad))
                if h.sym:
                    if len(h.calls) != 1:
                        raise NotReached("%d calls of Pond.truncate" % len(h.calls))
                    vs = [h.val(v) for v in z.unwrapped]
                    cur = vs[0] if isinstance(z, P.PondPublicTensor) else vmap(T.add, *vs)
                    h.ensure_true("shape", cur.shape == want.shape, "shape %s, expected %s" % (cur.shape, want.shape))
                    if cur.shape == want.shape:
                        arg, q = matched(*h.calls[0], cur)
                        h.ensure_eq("rescaled-operand", arg, want)
                        L.check_any(h, prot, "average", z, q, True)
                else:
                    h.ensure_true("is_scaled", z.is_scaled, "flag lost")
                    got = revealed(h, prot, z) if not isinstance(z, P.PondPublicTensor) else h.val(z.unwrapped[0])
                    close(h, "average", got, want, cfg.scaling_factor, 8 * B * B)
            r.case("avgpool2d[%s,%s,%s,%s,%s]" % (kx, k, st, pad, cname), fn, contracts=(contract,), trials=1, real=not (cfg.use_noninteractive_truncation and kx != "public"))

    # the 100-bit residue-number backend: concrete runs (its reduction goes through floating point)
    def ints100(t):
        M = int100factory.modulus
        a = np.array([[int(v) for v in np.asarray(c).reshape(-1)] for c in t.backing], dtype=object)
        mod = moduli(t)
        out = []
        for j in range(a.shape[1]):
            x = sum((int(a[i, j]) * (M // m) * pow(M // m, -1, m)) for i, m in enumerate(mod)) % M
            out.append(x if x <= M // 2 else x - M)
        return out

    def from_ints(f, xs, dev):
        with rtf.device(dev):
            return _from_ints(f, xs)

    def _from_ints(f, xs):
        mod = moduli(None)
        return f.tensor([rtf.constant([int(x) % m for x in xs], dtype=f.native_type) for m in mod], encode=False)

    for cname, cfg in (("fixed100", FX.fixed100), ("fixed100_ni", FX.fixed100_ni)):
        for kind in ("private", "masked", "public"):
            def fn(h, cfg=cfg, kind=kind):
                prot = L.new_prot(h, fixedpoint_config=cfg)
                f = prot.tensor_factory
                bound, sf = cfg.bound_double_precision, cfg.scaling_factor
                n = 8
                xs = [h.rng.choice([h.rng.randrange(-bound, bound + 1), h.rng.randrange(-sf, sf), 0, bound, -bound, sf * h.rng.randrange(-99, 99)]) for _ in range(n)]
                h.used["xs"] = xs
                if kind == "public":
                    v = [from_ints(f, xs, s.device_name) for s in (prot.server_0, prot.server_1)]
                    y = prot.truncate(P.PondPublicTensor(prot, v[0], v[1], True))
                    for u in y.unwrapped:
                        h.ensure_true("floor", ints100(u) == [x // sf for x in xs], "%s" % ints100(u))
                    return
                M = f.modulus
                ss = [h.rng.randrange(M) for _ in xs]
                if cfg.use_noninteractive_truncation:
                    ss = [h.rng.randrange(bound + 1, M // 2 - bound - 1) * h.rng.choice([1, -1]) for _ in xs]
                v0 = from_ints(f, ss, prot.server_0.device_name)
                v1 = from_ints(f, [x - s for x, s in zip(xs, ss)], prot.server_1.device_name)
                x = P.PondPrivateTensor(prot, v0, v1, True)
                if kind == "masked":
                    x = prot.mask(x)
                draw = h.rng.choice(["random", "smallest", "largest"])
                own = f.sample_bounded
                if draw != "random":   # force an extreme truncation mask
                    def forced(shape, bits, *a, **k):
                        n = int(np.prod(rtf.TensorShape(shape).as_list()))
                        return _from_ints(f, [0 if draw == "smallest" else 2 ** int(bits) - 1] * n).reshape(rtf.TensorShape(shape).as_list())
                    f.sample_bounded = forced
                h.used["draw"] = draw
                try:
                    y = prot.truncate(x)
                finally:
                    f.sample_bounded = own
                got = ints100(prot.reveal(y).unwrapped[1])
                for g, e in zip(got, xs):
                    h.ensure_true("within-one-unit", abs(g * sf - e) < sf, "%d for %d" % (g, e))
            r.case("truncate100[%s,%s]" % (cname, kind), fn, sym=False, trials=12 if TIER == "quick" else 200, bounded_note="residue-number backend reduces through floating point")


def moduli(t):
    """the moduli of a residue tensor, observed: component i of the encoding of -1 is m_i - 1"""
    return [int(np.asarray(c).reshape(-1)[0]) + 1 for c in int100factory.constant(np.array([-1])).backing]


if __name__ == "__main__":
    main("C04", build)
