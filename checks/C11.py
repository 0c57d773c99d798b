"""What each compute server and the triple producer receive in the two-server protocol is independent of the secrets."""
import itertools

import numpy as np

from engine import symtf as S
from engine import term as T
from engine.harness import main, TIER
from engine.env import rtf, tfe
from checks import lib_pond as L
from checks import lib_privacy as PV
from engine import queues as QU
from checks.C02 import unary_table, multi_table, NO_MASKED
from tf_encrypted.tensor import fixed as FX


def parties(prot):
    return {"server0": prot.server_0.device_name, "server1": prot.server_1.device_name, "producer": prot.triple_source.producer.device_name}


def private2(h, prot, name, shape, scaled=False, lo=None, hi=None):
    PV.track(h)
    x, X = L.private(h, prot, name, shape, scaled, lo=lo, hi=hi)
    sec = set().union(*[T.free_vars(t) for t in PV.flat(X)]) if X.size else set()
    h.secrets |= sec
    for s, v in zip((prot.server_0, prot.server_1), x.unwrapped):
        PV.own(h, s.device_name, v)
        for t in PV.flat(h.val(v)):
            h.dealing |= T.free_vars(t) - sec
    return x


def build(r):
    CFG = dict(fixed64=FX.fixed64, fixed64_ni=FX.fixed64_ni)

    def case(name, ops, cfg="fixed64_ni", bound=None, contracts=()):
        def fn(h):
            prot = L.new_prot(h, fixedpoint_config=CFG[cfg])
            PV.track(h)
            cnt = [0]

            def mk(kind, shape, scaled=False):
                cnt[0] += 1
                n = "x%d" % cnt[0]
                if kind == "public":
                    return L.public(h, prot, n, shape, scaled)[0]
                x = private2(h, prot, n, shape, scaled, *((-bound, bound) if bound else ()))
                return prot.mask(x) if kind == "masked" else x
            ops(prot, mk)
            PV.check_views(h, "view", parties(prot))
        r.case(name, fn, real=False, contracts=contracts)

    KINDS = ("public", "private", "masked")
    # ---- products
    for kx, ky in itertools.product(KINDS, KINDS):
        if (kx, ky) == ("public", "public"):
            continue
        for op, sx, sy in (("mul", (2,), (2,)), ("mul", (2, 2), (2,)), ("mul", (2,), (2, 2)), ("mul", (2,), ()), ("matmul", (1, 2), (2, 2))):
            if "public" in (kx, ky) and np.broadcast_shapes(sx, sy) != (sy if kx == "public" else sx) and op == "mul":
                continue
            for sc in (False, True):
                case("%s%s%s[%s,%s%s]" % (op, sx, sy, kx, ky, ",scaled" if sc else ""),
                     lambda p, mk, kx=kx, ky=ky, op=op, sx=sx, sy=sy, sc=sc: getattr(p, op)(mk(kx, sx, sc), mk(ky, sy, sc)))
        if "public" not in (kx, ky):
            for st, pad in ((1, "VALID"), (2, "SAME")):
                case("conv2d[%s,%s,%s]" % (kx, ky, pad), lambda p, mk, kx=kx, ky=ky, st=st, pad=pad: p.conv2d(mk(kx, (1, 1, 3, 3)), mk(ky, (2, 2, 1, 1)), (st, st), pad))
    for k in ("private", "masked"):
        case("square[%s]" % k, lambda p, mk, k=k: p.square(mk(k, (2,))))
        case("mul-self[%s]" % k, lambda p, mk, k=k: (lambda x: p.mul(x, x))(mk(k, (2,))))
        case("power4[%s]" % k, lambda p, mk, k=k: p.square(p.square(mk(k, (2,), True))))
        case("dot-chain[%s]" % k, lambda p, mk, k=k: p.mul(p.mul(mk(k, (2,)), mk(k, (2,))), mk(k, (2,))))

        def reuse(p, mk, k=k):
            x, y, z = mk(k, (2, 2)), mk(k, (2, 2)), mk("private", (2, 2))
            p.mul(x, y), p.matmul(x, z), p.matmul(p.transpose(x), y), p.mul(p.add(x, y), z), p.square(x), p.mul(x, y), p.mul(y, z)
        case("one-operand-in-many-products[%s]" % k, reuse)

        def fork(p, mk, k=k):
            x = mk(k, (3, 2))
            a, b = p.split(p.concat([x, mk(k, (1, 2))], 0), 2, 0)
            p.mul(a, b), p.square(p.stack([a, b], 0)), p.mul(x[0], x[1]), p.mul(x[0:2], a)
        case("masks-through-structure[%s]" % k, fork)

        def two(p, mk, k=k):
            x, y = mk(k, (2,), True), mk(k, (2,), True)
            z = p.mul(x, y)
            p.mul(z, x), p.sub(z, y), p.mul(p.add(z, y), p.sub(z, y))
        case("composite[%s]" % k, two)
    # ---- linear and structural operations, then a product with the result (which discloses its mask)
    for (name, shape, f, g), k, sc in itertools.product(unary_table(), ("private", "masked"), (False,)):
        if k == "masked" and name in NO_MASKED:
            continue
        case("%s[%s]" % (name, k), lambda p, mk, f=f, k=k, shape=shape: (lambda x: (p.square(f(p, x)), p.square(x)))(mk(k, shape)))
    for (name, shape, f, g), k in itertools.product(multi_table(), ("private", "masked")):
        case("%s[%s]" % (name, k), lambda p, mk, f=f, k=k, shape=shape: [p.square(y) for y in f(p, mk(k, shape))])
    for k, (name, f) in itertools.product(("private", "masked"), (
            ("stack", lambda p, xs: p.stack(xs, axis=0)), ("concat", lambda p, xs: p.concat(xs, axis=1)), ("add_n", lambda p, xs: p.add_n(xs)))):
        case("%s[%s]" % (name, k), lambda p, mk, k=k, f=f: p.square(f(p, [mk(k, (2, 2)) for _ in range(3)])))
    for kx, ky, op in itertools.product(KINDS, KINDS, ("add", "sub")):
        if (kx, ky) == ("public", "public"):
            continue
        case("%s[%s,%s]" % (op, kx, ky), lambda p, mk, kx=kx, ky=ky, op=op: p.square(getattr(p, op)(mk(kx, (2,)), mk(ky, (2,)))))
        if "public" in (kx, ky):
            continue
        case("%s-bcast[%s,%s]" % (op, kx, ky), lambda p, mk, kx=kx, ky=ky, op=op: p.square(getattr(p, op)(mk(kx, (2,)), mk(ky, (2, 2)))))
    # ---- rescaling; values inside the configured bound, masks at least 2^20 times as wide
    for cname, cfg in CFG.items():
        for k in ("private", "masked"):
            b = cfg.bound_double_precision
            case("truncate[%s,%s]" % (cname, k), lambda p, mk, k=k: p.truncate(mk(k, (2,), True)), cname, b)
            case("truncate-twice[%s,%s]" % (cname, k), lambda p, mk, k=k: (lambda x, y: (p.truncate(x), p.truncate(y), p.truncate(p.add(x, 1))))(mk(k, (1,), True), mk(k, (1,), True)), cname, b // 2)
            case("truncate-then-multiply[%s,%s]" % (cname, k), lambda p, mk, k=k: p.mul(p.truncate(mk(k, (1,), True)), mk("private", (1,), False)), cname, b)
            case("products-of-quotients[%s,%s]" % (cname, k), lambda p, mk, k=k: (lambda x, y: p.mask(p.add(p.truncate(x), p.truncate(y))))(mk(k, (1,), True), mk(k, (1,), True)), cname, 1 << 20)
    # ---- approximations are made of the operations above
    for name, f in (("sigmoid", lambda p, x: p.sigmoid(x)), ("tanh", lambda p, x: p.tanh(x)), ("relu", lambda p, x: p.relu(x)), ("log", lambda p, x: p.log(x)),
                    ("div-public", lambda p, x: p.div(x, 2.0)), ("avgpool", None), ("mod-free-pad", lambda p, x: p.square(p.pad(x, [[1, 0]])))):
        if f is None:
            case("avgpool2d", lambda p, mk: p.square(p.avgpool2d(mk("private", (1, 1, 2, 2), True), (2, 2), (1, 1), "VALID")))
            continue
        case(name, lambda p, mk, f=f: f(p, mk("private", (1,), True)))
    # ---- inputs, outputs, variables, queues
    for where in ("input-provider", "server0", "server1", "server2"):
        for masked in (False, True):
            for cname in ("fixed64_ni",):
                def fn(h, where=where, masked=masked, cname=cname):
                    prot = L.new_prot(h, fixedpoint_config=CFG[cname])
                    PV.track(h)
                    dev = tfe.get_config().get_player(where).device_name
                    ps = {k: d for k, d in parties(prot).items() if d != dev}
                    a, b = h.array("x", (2,), 64), h.array("y", (2,), 64)
                    h.secrets |= {v for t in PV.flat(a) + PV.flat(b) for v in T.free_vars(t)}
                    x = prot.define_private_input(where, lambda: h.tensor(a, rtf.int64, dev), apply_scaling=False, masked=masked)
                    y = prot.define_private_input(where, lambda: h.tensor(b, rtf.int64, dev), apply_scaling=False, masked=masked)
                    prot.mul(x, y), prot.square(x)
                    PV.check_views(h, "view", ps)
                r.case("private_input[%s%s]" % (where, ",masked" if masked else ""), fn, real=False)

        def fn(h, where=where):
            prot = L.new_prot(h)
            PV.track(h)
            dev = tfe.get_config().get_player(where).device_name
            ps = {k: d for k, d in parties(prot).items() if d != dev}
            x = private2(h, prot, "x", (2,), False)
            y = prot.define_local_computation(where, lambda v: v * 3, arguments=[x], apply_scaling=False)
            prot.mul(y, x)
            PV.check_views(h, "view", ps)
        r.case("local_computation[%s]" % where, fn, real=False)

    def fn(h):
        prot = L.new_prot(h)
        PV.track(h)
        x = private2(h, prot, "x", (2,), False)
        prot.define_output("result-receiver", [x], lambda v: None)
        PV.check_views(h, "view", parties(prot))
    r.case("output", fn, real=False)

    def var(kind):
        def fn(h):
            prot = L.new_prot(h)
            PV.track(h)
            x, y, z = [private2(h, prot, n, (2,)) for n in "xyz"]
            v = prot.define_private_variable(x if kind == "private" else prot.mask(x))
            prot.square(v)
            prot.assign(v, y)
            prot.square(v.read_value() if hasattr(v, "read_value") else v)
            prot.mul(v, z)
            PV.check_views(h, "view", parties(prot))
        return fn
    r.case("variable[private]", var("private"), real=False)

    def fn(h):
        prot = L.new_prot(h)
        PV.track(h)
        a = h.array("x", (2,), 64)
        h.secrets |= {v for t in PV.flat(a) for v in T.free_vars(t)}
        v = prot.define_private_variable(h.tensor(a, rtf.int64, ""), apply_scaling=False)
        prot.square(v)
        PV.check_views(h, "view", parties(prot))
    r.case("variable[plain]", fn, real=False)

    def fn(h):
        prot = L.new_prot(h, fixedpoint_config=FX.fixed64_ni)
        PV.track(h)
        q = prot.fifo_queue(3, (2,), "q")
        for n in "xy":
            q.enqueue(private2(h, prot, n, (2,), True))
        prot.mul(q.dequeue(), q.dequeue())
        PV.check_views(h, "view", parties(prot))
    r.case("queue", fn, real=False, contracts=(QU.contract,))


if __name__ == "__main__":
    main("C11", build)
