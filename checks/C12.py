"""What each of the three servers receives is independent of the secrets; masks are never reused."""
import itertools

import numpy as np

from engine.harness import main, TIER
from engine.env import rtf, tfe
from checks import lib_aby3 as L
from checks import lib_privacy as PV
from checks import aby3_contracts as K
from engine import term as T
from checks.lib_aby3 import ARITH, BOOL

F64, F128, F1 = L.factories[64], L.factories[128], L.factories[rtf.bool]


def build(r):
    def case(name, ops, f=None, cfg="l", twice=True, contracts=()):
        """ops(prot, mk) runs the operation on fresh secrets; run twice so that masks of two calls are compared"""
        def fn(h):
            prot = L.new_prot(h, fixedpoint_config=cfg)
            PV.track(h)
            parties = {"server%d" % i: s.device_name for i, s in enumerate(prot.servers)}
            cnt = [0]

            def mk(kind, shape, scaled=False, factory=None):
                cnt[0] += 1
                n = "x%d" % cnt[0]
                if kind == "public":
                    return L.public(h, prot, n, shape, scaled, factory)[0]
                return PV.private3(h, prot, n, shape, ARITH if kind == "arith" else BOOL, scaled, factory, rot=cnt[0] % 3)[0]
            ops(prot, mk)
            if twice:
                snap = PV.snapshot(parties)
                ops(prot, mk)
                PV.check_fresh(h, "view", parties, snap)
            PV.check_streams(h, "view", parties)
            PV.check_views(h, "view", parties)
        r.case(name, fn, real=False, contracts=contracts)

    for w, f, cfg in ((64, F64, "l"), (128, F128, "high")):
        for tag, sx, sy in (("", (2,), (2,)), ("-bcast", (2, 2), (2,)), ("-bcastx", (2,), (2, 2)), ("-scalar", (2,), ()), ("-scalarx", (), (2,))):
            case("mul%s[%d]" % (tag, w), lambda p, mk, f=f, sx=sx, sy=sy: p.mul(mk("arith", sx, False, f), mk("arith", sy, False, f)), cfg=cfg)
            case("and%s[%d]" % (tag, w), lambda p, mk, f=f, sx=sx, sy=sy: p.and_(mk("boolean", sx, False, f), mk("boolean", sy, False, f)), cfg=cfg)
            case("or%s[%d]" % (tag, w), lambda p, mk, f=f, sx=sx, sy=sy: p.or_(mk("boolean", sx, False, f), mk("boolean", sy, False, f)), cfg=cfg)
        case("square[%d]" % w, lambda p, mk, f=f: p.square(mk("arith", (2,), False, f)), cfg=cfg)
        case("mul-same[%d]" % w, lambda p, mk, f=f: (lambda x: p.mul(x, x))(mk("arith", (2,), False, f)), cfg=cfg)
        case("mul-public[%d]" % w, lambda p, mk, f=f: p.mul(mk("arith", (2,), False, f), mk("public", (2,), False, f)), cfg=cfg)
        case("add[%d]" % w, lambda p, mk, f=f: p.add(mk("arith", (2,), False, f), mk("arith", (2,), False, f)), cfg=cfg)
        case("matmul[%d]" % w, lambda p, mk, f=f: p.matmul(mk("arith", (2, 2), False, f), mk("arith", (2, 2), False, f)), cfg=cfg)
        for m in ("local", "heuristic"):
            case("truncate[%s,%d]" % (m, w), lambda p, mk, f=f, m=m: p.truncate(mk("arith", (2,), True, f), m), cfg=cfg)
        for m in ("cheetah", "secureq8"):
            case("truncate_msb0[%s,%d]" % (m, w), lambda p, mk, f=f, m=m: p.truncate_msb0(mk("arith", (2,), True, f), m), cfg=cfg)
        case("mul_scaled[%d]" % w, lambda p, mk, f=f: p.mul(mk("arith", (2,), True, f), mk("arith", (2,), True, f)), cfg=cfg)
        case("b2a_single[%d]" % w, lambda p, mk, f=f: p.b2a_single(mk("boolean", (2,), False, F1)), cfg=cfg)
        case("mul_ab[%d]" % w, lambda p, mk, f=f: p.mul_ab(mk("arith", (2,), False, f), mk("boolean", (2,), False, F1)), cfg=cfg)

        if w == 64:
            case("ppa[%d]" % w, lambda p, mk, f=f: p.ppa(mk("boolean", (1,), False, f), mk("boolean", (1,), False, f)), cfg=cfg, twice=False)
        case("ppa-after-and[%d]" % w, lambda p, mk, f=f: p.ppa(mk("boolean", (1,), False, f), mk("boolean", (1,), False, f)), cfg=cfg, contracts=(K.and_contract,))
        case("ppa-sklansky[%d]" % w, lambda p, mk, f=f: p.ppa(mk("boolean", (1,), False, f), mk("boolean", (1,), False, f), topology="sklansky"), cfg=cfg, contracts=(K.and_contract,))
        case("a2b[%d]" % w, lambda p, mk, f=f: p.a2b(mk("arith", (2,), False, f)), cfg=cfg, contracts=(K.ppa_contract,))
        case("b2a[%d]" % w, lambda p, mk, f=f: p.b2a(mk("boolean", (2,), False, f)), cfg=cfg, contracts=(K.ppa_contract,))
        case("reveal-free-structure[%d]" % w, lambda p, mk, f=f: p.reduce_sum(p.concat([p.transpose(mk("arith", (2, 2), False, f)), mk("arith", (1, 2), False, f)], 0), 0), cfg=cfg)
        for kind in ("arith", "boolean"):
            kk = ARITH if kind == "arith" else BOOL
            for where in ("input-provider", "server0", "server1", "server2"):
                def fn(h, f=f, cfg=cfg, kk=kk, where=where, w=w):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    PV.track(h)
                    parties = {"server%d" % i: s.device_name for i, s in enumerate(prot.servers)}
                    dev = tfe.get_config().get_player(where).device_name
                    parties = {k: d for k, d in parties.items() if d != dev}
                    a = h.array("x", (2,), 64)
                    h.secrets |= {v for t in PV.flat(a) for v in T.free_vars(t)}
                    for _ in range(2):
                        prot.define_private_input(where, lambda: h.tensor(a, rtf.int64, dev), apply_scaling=False, share_type=kk, factory=f)
                    PV.check_views(h, "view", parties)
                r.case("private_input[%s,%s,%d]" % (kind, where, w), fn, real=False)

                def fn(h, f=f, cfg=cfg, kk=kk, where=where, w=w):
                    prot = L.new_prot(h, fixedpoint_config=cfg)
                    PV.track(h)
                    parties = {"server%d" % i: s.device_name for i, s in enumerate(prot.servers)}
                    if where not in parties:
                        return h.ensure_true("n/a", True)
                    x, _ = PV.private3(h, prot, "x", (2,), kk, False, f)
                    prot.define_output("result-receiver", [x], lambda v: None)
                    PV.check_views(h, "view", parties)
                if where == "server0":
                    r.case("output[%s,%d]" % (kind, w), fn, real=False)

    # ---- 64-bit only
    for i in (1, 5, 31, 62):
        case("carry[%d]" % i, lambda p, mk, i=i: p.carry(mk("boolean", (1,)), mk("boolean", (1,)), i), contracts=(K.and_contract,))
        case("bit_extract[%d]" % i, lambda p, mk, i=i: p.bit_extract(mk("arith", (2,), True), i), contracts=(K.carry_contract,))
    case("carry-no-contract", lambda p, mk: p.carry(mk("boolean", (1,)), mk("boolean", (1,)), 62), twice=False)
    case("msb", lambda p, mk: p.msb(mk("arith", (2,), True)), contracts=(K.carry_contract,))
    case("msb-no-contract", lambda p, mk: p.msb(mk("arith", (1,), True)), twice=False)
    case("b2a-single", lambda p, mk: p.b2a(mk("boolean", (1,)), 3, method="single"))
    case("mul_trunc2", lambda p, mk: p.mul_trunc2(mk("arith", (1,), True), mk("arith", (1,), True)), contracts=(K.ppa_contract,))
    case("select", lambda p, mk: p.select(mk("boolean", (2,), False, F1), mk("arith", (2,), True), mk("arith", (2,), True)))
    case("conv2d", lambda p, mk: p.conv2d(mk("arith", (1, 1, 2, 2)), mk("arith", (2, 2, 1, 2)), [1, 1], "VALID"))
    for tag, sx, sy in (("", (1, 2), (2, 1)), ("-batch", (2, 1, 2), (2, 2, 1)), ("-bcast", (2, 1, 2), (2, 1)), ("-bcasty", (1, 2), (2, 2, 1)), ("-bcast1", (1, 1, 2), (2, 2, 1))):
        case("matmul-shapes%s" % tag, lambda p, mk, sx=sx, sy=sy: p.matmul(mk("arith", sx), mk("arith", sy)))
        case("matmul-scaled%s" % tag, lambda p, mk, sx=sx, sy=sy: p.matmul(mk("arith", sx, True), mk("arith", sy, True)))
    for op in ("greater_than", "less_equal", "equal", "maximum"):
        case(op, lambda p, mk, op=op: getattr(p, op)(mk("arith", (1,), True), mk("arith", (1,), True)), contracts=(K.carry_contract,))
    case("equal_zero", lambda p, mk: p.equal_zero(mk("arith", (1,), True)), contracts=(K.ppa_contract, K.and_contract))
    case("relu", lambda p, mk: p.relu(mk("arith", (2,), True)), contracts=(K.carry_contract,))
    case("reduce_max", lambda p, mk: p.reduce_max(mk("arith", (3,), True), 0), contracts=(K.carry_contract,))
    case("sort", lambda p, mk: p.sort(mk("arith", (2,), True), 0), contracts=(K.carry_contract,), twice=False)
    case("polynomial", lambda p, mk: p.polynomial(mk("arith", (1,), True), [1.0, 2.0, 0.5]))
    case("sigmoid", lambda p, mk: p.sigmoid(mk("arith", (1,), True)), contracts=(K.carry_contract,), twice=False)
    case("maxpool2d", lambda p, mk: p.maxpool2d(mk("arith", (1, 1, 2, 2), True), (2, 2), (1, 1), "VALID"), contracts=(K.carry_contract,), twice=False)
    case("prod", lambda p, mk: p.prod(mk("arith", (3,)), 0))
    case("pow", lambda p, mk: p.pow(mk("arith", (1,)), 5))
    case("pow2_from_bits", lambda p, mk: p.pow2_from_bits(mk("boolean", (2,), False, F1)))


    # the masks of an execution are its own: the same program run again on the same shares sends other messages
    def again(h, f, kind, scaled, how):
        prot = L.new_prot(h)
        v = np.array([3, -5, 7, 2**20])
        vx, vy = [prot.define_private_variable(u, apply_scaling=scaled, share_type=kind) for u in (v, v[::-1].copy())]
        x, y = vx.read_value(), vy.read_value()
        call = {"eager": lambda: f(prot, vx.read_value(), vy.read_value()), "traced": lambda: t(x, y), "nested": lambda: tt(x, y)}[how]
        t = tfe.function(lambda a, b: f(prot, a, b))
        tt = tfe.function(lambda a, b: t(a, b))
        seen = []
        for i in range(4):
            z = call()
            # two of the six words are independent of the value: they come from the masks alone
            w = [np.array(z.unwrapped[k][0].value).tobytes() for k in range(3)]
            h.ensure_true("fresh-messages", not any(a == b for s_ in seen for a, b in zip(s_, w)), "a share is the same in two executions")
            seen.append(w)

    def loop(h):
        prot = L.new_prot(h)
        vx = prot.define_private_variable(np.array([3, -5]), apply_scaling=False)
        x = vx.read_value()
        out = []
        def body(i, a, b):
            return i + 1, b, prot.mul(vx.read_value(), x)
        def cond(i, a, b):
            return i < 3
        for _ in range(2):
            z = prot.mul(vx.read_value(), x)
            _, a, b = prot.while_loop(cond, body, [rtf.constant(0), z, z])
            out += [a, b]
        w = [np.array(z.unwrapped[0][0].value).tobytes() for z in out]
        h.ensure_true("fresh-messages", len(set(w)) == len(w), "iterations of a loop use the same masks")
    for n, f, kind, scaled in (("mul", lambda p, a, b: p.mul(a, b), ARITH, False), ("mul-scaled", lambda p, a, b: p.mul(a, b), ARITH, True), ("and", lambda p, a, b: p.and_(a, b), BOOL, False),
                               ("a2b", lambda p, a, b: p.a2b(a), ARITH, False), ("b2a", lambda p, a, b: p.b2a(a), BOOL, False), ("square", lambda p, a, b: p.square(a), ARITH, False),
                               ("mul_ab", lambda p, a, b: p.mul_ab(a, p.msb(b)), ARITH, True)):
        for how in ("eager", "traced", "nested"):
            r.case("fresh[%s,%s]" % (n, how), lambda h, f=f, kind=kind, scaled=scaled, how=how: again(h, f, kind, scaled, how), sym=False, real=True, trials=1, runs=1,
                   bounded_note="four executions of one program on the real framework")
    r.case("fresh[while_loop]", loop, sym=False, real=True, trials=1, runs=1, bounded_note="six iterations in two executions of a loop on the real framework")


if __name__ == "__main__":
    main("C12", build)
