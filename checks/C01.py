"""Sharing, definitions, inputs, outputs, local computation: what goes in is what is revealed."""
import itertools

import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from engine.harness import main, Skip, TIER
from checks import lib_pond as LP
from checks import lib_aby3 as L3
from tf_encrypted.protocol.pond import pond as P
from tf_encrypted.protocol.securenn import securenn as SN
from tf_encrypted.tensor import factories

SHAPES = ((), (2,), (2, 2))
CONSTS = {64: [0, 1, -1, 2**63 - 1, -2**63, 12345678901, -7], 32: [0, 1, -1, 2**31 - 1, -2**31, 77], 8: [0, 1, -1, 127, -128], 16: [0, 1, -1, 2**15 - 1, -2**15],
          128: [0, 1, -1, 2**63 - 1, -2**63, 12345678901, -7], 1: [0, 1]}


def words(vals, w):
    a = np.empty(np.shape(vals), dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = T.const(int(np.asarray(vals, dtype=object)[i]), w)
    return a


def pond_like(r, cls, tag):
    for shape in SHAPES:
        def mk(h, name="x", shape=shape):
            a = h.array(name, shape, 64)
            return a, h.tensor(a, rtf.int64)
        def share(h, mk=mk, cls=cls):
            prot = LP.new_prot(h, cls)
            a, t = mk(h)
            w = prot.tensor_factory.tensor(t)
            s0, s1 = prot._share(w)
            h.ensure_eq("reconstruct", h.val(prot._reconstruct(s0, s1)), a)
            x = prot._share_and_wrap(w, False)
            LP.check_any(h, prot, "shared", x, a, False)
        r.case("%s.share%s" % (tag, shape), share)
        for sc in (False, True):
            def privvar(h, mk=mk, cls=cls):
                prot = LP.new_prot(h, cls)
                a, t = mk(h)
                LP.check_any(h, prot, "variable", prot.define_private_variable(t, apply_scaling=False), a, False)
            if not sc:
                r.case("%s.private_variable[tf]%s" % (tag, shape), privvar)
            for src in ("public", "private"):
                def privvar2(h, cls=cls, shape=shape, sc=sc, src=src):
                    prot = LP.new_prot(h, cls)
                    x, a = LP.MAKE[src](h, prot, "x", shape, sc)
                    LP.check_any(h, prot, "variable", prot.define_private_variable(x), a, sc)
                r.case("%s.private_variable[%s,%s]%s" % (tag, src, sc, shape), privvar2)
            def pubvar2(h, cls=cls, shape=shape, sc=sc):
                prot = LP.new_prot(h, cls)
                x, a = LP.public(h, prot, "x", shape, sc)
                LP.check_any(h, prot, "variable", prot.define_public_variable(x), a, sc)
            r.case("%s.public_variable[public,%s]%s" % (tag, sc, shape), pubvar2)
        def pubvar(h, mk=mk, cls=cls):
            prot = LP.new_prot(h, cls)
            a, t = mk(h)
            LP.check_any(h, prot, "variable", prot.define_public_variable(t, apply_scaling=False), a, False)
        r.case("%s.public_variable[tf]%s" % (tag, shape), pubvar)
        for masked in (False, True):
            def privin(h, mk=mk, cls=cls, masked=masked):
                prot = LP.new_prot(h, cls)
                a, t = mk(h)
                where = []
                def give():
                    v = rtf.identity(t) if not h.sym else S.FACADE.identity(t)
                    where.append(v.device)
                    return v
                x = prot.define_private_input("input-provider", give, apply_scaling=False, masked=masked)
                h.ensure_true("runs-at-the-player", where == [tfe.get_config().get_player("input-provider").device_name], "input function ran on %s" % where)
                LP.check_any(h, prot, "input", x, a, False)
                h.ensure_true("masked-as-asked", isinstance(x, P.PondMaskedTensor) == masked)
            r.case("%s.private_input[masked=%s]%s" % (tag, masked, shape), privin)
        def pubin(h, mk=mk, cls=cls):
            prot = LP.new_prot(h, cls)
            a, t = mk(h)
            LP.check_any(h, prot, "input", prot.define_public_input("input-provider", lambda: t, apply_scaling=False), a, False)
        r.case("%s.public_input%s" % (tag, shape), pubin)
        for src in ("public", "private", "masked"):
            def out(h, cls=cls, shape=shape, src=src):
                prot = LP.new_prot(h, cls)
                b = prot.fixedpoint_config.bound_single_precision
                x, a = LP.MAKE[src](h, prot, "x", shape, False, lo=-b, hi=b)
                got = []
                def rec(v):
                    got.append(v)
                prot.define_output("result-receiver", x, rec)
                h.ensure_true("called-once", len(got) == 1)
                h.ensure_eq("value", h.terms(got[0]), a)
            r.case("%s.output[%s]%s" % (tag, src, shape), out)
            def local(h, cls=cls, shape=shape, src=src):
                prot = LP.new_prot(h, cls)
                b = prot.fixedpoint_config.bound_single_precision
                x, a = LP.MAKE[src](h, prot, "x", shape, False, lo=-b, hi=b)
                x2, a2 = LP.private(h, prot, "z", shape, False, lo=-b, hi=b)
                y = prot.define_local_computation("alice", lambda u, v, k: [u * 3 - v, v + k], [x, x2, 5], apply_scaling=False)
                LP.check_any(h, prot, "first", y[0], LP.arr(a * T.const(3, 64) - a2 if shape else a[()] * 3 - a2[()]), False)
                LP.check_any(h, prot, "second", y[1], LP.arr(a2 + T.const(5, 64) if shape else a2[()] + 5), False)
            r.case("%s.local_computation[%s]%s" % (tag, src, shape), local)
    def deco(h, cls=cls):
        prot = LP.new_prot(h, cls)
        a = h.array("x", (2,), 64)
        t = h.tensor(a, rtf.int64)
        class Owner:
            player_name = "bob"
            @tfe.local_computation("alice", apply_scaling=False)
            def fixed(self): return t
            @tfe.local_computation(apply_scaling=False)
            def own(self): return t + 1
        o = Owner()
        LP.check_any(h, prot, "fixed", o.fixed(), a, False)
        LP.check_any(h, prot, "own", o.own(), a + T.const(1, 64), False)
    r.case("%s.local_computation-decorator" % tag, deco)
    for i, v in enumerate([CONSTS[64]] + CONSTS[64]):
        def const(h, cls=cls, v=v):
            prot = LP.new_prot(h, cls)
            v = np.array(v, dtype=np.int64)
            LP.check_any(h, prot, "constant", prot.define_constant(v, apply_scaling=False), words(v, 64), False)
            LP.check_any(h, prot, "public_variable", prot.define_public_variable(v, apply_scaling=False), words(v, 64), False)
            LP.check_any(h, prot, "private_variable", prot.define_private_variable(v, apply_scaling=False), words(v, 64), False)
        r.case("%s.host-arrays%d" % (tag, i), const)
    def tensor(h, cls=cls):
        prot = LP.new_prot(h, cls)
        a = h.array("x", (2,), 64)
        for nm, mkc in (("private_tensor", getattr(prot, "define_private_tensor", None)), ("public_tensor", getattr(prot, "define_public_tensor", None))):
            if mkc is not None:
                LP.check_any(h, prot, nm, mkc(h.tensor(a, rtf.int64), apply_scaling=False), a, False)
    if hasattr(cls, "define_private_tensor"):
        r.case("%s.tensors" % tag, tensor)


def aby3(r):
    KINDS = (L3.ARITH, L3.BOOL)
    for bits, kind in itertools.product((64, 32, 16, 8, 128, 0), KINDS):
        f = factories[bits]
        w = L3.width(f)
        nat = rtf.bool if bits == 0 else rtf.int64 if bits == 128 else f.native_type
        if bits == 0 and kind == L3.ARITH:
            continue
        for shape in (SHAPES if bits in (64, 128) else SHAPES[1:2]):
            tag = "aby3[%s,%s]%s" % (bits, kind, shape)
            def mk(h, name="x", shape=shape, nat=nat, w=w):
                # the framework hands integers to the 128-bit ring through double precision
                lim = dict(lo=-2**53, hi=2**53) if w == 128 else {}
                a = h.array(name, shape, S.width(nat), **lim)
                want = a
                if w == 128:
                    want = np.empty(shape, dtype=object)
                    for i in np.ndindex(*shape):
                        want[i] = T.sext(a[i], 128)
                return want, h.tensor(a, nat)
            def share(h, f=f, kind=kind, shape=shape):
                prot = L3.new_prot(h)
                a = h.array("x", shape, L3.width(f))
                w_ = L3.backing(h, f, a, "")
                x = prot._share_and_wrap(w_, False, kind)
                L3.check(h, prot, "shared", x, a, False, kind, f)
                for i, pl in enumerate(list(prot.servers) + [tfe.get_config().get_player("alice")]):
                    h.ensure_eq("reconstruct_for_%d" % i, h.val(prot._reconstruct(x.unwrapped, pl, kind)), a)
            r.case(tag + ".share", share)
            def var(h, f=f, kind=kind, mk=mk):
                prot = L3.new_prot(h)
                a, t = mk(h)
                L3.check(h, prot, "variable", prot.define_private_variable(t, apply_scaling=False, share_type=kind, factory=f), a, False, kind, f)
            r.case(tag + ".private_variable[tf]", var)
            def privin(h, f=f, kind=kind, mk=mk):
                prot = L3.new_prot(h)
                a, t = mk(h)
                where = []
                def give():
                    v = rtf.identity(t) if not h.sym else S.FACADE.identity(t)
                    where.append(v.device)
                    return v
                x = prot.define_private_input("input-provider", give, apply_scaling=False, share_type=kind, factory=f)
                h.ensure_true("runs-at-the-player", where == [tfe.get_config().get_player("input-provider").device_name], "input function ran on %s" % where)
                L3.check(h, prot, "input", x, a, False, kind, f)
            r.case(tag + ".private_input", privin)
            if kind == L3.ARITH or bits == 0:
                def pubin(h, f=f, mk=mk):
                    prot = L3.new_prot(h)
                    a, t = mk(h)
                    L3.check(h, prot, "input", prot.define_public_input("input-provider", lambda: t, apply_scaling=False, factory=f), a, False, L3.PUBLIC, f)
                    L3.check(h, prot, "variable", prot.define_public_variable(t, apply_scaling=False, factory=f), a, False, L3.PUBLIC, f)
                    L3.check(h, prot, "constant", prot.define_constant(t, apply_scaling=False, factory=f), a, False, L3.PUBLIC, f)
                r.case(tag + ".public", pubin)
            for sc in (False, True):
                def var2(h, f=f, kind=kind, shape=shape, sc=sc):
                    prot = L3.new_prot(h)
                    x, a = L3.private(h, prot, "x", shape, kind, sc, f)
                    L3.check(h, prot, "variable", prot.define_private_variable(x), a, sc, kind, f)
                r.case(tag + ".private_variable[private,%s]" % sc, var2)
                def var3(h, f=f, shape=shape, sc=sc):
                    prot = L3.new_prot(h)
                    x, a = L3.public(h, prot, "x", shape, sc, f)
                    L3.check(h, prot, "variable", prot.define_public_variable(x), a, sc, L3.PUBLIC, f)
                if kind == L3.ARITH:
                    r.case(tag + ".public_variable[public,%s]" % sc, var3)
            for pl in ("result-receiver", "server0", "server1", "server2"):
                def out(h, f=f, kind=kind, shape=shape, pl=pl, nat=nat, w=w):
                    prot = L3.new_prot(h)
                    lim = dict(lo=-2**53, hi=2**53) if w == 128 else {}
                    x, a = L3.private(h, prot, "x", shape, kind, False, f, **lim)
                    y, b = L3.public(h, prot, "y", shape, False, f, **lim)
                    got = []
                    def rec(u, v, k):
                        got.append((u, v, k))
                    prot.define_output(pl, [x, y, 3], rec)
                    h.ensure_true("called-once", len(got) == 1 and got[0][2] == 3)
                    fix = (lambda z: np.vectorize(T.i2r, otypes=[object])(z)) if w == 128 else (lambda z: z)
                    for nm, g, want in (("private", got[0][0], a), ("public", got[0][1], b)):
                        h.ensure_eq(nm, h.terms(g), fix(want))
                if shape != () or pl == "result-receiver":
                    r.case(tag + ".output[%s]" % pl, out)
        vals = CONSTS[w]
        def const(h, f=f, w=w, kind=kind, vals=vals, bits=bits):
            prot = L3.new_prot(h)
            v = np.array(vals, dtype=np.bool_ if bits == 0 else np.int64)
            if kind == L3.ARITH or bits == 0:
                L3.check(h, prot, "constant", prot.define_constant(v, apply_scaling=False, factory=f), words(v, w), False, L3.PUBLIC, f)
                L3.check(h, prot, "public_variable", prot.define_public_variable(v, apply_scaling=False, factory=f), words(v, w), False, L3.PUBLIC, f)
            L3.check(h, prot, "private_variable", prot.define_private_variable(v, apply_scaling=False, share_type=kind, factory=f), words(v, w), False, kind, f)
        r.case("aby3[%s,%s].host-arrays" % (bits, kind), const)
    def local(h, kind):
        prot = L3.new_prot(h)
        x, a = L3.private(h, prot, "x", (2,), L3.BOOL)
        z, b = L3.private(h, prot, "z", (2,), L3.ARITH)
        p, c = L3.public(h, prot, "p", (2,))
        y = prot.define_local_computation("alice", lambda u, v, q, k: [u * 3 - v, v + q * k], [x, z, p, 5], apply_scaling=False, share_type=kind)
        L3.check(h, prot, "first", y[0], a * T.const(3, 64) - b, False, kind)
        L3.check(h, prot, "second", y[1], b + c * T.const(5, 64), False, kind)
        h.ensure_true("none", prot.define_local_computation("alice", lambda: None) is None)
    for k in KINDS:
        r.case("aby3.local_computation[%s]" % k, lambda h, k=k: local(h, k))


def build(r):
    pond_like(r, P.Pond, "pond")
    pond_like(r, SN.SecureNN, "securenn")
    aby3(r)


if __name__ == "__main__":
    main("C01", build)
