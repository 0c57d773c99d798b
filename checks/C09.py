"""Three-server comparisons, selection, maxima, sorting, rectified-linear and max pooling.

Layer 1: comparisons against the contracts of bit_extract/msb and and_ (C08).
Layer 2: selection, maximum, cmp_swap against bit_extract and mul_ab (C06).
Layer 3: reductions, arg-maximum, sorting and pooling against the contracts of layers 1 and 2.
In range: |value| < 2^(k-2) for a k-bit ring (the bound the code documents)."""
import itertools

import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_aby3 as L
from checks import aby3_contracts as K
from checks.lib_aby3 import vmap, ARITH, BOOL

A = L.A
PRIV, PUB = L.ABY3PrivateTensor, L.ABY3PublicTensor
BITS = L.factories[rtf.bool]
LOW = (K.bit_extract_contract, K.and_contract, K.mul_ab_contract)


def lim(w):
    return 2 ** (w - 2) - 1


def mk(h, w):
    return L.new_prot(h, fixedpoint_config="high" if w == 128 else "l")


def operand(h, prot, kind, name, shape, scaled, rot=0, full=False):
    w = L.width(prot.default_factory)
    lo, hi = (None, None) if full else (-lim(w), lim(w))
    f = L.public if kind == "public" else L.private
    if kind == "public":
        return f(h, prot, name, shape, scaled, lo=lo, hi=hi)
    return f(h, prot, name, shape, scaled=scaled, lo=lo, hi=hi, rot=rot)


CMP = dict(less_than=lambda a, b: T.slt(a, b), greater_than=lambda a, b: T.slt(b, a),
           less_equal=lambda a, b: T.sle(a, b), greater_equal=lambda a, b: T.sle(b, a), equal=lambda a, b: T.eq(a, b))
OPS = dict(less_than=lambda x, y: x < y, greater_than=lambda x, y: x > y, less_equal=lambda x, y: x <= y,
           greater_equal=lambda x, y: x >= y, equal=lambda x, y: x == y)


# ---- contracts of layers 1 and 2, used by layer 3 ---------------------------------
def leaves(t, seen=None):
    """values a selection term may take"""
    seen = {} if seen is None else seen
    if t.id in seen:
        return ()
    seen[t.id] = 1
    if t.op == "ite":
        return tuple(leaves(t.args[1], seen)) + tuple(leaves(t.args[2], seen))
    return (t,)


def in_range(h, what, v):
    for t in v.reshape(-1):
        for l in leaves(t):
            if T.is_const(l):   # padding: at most one step outside the range
                h.ensure_true("requires:%s in range" % what, abs(T.to_signed(l.val, t.w)) <= lim(t.w) + 1, kind="pre")
            else:
                b = T.const(lim(t.w), t.w)
                h.ensure("requires:%s in range" % what, T.conj(T.sle(T.neg(b), l), T.sle(l, b)), kind="pre")


def compare_contract(patches, h):
    for name in CMP:
        orig = getattr(A.ABY3, name)

        def stub(prot, x, y, name=name, orig=orig):
            x, y = prot.lift(x, y)
            if not (isinstance(x, PRIV) or isinstance(y, PRIV)):
                return orig(prot, x, y)
            K.need(h, "%s: arithmetic operands of one ring and one scaling" % name,
                   all(isinstance(v, PUB) or v.share_type == ARITH for v in (x, y)) and x.backing_dtype == y.backing_dtype
                   and bool(x.is_scaled) == bool(y.is_scaled))
            X, Y = K.bc(K.sec(h, x), K.sec(h, y))
            in_range(h, name, X)
            in_range(h, name, Y)
            for a, b in zip(X.reshape(-1), Y.reshape(-1)):   # nor do two paddings differ by more than the ring holds
                ca, cb = ([T.to_signed(l.val, l.w) for l in leaves(t) if T.is_const(l)] for t in (a, b))
                if ca and cb:
                    h.ensure_true("requires:%s in range" % name, max(abs(u - v) for u in ca for v in cb) < 2 ** (a.w - 1), kind="pre")
            K._note(h, "compare")
            return L.fresh_sharing(h, prot, vmap(CMP[name], X, Y), BOOL, BITS, False, "cmp")
        patches.stub(A.ABY3, name, stub)
    return ["ABY3.less_than/greater_than/less_equal/greater_equal/equal (discharged in C09 compare[...])"]


def select_contract(patches, h):
    orig = A.ABY3.select

    def select(prot, c, x, y):
        x, y = prot.lift(x, y)
        if not isinstance(c, PRIV):
            return orig(prot, c, x, y)
        K.need(h, "select: boolean choice", c.share_type == BOOL and L.width(c.backing_dtype) == 1)
        C, X, Y = K.bc(K.sec(h, c), K.sec(h, x), K.sec(h, y))
        K._note(h, "select")
        v = vmap(lambda b, a, d: T.ite(b, d, a), C, X, Y)
        if x.backing_dtype == BITS:
            return L.fresh_sharing(h, prot, v, BOOL, BITS, False, "sel")
        K.need(h, "select: operands of one scaling", bool(x.is_scaled) == bool(y.is_scaled) and x.backing_dtype == y.backing_dtype)
        return L.fresh_sharing(h, prot, v, ARITH, x.backing_dtype, x.is_scaled, "sel")
    patches.stub(A.ABY3, "select", select)
    return ["ABY3.select (discharged in C09 select[...])"]


HIGH = (compare_contract, select_contract)


# ---- specifications -----------------------------------------------------------------
def is_max(h, label, got, xs):
    """got is an upper bound of xs and one of them"""
    h.ensure(label + ".upper-bound", T.conj(*[T.sle(x, got) for x in xs]))
    h.ensure(label + ".attained", T.disj(*[T.eq(x, got) for x in xs]))


def network(outs, ins):
    """are the outputs minima/maxima of minima/maxima ... of the inputs?  -> evaluator on 0/1 vectors, or None"""
    pos = {t.id: i for i, t in enumerate(ins)}
    ok = {}

    def chk(t):
        if t.id in ok:
            return ok[t.id]
        if t.id in pos or T.is_const(t):
            ok[t.id] = True
            return True
        good = False
        if t.op == "ite" and t.args[0].op == "slt" and {t.args[0].args[0].id, t.args[0].args[1].id} == {t.args[1].id, t.args[2].id}:
            good = chk(t.args[1]) and chk(t.args[2])
        ok[t.id] = good
        return good
    return all(chk(t) for t in outs)


def kth(h, label, got, xs, k):
    """got is the k-th smallest of xs"""
    w = got.w
    cnt = 8

    def count(bs):
        return T.add(*([T.const(0, cnt)] + [T.zext(b, cnt) for b in bs]))
    h.ensure(label + ".attained", T.disj(*[T.eq(x, got) for x in xs]))
    h.ensure(label + ".at-most-k-below", T.ule(count([T.slt(x, got) for x in xs]), T.const(k, cnt)))
    h.ensure(label + ".at-least-k+1-not-above", T.ule(T.const(k + 1, cnt), count([T.sle(x, got) for x in xs])))


def is_sorted(h, label, outs, ins, acc):
    """outs is ins in (acc ? ascending : descending) order.  A network of minima and maxima is decided by the 0-1 principle
    (all 2^n boolean inputs), anything else by the solver."""
    order = list(range(len(ins))) if acc else list(range(len(ins)))[::-1]
    if h.sym and len(ins) > 4 and network(outs, ins):
        w = ins[0].w
        bad = None
        for bits in itertools.product((0, 1), repeat=len(ins)):
            env = {x: b for x, b in zip(ins, bits)}
            vals = T.evaluate(outs, env)
            if list(vals) != [sorted(bits)[k] for k in order]:
                bad = bits
                break
        h.ensure_true(label + ".zero-one-principle", bad is None, "the comparator network does not sort %s" % (bad,))
        return
    for o, k in zip(outs, order):
        kth(h, label, o, ins, k)


def build(r):
    # ---- layer 1 ---------------------------------------------------------------------
    for w in (64, 128):
        for name in CMP:
            for kx, ky in (("private", "private"), ("private", "public"), ("public", "private")):
                for scaled in ((False, True) if w == 64 else (False,)):
                    for tag, shx, shy in (("", (2,), (2,)), ("-bcast", (2, 2), (2,)), ("-bcastx", (2,), (2, 1))):
                        if tag and (scaled or w == 128):
                            continue
                        if np.broadcast_shapes(shx, shy) not in [sh for k, sh in ((kx, shx), (ky, shy)) if k == "private"] and (kx, ky) != ("private", "private"):
                            continue   # a public operand that enlarges a private one is refused by an assertion

                        def fn(h, w=w, name=name, kx=kx, ky=ky, scaled=scaled, shx=shx, shy=shy):
                            prot = mk(h, w)
                            x, X = operand(h, prot, kx, "x", shx, scaled, full=name == "equal")
                            y, Y = operand(h, prot, ky, "y", shy, scaled, rot=1, full=name == "equal")
                            X, Y = K.bc(X, Y)
                            want = vmap(CMP[name], X, Y)
                            L.check(h, prot, name, getattr(prot, name)(x, y), want, False, BOOL, BITS)
                            if not tag and not (name == "equal"):
                                L.check(h, prot, name + "-op", OPS[name](x, y), want, False, BOOL, BITS)
                        r.case("compare[%s%s,%s,%s,%s,%d]" % (name, tag, kx, ky, scaled, w), fn, contracts=LOW, trials=3 if not tag else 1)
            for scaled in (False, True):
                for c in ((0, 3, -5, 1.5) if w == 64 else (0, -5)):
                    if not scaled and c == 1.5:
                        continue

                    def fn(h, w=w, name=name, scaled=scaled, c=c):
                        prot = mk(h, w)
                        x, X = operand(h, prot, "private", "x", (2,), scaled)
                        enc = int(c * (prot.fixedpoint_config.scaling_factor if scaled else 1))
                        want = vmap(lambda a: CMP[name](a, T.const(enc, a.w)), X)
                        L.check(h, prot, name, getattr(prot, name)(x, c), want, False, BOOL, BITS)
                    r.case("compare-constant[%s,%s,%s,%d]" % (name, c, scaled, w), fn, contracts=LOW, trials=1)

        def fn(h, w=w):
            prot = mk(h, w)
            x, X = operand(h, prot, "private", "x", (2, 2), False, full=True)
            L.check(h, prot, "equal_zero", prot.equal_zero(x), vmap(lambda a: T.eq(a, T.const(0, a.w)), X), False, BOOL, BITS)
        r.case("equal_zero[%d]" % w, fn, contracts=LOW, trials=3)

        # ---- layer 2 -----------------------------------------------------------------
        for kx, ky in itertools.product(("private", "public"), repeat=2):
            for scaled in (False, True):
                for tag, shc, sh in (("", (2,), (2,)), ("-bcast", (2, 1), (2, 2))):
                    def fn(h, w=w, kx=kx, ky=ky, scaled=scaled, shc=shc, sh=sh):
                        prot = mk(h, w)
                        c, C = L.private(h, prot, "c", shc, BOOL, False, BITS)
                        x, X = operand(h, prot, kx, "x", sh, scaled, rot=1, full=True)
                        y, Y = operand(h, prot, ky, "y", sh, scaled, rot=2, full=True)
                        C, X, Y = K.bc(C, X, Y)
                        L.check(h, prot, "select", prot.select(c, x, y), vmap(lambda b, a, d: T.ite(b, d, a), C, X, Y), scaled, ARITH, prot.default_factory)
                    if not (tag and (kx, ky) == ("public", "public")):
                        r.case("select%s[%s,%s,%s,%d]" % (tag, kx, ky, scaled, w), fn, contracts=LOW, trials=1)

            def fn(h, w=w, kx=kx, ky=ky):
                prot = mk(h, w)
                c, C = L.private(h, prot, "c", (3,), BOOL, False, BITS)
                x, X = L.private(h, prot, "x", (3,), BOOL, False, BITS, rot=1) if kx == "private" else L.public(h, prot, "x", (3,), False, BITS)
                y, Y = L.private(h, prot, "y", (3,), BOOL, False, BITS, rot=2) if ky == "private" else L.public(h, prot, "y", (3,), False, BITS)
                L.check(h, prot, "select", prot.select(c, x, y), vmap(lambda b, a, d: T.ite(b, d, a), C, X, Y), False, BOOL, BITS)
            if w == 64:
                r.case("select-bits[%s,%s]" % (kx, ky), fn, contracts=LOW, trials=2)

        for op in ("maximum", "cmp_swap"):
            for kx, ky in (("private", "private"), ("private", "public"), ("public", "private")):
                for scaled in (False, True):
                    def fn(h, w=w, op=op, kx=kx, ky=ky, scaled=scaled):
                        prot = mk(h, w)
                        x, X = operand(h, prot, kx, "x", (2,), scaled)
                        y, Y = operand(h, prot, ky, "y", (2,), scaled, rot=1)
                        mx = vmap(lambda a, b: T.ite(T.slt(b, a), a, b), X, Y)
                        mn = vmap(lambda a, b: T.ite(T.slt(b, a), b, a), X, Y)
                        if op == "maximum":
                            L.check(h, prot, "maximum", prot.maximum(x, y), mx, scaled, ARITH, prot.default_factory)
                        else:
                            lo, hi = prot.cmp_swap(x, y)
                            L.check(h, prot, "larger", hi, mx, scaled, ARITH, prot.default_factory)
                            L.check(h, prot, "smaller", lo, mn, scaled, ARITH, prot.default_factory)
                    r.case("%s[%s,%s,%s,%d]" % (op, kx, ky, scaled, w), fn, contracts=LOW, trials=2)
        for scaled in (False, True):
            def fn(h, w=w, scaled=scaled):
                prot = mk(h, w)
                x, X = operand(h, prot, "private", "x", (2, 2), scaled)
                pos = vmap(lambda a: T.slt(T.const(0, a.w), a), X)
                rl = vmap(lambda a, p: T.ite(p, a, T.const(0, a.w)), X, pos)
                L.check(h, prot, "relu", prot.relu(x), rl, scaled, ARITH, prot.default_factory)
                y, c = prot.relu_with_cmp(x)
                L.check(h, prot, "relu_with_cmp", y, rl, scaled, ARITH, prot.default_factory)
                L.check(h, prot, "relu_cmp", c, pos, False, BOOL, BITS)
            r.case("relu[%s,%d]" % (scaled, w), fn, contracts=LOW, trials=2)

    # ---- layer 3 -----------------------------------------------------------------------
    def groups(X, axis):
        if axis is None:
            return {(): list(X.reshape(-1))}
        Y = np.moveaxis(X, axis, 0)
        return {i: list(Y[(slice(None),) + i]) for i in np.ndindex(*Y.shape[1:])}

    def check_max(h, label, z, X, axis, keepdims):
        want = np.amax(np.zeros(X.shape), axis=axis, keepdims=keepdims)
        got = L.secret_of(h, z) if isinstance(z, PRIV) else h.val(z.unwrapped[0])
        h.ensure_true(label + ".shape", got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
        h.ensure_true(label + ".shape-attribute", tuple(z.shape.as_list()) == want.shape, "shape %s, expected %s" % (z.shape, want.shape))
        if got.shape != want.shape:
            return None
        flat = got.reshape(-1)
        for v, (i, xs) in zip(flat, groups(X, axis).items()):
            is_max(h, label, v, xs)
        return got

    for w in (64, 128):
        for method in ("tree", "network"):
            for sh, axis in (((5,), 0), ((4,), None), ((2, 3), 0), ((2, 3), 1), ((2, 2), None), ((3, 2), -1), ((1, 2), 0), ((7,), 0), ((3,), None)):
                for keep in (False, True):
                    if w == 128 and (method == "network" or sh not in ((5,), (2, 3))):
                        continue
                    if method == "network" and len(sh) == 1 and sh[0] > 4:
                        continue

                    def fn(h, w=w, sh=sh, axis=axis, keep=keep, method=method):
                        prot = mk(h, w)
                        x, X = operand(h, prot, "private", "x", sh, True)
                        z = prot.reduce_max(x, axis, keep, method)
                        L.check(h, prot, "reduce_max", z, None, True, ARITH, prot.default_factory)
                        check_max(h, "reduce_max", z, X, axis, keep)
                    r.case("reduce_max-%s[%s,%s,%s,%d]" % (method, sh, axis, keep, w), fn, contracts=HIGH, trials=1)
            if method == "tree" and w == 64:
                for sh, axis in (((5,), 0), ((2, 3), 1), ((2, 2), None)):
                    def fn(h, sh=sh, axis=axis):
                        prot = mk(h, 64)
                        x, X = operand(h, prot, "public", "x", sh, True, full=True)
                        z = prot.reduce_max(x, axis)
                        L.check(h, prot, "reduce_max", z, None, True, L.PUBLIC)
                        check_max(h, "reduce_max", z, X, axis, False)
                    r.case("reduce_max-public[%s,%s]" % (sh, axis), fn, trials=2)

        for sh, axis in (((4,), 0), ((2, 3), 0), ((2, 3), 1), ((5,), 0), ((2, 1), 1), ((2, 2, 2), 1)):
            for keep in (False, True):
                if w == 128 and sh != (2, 3):
                    continue

                def fn(h, w=w, sh=sh, axis=axis, keep=keep):
                    prot = mk(h, w)
                    x, X = operand(h, prot, "private", "x", sh, True)
                    z, am = prot.reduce_max_with_argmax(x, axis=axis, keepdims=keep)
                    L.check(h, prot, "max", z, None, True, ARITH, prot.default_factory)
                    check_max(h, "max", z, X, axis, keep)
                    if am.share_type == L.PUBLIC:
                        got = h.val(am.unwrapped[0])
                    else:
                        L.check(h, prot, "argmax", am, None, False, BOOL, BITS)
                        got = L.secret_of(h, am)
                    h.ensure_true("argmax.shape", got.shape == X.shape, "shape %s, expected %s" % (got.shape, X.shape))
                    if got.shape != X.shape:
                        return
                    g = np.moveaxis(got, axis, 0)
                    Xm = np.moveaxis(X, axis, 0)
                    for i in np.ndindex(*g.shape[1:]):
                        hot = list(g[(slice(None),) + i])
                        xs = list(Xm[(slice(None),) + i])
                        cnt = T.add(*([T.const(0, 8)] + [T.zext(b, 8) for b in hot]))
                        h.ensure("argmax.one-hot", T.eq(cnt, T.const(1, 8)))
                        for b, v in zip(hot, xs):
                            h.ensure("argmax.marks-a-maximum", T.conj(*[T.implies(b, T.sle(u, v)) for u in xs]))
                r.case("argmax-onehot[%s,%s,%s,%d]" % (sh, axis, keep, w), fn, contracts=HIGH, trials=2)

        for sh, axis in (((4,), 0), ((2, 3), 0), ((2, 3), 1)):
            def fn(h, w=w, sh=sh, axis=axis):
                prot = mk(h, w)
                x, X = operand(h, prot, "private", "x", sh, True)
                am = prot.argmax(x, axis=axis, output_style="normal")
                sf = prot.fixedpoint_config.scaling_factor if am.is_scaled else 1
                L.check(h, prot, "argmax", am, None, None, ARITH, prot.default_factory)
                got = L.secret_of(h, am)
                want = np.amax(np.zeros(X.shape), axis=axis)
                h.ensure_true("argmax.shape", got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
                for v, (i, xs) in zip(got.reshape(-1), groups(X, axis).items()):
                    h.ensure("argmax.index-of-a-maximum", T.disj(*[T.conj(T.eq(v, T.const(k * sf, v.w)), *[T.sle(u, xk) for u in xs]) for k, xk in enumerate(xs)]))
            if w == 64 or sh == (4,):
                r.case("argmax-normal[%s,%s,%d]" % (sh, axis, w), fn, contracts=HIGH, trials=2)

        for sh, axis in (((2,), 0), ((3,), 0), ((4,), 0), ((3, 2), 0), ((2, 3), 1), ((2, 2, 2), -1), ((5,), 0), ((8,), 0), ((1,), 0), ((6, 1), 0)):
            for acc in (True, False):
                if w == 128 and sh not in ((3,), (4,)):
                    continue

                def fn(h, w=w, sh=sh, axis=axis, acc=acc):
                    prot = mk(h, w)
                    x, X = operand(h, prot, "private", "x", sh, True)
                    z = prot.sort(x, axis, acc)
                    L.check(h, prot, "sort", z, None, True, ARITH, prot.default_factory)
                    got = L.secret_of(h, z)
                    h.ensure_true("sort.shape", got.shape == X.shape and tuple(z.shape.as_list()) == X.shape, "shape %s, expected %s" % (got.shape, X.shape))
                    if got.shape != X.shape:
                        return
                    G, Y = np.moveaxis(got, axis, 0), np.moveaxis(X, axis, 0)
                    for i in np.ndindex(*Y.shape[1:]):
                        is_sorted(h, "sort", list(G[(slice(None),) + i]), list(Y[(slice(None),) + i]), acc)
                r.case("sort[%s,%s,%s,%d]" % (sh, axis, acc, w), fn, contracts=HIGH, trials=1)

    for sh, pool, st, pad in (((1, 1, 4, 4), (2, 2), (2, 2), "VALID"), ((2, 1, 3, 3), (2, 2), (1, 1), "VALID"), ((1, 2, 3, 4), (2, 3), (1, 1), "VALID"),
                              ((1, 1, 5, 4), (2, 2), (2, 1), "VALID"), ((1, 1, 3, 3), (2, 2), (2, 2), "SAME"), ((1, 2, 3, 3), (3, 3), (1, 1), "SAME"),
                              ((1, 1, 4, 3), (3, 2), (2, 1), "SAME"), ((2, 1, 2, 2), (2, 2), (1, 1), "SAME")):
        for arg in (False, True):
            def fn(h, sh=sh, pool=pool, st=st, pad=pad, arg=arg):
                prot = mk(h, 64)
                x, X = operand(h, prot, "private", "x", sh, True)
                z = prot.maxpool2d_with_argmax(x, pool, st, pad) if arg else prot.maxpool2d(x, pool, st, pad)
                am = None
                if arg:
                    z, am = z
                L.check(h, prot, "maxpool", z, None, True, ARITH, prot.default_factory)
                got = L.secret_of(h, z)
                oh, ow, top, left = window_geometry(sh[2:], pool, st, pad)
                h.ensure_true("maxpool.shape", got.shape == (sh[0], sh[1], oh, ow), "shape %s" % (got.shape,))
                if got.shape != (sh[0], sh[1], oh, ow):
                    return
                amv = None
                if arg:
                    L.check(h, prot, "argmax", am, None, False, BOOL, BITS)
                    amv = L.secret_of(h, am)
                    h.ensure_true("argmax.shape", amv.shape == got.shape + (pool[0] * pool[1],), "shape %s" % (amv.shape,))
                for b, c, i, j in np.ndindex(*got.shape):
                    xs, pos = [], []
                    for u in range(pool[0]):
                        for v in range(pool[1]):
                            y, q = i * st[0] - top + u, j * st[1] - left + v
                            ok = 0 <= y < sh[2] and 0 <= q < sh[3]
                            pos.append(X[b, c, y, q] if ok else None)
                            if ok:
                                xs.append(X[b, c, y, q])
                    is_max(h, "maxpool", got[b, c, i, j], xs)
                    if arg and amv.shape == got.shape + (len(pos),):
                        hot = list(amv[b, c, i, j])
                        h.ensure("argmax.one-hot", T.eq(T.add(*([T.const(0, 8)] + [T.zext(t, 8) for t in hot])), T.const(1, 8)))
                        for t, v in zip(hot, pos):
                            h.ensure("argmax.marks-a-maximum", T.bnot(t) if v is None else T.conj(*[T.implies(t, T.sle(u, v)) for u in xs]))
            r.case("maxpool2d%s[%s,%s,%s,%s]" % ("-argmax" if arg else "", sh, pool, st, pad), fn, contracts=HIGH, trials=1)


def window_geometry(size, pool, st, pad):
    if pad == "VALID":
        return (size[0] - pool[0]) // st[0] + 1, (size[1] - pool[1]) // st[1] + 1, 0, 0
    o = [-(-size[i] // st[i]) for i in range(2)]
    p = [max((o[i] - 1) * st[i] + pool[i] - size[i], 0) // 2 for i in range(2)]
    return o[0], o[1], p[0], p[1]


if __name__ == "__main__":
    main("C09", build)
