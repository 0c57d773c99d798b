"""Contract vocabulary and callee contracts of the comparison extension (SecureNN)."""
import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from tf_encrypted.protocol.pond import pond as P
from tf_encrypted.protocol.securenn import securenn as N
from tf_encrypted.protocol.securenn import odd_tensor as O
from checks import lib_pond as L

W = 64
PRIME = 107
ODD = 2 ** 64 - 1


def new_prot(h, **kw):
    return L.new_prot(h, cls=N.SecureNN, **kw)


def vmap(f, *xs):
    return S._vec(f)(*[L.arr(x) for x in xs])


def mod(t, p):
    return T.divop("floormod", t, T.const(p, t.w))


def bits_of(a):
    """array of words -> array of bits (least significant first), as words"""
    a = L.arr(a)
    out = np.empty(a.shape + (W,), dtype=object)
    for i in np.ndindex(*a.shape):
        for j in range(W):
            out[i + (j,)] = T.band(T.lshr(a[i], j), T.const(1, W))
    return out


def word(b):
    """bit (width 1) -> word"""
    return T.zext(b, W)


def wrap_private(h, prot, factory, v0, v1, scaled=False):
    t0 = L.backing(h, prot, factory, v0, prot.server_0.device_name) if factory is not prot.odd_factory else odd(h, prot, v0, prot.server_0.device_name)
    t1 = L.backing(h, prot, factory, v1, prot.server_1.device_name) if factory is not prot.odd_factory else odd(h, prot, v1, prot.server_1.device_name)
    return P.PondPrivateTensor(prot, t0, t1, scaled)


def odd(h, prot, a, dev):
    with h.at(dev):
        return prot.odd_factory.tensor(h.tensor(a, rtf.int64, dev))


def share_prime(h, prot, name, a):
    """fresh sharing over the prime of residues a"""
    a = L.arr(a)
    s = h.array(name, a.shape, W, 0, PRIME - 1)
    return wrap_private(h, prot, prot.prime_factory, s, vmap(lambda v, u: mod(T.sub(v, u), PRIME), a, s))


def fresh_private(h, prot, a, scaled=False, prefix="out"):
    """an arbitrary sharing of a (what a callee's contract promises)"""
    a = L.arr(a)
    base = S.CTX.fresh(prefix) if h.sym else prefix
    s = h.array(base, a.shape, W)
    return wrap_private(h, prot, prot.tensor_factory, s, vmap(T.sub, a, s), scaled)


def public_of(h, prot, factory, a, scaled=False):
    v = [L.backing(h, prot, factory, a, s.device_name) for s in (prot.server_0, prot.server_1)]
    return P.PondPublicTensor(prot, v[0], v[1], scaled)


def secret(h, x):
    if isinstance(x, P.PondMaskedTensor):
        x = x.unmasked
    if isinstance(x, P.PondPublicTensor):
        return h.val(x.value_on_0)
    a, b = h.val(x.share0), h.val(x.share1)
    m = x.backing_dtype.modulus
    if m == PRIME:
        return vmap(lambda u, v: mod(T.add(u, v), PRIME), a, b)
    if m == ODD:
        return vmap(odd_add, a, b)
    return vmap(T.add, a, b)


def odd_add(x, y):
    """(x + y) mod 2^64-1 of canonical residues"""
    return T.add(x, y, T.zext(T.ult(T.sub(T.const(-2, W), y), x), W))


def odd_sub(x, y):
    return T.sub(T.sub(x, y), T.zext(T.ult(x, y), W))


def canonical(x):
    return T.bnot(T.eq(x, T.const(-1, W)))


def need(h, what, cond):
    h.ensure_true("requires:" + what, cond, "precondition of a callee: " + what, kind="pre")


def note(h, name):
    if not hasattr(h, "stub_calls"):
        h.stub_calls = {}
    h.stub_calls[name] = h.stub_calls.get(name, 0) + 1


# ------------------------------------------------------------------ callee contracts
def private_compare_contract(patches, h):
    def stub(prot, x_bits, r, beta):
        need(h, "private_compare: operands over the prime", x_bits.backing_dtype == prot.prime_factory and beta.backing_dtype == prot.prime_factory
             and not r.is_scaled and not x_bits.is_scaled and not beta.is_scaled)
        note(h, "private_compare")
        bits = secret(h, x_bits)
        R0, R1 = h.val(r.value_on_0), h.val(r.value_on_1)
        B0, B1 = h.val(beta.value_on_0), h.val(beta.value_on_1)
        h.ensure_eq("requires:private_compare: both servers hold the same bound", R0, R1, kind="pre")
        h.ensure_eq("requires:private_compare: both servers hold the same blinding bit", B0, B1, kind="pre")
        need(h, "private_compare: shapes", bits.shape == R0.shape + (W,) and B0.shape == R0.shape)
        out = np.empty(R0.shape, dtype=object)
        for i in np.ndindex(*R0.shape):
            for j in range(W):
                h.ensure("requires:private_compare: bits", T.ult(bits[i + (j,)], T.const(2, W)), kind="pre")
            h.ensure("requires:private_compare: blinding bit", T.ult(B0[i], T.const(2, W)), kind="pre")
            x = whole(bits[i])
            out[i] = word(T.xor(T.ult(R0[i], x), T.trunc(B0[i], 1)))
        return fresh_private(h, prot, out, False, "pc")
    patches.stub(N, "_private_compare", stub)
    return ["_private_compare (discharged in C10 private_compare[...])"]


def whole(bits):
    """the word with these bits; the word they were taken from when that is syntactically so"""
    src = None
    for j, b in enumerate(bits):
        t = b
        if t.op == "and" and any(T.is_const(a) and a.val == 1 for a in t.args):
            t = [a for a in t.args if not (T.is_const(a) and a.val == 1)][0]
            s = t.args[0] if j and t.op in ("lshr", "ashr") and t.val == j else t if not j else None
            if s is not None and (src is None or src is s):
                src = s
                continue
        src = False
        break
    if src:
        return src
    r = T.const(0, W)
    for j, b in enumerate(bits):
        r = T.add(r, T.shl(b, j))
    return r


def lsb_contract(patches, h):
    def stub(prot, x):
        need(h, "lsb: odd ring", x.backing_dtype.modulus % 2 == 1)
        note(h, "lsb")
        for v in (x.share0, x.share1):
            h.ensure("requires:lsb: canonical share", vmap(canonical, h.val(v)), kind="pre")
        return fresh_private(h, prot, vmap(lambda t: T.band(t, T.const(1, W)), secret(h, x)), False, "lsb")
    patches.stub(N, "_lsb_private", stub)
    return ["_lsb_private (discharged in C10 lsb[...])"]


def odd_arith_contract(patches, h):
    f = O.oddint64_factory
    t = f.tensor(S.FACADE.constant([0], dtype=rtf.int64)) if h.sym else None
    if t is None:
        return []
    dense = type(t)
    base = [c for c in dense.__mro__ if "add" in vars(c)][0]

    def mk(name, fn):
        def stub(self, other):
            if not isinstance(other, base):
                return orig(self, other)
            note(h, "odd " + name)
            x, y = self.value, other.value
            a, b = h.terms(x), h.terms(y)
            for v in (a, b):
                h.ensure("requires:odd %s: canonical operand" % name, vmap(canonical, v), kind="pre")
            a, b = np.broadcast_arrays(a, b)
            S.use("odd_" + name, [x, y])
            return dense(S.SymTensor(rtf.int64, arr=vmap(fn, a, b)))
        orig = vars(base)[name]
        patches.stub(base, name, stub)
    mk("add", odd_add)
    mk("sub", odd_sub)
    return ["OddTensor.add/sub (discharged in C10 odd[...])"]


def msb_contract(patches, h):
    """sign of a ring element; the smallest element is out of range"""
    def stub(prot, x):
        need(h, "msb: default ring", x.backing_dtype is prot.tensor_factory)
        note(h, "msb")
        s = secret(h, x)
        return fresh_private(h, prot, vmap(lambda t: word(T.slt(t, T.const(0, W))), s), False, "msb")
    patches.stub(N, "_msb_private", stub)
    return ["_msb_private (discharged in C10 msb[...])"]


def bit_operand(h, prot, kind, name, shape):
    """a shared (public, masked) bit over the default ring -> (tensor, array of one-bit terms)"""
    b = h.array(name, shape, 1)
    w = vmap(word, b)
    if kind == "public":
        return public_of(h, prot, prot.tensor_factory, w), b
    s = h.array(name + "share", L.arr(w).shape, W)
    x = wrap_private(h, prot, prot.tensor_factory, s, vmap(T.sub, w, s))
    return (prot.mask(x) if kind == "masked" else x), b


LIM = 2 ** 62 - 1
CMPS = dict(less=lambda a, b: T.slt(a, b), greater=lambda a, b: T.slt(b, a), less_equal=lambda a, b: T.sle(a, b), greater_equal=lambda a, b: T.sle(b, a))


def compare_contract(patches, h):
    from checks import C09 as Q
    for name in CMPS:
        def stub(prot, x, y, name=name):
            x, y = prot.lift(x, y)
            need(h, "%s: operands of one ring and scaling" % name, x.backing_dtype is y.backing_dtype and bool(x.is_scaled) == bool(y.is_scaled))
            X, Y = np.broadcast_arrays(secret(h, x), secret(h, y))
            Q.in_range(h, name, X)
            Q.in_range(h, name, Y)
            note(h, name)
            v = vmap(lambda a, b: word(CMPS[name](a, b)), X, Y)
            if all(isinstance(t, P.PondPublicTensor) for t in (x, y)):
                return public_of(h, prot, prot.tensor_factory, v)
            return fresh_private(h, prot, v, False, "cmp")
        patches.stub(N.SecureNN, name, stub)
    return ["SecureNN.less/greater/less_equal/greater_equal (discharged in C10 compare[...])"]


def select_contract(patches, h):
    def stub(prot, c, x, y):
        x, y = prot.lift(x, y)
        need(h, "select: an unscaled choice, operands of one scaling", not c.is_scaled and bool(x.is_scaled) == bool(y.is_scaled))
        C, X, Y = np.broadcast_arrays(secret(h, c), secret(h, x), secret(h, y))
        for t in C.reshape(-1):
            h.ensure("requires:select: bit", T.ult(t, T.const(2, W)), kind="pre")
        note(h, "select")
        v = vmap(lambda b, a, d: T.ite(T.trunc(b, 1), d, a), C, X, Y)
        if all(isinstance(t, P.PondPublicTensor) for t in (c, x, y)):
            return public_of(h, prot, prot.tensor_factory, v, x.is_scaled)
        return fresh_private(h, prot, v, x.is_scaled, "sel")
    patches.stub(N.SecureNN, "select", stub)
    return ["SecureNN.select (discharged in C10 select[...])"]



def avoid(h, words):
    """leave out the draws (at most a few of 2^64 for each ring word drawn so far) that hit one of `words` or its negative"""
    if not h.sym:
        return
    vs = [v for r in S.CTX.rand for v in r["vars"]] + [v for l in S._seeded.values() for v in l]
    for v in vs:
        if v.w == W and v not in T.RANGES:
            for t in words:
                h.assume(T.bnot(T.eq(v, t)))
                h.assume(T.bnot(T.eq(v, T.neg(t))))
