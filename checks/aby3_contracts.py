"""Callee contracts of the three-server protocol: what a caller may assume, stated on secrets.
Each is an `inst(patches, h)` that installs the contract in place of the callee; it returns the name recorded as assumed."""
import numpy as np

from engine import symtf as S
from engine import term as T
from checks import lib_aby3 as L
from checks.lib_aby3 import vmap, ARITH, BOOL

A = L.A
PRIV, PUB = L.ABY3PrivateTensor, L.ABY3PublicTensor


def sec(h, x):
    return L.secret_of(h, x) if isinstance(x, PRIV) else h.val(x.unwrapped[0])


def bc(*xs):
    return np.broadcast_arrays(*[L.arr(x) for x in xs])


def need(h, what, cond):
    h.ensure_true("requires:" + what, cond, "precondition of a callee: " + what, kind="pre")


def _note(h, name):
    if not hasattr(h, "stub_calls"):
        h.stub_calls = {}
    h.stub_calls[name] = h.stub_calls.get(name, 0) + 1


def and_contract(patches, h):
    orig = A.ABY3.and_

    def and_(prot, x, y):
        x, y = prot.lift(x, y)
        if not (isinstance(x, PRIV) and isinstance(y, PRIV)):
            return orig(prot, x, y)
        need(h, "and: boolean sharing over one ring", x.share_type == BOOL and y.share_type == BOOL and x.backing_dtype == y.backing_dtype)
        _note(h, "and_")
        X, Y = bc(sec(h, x), sec(h, y))
        return L.fresh_sharing(h, prot, vmap(T.band, X, Y), BOOL, x.backing_dtype, x.is_scaled, "and")
    patches.stub(A.ABY3, "and_", and_)
    return ["ABY3.and_ on private operands (discharged in C08 and[...])"]


def ppa_contract(patches, h):
    orig = A.ABY3.ppa

    def ppa(prot, x, y, n_bits=None, topology="kogge_stone"):
        x, y = prot.lift(x, y)
        if not (isinstance(x, PRIV) and isinstance(y, PRIV)) or topology != "kogge_stone":
            return orig(prot, x, y, n_bits, topology)
        need(h, "ppa: boolean sharing over one ring", x.share_type == BOOL and y.share_type == BOOL and x.backing_dtype == y.backing_dtype)
        _note(h, "ppa")
        X, Y = bc(sec(h, x), sec(h, y))
        w = L.width(x.backing_dtype)
        k = w if n_bits is None else n_bits
        v = vmap(lambda a, b: low(T.add(a, b), k), X, Y)
        return L.fresh_sharing(h, prot, v, BOOL, x.backing_dtype, x.is_scaled, "ppa")
    patches.stub(A.ABY3, "ppa", ppa)
    return ["ABY3.ppa (discharged in C08 ppa[...])"]


def low(x, k):
    return x if k == x.w else T.zext(T.trunc(x, k), x.w)


def bit(x, i):
    return T.trunc(T.lshr(x, i), 1)


def carry_bit(x, y, pos):
    """carry out of bit position pos of x + y"""
    w = pos + 2
    return bit(T.add(T.zext(T.trunc(x, pos + 1), w), T.zext(T.trunc(y, pos + 1), w)), pos + 1)


def carry_contract(patches, h):
    orig = A.ABY3.carry

    def carry(prot, x, y, pos=None):
        x, y = prot.lift(x, y)
        w = L.width(x.backing_dtype)
        pos = w - 1 if pos is None else pos
        if pos < 0:
            return orig(prot, x, y, pos)
        need(h, "carry: boolean sharing over one ring", x.backing_dtype == y.backing_dtype)
        _note(h, "carry")
        X, Y = bc(sec(h, x), sec(h, y))
        # every single share is 0 or 1 (a later cast to the boolean ring tests shares for zero)
        return L.fresh_sharing(h, prot, vmap(lambda a, b: carry_bit(a, b, pos), X, Y), BOOL, L.factories[1], False, "carry", bits=True)
    patches.stub(A.ABY3, "carry", carry)
    return ["ABY3.carry (discharged in C08 carry[...])"]


def bit_extract_contract(patches, h):
    """bit i of the value, shared over the boolean ring, unscaled.  Replaces both the method and msb."""
    def one(prot, x, i):
        need(h, "bit_extract: private operand", isinstance(x, PRIV))
        _note(h, "bit_extract")
        v = vmap(lambda a: bit(a, i), sec(h, x))
        return L.fresh_sharing(h, prot, v, BOOL, L.factories[L.rtf.bool], False, "bit")

    def msb(prot, x):
        x = prot.lift(x)
        return one(prot, x, L.width(x.backing_dtype) - 1)
    patches.stub(A.ABY3, "bit_extract", lambda prot, x, i: one(prot, x, i))
    patches.stub(A.ABY3, "msb", msb)
    patches.stub(A, "_msb_private", lambda prot, x: msb(prot, x))
    patches.stub(A, "_bit_extract_private", lambda prot, x, i: one(prot, x, i))
    return ["ABY3.bit_extract, ABY3.msb (discharged in C08)"]


def mul_ab_contract(patches, h):
    def mul_ab(prot, x, y):
        x = prot.lift(x)
        need(h, "mul_ab: boolean second operand over the boolean ring", isinstance(y, PRIV) and y.share_type == BOOL and L.width(y.backing_dtype) == 1)
        need(h, "mul_ab: arithmetic first operand", isinstance(x, PUB) or x.share_type == ARITH)
        _note(h, "mul_ab")
        X, B = bc(sec(h, x), sec(h, y))
        v = vmap(lambda a, b: T.ite(b, a, T.const(0, a.w)), X, B)
        return L.fresh_sharing(h, prot, v, ARITH, x.backing_dtype, x.is_scaled, "mulab")
    patches.stub(A.ABY3, "mul_ab", mul_ab)
    return ["ABY3.mul_ab (discharged in C06)"]


def b2a_contract(patches, h):
    def b2a(prot, x, nbits=None, method="ppa"):
        need(h, "b2a: boolean sharing", x.share_type == BOOL)
        _note(h, "b2a")
        w = L.width(x.backing_dtype)
        k = w if nbits is None else nbits
        return L.fresh_sharing(h, prot, vmap(lambda a: low(a, k), sec(h, x)), ARITH, x.backing_dtype, x.is_scaled, "b2a")
    patches.stub(A.ABY3, "b2a", b2a)
    return ["ABY3.b2a (discharged in C08)"]


def b2a_single_contract(patches, h):
    def b2a_single(prot, x):
        need(h, "b2a_single: one-bit boolean sharing", x.share_type == BOOL and L.width(x.backing_dtype) == 1)
        _note(h, "b2a_single")
        f = prot.default_factory
        return L.fresh_sharing(h, prot, vmap(lambda a: T.zext(a, L.width(f)), sec(h, x)), ARITH, f, False, "b2a1")
    patches.stub(A.ABY3, "b2a_single", b2a_single)
    return ["ABY3.b2a_single (discharged in C08)"]


def a2b_contract(patches, h):
    def a2b(prot, x, nbits=None):
        need(h, "a2b: arithmetic sharing", x.share_type == ARITH)
        _note(h, "a2b")
        w = L.width(x.backing_dtype)
        k = w if nbits is None else nbits
        return L.fresh_sharing(h, prot, vmap(lambda a: low(a, k), sec(h, x)), BOOL, x.backing_dtype, x.is_scaled, "a2b")
    patches.stub(A.ABY3, "a2b", a2b)
    return ["ABY3.a2b (discharged in C08)"]


def mul_contract(patches, h):
    """unscaled or once-scaled products of private operands"""
    orig = A.ABY3.mul

    def mul(prot, x, y):
        if isinstance(x, PRIV) and isinstance(y, PRIV) and not (x.is_scaled and y.is_scaled) and L.width(y.backing_dtype) != 1:
            need(h, "mul: arithmetic sharing over one ring", x.share_type == ARITH and y.share_type == ARITH and x.backing_dtype == y.backing_dtype)
            _note(h, "mul")
            X, Y = bc(sec(h, x), sec(h, y))
            return L.fresh_sharing(h, prot, vmap(T.mul, X, Y), ARITH, x.backing_dtype, x.is_scaled or y.is_scaled, "mul")
        return orig(prot, x, y)
    patches.stub(A.ABY3, "mul", mul)
    return ["ABY3.mul on private operands (discharged in C06)"]
