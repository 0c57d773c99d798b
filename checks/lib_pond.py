"""Contract vocabulary for the two-server protocol."""
import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from tf_encrypted.protocol.pond import pond as P

W = 64


def new_prot(h, cls=None, **kw):
    prot = (cls or P.Pond)(**kw)
    tfe.set_protocol(prot)
    return prot


def backing(h, prot, factory, arr, dev):
    with h.at(dev):
        if type(factory).__module__.endswith("int128"):
            return factory.tensor(h.tensor128(arr, dev), encode=False)
        return factory.tensor(h.tensor(arr, factory.native_type, dev), encode=False)


def width(factory):
    return 128 if type(factory).__module__.endswith("int128") else factory.native_type.size * 8


def public(h, prot, name, shape, scaled=False, factory=None, lo=None, hi=None):
    factory = factory or prot.tensor_factory
    a = h.array(name, shape, width(factory), lo, hi)
    v = [backing(h, prot, factory, a, s.device_name) for s in (prot.server_0, prot.server_1)]
    return P.PondPublicTensor(prot, v[0], v[1], scaled), a


def private(h, prot, name, shape, scaled=False, factory=None, lo=None, hi=None):
    """a private tensor with arbitrary secret and arbitrary share split"""
    factory = factory or prot.tensor_factory
    a = h.array(name, shape, width(factory), lo, hi)
    s0 = h.array(name + "share", shape, width(factory))
    v0 = backing(h, prot, factory, s0, prot.server_0.device_name)
    v1 = backing(h, prot, factory, a - s0 if a.shape else _z(a[()] - s0[()]), prot.server_1.device_name)
    return P.PondPrivateTensor(prot, v0, v1, scaled), a


def _z(n):
    a = np.empty((), dtype=object)
    a[()] = n
    return a


def masked(h, prot, name, shape, scaled=False, factory=None, lo=None, hi=None):
    x, a = private(h, prot, name, shape, scaled, factory, lo, hi)
    return prot.mask(x), a


MAKE = dict(public=public, private=private, masked=masked)


def arr(x):
    """numpy object array helper that keeps 0-d arrays arrays"""
    return np.asarray(x, dtype=object) if isinstance(x, np.ndarray) else _z(x)


def check_public(h, label, x, want, scaled=None):
    h.ensure_true(label + ".kind", isinstance(x, P.PondPublicTensor), "result is %s" % type(x).__name__)
    if scaled is not None:
        h.ensure_true(label + ".is_scaled", bool(x.is_scaled) == scaled, "is_scaled=%s" % x.is_scaled)
    for i, v in enumerate(x.unwrapped):
        h.ensure_eq("%s.on_server%d" % (label, i), h.val(v), want)


def check_any(h, prot, label, x, want, scaled=None):
    """x reveals `want` (on both servers); its flag and shape agree"""
    want = arr(want)
    if isinstance(x, P.PondPublicTensor):
        check_public(h, label, x, want, scaled)
        placement(h, prot, label, x)
        return
    h.ensure_true(label + ".kind", isinstance(x, (P.PondPrivateTensor, P.PondMaskedTensor)), "result is %s" % type(x).__name__)
    if scaled is not None:
        h.ensure_true(label + ".is_scaled", bool(x.is_scaled) == scaled, "is_scaled=%s" % x.is_scaled)
    h.ensure_true(label + ".shape-attribute", tuple(x.shape.as_list()) == want.shape, "shape attribute %s expected %s" % (x.shape, want.shape))
    placement(h, prot, label, x)
    if isinstance(x, P.PondMaskedTensor):
        # mask invariant: alpha = secret - a on both servers, a0 + a1 = a
        a, a0, a1, al0, al1 = [h.val(v) for v in x.unwrapped]
        h.ensure_eq(label + ".mask-shares", a0 + a1, a, kind="invariant")
        h.ensure_eq(label + ".alpha0", al0 + a, want, kind="invariant")
        h.ensure_eq(label + ".alpha1", al1 + a, want, kind="invariant")
    r = prot.reveal(x)
    check_public(h, label, r, want, scaled)


def placement(h, prot, label, x):
    d = [prot.server_0.device_name, prot.server_1.device_name]
    if isinstance(x, P.PondMaskedTensor):
        a, a0, a1, al0, al1 = x.unwrapped
        ok = all(_dev(v) == e for v, e in ((a0, d[0]), (al0, d[0]), (a1, d[1]), (al1, d[1])))
        placement(h, prot, label, x.unmasked)
    else:
        ok = all(_dev(v) == e for v, e in zip(x.unwrapped, d))
    h.ensure_true(label + ".placement", ok, "share not on the server that owns it")


def _dev(v):
    t = getattr(v, "value", None)
    return getattr(t, "device", None)
