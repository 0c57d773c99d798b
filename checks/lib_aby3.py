"""Contract vocabulary for the three-server protocol."""
import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from tf_encrypted.protocol.aby3 import aby3 as A
from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor, ABY3PublicTensor, ShareType
from tf_encrypted.tensor import factories

ARITH, BOOL, PUBLIC = ShareType.ARITHMETIC, ShareType.BOOLEAN, ShareType.PUBLIC


def new_prot(h, **kw):
    prot = A.ABY3(**kw)
    tfe.set_protocol(prot)
    return prot


def width(factory):
    m = type(factory).__module__
    if m.endswith("int128"):
        return 128
    return S.width(factory.native_type)


def z0(n):
    a = np.empty((), dtype=object)
    a[()] = n
    return a


def arr(x):
    return x if isinstance(x, np.ndarray) else z0(x)


def backing(h, factory, a, dev):
    with h.at(dev):
        if width(factory) == 128:
            return factory.tensor(h.tensor128(a, dev), encode=False)
        return factory.tensor(h.tensor(a, factory.native_type, dev), encode=False)


def _bin(f, *xs):
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*xs[0].shape):
        v = xs[0][i]
        for y in xs[1:]:
            v = f(v, y[i])
        out[i] = v
    return out


def make_shares(h, prot, s, factory, kind, scaled):
    sh = []
    for i in range(3):
        d = prot.servers[i].device_name
        sh.append([backing(h, factory, s[i], d), backing(h, factory, s[(i + 1) % 3], d)])
    return ABY3PrivateTensor(prot, sh, scaled, kind)


def split(h, name, secret, kind, w):
    s0 = h.array(name + "_s0", secret.shape, w)
    s1 = h.array(name + "_s1", secret.shape, w)
    s2 = _bin(T.sub if kind == ARITH else T.xor, secret, s0, s1)
    return [s0, s1, s2]


def private(h, prot, name, shape, kind=ARITH, scaled=False, factory=None, lo=None, hi=None, rot=0, values=None):
    """arbitrary secret, arbitrary replicated sharing of it"""
    factory = factory or prot.default_factory
    w = width(factory)
    a = values if values is not None else h.array(name, shape, w, lo, hi)
    s = split(h, name, a, kind, w)
    s = s[rot:] + s[:rot]
    return make_shares(h, prot, s, factory, kind, scaled), a


def public(h, prot, name, shape, scaled=False, factory=None, lo=None, hi=None, values=None):
    factory = factory or prot.default_factory
    a = values if values is not None else h.array(name, shape, width(factory), lo, hi)
    v = [backing(h, factory, a, s.device_name) for s in prot.servers]
    return ABY3PublicTensor(prot, v, scaled), a


def dev(v):
    return getattr(getattr(v, "value", None), "device", None)


def secret_of(h, x):
    """value of a private tensor as reconstructed from the primary shares"""
    s = [h.val(x.unwrapped[i][0]) for i in range(3)]
    return _bin(T.add if x.share_type == ARITH else T.xor, *s)


def check(h, prot, label, x, want=None, scaled=None, kind=None, factory=None, reveal=True):
    """replication invariant, placement, ring, flag, share type and (unless want is None) the value on every server"""
    want = None if want is None else arr(want)
    if isinstance(x, ABY3PublicTensor):
        if kind is not None:
            h.ensure_true(label + ".kind", kind == PUBLIC, "result is public, expected %s" % kind)
        vals = [h.val(v) for v in x.unwrapped]
        ref = want if want is not None else vals[0]
        for i, v in enumerate(vals):
            h.ensure_eq("%s.on_server%d" % (label, i), v, ref)
        placed = all(dev(v) == prot.servers[i].device_name for i, v in enumerate(x.unwrapped))
    else:
        h.ensure_true(label + ".kind", isinstance(x, ABY3PrivateTensor), "result is %s" % type(x).__name__)
        if kind is not None:
            h.ensure_true(label + ".share_type", x.share_type == kind, "share type %s, expected %s" % (x.share_type, kind))
        sh = x.unwrapped
        for i in range(3):
            h.ensure_eq("%s.replicated%d" % (label, i), h.val(sh[i][1]), h.val(sh[(i + 1) % 3][0]), kind="invariant")
        if want is not None:
            h.ensure_eq(label + ".secret", secret_of(h, x), want)
            h.ensure_true(label + ".shape-attribute", tuple(x.shape.as_list()) == want.shape, "shape attribute %s, expected %s" % (x.shape, want.shape))
        placed = all(dev(v) == prot.servers[i].device_name for i in range(3) for v in sh[i])
        fs = {id(type(v.factory)) for p in sh for v in p}
        h.ensure_true(label + ".one-ring", len(fs) == 1, "shares over different rings")
        if reveal and want is not None:
            r = prot.reveal(x)
            h.ensure_true(label + ".revealed-flag", bool(r.is_scaled) == bool(x.is_scaled), "reveal changes the scaling flag")
            for i, v in enumerate(r.unwrapped):
                h.ensure_eq("%s.revealed_on_server%d" % (label, i), h.val(v), want)
    h.ensure_true(label + ".placement", placed, "share not on the server that owns it")
    if scaled is not None:
        h.ensure_true(label + ".is_scaled", bool(x.is_scaled) == scaled, "is_scaled=%s, expected %s" % (x.is_scaled, scaled))
    if factory is not None:
        h.ensure_true(label + ".ring", x.backing_dtype == factory, "ring %s, expected %s" % (x.backing_dtype, factory))


def fresh_sharing(h, prot, values, kind, factory, scaled, name, bits=False):
    """contract stub result: any consistent sharing of `values`"""
    w = width(factory)
    c = S.CTX
    n = getattr(c, "stub_n", 0)
    c.stub_n = n + 1
    base = "stub%d_%s" % (n, name)
    s = split(h, base, values, kind, 1 if bits else w)
    if bits:
        s = [vmap(lambda t: T.zext(t, w), p) for p in s]
    x = make_shares(h, prot, s, factory, kind, scaled)
    if hasattr(h, "dealing"):   # a view is being tracked: the new shares are fresh, each server holds its two
        for p in (s[0], s[1]):
            for t in p.reshape(-1):
                h.dealing |= T.free_vars(t)
        for i in range(3):
            for k in range(2):
                h.held.setdefault(prot.servers[i].device_name, []).extend(h.val(x.unwrapped[i][k]).reshape(-1))
    return x


class NotReached(Exception):
    """the code no longer goes through the function whose contract the case relies on: bounded stand-in instead"""


def shr_floor(a, f):
    return vmap(lambda t: T.ashr(t, f), a)


def vmap(f, *xs):
    xs = [arr(x) for x in xs]
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*xs[0].shape):
        out[i] = f(*[x[i] for x in xs])
    return out


def within(h, label, got, want, tol):
    """|got - want| <= tol as signed words"""
    got, want = arr(got), arr(want)
    if got.shape != want.shape:
        h.ensure_true(label + ".shape", False, "shape %s, expected %s" % (got.shape, want.shape))
        return

    def one(g, w_):
        d = T.sub(g, w_)
        return T.band(T.sle(T.const(-tol, d.w), d), T.sle(d, T.const(tol, d.w)))
    h.ensure(label, vmap(one, got, want))


def truncate_contract(patches, h):
    """ABY3.truncate: returns some consistent sharing (of a value the case names) with the argument's flag;
    the contract itself is discharged in C07"""
    h.trunc = []

    def truncate(prot, x, method="heuristic", amount=None):
        n = len(h.trunc)
        amt = prot.fixedpoint_config.precision_fractional if amount is None else amount
        if isinstance(x, ABY3PrivateTensor):
            arg = secret_of(h, x)
            v = h.array("quot%d" % n, arg.shape, width(x.backing_dtype))
            z = fresh_sharing(h, prot, v, x.share_type, x.backing_dtype, x.is_scaled, "trunc")
        else:
            arg = h.val(x.unwrapped[0])
            for u in x.unwrapped[1:]:
                h.ensure_eq("public-copies", h.val(u), arg, kind="pre")
            v = h.array("quot%d" % n, arg.shape, width(x.backing_dtype))
            z, _ = public(h, prot, "", None, x.is_scaled, x.backing_dtype, values=v)
        h.trunc.append((arg, amt, v))
        return z
    patches.stub(A.ABY3, "truncate", truncate)
    return ["ABY3.truncate (discharged in C07)"]


def matched(args, quots, elements):
    """the call of the truncation contract each element stems from: (operands, quotients) laid out like `elements`"""
    by = {}
    for a, q in zip(args.reshape(-1), quots.reshape(-1)):
        for n in T.free_vars(q):
            by[n] = (a, q)
    oa, oq = np.empty(elements.shape, dtype=object), np.empty(elements.shape, dtype=object)
    for i in np.ndindex(*elements.shape):
        own = [by[n] for n in T.free_vars(elements[i]) if n in by]
        if len(own) != 1:
            raise NotReached("an element stems from %d truncated values" % len(own))
        oa[i], oq[i] = own[0]
    return oa, oq


def check_rescaled_moved(h, prot, label, z, exact, tol=2, power=None, **kw):
    """as check_rescaled, when the rescaled values are moved around afterwards"""
    if h.sym and len(getattr(h, "trunc", ())) == 1 and z.shape.as_list() == list(exact.shape):
        a, amt, v = h.trunc[0]
        cur = secret_of(h, z) if isinstance(z, ABY3PrivateTensor) else h.val(z.unwrapped[0])
        a, v = matched(a, v, cur)
        f = prot.fixedpoint_config.precision_fractional
        if amt < f and power is not None and power == f - amt:   # a power of two: dividing by it directly is the same
            a, amt = vmap(lambda t: t * T.const(1 << power, t.w), a), f
        h.trunc[0] = (a, amt, v)
    check_rescaled(h, prot, label, z, exact, tol, **kw)


def check_rescaled(h, prot, label, z, exact, tol=2, **kw):
    """z is the product `exact` rescaled exactly once by the fractional precision"""
    f = prot.fixedpoint_config.precision_fractional
    if h.sym:
        if len(getattr(h, "trunc", ())) != 1:
            raise NotReached("%d calls of ABY3.truncate" % len(getattr(h, "trunc", ())))
        a, amt, v = h.trunc[0]
        h.ensure_eq(label + ".rescaled-operand", a, exact)
        h.ensure_true(label + ".rescaled-by", amt == f, "rescaled by 2^%s" % amt)
        check(h, prot, label, z, v, True, **kw)
    else:
        check(h, prot, label, z, None, True, **kw)
        got = secret_of(h, z) if isinstance(z, ABY3PrivateTensor) else h.val(z.unwrapped[0])
        within(h, label + ".value", got, shr_floor(arr(exact), f), tol)
