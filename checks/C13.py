"""Comparison extension (SecureNN): what each party receives is independent of the secrets.

Compute servers: the whole comparison is run and every received word must be masked by randomness the receiver does not know
(ring, prime 107 and odd modulus masks).
Third server: the words it receives in the private comparison are shown to be  rerandomised shares of m_i * Q_i  in an order it
does not know, with m_i a uniform unit it does not know; so all it learns is whether some Q_i is zero, and that is the
comparison bit blinded by a uniform bit it does not know.  The rest of the protocol is run against that contract."""
import math

import numpy as np

from engine import privacy
from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER
from checks import lib_pond as L
from checks import lib_privacy as PV
from checks import lib_securenn as K
from checks.C11 import private2
from checks.lib_securenn import N, P, O, W, PRIME, vmap

ODD = K.ODD


def devices(prot):
    return {"server0": prot.server_0.device_name, "server1": prot.server_1.device_name, "server2": prot.server_2.device_name}


# ---- odd ring as uniform residues ---------------------------------------------------
def odd_residue_contract(patches, h):
    """OddTensor add/sub/sample_uniform (values discharged in C10 odd[...]; uniformity of the sampler in C16)"""
    f = O.oddint64_factory
    dense = type(f.tensor(S.FACADE.constant([0], dtype=rtf.int64)))
    base = [c for c in dense.__mro__ if "add" in vars(c)][0]

    def mk(name, sign):
        orig = vars(base)[name]

        def stub(self, other):
            if not isinstance(other, base):
                return orig(self, other)
            x, y = self.value, other.value
            S.use("odd_" + name, [x, y])
            a, b = np.broadcast_arrays(h.terms(x), h.terms(y))
            return dense(S.SymTensor(rtf.int64, arr=vmap(lambda s, t: T.zp_sum(ODD, W, (1, s), (sign, t)), a, b)))
        patches.stub(base, name, stub)
    mk("add", 1)
    mk("sub", -1)

    def sample_uniform(self, shape, minval=None, maxval=None):
        shape = tuple(int(d) for d in shape)
        base_ = S.CTX.fresh("odd")
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = T.var(base_ + "".join("_%d" % j for j in i), W)
            T.RESIDUES[a[i]] = ODD
            S.CTX.assume(K.canonical(a[i]))
        t = S.SymTensor(rtf.int64, arr=a)
        S.CTX.rand.append(dict(base=base_, vars=list(a.reshape(-1)), device=S.CTX.device, lo=0, hi=ODD, dtype=rtf.int64, info="uniform"))
        return dense(t)
    patches.stub(type(f), "sample_uniform", sample_uniform)
    return ["OddTensor.add/sub and odd sample_uniform (values discharged in C10, uniform residues: C16)"]


def compare_view_contract(patches, h):
    """what the third server sees of a private comparison: the blinded comparison bit, and nothing else"""
    def stub(prot, x_bits, r, beta):
        bits = K.secret(h, x_bits)
        R, B = h.val(r.value_on_0), h.val(beta.value_on_0)
        g = np.empty(R.shape, dtype=object)
        for i in np.ndindex(*R.shape):
            g[i] = K.word(T.xor(T.ult(R[i], K.whole(bits[i])), T.trunc(B[i], 1)))
        with S.dev(prot.server_0.device_name):
            t = S.SymTensor(rtf.int64, arr=g)
        with S.dev(prot.server_2.device_name):
            t = S.FACADE.identity(t)
            return prot._share_and_wrap(prot.tensor_factory.tensor(t), False)
    patches.stub(N, "_private_compare", stub)
    return ["_private_compare as seen by server 2 (discharged in C13 private_compare[server2...])"]


def private_odd(h, prot, name, shape):
    PV.track(h)
    a = h.array(name, shape, W)
    s = h.array(name + "share", shape, W)
    if not hasattr(h, "moduli"):
        h.moduli = {}
    for v in list(a.reshape(-1)) + list(s.reshape(-1)):
        h.assume(K.canonical(v))
        T.RESIDUES[v] = ODD
    other = vmap(lambda t, u: T.zp_sum(ODD, W, (1, t), (-1, u)), a, s)
    h.secrets |= set(a.reshape(-1))
    h.dealing |= set(s.reshape(-1))
    for v in s.reshape(-1):
        h.moduli[v] = ODD
    with h.at(prot.server_0.device_name):
        t0 = _dense(h, prot, s, prot.server_0.device_name)
    t1 = _dense(h, prot, other, prot.server_1.device_name)
    h.held.setdefault(prot.server_0.device_name, []).extend(s.reshape(-1))
    h.held.setdefault(prot.server_1.device_name, []).extend(other.reshape(-1))
    return P.PondPrivateTensor(prot, t0, t1, False)


def _dense(h, prot, a, dev):
    d = type(prot.odd_factory.tensor(S.FACADE.constant([0], dtype=rtf.int64)))
    with h.at(dev):
        return d(h.tensor(a, rtf.int64, dev))


def known_by(party):
    """random words a party draws or can expand"""
    v = privacy.collect(S.CTX, party, set(), set(), [], PV.seed_vars())
    return v.known


# ---- the third server's view of a private comparison --------------------------------
def third_server(shape):
    store = {}

    def fn(h):
        prot = K.new_prot(h)
        dev = prot.server_2.device_name
        x = h.array("x", shape, W)
        with h.at(dev):
            pass
        xb = K.share_prime(h, prot, "xs", K.bits_of(x))
        r, R = L.public(h, prot, "r", shape)
        b = h.array("beta", shape, W, 0, 1)
        beta = K.public_of(h, prot, prot.prime_factory, b)
        n0 = len(S.CTX.transfers)
        N._private_compare(prot, xb, r, beta)
        known = known_by(dev)
        recv = [(t, src) for d, src, t, op in S.CTX.transfers[n0:] if d == dev and not t.concrete]
        uniq = []
        for t, src in recv:
            if not any(t is u for u, _ in uniq):
                uniq.append((t, src))
        tens = [t for t, _ in uniq]
        ok = len(tens) == 2 and all(tuple(t.shape) == shape + (W,) for t in tens)
        h.ensure_true("server2.receives-two-vectors", ok, "server 2 receives %s" % [tuple(t.shape) for t in tens], kind="view")
        if not ok:
            return
        d0, d1 = (t.arr for t in tens)
        used = {}

        def once(v, where):
            used.setdefault(v, set()).add(where)
        order = [p for p in S.PERMS]
        Q = np.empty(shape + (W,), dtype=object)
        for i in np.ndindex(*(shape + (W,))):
            a, c = T.zp_poly(d0[i], PRIME), T.zp_poly(d1[i], PRIME)
            rho = [m[0] for m, k in a.items() if len(m) == 1 and m[0].op == "var" and T.RANGES.get(m[0]) == (0, PRIME - 1) and m[0] not in known
                   and (c.get(m, 0) + k) % PRIME == 0 and sum(m[0] in o for o in a) == 1 and sum(m[0] in o for o in c) == 1
                   and not str(m[0].val).startswith("xs")]
            fresh = [v for v in rho if all(v not in T.free_vars(t) for t in list(d0.reshape(-1)) if t is not d0[i])]
            h.ensure_true("server2.shares-rerandomised", bool(fresh), "element %s: a share server 2 receives is not masked by a fresh residue it does not know" % (i,), kind="view")
            s = T.zp_poly(T.zp_sum(PRIME, W, (1, d0[i]), (1, d1[i])), PRIME)
            units = [v for v in (set.intersection(*[set(m) for m in s]) if s else ()) if v.op == "var" and T.RANGES.get(v) == (1, PRIME - 1) and v not in known
                     and all(m.count(v) == 1 for m in s)]
            h.ensure_true("server2.values-masked-by-unit", len(units) == 1, "element %s: the value server 2 reconstructs is not multiplied by a uniform unit it does not know" % (i,), kind="view")
            if len(units) != 1:
                return
            once(units[0], i)
            q = {tuple(v for v in m if v is not units[0]): k for m, k in s.items()}
            Q[i] = frozenset(q.items())
        h.ensure_true("server2.one-unit-per-value", all(len(w) == 1 for w in used.values()), "one unit masks two values", kind="view")
        path = tuple(S_ for S_, _ in __import__("engine.env", fromlist=["ORACLE"]).ORACLE.taken)
        # order: the vectors arrive in the order drawn by a compute server
        good = [p for p in order if p["order"].shape == shape + (W,) and p["device"] != dev and not any(T.free_vars(k) & known for k in p["keys"].reshape(-1))
                and len({k.id for k in p["keys"].reshape(-1)}) == p["keys"].size]
        h.ensure_true("server2.order-drawn", len(good) == 1, "the order of the values is not drawn from randomness unknown to server 2 (%d orders)" % len(good), kind="view")
        if len(good) != 1:
            return
        o = good[0]["order"]
        if np.array_equal(o, np.broadcast_to(np.arange(W), o.shape)):
            store["id"] = Q
        elif "id" in store:
            for i in np.ndindex(*shape):
                h.ensure_true("server2.order-applied", list(Q[i]) == [store["id"][i][k] for k in o[i]], "row %s: the values do not arrive in the drawn order" % (i,), kind="view")
        keys_bits = math.log2(W * W / 2) - 64
        h.ensure_true("server2.order-uniform", keys_bits < -40, kind="view")
        # what is left to see: the number of zeros
        for i in np.ndindex(*shape):
            z = T.add(*[T.zext(T.eq(T.zp_sum(PRIME, W, (1, d0[i + (j,)]), (1, d1[i + (j,)])), T.const(0, W)), W) for j in range(W)])
            h.ensure("server2.sees-blinded-bit", T.eq(z, K.word(T.xor(T.ult(R[i], x[i]), T.trunc(b[i], 1)))), kind="view")
    return fn


OPS = {
    "msb": lambda p, x, y: p.msb(x),
    "is_negative": lambda p, x, y: p.is_negative(x),
    "less": lambda p, x, y: p.less(x, y),
    "less-public": lambda p, x, y: p.less(x, p.define_constant(np.ones(x.shape.as_list()))),
    "greater_equal": lambda p, x, y: p.greater_equal(x, y),
    "relu": lambda p, x, y: p.relu(x),
    "relu-split": lambda p, x, y: p.relu(x, max_size=1),
    "maximum": lambda p, x, y: p.maximum(x, y),
    "select": lambda p, x, y: p.select(p.less(x, y), x, y),
    "twice": lambda p, x, y: (p.less(x, y), p.less(y, x)),
    "same-operand-twice": lambda p, x, y: (p.relu(x), p.is_negative(x), p.less(x, y)),
}


def build(r):
    r.trusted += ["sorting 64 independent uniform words gives a uniform order (ties have probability below 2^-52)"]
    r.assumptions += ["composition: the third server's view of a private comparison is replaced by the blinded bit in the cases over whole operations"]
    for shape in ((), (2,)):
        r.case("private_compare[server2,%s]" % (shape,), third_server(shape), real=False)

    def lsb(h, which):
        prot = K.new_prot(h)
        x = private_odd(h, prot, "x", (1,))
        prot.lsb(x)
        d = devices(prot)
        PV.check_views(h, "view", {k: d[k] for k in which})
    r.case("lsb[compute-servers]", lambda h: lsb(h, ("server0", "server1")), real=False, contracts=(odd_residue_contract,))
    r.case("lsb[server2]", lambda h: lsb(h, ("server2",)), real=False, contracts=(odd_residue_contract, compare_view_contract))

    for name, op in OPS.items():
        for who, which, cs in (("compute-servers", ("server0", "server1"), (odd_residue_contract,)), ("server2", ("server2",), (odd_residue_contract, compare_view_contract))):
            n = 2 if name == "relu-split" or who == "server2" else 1

            def fn(h, op=op, which=which, n=n):
                prot = K.new_prot(h)
                PV.track(h)
                x, y = private2(h, prot, "x", (n,), True), private2(h, prot, "y", (n,), True)
                op(prot, x, y)
                d = devices(prot)
                PV.check_views(h, "view", {k: d[k] for k in which})
            r.case("view[%s,%s]" % (name, who), fn, real=False, contracts=cs, max_paths=8 if TIER == "quick" else 32)

    for name, op, sh in (("reduce_max", lambda p, x: p.reduce_max(x, axis=0), (3,)), ("argmax", lambda p, x: p.argmax(x, axis=0), (3,)),
                         ("maxpool2d", lambda p, x: p.maxpool2d(x, (2, 2), (2, 2), "VALID"), (1, 1, 2, 2))):
        def fn(h, op=op, sh=sh):
            prot = K.new_prot(h)
            PV.track(h)
            x = private2(h, prot, "x", sh, True)
            op(prot, x)
            d = devices(prot)
            PV.check_views(h, "view", {"server2": d["server2"]})
        r.case("view[%s,server2]" % name, fn, real=False, contracts=(odd_residue_contract, compare_view_contract), max_paths=4)


if __name__ == "__main__":
    main("C13", build)
