"""Fixed-point encoding and decoding: within one unit of the last fractional digit, on every way in and out."""
import itertools

import numpy as np

from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from engine.harness import main, TIER
from checks import lib_pond as LP
from checks import lib_aby3 as L3
from tf_encrypted.protocol.pond import pond as P
from tf_encrypted.protocol.securenn import securenn as SN
from tf_encrypted.protocol.aby3 import aby3 as A
from tf_encrypted.tensor import fixed as F
from tf_encrypted.tensor import factories

T.ZP_MODULI |= {1201, 1433, 1217, 1237, 1321, 1103, 1129, 1367, 1093, 1039}
ONE = T.Fraction(1)
SLACK = T.Fraction(1, 2**20)      # concrete runs only: floating point of host and framework


def shipped():
    """every configuration the library defines"""
    return {k: v for k, v in vars(F).items() if isinstance(v, F.FixedpointConfig)}


def protocols():
    cfg = shipped()
    out = [("pond[l]", lambda: P.Pond(), "pond"), ("pond[h]", lambda: P.Pond(fixedpoint_config="h"), "pond"),
           ("securenn", lambda: SN.SecureNN(), "pond"),
           ("aby3[l]", lambda: A.ABY3(), "aby3"), ("aby3[h]", lambda: A.ABY3(fixedpoint_config="h"), "aby3")]
    for k in sorted(cfg):
        c = cfg[k]
        if c.nbits in (64, 100) and not k.endswith("heuristic"):
            out.append(("pond[%s]" % k, lambda c=c: P.Pond(fixedpoint_config=c), "pond"))
        if c.nbits in (64, 128) and c.scaling_base == 2:
            out.append(("aby3[%s]" % k, lambda c=c: A.ABY3(fixedpoint_config=c), "aby3"))
    return out


SOURCES = ["np.float64", "np.float32", "np.int64", "np.int32", "np.int16", "np.int8", "np.uint8", "tf.float64", "tf.float32", "tf.int64", "tf.int32", "tf.int16", "tf.int8"]


def source(h, prot, name, src, shape):
    """-> (what the user passes, exact real values)"""
    c = prot.fixedpoint_config
    top = c.scaling_base ** c.precision_integral
    lib, d = src.split(".")
    d = np.dtype(d)
    if d.kind == "f":
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = h.real(name + "".join("_%d" % j for j in i), -top, top)
        if not h.sym:
            for i in np.ndindex(*shape):
                a[i] = T.const(T.Fraction(float(d.type(float(a[i].val)))), 0)
        val = a
    else:
        w = 8 * d.itemsize
        lo, hi = (-top, top) if d.kind == "i" else (0, top)
        lo, hi = max(lo, -(1 << (w - 1))), min(hi, (1 << (w - 1)) - 1)
        a = h.array(name, shape, w, lo, hi)
        val = S._vec(lambda e: T.i2r(e, d.kind == "i"))(a)
    x = h.host(a, d) if lib == "np" else h.tensor(a, rtf.as_dtype(d))
    return x, val


def near(h, label, got, want, units, scale):
    """|got - want| <= units / scale, element by element"""
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    h.ensure_true(label + ".shape", got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
    if got.shape != want.shape:
        return
    eps = T.const((units + (0 if h.sym else SLACK)) / scale, 0)
    for i in np.ndindex(*got.shape):
        g = got[i] if got[i].w == 0 else T.i2r(got[i])
        d = T.sub(g, want[i])
        h.ensure(label, T.ule(d, eps))
        h.ensure(label, T.ule(T.neg(eps), d))


def same_integer(h, label, got, want):
    got = np.asarray(got, dtype=object)
    h.ensure_true(label + ".shape", got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
    for i in np.ndindex(*want.shape):
        g = got[i] if got[i].w == 0 else T.i2r(got[i])
        h.ensure(label, T.conj(T.ule(g, want[i]), T.ule(want[i], g)))


def ways(prot, kind, x, lib, scaled):
    """every way to bring a value in -> [(name, protocol tensor)]"""
    out = [("public_variable", lambda: prot.define_public_variable(x, apply_scaling=scaled)),
           ("private_variable", lambda: prot.define_private_variable(x, apply_scaling=scaled))]
    if lib == "np" or kind == "aby3":
        out.append(("constant", lambda: prot.define_constant(x, apply_scaling=scaled)))
    if lib == "tf":
        out.append(("private_input", lambda: prot.define_private_input("input-provider", lambda: x, apply_scaling=scaled)))
        out.append(("local_computation", lambda: prot.define_local_computation("alice", lambda: x, [], apply_scaling=scaled)))
        if kind == "pond":
            out.append(("public_input", lambda: prot.define_public_input("input-provider", lambda: x, apply_scaling=scaled)))
            out.append(("masked_input", lambda: prot.define_private_input("input-provider", lambda: x, apply_scaling=scaled, masked=True)))
        else:
            out.append(("public_input", lambda: prot.define_public_input("input-provider", lambda: x, apply_scaling=scaled)))
    return out


def result(h, prot, y):
    """the plaintext handed to the user"""
    if not isinstance(y, (P.PondPublicTensor, A.ABY3PublicTensor)):
        y = prot.reveal(y)
    return h.terms(y.decode())


def output(h, prot, y):
    got = []
    prot.define_output("result-receiver", y, got.append)
    return h.terms(got[0])


def build(r):
    r.assumptions += [
        "floating point arithmetic on the host and in TensorFlow is exact (real) arithmetic; the concrete runs allow a slack of 2^-20 of a unit",
        "representable means: absolute value at most base^precision_integral"]
    for (tag, mk, kind), src in itertools.product(protocols(), SOURCES):
        lib, d = src.split(".")
        for shape in ((), (2,)) if src in ("np.float64", "tf.float64") else ((2,),):
            for i, (way, _) in enumerate(ways(None, kind, None, lib, True)):
                def fn(h, mk=mk, kind=kind, src=src, shape=shape, lib=lib, i=i):
                    prot = mk()
                    tfe.set_protocol(prot)
                    x, v = source(h, prot, "x", src, shape)
                    s = prot.fixedpoint_config.scaling_factor
                    name, f = ways(prot, kind, x, lib, True)[i]
                    y = f()
                    h.ensure_true(name + ".is_scaled", bool(y.is_scaled), "flag lost")
                    near(h, name, result(h, prot, y), v, ONE, s)
                    if name == "private_variable" and shape:
                        near(h, "output", output(h, prot, y), v, ONE, s)
                r.case("%s.%s.scaled[%s]%s" % (tag, way, src, shape), fn)
            if np.dtype(d).kind != "f":
                for i, (way, _) in enumerate(ways(None, kind, None, lib, False)):
                    def fi(h, mk=mk, kind=kind, src=src, shape=shape, lib=lib, i=i):
                        prot = mk()
                        tfe.set_protocol(prot)
                        x, v = source(h, prot, "x", src, shape)
                        name, f = ways(prot, kind, x, lib, False)[i]
                        y = f()
                        h.ensure_true(name + ".is_scaled", not y.is_scaled, "flag set")
                        same_integer(h, name, result(h, prot, y), v)
                    r.case("%s.%s.unscaled[%s]%s" % (tag, way, src, shape), fi)
    for (tag, mk, kind) in protocols():
        # a host array and a tensor with the same contents are encoded to the same ring element
        def agree(h, mk=mk, kind=kind):
            prot = mk()
            tfe.set_protocol(prot)
            f = prot.tensor_factory if kind == "pond" else prot.default_factory
            for d in ("float64", "float32", "int64", "int32", "int16"):
                x, v = source(h, prot, "x" + d, "np." + d, (2,))
                t = h.tensor(h.terms(x) if not h.sym else x.view(np.ndarray), rtf.as_dtype(d))
                for sc in (True, False) if d[0] == "i" else (True,):
                    kw = dict(tf_int_type=f.native_type) if kind == "pond" else {}
                    a, b = f.tensor(prot._encode(x, sc)), f.tensor(prot._encode(t, sc, **kw))
                    for p, q in zip(*[z.backing if hasattr(z, "backing") else [z.value] for z in (a, b)]):
                        h.ensure_eq("agree[%s,%s]" % (d, sc), h.terms(p), h.terms(q))
        r.case("%s.host-and-framework-agree" % tag, agree)

        # python numbers
        def number(h, mk=mk, kind=kind):
            prot = mk()
            tfe.set_protocol(prot)
            s = prot.fixedpoint_config.scaling_factor
            x = prot.define_constant(np.array([1.0, -1.0]))
            top = prot.fixedpoint_config.scaling_base ** prot.fixedpoint_config.precision_integral
            rng = np.random.RandomState(5)
            for v in [0, 1, -1, 0.5, -0.25, 3.75, -top, top, 1e-9, -1e-9] + list(rng.uniform(-top, top, 8)):
                if kind == "aby3":
                    y = prot.define_constant(v, apply_scaling=True)
                    near(h, "python number", result(h, prot, y), S._vec(lambda e: T.const(T.Fraction(float(e)), 0))(np.array(v, dtype=object)), ONE + SLACK, s)
                elif abs(v) < top - 1:
                    near(h, "plus python number", result(h, prot, x + v), S._vec(lambda e: T.const(T.Fraction(float(v)) + e, 0))(np.array([1, -1], dtype=object)), ONE + SLACK, s)
        r.case("%s.python-numbers" % tag, number, sym=False, trials=1, bounded_note="18 python numbers, including the extremes")

    # the shipped configurations leave enough room
    for k, c in sorted(shipped().items()):
        def room(h, c=c):
            f = factories[c.nbits]
            m = f.modulus
            single = c.scaling_base ** (c.precision_integral + c.precision_fractional)
            double = single * c.scaling_base ** c.precision_fractional
            h.ensure_true("scaling_factor", c.scaling_factor == c.scaling_base ** c.precision_fractional)
            h.ensure_true("single", c.bound_single_precision >= single and 2 * c.bound_single_precision < m)
            h.ensure_true("product", c.bound_double_precision >= double and 2 * c.bound_double_precision < m)
            h.ensure_true("rescaling", 2 * c.bound_double_precision + c.bound_double_precision * 2 ** c.truncation_gap < m,
                          "product plus rescaling mask exceeds the modulus")
            h.ensure_true("inner products", 2 * c.bound_double_precision * c.matmul_threshold < m, "%d products exceed the modulus" % c.matmul_threshold)
            h.ensure_true("scaling invertible or truncatable", c.scaling_base > 1 and c.precision_fractional > 0)
        r.case("config[%s].headroom" % k, room)


if __name__ == "__main__":
    main("C15", build)
