"""Results depend on the operands, not on what was computed before.

Histories: the contracts of the other properties are evaluated one after another, in both orders, on operands and protocol
instances that are shared between all of them; each result has to meet its contract whatever came before.
Memoization: two calls share a result only if their arguments mean the same."""
import contextlib
import copy
import importlib
import itertools
import random

import numpy as np

from engine import env
from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from engine.harness import main, Skip, TIER
from checks import lib_aby3 as LA
from checks import lib_pond as LP
from checks import C10
from tf_encrypted.protocol import protocol as M


# ---- sharing operands between cases -------------------------------------------------
class Collect:
    """collects the cases of another check"""
    def __init__(self):
        self.cases, self.trusted, self.assumed = [], [], []

    def case(self, name, fn, contracts=(), sym=True, **kw):
        if sym:
            self.cases.append((name, fn, tuple(contracts)))


def collect(prop):
    c = Collect()
    m = importlib.import_module("checks." + prop)
    getattr(m, "own", m.build)(c)
    return c.cases


@contextlib.contextmanager
def sharing(h):
    """operands and protocols made under this are made once for each description of them"""
    made = {}
    saved = []
    fresh_array = h.array

    def share(mod, attr, table=None):
        orig = getattr(mod, attr)

        def make(h_, prot, name, shape, *a, **kw):
            if kw.get("values") is not None:
                return orig(h_, prot, name, shape, *a, **kw)
            key = (mod.__name__, attr, id(prot), name, tuple(shape), tuple(map(str, a)), tuple(sorted((k, str(v)) for k, v in kw.items())))
            if key not in made:
                outer, h.array = h.array, fresh_array
                try:
                    made[key] = orig(h_, prot, "%s_%d" % (name, len(made)), shape, *a, **kw)
                finally:
                    h.array = outer
            x, v = made[key]
            return x, v
        saved.append((mod, attr, orig))
        setattr(mod, attr, make)
        if table is not None:
            saved.append((table, attr, table[attr]))
            table[attr] = make

    def share_prot(mod):
        orig = mod.new_prot

        def new_prot(h_, *a, **kw):
            key = (mod.__name__, a, tuple(sorted((k, str(v)) for k, v in kw.items())))
            if key not in made:
                made[key] = orig(h_, *a, **kw)
            tfe.set_protocol(made[key])
            return made[key]
        saved.append((mod, "new_prot", orig))
        mod.new_prot = new_prot

    try:
        for mod in (LA, LP):
            share_prot(mod)
        for a in ("public", "private"):
            share(LA, a)
            share(LP, a, LP.MAKE)
        yield
    finally:
        for where, k, v in reversed(saved):
            if isinstance(where, dict):
                where[k] = v
            else:
                setattr(where, k, v)
        h.array = fresh_array


def history(cases):
    def fn(h):
        arr, ens, ens_t, ens_eq = h.array, h.ensure, h.ensure_true, h.ensure_eq
        with sharing(h):
            for i, (name, f, _) in enumerate(cases):
                h.array = lambda n, *a, i=i, **kw: arr("c%d_%s" % (i, n), *a, **kw)
                h.ensure = lambda l, *a, name=name, **kw: ens("%s: %s" % (name, l), *a, **kw)
                h.ensure_true = lambda l, *a, name=name, **kw: ens_t("%s: %s" % (name, l), *a, **kw)
                h.ensure_eq = lambda l, *a, name=name, **kw: ens_eq("%s: %s" % (name, l), *a, **kw)
                try:
                    f(h)
                except Skip:
                    pass
                finally:
                    h.ensure, h.ensure_true, h.ensure_eq = ens, ens_t, ens_eq
    return fn


def histories(r, label, cases, size):
    """cases in runs of at most `size` neighbours, each in both orders and one shuffled order"""
    cases = [c for c in cases]
    for k in range(0, len(cases), size):
        part = cases[k:k + size]
        if len(part) < 2:
            part = cases[-2:]
        shuffled = list(part)
        random.Random(k).shuffle(shuffled)
        for o, seq in (("in-order", part), ("reversed", part[::-1]), ("shuffled", shuffled)):
            contracts = []
            for c in seq[0][2]:
                contracts.append(c)
            r.case("history[%s,%d,%s]" % (label, k // size, o), history(seq), contracts=tuple(contracts), trials=1, max_paths=2)


def grouped(prop, keep=lambda n: True, key=lambda n: ""):
    g = {}
    for c in collect(prop):
        if keep(c[0]):
            g.setdefault((c[2], key(c[0])), []).append(c)
    return g


# ---- variables ------------------------------------------------------------------------
def pond_variables(r):
    from checks import C02
    P = LP.P
    OPS = [t for t in C02.unary_table() if t[0] not in ("batch_to_space",)]
    OPS += [("add-self", (2,), lambda p, v: v + v, lambda X: X + X), ("square", (2,), lambda p, v: p.square(v), lambda X: X * X),
            ("x*3", (2,), lambda p, v: v * 3, lambda X: X * T.const(3, 64)), ("mul-self", (2,), lambda p, v: v * v, lambda X: X * X),
            ("matmul-self", (2, 2), lambda p, v: p.matmul(v, v), lambda X: X.dot(X)), ("reveal", (2,), lambda p, v: p.reveal(v), lambda X: X),
            ("concat", (2,), lambda p, v: p.concat([v, v], 0), lambda X: np.concatenate([X, X])),
            ("stack", (2,), lambda p, v: p.stack([v, v], 0), lambda X: np.stack([X, X])), ("mask", (2,), lambda p, v: p.mask(v), lambda X: X),
            ("mask-mul", (2,), lambda p, v: p.mask(v) * v, lambda X: X * X), ("mask-add", (2,), lambda p, v: p.mask(v) + v, lambda X: X + X),
            ("add_n", (2,), lambda p, v: p.add_n([v, v, v]), lambda X: X + X + X)]
    for kind, scaled in itertools.product(("private", "public"), (False, True)):
        for name, shape, f, g in OPS:
            if name.startswith("mask") and kind == "public":
                continue
            if name == "reveal" and kind == "public":
                continue
            if scaled and name in ("square", "x*3", "mul-self", "matmul-self", "mask-mul"):
                continue   # their rescaling is C04's
            def fn(h, kind=kind, scaled=scaled, shape=shape, f=f, g=g):
                prot = LP.new_prot(h)
                x, X = LP.MAKE[kind](h, prot, "x", shape, scaled)
                y, Y = LP.MAKE[kind](h, prot, "y", shape, scaled)
                v = prot.define_private_variable(x) if kind == "private" else prot.define_public_variable(x)
                first = f(prot, v)
                LP.check_any(h, prot, "first", first, g(X), scaled)
                prot.assign(v, y)
                LP.check_any(h, prot, "after-assign", f(prot, v), g(Y), scaled)
                LP.check_any(h, prot, "kept", first, g(X), scaled)   # what was computed before stays what it was
                LP.check_any(h, prot, "source", x, X, scaled)
                prot.assign(v, x)
                LP.check_any(h, prot, "assigned-back", f(prot, v), g(X), scaled)
                LP.check_any(h, prot, "value", v, X, scaled)
            r.case("pond-variable[%s,%s%s]" % (name, kind, ",scaled" if scaled else ""), fn, trials=1)


def aby3_variables(r):
    from checks import C05
    from checks import aby3_contracts as K
    A, B, PUB = LA.ARITH, LA.BOOL, LA.PUBLIC
    OPS = [(n, sh, f, g, kinds, None, ()) for n, sh, f, g, kinds in C05.structural() + C05.linear()]
    OPS += [("add-self", (2,), lambda p, v: v + v, lambda X: X + X, ("arith", "public"), None, ()),
            ("mul-self", (2,), lambda p, v: v * v, lambda X: X * X, ("arith", "public"), None, ()),
            ("xor-self", (2,), lambda p, v: p.xor(v, v), lambda X: X - X, ("bool",), None, ()),
            ("and-self", (2,), lambda p, v: p.and_(v, v), lambda X: X, ("bool",), None, ()),
            ("not", (2,), lambda p, v: p.not_(v), lambda X: LA.vmap(T.bnot, X), ("bool",), None, ()),
            ("shift", (2,), lambda p, v: v << 3, lambda X: LA.vmap(lambda t: T.shl(t, 3), X), ("bool",), None, ()),
            ("a2b", (2,), lambda p, v: p.a2b(v), lambda X: X, ("arith",), B, (K.ppa_contract,)),
            ("b2a", (2,), lambda p, v: p.b2a(v), lambda X: X, ("bool",), A, (K.ppa_contract,)),
            ("reveal", (2,), lambda p, v: p.reveal(v), lambda X: X, ("arith", "bool"), PUB, ()),
            ("concat", (2,), lambda p, v: p.concat([v, v], 0), lambda X: np.concatenate([X, X]), ("arith", "bool", "public"), None, ())]
    for name, shape, f, g, kinds, to, contracts in OPS:
        for k in kinds:
            def fn(h, k=k, shape=shape, f=f, g=g, to=to):
                prot = LA.new_prot(h)
                x, X = C05.KINDS[k](h, prot, "x", shape)
                y, Y = C05.KINDS[k](h, prot, "y", shape)
                v = prot.define_public_variable(x) if k == "public" else prot.define_private_variable(x)
                kind = to or C05.ST[k]
                first = f(prot, v)
                LA.check(h, prot, "first", first, g(X), False, kind)
                prot.assign(v, y)
                LA.check(h, prot, "after-assign", f(prot, v), g(Y), False, kind)
                LA.check(h, prot, "kept", first, g(X), False, kind)
                LA.check(h, prot, "source", x, X, False, C05.ST[k])
                prot.assign(v, x)
                LA.check(h, prot, "assigned-back", f(prot, v), g(X), False, kind)
                LA.check(h, prot, "value", v, X, False, C05.ST[k])
            r.case("aby3-variable[%s,%s]" % (name, k), fn, trials=1, contracts=contracts)


# ---- Python operands and several protocol instances ---------------------------------------
def python_operands(r):
    def apply(which, order):
        def fn(h):
            L, mk, chk = ((LP, lambda p: LP.private(h, p, "x", (2,), True), lambda p, l, z, w: LP.check_any(h, p, l, z, w, True)) if which == "pond" else
                          (LA, lambda p: LA.private(h, p, "x", (2,), LA.ARITH, True), lambda p, l, z, w: LA.check(h, p, l, z, w, True, LA.ARITH)))
            prot = L.new_prot(h)
            x, X = mk(prot)
            s = prot.fixedpoint_config.scaling_factor
            C = lambda v: T.const(int(v * s), 64)
            same = np.array([1., 2.])
            OPS = {
                "x+1": (lambda: x + 1, X + C(1)), "x+1.0": (lambda: x + 1.0, X + C(1)), "x+1.5": (lambda: x + 1.5, X + C(1.5)), "x-1": (lambda: x - 1, X - C(1)),
                "x+-1": (lambda: x + (-1), X - C(1)), "x+0": (lambda: x + 0, X), "x-0.5": (lambda: x - 0.5, X - C(.5)), "1-x": (lambda: 1 - x, C(1) - X),
                "x+c": (lambda: x + prot.define_constant(same), X + np.array([C(1), C(2)])), "x+c2": (lambda: x + prot.define_constant(same * 2), X + np.array([C(2), C(4)])),
            }
            for o in order(list(OPS)):
                f, want = OPS[o]
                chk(prot, o, f(), want)
        return fn
    for which in ("pond", "aby3"):
        for on, order in (("in-order", list), ("reversed", lambda l: l[::-1]), ("twice", lambda l: l + l)):
            r.case("numbers[%s,%s]" % (which, on), apply(which, order), trials=1)

    def whole(which):
        def fn(h):
            L, mk, chk = ((LP, lambda p: LP.private(h, p, "x", (2,)), lambda p, l, z, w: LP.check_any(h, p, l, z, w, False)) if which == "pond" else
                          (LA, lambda p: LA.private(h, p, "x", (2,)), lambda p, l, z, w: LA.check(h, p, l, z, w, False, LA.ARITH)))
            prot = L.new_prot(h)
            x, X = mk(prot)
            for o in (1, 2, 3, -1, 2, 1, 0, 4):
                chk(prot, "x*%d" % o, x * o, X * T.const(o, 64))
                chk(prot, "x+%d" % o, x + o, X + T.const(o, 64))
        return fn
    for which in ("pond", "aby3"):
        r.case("whole-numbers[%s]" % which, whole(which), trials=1)

    # a constant array changed by the caller after use
    def array(h):
        prot = LP.new_prot(h)
        x, X = LP.private(h, prot, "x", (2,))
        c = np.array([5, 7], dtype=np.int64)
        k1 = prot.define_constant(c, apply_scaling=False)
        LP.check_any(h, prot, "first", x + k1, X + np.array([T.const(5, 64), T.const(7, 64)]), False)
        c[:] = [1, -2]
        k2 = prot.define_constant(c, apply_scaling=False)
        LP.check_any(h, prot, "second", x + k2, X + np.array([T.const(1, 64), T.const(-2, 64)]), False)
        LP.check_any(h, prot, "first-again", x + k1, X + np.array([T.const(5, 64), T.const(7, 64)]), False)
        l = [1, 0]
        LP.check_any(h, prot, "gather", prot.gather(x, l, axis=0), X[[1, 0]], False)
        l[0] = 0
        LP.check_any(h, prot, "gather-again", prot.gather(x, l, axis=0), X[[0, 0]], False)
    r.case("argument-changed-by-the-caller", array, trials=1)

    def result(h):
        prot = LP.new_prot(h)
        x, X = LP.private(h, prot, "x", (4,))
        a = prot.split(x, 2, axis=0)
        a.reverse()
        a.pop()
        b = prot.split(x, 2, axis=0)
        h.ensure_true("count", len(b) == 2, "%d parts" % len(b))
        for i in range(min(len(b), 2)):
            LP.check_any(h, prot, "part%d" % i, b[i], X[2 * i:2 * i + 2], False)
    r.case("result-changed-by-the-caller[pond]", result, trials=1)

    def result3(h):
        prot = LA.new_prot(h)
        x, X = LA.private(h, prot, "x", (4,))
        a = prot.split(x, 2, axis=0)
        a.reverse()
        a.pop()
        b = prot.split(x, 2, axis=0)
        h.ensure_true("count", len(b) == 2, "%d parts" % len(b))
        for i in range(min(len(b), 2)):
            LA.check(h, prot, "part%d" % i, b[i], X[2 * i:2 * i + 2], False, LA.ARITH)
    r.case("result-changed-by-the-caller[aby3]", result3, trials=1)

    # two instances with different number formats, whichever is the current one
    def narrower(cfg):
        cfg = copy.copy(cfg)
        cfg.precision_fractional -= 2
        return cfg

    def two(h):
        Cfg = LP.new_prot(h).fixedpoint_config
        p1 = LP.new_prot(h)
        p2 = LP.new_prot(h, fixedpoint_config=narrower(Cfg))
        p3 = LA.new_prot(h)
        x1, X1 = LP.private(h, p1, "x", (2,), True)
        x2, X2 = LP.private(h, p2, "y", (2,), True)
        x3, X3 = LA.private(h, p3, "z", (2,), LA.ARITH, True)
        for cur in (p1, p2, p3, p1):
            tfe.set_protocol(cur)
            for i, (p, x, X) in enumerate(((p1, x1, X1), (p2, x2, X2), (p3, x3, X3))):
                s = p.fixedpoint_config.scaling_factor
                for c in (2, -1.5):
                    z, want = x + c, X + T.const(int(c * s), 64)
                    if p is p3:
                        LA.check(h, p, "instance%d+%s" % (i, c), z, want, True, LA.ARITH)
                    else:
                        LP.check_any(h, p, "instance%d+%s" % (i, c), z, want, True)
                    h.ensure_true("instance%d.prot" % i, z.prot is p, "result belongs to another instance")
    r.case("instances", two, trials=1)

    # constants and conversions made one after another are independent objects
    def made(h, kind, n):
        prot = LA.new_prot(h)
        xs = [LA.public(h, prot, "x%d" % i, (2,)) for i in range(n)]
        z = prot.zeros((2,), False, kind, prot.default_factory)
        ps = [x.to_private(kind) for x, _ in xs]
        for i in range(n):
            LA.check(h, prot, "converted%d" % i, ps[i], xs[i][1], False, kind)
        zero = np.array([T.const(0, 64)] * 2)
        LA.check(h, prot, "zeros", z, zero, False, kind)
        LA.check(h, prot, "zeros-again", prot.zeros((2,), False, kind, prot.default_factory), zero, False, kind)
        LA.check(h, prot, "sum", ps[0] + ps[1] if kind == LA.ARITH else prot.xor(ps[0], ps[1]),
                 xs[0][1] + xs[1][1] if kind == LA.ARITH else LA.vmap(T.xor, xs[0][1], xs[1][1]), False, kind)
    for kind in (LA.ARITH, LA.BOOL):
        r.case("to_private[%s]" % kind, lambda h, kind=kind: made(h, kind, 3), trials=1)


# ---- the contract of memoize ----------------------------------------------------------
def meaning(x):
    """what an argument means to an operation (None: only itself)"""
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(meaning(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((k, meaning(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes()) if x.dtype != object else ("id", id(x))
    if isinstance(x, rtf.TensorShape):
        return ("seq",) + tuple(meaning(y) for y in x.as_list())
    if x is None or isinstance(x, (bool, int, float, str, slice)):
        return (type(x).__name__, str(x))
    return ("id", id(x))


def pool():
    t = rtf.constant([1, 2])
    return [0, 1, 2, -1, -2, 0.0, 1.0, 2.0, True, False, None, "x", "network", (), [], (1,), [1], [1.0], [True], (1, 2), [2, 1], [[1, 2]], [[1], [2]], [1, [2]],
            slice(0, 1), slice(0, 2), slice(None), slice(0, 1, 1), (slice(0, 1), 0), (slice(0, 1), slice(0, 1)), Ellipsis,
            np.array([1, 2]), np.array([1., 2.]), np.array([[1, 2]]), np.array([[1], [2]]), np.array([1, 2], dtype=np.int32), np.array([2, 1]), np.array([1, 0, 2, 0], dtype=np.int32),
            np.array([True, False]), np.array([1, 0], dtype=np.int8), np.zeros((0, 2)), np.zeros((0, 3)), np.zeros((2, 3)), np.zeros((3, 2)), np.zeros((6,)), np.zeros((2, 3), dtype=np.int64),
            np.array([1, 2], dtype=object), t, rtf.constant([1, 2]), rtf.identity(t), rtf.TensorShape([1, 2]), rtf.TensorShape([2, 1]), {"axis": 0}, {"axis": 1}, {"axis": False},
            {"keepdims": 0}, 10 ** 30, 2 ** 53, float(2 ** 53), "1", b"1"]


def memoize(r):
    class Prot:
        pass

    def probe(calls):
        @M.memoize
        def op(self, *args, **kwargs):
            calls.append((self, args, kwargs))
            return object()
        return op

    def pairs(h):
        xs, n = pool(), 0
        p = Prot()
        for a, b in itertools.product(xs, xs):
            M.nodes.clear()
            calls = []
            op = probe(calls)
            ra, rb = op(p, a), op(p, b)
            if ra is rb and meaning(a) != meaning(b):
                h.failed.append(("distinct-arguments", "%r and %r share a result" % (a, b)))
            rc, rd = op(p, 0, k=a), op(p, 0, k=b)
            if rc is rd and meaning(a) != meaning(b):
                h.failed.append(("distinct-keyword-arguments", "%r and %r share a result" % (a, b)))
            if rc is op(p, a, k=0) and meaning(a) != meaning(0):
                h.failed.append(("positions", "%r by name and by position share a result" % (a,)))
        h.checked += 3 * len(xs) ** 2
    r.case("memoize[arguments]", pairs, sym=False, real=True, trials=1, bounded_note="the contract of memoize on all pairs of a pool of 62 argument values")

    def frame(h):
        p, q = Prot(), Prot()
        calls = []
        op, other = probe(calls), probe(calls)
        other.__wrapped__.__name__ = "other"
        def ok(l, c, d=""):
            h.ensure_true(l, c, d)
        ok("instances", op(p, 1) is not op(q, 1))
        ok("keyword names", op(p, a=1, b=2) is not op(p, a=2, b=1))
        ok("missing", op(p, 1) is not op(p, 1, None))
        ok("nested", op(p, [1], 2) is not op(p, [1, 2]))
        with rtf.Graph().as_default():
            g1 = op(p, 1)
        with rtf.Graph().as_default():
            g2 = op(p, 1)
        ok("graphs", len({id(g1), id(g2), id(op(p, 1))}) == 3)
        # arguments that die, and others that take their place
        seen = []
        for i in range(50):
            v = rtf.constant([i])
            z = op(p, v)
            ok("dead-arguments", all(z is not s for s in seen), "a dead argument's result was returned")
            seen.append(z)
            del v
        class Mutable(dict):
            __hash__ = None
        for i in range(50):
            z = op(p, Mutable(a=i))
            ok("dead-arguments", all(z is not s for s in seen))
            seen.append(z)
        # the contents of a variable can change
        v = rtf.Variable([1])
        for arg in (v, [v], (1, [v]), {"k": v}):
            ok("variables", op(p, arg) is not op(p, arg))
            ok("variables by name", op(p, x=arg) is not op(p, x=arg))
        # values changed in place
        l = [1, 2]
        a = op(p, l); l[0] = 5
        ok("changed list", op(p, l) is not a)
        n = np.array([1, 2]); a = op(p, n); n[0] = 5
        ok("changed array", op(p, n) is not a)
        d = {"k": 1}; a = op(p, d); d["k"] = 2
        ok("changed dict", op(p, d) is not a)
    r.case("memoize[frame]", frame, sym=False, real=True, trials=1, bounded_note="the frame of memoize's contract: instances, graphs, dead arguments, variables, values changed in place")


def build(r):
    def kind(n):
        """the operand kinds a case name mentions"""
        return n[n.rindex("["):] if "[" in n else ""
    pond_variables(r)
    aby3_variables(r)
    python_operands(r)
    memoize(r)
    for prop, size, keep in (
        ("C02", 60, lambda n: "scaled" not in n or "x+" in n or "reduce_sum" in n),
        ("C03", 40, lambda n: "reuse" not in n),
        ("C05", 60, lambda n: "64" in n or "x" in n[:4]),
        ("C06", 40, lambda n: True),
        ("C07", 20, lambda n: not n.startswith("msb0")),
        ("C08", 40, lambda n: True),
        ("C09", 30, lambda n: not n.startswith(("maxpool", "argmax")) and not (n.startswith(("sort", "reduce_max")) and ("(5" in n or "(6" in n or "(7" in n or "(8" in n or "128]" in n))),
        ("C10", 30, lambda n: not n.startswith(("odd", "private_compare", "lsb", "msb", "maxpool", "both")) and "(5" not in n and "2, 2, 2" not in n),
    ):
        for (contracts, _), cases in grouped(prop, keep).items():
            if any(c.__name__ == "truncate_contract" for c in contracts):
                continue   # that contract counts the calls it sees; a reused result makes none
            # neighbours share the operand kinds and shapes
            cases.sort(key=lambda c: kind(c[0]))
            histories(r, "%s%s" % (prop, "".join("," + c.__name__.replace("_contract", "") for c in contracts)), cases, size)


if __name__ == "__main__":
    main("C18", build)
