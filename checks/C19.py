"""Variables, queues and traced functions carry secrets faithfully."""
import itertools

import numpy as np

from engine import queues
from engine import symtf as S
from engine import term as T
from engine.env import rtf, tfe
from engine.harness import main, Skip
from checks import lib_aby3 as LA
from checks import lib_pond as LP
from tf_encrypted.protocol import protocol as M
from tf_encrypted.protocol.pond import pond as P
from tf_encrypted.tensor import factories
from tf_encrypted.tensor.fixed import fixed64_heuristic, fixed128_heuristic

ARITH, BOOL, PUB = LA.ARITH, LA.BOOL, LA.PUBLIC


# ---- operand kinds ------------------------------------------------------------------------
def kinds():
    """(tag, protocol class, make operand, check, define variable)"""
    for scaled in (False, True):
        for k in ("public", "private"):
            yield "pond-%s%s" % (k, "-scaled" if scaled else ""), "pond", k, scaled, None, None
        for cfg, w in ((fixed64_heuristic, 64), (fixed128_heuristic, 128)):
            for k in ("public", "arith", "bool"):
                yield "aby3-%s-%d%s" % (k, w, "-scaled" if scaled else ""), "aby3", k, scaled, cfg, None
    for nb in (0, 8, 16, 32):
        f = factories[rtf.bool if nb == 0 else nb // 8]
        yield "aby3-bool-ring%d" % nb, "aby3", "bool", False, fixed64_heuristic, f
    for nb in (8, 16, 32, 128):
        yield "aby3-arith-ring%d" % nb, "aby3", "arith", False, fixed64_heuristic, factories[{8: 1, 16: 2, 32: 4}.get(nb, nb)]


class Kind:
    def __init__(self, h, which, kind, scaled, cfg, factory):
        self.h, self.which, self.kind, self.scaled, self.factory = h, which, kind, scaled, factory
        self.prot = LP.new_prot(h) if which == "pond" else LA.new_prot(h, fixedpoint_config=cfg)
        self.n = 0

    def make(self, shape):
        self.n += 1
        name = "x%d" % self.n
        if self.which == "pond":
            return LP.MAKE[self.kind](self.h, self.prot, name, shape, self.scaled)
        if self.kind == "public":
            return LA.public(self.h, self.prot, name, shape, self.scaled, self.factory)
        return LA.private(self.h, self.prot, name, shape, ARITH if self.kind == "arith" else BOOL, self.scaled, self.factory)

    def check(self, label, x, want):
        if self.which == "pond":
            LP.check_any(self.h, self.prot, label, x, want, self.scaled)
        else:
            LA.check(self.h, self.prot, label, x, want, self.scaled, {"public": PUB, "arith": ARITH, "bool": BOOL}[self.kind], self.factory)
        self.h.ensure_true(label + ".owner", x.prot is self.prot, "belongs to another protocol instance")

    def variable(self, x):
        return self.prot.define_public_variable(x) if self.kind == "public" else self.prot.define_private_variable(x)


def variables(r):
    for tag, *spec in kinds():
        for shape in ((2,), (), (1, 2)):
            if shape != (2,) and ("ring" in tag or "128" in tag):
                continue

            def fn(h, spec=spec, shape=shape):
                k = Kind(h, *spec)
                (x, X), (y, Y), (z, Z) = [k.make(shape) for _ in range(3)]
                v, w = k.variable(x), k.variable(y)
                a = v.read_value()
                k.check("initial", a, X)
                k.check("handle", v, X)
                k.prot.assign(v, y)
                b = v.read_value()
                k.check("assigned", b, Y)
                k.check("read-before", a, X)
                k.check("other", w.read_value(), Y)
                k.prot.assign(v, z)
                k.check("assigned-twice", v.read_value(), Z)
                k.check("other-kept", w.read_value(), Y)
                k.check("argument-kept", y, Y)
                k.prot.assign(w, v)                       # from another variable
                k.prot.assign(v, x)
                k.check("from-variable", w.read_value(), Z)
                k.check("assigned-back", v.read_value(), X)
                k.prot.assign(v, v)
                k.check("to-itself", v.read_value(), X)
                k.prot.assign(v, a)                       # an old reading
                k.prot.assign(w, b)
                k.check("old-reading", v.read_value(), X)
                k.check("old-reading-2", w.read_value(), Y)
                u = k.variable(v)                         # a variable defined from a variable is its own
                k.prot.assign(v, z)
                k.check("defined-from-variable", u.read_value(), X)
                k.check("its-source", v.read_value(), Z)
                k.check("handle-after", v, Z)
            r.case("variable[%s]%s" % (tag, list(shape)), fn, trials=1)

    # words of a variable are assigned as they are: nothing is encoded, shared or rescaled a second time
    def swap(h, spec):
        k = Kind(h, *spec)
        (x, X), (y, Y) = k.make((2,)), k.make((2,))
        v, w = k.variable(x), k.variable(y)
        for i in range(3):
            t = v.read_value()
            k.prot.assign(v, w.read_value())
            k.prot.assign(w, t)
            k.check("swap%d-v" % i, v.read_value(), (X, Y)[(i + 1) % 2])
            k.check("swap%d-w" % i, w.read_value(), (X, Y)[i % 2])
    for tag, *spec in kinds():
        r.case("swap[%s]" % tag, lambda h, spec=spec: swap(h, spec), trials=1)

    # a value that does not fit the variable is refused, and the variable stays as it was
    def refused(h, spec, other):
        k = Kind(h, *spec)
        x, X = k.make((2,))
        v = k.variable(x)
        bad = other(h, k)
        try:
            k.prot.assign(v, bad)
        except (AssertionError, TypeError, ValueError, rtf.errors.InvalidArgumentError, S.Unsupported):
            k.check("unchanged", v.read_value(), X)
            h.ensure_true("refused", True)
            return
        h.ensure_true("refused", False, "a value of another kind was assigned")

    def alt(**kw):
        def other(h, k):
            k2 = Kind(h, k.which, kw.get("kind", k.kind), kw.get("scaled", k.scaled), k.prot.fixedpoint_config, kw.get("factory", k.factory))
            k2.prot, k2.n = k.prot, 10
            tfe.set_protocol(k.prot)
            return k2.make(kw.get("shape", (2,)))[0]
        return other
    for tag, *spec in kinds():
        if "ring" in tag:
            continue
        which, kind, scaled = spec[:3]
        others = [("scaling", alt(scaled=not scaled)), ("kind", alt(kind="public" if kind != "public" else {"pond": "private", "aby3": "arith"}[which]))]
        if kind in ("arith", "bool"):
            others.append(("share-type", alt(kind={"arith": "bool", "bool": "arith"}[kind])))
        for n, other in others:
            r.case("refused[%s,%s]" % (tag, n), lambda h, spec=spec, other=other: refused(h, spec, other), trials=1)


# ---- queues ---------------------------------------------------------------------------------
def fifo(r):
    def order(h, shape, script, shared):
        prot = LP.new_prot(h)
        # the name is what sharing is by: a fresh one on every run
        fifo.runs += 1
        name = shared and "q%d" % fifo.runs
        mk = lambda: prot.fifo_queue(capacity=4, shape=rtf.TensorShape(shape), shared_name=name)
        q = mk()
        ends = [q, mk() if shared else q]
        expected, kept = [], []
        for i, step in enumerate(script):
            end = ends[i % 2]
            if step == "e":
                x, X = LP.private(h, prot, "x%d" % i, shape, True)
                end.enqueue(x)
                expected.append(X)
                kept.append((x, X))
            else:
                LP.check_any(h, prot, "dequeued%d" % i, end.dequeue(), expected.pop(0), True)
            n = ends[0].size()
            h.ensure_true("size%d" % i, int(n.numpy() if hasattr(n, "numpy") else n) == len(expected), "size %s" % n)
        for i, (x, X) in enumerate(kept):
            LP.check_any(h, prot, "enqueued%d" % i, x, X, True)
    for shape in ((2,), (), (1, 2)):
        for script in ("ed", "eedd", "eeeedddd", "ededed", "eededdeedd"):
            for shared in (False, True):
                r.case("queue[%s,%s]%s" % (script, "shared" if shared else "own", list(shape)),
                       lambda h, shape=shape, script=script, shared=shared: order(h, shape, script, shared), trials=1, contracts=(queues.contract,))

    def apart(h):
        prot = LP.new_prot(h)
        fifo.runs += 1
        a, b, c = [prot.fifo_queue(capacity=2, shape=rtf.TensorShape([2]), shared_name=n) for n in (None, None, "q%d" % fifo.runs)]
        xs = [LP.private(h, prot, "x%d" % i, (2,), True) for i in range(4)]
        for q, (x, _) in zip((a, b, c, a), xs):
            q.enqueue(x)
        for l, q, i in (("c", c, 2), ("a", a, 0), ("b", b, 1), ("a2", a, 3)):
            LP.check_any(h, prot, "from-" + l, q.dequeue(), xs[i][1], True)
    r.case("queues-apart", apart, trials=1, contracts=(queues.contract,))

    def bad(h, which):
        prot = LP.new_prot(h)
        q = prot.fifo_queue(capacity=2, shape=rtf.TensorShape([2]), shared_name=None)
        x = {"unscaled": lambda: LP.private(h, prot, "x", (2,), False)[0], "public": lambda: LP.public(h, prot, "x", (2,), True)[0],
             "shape": lambda: LP.private(h, prot, "x", (3,), True)[0]}[which]()
        try:
            q.enqueue(x)
        except (AssertionError, TypeError, ValueError):
            h.ensure_true("refused", True)
            return
        h.ensure_true("refused", False, "a value of another kind was enqueued")
    for which in ("unscaled", "public", "shape"):
        r.case("queue-refused[%s]" % which, lambda h, which=which: bad(h, which), trials=1, contracts=(queues.contract,))


fifo.runs = 0


# ---- carriers of traced functions -------------------------------------------------------------
def carriers(r):
    def trip(h, spec, shape):
        k = Kind(h, *spec)
        x, X = k.make(shape)
        k.check("bone", k.prot.from_bone(x.bone), X)
        k.check("twice", k.prot.from_bone(k.prot.from_bone(x.bone).bone), X)
        v = k.variable(x)
        k.check("variable", k.prot.from_bone(v.bone), X)
        y, Y = k.make(shape)
        b = v.bone
        k.prot.assign(v, y)
        k.check("variable-assigned", k.prot.from_bone(v.bone), Y)
        k.check("bone-kept", k.prot.from_bone(b), X)
        k.check("wrapped", M.wrap_func(M.unwrap_func([x, (y, 3), "s"]))[0], X)
        a, kw = M.input_wrap(*M.input_unwrap((x, 2), {"p": y, "q": [x, y], "n": None}))
        k.check("positional", a[0], X)
        k.check("by-name", kw["p"], Y)
        k.check("listed", kw["q"][1], Y)
        h.ensure_true("plain-arguments", a[1] == 2 and kw["n"] is None, "plain arguments changed")
    for tag, *spec in kinds():
        for shape in ((2,), ()):
            r.case("carrier[%s]%s" % (tag, list(shape)), lambda h, spec=spec, shape=shape: trip(h, spec, shape), trials=1)

    def masked(h, scaled):
        prot = LP.new_prot(h)
        x, X = LP.masked(h, prot, "x", (2,), scaled)
        y = prot.from_bone(x.bone)
        LP.check_any(h, prot, "masked", y, X, scaled)
        h.ensure_true("masked.kind", isinstance(y, P.PondMaskedTensor), "result is %s" % type(y).__name__)
    for scaled in (False, True):
        r.case("carrier[masked,%s]" % scaled, lambda h, scaled=scaled: masked(h, scaled), trials=1)

    # what tfe.function itself does around the trace
    def through(h, spec):
        k = Kind(h, *spec)
        (x, X), (y, Y) = k.make((2,)), k.make((2,))
        v = k.variable(x)
        add = {"public": lambda a, b: a + b, "private": lambda a, b: a + b, "arith": lambda a, b: a + b, "bool": lambda a, b: k.prot.xor(a, b)}[k.kind]
        want = lambda a, b: LA.vmap(T.xor if k.kind == "bool" else T.add, a, b)
        f = tfe.function(lambda a, b=None: add(a, b) if b is not None else a)
        g = tfe.function(lambda a: add(a, v))
        both = tfe.function(lambda l: [l[1], l[0]])
        k.check("pair", f(x, y), want(X, Y))
        k.check("one", f(x), X)
        k.check("named", f(y, b=x), want(X, Y))
        k.check("again", f(y, y), want(Y, Y))
        k.check("captured", g(x), want(X, X))
        k.prot.assign(v, y)
        k.check("captured-assigned", g(x), want(X, Y))
        s, t = both([x, y])
        k.check("list0", s, Y)
        k.check("list1", t, X)
    for tag, *spec in kinds():
        if "128" in tag and "bool" not in tag and spec[1] == "arith" and "ring" in tag:
            continue
        r.case("function[%s]" % tag, lambda h, spec=spec: through(h, spec), trials=3)


# ---- traced functions on the real framework -----------------------------------------------------
def traced(r):
    def programs(k):
        p = k.prot
        pub = p.define_constant(np.array([1.5, -2.0]))
        P_ = [("add", lambda a, b: a + b, lambda a, b: a + b), ("sub", lambda a, b: a - b, lambda a, b: a - b), ("mul", lambda a, b: a * b, lambda a, b: a * b),
              ("mul-mul", lambda a, b: a * b * a, lambda a, b: a * b * a), ("public", lambda a, b: a * pub + 1, lambda a, b: a * np.array([1.5, -2.0]) + 1),
              ("reshape", lambda a, b: p.matmul(p.reshape(a, [1, 2]), p.reshape(b, [2, 1])), lambda a, b: (a.reshape(1, 2) @ b.reshape(2, 1))),
              ("constant", lambda a, b: a + p.define_constant(np.array([4., 5.])), lambda a, b: a + np.array([4., 5.]))]
        if k.which == "aby3":
            P_ += [("relu", lambda a, b: p.relu(a - b), lambda a, b: np.maximum(a - b, 0)), ("max", lambda a, b: p.maximum(a, b), np.maximum),
                   ("boolean", lambda a, b: p.b2a(p.a2b(a)) + b, lambda a, b: a + b), ("greater", lambda a, b: p.mul_ab(a, p.greater_than(a, b)), lambda a, b: np.where(a > b, a, 0))]
        return P_

    def fn(h, which, cfg, name):
        k = Kind(h, which, "private" if which == "pond" else "arith", True, cfg, None)
        p = k.prot
        rng = h.rng
        val = lambda: np.array([rng.randrange(-400, 400) / 64 for _ in range(2)])
        tol = 0.05
        f, g = {n: (f, g) for n, f, g in programs(k)}[name]
        c = p.define_private_variable(np.zeros(2))
        # the second half uses a variable that is not an argument
        t = tfe.function(lambda a, b: (f(a, b), f(a, b) + c if name != "reshape" else a + c))
        kept = []
        for i in range(3):
            a, b, C = val(), val(), val()
            if i == 1:
                b = a
            x, y = p.define_private_variable(a), p.define_private_variable(b)
            p.assign(c, p.define_private_variable(C) + 0)
            (got, second), direct = t(x, y), f(x, y)
            want = g(a, b)
            for l, z, w in (("traced", got, want), ("direct", direct, want), ("captured", second, (want if name != "reshape" else a) + C)):
                v = np.array(z.reveal().to_native())
                h.ensure_true("%s-call%d" % (l, i), v.shape == w.shape and bool(np.all(np.abs(v - w) <= tol)), "%s instead of %s" % (v, w))
            h.ensure_true("kind%d" % i, type(got) is type(direct) and bool(got.is_scaled) == bool(direct.is_scaled) and got.share_type == direct.share_type, "another kind of value")
            kept.append((got, want))
        for z, w in kept:
            v = np.array(z.reveal().to_native())
            h.ensure_true("earlier-results", bool(np.all(np.abs(v - w) <= tol)), "%s instead of %s" % (v, w))
    for which, cfg, names in (("pond", None, ("add", "sub", "mul", "mul-mul", "public", "reshape", "constant")),
                              ("aby3", fixed64_heuristic, ("add", "sub", "mul", "mul-mul", "public", "reshape", "constant", "relu", "boolean", "greater")), ("aby3", fixed128_heuristic, ("mul", "reshape", "constant"))):
        for name in names:
            r.case("traced[%s,%s,%s]" % (which, 64 if cfg is not fixed128_heuristic else 128, name), lambda h, which=which, cfg=cfg, name=name: fn(h, which, cfg, name), sym=False, real=True, trials=1, runs=1,
                   bounded_note="the same traced program called several times on the real framework with fresh values, against the direct call and the plain result")

    # one function, several protocol instances and number formats
    def instances(h):
        import copy
        cfg = copy.copy(LP.new_prot(h).fixedpoint_config)
        cfg.precision_fractional -= 4
        ps = [LP.new_prot(h), LP.new_prot(h, fixedpoint_config=cfg), LA.new_prot(h), LA.new_prot(h, fixedpoint_config=fixed128_heuristic)]
        f = tfe.function(lambda a, b: a * b + a)
        for i in (0, 1, 0, 2, 3, 1, 2, 0):
            tfe.set_protocol(ps[i])
            a, b = h.rng.randrange(-99, 99) / 8, h.rng.randrange(-99, 99) / 8
            z = f(ps[i].define_private_variable(np.array([a])), ps[i].define_private_variable(np.array([b])))
            v = float(np.array(z.reveal().to_native())[0])
            h.ensure_true("value", abs(v - (a * b + a)) < 0.2, "instance %d: %s instead of %s" % (i, v, a * b + a))
            h.ensure_true("owner", z.prot is ps[i])
    r.case("traced[instances]", instances, sym=False, real=True, trials=1, runs=2, bounded_note="one traced function under four protocol instances in turn")

    # scaling flags, share types, shapes and plain arguments of the same function
    def flags(h):
        p = LA.new_prot(h)
        f = tfe.function(lambda a, n: a + a if n == 2 else a)
        X = np.array([3, 5])
        for i, (kw, n) in enumerate(itertools.product((dict(apply_scaling=True), dict(apply_scaling=False), dict(apply_scaling=False, share_type=BOOL)), (1, 2, 1))):
            if "share_type" in kw and n == 2:
                continue
            for v in (X, X.reshape(1, 2), X[:1] * 7):
                x = p.define_private_variable(v, **kw)
                z = f(x, n)
                h.ensure_true("kind", z.share_type == x.share_type and bool(z.is_scaled) == kw["apply_scaling"], "%s %s" % (z.share_type, z.is_scaled))
                got = np.array(z.reveal().to_native())
                h.ensure_true("value", got.shape == v.shape and bool(np.all(got == v * n)), "%s instead of %s" % (got, v * n))
    r.case("traced[kinds]", flags, sym=False, real=True, trials=1, runs=1, bounded_note="one traced function called with different scaling, share types, shapes and plain arguments")


def build(r):
    variables(r)
    fifo(r)
    carriers(r)
    traced(r)


if __name__ == "__main__":
    main("C19", build)
