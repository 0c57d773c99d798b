"""Cases, obligations, discharge, replay, evidence."""
import json
import math
import multiprocessing
import os
import pickle
import random
import sys
sys.setrecursionlimit(20000)
import time
import traceback

import numpy as np

from . import env
from . import hostnp
from . import solve
from . import symtf as S
from . import term as T
from .env import rtf, tfe

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Skip(Exception):
    """this case is outside the contract's domain (declared by the harness, not by the code)"""


class Failure(Exception):
    """postcondition false on a concrete run"""
    def __init__(self, label, detail):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class Ob:
    __slots__ = ("case", "label", "path", "assumptions", "goal", "hints", "timeout", "inputs", "result", "kind", "detail")


class H:
    """the interface harness code uses; sym = symbolic run, otherwise a concrete run on the real TensorFlow"""

    def __init__(self, runner, case, sym, rng=None, model=None):
        self.runner, self.case, self.sym = runner, case, sym
        self.rng = rng or random.Random(SEED)
        self.model = model or {}
        self.obs = []
        self.used = {}
        self.hints = {}
        self.failed = []
        self.path = ()
        self.timeout = runner.timeout
        self.checked = 0

    # ---- inputs -------------------------------------------------------
    def var(self, name, w, lo=None, hi=None):
        """an arbitrary word; signed range [lo, hi] when given"""
        if self.sym:
            v = T.var(name, w)
            if lo is not None:
                if w > 1: T.RANGES[v] = (lo, hi)
                S.CTX.assume(T.sle(T.const(lo, w), v))
                S.CTX.assume(T.sle(v, T.const(hi, w)))
                self.hints[v] = lambda r, lo=lo, hi=hi, w=w: _pick(r, lo, hi) & T.mask(w)
            return v
        if name in self.model:
            val = self.model[name]
        elif lo is not None:
            val = _pick(self.rng, lo, hi)
        else:
            val = solve._rand_val(self.rng, w)
        self.used[name] = val
        return T.const(val, w)

    def array(self, name, shape, w, lo=None, hi=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.var(name + "".join("_%d" % j for j in i), w, lo, hi)
        return a

    def real(self, name, lo, hi):
        """an arbitrary real number in [lo, hi]"""
        if self.sym:
            v = T.var(name, 0)
            T.RANGES[v] = (T.Fraction(lo), T.Fraction(hi))
            S.CTX.assume(T.ule(T.const(lo, 0), v))
            S.CTX.assume(T.ule(v, T.const(hi, 0)))
            self.hints[v] = lambda r: T.Fraction(r.uniform(float(lo), float(hi)))
            return v
        val = float(self.model.get(name, self.rng.uniform(float(lo), float(hi))))
        self.used[name] = val
        return T.const(val, 0)

    def host(self, arr, dtype):
        """object array of terms -> a host numpy array of the given dtype"""
        a = np.asarray(arr, dtype=object)
        if self.sym:
            return hostnp.make(a, dtype)
        d = np.dtype(dtype)
        v = np.empty(a.shape, dtype=d)
        for i in np.ndindex(*a.shape):
            x = a[i].val
            v[i] = float(x) if d.kind == "f" else T.to_signed(x, 8 * d.itemsize) if d.kind == "i" else x
        return v

    def tensor(self, arr, dtype, device=None):
        """object array of terms -> a TensorFlow tensor of the current mode"""
        dtype = rtf.as_dtype(dtype)
        if self.sym:
            with S.dev(device or ""):
                return S.SymTensor(dtype, arr=np.array(arr, dtype=object) if not isinstance(arr, np.ndarray) else arr)
        a = np.asarray(arr, dtype=object)
        w = S.width(dtype)
        v = np.empty(a.shape, dtype=dtype.as_numpy_dtype)
        for i in np.ndindex(*a.shape):
            x = a[i].val
            v[i] = float(x) if w == 0 else (bool(x) if dtype == rtf.bool else T.to_signed(x, w) if S.is_signed(dtype) else x)
        if device:
            with rtf.device(device):
                return rtf.constant(v, dtype=dtype)
        return rtf.constant(v, dtype=dtype)

    def tensor128(self, arr, device=None):
        a = np.asarray(arr, dtype=object)
        lo, hi = S._vec(S._lo64)(a), S._vec(S._hi64)(a)
        return self.tensor(np.stack([lo, hi], axis=-1), rtf.int64, device)

    def at(self, device):
        """device scope of the current mode"""
        return S.dev(device) if self.sym else rtf.device(device)

    # ---- outputs ------------------------------------------------------
    def terms(self, x):
        """tensor of the current mode -> object array of terms"""
        if isinstance(x, S.SymTensor):
            return x.arr
        if isinstance(x, S.SymVariable):
            return x._v.arr
        v = np.asarray(x.numpy() if hasattr(x, "numpy") else x)
        dt = rtf.as_dtype(v.dtype)
        w = S.width(dt)
        a = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            a[i] = T.const(v[i].item() if w == 0 else int(v[i]), w)
        return a

    def val(self, t):
        """AbstractTensor (backing tensor) -> object array of ring words"""
        name = type(t.factory).__module__
        if name.endswith("int128"):
            a = self.terms(t.value)
            return S._vec(S.join128)(a[..., 0], a[..., 1])
        return self.terms(t.value)

    # ---- obligations --------------------------------------------------
    def assume(self, t):
        if self.sym:
            S.CTX.assume(t)
        elif not (T.is_const(t) and t.val):
            raise Skip("precondition not met by this draw")

    scope = None   # which obligations of a borrowed case count (a predicate on the label)

    def ensure(self, label, goal, kind="post"):
        """goal: a width-1 term or an array of them"""
        if self.scope and not self.scope(label): return
        for g in np.asarray(goal, dtype=object).reshape(-1):
            self.checked += 1
            if self.sym:
                o = Ob()
                o.case, o.label, o.path, o.goal, o.kind, o.detail = self.case, label, tuple(self.path), g, kind, ""
                o.assumptions = S.CTX.assumptions
                o.hints, o.timeout, o.result = self.hints, self.timeout, None
                self.obs.append(o)
            elif not g.val:
                self.failed.append((label, "postcondition is false"))

    def ensure_eq(self, label, got, want, kind="post"):
        if self.scope and not self.scope(label): return
        got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
        if got.shape != want.shape:
            self.ensure_true(label + ".shape", False, "shape %s, expected %s" % (got.shape, want.shape))
            return
        for i in np.ndindex(*got.shape):
            g, x = got[i], want[i]
            if g.w != x.w:
                self.ensure_true(label + ".width", False, "word width %s, expected %s" % (g.w, x.w))
                return
            if self.sym:
                self.ensure(label, T.eq(g, x), kind)
                self.obs[-1].detail = "element %s" % (i,)
            else:
                self.checked += 1
                if g is not x:
                    self.failed.append((label, "element %s: got %s expected %s" % (i, T.show(g), T.show(x))))

    def ensure_independent(self, label, view, secrets):
        """the words of `view` are jointly distributed independently of `secrets` (symbolic runs only)"""
        from . import privacy
        t0 = time.time()
        view.assumptions = list(S.CTX.assumptions)
        ok, pivots, l, t = privacy.prove(view, secrets)
        o = Ob()
        o.case, o.label, o.path, o.goal, o.kind, o.detail = self.case, label, tuple(self.path), T.const(int(ok), 1), "view", ""
        o.assumptions, o.hints, o.timeout = [], {}, self.timeout
        if ok:
            o.result = dict(status="proved", backend="change-of-variables", seconds=time.time() - t0, model={}, detail="%d masks, %d of them statistical" % (pivots, len(view.slack)))
        else:
            d = privacy.distinguish(view, secrets) if self.runner.view_failures < 4 else None
            self.runner.view_failures += 1
            o.detail = "the received word %s is not masked by randomness unknown to this party" % l
            o.result = dict(status="refuted", backend="change-of-variables", seconds=time.time() - t0, model={}, distinguisher=d,
                            detail="view term left: %s = %s" % (l, T.show(t, 8)))
        self.checked += 1
        self.obs.append(o)

    def ensure_true(self, label, cond, detail="", kind="post"):
        """a condition decided during execution (shape, flag, placement, structure)"""
        if self.scope and not self.scope(label): return
        self.checked += 1
        if self.sym:
            o = Ob()
            o.case, o.label, o.path, o.goal, o.kind, o.detail = self.case, label, tuple(self.path), T.const(int(bool(cond)), 1), kind, detail
            o.assumptions, o.hints, o.timeout, o.result = [], {}, self.timeout, None
            self.obs.append(o)
        elif not cond:
            self.failed.append((label, detail or "condition is false"))


def _pick(r, lo, hi):
    k = r.randrange(7)
    if k == 0: return lo + r.randrange(min(3, hi - lo + 1))
    if k == 1: return hi - r.randrange(min(3, hi - lo + 1))
    if k == 2: return min(max(r.randrange(-3, 4), lo), hi)
    if k == 3:
        b = r.randrange(1, max(2, (hi - lo).bit_length()))
        return min(max(r.choice((-1, 1)) * r.getrandbits(b), lo), hi)
    return r.randint(lo, hi)


# ---------------------------------------------------------------- replayed randomness on the real code
class ReplayRandom:
    """secure_random_module for concrete runs: values from the model where it names them, else seeded PRNG"""
    def __init__(self, model, rng, real, uniform=False):
        self.model, self.rng, self.real, self.uniform = model, rng, real, uniform
        self.n = 0
        self.streams = {}

    def _fresh(self, prefix):
        s = "%s%d" % (prefix, self.n)
        self.n += 1
        return s

    def _get(self, name, lo, hi):
        if name in self.model:
            v = int(self.model[name])
            w = (hi - lo).bit_length()
            if lo < 0:
                span = max(1, (max(-lo, hi)).bit_length() + 1)
                v = T.to_signed(v & T.mask(span), span)
            return v if lo <= v < hi else lo + (v - lo) % (hi - lo)
        if self.uniform:
            return self.rng.randrange(lo, hi)
        return _pick(self.rng, lo, hi - 1)

    def secure_seed(self, name=None):
        if not rtf.executing_eagerly():   # being traced: the real kernels
            return self.real.secure_seed(name=name)
        b = self._fresh("seed")
        return rtf.constant([self.rng.randrange(-2**31, 2**31) for _ in range(8)], rtf.int32)

    def _vals(self, base, shape, lo, hi):
        return [self._get("%s" % base + "".join("_%d" % j for j in i), lo, hi) for i in np.ndindex(*shape)]

    def secure_random_uniform(self, shape, minval, maxval, name=None):
        if not rtf.executing_eagerly():   # being traced: the real kernels
            return self.real.secure_random_uniform(shape, minval, maxval, name=name)
        shape = S._shape(shape)
        lo, hi = int(minval), int(maxval)
        v = self._vals(self._fresh("rnd"), shape, lo, hi)
        return rtf.constant(np.array(v, dtype=minval.dtype.as_numpy_dtype).reshape(shape))

    def secure_seeded_random_uniform(self, shape, seed, minval, maxval, name=None):
        if not rtf.executing_eagerly():   # being traced: the real kernels
            return self.real.secure_seeded_random_uniform(shape, seed, minval, maxval, name=name)
        shape = S._shape(shape)
        lo, hi = int(minval), int(maxval)
        key = (np.asarray(seed).tobytes(), minval.dtype, lo, hi)
        if key not in self.streams:
            self.streams[key] = (self._fresh("prf"), [])
        base, lst = self.streams[key]
        n = int(np.prod(shape)) if shape else 1
        while len(lst) < n:
            lst.append(self._get("%s_%d" % (base, len(lst)), lo, hi))
        return rtf.constant(np.array(lst[:n], dtype=minval.dtype.as_numpy_dtype).reshape(shape))

    def _128(self, v, shape):
        a = np.array([[T.to_signed(x & T.mask(64), 64), T.to_signed((x >> 64) & T.mask(64), 64)] for x in v], dtype=np.int64)
        return rtf.constant(a.reshape(tuple(shape) + (2,)))

    def i128_secure_seeded_random_uniform(self, shape, seed, minval, maxval, name=None):
        if not rtf.executing_eagerly():   # being traced: the real kernels
            return self.real.i128_secure_seeded_random_uniform(shape, seed, minval, maxval, name=name)
        shape = S._shape(shape)
        lo, hi = S._c128(np.asarray(minval)), S._c128(np.asarray(maxval))
        key = (np.asarray(seed).tobytes(), "i128", lo, hi)
        if key not in self.streams:
            self.streams[key] = (self._fresh("prf128"), [])
        base, lst = self.streams[key]
        n = int(np.prod(shape)) if shape else 1
        while len(lst) < n:
            lst.append(self._get("%s_%d" % (base, len(lst)), lo, hi))
        return self._128(lst[:n], shape)

    def i128_secure_random_uniform(self, shape, minval, maxval, name=None):
        if not rtf.executing_eagerly():   # being traced: the real kernels
            return self.real.i128_secure_random_uniform(shape, minval, maxval, name=name)
        shape = S._shape(shape)
        lo, hi = S._c128(np.asarray(minval)), S._c128(np.asarray(maxval))
        v = self._vals(self._fresh("rnd128"), shape, lo, hi)
        return self._128(v, shape)


class Case:
    def __init__(self, name, fn, contracts=(), real=True, sym=True, trials=2, max_paths=64, bounded_note=None, uniform=False, runs=None):
        self.uniform, self.runs = uniform, runs
        self.name, self.fn, self.contracts, self.real, self.sym = name, fn, contracts, real, sym
        self.trials, self.max_paths, self.bounded_note = trials, max_paths, bounded_note


class Runner:
    def __init__(self, prop, technique="", timeout=60, workers=8):
        self.prop, self.timeout, self.workers = prop, timeout, workers
        self.cases, self.obs, self.violations, self.notes = [], [], [], []
        self.t0 = time.time()
        self.assumptions, self.trusted = [], []
        self.bounded = []
        self.skipped = []
        self.opset = {}
        self.concrete_runs = 0
        self.stubs_used = set()
        self.only = os.environ.get("VERIF_CASE")
        self.mark = None
        self.view_failures = 0

    def case(self, name, fn, **kw):
        if self.only and self.only not in name:
            return
        self.cases.append(Case(name, fn, **kw))

    # -- symbolic execution of one case ----------------------------------
    def _sym(self, c):
        obs = []
        env.ORACLE.prefix = []
        npaths = 0
        while True:
            env.ORACLE.taken = []
            h = H(self, c.name, True)
            patches = env.ContractPatches()
            try:
                with env.symbolic() as ctx:
                    try:
                        for inst in c.contracts:
                            self.stubs_used.update(inst(patches, h) or ())
                        prev = tfe.get_protocol()
                        tfe.set_config(env.sym_config())
                        c.fn(h)
                        for v, (lo, hi) in T.RANGES.items():
                            h.hints.setdefault(v, lambda r, lo=lo, hi=hi, w=v.w: _pick(r, lo, hi) & T.mask(w))
                        for k, v in ctx.ops.items():
                            self.opset[k] = self.opset.get(k, 0) + v
                    finally:
                        patches.undo()   # before the symbolic framework itself is taken away
            finally:
                pass
            for o in h.obs:
                o.path = tuple(v for v, _ in env.ORACLE.taken)
            obs += h.obs
            npaths += 1
            nxt = env.ORACLE.next_prefix()
            if nxt is None:
                break
            if npaths >= c.max_paths:
                self.bounded.append("%s: only %d random-choice paths explored" % (c.name, npaths))
                break
            env.ORACLE.prefix = nxt
        return obs

    # -- one concrete run on the real TensorFlow --------------------------
    def _real(self, c, seed, model=None):
        rng = random.Random(seed)
        h = H(self, c.name, False, rng=rng, model=model or {})
        sr = sys.modules["tf_encrypted.operations.secure_random.secure_random"]
        saved = sr.secure_random_module
        env.nodes_clear()
        random.seed(seed)
        try:
            sr.secure_random_module = ReplayRandom(model or {}, rng, saved, c.uniform)
            tfe.set_config(env.local_config())
            c.fn(h)
        finally:
            sr.secure_random_module = saved
            env.nodes_clear()
        self.concrete_runs += 1
        return h

    def _real_guard(self, c, seed, model=None):
        """-> ('ok', h) | ('fail', label, detail, inputs) | ('skip', why) | ('raise', exc text)"""
        try:
            h = self._real(c, seed, model)
        except Skip as e:
            return ("skip", str(e))
        except Exception as e:
            tb = traceback.format_exc()
            return ("raise", "%s: %s" % (type(e).__name__, str(e)[:300]), tb)
        if h.failed:
            return ("fail", h.failed[0][0], h.failed[0][1], h.used)
        return ("ok", h)

    def violation(self, case, label, detail, inputs=None, confirmed=True, extra=""):
        self.violations.append(dict(case=case, label=label, detail=detail, inputs=inputs, confirmed=confirmed, extra=extra))

    # -- everything -------------------------------------------------------
    def run(self):
        mon_start()
        failed_cases = set()
        for c in self.cases:
            t0 = time.time()
            symobs, symerr = [], None
            if c.sym:
                try:
                    symobs = self._sym(c)
                    if not symobs:
                        symerr = "no obligations generated"
                except Skip as e:
                    self.skipped.append("%s: %s" % (c.name, e))
                    continue
                except Exception as e:
                    symerr = "%s: %s" % (type(e).__name__, str(e)[:300])
                    symtb = traceback.format_exc()
            # concrete runs on the real code
            res = []
            if c.real:
                if self.mark:
                    with open(self.mark, "w") as f:
                        f.write(c.name)
                # a case the symbolic executor could not run gets a bounded stand-in
                n = c.trials if symerr is None and c.sym else c.runs or max(c.trials, 12 if TIER == "quick" else 60)
                tries = 0
                while len([r for r in res if r[0] != "skip"]) < n and tries < 4 * n:
                    res.append(self._real_guard(c, SEED * 1000 + tries))
                    tries += 1
                    if res[-1][0] in ("fail", "raise"):
                        break
            if self.mark:
                open(self.mark, "w").close()
            bad = next((r for r in res if r[0] in ("fail", "raise")), None)
            if bad and bad[0] == "fail":
                self.violation(c.name, bad[1], bad[2], bad[3])
                failed_cases.add(c.name)
            elif bad:
                self.violation(c.name, "terminates-normally", "the operation raises on an input in its domain: " + bad[1], extra=bad[2])
                failed_cases.add(c.name)
            if symerr is not None and not bad:
                msg = "%s: not within the verifier's reach (%s); bounded stand-in: %d concrete runs" % (
                    c.name, symerr, sum(1 for r in res if r[0] == "ok"))
                self.bounded.append(msg)
                if os.environ.get("VERIF_DEBUG"):
                    print(msg); print(symtb if "symtb" in dir() else "")
            elif symerr is None and c.sym:
                self.obs += symobs
            if not c.sym:
                self.bounded.append("%s: bounded by construction (%s), %d concrete runs" % (
                    c.name, c.bounded_note or "", sum(1 for r in res if r[0] == "ok")))
            if os.environ.get("VERIF_DEBUG"):
                print("case %-60s obs=%d real=%s %.2fs" % (c.name, len(symobs), [r[0] for r in res], time.time() - t0))
        if self.mark and os.path.exists(self.mark):
            os.unlink(self.mark)
        functions = mon_stop()
        self.t_exec = time.time() - self.t0
        self._discharge()
        bycase = {c.name: c for c in self.cases}
        undecided = []
        done = set()
        for o in self.obs:
            r = o.result
            if r["status"] == "proved":
                continue
            key = (o.case, o.label)
            if key in done:
                continue
            if r["status"] == "unknown":
                undecided.append("%s/%s %s: %s" % (o.case, o.label, o.detail, r["detail"]))
                continue
            done.add(key)
            if o.case in failed_cases:
                continue  # already reported with a concrete failing run
            c = bycase[o.case]
            if o.kind == "view":
                d = r.get("distinguisher")
                self.violation(o.case, o.label, o.detail, d, d is not None, extra=r["detail"])
                continue
            conf = None
            if c.real and o.kind != "view":
                for s in range(6):
                    rr = self._real_guard(c, SEED * 77 + s, r["model"] if s < 2 else
                                          {k: v for k, v in (r["model"] or {}).items() if not k.startswith(("prf", "rnd", "seed", "stub"))})
                    if rr[0] == "fail":
                        conf = rr
                        break
            if conf:
                self.violation(o.case, conf[1], conf[2], conf[3], True)
            else:
                self.violation(o.case, o.label, "obligation refuted: %s %s" % (o.detail, r["backend"]),
                               r["model"], False, extra="goal: %s" % T.show(o.goal, 8))
        # undecided obligations: bounded evidence only
        for u in undecided:
            self.bounded.append("undecided within the time limit (not counted as discharged): " + u)
        return self._report(functions, undecided)

    def _discharge(self):
        obs = self.obs
        todo = []
        for i, o in enumerate(obs):
            t = time.time()
            if o.result is not None:
                continue
            if T.is_const(o.goal):
                o.result = dict(status="proved" if o.goal.val else "refuted", backend="normal-form", seconds=0.0, model={}, detail=o.detail)
                continue
            if o.goal.op == "eq":
                try:
                    if not T.poly(T.sub(*o.goal.args)):
                        o.result = dict(status="proved", backend="ring-normal-form", seconds=time.time() - t, model=None, detail="")
                        continue
                except (T.TooBig, RecursionError):
                    pass
            todo.append(i)
            if os.environ.get("VERIF_DEBUG"): print("solver:", o.case, o.label)
        self._todo = todo
        if not todo:
            return
        # identical goals are solved once
        groups = {}
        for i in todo:
            o = obs[i]
            o.assumptions = [a for a in o.assumptions if T.is_const(a) and not a.val] + solve._relevant(o.assumptions, o.goal)
            groups.setdefault((o.goal.id, tuple(sorted(a.id for a in o.assumptions))), []).append(i)
        reps = [v[0] for v in groups.values()]
        global _OBS, _DEADLINE
        _OBS = obs
        _DEADLINE = self.t0 + (600 if TIER == "quick" else 6 * 3600)
        n = min(self.workers, len(reps))
        if n <= 1 or len(reps) < 4:
            results = [_solve_one(i) for i in reps]
        else:
            ctxm = multiprocessing.get_context("fork")
            with ctxm.Pool(n) as pool:
                results = list(pool.imap_unordered(_solve_one, reps, chunksize=1))
        rmap = dict(results)
        for v in groups.values():
            for i in v:
                obs[i].result = rmap[v[0]]

    def _report(self, functions, undecided):
        ob = self.obs
        discharged = [o for o in ob if o.result["status"] == "proved"]
        backends = {}
        for o in discharged:
            backends[o.result["backend"]] = backends.get(o.result["backend"], 0) + 1
        return dict(
            violations=[dict(v, index=self.order.get(v["case"], 0), inputs={k: str(x) for k, x in (v["inputs"] or {}).items()})
                        for v in self.violations],
            obligations=len(ob), discharged=len(discharged), backends=backends,
            solver_seconds=sum(o.result["seconds"] for o in ob), functions=sorted(["%s:%s" % k for k in functions] + _native_functions()),
            opset=self.opset, named=sorted({"%s/%s" % (o.case, o.label) for o in ob}), concrete_runs=self.concrete_runs,
            stubs=sorted(self.stubs_used), bounded=self.bounded, skipped=self.skipped, undecided=undecided,
            cases=len(self.cases), trusted=self.trusted, assumptions=self.assumptions)


def _native_functions():
    """the C++ functions executed symbolically (what the compiler inlined into them is not listed)"""
    n = sys.modules.get("engine.native")
    if n is None: return []
    keep = ("tf_i128::", "::Compute(", "Generator<", "randombytes_", "generate_seed")
    return sorted({"operations:" + d[:160] for d in n._demangle(sorted(n.FUNCS)) if any(k in d for k in keep) and "Eigen::" not in d[:30]})


_OBS = None
_DEADLINE = 1e18


def _solve_one(i):
    o = _OBS[i]
    left = _DEADLINE - time.time()
    if left < 2:
        return i, dict(status="unknown", backend="none", seconds=0.0, model=None, detail="overall time limit of the check")
    try:
        r = solve.prove(o.assumptions, o.goal, timeout=min(o.timeout, left), seed=SEED, hints=o.hints)
        model = None if r.model is None else {str(v.val): (x if not hasattr(x, "numerator") or isinstance(x, int) else x) for v, x in r.model.items()}
        return i, dict(status=r.status, backend=r.backend, seconds=r.seconds, model=model, detail=r.detail)
    except Exception as e:
        return i, dict(status="unknown", backend="error", seconds=0.0, model=None, detail="%s: %s" % (type(e).__name__, e))


# ---------------------------------------------------------------- which functions of /repo ran
_seen = {}


def _on_start(code, off):
    fn = code.co_filename
    if fn.startswith(env.REPO + "/tf_encrypted"):
        _seen[(fn[len(env.REPO) + 1:], code.co_qualname)] = code.co_firstlineno
    return sys.monitoring.DISABLE


def mon_start():
    try:
        sys.monitoring.use_tool_id(4, "verif")
        sys.monitoring.register_callback(4, sys.monitoring.events.PY_START, _on_start)
        sys.monitoring.set_events(4, sys.monitoring.events.PY_START)
    except ValueError:
        pass


def mon_stop():
    try:
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)
    except ValueError:
        pass
    return dict(_seen)


def main(prop, build, **kw):
    import engine
    r = Runner(prop, **kw)
    build(r)
    r.order = {c.name: i for i, c in enumerate(r.cases)}
    i, k = engine.SHARD
    mixed = list(r.cases)
    random.Random(1).shuffle(mixed)
    mine = {c.name for c in mixed[i::k]}
    r.cases = [c for c in r.cases if c.name in mine]
    r.workers = 3 if k > 1 else r.workers
    r.mark = engine.MARK
    out = r.run()
    with open(engine.RESULT + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.rename(engine.RESULT + ".tmp", engine.RESULT)
    sys.stdout.flush()
    os._exit(0)
