"""The C++ kernels of /repo/operations under contract: compiled from the working tree, run symbolically (llvm.py)."""
import atexit
import os
import shutil
import struct
import subprocess
import tempfile

import numpy as np

from . import env
from . import llvm as L
from . import solve
from . import symtf as S
from . import term as T

DT = {"double": (2, 8), "int32": (3, 4), "int16": (5, 2), "int8": (6, 1), "int64": (9, 8), "bool": (10, 1), "uint64": (23, 8),
      "i128": (9, 16)}     # i128: an int64 tensor with a last axis of 2, seen as 128-bit words
_MODS = {}
FUNCS = set()
STATS = {"runs": 0, "steps": 0}


def include_dir():
    import tensorflow as tf
    return tf.sysconfig.get_include()


def _demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else list(names)


def module(name):
    if name not in _MODS:
        d = tempfile.mkdtemp(prefix="vfnative")
        try:
            m = L.Module(L.compile_ir(name, d, include_dir()))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        table = {}
        for f in m.funcs:
            if f.startswith("vf_kernel_"):
                k = f[len("vf_kernel_"):]
                mc = L.Machine(m, None, None)
                p = mc.alloc(8)
                t = mc.call(f, [p])
                a = mc.load(p, 8)
                s = b""
                while True:
                    c = mc.load(a + len(s), 1)
                    if not c: break
                    s += bytes([c])
                table[(s.decode(), t)] = "vf_run_" + k
        _MODS[name] = (m, table)
    return _MODS[name]


ON_FORK = None     # called instead of exploring both sides, where a contract says that every branch is decided


class Decider:
    """a branch on data: decided by the path condition when it can be, otherwise both sides are explored"""
    cache = {}

    def __init__(self, timeout=10):
        self.timeout = timeout

    def __call__(self, c):
        ass = S.CTX.assumptions
        if c in ass: return True
        n = T.bnot(c)
        if n in ass: return False
        key = (tuple(id(a) for a in ass), c)
        r = Decider.cache.get(key)
        if r is None:
            r = self._ask(ass, c, n)
            Decider.cache[key] = (r[0], list(ass))
        r = r[0]
        if r is None:
            if ON_FORK: ON_FORK(c)
            r = env.ORACLE.choose(2) == 0
            S.CTX.assume(c if r else n)
        return r

    def _ask(self, ass, c, n):
        for goal, v in ((c, True), (n, False)):
            if solve.prove(list(ass), goal, timeout=self.timeout, use_cvc5=False, tries=40).status == "proved":
                return (v,)
        return (None,)


class Stream:
    """libsodium: what the calls return, by contract.  randombytes_buf: fresh uniform words; the deterministic forms: words of a stream
    named by (nonce, key), at a block number and offset.  `word` is the size in bytes of the words the caller reads."""

    def __init__(self, word, on_word=None):
        self.word, self.on_word = word, on_word
        self.symbolic_counter = False
        self.fresh, self.requests, self.words = 0, [], {}
        self.keys = {}

    def _name(self, key):
        if key not in self.keys:
            self.keys[key] = len(self.keys)
        return self.keys[key]

    def _fill(self, m, p, n, key, block, size=None):
        w = size or self.word
        if n % w: raise L.Unsupported("a request of %d bytes" % n)
        k = self._name(key)
        for i in range(n // w):
            if isinstance(block, T.Node):      # an arbitrary block number: one block at a time
                if i * w >= 64: raise L.Unsupported("more than a block at an arbitrary number")
                b, o = block, i * w
                nm = "strm%d_b[%s]_o%d" % (k, T.show(block), o)
                v = T.var(nm, 8 * w)
                self.words.setdefault(nm, dict(key=key, block=b, off=o, var=v))
                m.store(p + i * w, v, w)
                continue
            b, o = (block + i * w // 64, i * w % 64) if block is not None else (None, i * w)
            nm = "strm%d_b%d_o%d" % (k, b, o) if block is not None else "strm%d_%d" % (k, i)
            v = T.var(nm, 8 * w)
            if nm not in self.words:
                self.words[nm] = dict(key=key, block=b, off=o, var=v)
                if self.on_word: self.on_word(self, key, b, o, v)
            m.store(p + i * w, v, w)

    def _key(self, m, p):
        return tuple(L._n(m.load(p + 4 * i, 4), 32) for i in range(8))

    def __call__(self, m, name, a):
        if name == "sodium_init": return 0
        if name == "randombytes_buf":
            self.fresh += 1
            self.requests.append(("fresh", a[1], None))
            if a[1]: self._fill(m, a[0], a[1], ("fresh", self.fresh), None, 4 if a[1] == 32 else None)
            return None
        if name == "randombytes_buf_deterministic":
            key = (b"LibsodiumDRG", self._key(m, a[2]))
            self.requests.append((key, a[1], 0))
            if a[1]: self._fill(m, a[0], a[1], key, 0)
            return None
        if name == "crypto_stream_chacha20_ietf_xor_ic":
            c, src, n, nonce, ic, k = a
            for i in range(n):
                if m.load(src + i, 1) != 0: raise L.Unsupported("the stream is added to something that is not zero")
            nb = bytes(m.load(nonce + i, 1) for i in range(12))
            key = (nb, self._key(m, k))
            if isinstance(ic, T.Node) and not self.symbolic_counter: raise L.Unsupported("a data-dependent block counter")
            self.requests.append((key, n, ic))
            self._fill(m, c, n, key, ic)
            return 0
        return None


def machine(lib, ext):
    m, _ = module(lib)

    def external(mc, name, a):
        if name == "vf_check_failed": raise L.CheckFailed("CHECK at line %d" % a[0])
        if name in ("vf_alloc", "malloc", "_Znwm"): return mc.alloc(a[0])
        if name in ("free", "_ZdlPv", "_ZdlPvm"): return None
        return ext(mc, name, a)
    return L.Machine(m, Decider(), external)


def functions(lib):
    """{demangled name: name} of the functions of the library"""
    m, _ = module(lib)
    names = sorted(m.funcs)
    return dict(zip(_demangle(names), names))


def run(lib, op, ins, out, attrs=None, types=None, threads=1, shard=0, stream=None, status=None):
    """ins: list of (dtype name, object array of terms); out: (dtype name, bytes available) -> object array of terms, or None when the
    kernel reports an error through its context (status gets it) - CHECK failures and undefined behaviour raise."""
    m, table = module(lib)
    t = 0
    if types is not None: t = DT[types][0]
    if (op, t) not in table:
        raise L.Unsupported("no kernel %s for %s" % (op, types))
    ext = stream or (lambda mc, name, a: None)

    def external(mc, name, a):
        if name == "vf_check_failed": raise L.CheckFailed("CHECK at line %d" % a[0])
        if name in ("vf_alloc", "malloc", "_Znwm"): return mc.alloc(a[0])
        if name in ("free", "_ZdlPv", "_ZdlPvm"): return None
        if name == "__cxa_pure_virtual": raise L.UB("pure virtual call")
        if name in ("sodium_init", "randombytes_buf", "randombytes_buf_deterministic", "crypto_stream_chacha20_ietf_xor_ic"):
            return ext(mc, name, a)
        if name.startswith("_ZNSo") or name.startswith("_ZSt"): return a[0] if a else None   # printing
        raise L.Unsupported("call of " + name)

    mc = L.Machine(m, Decider(), external)
    call = mc.alloc(584)
    for o, n in ((0, 4), (4, 4), (8, 4), (12, 4), (16, 8)): mc.store(call + o, 0, n)
    attrs = attrs or {}
    mc.store(call, len(ins), 4); mc.store(call + 4, len(attrs), 4); mc.store(call + 8, threads, 4); mc.store(call + 16, shard, 8)
    for i, (k, v) in enumerate(attrs.items()):
        mc.store(call + 24 + 8 * i, ord(k[0]) * 65536 + ord(k[1]) * 256 + ord(k[2]), 8)
        mc.store(call + 56 + 8 * i, v & L.M64, 8)
    if "vf_shard_size" in m.glob: mc.store(mc.gaddr_of("vf_shard_size"), shard, 8)
    for i, (dt, a) in enumerate(ins):
        a = np.asarray(a, dtype=object)
        code, size = DT[dt]
        b = call + 88 + 96 * i
        dims = a.shape + ((2,) if dt == "i128" else ())
        mc.store(b, code, 4); mc.store(b + 4, len(dims), 4)
        for k in range(len(dims)): mc.store(b + 8 + 8 * k, dims[k], 8)
        buf = mc.alloc(max(1, a.size * size))
        for k, e in enumerate(a.reshape(-1)):
            v = L._v(e)
            if isinstance(v, T.Node) and v.w and v.w < 8 * size: v = T.zext(v, 8 * size)
            mc.store(buf + k * size, v, size)
        mc.store(b + 88, buf, 8)
    dt, cap = out
    code, size = DT[dt]
    ob = mc.alloc(cap * size)
    mc.store(call + 568, ob, 8); mc.store(call + 576, code, 4)
    try:
        mc.call(table[(op, t)], [call])
    finally:
        FUNCS.update(mc.entered)
        STATS["runs"] += 1; STATS["steps"] += mc.steps
    if mc.load(call + 12, 4):
        return None
    nd = mc.load(call + 472 + 4, 4)
    shape = tuple(mc.load(call + 472 + 8 + 8 * k, 8) for k in range(nd))
    if dt == "i128":
        if not shape or shape[-1] != 2: raise L.UB("the output is no tensor of 128-bit words: %s" % (shape,))
        shape = shape[:-1]
    n = int(np.prod(shape)) if shape else 1
    if n > cap: raise L.Unsupported("output of %d elements" % n)
    res = np.empty(n, dtype=object)
    for k in range(n):
        v = mc.load(ob + k * size, size, dt == "double")
        if v is None: raise L.UB("output element %d is never written" % k)
        x = L._n(v, 0 if dt == "double" else 8 * size)
        res[k] = T.trunc(x, 1) if dt == "bool" else x
    return res.reshape(shape)
