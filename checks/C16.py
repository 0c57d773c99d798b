"""The secure random operations: compiled from /repo/operations/secure_random on every run and executed on symbolic streams."""
import struct
import sys

import numpy as np

from engine import llvm as L
from engine import native as N
from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER

vec = S._vec
BLOCK = 64


def module():
    return sys.modules["tf_encrypted.operations.secure_random.secure_random"].secure_random_module


def real_module():
    return S.REAL.get("secure_random") or getattr(module(), "real", None) or module()


# ------------------------------------------------------------------ the stream on concrete runs: ChaCha20 as libsodium documents it
def chacha_block(key, counter, nonce=b"LibsodiumDRG"):
    s = list(struct.unpack("<4I", b"expand 32-byte k")) + list(struct.unpack("<8I", key)) + [counter] + list(struct.unpack("<3I", nonce))
    x = list(s)

    def qr(a, b, c, d):
        for p, q, t, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            x[p] = (x[p] + x[q]) & 0xffffffff
            v = x[t] ^ x[p]
            x[t] = (v << r | v >> (32 - r)) & 0xffffffff
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & 0xffffffff for a, b in zip(x, s)])


def words(key, first, count, size):
    raw = b"".join(chacha_block(key, first + i) for i in range(count))
    return [int.from_bytes(raw[i:i + size], "little") for i in range(0, len(raw), size)]


def zone_of(w, rng):
    """largest accepted word: the accepted words are a whole number of ranges, the most there are"""
    return T.mask(w) - ((1 << w) - rng) % rng


# ------------------------------------------------------------------ one run of the kernel on symbolic streams
class Policy:
    """assumes of each word the kernel reads whether it is an accepted one; `reject(main, k)` says so for the k-th word of its kind"""

    def __init__(self, w, lo, hi, reject, nmain):
        self.w, self.reject, self.nmain = w, reject, nmain
        self.R = T.sub(hi, lo)
        if T.is_const(self.R):
            z = zone_of(w, self.R.val or (1 << w))
            self.zone = T.const(z, w)
            self.can = z != T.mask(w)
        else:
            self.zone = T.sub(T.const(T.mask(w), w), T.divop("urem", T.neg(self.R), self.R))
            self.can = True
        self.accepted, self.extra = {}, 0

    def __call__(self, stream, key, block, off, v):
        if v.w != self.w or key[0] == "fresh" and off is not None and len(stream.requests) and stream.requests[-1][1] == 32:
            return
        size = self.w // 8
        i = None if block is None else (block * BLOCK + off) // size
        if i is not None and i < self.nmain:
            bad = self.reject(True, i)
        else:
            bad = self.reject(False, self.extra)
            self.extra += 1
        bad = bad and self.can
        self.accepted[v] = not bad
        le = T.ule(v, self.zone)
        S.CTX.assume(T.bnot(le) if bad else le)


def symbolic(h, op, w, lo, hi, n, reject, seed=None, shard=0, threads=1, shape=None, bounds="own"):
    size = w // 8
    per = min(shard, n) if shard else n
    pol = Policy(w, lo, hi, reject, per)
    st = N.Stream(size, pol)
    shape = (n,) if shape is None else shape
    dt = "int%d" % w if w < 128 else "i128"
    ins = [("int32", np.array([T.const(d, 32) for d in shape], dtype=object))]
    if seed is not None: ins.append(("int32", seed))
    for b in (lo, hi):
        if w == 128 and bounds == "int64": ins.append(("int64", np.array(T.trunc(b, 64), dtype=object)))
        else: ins.append((dt, np.array(b, dtype=object)))

    def undecided(c):
        if not st.words: return          # the test of the range itself
        raise (L.UB if w == 8 or T.is_const(pol.R) else L.Unsupported)("which words are accepted is not settled by the whole number of ranges: %s" % T.show(c))
    N.ON_FORK = undecided
    try:
        got = N.run("secure_random", op, ins, (dt, n + 4), types="int64" if w == 128 else dt, threads=threads, shard=shard, stream=st)
    except (L.UB, L.CheckFailed) as e:
        h.ensure_true("runs", False, "%s: %s" % (type(e).__name__, e))
        return None, st, pol
    finally:
        N.ON_FORK = None
    return got, st, pol


def check_draws(h, got, st, pol, lo, hi, n, shape=None):
    h.ensure_true("shape", got.shape == ((n,) if shape is None else shape), "%s" % (got.shape,))
    used = {}
    for i, g in enumerate(got.reshape(-1)):
        mine = [v for v in T.free_vars(g) if v in pol.accepted]
        h.ensure_true("one-word-per-draw", len(mine) == 1, "element %d is a function of %d words of the stream" % (i, len(mine)))
        if len(mine) != 1: continue
        v = mine[0]
        h.ensure_true("no-word-twice", v not in used, "elements %s and %d use the same word %s" % (used.get(v), i, v.val))
        used[v] = i
        h.ensure_true("accepted-words-only", pol.accepted[v], "element %d uses the word %s outside the whole number of ranges" % (i, v.val))
        h.ensure("uniform-function-of-the-word", T.eq(g, T.add(lo, T.divop("urem", v, pol.R))))


def ranges(w):
    m = 1 << (w - 1)
    out = [(0, 1), (0, 2), (-m, m - 1), (-m, 0), (0, m - 1), (-3, 4), (0, 5), (-m, m // 2), (m - 2, m - 1), (-m, -m + 3), (-m + 1, m - 1)]
    if w > 8: out += [(0, 107), (-(m // 2), m // 2 + 1), (0, m // 2 + 1), (-200, 4000)]
    return out


HISTORY = [("none", lambda main, k: False), ("first", lambda main, k: main and k == 0), ("all", lambda main, k: main),
           ("every-second-twice", lambda main, k: k % 2 == 0 if main else k % 3 == 0)]


def concrete(h, op, w, lo, hi, shape, seed=None):
    """the operation that ships, against the stream computed by the specification"""
    size = w // 8
    n = int(np.prod(shape)) if shape else 1
    f = real_module()
    if w == 128:
        b = [rtf.constant([T.to_signed(x & T.mask(64), 64), T.to_signed(x >> 64 & T.mask(64), 64)], rtf.int64) for x in (lo, hi)]
    else:
        b = [rtf.constant(x, "int%d" % w) for x in (lo, hi)]
    name = ("i128_" if w == 128 else "") + ("secure_seeded_random_uniform" if seed is not None else "secure_random_uniform")

    def draw(s):
        r = getattr(f, name)(list(shape) if shape else np.zeros((0,), np.int32), *([s] if s is not None else []), *b).numpy()
        if w == 128: r = np.array([(int(p) & T.mask(64)) | int(q) << 64 for p, q in r.reshape(-1, 2)], dtype=object)
        return [int(x) for x in r.reshape(-1)]
    out = draw(seed)
    h.ensure_true("length", len(out) == n, "%d" % len(out))
    h.ensure_true("in-range", all(lo <= x < hi for x in out), "%s" % [x for x in out if not lo <= x < hi][:3])
    if seed is None:
        return
    h.ensure_true("function-of-the-seed", draw(seed) == out, "the same seed gives two results")
    R = hi - lo
    z = zone_of(w, R)
    key = np.asarray(seed, np.int32).tobytes()
    nb = -(-n * size // BLOCK)
    main_words = words(key, 0, nb, size)[:n]
    extra = {}
    if any(u > z for u in main_words):
        for u in words(key, nb, 2 * nb + 6, size):
            if u <= z: extra[u % R] = extra.get(u % R, 0) + 1
    for i, (u, x) in enumerate(zip(main_words, out)):
        if u <= z:
            h.ensure_true("uniform-function-of-the-word", x == lo + u % R, "seed %s, element %d: the word %d gives %d, expected %d" % (list(seed), i, u, x, lo + u % R))
        else:
            ok = extra.get(x - lo, 0) > 0
            h.ensure_true("no-word-twice", ok, "seed %s, element %d: its word is rejected and %d comes from no fresh word of the stream" % (list(seed), i, x))
            extra[x - lo] = extra.get(x - lo, 0) - 1


def rseed(h): return np.array([h.rng.randrange(-2**31, 2**31) for _ in range(8)], np.int32)


def seeded(r):
    for w in (8, 16, 32, 64, 128):
        size = w // 8
        per = BLOCK // size
        op = "SecureSeededRandomUniform" if w < 128 else "I128SecureSeededRandomUniform"
        for lo, hi in ranges(w):
            for tag, reject in HISTORY:
                lens = sorted({1, 3, per, per + 1})
                if tag == "none": lens = [1, per + 1]
                if tag == "all": lens = [3, per - 1 or 1, per, per + 2]
                for n in lens:
                    full = zone_of(w, hi - lo) == T.mask(w)
                    if full and tag not in ("none",): continue
                    if TIER == "quick" and (lo, hi) not in ranges(w)[2:7:2] and n != lens[-1]: continue

                    def fn(h, w=w, op=op, lo=lo, hi=hi, n=n, reject=reject):
                        if h.sym:
                            seed = h.array("seed", (8,), 32)
                            l, u = T.const(lo, w), T.const(hi, w)
                            got, st, pol = symbolic(h, op, w, l, u, n, reject, seed)
                            if got is None:
                                h.ensure_true("accepts", False, "the kernel refuses the range")
                                return
                            check_draws(h, got, st, pol, l, u, n)
                            h.ensure_true("stream-of-the-seed-only", all(k[0] != "fresh" and k[1] == tuple(seed) for k, _, _ in st.requests),
                                          "a request that is not of the given seed")
                        else:
                            concrete(h, op, w, lo, hi, (n,), rseed(h))
                            concrete(h, op, w, lo, hi, (9 * per + 3,), rseed(h))
                    r.case("seeded[%d,%d..%d,%s,%d]" % (w, lo, hi, tag, n), fn, trials=1 if n != 3 else 3)
        for shape in ((), (2, 2), (1, 3)):
            def fn(h, w=w, op=op, shape=shape):
                n = int(np.prod(shape)) if shape else 1
                if h.sym:
                    seed = h.array("seed", (8,), 32)
                    l, u = T.const(-7, w), T.const(6, w)
                    got, st, pol = symbolic(h, op, w, l, u, n, HISTORY[2][1], seed, shape=shape)
                    check_draws(h, got, st, pol, l, u, n, shape)
                else:
                    concrete(h, op, w, -7, 6, shape, rseed(h))
            r.case("seeded-shape[%d,%s]" % (w, shape), fn)


def any_range(r):
    """minval and maxval arbitrary"""
    for w in (8, 16, 64):
        for is_seeded in (True, False):
            for tag, reject in HISTORY[:2 if w == 8 else 1]:
                op = ("SecureSeededRandomUniform" if is_seeded else "SecureRandomUniform")

                def fn(h, w=w, op=op, is_seeded=is_seeded, reject=reject):
                    lo, hi = h.var("lo", w), h.var("hi", w)
                    if h.sym:
                        if w == 64:   # the division of two arbitrary 64-bit words is kept as a term; the range is not empty
                            S.CTX.assume(T.slt(lo, hi))
                        seed = h.array("seed", (8,), 32) if is_seeded else None
                        got, st, pol = symbolic(h, op, w, lo, hi, 1, reject, seed)
                        if got is None:
                            h.ensure("refuses-only-empty-ranges", T.sle(hi, lo))
                            return
                        h.ensure("range-not-empty", T.slt(lo, hi))
                        check_draws(h, got, st, pol, lo, hi, 1)
                        if w == 8:
                            g = got.reshape(-1)[0]
                            h.ensure("in-range", T.conj(T.sle(lo, g), T.slt(g, hi)))
                            h.ensure("whole-number-of-ranges", T.eq(T.divop("urem", T.add(T.zext(pol.zone, 16), T.const(1, 16)), T.zext(pol.R, 16)), T.const(0, 16)))
                    else:
                        l, u = T.to_signed(lo.val, w), T.to_signed(hi.val, w)
                        if l < u: concrete(h, op, w, l, u, (5,), rseed(h) if is_seeded else None)
                r.case("any-range[%d,%s,%s]" % (w, is_seeded, tag), fn, trials=4)


def unseeded(r):
    for w in (8, 16, 32, 64, 128):
        op = "SecureRandomUniform" if w < 128 else "I128SecureRandomUniform"
        for lo, hi in [ranges(w)[k] for k in (2, 4, 5, 7)]:
            for tag, reject in HISTORY:
                if zone_of(w, hi - lo) == T.mask(w) and tag != "none": continue
                for n, shard in ((5, 0), (5, 2), (4, 1)):
                    def fn(h, w=w, op=op, lo=lo, hi=hi, n=n, shard=shard, reject=reject):
                        if h.sym:
                            l, u = T.const(lo, w), T.const(hi, w)
                            got, st, pol = symbolic(h, op, w, l, u, n, reject, None, shard=shard, threads=4)
                            if got is None:
                                h.ensure_true("accepts", False, "the kernel refuses the range")
                                return
                            check_draws(h, got, st, pol, l, u, n)
                            keys = [k for k, size, ic in st.requests if k != "fresh" and ic == 0]
                            h.ensure_true("a-seed-per-shard", len(set(keys)) == len(keys), "two shards expand the same seed")
                            for k in keys:
                                h.ensure_true("whole-seed-is-fresh", len(set(k[1])) == 8 and all(s.op == "var" and str(s.val).startswith("strm") for s in k[1]),
                                              "the seed of a shard is not 32 fresh bytes")
                        else:
                            concrete(h, op, w, lo, hi, (n,))
                            concrete(h, op, w, lo, hi, (700,))
                    r.case("unseeded[%d,%d..%d,%s,%d/%d]" % (w, lo, hi, tag, n, shard), fn, trials=1)

    def seed(h):
        if h.sym:
            st = N.Stream(4)
            got = N.run("secure_random", "SecureSeed", [], ("int32", 16), stream=st)
            h.ensure_true("shape", got.shape == (8,), "%s" % (got.shape,))
            h.ensure_true("fresh", len(set(got)) == 8 and all(g.op == "var" for g in got), "not eight different fresh words")
        else:
            a, b = real_module().secure_seed().numpy(), real_module().secure_seed().numpy()
            h.ensure_true("fresh", a.shape == (8,) and not np.array_equal(a, b), "two seeds agree")
    r.case("secure-seed", seed)

    # a bound of the 128-bit operations given as one 64-bit number
    for lo, hi in ((-5, 9), (0, 1), (-(1 << 63), (1 << 63) - 1)):
        for is_seeded in (True, False):
            def fn(h, lo=lo, hi=hi, is_seeded=is_seeded):
                op = "I128SecureSeededRandomUniform" if is_seeded else "I128SecureRandomUniform"
                if h.sym:
                    l, u = T.const(lo, 128), T.const(hi, 128)
                    seed = h.array("seed", (8,), 32) if is_seeded else None
                    got, st, pol = symbolic(h, op, 128, l, u, 3, HISTORY[1][1], seed, bounds="int64")
                    if got is None: h.ensure_true("accepts", False, "the kernel refuses the range")
                    else: check_draws(h, got, st, pol, l, u, 3)
                else:
                    f = real_module()
                    a = [rtf.constant(x, rtf.int64) for x in (lo, hi)]
                    v = (f.i128_secure_seeded_random_uniform([20], rseed(h), *a) if is_seeded else f.i128_secure_random_uniform([20], *a)).numpy()
                    v = [(int(p) & T.mask(64)) | int(q) << 64 for p, q in v]
                    h.ensure_true("in-range", all(lo <= x < hi for x in v), "%s" % v[:3])
            r.case("i128-scalar-bounds[%d..%d,%s]" % (lo, hi, is_seeded), fn)


CXX = {8: "signed char", 16: "short", 32: "int", 64: "long", 128: "__int128"}


def successor(r):
    """The source of replacement words, for any number of rejections: from any state it can be in, the next words are those of one
    block of the seed's stream in increasing order, then the state is the same one with the next block."""
    for w in (8, 16, 32, 64, 128):
        def fn(h, w=w):
            if not h.sym:
                return
            size, per = w // 8, BLOCK // (w // 8)
            seed = h.array("seed", (8,), 32)
            st = N.Stream(size)
            st.symbolic_counter = True
            fs = N.functions("secure_random")
            t = CXX[w]
            ctor = [fs[n] for n in fs if n.startswith("SeededGenerator<%s>::SeededGenerator(%s*" % (t, t))]
            step = [fs[n] for n in fs if n.startswith("SeededGenerator<%s>::GetNextValidData()" % t)]
            if not ctor or not step: raise L.Unsupported("no SeededGenerator<%s>" % t)
            mc = N.machine("secure_random", st)
            def word(v): return T.concat(L._n(v[1], 64), L._n(v[0], 64)) if isinstance(v, list) else L._n(v, w)
            sp = mc.alloc(32)
            for i in range(8): mc.store(sp + 4 * i, seed[i], 4)
            n = 3
            ob, out = mc.alloc(8192), mc.alloc(n * size)
            mc.call(ctor[0], [ob, out, n, sp])
            where = {x["var"]: x for x in st.words.values()}
            last, starts, cur = (-1, -1), [], None
            main = (n * size - 1) // BLOCK
            for k in range(3 * per + 2):
                before = len(st.requests)
                v = word(mc.call(step[0], [ob]))
                where = {x["var"]: x for x in st.words.values()}
                h.ensure_true("a-word-of-the-stream", v in where and where[v]["key"][1] == tuple(seed), "replacement %d is no word of the seed's stream" % k)
                if v not in where: return
                pos = (where[v]["block"], where[v]["off"])
                h.ensure_true("after-the-last-word", pos > last and pos[0] > main, "replacement %d is at %s after %s" % (k, pos, last))
                last = pos
                if len(st.requests) > before: starts.append((dict(mc.mem), st.requests[-1][2]))
            if len(starts) < 2: raise L.Unsupported("no second block")
            # the state after a block against the state after the one before: the block number is one more, the words are renamed
            (a, _), (b, block) = starts[:2]
            cell = None
            for ad in range(ob, ob + 8192):
                x, y = a.get(ad), b.get(ad)
                if x is None and y is None or x == y: continue
                if x is None or y is None: raise L.Unsupported("the states differ in what is written")
                (p, m), o = x
                (q, m2), o2 = y
                if isinstance(p, T.Node) and isinstance(q, T.Node) and p in where and q in where and o == o2 and where[p]["off"] == where[q]["off"] \
                        and where[q]["block"] == where[p]["block"] + 1: continue
                if o == o2 == 0 and isinstance(p, int) and q == p + 1 and cell is None:
                    cell = (ad, m, q)
                    continue
                if cell is not None and cell[0] <= ad < cell[0] + cell[1]: continue
                raise L.Unsupported("the states differ at byte %d" % (ad - ob))
            if cell is None: raise L.Unsupported("no block number in the state")
            # an arbitrary block number
            c = T.var("counter", 8 * cell[1])
            mc.mem = dict(b)
            mc.store(cell[0], c, cell[1])
            c32 = T.trunc(c, 32) if c.w > 32 else c
            delta = block - cell[2]      # block in use = number + delta
            off = where[word(mc.call(step[0], [ob]))]["off"]
            while True:
                before = len(st.requests)
                v = word(mc.call(step[0], [ob]))
                where = {x["var"]: x for x in st.words.values()}
                h.ensure_true("a-word-of-the-stream", v in where and where[v]["key"][1] == tuple(seed), "no word of the seed's stream")
                if v not in where: return
                if len(st.requests) > before: break
                h.ensure_true("after-the-last-word", where[v]["off"] > off, "offset %s after %s" % (where[v]["off"], off))
                off = where[v]["off"]
            nxt = T.add(c32, T.const(1 + delta, 32))
            h.ensure("next-block", T.eq(L._n(st.requests[-1][2], 32), nxt))
            h.ensure_true("of-the-next-block", where[v]["block"] is st.requests[-1][2] or where[v]["block"] == st.requests[-1][2], "a word of another block")
            # and the state is the one before, with the next number
            for ad in range(ob, ob + 8192):
                x, y = b.get(ad), mc.mem.get(ad)
                if x is None and y is None or x == y or cell[0] <= ad < cell[0] + cell[1]: continue
                ok = x is not None and y is not None and x[1] == y[1] and isinstance(x[0][0], T.Node) and isinstance(y[0][0], T.Node) and \
                    x[0][0] in where and y[0][0] in where and where[x[0][0]]["off"] == where[y[0][0]]["off"] and where[y[0][0]]["block"] == st.requests[-1][2]
                if not ok: raise L.Unsupported("the states differ at byte %d" % (ad - ob))
            h.ensure("number-after", T.eq(L._n(mc.load(cell[0], cell[1]), c.w), T.add(c, T.const(1, c.w))))
        r.case("replacement-words[%d]" % w, fn, trials=0)


def interface(r):
    """the Python functions hand every argument to the operation it belongs to"""
    sr = sys.modules["tf_encrypted.operations.secure_random.secure_random"]
    calls = []

    class Spy:
        def __getattr__(self, name):
            def f(*a, **k):
                order = ("shape",) + (("seed",) if "seeded" in name else ()) + ("minval", "maxval")
                calls.append((name, a + tuple(k[n] for n in order[len(a):] if n in k), k))
                return "result%d" % len(calls)
            return f

    SEED = [3, 1, 4, 1, 5, 9, 2, 6]

    def same(x, y): return np.array_equal(np.asarray(x.numpy() if hasattr(x, "numpy") else x), y)

    def num(x): return int(np.asarray(x.numpy() if hasattr(x, "numpy") else x))

    def fn(h):
        saved = sr.secure_random_module
        del calls[:]
        sr.secure_random_module = Spy()
        try:
            with rtf.init_scope():
                for dt in (rtf.int8, rtf.int16, rtf.int32, rtf.int64):
                    a = sr.seeded_random_uniform([2, 3], minval=-5, maxval=17, dtype=dt, seed=SEED)
                    b = sr.random_uniform([2, 3], minval=-5, maxval=17, dtype=dt)
                    (n1, x1, _), (n2, x2, _) = calls[-2:]
                    h.ensure_true("seeded", a == "result%d" % (len(calls) - 1) and n1 == "secure_seeded_random_uniform" and same(x1[0], [2, 3]) and same(x1[1], SEED)
                                  and num(x1[2]) == -5 and num(x1[3]) == 17 and rtf.as_dtype(x1[2].dtype) == dt, "%s" % (calls[-2],))
                    h.ensure_true("unseeded", b == "result%d" % len(calls) and n2 == "secure_random_uniform" and same(x2[0], [2, 3])
                                  and num(x2[1]) == -5 and num(x2[2]) == 17 and rtf.as_dtype(x2[1].dtype) == dt, "%s" % (calls[-1],))
            sr.i128_seeded_random_uniform([4], SEED, [1, 2], [3, 4]); sr.i128_random_uniform([4], [1, 2], [3, 4]); sr.secure_seed()
            want = [("i128_secure_seeded_random_uniform", ([4], SEED, [1, 2], [3, 4])), ("i128_secure_random_uniform", ([4], [1, 2], [3, 4])), ("secure_seed", ())]
            h.ensure_true("i128", all(n == m and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) for (n, a, _), (m, b) in zip(calls[-3:], want)),
                          "%s" % (calls[-3:],))
            for bad in (dict(dtype=rtf.float32, maxval=3), dict(dtype=rtf.int32)):
                for g in (lambda **k: sr.seeded_random_uniform([1], seed="S", **k), lambda **k: sr.random_uniform([1], **k)):
                    try: g(**bad); ok = False
                    except ValueError: ok = True
                    h.ensure_true("refuses", ok, "%s is accepted" % bad)
        finally:
            sr.secure_random_module = saved
    r.case("python-interface", fn, sym=False, trials=1)


def build(r):
    r.assumptions += [
        "libsodium: randombytes_buf gives fresh uniform words; the deterministic forms give the ChaCha20 stream of (key, nonce) at the stated block",
        "Shard calls its function on contiguous disjoint ranges covering the whole (three ways to cut them are run)",
        "the rejection histories of the whole operation are the named ones, up to a whole block of rejections and the step to the next; that replacement words never repeat is by induction over the generator's state (replacement-words)",
        "for words of 16 bits and more the ranges are listed, plus arbitrary ones with the division kept as a term; for 8 bits all ranges",
        "clang 18's translation to LLVM IR (-O1); g++ -O2 compiles the code that ships (the concrete runs use that one, against ChaCha20 computed here)",
        "a stream shorter than 2^32 blocks"]
    seeded(r)
    any_range(r)
    unseeded(r)
    successor(r)
    interface(r)


if __name__ == "__main__":
    main("C16", build)
