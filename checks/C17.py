"""The native kernels: compiled from /repo/operations on every run and executed on symbolic words."""
import itertools

import numpy as np

from engine import llvm as L
from engine import native as N
from engine import symtf as S
from engine import term as T
from engine.env import rtf
from engine.harness import main, TIER

vec = S._vec
MASK64 = (1 << 64) - 1


def lib(name):
    """the compiled operations as TensorFlow loads them (concrete runs)"""
    import sys
    if name == "aux":
        return sys.modules["tf_encrypted.operations.aux.aux"].aux_module
    return sys.modules["tf_encrypted.operations.tf_i128.tf_i128"].tf_i128


def snake(op):
    return dict(I128LogicRightShift="i128_logic_right_shift", I128BitSplitAndGather="i128_bit_split_and_gather", ToI128="to_i128", FromI128="from_i128",
                I128MatMul="i128_mat_mul").get(op) or "".join(("_" if c.isupper() and i and not (op[:4] == "I128" and i < 2) else "") + c.lower()
                                                             for i, c in enumerate(op))


def kernel(h, libname, op, ins, out, want, attrs=None, types=None, threads=(1, 4), label="value"):
    """postcondition of one kernel: the output is `want`, of its shape; no abort, no undefined behaviour, no stray access"""
    want = np.asarray(want, dtype=object)
    if h.sym:
        for th in threads:
            try:
                got = N.run(libname, op, ins, (out, max(1, want.size) + 8), attrs, types, threads=th)
            except (L.UB, L.CheckFailed) as e:
                h.ensure_true("runs", False, "%s: %s" % (type(e).__name__, e))
                continue
            if got is None:
                h.ensure_true("accepts", False, "the kernel reports an error")
                continue
            h.ensure_eq(label, got, want)
        return
    args = []
    for dt, a in ins:
        if dt == "i128": args.append(h.tensor128(np.asarray(a, dtype=object)))
        else: args.append(h.tensor(np.asarray(a, dtype=object), dict(double="float64").get(dt, dt)))
    r = getattr(lib(libname), snake(op))(*args, **(attrs or {}))
    g = h.terms(r)
    if out == "i128": g = vec(S.join128)(g[..., 0], g[..., 1])
    h.ensure_eq(label, g, want)


def aux(r):
    for w in (8, 16, 32, 64):
        dt = "int%d" % w
        starts = range(w) if w == 8 else (0, 1, 3, w // 2, w - 1)
        strides = range(1, 9) if w == 8 else (1, 2, 3, 5, w // 2, w)
        for shape in ((), (3,), (2, 1, 2)):
            for start, stride in itertools.product(starts, strides):
                if shape != (3,) and (start, stride) != (1, 2): continue

                def fn(h, w=w, dt=dt, shape=shape, start=start, stride=stride):
                    x = h.array("x", shape, w)
                    kernel(h, "aux", "BitGather", [(dt, x)], dt, vec(lambda e: T.bits_select(e, list(range(start, w, stride)), w))(x),
                           dict(start=start, stride=stride), dt, threads=(1,))
                r.case("bit_gather[%d,%s,%d,%d]" % (w, shape, start, stride), fn)
            for stride in [s for s in (1, 2, 4, 8, 16, 32, 64) if s <= w]:
                if shape != (3,) and stride != 2: continue

                def fn(h, w=w, dt=dt, shape=shape, stride=stride):
                    x = h.array("x", shape, w)
                    want = np.stack([vec(lambda e, s=s: T.bits_select(e, list(range(s, w, stride)), w))(x) for s in range(stride)], axis=0)
                    kernel(h, "aux", "BitSplitAndGather", [(dt, x)], dt, want, dict(stride=stride), dt)
                r.case("bit_split_and_gather[%d,%s,%d]" % (w, shape, stride), fn)
    for shape in ((), (3,), (2, 1, 2)):
        def fn(h, shape=shape):
            x = h.array("x", shape, 64)
            kernel(h, "aux", "BitReverse", [("int64", x)], "int64", vec(T.bitrev)(x), threads=(1,))
        r.case("bit_reverse[%s]" % (shape,), fn)

    xor_indices(r, "aux", "XorIndices", 64, "int64")


def xor_indices(r, libname, op, w, dt):
    def fn(h):
        x = h.array("x", (1,), w)
        kernel(h, libname, op, [(dt, x)], dt, vec(S.xor_indices_term)(x), threads=(1,))
    r.case("xor_indices[%d]" % w, fn, max_paths=400)

    def fn2(h):      # every element is read and written at its own place
        x = np.array([T.const(v % (1 << w), w) for v in (0, 1, 6, 1 << (w - 1), (1 << w) - 2, 0x123456789abcdef)], dtype=object).reshape(2, 3)
        kernel(h, libname, op, [(dt, x)], dt, vec(S.xor_indices_term)(x), threads=(1,))
    r.case("xor_indices-places[%d]" % w, fn2)


SHAPES = [((), ()), ((2,), (2,)), ((2,), ()), ((), (2,)), ((1,), (3,)), ((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)),
          ((2, 1, 2), (3, 2)), ((2, 3, 2), (2, 3, 2)), ((1, 2, 1, 2), (2, 1, 3, 1)), ((2, 1, 2, 1, 2), (1, 2, 1))]


def bc(f, *xs):
    return vec(f)(*np.broadcast_arrays(*xs)) if len(xs) > 1 else vec(f)(*xs)


def i128(r):
    for op, f in (("I128Add", T.add), ("I128Sub", T.sub), ("I128Mul", T.mul)):
        for s0, s1 in SHAPES:
            def fn(h, op=op, f=f, s0=s0, s1=s1):
                x, y = h.array("x", s0, 128), h.array("y", s1, 128)
                kernel(h, "tf_i128", op, [("i128", x), ("i128", y)], "i128", bc(f, x, y), threads=(1,))
            r.case("%s[%s,%s]" % (op, s0, s1), fn)
    for op, f in (("I128Negate", T.neg), ("I128Abs", lambda e: T.ite(T.slt(e, T.const(0, 128)), T.neg(e), e)), ("I128BitReverse", T.bitrev)):
        for s0 in ((), (2,), (2, 3), (2, 1, 2), (1, 2, 1, 2), (2, 1, 2, 1, 1)):
            def fn(h, op=op, f=f, s0=s0):
                x = h.array("x", s0, 128)
                kernel(h, "tf_i128", op, [("i128", x)], "i128", bc(f, x), threads=(1,))
            r.case("%s[%s]" % (op, s0), fn)
    xor_indices(r, "tf_i128", "I128XorIndices", 128, "i128")

    Z = T.const(0, 128)

    def shifted(op, big):
        def f(x, s):
            w = T.zext(T.trunc(s, 7), 128)
            return T.ite(T.sle(s, T.const(0, 64)), x, T.ite(T.sle(T.const(128, 64), s), big(x), T.vshift(op, x, w)))
        return f
    for op, f in (("I128LeftShift", shifted("shl", lambda x: Z)), ("I128RightShift", shifted("ashr", lambda x: T.ashr(x, 127))),
                  ("I128LogicRightShift", shifted("lshr", lambda x: Z))):
        for s0, s1 in (((), ()), ((2,), ()), ((2,), (2,)), ((2, 2), (2,)), ((2, 1, 2), (1, 2, 1)), ((1, 2, 1, 1), (1, 1)), ((1, 1, 2, 1, 1), (1,))):
            def fn(h, op=op, f=f, s0=s0, s1=s1):
                x, y = h.array("x", s0, 128), h.array("s", s1, 64, *(() if h.sym else h.rng.choice(((-1, 128), (-3, 140)))))
                kernel(h, "tf_i128", op, [("i128", x), ("int64", y)], "i128", bc(f, x, y), threads=(1,))
            r.case("%s[%s,%s]" % (op, s0, s1), fn, max_paths=200, trials=4)

    for s0, s1 in (((), ()), ((2,), (2,)), ((2, 3), (2, 3)), ((2, 1, 2), (2, 1, 2)), ((3,), ()), ((), (3,)), ((2, 2), (1,)), ((2, 2), ())):
        def fn(h, s0=s0, s1=s1):
            x, y = h.array("x", s0, 128), h.array("y", s1, 128)
            if not h.sym and h.rng.randrange(2): y = np.broadcast_to(x.reshape(-1)[0], s1) if s1 else x.reshape(-1)[0]
            kernel(h, "tf_i128", "I128Equal", [("i128", x), ("i128", y)], "bool", bc(T.eq, x, y), threads=(1,))
        r.case("I128Equal[%s,%s]" % (s0, s1), fn, trials=4)

    for n, k, m in ((1, 1, 1), (2, 3, 2), (1, 4, 3), (3, 1, 2), (2, 5, 1), (4, 18, 3), (9, 9, 9)):
        def fn(h, n=n, k=k, m=m):
            x, y = h.array("x", (n, k), 128), h.array("y", (k, m), 128)
            want = np.empty((n, m), dtype=object)
            for i, j in np.ndindex(n, m):
                want[i, j] = T.add(*[T.mul(x[i, l], y[l, j]) for l in range(k)]) if k > 1 else T.mul(x[i, 0], y[0, j])
            kernel(h, "tf_i128", "I128MatMul", [("i128", x), ("i128", y)], "i128", want, threads=(1,))
        r.case("I128MatMul[%d,%d,%d]" % (n, k, m), fn)

    for s0 in ((3,), (2, 3), (2, 3, 2), (2, 1, 2, 3), (2, 1, 2, 1, 2), (1, 2, 1, 2, 1, 2)):
        for c in range(1, len(s0) + 1):
            for axes in itertools.combinations(range(len(s0)), c):
                for keep in (False, True):
                    if len(s0) > 4 and TIER == "quick" and (keep or c not in (1, 3, len(s0))): continue

                    def fn(h, s0=s0, axes=axes, keep=keep):
                        x = h.array("x", s0, 128)
                        want = x
                        for a in reversed(axes):
                            parts = [np.take(want, i, axis=a) for i in range(want.shape[a])]
                            acc = parts[0]
                            for p in parts[1:]: acc = vec(T.add)(acc, p)
                            want = np.expand_dims(acc, a) if keep else acc
                        ax = np.array([T.const(a, 64) for a in axes], dtype=object)
                        kernel(h, "tf_i128", "I128ReduceSum", [("i128", x), ("int64", ax), ("bool", np.array(T.const(int(keep), 1), dtype=object))],
                               "i128", want, threads=(1,))
                    r.case("I128ReduceSum[%s,%s,%s]" % (s0, axes, keep), fn)

    for scale in (1, 3, 1 << 20, 1 << 40):
        for s0 in ((), (2,), (1, 2)):
            def to(h, scale=scale, s0=s0):
                B = 2.0 ** 40
                x = np.empty(s0, dtype=object)
                for i in np.ndindex(*s0):
                    e = h.real("x" + "_".join(map(str, i)), -B, B)
                    if not h.sym and h.rng.randrange(2): e = T.const(int(e.val), 0)
                    x[i] = e
                if h.sym or scale != 3:     # times a power of two is exact in double precision
                    kernel(h, "tf_i128", "ToI128", [("double", x), ("int64", np.array(T.const(scale, 64), dtype=object))], "i128",
                           vec(lambda e: T.r2i(T.scale(e, scale), 128))(x), threads=(1,))
            r.case("ToI128[%s,%d]" % (s0, scale), to, trials=4)

            def back(h, scale=scale, s0=s0):
                x = h.array("x", s0, 128, *(() if h.sym else (-(1 << 52), 1 << 52)))
                if h.sym or scale != 3:
                    kernel(h, "tf_i128", "FromI128", [("i128", x), ("int64", np.array(T.const(scale, 64), dtype=object))], "double",
                           vec(lambda e: T.scale(T.i2r(e), T.Fraction(1, scale)))(x), threads=(1,))
            r.case("FromI128[%s,%d]" % (s0, scale), back, trials=4)

    for start, stride in ((0, 1), (0, 2), (1, 2), (3, 16), (127, 1), (5, 64), (0, 127), (64, 8)):
        def fn(h, start=start, stride=stride):
            x = h.array("x", (1,), 128)
            kernel(h, "tf_i128", "I128BitGather", [("i128", x)], "i128", vec(lambda e: T.bits_select(e, list(range(start, 128, stride)), 128))(x),
                   dict(start=start, stride=stride), threads=(1,))
        r.case("I128BitGather[%d,%d]" % (start, stride), fn, max_paths=400)
    for stride in (1, 2, 4, 8, 32, 128):
        for s0 in ((), (3,), (2, 1, 2)):
            if s0 != (3,) and stride != 2: continue

            def fn(h, stride=stride, s0=s0):
                x = h.array("x", s0, 128)
                want = np.stack([vec(lambda e, s=s: T.bits_select(e, list(range(s, 128, stride)), 128))(x) for s in range(stride)], axis=0)
                kernel(h, "tf_i128", "I128BitSplitAndGather", [("i128", x)], "i128", want, dict(stride=stride))
            r.case("I128BitSplitAndGather[%s,%d]" % (s0, stride), fn)


def build(r):
    r.assumptions += [
        "shapes, strides and starts are the ones listed in the case names; element values and shift amounts are arbitrary",
        "clang 18's translation to LLVM IR (-O1, vectorisation off); g++ -O2 compiles the code that ships (the concrete runs of each case use that one)",
        "the stand-in headers of /verif/native/stub state TensorFlow's C++ API (tensors as flat row-major buffers, CHECK aborts, blocks of TransformRangeConcurrently in any order)",
        "the 128-bit type is taken through the sources' own __APPLE__ alias, since clang rejects gcc's mode attribute in an alias",
        "double precision is exact real arithmetic in the two conversions"]
    r.trusted += ["Eigen is executed, not assumed; cpuid (block sizes of its matrix product) returns zeros"]
    aux(r)
    i128(r)


if __name__ == "__main__":
    main("C17", build)
