"""C20: layers, losses and optimizers.

The real keras-style code of /repo runs against the contracts of the protocol operations (checks/ideal.py: each operation returns the
mathematical function of its operands, rounding aside; those contracts are discharged by C02..C10).  Inputs, weights and upstream
gradients are arbitrary reals; forward results must equal the documented function as polynomials over them and backward results its
formal derivative.  Every case also runs on the real three-server protocol with sampled values."""
import sys
from fractions import Fraction

import numpy as np

from engine.env import rtf, tfe
from engine.harness import main
from . import ideal as I
from . import spec
from .ideal import P, ONE, ZERO


class Kit:
    def __init__(self, h):
        self.h, self.env = h, {}
        if h.sym:
            for n, m in list(sys.modules.items()):
                if n.startswith("tf_encrypted.keras") and m is not None:
                    if hasattr(m, "tf"): m.tf = rtf
                    if hasattr(m, "np"): m.np = np
            self.prot = I.Ideal()
        else:
            self.prot = tfe.protocol.ABY3()
        tfe.set_protocol(self.prot)

    def values(self, name, shape, lo=-2, hi=2):
        """arbitrary reals: the polynomials standing for them"""
        v = I.variables(name, shape)
        if not self.h.sym:
            for p in v.reshape(-1):
                a = next(iter(p.m))[0][1]
                self.env[a.name] = round(float(self.h.real(a.name, lo, hi).val) * 64) / 64
        return v

    def num(self, v):
        v = np.asarray(v, dtype=object)
        return np.array([I.lift(p).eval(self.env) for p in v.reshape(-1)], dtype=float).reshape(v.shape)

    def private(self, v):
        if self.h.sym:
            return self.prot.define_private_tensor(v)
        return self.prot.define_private_variable(self.num(v)).read_value()

    def plain(self, v):
        """a host array (weights handed to set_weights, initial values)"""
        return np.asarray(v, dtype=object) if self.h.sym else self.num(v)

    def set(self, var, v):
        tfe.assign(var, self.private(np.asarray(v, dtype=object).reshape(var.shape.as_list())))

    def got(self, t):
        if self.h.sym:
            return t.v
        t = t.reveal() if hasattr(t, "reveal") and not isinstance(t, tfe.protocol.aby3.ABY3PublicTensor) else t
        return np.asarray(t.to_native())

    def eq(self, label, t, want, tol=0.02):
        want = np.asarray(want, dtype=object)
        got = t if isinstance(t, np.ndarray) else self.got(t)
        if not self.h.ensure_shape(label, got, want):
            return
        if self.h.sym:
            for i in np.ndindex(*want.shape):
                g = I.lift(got[i])
                self.h.ensure_true(label, I.same(g, I.lift(want[i])), "element %s: %s instead of %s" % (i, g, want[i]))
        else:
            w = self.num(want)
            for i in np.ndindex(*want.shape):
                self.h.ensure_true(label, abs(float(got[i]) - w[i]) <= tol * (1 + abs(w[i])), "element %s: %s instead of %s" % (i, got[i], w[i]))


def ensure_shape(self, label, got, want):
    if tuple(got.shape) != tuple(want.shape):
        self.ensure_true(label + ".shape", False, "shape %s, expected %s" % (got.shape, want.shape))
        return False
    return True


def total(a):
    return sum(np.asarray(a, dtype=object).reshape(-1), ZERO)


ACT = {None: lambda z: z, "linear": lambda z: z, "relu": I.relu, "sigmoid": I.sigmoid}
TOL = {None: 0.02, "linear": 0.02, "relu": 0.02, "sigmoid": 0.08}


def nchw(x, fmt):
    return x if fmt == "channels_first" else np.transpose(x, (0, 3, 1, 2))


def back(x, fmt):
    return x if fmt == "channels_first" else np.transpose(x, (0, 2, 3, 1))


def check_backward(k, layer, x, y, weights, lazy=False, tol=0.03, label="gradient"):
    dy = k.values("dy", y.shape)
    gw, dx = layer.backward(k.private(dy))
    L = total(dy * y)
    k.eq(label + "-input", dx, I.grad(L, x), tol)
    k.h.ensure_true(label + "-count", len(gw) == len(weights), "%d gradients for %d weights" % (len(gw), len(weights)))
    for i, (g, w) in enumerate(zip(gw, weights)):
        want = I.grad(L, w)
        if lazy:
            want = want * Fraction(1, x.shape[0])
        k.eq("%s-weight%d" % (label, i), g, want, tol)
    return dy


def build(r):
    from engine.harness import H
    H.ensure_shape = ensure_shape
    K = tfe.keras.layers

    # ---------------------------------------------------------------- dense
    def dense(h, act, bias, lazy, shape=(2, 3), units=2):
        k = Kit(h)
        x, W, b = k.values("x", shape), k.values("w", (shape[1], units)), k.values("b", (units,))
        layer = K.Dense(units, activation=act, use_bias=bias, lazy_normalization=lazy)
        layer.build(rtf.TensorShape(shape))
        k.set(layer.weights[0], W)
        if bias: k.set(layer.weights[1], b)
        z = x @ W + (b if bias else 0)
        y = ACT[act](z)
        k.eq("forward", layer(k.private(x)), y, TOL[act])
        check_backward(k, layer, x, y, [W, b] if bias else [W], lazy, TOL[act] + 0.02)
        # a second pass: the gradient belongs to the last input
        x2 = k.values("x2", shape)
        y2 = ACT[act](x2 @ W + (b if bias else 0))
        k.eq("forward-again", layer(k.private(x2)), y2, TOL[act])
        check_backward(k, layer, x2, y2, [W, b] if bias else [W], lazy, TOL[act] + 0.02, "gradient-again")
    for act in ACT:
        for bias in (True, False):
            for lazy in (False, True):
                r.case("dense[%s,%s%s]" % (act, "bias" if bias else "nobias", ",lazy" if lazy else ""), lambda h, a=(act, bias, lazy): dense(h, *a), trials=1)

    # ---------------------------------------------------------------- convolution
    def conv(h, fmt, padding, strides, ks, bias, act, lazy, hw=(4, 4), cin=1, cout=2, n=1, bwd=True):
        k = Kit(h)
        shape = (n, cin) + hw if fmt == "channels_first" else (n,) + hw + (cin,)
        x, W, b = k.values("x", shape), k.values("w", (ks, ks, cin, cout)), k.values("b", (cout,))
        layer = K.Conv2D(cout, ks, strides=strides, padding=padding, data_format=fmt, activation=act, use_bias=bias, lazy_normalization=lazy)
        layer.build(rtf.TensorShape(shape))
        k.set(layer.weights[0], W)
        if bias: k.set(layer.weights[1], b)
        st = strides if isinstance(strides, tuple) else (strides, strides)
        z = spec.conv2d_nchw(nchw(x, fmt), W, st, padding.upper())
        if bias:
            z = z + b.reshape(1, cout, 1, 1)
        y = ACT[act](back(z, fmt))
        out = layer(k.private(x))
        k.eq("forward", out, y, TOL[act] + 0.02)
        k.h.ensure_true("compute_output_shape", [int(i) for i in layer.compute_output_shape(rtf.TensorShape(shape))] == list(y.shape), "%s" % (layer.compute_output_shape(rtf.TensorShape(shape)),))
        if bwd:
            check_backward(k, layer, x, y, [W, b.reshape(layer.weights[1].shape.as_list())] if bias else [W], lazy, TOL[act] + 0.05)
    for fmt in ("channels_first", "channels_last"):
        for padding, strides, ks, hw in (("valid", 1, 2, (3, 3)), ("same", 1, 3, (3, 3)), ("valid", 2, 2, (4, 4)), ("same", 2, 3, (4, 4)), ("same", 1, 2, (3, 4)), ("valid", 2, 3, (5, 3)),
                                          ("same", 2, 3, (5, 4)), ("same", 2, 2, (3, 3))):
            r.case("conv2d[%s,%s,s%d,k%d,%dx%d]" % ((fmt, padding, strides, ks) + hw), lambda h, a=(fmt, padding, strides, ks, True, None, False, hw): conv(h, *a), trials=1)
        r.case("conv2d[%s,channels]" % fmt, lambda h, fmt=fmt: conv(h, fmt, "same", 1, 2, True, "linear", True, (2, 3), 2, 2, 2), trials=1)
        r.case("conv2d[%s,relu]" % fmt, lambda h, fmt=fmt: conv(h, fmt, "valid", 1, 2, False, "relu", False, (3, 3), 1, 1, 1), trials=1)
        r.case("conv2d[%s,sigmoid]" % fmt, lambda h, fmt=fmt: conv(h, fmt, "valid", 1, 2, True, "sigmoid", False, (2, 3), 1, 1, 2), trials=1)
        for padding, hw in (("valid", (3, 4)), ("same", (3, 4)), ("same", (4, 4))):
            r.case("conv2d[%s,%s,s1x2,%dx%d]" % ((fmt, padding) + hw), lambda h, a=(fmt, padding, (1, 2), 2, True, None, False, hw): conv(h, *a), trials=1)
            r.case("conv2d[%s,%s,s2x1,%dx%d]" % ((fmt, padding) + hw[::-1]), lambda h, a=(fmt, padding, (2, 1), 2, True, None, False, hw[::-1]): conv(h, *a), trials=1)

    def depthwise(h, fmt, padding, strides, dm, cin=2, hw=(3, 3), ks=2, how="initial"):
        k = Kit(h)
        shape = (1, cin) + hw if fmt == "channels_first" else (1,) + hw + (cin,)
        x, W, b = k.values("x", shape), k.values("w", (ks, ks, cin, dm)), k.values("b", (cin * dm,))
        if how == "initial":
            layer = K.DepthwiseConv2D(ks, strides=strides, padding=padding, depth_multiplier=dm, data_format=fmt,
                                      depthwise_initializer=lambda s: k.plain(W), bias_initializer=lambda s: k.plain(b).reshape(s))
            layer.build(rtf.TensorShape(shape))
        else:
            layer = K.DepthwiseConv2D(ks, strides=strides, padding=padding, depth_multiplier=dm, data_format=fmt)
            layer.build(rtf.TensorShape(shape))
            layer.set_weights([k.plain(W), k.plain(b)] if how == "arrays" else [k.private(W), k.private(b)])
        xs = nchw(x, fmt)
        st = (strides, strides)
        outs = []
        for c in range(cin):
            for m in range(dm):
                outs.append(spec.conv2d_nchw(xs[:, c:c + 1], W[:, :, c:c + 1, m:m + 1], st, padding.upper()) + b[c * dm + m])
        y = back(np.concatenate(outs, axis=1), fmt)
        k.eq("forward", layer(k.private(x)), y, 0.04)
        k.h.ensure_true("compute_output_shape", [int(i) for i in layer.compute_output_shape(rtf.TensorShape(shape))] == list(y.shape), "%s" % (layer.compute_output_shape(rtf.TensorShape(shape)),))
    for fmt in ("channels_first", "channels_last"):
        for padding, strides, dm in (("valid", 1, 1), ("same", 1, 2), ("same", 2, 1), ("valid", 2, 3)):
            for how in ("initial", "arrays", "tensors"):
                r.case("depthwise[%s,%s,s%d,m%d,%s]" % (fmt, padding, strides, dm, how), lambda h, a=(fmt, padding, strides, dm), how=how: depthwise(h, *a, how=how), trials=1)

    # ---------------------------------------------------------------- pooling
    def pool(h, cls, fmt, size, strides, padding, hw, cin=1):
        k = Kit(h)
        shape = (1, cin) + hw if fmt == "channels_first" else (1,) + hw + (cin,)
        x = k.values("x", shape)
        layer = cls(pool_size=size, strides=strides, padding=padding, data_format=fmt)
        ref = I.Ideal()
        st = strides or size
        st = (st, st) if isinstance(st, int) else st
        sz = (size, size) if isinstance(size, int) else size
        f = ref.maxpool2d if cls is K.MaxPooling2D else ref.avgpool2d
        y = back(f(I.Private(ref, nchw(x, fmt)), sz, st, padding.upper()).v, fmt)
        k.eq("forward", layer(k.private(x)), y)
        k.h.ensure_true("compute_output_shape", [int(i) for i in layer.compute_output_shape(rtf.TensorShape(shape))] == list(y.shape), "%s" % (layer.compute_output_shape(rtf.TensorShape(shape)),))
        check_backward(k, layer, x, y, [])
    for cls in (K.MaxPooling2D, K.AveragePooling2D):
        for fmt in ("channels_first", "channels_last"):
            for size, strides, padding, hw, cin in ((2, None, "valid", (4, 4), 1), (2, 1, "valid", (3, 3), 1), (2, 2, "same", (3, 3), 1), ((2, 1), None, "valid", (2, 3), 2), (2, 1, "same", (2, 3), 1),
                                                    (3, 2, "same", (4, 4), 1), (2, (2, 1), "valid", (4, 3), 1), (2, 2, "valid", (5, 3), 1)):
                r.case("%s[%s,%s,%s,%s,%dx%dx%d]" % ((cls.__name__, fmt, size, strides, padding) + hw + (cin,)), lambda h, a=(cls, fmt, size, strides, padding, hw, cin): pool(h, *a), trials=1)

    def gpool(h, cls, fmt, keep, hw=(2, 3), cin=2, n=2):
        k = Kit(h)
        shape = (n, cin) + hw if fmt == "channels_first" else (n,) + hw + (cin,)
        x = k.values("x", shape)
        layer = cls(data_format=fmt, keepdims=keep)
        xs = nchw(x, fmt).reshape(n, cin, -1)
        if cls is K.GlobalAveragePooling2D:
            y = np.sum(xs, axis=2) * Fraction(1, hw[0] * hw[1])
        else:
            y = np.sum(I.argmax(xs, 2) * xs, axis=2)
        if keep:
            y = back(y.reshape(n, cin, 1, 1), fmt)
        k.eq("forward", layer(k.private(x)), y)
        k.h.ensure_true("compute_output_shape", [int(i) for i in layer.compute_output_shape(rtf.TensorShape(shape))] == list(y.shape), "%s" % (layer.compute_output_shape(rtf.TensorShape(shape)),))
        check_backward(k, layer, x, y, [])
    for cls in (K.GlobalAveragePooling2D, K.GlobalMaxPooling2D):
        for fmt in ("channels_first", "channels_last"):
            for keep in (False, True):
                r.case("%s[%s%s]" % (cls.__name__, fmt, ",keepdims" if keep else ""), lambda h, a=(cls, fmt, keep): gpool(h, *a), trials=1)

    # ---------------------------------------------------------------- elementwise and shape layers
    def simple(h, make, f, shape, tol=0.02, bwd=True, lo=-2, hi=2):
        k = Kit(h)
        x = k.values("x", shape, lo, hi)
        layer = make()
        y = f(x)
        k.eq("forward", layer(k.private(x)), y, tol)
        k.h.ensure_true("compute_output_shape", [int(i) for i in layer.compute_output_shape(list(shape))] == list(y.shape), "%s" % (layer.compute_output_shape(list(shape)),))
        if bwd:
            check_backward(k, layer, x, y, [], tol=tol + 0.01)
    r.case("relu-layer", lambda h: simple(h, K.ReLU, I.relu, (2, 3)), trials=1)
    for act in ("relu", "sigmoid", "linear"):
        r.case("activation[%s]" % act, lambda h, act=act: simple(h, lambda: K.Activation(act), ACT[act], (2, 3), TOL[act]), trials=1)
    r.case("activation[tanh]", lambda h: simple(h, lambda: K.Activation("tanh"), I.tanh, (2, 2), bwd=False), trials=1, real=False)
    r.case("activation[softmax]", lambda h: simple(h, lambda: K.Activation("softmax"), I.softmax, (2, 3), 0.08, bwd=False), trials=1)
    for fmt in ("channels_first", "channels_last"):
        for shape in ((2, 3, 2, 2), (2, 3, 4), (2, 3), (3,)):
            def flat(x, fmt=fmt):
                if fmt == "channels_first" and x.ndim > 1:
                    x = np.moveaxis(x, 1, -1)
                return x.reshape(x.shape[0], -1)
            if len(shape) > 1:
                r.case("flatten[%s,%s]" % (fmt, shape), lambda h, fmt=fmt, shape=shape, flat=flat: simple(h, lambda: K.Flatten(data_format=fmt), flat, shape), trials=1)
    for target, shape in (((6,), (2, 2, 3)), ((3, 2), (2, 6)), ((-1, 2), (2, 2, 3)), ((3, -1), (1, 6, 2))):
        r.case("reshape[%s,%s]" % (target, shape), lambda h, target=target, shape=shape: simple(h, lambda: K.Reshape(target), lambda x: x.reshape((x.shape[0],) + target), shape), trials=1)

    # ---------------------------------------------------------------- batch normalization
    def bn(h, axis, scale, center, how, rank=4):
        k = Kit(h)
        c = 2
        shape = ((1, c, 2, 2) if axis == 1 else (1, 2, 2, c)) if rank == 4 else (3, c)
        pshape = [1] * rank
        pshape[axis] = c
        x = k.values("x", shape)
        g, b, m, v = k.values("gamma", (c,), 0.5, 1.5), k.values("beta", (c,)), k.values("mean", (c,)), k.values("var", (c,), 0.5, 2)
        eps = 1e-3
        init = lambda w: (lambda s: k.plain(w).reshape(s))
        if how == "initial":
            # tf.sqrt runs on the initial variance: a host number, here a perfect square
            v = np.array([P.const(Fraction(4) - Fraction(eps)), P.const(Fraction(1, 4) - Fraction(eps))], dtype=object)
            layer = K.BatchNormalization(axis=axis, scale=scale, center=center, epsilon=eps, gamma_initializer=init(g), beta_initializer=init(b),
                                         moving_mean_initializer=init(m), moving_variance_initializer=lambda s: rtf.constant(k.num(v).reshape(s)))
            layer.build(rtf.TensorShape(shape))
            denom = np.array([P.const(Fraction(1, 2)), P.const(2)], dtype=object)
        else:
            layer = K.BatchNormalization(axis=axis, scale=scale, center=center, epsilon=eps)
            layer.build(rtf.TensorShape(shape))
            ws = ([g] if scale else []) + ([b] if center else []) + [m, v]
            if how == "arrays":
                layer.set_weights([k.plain(w) for w in ws])
            else:
                layer.set_weights([k.prot.define_public_variable(k.plain(w)).read_value() for w in ws])
            denom = I.vec(lambda p: I.recip(P.fn("sqrt", (p + eps,))))(v)
        R = lambda w: np.asarray(w, dtype=object).reshape(pshape)
        y = (x - R(m)) * R(denom)
        if scale: y = R(g) * y
        if center: y = y + R(b)
        k.eq("forward", layer(k.private(x)), y, 0.05)
    for axis in (1, 3):
        for scale in (True, False):
            for center in (True, False):
                for how in ("initial", "arrays", "tensors"):
                    r.case("batchnorm[axis%d%s%s,%s]" % (axis, ",scale" if scale else "", ",center" if center else "", how), lambda h, a=(axis, scale, center, how): bn(h, *a), trials=1)

    # ---------------------------------------------------------------- losses
    KL = tfe.keras.losses

    def onehot(k, n, c):
        """labels: arbitrary, summing to one"""
        y = k.values("y", (n, c - 1), 0, 0.5)
        return np.concatenate([y, I.vec(lambda p: p)(np.asarray(1 - np.sum(y, axis=1, keepdims=True), dtype=object))], axis=1)

    def loss(h, cls, logits, lazy, n=3):
        k = Kit(h)
        if cls is KL.CategoricalCrossentropy:
            yt = onehot(k, n, 3)
            z = k.values("z", (n, 3), *((-2, 2) if logits else (0.2, 0.8)))
            obj = cls(from_logits=logits, lazy_normalization=lazy)
            p = I.softmax(z) if logits else z
            L = total(-yt * I.log(p)) * Fraction(1, n)
            val = np.asarray(L, dtype=object).reshape(())
        elif cls is KL.BinaryCrossentropy:
            yt = k.values("y", (n,), 0, 1)
            z = k.values("z", (n,), *((-2, 2) if logits else (0.2, 0.8)))
            obj = cls(from_logits=logits, lazy_normalization=lazy)
            p = I.sigmoid(z) if logits else z
            L = total(-(yt * I.log(p) + (1 - yt) * I.log(1 - p))) * Fraction(1, n)
            val = np.asarray(L, dtype=object).reshape(())
        else:
            yt, z = k.values("y", (n,), -1, 1), k.values("z", (n,), -1, 1)
            obj = cls()
            L = total((yt - z) * (yt - z)) * Fraction(1, n)
            val = np.asarray(L, dtype=object).reshape(())
        ty, tz = k.private(yt), k.private(z)
        k.eq("value", obj(ty, tz), val, 0.12)
        want = I.grad(L, z)
        if lazy:
            want = want * n
        k.eq("gradient", obj.grad(ty, tz), want, 0.08)
    for cls in (KL.BinaryCrossentropy, KL.CategoricalCrossentropy):
        for lazy in (False, True):
            r.case("loss[%s,logits%s]" % (cls.__name__, ",lazy" if lazy else ""), lambda h, a=(cls, True, lazy): loss(h, *a), trials=1)
    r.case("loss[MeanSquaredError]", lambda h: loss(h, KL.MeanSquaredError, None, False), trials=1)
    # on probabilities
    def loss_prob(h, cls, lazy, n=2):
        """the value is the documented one; the gradient is, as the library's tests fix it, the one with respect to the logits"""
        k = Kit(h)
        if cls is KL.CategoricalCrossentropy:
            yt, z = onehot(k, n, 3), k.values("z", (n, 3))
            s = I.softmax(z)
            L = total(-yt * I.log(s)) * Fraction(1, n)
        else:
            yt, z = k.values("y", (n,), 0, 1), k.values("z", (n,))
            s = I.sigmoid(z)
            L = total(-(yt * I.log(s) + (1 - yt) * I.log(1 - s))) * Fraction(1, n)
        obj = cls(lazy_normalization=lazy)
        ty, tp = k.private(yt), k.private(s)
        k.eq("value", obj(ty, tp), np.asarray(L, dtype=object).reshape(()), 0.15)
        k.eq("gradient-of-logits", obj.grad(ty, tp), I.grad(L, z) * (n if lazy else 1), 0.05)
    for cls in (KL.BinaryCrossentropy, KL.CategoricalCrossentropy):
        for lazy in (False, True):
            r.case("loss[%s,probabilities%s]" % (cls.__name__, ",lazy" if lazy else ""), lambda h, a=(cls, lazy): loss_prob(h, *a), trials=1)

    # ---------------------------------------------------------------- optimizers
    KO = tfe.keras.optimizers

    def opt(h, make, step, steps, tol=0.05, lo=-2):
        """two layers, weights of two shapes, several steps with new gradients"""
        k = Kit(h)
        o = make()
        shapes = [[(2, 1), (1,)], [(2,)], []]
        W = [[k.values("w%d%d" % (i, j), s) for j, s in enumerate(l)] for i, l in enumerate(shapes)]
        V = [[k.prot.define_private_variable(k.plain(w)) for w in l] for l in W]
        o.compile(V)
        eps = Fraction(2) ** -k.prot.fixedpoint_config.precision_fractional
        state = {}
        for t in range(1, steps + 1):
            for i, l in enumerate(shapes):
                G = [k.values("g%d%d%d" % (t, i, j), s, 0.5, 2) for j, s in enumerate(l)]
                o.apply_gradients(V[i], [k.private(g) for g in G])
                for j in range(len(l)):
                    W[i][j] = step(state.setdefault((i, j), {}), W[i][j], G[j], t, eps)
                    k.eq("weights-after-%d" % t, V[i][j].read_value(), W[i][j], tol)

    def sgd(lr, mom):
        def f(s, W, G, t, eps):
            s["V"] = s.get("V", 0) * I.frac(mom) + I.frac(lr) * G
            return W - s["V"]
        return f

    def ams(lr, b1, b2):
        lr, b1, b2 = I.frac(lr), I.frac(b1), I.frac(b2)
        def f(s, W, G, t, eps):
            s["M"] = s.get("M", 0) * b1 + (1 - b1) * G
            s["V"] = s.get("V", 0) * b2 + (1 - b2) * G * G
            old = s.get("H", np.broadcast_to(np.array(ZERO, dtype=object), G.shape))
            b = I.vec(lambda d: P.fn("pos", (d,)))(old - s["V"])
            s["H"] = b * old + (1 - b) * s["V"]
            return W - lr * s["M"] * I.inv_sqrt(s["H"] + eps)
        return f

    def adam(lr, b1, b2):
        lr, b1, b2 = I.frac(lr), I.frac(b1), I.frac(b2)
        def f(s, W, G, t, eps):
            s["M"] = s.get("M", 0) * b1 + (1 - b1) * G
            s["V"] = s.get("V", 0) * b2 + (1 - b2) * G * G
            return W - lr * (s["M"] * (1 / (1 - b1 ** t))) * I.inv_sqrt(s["V"] * (1 / (1 - b2 ** t)) + eps)
        return f
    for lr, mom in ((0.25, 0.0), (0.25, 0.5), (1.0, 0.75)):
        r.case("sgd[%s,%s]" % (lr, mom), lambda h, lr=lr, mom=mom: opt(h, lambda: KO.SGD(lr, mom), sgd(lr, mom), 3), trials=1)
    r.case("sgd[by name]", lambda h: opt(h, lambda: KO.get("sgd"), sgd(0.01, 0.0), 2), trials=1)
    r.case("amsgrad", lambda h: opt(h, lambda: KO.AMSgrad(0.25, 0.5, 0.75), ams(0.25, 0.5, 0.75), 2, 0.15), trials=1)
    r.case("adam", lambda h: opt(h, lambda: KO.Adam(0.25, 0.5, 0.75), adam(0.25, 0.5, 0.75), 2, 0.15), trials=1)

    # ---------------------------------------------------------------- models
    def model(h, what):
        k = Kit(h)
        n, d = 2, 3
        small = (-0.5, 0.5)     # the real sigmoid and logarithm are approximations
        x, W, b = k.values("x", (n, d), *small), k.values("w", (d, 1), *small), k.values("b", (1,), *small)
        W2, b2 = k.values("v", (1, 2), *small), k.values("c", (2,), *small)
        m = tfe.keras.Sequential()
        m.add(K.Dense(1, batch_input_shape=[n, d]))
        if what == "mse":
            loss, yt = KL.MeanSquaredError(), k.values("y", (n, 1), -1, 1)
        elif what == "bce":
            loss, yt = KL.BinaryCrossentropy(from_logits=True), k.values("y", (n, 1), 0, 1)
        else:
            m.add(K.Dense(2))
            loss, yt = KL.CategoricalCrossentropy(from_logits=True), onehot(k, n, 2)
        m.compile(optimizer=KO.SGD(0.25), loss=loss)
        ws = [W, b] + ([W2, b2] if what == "cce" else [])
        arrays = [k.plain(w) for w in ws]
        given = list(arrays)
        m.set_weights(arrays)
        k.h.ensure_true("set_weights-keeps-argument", all(u is v for u, v in zip(arrays, given)), "the caller's list of weights was changed")
        z = x @ W + b
        if what == "mse":
            L = total((yt - z) * (yt - z)) * Fraction(1, n)
        elif what == "bce":
            p = I.sigmoid(z)
            L = total(-(yt * I.log(p) + (1 - yt) * I.log(1 - p))) * Fraction(1, n)
        else:
            z = z @ W2 + b2
            L = total(-yt * I.log(I.softmax(z))) * Fraction(1, n)
        k.eq("forward", m.call(k.private(x)), z, 0.08)
        got = m.fit_batch(k.private(x), k.private(yt))
        k.eq("loss-before-the-step", np.asarray(got, dtype=object if k.h.sym else float).reshape(()), np.asarray(L, dtype=object).reshape(()), 0.2)
        for i, (v, w) in enumerate(zip([v for l in m.weights for v in l], ws)):
            k.eq("descent-weight%d" % i, v.read_value(), w - Fraction(1, 4) * I.grad(L, w), 0.1)
    for what in ("mse", "bce", "cce"):
        r.case("model[%s]" % what, lambda h, what=what: model(h, what), trials=1)

    def nested(h):
        k = Kit(h)
        W, b = k.values("w", (3, 1)), k.values("b", (1,))
        m = tfe.keras.Sequential()
        m.add(K.Dense(1, batch_input_shape=[2, 3]))
        given = [[k.plain(W), k.plain(b)]]
        outer, inner = list(given), list(given[0])
        m.set_weights(given)
        k.h.ensure_true("set_weights-keeps-argument", len(given) == 1 and given[0] is outer[0] and all(u is v for u, v in zip(given[0], inner)), "the caller's list of weights was changed")
        for i, (v, w) in enumerate(zip([v for l in m.weights for v in l], (W, b))):
            k.eq("weight%d" % i, v.read_value(), w)
    r.case("set_weights[nested]", nested, trials=1)

    def batches(h, rows, batch, epochs, how):
        """every epoch sees every row once, in order, with its own label"""
        k = Kit(h)
        x, y = k.values("x", (rows, 2)), k.values("y", (rows, 1))
        m = tfe.keras.Sequential()
        m.add(K.Dense(1, batch_input_shape=[batch, 2]))
        seen = []
        m.train_function = lambda a, c: seen.append((k.got(a[0] if how == "list" else a), k.got(c))) or 0.0
        tx = k.private(x)
        m.fit([tx] if how == "list" else tx, k.private(y), batch_size=batch, epochs=epochs, verbose=0)
        k.eq("rows", np.concatenate([a for a, _ in seen]) if seen else np.zeros((0, 2)), np.concatenate([x] * epochs), 0.01)
        k.eq("labels", np.concatenate([c for _, c in seen]) if seen else np.zeros((0, 1)), np.concatenate([y] * epochs), 0.01)
        k.h.ensure_true("batches", [len(a) for a, _ in seen] == ([batch] * (rows // batch) + ([rows % batch] if rows % batch else [])) * epochs, str([len(a) for a, _ in seen]))
    for rows, batch, epochs in ((4, 2, 1), (5, 2, 1), (1, 2, 1), (4, 1, 1), (4, 2, 2), (3, 2, 3)):
        for how in ("tensor", "list"):
            r.case("fit-batches[%d,%d,%d,%s]" % (rows, batch, epochs, how), lambda h, a=(rows, batch, epochs, how): batches(h, *a), trials=1)

    def predict(h, rows, batch, order):
        k = Kit(h)
        x, W, b = k.values("x", (rows, 2)), k.values("w", (2, 1)), k.values("b", (1,))
        m = tfe.keras.Sequential()
        m.add(K.Dense(1, batch_input_shape=[batch, 2]))
        m.set_weights([k.plain(W), k.plain(b)])
        tx = k.private(x)
        for reveal in order:
            p = m.predict(tx, batch_size=batch, reveal=reveal)
            private = isinstance(p, tfe.protocol.protocol.TFEPrivateTensor)
            k.h.ensure_true("visibility", private != reveal, "predict(reveal=%s) returned %s" % (reveal, type(p).__name__))
            if private != reveal:
                k.eq("prediction", p if not private else k.got(p), x @ W + b)
    for rows, batch in ((4, 2), (3, 2), (2, 4)):
        for order in ((True, False), (False, True)):
            r.case("predict[%d,%d,%s]" % (rows, batch, order), lambda h, a=(rows, batch, order): predict(h, *a), trials=1)


if __name__ == "__main__":
    main("C20", build)
