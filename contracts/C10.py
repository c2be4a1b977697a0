"""C10: min-max and z-score scaling are the documented affine maps.

The analyzers are replaced by their contracts (any pair of values for the
minimum and maximum, any mean and non-negative variance); the mapper code is
interpreted.  C01/C02 discharge the analyzers' own contracts."""
import math

import numpy as np
import tensorflow as tf

from tensorflow_transform import analyzers, mappers, tf_utils
from contracts import e2e
from pyvc.harness import unit, Raised

P = "C10"
TM = [mappers.scale_by_min_max, mappers.scale_to_0_1, mappers._scale_by_min_max_internal]
TZ = [mappers.scale_to_z_score, mappers._scale_to_z_score_internal]


def wrap(E, x, kind):
    from contracts.C01 import wrap as w
    return x if kind == "dense" else w(E, x, kind)


def values(E, r):
    if E.symbolic:
        return r.values if hasattr(r, "values") else r.flat_values if hasattr(r, "flat_values") else r
    return tf_utils.get_values(r)


def flat(E, x, kind):
    return x if kind == "dense" or E.symbolic else tf.reshape(x, [-1])


def sigmoid(E, x):
    if E.symbolic:
        from pyvc import core
        return core.ufun("sigmoid", core.to_real(x))
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def near(E, a, b, scale=1.0):
    if E.symbolic:
        return E.eq(a, b)
    return abs(a - b) <= 2e-4 * max(1.0, abs(b), abs(scale))


def inputs(E, dt=None):
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    elementwise = E.choice("elementwise", [False, True]) if kind == "dense" else False
    dt = dt or E.choice("dtype", ["float32", "int64"])
    x = E.arr("x", space="batch*feat", kind="tf", dtype=dt, lo=-1000, hi=1000)
    sp = "feat" if elementwise else None
    return kind, elementwise, dt, x, sp


def magnitude(E):
    """Unit of measurement of the drawn data (run-time checks): 1 or tiny or huge."""
    if E.symbolic or E.model is not None or E.cross is not None:
        return 1.0
    return E.gen("unit", lambda r: 2.0 ** r.choice([0, 0, 0, -30, -24, -14, 14]))


def scaled(x, u):
    if u == 1.0 or not x.dtype.is_floating:
        return x
    return x * tf.constant(u, x.dtype)


@unit(P, "min-max scaling is the affine map onto the output range", TM, conc=200)
def min_max(E):
    kind, elementwise, dt, x, sp = inputs(E)
    mn, mx = E.arr("min", space=sp, kind="tf", dtype="float32", lo=-1000, hi=1000), E.arr(
        "max", space=sp, kind="tf", dtype="float32", lo=-1000, hi=1000)
    pub = E.choice("function", ["scale_by_min_max", "scale_to_0_1"])
    omin, omax = (E.real("omin", -50, 50), E.real("omax", -50, 50)) if pub == "scale_by_min_max" else (0.0, 1.0)
    if not E.symbolic:
        E.assume(omax - omin > 0.01)
        u = magnitude(E) if dt == "float32" else 1.0
        x, mn, mx = scaled(x, u), scaled(mn, u), scaled(mx, u)
        big = np.maximum(np.abs(mn.numpy()), np.abs(mx.numpy()))
        E.assume(bool(np.all((mx.numpy() - mn.numpy() > 5e-4 * big) | (mx.numpy() <= mn.numpy()))))
    else:
        E.assume(omin < omax)
    seen = []

    def stub(v, reduce_instance_dims=True, name=None):
        seen.append(reduce_instance_dims)
        return mn, mx
    E.stub(analyzers, "_min_and_max", stub)
    arg = wrap(E, x, kind)
    if pub == "scale_by_min_max":
        r = E.call(mappers.scale_by_min_max, arg, omin, omax, elementwise)
    else:
        r = E.call(mappers.scale_to_0_1, arg, elementwise)
    E.check("analysed per column exactly if elementwise", seen == [not elementwise])
    if not E.symbolic:
        E.check("representation and structure kept", same_structure(r, arg))
        E.check("floating point", tf_utils.get_values(r).dtype.is_floating)
    out = values(E, r)
    xf = flat(E, x, kind)
    E.elementwise("(x - min) / (max - min) * (output_max - output_min) + output_min",
                  lambda o, v, a, b: E.Or(a >= b, affine_near(o, v, a, b, omin, omax)
                                          if not E.symbolic else
                                          E.eq((o - omin) * (b - a), (v - a) * (omax - omin))), out, xf, mn, mx)
    E.elementwise("analysed data lands in the output range",
                  lambda o, v, a, b: E.Or(E.Not(E.And(a <= v, v <= b, a < b)), E.And(E.le(omin, o, tol=1e-3), E.le(o, omax, tol=1e-3))),
                  out, xf, mn, mx)
    E.elementwise("with min = max the result is finite and in the output range",
                  lambda o, v, a, b: E.Or(a < b, E.And(E.isfinite(o), E.le(omin, o, tol=1e-4), E.le(o, omax, tol=1e-4))), out, xf, mn, mx)
    E.elementwise("with min = max the order of values is kept (sigmoid)",
                  lambda o, v, a, b: E.Or(a < b, near(E, o, sigmoid(E, v) * (omax - omin) + omin, 50)), out, xf, mn, mx)


def affine_near(o, v, a, b, omin, omax):
    """o is the affine image of v up to float32 rounding of v - a, b - a and the result."""
    if a >= b:
        return True
    t = (v - a) / (b - a)
    want = t * (omax - omin) + omin
    tol = 1e-6 * (abs(v) + abs(a) + abs(b)) / (b - a) * (1 + abs(t)) * (omax - omin) + 1e-5 * (
        abs(want) + abs(omin) + abs(omax))
    return abs(o - want) <= tol


def same_structure(r, x):
    if isinstance(x, tf.SparseTensor):
        return isinstance(r, tf.SparseTensor) and np.array_equal(r.indices, x.indices) and np.array_equal(
            r.dense_shape, x.dense_shape)
    if isinstance(x, tf.RaggedTensor):
        return isinstance(r, tf.RaggedTensor) and all(
            np.array_equal(a, b) for a, b in zip(r.nested_row_splits, x.nested_row_splits))
    return isinstance(r, tf.Tensor) and r.shape == x.shape


@unit(P, "an output range that is not increasing is rejected", TM, conc=60)
def bad_range(E):
    x = E.arr("x", space="batch*feat", kind="tf", dtype="float32")
    omin, omax = E.real("omin"), E.real("omax")
    E.assume(omin >= omax)
    mn, mx = E.arr("min", kind="tf", dtype="float32"), E.arr("max", kind="tf", dtype="float32")
    E.stub(analyzers, "_min_and_max", lambda v, reduce_instance_dims=True, name=None: (mn, mx))
    r = E.attempt(mappers.scale_by_min_max, x, omin, omax)
    E.check("ValueError", isinstance(r, Raised) and isinstance(r.exc, ValueError))


@unit(P, "z-score scaling is (x - mean) / standard deviation, or the difference for variance 0", TZ, conc=200)
def z_score(E):
    kind, elementwise, dt, x, sp = inputs(E)
    mean = E.arr("mean", space=sp, kind="tf", dtype="float32", lo=-1000, hi=1000)
    var = E.arr("var", space=sp, kind="tf", dtype="float32", lo=0, hi=10000)
    if not E.symbolic:
        var = E.map(lambda v: 0.0 if v < 0.25 else v, var)
    u = magnitude(E) if dt == "float32" else 1.0
    if u != 1.0:
        x, mean, var = scaled(x, u), scaled(mean, u), scaled(var, u * u)
    seen = []

    def stub(v, reduce_instance_dims=True, output_dtype=None):
        seen.append(reduce_instance_dims)
        return mean, var
    E.stub(analyzers, "_mean_and_var", stub)
    arg = wrap(E, x, kind)
    r = E.call(mappers.scale_to_z_score, arg, elementwise)
    E.check("analysed per column exactly if elementwise", seen == [not elementwise])
    if not E.symbolic:
        E.check("representation and structure kept", same_structure(r, arg))
        E.check("floating point", tf_utils.get_values(r).dtype.is_floating)
    out = values(E, r)
    xf = flat(E, x, kind)
    E.elementwise("squared: z^2 var = (x - mean)^2, same sign",
                  lambda z, v, m, s: True if not E.symbolic and s == 0 else E.Or(E.eq(s, 0) if E.symbolic else False, E.And(
                      E.eq(z * z * s, (v - m) * (v - m)) if E.symbolic else
                      abs(z - (v - m) / math.sqrt(s)) <= 1e-3 * max(1, abs(z)),
                      E.Implies(v >= m, E.le(0, z)), E.Implies(v <= m, E.le(z, 0)))), out, xf, mean, var)
    E.elementwise("variance 0: the plain difference, never NaN or infinite",
                  lambda z, v, m, s: E.Or(E.Not(E.eq(s, 0)) if E.symbolic else s != 0, E.And(E.isfinite(z), near(E, z, v - m, 1000) if E.symbolic else
                                                      abs(z - (v - m)) <= 1e-6 * (abs(v) + abs(m)))), out, xf, mean, var)


# ------------------------------------------------- bounded run-time contracts
def spec_mm(x, lo, hi, omin, omax):
    return (x - lo) / (hi - lo) * (omax - omin) + omin if lo < hi else (1 / (1 + math.exp(-max(x, -700.0)))) * (omax - omin) + omin


@unit(P, "per-key scaling applies each row its own key's range",
      [mappers.scale_by_min_max_per_key, mappers.scale_to_z_score_per_key, tf_utils.map_per_key_reductions] + TM + TZ,
      sym=False, bounded="generated batches up to 6x3 and 4 keys", conc=150, conc_s=8)
def per_key(E):
    r = E.rng
    n, f = r.randint(1, 6), r.choice([None, 1, 3])
    keys = ["b", "a", "zz", ""][:r.randint(1, 4)]
    r.shuffle(keys)
    rk = [r.choice(keys + ["unseen"]) for _ in range(n)]
    sh = (n,) if f is None else (n, f)
    x = np.array([round(r.uniform(-9, 9), 2) for _ in range(int(np.prod(sh)))], np.float32).reshape(sh)
    el = E.choice("elementwise", [False, True]) and f is not None
    ssh = (len(keys),) + ((f,) if el else ())
    st = [np.array([[round(r.uniform(-9, 9), 1)] * 1 for _ in range(int(np.prod(ssh)))], np.float32).reshape(ssh) for _ in range(2)]
    st[1] = np.abs(st[1]) * (np.array([r.choice([0, 1]) for _ in range(st[1].size)], np.float32).reshape(ssh))
    E.note(rk, x, keys, st, el)
    z = E.choice("what", ["minmax", "zscore"])
    if z == "minmax":
        E.stub(analyzers, "_min_and_max_per_key", lambda *a, **k: (
            tf.constant(keys), tf.constant(st[0]), tf.constant(st[0] + st[1])))
        out = mappers.scale_by_min_max_per_key(tf.constant(x), tf.constant(rk), -1.0, 3.0, elementwise=el)
    else:
        E.stub(analyzers, "_mean_and_var_per_key", lambda *a, **k: (tf.constant(keys), tf.constant(st[0]), tf.constant(st[1])))
        out = mappers.scale_to_z_score_per_key(tf.constant(x), tf.constant(rk), elementwise=el)
    out = out.numpy()
    E.check("shape kept", out.shape == x.shape, out.shape)
    for i in range(n):
        for j in range(1 if f is None else f):
            ix = (i,) if f is None else (i, j)
            a = [0.0, 0.0]
            if rk[i] in keys:
                q = (keys.index(rk[i]),) + ((j,) if el else ())
                a = [float(s[q]) for s in st]
            v = float(x[ix])
            want = spec_mm(v, a[0], a[0] + a[1], -1.0, 3.0) if z == "minmax" else (
                (v - a[0]) / math.sqrt(a[1]) if a[1] else v - a[0])
            E.check("each row is scaled with its own key", abs(float(out[ix]) - want) <= 1e-3 * max(1, abs(want)),
                    (ix, out[ix], want))


@unit(P, "statistics looked up in a key vocabulary are applied by the same map",
      [mappers.scale_by_min_max_per_key, mappers.scale_to_0_1_per_key, mappers.scale_to_z_score_per_key] + TM + TZ,
      sym=False, bounded="generated batches of up to 6 values", conc=100, conc_s=5)
def per_key_vocabulary(E):
    r = E.rng
    n = r.randint(1, 6)
    u = 2.0 ** E.choice("unit", [0, 0, -12, -30, 14])
    x = np.array([r.choice([0.0, 1.0, r.uniform(-9, 9)]) * u for _ in range(n)], np.float32)
    a = np.array([r.choice([0.0, r.uniform(-9, 9)]) * u for _ in range(n)], np.float32)
    d = np.array([r.choice([0.0, 1.0, r.uniform(0.1, 9)]) * u for _ in range(n)], np.float32)
    keys = tf.constant([r.choice(["a", "b"]) for _ in range(n)])
    z = E.choice("what", ["minmax", "0_1", "zscore"])
    E.note(x, a, d)
    used = []

    def looked_up(values, key, *rest, **k):
        used.append((values, key))
        return tf.constant(np.stack([a, d * d] if z == "zscore" else [-a, a + d], axis=1))
    E.stub(tf_utils, "apply_per_key_vocabulary", looked_up)
    asked = []

    def analysed(v, key, **k):
        asked.append((key, k.get("key_vocabulary_filename")))
        return "file"
    E.stub(analyzers, "_mean_and_var_per_key" if z == "zscore" else "_min_and_max_per_key", analysed)
    t = tf.constant(x)
    if z == "zscore":
        out = mappers.scale_to_z_score_per_key(t, keys, key_vocabulary_filename="kf")
    elif z == "0_1":
        out = mappers.scale_to_0_1_per_key(t, keys, key_vocabulary_filename="kf")
    else:
        out = mappers.scale_by_min_max_per_key(t, keys, -1.0, 3.0, key_vocabulary_filename="kf")
    out = out.numpy()
    E.check("one vocabulary", asked == [(keys, "kf")] and used[0][0] == "file" and used[0][1] is keys, (asked, used))
    E.check("shape kept", out.shape == x.shape, out)
    lo, hi = (-1.0, 3.0) if z == "minmax" else (0.0, 1.0)
    for o, v, m, s in zip(*(q.astype(np.float64) for q in (out, x, a, d))):
        if z == "zscore":
            want = (v - m) / float(np.sqrt(np.float32(s) * np.float32(s))) if np.float32(s) * np.float32(s) > 0 else v - m
            tol = 1e-5 * (abs(v) + abs(m)) / (s or 1) + 1e-4 * abs(want)
        else:
            top = float(np.float32(m) + np.float32(s))
            want = spec_mm(v, m, top, lo, hi)
            tol = 1e-4 * (1 + abs(want)) + (4e-6 * (abs(v) + abs(m)) / (top - m) * (1 + abs(want)) * 4 if top > m else 0)
        E.check("each value is scaled with what was looked up for it", abs(o - want) <= tol, (z, v, m, s, o, want))


def spec_e2e():
    return {"x": tf.io.FixedLenFeature([2], tf.float32), "i": tf.io.FixedLenFeature([], tf.int64),
            "k": tf.io.FixedLenFeature([], tf.string), "s": tf.io.VarLenFeature(tf.float32)}


def e2e_fn(inputs):
    x, i, k, s = inputs["x"], inputs["i"], inputs["k"], inputs["s"]
    return {"a": mappers.scale_by_min_max(x, -2.0, 5.0), "b": mappers.scale_to_0_1(x, elementwise=True),
            "c": mappers.scale_to_0_1(i), "d": mappers.scale_to_z_score(x), "e": mappers.scale_to_z_score(x, elementwise=True),
            "f": mappers.scale_to_z_score(i), "g": mappers.scale_to_0_1_per_key(i, k),
            "gf": mappers.scale_to_0_1_per_key(i, k, key_vocabulary_filename="kf"),
            "h": mappers.scale_to_z_score_per_key(x, k), "hf": mappers.scale_to_z_score_per_key(i, k, key_vocabulary_filename="zf"),
            "s": mappers.scale_by_min_max(s, 1.0, 2.0), "t": mappers.scale_to_z_score(s)}


@unit(P, "whole pipelines scale every value by the documented map",
      [mappers.scale_by_min_max, mappers.scale_to_0_1, mappers.scale_to_z_score, mappers.scale_to_0_1_per_key,
       mappers.scale_to_z_score_per_key, tf_utils.apply_per_key_vocabulary], sym=False,
      bounded="generated data sets of up to 7 rows through the real pipeline", conc=2, conc_s=16)
def pipelines(E):
    r = E.rng
    rows = E.gen("rows", lambda r: [{"x": [float(r.choice([0, 1, 2.5, -7, 4])), float(r.choice([3, 3, 8]))],
                                     "i": r.choice([0, 5, 5, -3, 300]), "k": r.choice(["a", "b", "c-c"]),
                                     "s": [float(r.randint(-4, 4)) for _ in range(r.randint(0, 3))]}
                                    for _ in range(r.randint(2, 7))])
    bs = E.choice("batch", [1, 2, None])
    out, _ = e2e.analyze_transform(e2e_fn, rows, spec_e2e(), bs)
    E.check("one output per row", len(out) == len(rows))
    X = np.array([q["x"] for q in rows])
    I = np.array([float(q["i"]) for q in rows])
    S = [v for q in rows for v in q["s"]]

    def zs(v, d):
        d = np.asarray(d, float)
        return (v - d.mean()) / d.std() if d.std() > 1e-9 else v - d.mean()
    for q, o in zip(rows, out):
        ki = [float(p["i"]) for p in rows if p["k"] == q["k"]]
        kx = [v for p in rows if p["k"] == q["k"] for v in p["x"]]
        mm = lambda v, d, a, b: spec_mm(v, min(d), max(d), a, b)
        want = {"a": [mm(v, X.ravel(), -2., 5.) for v in q["x"]], "b": [mm(v, X[:, j], 0, 1) for j, v in enumerate(q["x"])],
                "c": mm(q["i"], I, 0, 1), "d": [zs(v, X) for v in q["x"]], "e": [zs(v, X[:, j]) for j, v in enumerate(q["x"])],
                "f": zs(q["i"], I), "g": mm(q["i"], ki, 0, 1), "gf": mm(q["i"], ki, 0, 1),
                "h": [zs(v, kx) for v in q["x"]], "hf": zs(q["i"], ki),
                "s": [mm(v, S, 1., 2.) for v in q["s"]], "t": [zs(v, S) for v in q["s"]]}
        for k, w in want.items():
            g = np.asarray(o[k], float).ravel()
            w = np.asarray(w, float).ravel()
            E.check(f"{k}", g.shape == w.shape and np.allclose(g, w, atol=2e-3, rtol=2e-3), (k, q, g, w))
