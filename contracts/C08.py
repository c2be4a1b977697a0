"""C08: bucketization assigns every value to the bucket that contains it."""
import bisect
from fractions import Fraction

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzers, mappers, schema_inference, tf_utils
from contracts import e2e, graphs
from contracts.C01 import wrap
from pyvc.harness import unit, Raised

P = "C08"
RIGHT, LEFT = tf_utils.Side.RIGHT, tf_utils.Side.LEFT
DTYPES = [("float32", "float32"), ("float64", "float32"), ("int64", "float32"), ("int32", "int32"), ("int64", "int32"),
          ("float32", "int32"), ("float32", "float64"), ("float16", "int32"), ("uint32", "int32")]


def values_of(r, kind):
    return r if kind == "dense" else r.values if kind == "sparse" else r.flat_values


def nonneg(dt):
    return 0 if dt.startswith("uint") else None


@unit(P, "the index is the number of boundaries less than or equal to the value", [tf_utils.assign_buckets], conc=200, weight=2)
def assigned(E):
    xd, bd = E.choice("dtypes", DTYPES)
    side = E.choice("side", [RIGHT, LEFT])
    b = E.table("boundaries", minlen=0 if side is RIGHT else 1, dtype=bd, lo=-1000, hi=1000)
    x = E.arr("x", space="batch*feat", kind="tf", dtype=xd, lo=nonneg(xd), hi=60000 if xd == "float16" else None)
    r = E.call(tf_utils.assign_buckets, x, b, side)
    n = E.table_len(b)
    if side is RIGHT:
        E.elementwise("index is the count of boundaries not above the value", lambda k, v: E.And(
            k >= 0, k <= n, E.for_index(b, "j", lambda j, e: E.eq((j < k), (e <= v)))), r, x)
    else:
        E.elementwise("index is the count of boundaries below the value, the last one aside", lambda k, v: E.And(
            k >= 0, k <= n - 1, E.for_index(b, "j", lambda j, e: E.Implies(j < n - 1, E.eq((j < k), (e < v))))), r, x)
    E.check("int64 indices", r.dtype == tf.int64)


@unit(P, "apply_buckets returns the bucket of every value and records the range of the indices", [mappers.apply_buckets, tf_utils.assign_buckets,
                                                                                         mappers._make_composite_tensor_wrapper_if_composite], conc=100)
def applied(E):
    xd, bd = E.choice("dtypes", DTYPES)
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    b = E.table("boundaries", minlen=0, dtype=bd, lo=-1000, hi=1000)
    x = E.arr("x", space="batch*feat" if kind == "dense" else "batch", kind="tf", dtype=xd, lo=nonneg(xd), hi=60000 if xd == "float16" else None)
    seen = []
    E.stub(schema_inference, "set_tensor_schema_override", lambda t, lo, hi: seen.append((t, lo, hi)))
    arg = x if kind == "dense" else wrap(E, x, kind)
    r = E.call(mappers.apply_buckets, arg, b)
    out = values_of(r, kind)
    n = E.table_len(b)
    E.elementwise("index is the count of boundaries not above the value", lambda k, v: E.And(
        k >= 0, k <= n, E.for_index(b, "j", lambda j, e: E.eq((j < k), (e <= v)))), out, x)
    E.check("one range is recorded", len(seen) == 1)
    E.check("for the indices returned", seen[0][0] is out)
    E.check("range", E.And(E.eq(seen[0][1], 0), E.eq(seen[0][2], n)))
    if kind == "sparse":
        E.check("structure kept", r.indices is arg.indices and r.dense_shape is arg.dense_shape)
    if kind == "ragged" and E.symbolic:
        E.check("structure kept", r.nested_row_splits is arg.nested_row_splits)


@unit(P, "a larger value never gets a smaller bucket", [mappers.apply_buckets, tf_utils.assign_buckets], conc=80)
def monotone(E):
    xd, bd = E.choice("dtypes", DTYPES)
    b = E.table("boundaries", minlen=0, dtype=bd, lo=-1000, hi=1000)
    x = E.arr("x", space="batch", kind="tf", dtype=xd, lo=nonneg(xd), hi=60000 if xd == "float16" else None)
    y = E.arr("y", space="batch", kind="tf", dtype=xd, lo=nonneg(xd), hi=60000 if xd == "float16" else None)
    E.stub(schema_inference, "set_tensor_schema_override", lambda t, lo, hi: None)
    p, q = E.call(mappers.apply_buckets, x, b), E.call(mappers.apply_buckets, y, b)
    E.elementwise("monotone", lambda p, q, v, w: E.And(E.Implies(v <= w, p <= q), E.Implies(w <= v, q <= p)), p, q, x, y)


@unit(P, "interpolated values lie in [0, 1], grow with the value and map boundaries to even steps", [
    mappers.apply_buckets_with_interpolation, tf_utils.assign_buckets], conc=200, timeout_s=20, weight=2)
def interpolated(E):
    xd, bd = E.choice("dtypes", [("float32", "float32"), ("float64", "float32"), ("float64", "float64"), ("int64", "float32"),
                                 ("float32", "int32")])
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    b = E.table("boundaries", minlen=1, dtype=bd, lo=-1000, hi=1000, order="lt")
    isf = xd.startswith("float")
    x = E.arr("x", space="batch*feat" if kind == "dense" else "batch", kind="tf", dtype=xd, nan=isf)
    r = E.call(mappers.apply_buckets_with_interpolation, x if kind == "dense" else wrap(E, x, kind), b)
    out = values_of(r, kind)
    n = E.table_len(b)
    E.elementwise("in [0, 1]", lambda v: E.And(v >= 0, v <= 1 + 0), out)
    if isf:
        E.elementwise("not-a-number goes to the middle", lambda v, t: E.Implies(E.And(E.isnan(t), n > 1), E.eq(v, 0.5)), out, x)
    E.elementwise("below all boundaries", lambda v, t: E.Implies(t < E.at(b, 0), E.eq(v, 0)), out, x)
    E.elementwise("from the last boundary on", lambda v, t: E.Implies(t >= E.at(b, n - 1), E.eq(v, 1)), out, x)
    E.elementwise("boundaries", lambda v, t: E.for_index(
        b, "j", lambda j, e: E.Implies(E.And(E.eq(t, e), n > 1), E.eq(v * (n - 1), j))), out, x)
    E.elementwise("between boundaries", lambda v, t: E.for_index(
        b, "k", lambda j, e: E.Implies(E.And(t >= e, n > 1), E.le(j, v * (n - 1)))), out, x)
    E.check("type", out.dtype == (tf.float64 if xd == "float64" else tf.float32))


@unit(P, "interpolation keeps the order of values", [mappers.apply_buckets_with_interpolation], conc=80, timeout_s=20, weight=2)
def interpolated_monotone(E):
    xd, bd = E.choice("dtypes", [("float32", "float32"), ("float64", "float32"), ("int64", "float32")])
    b = E.table("boundaries", minlen=1, dtype=bd, lo=-1000, hi=1000, order="lt")
    x = E.arr("x", space="batch", kind="tf", dtype=xd)
    y = E.arr("y", space="batch", kind="tf", dtype=xd)
    p, q = [E.call(mappers.apply_buckets_with_interpolation, t, b) for t in (x, y)]
    E.elementwise("monotone", lambda p, q, v, w: E.Implies(v <= w, E.le(p, q)), p, q, x, y)


def case(r):
    xd = r.choice(["float32", "float32", "float64", "int64", "int32", "float16"])
    bd = r.choice(["float32", "float32", "float64", "int32"])
    n = r.randint(0, 6)
    mag = r.choice([3, 3, 100, 2 ** 24 + 5]) if xd != "float16" else 40
    step = 1 if bd.startswith("int") else r.choice([1, 0.5, 0.25])
    b = sorted(np.asarray([r.randint(-4, 4) * step + (mag if r.random() < 0.5 else 0) for _ in range(n)], bd).tolist())
    vals = []
    for _ in range(r.randint(1, 10)):
        k = r.random()
        t = r.choice(b) if b and k < 0.5 else r.uniform(-mag, mag)
        if b and k < 0.3:
            t = t + r.choice([-1, 1]) * r.choice([0, 1, 0.5, 1e-3])
        vals.append(t)
    if xd.startswith("float"):
        vals += [r.choice([float("inf"), float("-inf"), 1e30 if xd != "float16" else 5e4, -0.0])]
    x = np.asarray(vals).astype(xd)
    return xd, bd, b, x.tolist()


@unit(P, "values at, next to and far beyond the boundaries, in every number type", [
    mappers.apply_buckets, mappers.apply_buckets_with_interpolation, tf_utils.assign_buckets], sym=False,
    bounded="generated boundaries (up to 6) and values", conc=250, conc_s=10)
def special(E):
    xd, bd, b, x = E.gen("case", case)
    r = mappers.apply_buckets(tf.constant(x, xd), tf.constant([b], bd)).numpy().tolist() if b or True else None
    want = [bisect.bisect_right(b, v) for v in x]
    E.check("indices", r == want, f"{r} want {want}")
    if len(set(b)) < 1:
        bad = E.attempt(mappers.apply_buckets_with_interpolation, tf.constant(x, xd), tf.constant([b], bd))
        E.check("no boundary is rejected", isinstance(bad, Raised))
        return
    if xd == "float16":
        return
    b2 = sorted(set(b))
    noise = E.gen("extra", lambda r: r.choice([[], [float("inf")], [float("-inf"), float("inf")], [float("nan")]])) if bd.startswith("f") else []
    bb = [t for t in noise if t < 0] + b2 + [t for t in noise if not t < 0]
    x2 = x + ([float("nan")] if xd.startswith("float") else [])
    v = mappers.apply_buckets_with_interpolation(tf.constant(x2, xd), tf.constant([bb], bd)).numpy().tolist()
    for t, p in zip(x2, v):
        E.check("in [0, 1]", 0 <= p <= 1, f"{t} -> {p}; {bb}")
        if t != t:
            E.check("not-a-number", p == (0.5 if len(b2) > 1 else p))
            continue
        k = bisect.bisect_right(b2, t)
        if len(b2) == 1:
            exp = float(k)
        elif k == 0:
            exp = 0.0
        elif k == len(b2):
            exp = 1.0
        else:
            w = Fraction(b2[k]) - Fraction(b2[k - 1])
            exp = float((k - 1 + (Fraction(t) - Fraction(b2[k - 1])) / w) / (len(b2) - 1))
        tol = 1e-5 if abs(t) < 1000 and max(map(abs, b2)) < 1000 else 1.0
        E.check("value", abs(p - exp) <= tol, f"{t} -> {p} want {exp}; {bb}")
    order = sorted((t, p) for t, p in zip(x2, v) if t == t)
    E.check("monotone", all(a[1] <= b[1] + 1e-6 for a, b in zip(order, order[1:])), str(order))


@unit(P, "empty buckets of a histogram are filled in, every count at its own index", [tf_utils.reorder_histogram], sym=False,
      bounded="generated histograms of up to 8 buckets", conc=120, conc_s=5)
def reordered(E):
    n = E.gen("buckets", lambda r: r.randint(1, 8))
    full = E.gen("counts", lambda r: [r.choice([0, 1, 2, 7, 100]) for _ in range(n)])
    order = E.gen("order", lambda r: r.sample(range(n), n))
    present = [i for i in order if full[i]]
    if not present:
        return
    as_text = E.choice("text", [True, False])
    voc = tf.constant([str(i) for i in present]) if as_text else tf.constant(present, tf.int32)
    got = tf_utils.reorder_histogram(voc, tf.constant([full[i] for i in present], tf.int64), n).numpy().tolist()
    E.check("counts", got == full, f"{got} want {full}")


@unit(P, "bucketize asks for the quantiles of the values and applies them", [mappers.bucketize], conc=40)
def wired(E):
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    x = E.arr("x", space="batch", kind="tf", dtype=E.choice("dtype", ["float32", "int64"]))
    w = E.choice("weights", [None, "w"])
    n = E.choice("num_buckets", [0, 1, 2, 7, 500, 2.0, -3])
    eps = E.choice("epsilon", [None, 0.2])
    asked, applied = [], []

    def quantiles(*a, **k):
        names = ["x", "num_buckets", "epsilon", "weights", "reduce_instance_dims", "name"]
        asked.append({**dict(zip(names, a)), **k})
        return "boundaries"

    def apply(x, b, name=None):
        applied.append((x, b))
        return "result"
    E.stub(analyzers, "quantiles", quantiles)
    E.stub(mappers, "apply_buckets", apply)
    arg = x if kind == "dense" else wrap(E, x, kind)
    r = E.attempt(mappers.bucketize, arg, n, eps, w)
    if not isinstance(n, int):
        E.check("a number of buckets that is not an integer is rejected", isinstance(r, Raised) and isinstance(r.exc, TypeError))
        return
    if n < 1:
        E.check("no bucket is rejected", isinstance(r, Raised) and isinstance(r.exc, ValueError))
        return
    E.check("result", r == "result", repr(r))
    E.check("quantiles of the values", len(asked) == 1 and asked[0]["x"] is values_of(arg, kind) and asked[0]["num_buckets"] == n
            and asked[0].get("weights") is w and asked[0].get("reduce_instance_dims", True) is True)
    E.check("precision", asked[0]["epsilon"] == (eps if eps is not None else min(1.0 / n, 0.01)))
    E.check("applied to x", len(applied) == 1 and applied[0][0] is arg and applied[0][1] == "boundaries")
    if kind != "dense":
        bad = E.attempt(mappers.bucketize, arg, n, eps, w, True)
        E.check("elementwise needs dense input", isinstance(bad, Raised) and isinstance(bad.exc, ValueError))


@unit(P, "elementwise bucketize looks up every component among its own boundaries", [mappers.bucketize, mappers.apply_buckets], sym=False,
      bounded="generated batches of up to 5 rows of up to 2x3 components", conc=80, conc_s=5)
def elementwise(E):
    r = E.rng
    shape = E.choice("shape", [(1,), (3,), (2, 3), (2, 1)])
    n, nb = r.randint(1, 5), r.randint(2, 5)
    vals = [0.0, 1.0, 1.0, 2.5, -3.0, 7.0]
    b = np.sort(np.array([r.choice(vals) for _ in range(int(np.prod(shape)) * (nb - 1))], np.float32).reshape(shape + (nb - 1,)), axis=-1)
    x = np.array([r.choice(vals + [9.0, -9.0]) for _ in range(n * int(np.prod(shape)))], np.float32).reshape((n,) + shape)
    E.note(x, b)
    asked = []

    def quantiles(v, num_buckets, epsilon=None, weights=None, reduce_instance_dims=True, name=None):
        asked.append((v, num_buckets, reduce_instance_dims))
        return tf.constant(b)
    E.stub(analyzers, "quantiles", quantiles)
    out = graphs.run(lambda: mappers.bucketize(tf.compat.v1.placeholder_with_default(x, (None,) + shape), nb, elementwise=True))
    E.check("quantiles per component", len(asked) == 1 and asked[0][1:] == (nb, False))
    E.check("shape kept", out.shape == x.shape, out.shape)
    want = np.zeros(x.shape, np.int64)
    for ix in np.ndindex(*x.shape):
        want[ix] = (b[ix[1:]] <= x[ix]).sum()
    E.check("the number of boundaries of the component up to the value", np.array_equal(out, want), (x, b, out, want))


def rows_gen(r):
    d = r.choice([2, 3])
    c = r.choice([1, 1, 5, 1000])
    return d, [{"f": r.choice([0.0, 0.5, 1.0, 2.0, 3.5, -1.0]) * c, "v": [float(r.randint(-3, 6) * c) for _ in range(d)],
                "s": [float(r.randint(0, 5)) for _ in range(r.randint(0, 3))], "i": r.choice([0, 1, 2, 3, 7]),
                "c": r.choice(["a", "b", "c"])} for _ in range(r.randint(2, 12))]


@unit(P, "bucketize, histogram and density of a data set agree with its values", [
    mappers.bucketize, analyzers.histogram, mappers.estimated_probability_density, analyzers.quantiles], sym=False,
    bounded="generated data sets of up to 12 rows", conc=8, conc_s=16, weight=3)
def whole(E):
    d, rows = E.gen("rows", rows_gen)
    spec = {"f": tf.io.FixedLenFeature([], tf.float32), "v": tf.io.FixedLenFeature([d], tf.float32), "s": tf.io.VarLenFeature(tf.float32),
            "i": tf.io.FixedLenFeature([], tf.int64), "c": tf.io.FixedLenFeature([], tf.string)}
    nb = E.choice("num_buckets", [2, 3, 5])
    hb = E.choice("bins", [2, 5])
    edges = E.gen("edges", lambda r: sorted(r.sample([-3.0, -1.0, 0.0, 0.25, 1.0, 2.0, 4.0, 1000.0], r.randint(3, 6))))
    even = [0.0, 1.0, 2.0, 3.0]

    use = E.gen("outputs", lambda r: r.sample(["buckets", "sparse", "elementwise", "edges", "bins", "categories", "density"], 2))

    def pfn(ins):
        n = tf.shape(ins["f"])[0]
        rep = lambda t: tf.tile(tf.expand_dims(t, 0), [n] + [1] * len(t.shape))
        out = {"f": ins["f"]}
        if "buckets" in use:
            out.update(b=tft.bucketize(ins["f"], nb, 0.0001), q=rep(tft.quantiles(ins["f"], nb, 0.0001)[0]))
        if "sparse" in use:
            out.update(sb=tft.bucketize(ins["s"], nb, 0.0001), qs=rep(tft.quantiles(ins["s"].values, nb, 0.0001)[0]))
        if "elementwise" in use:
            out.update(ve=tft.bucketize(ins["v"], nb, 0.0001, elementwise=True),
                       vq=rep(tft.quantiles(ins["v"], nb, 0.0001, reduce_instance_dims=False)))
        if "edges" in use:
            out.update(h=rep(tft.histogram(ins["f"], edges)[0]))
        if "bins" in use:
            h, b = tft.histogram(ins["f"], hb)
            out.update(h2=rep(h), b2=rep(b[0]))
        if "categories" in use:
            h, k = tft.histogram(ins["c"], categorical=True)
            out.update(hc=rep(h), hk=rep(k))
        if "density" in use:
            out.update(dc=tft.estimated_probability_density(ins["c"], categorical=True),
                       de=tft.estimated_probability_density(ins["f"], even))
        return out
    data, tm = e2e.analyze_transform(pfn, rows, spec, E.choice("batch size", [1, 3, 100]))
    fs = [r["f"] for r in rows]
    o = data[0]
    n = len(rows)
    if "buckets" in use:
        q = np.atleast_1d(o["q"]).tolist()
        E.check("boundaries are values of the data, in order", len(q) == nb - 1 and q == sorted(q) and all(t in fs for t in q), str(q))
        for r, t in zip(rows, data):
            E.check("bucket", t["b"] == bisect.bisect_right(q, r["f"]), f"{r['f']} -> {t['b']}; {q}")
        for dom in [f.int_domain for f in tm.schema.feature if f.name == "b"]:
            E.check("range of the schema", (dom.min, dom.max) == (0, nb - 1), str(dom))
    if "sparse" in use and any(r["s"] for r in rows):
        qs = np.atleast_1d(o["qs"]).tolist()
        for r, t in zip(rows, data):
            got = np.atleast_1d(t["sb"]).tolist()
            E.check("buckets of a sparse feature", got == [bisect.bisect_right(qs, v) for v in r["s"]], f"{r['s']} -> {got}; {qs}")
    if "elementwise" in use:
        vq = np.asarray(o["vq"]).reshape(d, nb - 1).tolist()
        for r, t in zip(rows, data):
            E.check("elementwise buckets", np.atleast_1d(t["ve"]).tolist() == [bisect.bisect_right(b, v) for b, v in zip(vq, r["v"])],
                    f"{r['v']} -> {t['ve']}; {vq}")
    if "edges" in use:
        h = np.atleast_1d(o["h"]).tolist()
        inner = [np.float32(t) - np.float32(0.0001) for t in edges][1:-1]
        want = [0] * (len(edges) - 1)
        for v in fs:
            want[bisect.bisect_left(inner, v)] += 1
        E.check("histogram", h == want, f"{h} want {want}; {edges} {fs}")
    if "bins" in use:
        c, b = np.atleast_1d(o["h2"]), np.atleast_1d(o["b2"]).tolist()
        want = [0] * len(c)
        for v in fs:
            want[bisect.bisect_left(b[1:-1], np.float32(v))] += 1
        E.check("histogram over equal bins", c.tolist() == want and len(c) == hb - 1, f"{c} {b} {fs}")
        E.check("every value is counted once", sum(c) == len(fs))
        E.check("ends", abs(b[0] - min(fs)) < 1e-3 + 1e-6 * abs(b[0]) and abs(b[-1] - max(fs)) < 1e-3 + 1e-6 * abs(b[-1]))
    cs = [r["c"] for r in rows]
    if "categories" in use:
        keys = [k.decode() if isinstance(k, bytes) else k for k in np.atleast_1d(o["hk"]).tolist()]
        E.check("categories", dict(zip(keys, np.atleast_1d(o["hc"]).tolist())) == {k: cs.count(k) for k in set(cs)} and len(keys) == len(set(cs)))
    if "density" in use:
        b = lambda v: bisect.bisect_left([1.0 - 1e-4, 2.0 - 1e-4], v)
        for r, t in zip(rows, data):
            E.check("density of a category", abs(t["dc"] - cs.count(r["c"]) / n) < 1e-6)
            E.check("density of a bin", abs(t["de"] - sum(b(v) == b(r["f"]) for v in fs) / n) < 1e-5, f"{r['f']}: {t['de']}")
