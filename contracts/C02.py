"""C02: sum, min, max, size and count do not depend on batching or merging.

Abstraction of an accumulator: the multiset of values seen, through its sum,
or through (negated minimum, maximum), where "nothing seen" is the default."""
import collections

import numpy as np
import tensorflow as tf

from tensorflow_transform import analyzers, tf_utils
from contracts import e2e
from pyvc.harness import unit

P = "C02"
Comb = analyzers.NumPyCombiner
SUM = analyzers._sum_combine_fn_and_dtype(tf.int64)[1]
SUMF = analyzers._sum_combine_fn_and_dtype(tf.float64)[1]
D = 127  # the largest int8: the smallest accumulator domain


def sum_comb(E, fl, shape):
    return E.new(Comb, SUMF if fl else SUM, 0, [np.float64 if fl else np.int64], [shape])


@unit(P, "sum: adding a batch and merging two parts add element by element", [Comb], conc=200)
def sum_two(E):
    fl = E.choice("float", [False, True])
    sp = E.choice("space", [None, "feat"])
    dt = "float64" if fl else "int64"
    c = sum_comb(E, fl, () if sp is None else None)
    a, b = E.arr("a", space=sp, dtype=dt), E.arr("b", space=sp, dtype=dt)
    r = E.call(c.add_input, [a], [b]) if E.choice("op", [True, False]) else E.call(c.merge_accumulators, [[a], [b]])
    E.check("one output", len(r) == 1)
    E.elementwise("the sum of the two", lambda s, x, y: E.eq(s, x + y), r[0], a, b)


@unit(P, "sum: a fresh accumulator is neutral", [Comb], conc=100)
def sum_neutral(E):
    sp = E.choice("space", [None, "feat"])
    shape = () if sp is None else None
    a = E.arr("a", space=sp)
    if not E.symbolic:
        shape = E.gen("shape", lambda r: r.choice([np.shape(a), None]))
    c = sum_comb(E, True, shape)
    z = c.create_accumulator()
    op = E.choice("op", ["add", "first", "last"])
    r = (E.call(c.add_input, z, [a]) if op == "add" else
         E.call(c.merge_accumulators, [z, [a]] if op == "first" else [[a], z]))
    E.elementwise("unchanged", lambda s, x: E.eq(s, x), r[0], a)


@unit(P, "sum: merging any number of parts", [Comb], conc=150)
def sum_many(E):
    fl = E.choice("float", [False, True])
    dt = "float64" if fl else "int64"
    c = sum_comb(E, fl, ())
    if not E.symbolic:
        parts = [E.arr(f"p{i}", dtype=dt) for i in range(E.int("k", 0, 6))]
        r = c.merge_accumulators([[p] for p in parts])
        E.check("the sum of all parts", E.eq(float(r[0]), float(np.sum(parts))), (parts, r))
        return
    import z3
    from pyvc import core
    S = z3.Function("prefix_sum", z3.IntSort(), z3.RealSort() if fl else z3.IntSort())
    core.assume(S(0) == 0)

    def elem(e):
        x = e.arr("x", dtype=dt)
        core.assume(S(e.i + 1) == S(e.i) + x.el.e)
        return [x]

    def inv(st, k):
        a = st["acc"]
        return E.eq(0 if a is None else a.el, core.mk(S(core.to_arith(k))))
    seq = E.seq("parts", elem, inv, lambda n, v: E.arr("h", dtype=dt))
    seq.folds = 1
    r = E.call(c.merge_accumulators, seq)
    E.check("the sum of all parts", E.eq(r[0], core.mk(S(seq.length))))


def mm_comb(E, fl, shape):
    return E.new(Comb, np.max, -np.inf if fl else -D, [np.float64] * 2 if fl else [np.int64] * 2, [shape, shape])


def draw_mm(E, tag, fl, sp, empty=False):
    dt = "float64" if fl else "int64"
    if empty:
        v = -np.inf if fl else -D
        return [np.array(v), np.array(v)]
    lo = E.arr("lo" + tag, space=sp, dtype=dt, lo=-D, hi=D)
    hi = E.arr("hi" + tag, space=sp, dtype=dt, lo=-D, hi=D)
    mn = E.map(lambda x, y: E.ite(x <= y, x, y), lo, hi)
    mx = E.map(lambda x, y: E.ite(x <= y, y, x), lo, hi)
    return [E.map(lambda x: -x, mn), mx]


@unit(P, "min and max: adding a batch and merging two parts", [Comb], conc=300)
def mm_two(E):
    fl = E.choice("float", [False, True])
    sp = E.choice("space", [None, "feat"])
    c = mm_comb(E, fl, () if sp is None else None)
    ea, eb = E.choice("empty_a", [False, True]), E.choice("empty_b", [False, True])
    a, b = draw_mm(E, "a", fl, sp, ea), draw_mm(E, "b", fl, sp, eb)
    op = E.choice("op", ["add", "merge"])
    E.assume(not (op == "add" and eb and sp is not None))  # a batch has the shape of the feature
    r = E.call(c.add_input, a, b) if op == "add" else E.call(c.merge_accumulators, [a, b])
    E.check("two outputs", len(r) == 2)
    for i, name in enumerate(["negated minimum", "maximum"]):
        if ea or eb:
            o = b[i] if ea else a[i]
            E.elementwise(name + " of the union", lambda s, x: E.eq(s, x), r[i], o)
        else:
            E.elementwise(name + " of the union", lambda s, x, y: E.eq(s, E.ite(x >= y, x, y)), r[i], a[i], b[i])


@unit(P, "min and max: merging any number of parts", [Comb], conc=150, max_s=90)
def mm_many(E):
    fl = E.choice("float", [False, True])
    dt = "float64" if fl else "int64"
    c = mm_comb(E, fl, ())
    if not E.symbolic:
        k = E.int("k", 0, 6)
        data = [[E.int(f"v{i}_{j}", -D, D) for j in range(E.int(f"n{i}", 0, 2))] for i in range(k)]
        parts = [[np.array(-min(v) if v else c._default_accumulator_value),
                  np.array(max(v) if v else c._default_accumulator_value)] for v in data]
        r = c.merge_accumulators(parts)
        al = [x for v in data for x in v]
        want = [-min(al), max(al)] if al else [c._default_accumulator_value] * 2
        E.check("the extrema of all parts", E.eq([float(x) for x in r], [float(x) for x in want]), (data, r))
        return
    import z3
    from pyvc import core
    sort = z3.RealSort() if fl else z3.IntSort()
    M = [z3.Function("prefix_ext%d" % j, z3.IntSort(), sort) for j in (0, 1)]
    H = z3.Function("prefix_any", z3.IntSort(), z3.BoolSort())
    core.assume(z3.Not(H(0)))

    def elem(e):
        v = [e.arr("lo", dtype=dt), e.arr("hi", dtype=dt)]
        i = e.i
        no = e.bool("empty")
        lo, hi = [x.el.e for x in v]
        core.assume(z3.And(lo >= -D, lo <= D, hi >= -D, hi <= D))
        if not fl:
            core.assume(z3.If(no.e, z3.And(lo == -D, hi == -D), -lo <= hi))
        else:
            core.assume(z3.Not(no.e))
            core.assume(-lo <= hi)
        core.assume(H(i + 1) == z3.Or(H(i), z3.Not(no.e)))
        for j, x in enumerate((lo, hi)):
            core.assume(M[j](i + 1) == z3.If(no.e, M[j](i), z3.If(z3.And(H(i), M[j](i) >= x), M[j](i), x)))
        return v

    def inv(st, k):
        a, j = st["acc"], st["component"]
        k = core.to_arith(k)
        if a is None:
            return core.mk(z3.Not(H(k)))
        return E.And(core.mk(H(k)), E.eq(a.el, core.mk(M[j](k))))
    seq = E.seq("parts", elem, inv, lambda n, v: E.arr("h", dtype=dt))
    seq.folds = 2
    r = E.call(c.merge_accumulators, seq)
    for j in (0, 1):
        out = r[j].el if hasattr(r[j], "el") else r[j].item()
        if core.is_sym(out):
            E.check("the extremum of all parts", E.And(core.mk(H(seq.length)), E.eq(out, core.mk(M[j](seq.length)))))
        else:
            E.check("the default if no part holds values", E.And(
                core.mk(z3.Not(H(seq.length))), out == c._default_accumulator_value))


@unit(P, "the output is the accumulated value in the output dtype", [Comb], conc=30)
def extract(E):
    c = sum_comb(E, True, ())
    a = E.arr("a")
    r = E.call(c.extract_output, [a])
    E.check("the value", E.And(len(r) == 1, E.eq(r[0], a)))


def wrap(E, x, kind):
    from contracts.C01 import wrap as w
    return x if kind == "dense" else w(E, x, kind)


@unit(P, "batch minimum and maximum are bounds of the batch", [tf_utils.reduce_batch_minus_min_and_max], conc=100)
def batch_bounds(E):
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    allv = E.choice("reduce_instance_dims", [True, False]) if kind == "dense" else True
    dt = E.choice("dtype", ["float64", "int64"])
    x = E.arr("x", space="batch*feat", kind="tf", dtype=dt)
    mm, mx = E.call(tf_utils.reduce_batch_minus_min_and_max, wrap(E, x, kind), allv)
    E.elementwise("every value lies between minimum and maximum",
                  lambda v, lo, hi: E.And(E.le(v, hi), E.le(-lo, v)), x, mm, mx)
    if not E.symbolic and int(tf.size(x)):
        v = x.numpy()
        ax = None if allv else 0
        E.check("and they are attained", E.And(E.eq(-mm.numpy(), v.min(axis=ax)), E.eq(mx.numpy(), v.max(axis=ax))))


# ---------------------------------------------------- bounded run-time checks
def rows_gen(r):
    n, f = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3])
    pm = r.choice([0, 0.3, 0.8])
    sp = r.random() < 0.3
    val = lambda: (r.choice([float("inf"), float("-inf"), 0.0, 1.0]) if sp else
                   r.choice([0.0, -1.0, 1.0, 2.5, -7.25, 100.0, r.gauss(0, 5)]))
    return f, [[None if r.random() < pm else val() for _ in range(f)] for _ in range(n)]


def to_tensor(kind, f, rows, dtype):
    npd = tf.as_dtype(dtype).as_numpy_dtype
    if kind == "dense":
        return tf.constant(np.array(rows, npd).reshape(-1, f), dtype)
    ix = [(i, j) for i, row in enumerate(rows) for j, v in enumerate(row) if v is not None]
    vals = np.array([rows[i][j] for i, j in ix], npd)
    if kind == "sparse":
        return tf.SparseTensor(np.array(ix, np.int64).reshape(-1, 2), vals, (len(rows), f))
    return tf.RaggedTensor.from_row_lengths(tf.constant(vals, dtype), [sum(v is not None for v in row) for row in rows])


def captured(E, fn, x):
    """Runs analyzer fn on x up to its combiner: (combiner, batch inputs)."""
    got = {}

    def record(comb, *inputs):
        got["c"], got["in"] = comb, [i.numpy() for i in inputs]
        return tuple(tf.zeros([], t.dtype) for t in comb.output_tensor_infos())
    old = analyzers._apply_cacheable_combiner
    analyzers._apply_cacheable_combiner = record
    try:
        fn(x)
    finally:
        analyzers._apply_cacheable_combiner = old
    return got["c"], got["in"]


KINDS = ["dense", "dense_cols", "sparse", "sparse_cols", "ragged"]


@unit(P, "sum, size, min and max of a data set are those of any split of it",
      [analyzers.sum, analyzers.size, analyzers._min_and_max, tf_utils.reduce_batch_minus_min_and_max, Comb],
      sym=False, bounded="generated data sets up to 8x3 in up to 5 batches, all dtypes, random merge trees",
      conc=400, conc_s=12)
def splits(E):
    r = E.rng
    kind = E.choice("kind", KINDS)
    what = E.choice("analyzer", ["sum", "size", "minmax"])
    dt = E.choice("dtype", ["float32", "float64", "int64", "int32", "int16", "int8", "uint8", "uint16"])
    f, rows = E.gen("rows", rows_gen)
    cols = kind.endswith("_cols")
    rep = kind.split("_")[0]
    if rep == "dense":
        rows = [[0.0 if v is None else v for v in row] for row in rows]
    d = tf.as_dtype(dt)
    if d.is_integer:
        big = E.gen("big", lambda r: r.random() < 0.5)
        lim = 2 ** 31 - 1 if dt == "int64" else d.max

        def conv(v):
            if v is None:
                return None
            if big and v > 0:
                return int(lim)
            return int(max(0 if d.is_unsigned else -min(lim, 100), min(lim, v))) if np.isfinite(v) else int(lim)
        rows = [[conv(v) for v in row] for row in rows]
    E.assume(not (what == "sum" and any(v is not None and not np.isfinite(v) for row in rows for v in row)))
    batches = e2e.split(r, rows, 5)
    if not (rep == "sparse" and cols and not d.is_integer) or what != "minmax":
        pass
    E.note([len(b) for b in batches], what, dt)
    fn = {"sum": lambda x: analyzers.sum(x, not cols), "size": lambda x: analyzers.size(x, not cols),
          "minmax": lambda x: analyzers._min_and_max(x, not cols)}[what]
    ins, comb = [], None
    for b in batches:
        comb, i = captured(E, fn, to_tensor(rep, f, b, dt))
        ins.append(i)
    out = comb.extract_output(e2e.accumulate(r, comb, ins))
    groups = [[row[j] for row in rows if row[j] is not None] for j in range(f)] if cols else [
        [v for row in rows for v in row if v is not None]]
    for j, g in enumerate(groups):
        got = [np.asarray(o).reshape(-1)[j] for o in out]
        if what == "size":
            E.check("size", E.eq(int(got[0]), len(g)), (got, g))
        elif what == "sum":
            E.check("sum", E.eq(float(got[0]), float(sum(g)), tol=1e-4), (got, g))
        elif g:
            g32 = [float(np.asarray(v, d.as_numpy_dtype)) for v in g]
            E.check("minimum and maximum", E.And(float(got[0]) == -min(g32), float(got[1]) == max(g32)), (got, g))


@unit(P, "batch minimum and maximum per position of a ragged batch", [tf_utils.reduce_batch_minus_min_and_max,
      tf_utils._get_missing_value], sym=False, bounded="generated ragged batches up to 5x3x3", conc=100, conc_s=6)
def ragged_positions(E):
    dt = E.choice("dtype", ["float32", "float64", "int64", "int32", "int16", "uint8", "int8"])
    d = tf.as_dtype(dt)
    lo = 0 if d.is_unsigned else -100
    rows = E.gen("rows", lambda r: [[[r.randint(lo, 100) for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 3))]
                                    for _ in range(r.randint(1, 5))])
    E.assume(any(v for row in rows for v in row))
    x = tf.ragged.constant(rows, dtype=dt, ragged_rank=2)
    mm, mx = [t.numpy() for t in tf_utils.reduce_batch_minus_min_and_max(x, False)]
    top = np.finfo(d.as_numpy_dtype).max if d.is_floating else 0
    E.check("one result per position", mm.shape == mx.shape == (max(map(len, rows)), max(len(v) for row in rows for v in row)),
            (rows, mm, mx))
    for i, j in np.ndindex(*mx.shape):
        v = [row[i][j] for row in rows if len(row) > i and len(row[i]) > j]
        if v:
            E.check("minimum and maximum", -float(mm[i, j]) == min(v) and float(mx[i, j]) == max(v), (rows, i, j, mm, mx))
            continue
        for w in (mm[i, j], mx[i, j]):
            # a position without values must not win over any value of another batch
            E.check("a position without values is neutral", np.isnan(w) if d.is_floating else float(w) <= -127, (dt, i, j, w))


@unit(P, "a NaN reaches the total sum", [analyzers.sum, Comb], sym=False, bounded="generated batches", conc=60, conc_s=4)
def nan_sum(E):
    r = E.rng
    rows = [[r.gauss(0, 1)] for _ in range(E.int("n", 1, 6))]
    rows[r.randrange(len(rows))][0] = float("nan")
    cols = E.choice("cols", [False, True])
    ins = []
    for b in e2e.split(r, rows, 4):
        comb, i = captured(E, lambda x: analyzers.sum(x, not cols), to_tensor("dense", 1, b, "float32"))
        ins.append(i)
    out = comb.extract_output(e2e.accumulate(r, comb, ins))
    E.check("NaN", bool(np.isnan(out[0]).all()), (rows, out))


@unit(P, "batch counts per key", [tf_utils.reduce_batch_count_per_key], sym=False, bounded="generated batches up to 12 keys",
      conc=80, conc_s=4)
def count_batch(E):
    r = E.rng
    keys = [[r.choice(["a", "b", "c", "", " a", "a ", "a b", "A", "é", "\n", "\0"]) for _ in range(r.randint(0, 3))] for _ in range(r.randint(1, 5))]
    E.note(keys)
    kind = E.choice("kind", ["dense", "sparse", "ragged"])
    if kind == "dense":
        x = tf.constant([k for row in keys for k in row], tf.string)
    else:
        x = tf.ragged.constant(keys, dtype=tf.string, ragged_rank=1)
        x = x.to_sparse() if kind == "sparse" else x
    uk, cnt = E.call(tf_utils.reduce_batch_count_per_key, x)
    got = dict(zip([k.decode() for k in uk.numpy()], cnt.numpy().tolist()))
    E.check("each key once", len(got) == len(uk.numpy()))
    E.check("occurrences of each key", got == dict(collections.Counter(k for row in keys for k in row)), (got, keys))


def e2e_fn(inputs):
    from tensorflow_transform import analyzers as a
    x = inputs["x"]
    s = inputs["s"]
    one = tf.ones_like(x)
    o = {"sum": one * a.sum(x), "min": one * a.min(x), "max": one * a.max(x), "u8": one * tf.cast(
        a.max(tf.cast(tf.abs(x), tf.uint8)), tf.float32), "u8s": one * tf.cast(a.sum(tf.cast(tf.abs(x), tf.uint8)), tf.float32),
        "size": one * tf.cast(a.size(s), tf.float32), "smax": one * a.max(s, reduce_instance_dims=False)[0]}
    keys, counts = a.count_per_key(inputs["k"])
    o["key"] = tf.strings.reduce_join(tf.strings.join([keys, tf.strings.as_string(counts)], separator=":"), separator=" ") + tf.as_string(x * 0)
    return o


@unit(P, "whole pipelines report the statistics of the data set for every batch size",
      [analyzers.sum, analyzers.min, analyzers.max, analyzers.size, analyzers.count_per_key], sym=False,
      bounded="generated data sets of up to 7 rows through the real pipeline", conc=4, conc_s=14)
def pipelines(E):
    r = E.rng
    n = E.int("n", 1, 7)
    rows = E.gen("rows", lambda r: [{"x": float(r.choice([255, 255, 0, 3, -17])), "k": r.choice(["a", "b", "c d"]),
             "s": [float(r.randint(-9, 9))] * r.choice([0, 1])} for _ in range(n)])
    bs = E.choice("batch", [1, 2, None])
    spec = {"x": tf.io.FixedLenFeature([], tf.float32), "k": tf.io.FixedLenFeature([], tf.string),
            "s": tf.io.SparseFeature("i", "v", tf.float32, 1)}
    raw = [{"x": q["x"], "k": q["k"], "i": [0] * len(q["s"]), "v": q["s"]} for q in rows]
    out, _ = e2e.analyze_transform(e2e_fn, raw, spec, bs)
    xs = [q["x"] for q in rows]
    o = {k: (v.item() if hasattr(v, "item") else v) for k, v in out[0].items()}
    want = {"sum": sum(xs), "min": min(xs), "max": max(xs), "u8": max(map(abs, xs)), "u8s": sum(map(abs, xs)),
            "size": sum(len(q["s"]) for q in rows)}
    for k, v in want.items():
        E.check(k, E.eq(float(o[k]), float(v)), (o[k], v))
    sv = [v for q in rows for v in q["s"]]
    E.check("sparse maximum per column", E.eq(float(o["smax"]), max(sv)) if sv else np.isnan(o["smax"]), (o["smax"], sv))
    cnt = collections.Counter(q["k"] for q in rows)
    got = out[0]["key"]
    got = got.decode() if isinstance(got, bytes) else str(got)
    E.check("keys and their counts", all(f"{k}:{v}" in got for k, v in cnt.items()), (got, cnt))


@unit(P, "the most negative integer is a minimum like any other", [analyzers._min_and_max], sym=False,
      bounded="one value per integer type", conc=12, conc_s=3)
def most_negative(E):
    dt = E.choice("dtype", ["int8", "int16", "int32", "int64"])
    d = tf.as_dtype(dt)
    comb, i = captured(E, lambda x: analyzers._min_and_max(x, True), tf.constant([d.min, 5], d))
    out = comb.extract_output(e2e.accumulate(E.rng, comb, [i]))
    E.check("minimum of [smallest, 5]", int(-out[0].astype(np.int64)) == d.min, (dt, out))
