"""C22: approximate quantiles stay within the configured rank error."""
import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzers
from pyvc.harness import unit, Raised
from contracts import e2e

P = "C22"
QC = analyzers.QuantilesCombiner
DTYPES = [np.float32, np.float64, np.int64, np.int32]


def draw_values(r, n, dtype):
    kind = r.choice(["few", "distinct", "wide", "skewed", "sorted"])
    if kind == "few":
        v = [r.randint(-2, 3) for _ in range(n)]
    elif kind == "distinct":
        v = r.sample(range(-n, n + 1), n)
    elif kind == "wide":
        v = [r.uniform(-1e6, 1e6) for _ in range(n)]
    elif kind == "skewed":
        v = [int(2 ** r.uniform(0, 20)) for _ in range(n)]
    else:
        v = sorted(r.randint(0, 5 * n) for _ in range(n))[::r.choice([1, -1])]
    return np.array(v, dtype)


def within(E, label, xs, ws, cuts, n, eps):
    """cuts[j] has a rank within eps of (j + 1)/n of the weight of xs."""
    xs, ws = np.asarray(xs, np.float64), np.asarray(ws, np.float64)
    ok = ~np.isnan(xs) & (ws > 0)
    xs, ws = xs[ok].astype(np.float32), ws[ok]
    total, heaviest = ws.sum(), ws.max(initial=0.0)
    cuts = np.asarray(cuts)
    if not len(xs):
        E.check(label + ": all zeros without data", bool((cuts == 0).all()), cuts)
        return
    E.check(label + ": sorted", bool((np.diff(cuts) >= 0).all()), cuts)
    E.check(label + ": a boundary is one of the values", bool(np.isin(cuts, xs).all()), (cuts, xs[:20]))
    slack = eps * total + heaviest + 1e-6 * total
    for j, c in enumerate(cuts):
        want = (j + 1) / n * total
        below, upto = ws[xs < c].sum(), ws[xs <= c].sum()
        E.check(label + ": rank within the error", below <= want + slack and upto >= want - slack, (j, n, eps, c, below, upto, want, slack))


@unit(P, "the boundaries of any partition have the rank they should have", [QC.add_input, QC.merge_accumulators, QC.extract_output, QC.create_accumulator, QC.compact], sym=False, conc=400, conc_s=14,
      bounded="up to 4000 rows of up to 6 columns")
def ranks(E):
    shape, n, dtype, eps, weighted, ends, size = E.gen("setting", lambda r: (r.choice([[], [], [1], [2], [3], [2, 2], [1, 3], [2, 1, 2]]), r.choice([2, 2, 3, 4, 7, 10, 100]), r.choice(DTYPES), r.choice([0.01, 0.05, 0.1, 0.3]), r.random() < 0.5, r.random() < 0.3,
                                                                      r.choice([0, 1, 2, 5, 20, 300, 2000])))
    many = int(np.prod(shape, dtype=int))

    def make(r):
        x = np.stack([draw_values(r, size, dtype) for _ in range(many)], 1) if size else np.zeros((0, many), dtype)
        w = np.array([r.choice([0.5, 1, 1, 2, 10, 0]) if r.random() < 0.95 else r.choice([-1.0, np.nan]) for _ in range(size)], np.float32)
        if dtype in (np.float32, np.float64) and size > 1 and r.random() < 0.3:
            x[r.randrange(size), r.randrange(many)] = np.nan
        return x, w, e2e.split(r, range(size), 6), r.randint(0, 10**6)
    x, w, parts, order = E.gen("data", make)
    given, w = w, np.where(np.isnan(w), 0, w)         # a value with a NaN weight does not count
    counted = ~np.isnan(x.astype(np.float64)) & ((w > 0)[:, np.newaxis] if weighted else True)
    if counted.any() and not counted.any(0).all():
        return           # see the unit below
    import random
    extra = {} if shape else {"output_shape": (n - 1 + 2 * ends,)}
    comb = QC(n, eps, np.float32, has_weights=weighted, include_max_and_min=ends, feature_shape=shape if shape != [3] else 3, **extra)

    def feed(cols):
        return lambda part: ([x[list(part)][:, cols].reshape([len(part)] + (shape if len(cols) == many else []))] + ([given[list(part)]] if weighted else []))
    acc = e2e.accumulate(random.Random(order), comb, [feed(range(many))(p) for p in parts])
    coder = comb.accumulator_coder
    if order % 2:
        acc = coder.decode_cache(coder.encode_cache(acc))
    out = comb.extract_output(acc)
    E.check("one output", len(out) == 1)
    width = n + 1 if ends else n - 1
    E.check("its shape and type", out[0].shape == tuple(shape) + (width,) and out[0].dtype == np.float32, (out[0].shape, shape, width))
    info, = comb.output_tensor_infos()
    E.check("as announced", list(info.shape) == list(out[0].shape) and info.dtype == tf.float32, info)
    rows = out[0].reshape(many, width)
    ws = w if weighted else np.ones(size)
    for f in range(many):
        cuts = rows[f]
        if ends:
            seen = x[:, f][~np.isnan(x[:, f].astype(float)) & (ws > 0)].astype(np.float32)
            E.check("smallest and largest value", not len(seen) or (cuts[0] == seen.min() and cuts[-1] == seen.max()), (cuts, seen.min() if len(seen) else None))
            cuts = cuts[1:-1]
        within(E, "column", x[:, f], ws, cuts, n, eps)
        if many > 1:
            alone = QC(n, eps, np.float32, has_weights=weighted, include_max_and_min=ends, output_shape=(width,))
            got = alone.extract_output(e2e.accumulate(random.Random(order), alone, [feed([f])(p) for p in parts]))
            E.check("a column does not depend on the others", np.array_equal(got[0], rows[f]), (f, got[0], rows[f]))
    E.cover("weights" if weighted else "no weights")


@unit(P, "a column without any number beside one with numbers", [QC.add_input, QC.extract_output], sym=False, conc=1)
def empty_column(E):
    comb = QC(2, 0.1, np.float32, feature_shape=[2])
    acc = comb.add_input(comb.create_accumulator(), [np.array([[1.0, np.nan], [3.0, np.nan]], np.float32)])
    out = E.attempt(lambda: comb.extract_output(acc)[0])
    E.check("boundaries for both columns", not isinstance(out, Raised) and out.shape == (2, 1) and out[0, 0] in (1.0, 3.0), "Raised" if isinstance(out, Raised) else out)


@unit(P, "tft.quantiles and tft.bucketize keep to their error in a pipeline", [analyzers.quantiles, tft.bucketize], sym=False, conc=12, conc_s=22, bounded="up to 400 rows")
def pipelines(E):
    def draw(r):
        size = r.choice([1, 3, 12, 100, 400])
        d = r.choice([0, 2, 3])
        v = np.stack([draw_values(r, size, np.float32) for _ in range(max(d, 1))], 1)
        return size, d, v, [r.choice([0.5, 1.0, 3.0, 0.0]) for _ in range(size)], r.choice([2, 3, 5, 10]), r.choice([None, 0.01, 0.2]), r.random() < 0.5, d and r.random() < 0.6, r.choice([None, 1, 7, 50])
    size, d, v, w, n, eps, weighted, each, batch = E.gen("data", draw)
    if batch == 1 and size > 20:
        batch = 50
    spec = {"x": tf.io.FixedLenFeature([d] if d else [], tf.float32), "w": tf.io.FixedLenFeature([], tf.float32), "k": tf.io.FixedLenFeature([], tf.string)}
    keys = [f"k{i % 3}" for i in range(size)]
    rows = [{"x": (v[i] if d else v[i, 0]), "w": w[i], "k": keys[i]} for i in range(size)]
    e = eps if eps is not None else min(1 / n, 0.01)

    def pfn(x):
        ws = None
        if weighted:
            ws = x["w"] if each or not d else tf.tile(x["w"][:, tf.newaxis], [1, d])
        q = tft.quantiles(x["x"], n, e, weights=ws, reduce_instance_dims=not each)
        out = {"q": tf.zeros_like(x["w"])[:, tf.newaxis] + tf.reshape(q, [1, -1]), "x": x["x"], "b": tft.bucketize(x["x"], n, epsilon=eps, weights=ws, elementwise=bool(each))}
        if not d:
            out["p"] = tft.bucketize_per_key(x["x"], x["k"], n, epsilon=eps, weights=ws)
        return out
    data, _ = e2e.analyze_transform(pfn, rows, spec, batch)
    E.check("every row once", len(data) == size)
    q = np.asarray(data[0]["q"])
    cols = d if each else 1
    E.check("as many boundaries as asked for", q.size == cols * (n - 1), (q.size, cols, n))
    xs, bs = np.stack([np.asarray(r["x"]).reshape(-1) for r in data]), np.stack([np.asarray(r["b"]).reshape(-1) for r in data])
    ws = np.array(w if weighted else np.ones(size))
    per = [(v[:, c], ws, xs[:, c], bs[:, c]) for c in range(cols)] if each else [(v.reshape(-1), np.repeat(ws, v.shape[1]), xs.reshape(-1), bs.reshape(-1))]
    for c, (col, cw, x, b) in enumerate(per):
        cuts = q.reshape(cols, n - 1)[c]
        within(E, "quantiles", col, cw, cuts, n, e)
        E.check("the bucket of a value is the number of boundaries up to it", bool((b == np.searchsorted(cuts, x, side="right")).all()), (cuts, x[:10], b[:10]))
    if not d:
        ps = np.array([r["p"] for r in data])
        for key in sorted(set(keys)):
            mine = np.array(keys) == key
            order = np.argsort(v[mine, 0], kind="stable")
            x, wk, b = v[mine, 0][order], ws[mine][order], ps[mine][order]
            if len(set(x.tolist())) < len(x) or wk.sum() == 0:
                continue
            E.check("per key: buckets in the order of the values", bool((np.diff(b) >= 0).all()), (x, b))
            slack = e * wk.sum() + 2 * wk.max()
            for j in range(1, n):
                got = wk[b < j].sum()
                E.check("per key: buckets of the weight they should have", abs(got - j / n * wk.sum()) <= slack, (key, j, n, e, got, j / n * wk.sum(), x.tolist(), b.tolist()))
    E.cover("weights" if weighted else "no weights")


class Sketch:
    """Records how a sketch is built (assumed contract of the sketch: its error is
    at most `epsilon` for up to `largest` values of every column)."""
    _pyvc_symbolic = True

    def __init__(self, epsilon, largest, columns):
        self.epsilon, self.largest, self.columns = epsilon, largest, columns


def build(epsilon, largest, columns):
    return Sketch(epsilon, largest, columns)


build._pyvc_native = True


@unit(P, "a sketch is built for the error and the columns asked for", [QC.create_accumulator], conc=100)
def built(E):
    eps = E.real("epsilon", lo=0, hi=1)
    n = E.int("number of quantiles", 2, 1000)
    shape = E.choice("feature shape", [None, [], 3, [1], [2], [2, 3], [4, 1, 2]])
    weighted = E.choice("weights", [False, True])
    comb = E.call(QC, n, eps, np.float32, has_weights=weighted, feature_shape=shape)
    if E.symbolic:
        E.stub(analyzers.sketches, "QuantilesSketch", build)
        s = E.call(comb.create_accumulator)
        E.check("no larger error than asked for", s.epsilon <= eps)
        E.check("for billions of values", s.largest >= 2 ** 32)
        E.check("one stream for every column", s.columns == (1 if shape is None else int(np.prod(shape, dtype=int))))
    else:
        real = analyzers.sketches.QuantilesSketch
        try:
            analyzers.sketches.QuantilesSketch = build
            s = comb.create_accumulator()
        finally:
            analyzers.sketches.QuantilesSketch = real
        E.check("no larger error than asked for", s.epsilon <= eps)
        E.check("for billions of values", s.largest >= 2 ** 32)
        E.check("one stream for every column", s.columns == (1 if shape is None else int(np.prod(shape, dtype=int))))


class Part:
    """Assumed contract of a sketch: what it holds is a multiset of weighted values,
    here seen through any additive measure `held` of it; Merge adds the other one
    and leaves that as it is."""
    _pyvc_symbolic = True

    def __init__(self, made, held):
        self.held, self.packed = held, False
        made.append(self)

    def Merge(self, other):
        self.held = self.held + other.held

    def Compact(self):
        self.packed = True


class Batch:
    """The values of a batch, seen through the order in which they come."""
    _pyvc_symbolic = True

    def __init__(self, of, order="rows of the batch"):
        self.of, self.order = of, order

    def ravel(self, order="C"):
        return Batch(self.of, "one by one" if order == "C" else f"in order {order}")

    def flatten(self, order="C"):
        return self.ravel(order)

    def reshape(self, *shape, order="C"):
        if shape not in ((-1,), ((-1,),), ([-1],)):
            from pyvc.core import Unsupported
            raise Unsupported("another shape of a batch")
        return self.ravel(order)


    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        from pyvc.core import Unsupported
        raise Unsupported(f"the {name} of a batch")

    def __len__(self):
        return self.__getattr__("length")

    def __getitem__(self, i):
        return self.__getattr__("part")


class Filled(Sketch):
    def __init__(self):
        self.added = []

    def AddValues(self, values, weights=None):
        self.added.append((values, weights))


def ravel(a, order="C"):
    return a.ravel(order)


def column(a, *more):
    return a


ravel._pyvc_native = column._pyvc_native = True


@unit(P, "a batch is added once with its own weights", [QC.add_input], conc=60)
def added(E):
    weighted = E.choice("weights", [False, True])
    shape = E.choice("feature shape", [None, [2], [2, 3]])
    comb = E.call(QC, E.int("number of quantiles", 2, 100), E.real("epsilon", lo=0, hi=1), np.float32, has_weights=weighted, feature_shape=shape)
    to = Filled()
    if E.symbolic:
        import pyarrow as pa
        E.stub(np, "ravel", ravel)
        E.stub(pa, "array", column)
        x, w = Batch("values"), Batch("weights")
        out = E.call(comb.add_input, to, [x, w] if weighted else [x])
        E.check("the sketch it was added to", out is to)
        E.check("added once", len(to.added) == 1)
        v, ws = to.added[0]
        E.check("the values, one by one", v.of == "values" and v.order == "one by one")
        E.check("with the weights, one by one", (ws.of == "weights" and ws.order == "one by one") if weighted else ws is None)
        return
    size = E.int("rows", 1, 9)
    x = np.arange(size * int(np.prod(shape or [], dtype=int)), dtype=E.choice("dtype", DTYPES)).reshape([size] + (shape or []))
    if E.choice("layout", ["C", "F"]) == "F":
        x = np.asfortranarray(x)
    w = np.arange(size, dtype=np.float32)[::-1]
    out = comb.add_input(to, [x, w] if weighted else [x])
    E.check("the sketch it was added to", out is to)
    E.check("added once", len(to.added) == 1)
    v, ws = to.added[0]
    E.check("the values, one by one", np.array_equal(np.asarray(v), x.flatten("C")) and np.asarray(v).dtype == x.dtype, (v, x))
    E.check("with the weights, one by one", np.array_equal(np.asarray(ws), w) if weighted else ws is None, (ws, w))


@unit(P, "merging adds every part once", [QC.merge_accumulators, QC.compact], conc=40)
def merged(E):
    comb = E.call(QC, E.int("number of quantiles", 2, 100), 0.1, np.float32)
    made = []
    if not E.symbolic:
        values = [E.int("part", 0, 10**6) for _ in range(E.int("parts", 1, 8))]
        parts = [Part(made, v) for v in values]
        form = E.choice("given as", [list, tuple, iter, lambda ps: (p for p in ps)])
        real = analyzers.sketches.QuantilesSketch
        try:
            analyzers.sketches.QuantilesSketch = lambda *a, **k: Part(made, 0)
            out = comb.compact(comb.merge_accumulators(form(parts)))
        finally:
            analyzers.sketches.QuantilesSketch = real
        E.check("all the parts, once", out.held == sum(values), (out.held, values))
        return
    import z3
    from pyvc import core
    S = z3.Function("prefix", z3.IntSort(), z3.RealSort())
    core.assume(S(0) == 0)
    parts = {}

    def elem(e):
        i = str(z3.simplify(e.i))
        if i not in parts:
            held = e.real("held")
            core.assume(S(e.i + 1) == S(e.i) + held.e)
            parts[i] = Part(made, held)
        return parts[i]

    def heap():
        for p in made:
            p.held = E.real("held after some passes")

    def inv(state, k):
        if not made:
            raise KeyError("the first part")
        return E.eq(made[0].held, core.mk(S(core.to_arith(k))))

    def havoc(name, v):
        if v in made:
            return v              # the same object, whose state is forgotten by heap()
        raise KeyError(name)
    havoc.heap = heap

    def empty(epsilon, largest, columns):
        return Part(made, 0)
    empty._pyvc_native = True
    E.stub(analyzers.sketches, "QuantilesSketch", empty)
    seq = E.seq("parts", elem, inv, havoc, minlen=1, kind="list")
    out = E.call(comb.compact, E.call(comb.merge_accumulators, seq))
    E.check("all the parts, once", E.eq(out.held, core.mk(S(seq.length))))


@unit(P, "the error of buckets suits their number", [tft.bucketize, tft.bucketize_per_key], sym=False, conc=60)
def default_error(E):
    n, eps, per_key = E.int("number of buckets", 2, 300), E.choice("epsilon", [None, None, 0.001, 0.3]), E.choice("per key", [False, True])
    seen = []

    class Stop(Exception):
        pass

    class Recorder(QC):
        def __init__(self, num_quantiles, epsilon, *a, **k):
            seen.append((num_quantiles, epsilon, k.get("has_weights")))
            raise Stop()
    weighted = E.choice("weights", [False, True])
    real = analyzers.QuantilesCombiner
    try:
        analyzers.QuantilesCombiner = Recorder
        with tf.compat.v1.Graph().as_default():
            x = tf.compat.v1.placeholder(tf.float32, [None])
            ws = x + 1 if weighted else None
            try:
                if per_key:
                    tft.bucketize_per_key(x, tf.compat.v1.placeholder(tf.string, [None]), n, epsilon=eps, weights=ws)
                else:
                    tft.bucketize(x, n, epsilon=eps, weights=ws)
            except Stop:
                pass
    finally:
        analyzers.QuantilesCombiner = real
    if len(seen) != 1:
        return
    num, got, w = seen[0]
    E.check("as many buckets as asked for", num == n, (num, n))
    E.check("the error asked for, or at most a bucket and at most one percent", got <= (eps if eps is not None else min(1 / n, 0.01)), (got, eps, n))
    E.check("weights are used if given", w is None or bool(w) == weighted, (w, weighted))
