"""C09: per-key statistics never mix keys."""
import bisect
import math

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import mappers, schema_inference, tf_utils
from tensorflow_transform.beam import analyzer_impls as ai
from contracts import e2e
from contracts.C01 import present, val
from pyvc.harness import unit, Raised

P = "C09"
FORMS = ["dense", "dense rank 2", "sparse", "sparse with dense key", "ragged", "ragged with dense key"]


def keyed(E, form, dtype="float64", nan=False):
    """A batch and its keys: (x argument, key argument, values of x, key of
    every value)."""
    flat = "batch" if not form.startswith("dense r") else "batch*feat"
    vsp = "batch" if form.endswith("sparse") or form in ("dense", "ragged") else "vals" if "with" in form else flat
    x = E.arr("x", space="batch*feat" if form == "dense rank 2" else "batch", kind="tf", dtype=dtype, nan=nan)
    if form.startswith("dense") or "with" not in form:
        k = E.keys("key", "batch")
        if form.startswith("dense"):
            return x, k, x, k
        if E.symbolic:
            from pyvc import models_seg as m, models_tf as t
            if form == "sparse":
                return t.SymSparse(x, m.Rows("indices", x.space), m.Dims("shape")), t.SymSparse(k, m.Rows("key indices", x.space), m.Dims("shape")), x, k
            a, b = t.SymRagged(x, [t.Opaque("splits")]), t.SymRagged(k, [t.Opaque("key splits")])
            a.shape, b.shape = m.Dims("shape"), m.Dims("shape")
            return a, b, x, k
        n = int(tf.size(x))
        if form == "sparse":
            at = np.array([[i, 0] for i in range(n)], np.int64).reshape(-1, 2)
            return tf.SparseTensor(at, x, (n, 1)), tf.SparseTensor(at, k, (n, 1)), x, k
        return tf.RaggedTensor.from_row_lengths(x, [n]), tf.RaggedTensor.from_row_lengths(k, [n]), x, k
    k = E.keys("key", "batchrow")
    if E.symbolic:
        from pyvc import models_seg as m, models_tf as t
        kv = m.gathered(x.space, k)
        if form.startswith("sparse"):
            return t.SymSparse(x, m.Rows("indices", x.space), m.Dims("shape")), k, x, kv
        a = t.SymRagged(x, [t.Opaque("splits")])
        a.shape = m.Dims("shape")
        E.stub(tf_utils, "_get_ragged_batch_value_rowids", lambda r: m.RowsOf(x.space))
        a.bounding_shape = lambda axis=None: t.Opaque("rows")
        return a, k, x, kv
    n, rows = int(tf.size(x)), int(tf.size(k))
    at = E.gen("rows of values", lambda r: sorted(r.randrange(rows) for _ in range(n)) if rows else [])
    if not rows:
        x = x[:0]
    kv = tf.gather(k, tf.constant(at, tf.int64)) if rows else k
    if form.startswith("sparse"):
        seen, ix = {}, []
        for r in at:
            ix.append([r, seen.get(r, 0)])
            seen[r] = seen.get(r, 0) + 1
        return tf.SparseTensor(np.array(ix, np.int64).reshape(-1, 2), x, (rows, max(list(seen.values()) + [0]))), k, x, kv
    return tf.RaggedTensor.from_value_rowids(x, tf.constant(at, tf.int64), nrows=rows), k, x, kv


@unit(P, "batch mean and variance of every key are those of its own values", [
    tf_utils.reduce_batch_count_mean_and_var_per_key, tf_utils._validate_and_get_dense_value_key_inputs], conc=150)
def moments(E):
    form = E.choice("form", FORMS)
    cols = form == "dense rank 2"
    x, k, xv, kv = keyed(E, form, "float32" if cols else "float64", nan=True)
    vocab, cnt, mean, var = E.call(tf_utils.reduce_batch_count_mean_and_var_per_key, x, k, not cols)

    tol = 1e-4 if cols else 1e-6

    def one(own, pick):
        part = lambda f: E.map(lambda o, v: E.ite(o, f(v), 0.0), own, xv)
        total = E.coltotal if cols else E.total

        n, s, q = [total(part(f)) for f in (lambda v: present(E, v), lambda v: val(E, v), lambda v: val(E, v) * val(E, v))]
        arrs = [pick(cnt), pick(mean), pick(var), n, s, q]
        E.elementwise("count", lambda c, m, w, n, s, q: E.eq(c, n), *arrs)
        E.elementwise("mean", lambda c, m, w, n, s, q: E.ite(E.eq(n, 0), E.eq(m, 0), E.eq(m * n, s, tol)), *arrs)
        E.elementwise("variance", lambda c, m, w, n, s, q: E.ite(E.eq(n, 0), E.eq(w, 0), E.ite(q * n >= s * s, E.eq(w * n * n, q * n - s * s, tol), E.eq(w, 0, tol))), *arrs)
        E.elementwise("no variance is negative", lambda w: E.le(0, w), pick(var))
    E.for_keys(kv, vocab, xv, one)


@unit(P, "equal values of a key have no variance", [tf_utils.reduce_batch_count_mean_and_var_per_key], sym=False, conc=150, conc_s=4,
      bounded="batches of up to 12 rows; rounding errors of the number type")
def constant(E):
    """Up to rounding of the squares, and not negative, so that its root is a number."""
    dt = E.choice("dtype", ["float32", "float64"])
    rank2 = E.choice("rank 2", [False, True])
    by_key = E.gen("value of each key", lambda r: {k: r.choice([r.uniform(-1000, 1000), r.uniform(-1, 1), 10.0 ** r.randint(-6, 6) * r.uniform(1, 9)]) for k in "abc"})
    ks = E.gen("keys", lambda r: [r.choice("abc") for _ in range(r.randint(1, 12))])
    x = np.array([[by_key[k]] * 2 if rank2 else by_key[k] for k in ks], dt)
    vocab, cnt, mean, var = (t.numpy() for t in tf_utils.reduce_batch_count_mean_and_var_per_key(tf.constant(x), tf.constant(ks), not rank2 or dt == "float64"))
    for k, m, v in zip(vocab, mean, var):
        want = x.dtype.type(by_key[k.decode()])
        E.check("the mean is the value", bool(np.all(np.abs(m - want) <= 8 * np.spacing(np.abs(want)))), (k, m, want))
        E.check("no variance is negative, and it is nearly zero", bool(np.all(v >= 0) and np.all(v <= 32 * np.spacing(want * want))), (k, v, want))


@unit(P, "the variance of a key is that of its values, to the rounding of their squares", [tf_utils.reduce_batch_count_mean_and_var_per_key], sym=False, conc=100, conc_s=4,
      bounded="batches of up to 16 rows, two columns; rounding errors of the number type")
def spread(E):
    dt = E.choice("dtype", ["float32", "float64"])
    rank2 = E.choice("rank 2", [False, True])
    elementwise = rank2 and dt == "float32" and E.choice("elementwise", [False, True])
    base = E.gen("magnitude of each key", lambda r: {k: r.choice([0.0, 1.0, 10.0 ** r.randint(-3, 5) * r.uniform(1, 9)]) for k in "abc"})
    ks = E.gen("keys", lambda r: [r.choice("abc") for _ in range(r.randint(2, 16))])
    dev = E.gen("deviations", lambda r: [[r.uniform(-3, 3) for _ in range(2 if rank2 else 1)] for _ in ks])
    x = np.array([[base[k] + d for d in ds] if rank2 else base[k] + ds[0] for k, ds in zip(ks, dev)], dt)
    vocab, cnt, mean, var = (t.numpy() for t in tf_utils.reduce_batch_count_mean_and_var_per_key(tf.constant(x), tf.constant(ks), not elementwise))
    for k, v in zip(vocab, var):
        own = x[[q == k.decode() for q in ks]].astype(np.float64)
        want = own.var(axis=0 if elementwise else None)
        off = 64 * float(np.spacing(np.square(np.abs(x[[q == k.decode() for q in ks]]).max())))
        E.check("the variance is that of the key's own values", bool(np.all(np.abs(v - want) <= 1e-4 * want + off)), (k, v.tolist(), want.tolist()))


@unit(P, "the per-key variance of the float32 values 10000 to 10003 is 1.25", [tf_utils.reduce_batch_count_mean_and_var_per_key],
      sym=False, conc=1, bounded="one input")
def cancellation(E):
    out = tf_utils.reduce_batch_count_mean_and_var_per_key(
        tf.constant([10000., 10001., 10002., 10003.]), tf.constant(["a"] * 4), True)
    E.check("variance", abs(float(out[3][0]) - 1.25) < 0.01, float(out[3][0]))


@unit(P, "batch minimum and maximum of every key are those of its own values", [
    tf_utils.reduce_batch_minus_min_and_max_per_key, tf_utils._validate_and_get_dense_value_key_inputs], conc=120)
def extremes(E):
    form = E.choice("form", [f for f in FORMS if f != "dense rank 2"])
    dt = E.choice("dtype", ["float32", "int64", "int32", "uint8"])
    x, k, xv, kv = keyed(E, form, dt if dt != "uint8" or not E.symbolic else "int32")
    vocab, mn, mx = E.call(tf_utils.reduce_batch_minus_min_and_max_per_key, x, k, E.choice("reduce", [True, False]) if form == "dense" else True)

    neg = lambda t: E.map(lambda v: -v, t) if E.symbolic else -t

    def one(own, pick):
        E.elementwise("largest", lambda m, t: E.eq(m, t), pick(mx), E.seg_max(own, xv))
        E.elementwise("smallest, negated", lambda m, t: E.eq(m, t), pick(mn), E.seg_max(own, neg(xv)))
        E.elementwise("no value of the key is outside", lambda lo, hi, o, v: E.Implies(o, E.And(v <= hi, -v <= lo)),
                      *((pick(mn), pick(mx), own, xv) if E.symbolic else
                        np.broadcast_arrays(*map(np.asarray, (pick(mn), pick(mx), own, xv)))))
    if not E.symbolic:
        xv = xv.numpy().astype(np.int64 if dt != "float32" else np.float32)
    E.for_keys(kv, vocab, xv, one)


@unit(P, "the count of every key is the number of its occurrences", [tf_utils.reduce_batch_count_per_key], conc=60)
def counted(E):
    form = E.choice("form", ["dense", "sparse", "ragged"])
    _, k, _, kv = keyed(E, form)
    vocab, cnt = E.call(tf_utils.reduce_batch_count_per_key, k)
    ones = E.map(lambda o: 1.0, kv) if E.symbolic else np.ones(int(tf.size(kv)))
    E.for_keys(kv, vocab, ones, lambda own, pick: E.elementwise(
        "count", lambda c, n: E.eq(c, n), pick(cnt), E.total(E.map(lambda o: E.ite(o, 1.0, 0.0), own))))


def join(rows):
    """The tables of keyed bucketization for rows of boundaries, one per key."""
    return ai._join_boundary_rows(np.array(rows, np.float32))


@unit(P, "keyed buckets are those of the boundaries of the value's own key", [mappers._apply_buckets_with_keys, tf_utils.assign_buckets,
                                                                       mappers._make_composite_tensor_wrapper_if_composite], conc=0, timeout_s=20)
def keyed_buckets(E):
    """Under the contract of _join_boundary_rows: scale > 0, boundary i of key
    j is mapped to entry (m - 1) j + i of the joined table."""
    m = E.int("boundaries_per_key", 1, None)
    keys = E.int("keys", 1, None)
    single = E.choice("one boundary per key", [False, True])
    E.assume(E.eq(m, 1) if single else m >= 2)
    n = (m - 1) * keys + 1
    joined = E.table("joined", dtype="float32", order="le", rank=1, n=n)
    scale = E.table("scale", dtype="float32", order=None, rank=1, n=keys)
    shift = E.table("shift", dtype="float32", order=None, rank=1, n=keys)
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    x = E.arr("x", space="batch", kind="tf", dtype=E.choice("dtype", ["float32", "int64"]))
    at = E.arr("key_index", space="batch", kind="tf", dtype="int64", lo=-1)
    from pyvc import models_tf as t, core
    E.assume(at.el < keys)
    wrap = lambda v: v if kind == "dense" else t.SymSparse(v, t.Opaque("indices"), t.Opaque("shape")) if kind == "sparse" else t.SymRagged(v, t.Opaque("splits"))
    key = E.keys("key", "batch")
    vocab = t.Opaque("key vocabulary")
    asked, seen = [], []

    def lookup(q, v):
        asked.append((q, v))
        return at
    E.stub(tf_utils, "lookup_key", lookup)
    E.stub(schema_inference, "set_tensor_schema_override", lambda x, lo, hi: seen.append((x, lo, hi)))
    arg = wrap(x)
    buckets = core.SymArr(m + 1, "tf", tf.int64, None)
    r = E.call(mappers._apply_buckets_with_keys, arg, wrap(key), vocab, joined, scale, shift, buckets)
    out = r if kind == "dense" else r.values if kind == "sparse" else r.flat_values
    E.check("the keys of the values are looked up", len(asked) == 1 and asked[0][0] is key and asked[0][1] is vocab)
    i = E.int("i", 0, None)
    own = E.real("boundary i of the key")
    j = at.el
    known = j >= 0
    sj, tj = scale.get(core.ite(known, j, 0)), shift.get(core.ite(known, j, 0))
    E.assume(sj > 0)
    # Boundary 0 of key j is mapped to j, the end of the range of key j - 1.
    E.assume(E.Implies(known, E.eq(own * sj + tj, j if single else joined.get((m - 1) * core.ite(known, j, 0) + i))))
    if single:
        E.assume(E.eq(joined.get(0), 0))
    E.elementwise("missing key", lambda b, j: E.Implies(j < 0, E.eq(b, -1)), out, at)
    E.elementwise("as many buckets as boundaries, plus one", lambda b, j: E.Implies(j >= 0, E.And(b >= 0, b <= m)), out, at)
    E.elementwise("above boundary i exactly if the value is not below it", lambda b, v: E.Implies(
        E.And(known, i < m), E.eq(i < b, own <= v)), out, x)
    E.check("one range is recorded, for the result", len(seen) == 1 and seen[0][0] is out)
    E.check("range", E.And(E.eq(seen[0][1], 0), E.eq(seen[0][2], m)))


@unit(P, "a reduction per key is mapped to the values of that key, a missing key to 0", [tf_utils.map_per_key_reductions, tf_utils._align_dims], conc=60)
def mapped(E):
    form = E.choice("form", ["dense", "sparse", "ragged", "sparse with dense key", "ragged with dense key"])
    x, k, xv, kv = keyed(E, form, "float32")
    keys = E.int("keys", 1, 4)
    a = E.table("first", dtype="float32", order=None, rank=1, n=keys, minlen=1)
    b = E.table("second", dtype="float32", order=None, rank=1, n=keys, minlen=1)
    if E.symbolic:
        at = E.arr("key_index", space=None, kind="tf", dtype="int64", lo=-1)
        from pyvc import core, models
        models.register_generic(at.el.e, xv.space)
        at = core.SymArr(at.el, "tf", tf.int64, xv.space)
        E.assume(at.el < keys)
        vocab = E.table("vocabulary", dtype="int64", order=None, rank=1, n=keys)
        asked = []

        def lookup(q, v):
            asked.append((q, v))
            return at
        E.stub(tf_utils, "lookup_key", lookup)
    else:
        voc = E.gen("vocabulary", lambda r: r.sample(["", "a", "b", "a b", "zz", "\u00e9", "-1"], int(a.shape[0])))
        vocab = tf.constant(voc)
        at = np.array([voc.index(t.decode()) if t.decode() in voc else -1 for t in kv.numpy().tolist()], np.int64)
    r = E.call(tf_utils.map_per_key_reductions, (a, b), k, vocab, x, True)
    E.check("one result per reduction", len(r) == 2)
    if E.symbolic:
        E.check("the keys of the values are looked up", len(asked) == 1 and asked[0][1] is vocab)
    for name, t, o in (("first", a, r[0]), ("second", b, r[1])):
        if E.symbolic:
            E.elementwise(name + " of the key", lambda v, j: E.And(E.Implies(j >= 0, E.eq(v, t.get(j))), E.Implies(j < 0, E.eq(v, 0))), o, at)
        else:
            tv = t.numpy().tolist()
            E.elementwise(name + " of the key", lambda v, j: v == (tv[int(j)] if j >= 0 else 0), o, at)


@unit(P, "a key is found at its own position in the vocabulary", [tf_utils.lookup_key], sym=False,
      bounded="generated vocabularies of up to 5 keys, queries of rank 1 to 3", conc=80, conc_s=6)
def lookup(E):
    pool = ["", "a", "b", "a b", "A", "aa", "\u00e9", "-1", "0"]
    voc = E.gen("vocabulary", lambda r: r.sample(pool, r.randint(0, 5)))
    sh = E.gen("shape", lambda r: [r.randint(0, 4) for _ in range(r.choice([1, 1, 2, 3]))])
    if 0 in sh:
        sh = [0]
    q = np.array(E.gen("query", lambda r: [r.choice(pool) for _ in range(int(np.prod(sh)))]), dtype=object).reshape(sh)
    r = tf_utils.lookup_key(tf.constant(q, tf.string, shape=sh), tf.constant(voc, tf.string, shape=[len(voc)]))
    want = [voc.index(t) if t in voc else -1 for t in q.ravel().tolist()]
    E.check("positions", r.numpy().ravel().tolist() == want, f"{r} want {want}")
    E.check("shape", list(r.shape) == sh)


def boundary_rows(r):
    m = r.choice([1, 1, 2, 2, 3, 5])
    k = r.randint(1, 4)
    out = []
    for _ in range(k):
        scale = r.choice([0.25, 1, 1, 16, 1024])
        base = r.choice([0, 0, -8, 64])
        row = sorted(r.sample(range(-6, 9), m))
        if r.random() < 0.3:
            row = sorted(r.choice(row) for _ in row)
        if r.random() < 0.15:
            row = [row[0]] * m
        out.append([(base + v) * scale for v in row])
    return out


@unit(P, "joining the boundaries of all keys keeps every key's buckets", [ai._join_boundary_rows, ai._make_strictly_increasing_boundaries_rows,
                                                                  mappers._apply_buckets_with_keys], sym=False,
      bounded="generated boundaries of up to 4 keys, up to 5 boundaries per key", conc=200, conc_s=12)
def joined(E):
    rows = E.gen("boundaries", boundary_rows)
    m, names = len(rows[0]), ["k%d" % i for i in range(len(rows))]
    table, scale, shift, buckets = join(rows)
    E.check("sizes", table.shape == ((m - 1) * len(rows) + 1,) and scale.shape == shift.shape == (len(rows),) and buckets == m + 1)
    E.check("in order", bool(np.all(np.diff(table) >= 0)), str(table))
    E.check("scales are positive", bool(np.all(scale > 0)))
    span = [max(row) - min(row) for row in rows]

    def probe(r):
        out = []
        for _ in range(12):
            j = r.randrange(len(rows) + 1)
            row = rows[j] if j < len(rows) else r.choice(rows)
            v = r.choice(row)
            w = max(max(row) - min(row), abs(v) * 1e-3, 1e-3)
            v += r.choice([0, 0.01, -0.01, 0.13, -0.13, 3, -3, 100, -100]) * w
            out.append((v, names[j] if j < len(rows) else "other"))
        return out
    vals = E.gen("values", probe)
    xs = [np.float32(v) for v, _ in vals]
    r = mappers._apply_buckets_with_keys(tf.constant(xs), tf.constant([k for _, k in vals]), tf.constant(names),
                                         tf.constant(table, tf.float32), tf.constant(scale, tf.float32), tf.constant(shift, tf.float32),
                                         tf.constant(buckets, tf.int64)).numpy().tolist()
    for v, (_, k), got in zip(xs, vals, r):
        if k == "other":
            E.check("unseen key", got == -1, f"{got}")
            continue
        row = [float(t) for t in rows[names.index(k)]]
        # values within the rounding of the joined table are left out
        tol = max((max(row) - min(row)) * 1e-5, max(map(abs, row)) * 1e-5, 1e-5) * len(rows)
        if any(abs(float(v) - t) <= tol for t in row):
            continue
        E.check("bucket of the key alone", got == bisect.bisect_right(row, float(v)), f"value {v} of {k}: {got}; {rows}")


@unit(P, "a value equal to a boundary of its key is in the bucket above", [ai._join_boundary_rows, mappers._apply_buckets_with_keys], sym=False,
      bounded="rows of boundaries with a power of two as range", conc=80, conc_s=8)
def at_boundary(E):
    m = E.gen("m", lambda r: r.choice([1, 2, 3, 5]))
    rows = E.gen("boundaries", lambda r: [[b + s * i for i in range(m)] for b, s in
                                          [(r.choice([-4, 0, 1, 2, 64]) * 1.0, r.choice([0.25, 1.0, 8.0])) for _ in range(r.randint(1, 4))]])
    if m in (1, 2, 3, 5):
        t = join(rows)
        for j, row in enumerate(rows):
            r = mappers._apply_buckets_with_keys(tf.constant(row, tf.float32), tf.constant(["k%d" % j] * m), tf.constant(["k%d" % i for i in range(len(rows))]),
                                                 tf.constant(t[0], tf.float32), tf.constant(t[1], tf.float32), tf.constant(t[2], tf.float32),
                                                 tf.constant(t[3], tf.int64)).numpy().tolist()
            E.check("buckets of the boundaries", r == list(range(1, m + 1)), f"{r}: key {j} of {rows}")


@unit(P, "splitting a batch pairs every row with its own key", [ai._split_inputs_by_key], sym=False,
      bounded="generated batches of up to 6 rows", conc=100, conc_s=5)
def split(E):
    n = E.gen("rows", lambda r: r.randint(0, 6))
    keys = E.gen("keys", lambda r: [r.choice([b"a", b"b", b"", b"c c"]) for _ in range(n)])
    shapes = E.gen("shapes", lambda r: [r.choice([(), (2,), (2, 3), (0,)]) for _ in range(r.randint(0, 3))])
    args = [np.arange(n * int(np.prod(s)), dtype=np.float32).reshape((n,) + s) + 100 * i for i, s in enumerate(shapes)]
    got = list(ai._split_inputs_by_key([np.array(keys, dtype=object)] + args))
    E.check("one pair per row", len(got) == n)
    for i, (k, vals) in enumerate(got):
        E.check("key", k == keys[i])
        E.check("values", len(vals) == len(args) and all(np.array_equal(v, a[i]) for v, a in zip(vals, args)))
    if n:
        bad = E.attempt(lambda: list(ai._split_inputs_by_key([np.array(keys, dtype=object), np.zeros(n + 1)])))
        E.check("sizes that differ are rejected", isinstance(bad, Raised) and isinstance(bad.exc, ValueError))
    bad = E.attempt(lambda: list(ai._split_inputs_by_key([np.array([keys], dtype=object), np.zeros((1, n))])))
    E.check("keys of another rank are rejected", isinstance(bad, Raised) and isinstance(bad.exc, ValueError))


@unit(P, "outputs of all keys are in the order of the sorted keys", [ai._merge_outputs_by_key], sym=False,
      bounded="generated results of up to 6 keys", conc=100, conc_s=5)
def merged(E):
    keys = E.gen("keys", lambda r: r.sample([b"a", b"b", b"", b"c c", b"aa", b"Z", b"\xff", b"\xc3\xa9"], r.randint(0, 6)))
    outs = E.gen("outputs", lambda r: r.randint(1, 3))
    vec = E.choice("vector outputs", [False, True])
    val = lambda i, o: np.array([i, o, i * o], np.float32) if vec else np.float32(i * 10 + o)
    got = list(ai._merge_outputs_by_key([(k, [val(i, o) for o in range(outs)]) for i, k in enumerate(keys)], [tf.float32] * outs))
    order = sorted(range(len(keys)), key=lambda i: keys[i])
    E.check("tags", [t.tag for t in got] == ["key"] + [str(o) for o in range(outs)])
    E.check("keys", got[0].value.tolist() == [keys[i] for i in order])
    for o in range(outs):
        E.check("outputs", np.array_equal(got[1 + o].value, np.array([val(i, o) for i in order], np.float32)) or not keys)
    if keys:
        bad = E.attempt(lambda: list(ai._merge_outputs_by_key([(k, [1.0]) for k in keys], [tf.float32] * 2)))
        E.check("a wrong number of outputs is rejected", isinstance(bad, Raised))


def keyed_rows(r):
    pool = r.sample(["a", "b", "b c", "", "__SPACE__", "\u00e9", "A", "long key"], r.randint(1, 4))
    return [{"x": float(r.randint(-6, 9)) / 2, "k": r.choice(pool), "v": [float(r.randint(-4, 4)) for _ in range(2)],
             "m": [[float(r.randint(-4, 4)) for _ in range(2)] for _ in range(2)],
             "s": [float(r.randint(0, 9)) for _ in range(r.randint(0, 3))]} for _ in range(r.randint(2, 9))]


@unit(P, "scaling and bucketizing by key use the values of the key alone", [
    mappers.scale_to_z_score_per_key, mappers.scale_by_min_max_per_key, mappers.bucketize_per_key, tf_utils.apply_per_key_vocabulary], sym=False,
      bounded="generated data sets of up to 9 rows and 4 keys", conc=8, conc_s=18, weight=3)
def whole(E):
    rows = E.gen("rows", keyed_rows)
    col = E.gen("feature", lambda r: r.choice("xvms"))
    what = E.gen("mapper", lambda r: r.choice(["z", "minmax", "01", "count"]))
    kv = None if what == "count" or col == "s" else E.gen("vocabulary file", lambda r: r.choice([None, "keys"]))
    ew = col in "vm" and kv is None and what != "count" and E.gen("elementwise", lambda r: r.choice([True, False]))
    bs = E.choice("batch size", [1, 3, 100])
    with_key = lambda i: i["k"]
    spec = {"x": tf.io.FixedLenFeature([], tf.float32), "k": tf.io.FixedLenFeature([], tf.string), "v": tf.io.FixedLenFeature([2], tf.float32),
            "m": tf.io.FixedLenFeature([2, 2], tf.float32), "s": tf.io.VarLenFeature(tf.float32)}

    def pfn(i):
        t, k = i[col], i["k"]
        if what == "z":
            return {"o": tft.scale_to_z_score_per_key(t, k, elementwise=ew, key_vocabulary_filename=kv)}
        if what == "minmax":
            return {"o": tft.scale_by_min_max_per_key(t, k, -1.0, 3.0, elementwise=ew, key_vocabulary_filename=kv)}
        if what == "01":
            return {"o": tft.scale_to_0_1_per_key(t, k, elementwise=ew, key_vocabulary_filename=kv)}
        n = tf.shape(i["x"])[0]
        vocab, cnt = tft.count_per_key(k)
        rep = lambda q: tf.tile(tf.expand_dims(q, 0), [n, 1])
        return {"vocab": rep(vocab), "cnt": rep(cnt)}
    others = [{**r, "k": "never seen"} for r in rows[:1]]
    data, _ = e2e.analyze_transform(pfn, rows, spec, bs, transform_rows=rows + others)
    keys = sorted({r["k"].encode() for r in rows})
    if what == "count":
        o = data[0]
        got = [k if isinstance(k, bytes) else k.encode() for k in np.atleast_1d(o["vocab"]).tolist()]
        E.check("keys, sorted", got == keys, f"{got} want {keys}")
        E.check("counts", np.atleast_1d(o["cnt"]).tolist() == [sum(r["k"].encode() == k for r in rows) for k in keys])
        return
    for r, o in zip(rows + others, data):
        own = [np.atleast_1d(np.asarray(t[col], np.float64)) for t in rows if t["k"] == r["k"]]
        v, got = np.atleast_1d(np.asarray(r[col], np.float64)), np.atleast_1d(np.asarray(o["o"], np.float64))
        if ew:
            part = np.stack(own) if own else None
        else:
            part = np.concatenate([t.ravel() for t in own]) if own else None
        if part is not None and part.size == 0:
            continue
        if part is None:
            mean, sd, lo, hi = 0.0, 0.0, 0.0, 0.0
        else:
            mean, sd, lo, hi = part.mean(axis=0), part.std(axis=0), part.min(axis=0), part.max(axis=0)
        with np.errstate(all="ignore"):
            # the statistics of a key that was never seen are 0
            if what == "z":
                want = np.where(sd > 0, (v - mean) / np.where(sd > 0, sd, 1), v - mean)
            else:
                a, b = (-1.0, 3.0) if what == "minmax" else (0.0, 1.0)
                want = np.where(hi > lo, (v - lo) / np.where(hi > lo, hi - lo, 1), 1 / (1 + np.exp(-v))) * (b - a) + a
        E.check("values", got.shape == want.shape and np.allclose(got, want, atol=1e-4), f"{what} {col} key {r['k']!r} file {kv} elementwise {ew}: {got} want {want}")


@unit(P, "bucketize_per_key puts every value into a bucket of its key's own quantiles", [mappers.bucketize_per_key], sym=False,
      bounded="generated data sets of up to 12 rows and 3 keys", conc=4, conc_s=10, weight=2)
def bucketized(E):
    """With num_buckets as large as the values of a key allow, the boundaries
    are values of that key; every key spans the same buckets alone or not."""
    keys = E.gen("keys", lambda r: r.sample(["a", "b c", "", "zz"], r.randint(1, 3)))
    base = E.gen("offsets", lambda r: {k: float(r.choice([-8, 0, 4, 64])) for k in keys})
    n = 4
    rows = [{"x": base[k] + i, "k": k} for k in keys for i in range(n)]
    rows = E.gen("order", lambda r: r.sample(rows, len(rows)))
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    nb = E.choice("num_buckets", [2, 3, 4])
    spec = {"k": tf.io.FixedLenFeature([], tf.string), "x": tf.io.FixedLenFeature([], tf.float32)}
    if kind == "sparse":
        spec = {"x": tf.io.VarLenFeature(tf.float32), "k": tf.io.VarLenFeature(tf.string)}
    if kind == "ragged":
        spec = {c: tf.io.RaggedFeature(t, value_key=c, partitions=[], row_splits_dtype=tf.int64) for c, t in (("x", tf.float32), ("k", tf.string))}
    feed = rows if kind == "dense" else [{"x": [r["x"]], "k": [r["k"]]} for r in rows]
    extra = {"x": 0.0, "k": "never seen"}
    extra = extra if kind == "dense" else {c: [v] for c, v in extra.items()}
    dense = lambda t: t.flat_values if kind == "ragged" else t
    data, _ = e2e.analyze_transform(lambda i: {"o": dense(tft.bucketize_per_key(i["x"], i["k"], nb, 0.0001))}, feed, spec,
                                    E.choice("batch size", [3, 100]), transform_rows=feed + [extra])
    got = [int(np.atleast_1d(o["o"])[0]) for o in data]
    E.check("unseen key", got[-1] == -1, str(got))
    per = {}
    for r, g in zip(rows, got):
        per.setdefault(r["k"], {})[r["x"] - base[r["k"]]] = g
    for k, b in per.items():
        seq = [b[float(i)] for i in range(n)]
        E.check("buckets grow from the first to the last", seq == sorted(seq) and min(seq) >= 0 and max(seq) == nb - 1, f"{k}: {seq}")
        E.check("every bucket boundary is a value of the key", len(set(seq)) >= nb - 1, f"{k}: {seq}")
        E.check("the same buckets for every key", seq == [per[keys[0]][float(i)] for i in range(n)], str(per))
