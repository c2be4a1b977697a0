"""C01: mean and variance do not depend on batching or merge order.

Abstraction: an accumulator stands for the multiset of values seen so far,
through (n, S1 = sum of values, S2 = sum of squares) or, weighted, through
(n, W = sum of weights, Swx = weighted sum).  Every contract states that an
operation maps representations of A and B to a representation of A + B."""
import numpy as np
import tensorflow as tf

from tensorflow_transform import analyzers, tf_utils
from pyvc.harness import unit

P = "C01"
Comb = analyzers.WeightedMeanAndVarCombiner
Acc = analyzers._WeightedMeanAndVarAccumulator
T = [Comb, Acc, analyzers._pad_arrays_to_match]
MODES = [(True, False), (False, True), (False, False)]


def draw(E, tag, space, vec, weighted, nanempty=False):
    n = E.arr("n" + tag, space=space if vec else None, dtype="int64", lo=0)
    m = E.arr("m" + tag, space=space)
    v = E.arr("v" + tag, space=space, lo=0)
    w = E.arr("w" + tag, space=space if vec else None, lo=0)
    empty = float("nan") if nanempty else 0.0
    m = E.map(lambda x, k: E.ite(k > 0, x, empty), m, n)
    v = E.map(lambda x, k: E.ite(k > 0, x, empty), v, n)
    w = E.map(lambda x, k: E.ite(k > 0, x, empty), w, n)
    return n, m, v, w


def z(E, x):
    return 0.0 if E.isnan(x) else x


def spec(E, r, a, b, cv, cw):
    (na, ma, va, wa), (nb, mb, vb, wb) = a, b
    E.elementwise("count of the union", lambda c, x, y: E.eq(c, x + y), r.count, na, nb)
    if cw:
        E.elementwise("mean weight of the union",
                      lambda w, x, y, p, q: E.Or(E.eq(x + y, 0), False if E.isnan(w) else E.eq(
                          w * (x + y), z(E, p) * x + z(E, q) * y)), r.weight, na, nb, wa, wb)
        E.elementwise(
            "weighted mean of the union",
            lambda m, x, y, p, q, mx, my: E.Or(
                E.eq(x * z(E, p) + y * z(E, q), 0), False if E.isnan(m) else
                E.eq(m * (x * z(E, p) + y * z(E, q)), x * z(E, p) * z(E, mx) + y * z(E, q) * z(E, my))),
            r.mean, na, nb, wa, wb, ma, mb)
        return
    E.elementwise("mean of the union",
                  lambda m, x, y, p, q: E.Or(E.eq(x + y, 0), False if E.isnan(m) else E.eq(
                      m * (x + y), x * z(E, p) + y * z(E, q))), r.mean, na, nb, ma, mb)
    if cv:
        E.elementwise(
            "variance of the union",
            lambda v, x, y, mx, my, vx, vy: E.Or(
                E.eq(x + y, 0), False if E.isnan(v) else
                E.eq(v * (x + y) * (x + y),
                     (x * z(E, vx) + y * z(E, vy)) * (x + y) + x * y * (z(E, mx) - z(E, my)) * (z(E, mx) - z(E, my)))),
            r.variance, na, nb, ma, mb, va, vb)


@unit(P, "add_input merges the statistics of two disjoint parts", T, conc=300, weight=3)
def add_input(E):
    cv, cw = E.choice("mode", MODES)
    vec = E.choice("vector", [False, True])
    sp = "feat" if vec else E.choice("space", [None, "feat"])
    c = E.new(Comb, np.float64, () if sp is None else (None,), cv, cw)
    a = draw(E, "a", sp, vec, cw, E.choice("nan_a", [False, True]))
    b = draw(E, "b", sp, vec, cw)
    r = E.call(c.add_input, E.new(Acc, *a), b)
    spec(E, r, a, b, cv, cw)


@unit(P, "an empty part is neutral, exactly", T, conc=150)
def neutral(E):
    cv, cw = E.choice("mode", MODES)
    vec = E.choice("vector", [False, True])
    sp = "feat" if vec else E.choice("space", [None, "feat"])
    c = E.new(Comb, np.float64, () if sp is None else (None,), cv, cw)
    a = draw(E, "a", sp, vec, cw)
    E.assume(E.Not(E.eq(E.total(a[0]), 0)))
    if cw:  # the weighted mean is defined for a positive total weight only
        a = (*a[:3], E.map(lambda w, k: E.ite(k > 0, w + 0.5, 0.0), a[3], a[0]))
    zero = E.map(lambda x: x * 0, a[1])
    b = (np.array(0), zero, zero, np.array(0.0))
    if not E.symbolic:
        sh = np.shape(a[1])
        sh = E.gen("static_shape", lambda r: r.choice([sh, tuple(None for _ in sh)]))
        b = Comb(np.float64, sh, cv, cw).create_accumulator()
    first = E.choice("order", [True, False])
    accs = [E.new(Acc, *a), E.new(Acc, *b)]
    r = E.call(c.merge_accumulators, accs if first else accs[::-1])
    E.elementwise("count", lambda x, y: E.eq(x, y), r.count, a[0])
    E.elementwise("mean", lambda x, y, k: E.Or(E.eq(k, 0), E.eq(x, y)), r.mean, a[1], a[0])
    if cv:
        E.elementwise("variance", lambda x, y, k: E.Or(E.eq(k, 0), E.eq(x, y)), r.variance, a[2], a[0])
    if cw:
        E.elementwise("weight", lambda x, y, k: E.Or(E.eq(k, 0), E.eq(x, y)), r.weight, a[3], a[0])


@unit(P, "a fresh accumulator represents the empty data set", T, conc=4)
def create(E):
    cv, cw = E.choice("mode", MODES)
    sh = E.choice("shape", [(), (3,), (2, 2), (None,)])
    c = E.new(Comb, np.float32, sh, cv, cw)
    r = E.call(c.create_accumulator)
    E.check("count 0", np.all(np.asarray(r.count) == 0))
    E.check("mean 0", np.all(np.asarray(r.mean) == 0) and np.asarray(r.mean).shape == tuple(d or 0 for d in sh))
    E.check("variance 0", np.all(np.asarray(r.variance) == 0) and np.asarray(r.variance).shape == np.asarray(r.mean).shape)
    E.check("weight 0", np.all(np.asarray(r.weight) == 0))
    out = E.call(c.extract_output, r)
    E.check("the empty data set has mean 0 and variance 0",
            all(np.all(np.asarray(o) == 0) for o in out))


def prefix(E):
    import z3
    if E.symbolic:
        F = lambda n, s: z3.Function("prefix_" + n, z3.IntSort(), s)
        return F("n", z3.IntSort()), F("s1", z3.RealSort()), F("s2", z3.RealSort())
    return None


def merge_unit(cv, cw):
    @unit(P, "merging any number of parts, in sequence (%s)" % ("variance" if cv else "weighted" if cw else "mean"),
          T, conc=200, timeout_s=10)
    def merge_many(E):
        c = E.new(Comb, np.float64, (), cv, cw)
        if E.symbolic:
            import z3
            from pyvc import core
            PN, P1, P2 = prefix(E)
            core.assume(z3.And(PN(0) == 0, P1(0) == 0, P2(0) == 0))

            def elem(e):
                n = e.arr("n", dtype="int64", lo=0)
                m, q = e.arr("m"), e.arr("q", lo=0)
                e.assume(E.Implies(E.eq(n, 0), E.And(E.eq(m, 0), E.eq(q, 0))))
                i = e.i
                N, M, Q = core.to_real(n.el), core.to_real(m.el), core.to_real(q.el)
                core.assume(z3.And(PN(i) >= 0, PN(i + 1) == PN(i) + core.to_arith(n.el)))
                if cw:  # q is the mean weight
                    core.assume(z3.And(P1(i + 1) == P1(i) + N * Q, P2(i + 1) == P2(i) + N * Q * M))
                else:
                    core.assume(z3.And(P1(i + 1) == P1(i) + N * M, P2(i + 1) == P2(i) + N * (Q + M * M)))
                z0 = E.map(lambda x: x * 0, m)
                return Acc(n, m, z0 if cw else q, q if cw else np.array(0.0))

            def inv(st, k):
                accs = [v for v in st.values() if isinstance(v, tuple) and hasattr(v, "count") and hasattr(v, "mean")]
                k = core.to_arith(k)
                cs = []
                for a in accs:
                    el = lambda x: x.el if hasattr(x, "el") else float(np.asarray(x))
                    if any(E.isnan(el(x)) for x in (a.mean, a.variance, a.weight)):
                        # only a part without values may carry NaN
                        cs.append(E.eq(el(a.count), 0) if not cw else E.eq(core.SymReal(P1(k)), 0))
                        cs.append(E.eq(el(a.count), core.SymInt(PN(k))))
                        continue
                    n, m, v, w = [el(x) for x in (a.count, a.mean, a.variance, a.weight)]
                    cs.append(E.eq(n, core.SymInt(PN(k))))
                    if cw:
                        cs.append(E.eq(n * w, core.SymReal(P1(k))))
                        cs.append(E.eq(n * w * m, core.SymReal(P2(k))))
                        cs.append(E.Implies(E.eq(n, 0), E.And(E.eq(w, 0), E.eq(m, 0))))
                        cs.append(E.le(0, w))
                    else:
                        cs.append(E.eq(n * m, core.SymReal(P1(k))))
                        cs.append(E.Implies(E.eq(n, 0), E.eq(m, 0)))
                        if cv:
                            cs.append(E.eq(n * (v + m * m), core.SymReal(P2(k))))
                            cs.append(E.Implies(E.eq(n, 0), E.eq(v, 0)))
                return E.And(*cs)

            def havoc(name, v):
                n = E.arr("h_n", dtype="int64", lo=0)
                m, q = E.arr("h_m"), E.arr("h_q", lo=0)
                z0 = E.map(lambda x: x * 0, m)
                return Acc(n, m, z0 if cw else q, q if cw else z0)
            seq = E.seq("parts", elem, inv, havoc, minlen=1)
            if cw:
                # positive weights: a zero total weight is outside the contract
                old = seq.get

                def get(i):
                    a = old(i)
                    core.assume(z3.Implies(core.to_arith(a.count.el) > 0, core.to_arith(a.weight.el) > 0))
                    return a
                seq.get = get
            r = E.call(c.merge_accumulators, seq)
            E.check("the merged accumulator represents all parts", inv({"r": r}, core.mk(seq.length)))
            return
        k = E.int("k", 1, 6)
        parts = [draw(E, f"p{i}", None, False, cw) for i in range(k)]
        if cw:
            parts = [(n, m, v, np.array(float(w) + 0.5 if n > 0 else 0.0)) for n, m, v, w in parts]
        r = E.call(c.merge_accumulators, [Acc(*p) for p in parts])
        n = sum(int(p[0]) for p in parts)
        E.check("count", E.eq(int(r.count), n))
        if n:
            W = [float(p[3]) if cw else 1.0 for p in parts]
            s0 = sum(int(p[0]) * w for p, w in zip(parts, W))
            s1 = sum(int(p[0]) * w * float(p[1]) for p, w in zip(parts, W))
            E.check("mean", E.eq(float(r.mean), s1 / s0))
            if cv:
                mean = s1 / s0
                E.check("variance", E.eq(float(r.variance), sum(
                    int(p[0]) * (float(p[2]) + (float(p[1]) - mean) ** 2) for p in parts) / n))
            if cw:
                E.check("weight", E.eq(float(r.weight), s0 / n))


for _m in MODES:
    merge_unit(*_m)


@unit(P, "the output is the accumulated mean and variance in the output dtype", T, conc=40)
def extract(E):
    cv, cw = E.choice("mode", MODES)
    c = E.new(Comb, np.float64, (), cv, cw)
    a = draw(E, "a", None, False, cw)
    acc = E.new(Acc, *a)
    out = E.call(c.extract_output, acc)
    if cv and not cw:
        E.check("(mean, variance)", E.And(len(out) == 2, E.eq(out[0], a[1]), E.eq(out[1], a[2])))
    else:
        E.check("(count, mean, variance, weight)", E.And(*[E.eq(x, y) for x, y in zip(out, (a[0], a[1], a[2], a[3]))]))


@unit(P, "batch count, mean and variance over all elements of a dense batch",
      [tf_utils.reduce_batch_count_mean_and_var, tf_utils.reduce_batch_count], conc=120)
def batch_dense_all(E):
    x = E.arr("x", space="batch*feat", kind="tf", dtype="float64", nan=True)
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    arg = x
    if kind != "dense":
        arg = wrap(E, x, kind)
    cnt, mean, var = E.call(tf_utils.reduce_batch_count_mean_and_var, arg, True)
    n = E.total(E.map(lambda v: present(E, v), x))
    s1 = E.total(E.map(lambda v: val(E, v), x))
    s2 = E.total(E.map(lambda v: val(E, v) * val(E, v), x))
    E.check("count of the finite values", E.eq(cnt, n))
    E.check("mean", E.ite(E.eq(n, 0), E.eq(mean, 0), E.eq(sc(mean) * n, s1)))
    E.check("variance", E.ite(E.eq(n, 0), E.eq(var, 0), E.eq(sc(var) * n * n, s2 * n - s1 * s1)))


def sc(x):
    return x.el if hasattr(x, "el") else float(x)


def present(E, v):
    if E.symbolic:
        from pyvc import core, models
        return models.to_float(core.mk(core.opt_parts(v)[1]))
    return 1.0 if np.isfinite(v) else 0.0


def val(E, v):
    if E.symbolic:
        from pyvc import core
        x, f = core.opt_parts(v)
        return core.ite(core.mk(f), x, 0.0)
    return v if np.isfinite(v) else 0.0


def wrap(E, x, kind):
    if E.symbolic:
        from pyvc import models_tf as m
        return m.SymSparse(x, m.Opaque("indices"), m.Opaque("shape")) if kind == "sparse" else m.SymRagged(x, m.Opaque("splits"))
    v = tf.reshape(x, [-1])
    k = int(tf.size(v))
    if kind == "sparse":
        # also rows and columns without values
        cols, gap = (1, 0) if k % 2 else (3, 1)
        return tf.SparseTensor(np.array([[i + gap, i % cols] for i in range(k)], np.int64).reshape(-1, 2), v, (k + 2 * gap, cols))
    if k % 3 == 0:
        return tf.RaggedTensor.from_row_lengths(v, [k] if k else [])
    return tf.RaggedTensor.from_nested_row_lengths(v, [[0, 2, 1], [k // 2, 0, k - k // 2]])


@unit(P, "batch count, mean and variance per column of a dense batch",
      [tf_utils.reduce_batch_count_mean_and_var, tf_utils.reduce_batch_count], conc=120)
def batch_dense_cols(E):
    x = E.arr("x", space="batch*feat", kind="tf", dtype="float64", nan=True)
    cnt, mean, var = E.call(tf_utils.reduce_batch_count_mean_and_var, x, False)
    n = E.coltotal(E.map(lambda v: present(E, v), x))
    s1 = E.coltotal(E.map(lambda v: val(E, v), x))
    s2 = E.coltotal(E.map(lambda v: val(E, v) * val(E, v), x))
    E.elementwise("count", lambda c, k: E.eq(c, k), cnt, n)
    E.elementwise("mean", lambda m, k, s: E.ite(E.eq(k, 0), E.eq(m, 0), E.eq(m * k, s)), mean, n, s1)
    E.elementwise("variance", lambda v, k, s, q: E.ite(E.eq(k, 0), E.eq(v, 0), E.eq(v * k * k, q * k - s * s)),
                  var, n, s1, s2)


def rows_matrix(r):
    """A batch x features table with missing (None), NaN and infinite entries."""
    n, f = r.choice([0, 1, 2, 3, 5, 9]), r.choice([1, 2, 3])
    pm, pn, inf = r.choice([0, 0.3, 0.7]), r.choice([0, 0, 0.2]), r.random() < 0.3
    bad = lambda: float(r.choice(["inf", "-inf", "nan"])) if inf else float("nan")
    val = lambda: r.choice([0.0, 1.0, -2.5, 3.25, 100.0, r.gauss(0, 5)])
    return f, [[None if r.random() < pm else bad() if r.random() < pn else val() for _ in range(f)]
               for _ in range(n)]


def stats(vals):
    vals = [v for v in vals if v is not None and np.isfinite(v)]
    n = len(vals)
    if not n:
        return 0, 0.0, 0.0
    m = sum(vals) / n
    return n, m, sum((v - m) ** 2 for v in vals) / n


def to_sparse(f, rows):
    ix = [(i, j) for i, row in enumerate(rows) for j, v in enumerate(row) if v is not None]
    return tf.SparseTensor(np.array(ix, np.int64).reshape(-1, 2),
                           np.array([rows[i][j] for i, j in ix], np.float64), (len(rows), f))


def to_ragged(rows):
    return tf.ragged.constant([[v for v in row if v is not None] for row in rows], dtype=tf.float64, ragged_rank=1)


@unit(P, "batch statistics per column of a sparse batch", [tf_utils.reduce_batch_count_mean_and_var], sym=False,
      bounded="generated sparse batches up to 9x3", conc=150)
def batch_sparse_cols(E):
    f, rows = E.gen("rows", rows_matrix)
    cnt, mean, var = [t.numpy() for t in E.call(tf_utils.reduce_batch_count_mean_and_var, to_sparse(f, rows), False)]
    for j in range(f):
        n, m, v = stats([row[j] for row in rows])
        E.check(f"column statistics", E.And(E.eq(float(cnt[j]), n), E.eq(float(mean[j]), m), E.eq(float(var[j]), v)),
                f"column {j}: got {cnt[j], mean[j], var[j]}, expected {n, m, v}")


@unit(P, "batch statistics per position of a ragged batch", [tf_utils.reduce_batch_count_mean_and_var], sym=False,
      bounded="generated ragged batches up to 5x3x3", conc=100)
def batch_ragged_cols(E):
    def draw3(r):
        pn = r.choice([0, 0, 0.3])
        v = lambda: float("nan") if r.random() < pn else r.choice([0.0, 1.0, -2.5, 100.0, r.gauss(0, 5)])
        return [[[v() for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 3))] for _ in range(r.randint(1, 5))]
    rows = E.gen("rows", draw3)
    E.assume(any(v for row in rows for v in row))
    x = tf.ragged.constant(rows, dtype=tf.float64, ragged_rank=2)
    cnt, mean, var = [t.numpy() for t in tf_utils.reduce_batch_count_mean_and_var(x, False)]
    for i in range(max(map(len, rows))):
        for j in range(max([len(row[i]) for row in rows if len(row) > i] + [0])):
            n, m, v = stats([row[i][j] for row in rows if len(row) > i and len(row[i]) > j])
            E.check("position statistics", E.And(E.eq(float(cnt[i, j]), n), E.eq(float(mean[i, j]), m), E.eq(float(var[i, j]), v)),
                    f"position {i, j}: got {cnt[i, j], mean[i, j], var[i, j]}, expected {n, m, v}")


@unit(P, "the statistics of a data set are those of any split of it", T + [tf_utils.reduce_batch_count_mean_and_var],
      sym=False, bounded="generated data sets up to 30 rows in up to 5 batches, random merge trees", conc=150, conc_s=10)
def splits(E):
    from contracts import e2e
    r = E.rng
    f, rows = E.gen("rows", lambda r: (lambda f, a, b: (f, [x[:f] + [None] * (f - len(x)) for x in a + b]))(
        3, rows_matrix(r)[1], rows_matrix(r)[1]))
    kind = E.choice("kind", ["dense", "dense_cols", "sparse", "sparse_cols", "ragged"])
    batches = e2e.split(r, rows, 5)
    E.note([len(b) for b in batches], kind)
    red = []
    for b in batches:
        if kind.startswith("dense"):
            x = tf.constant(np.array([[np.nan if v is None else v for v in row] for row in b], np.float64).reshape(-1, f))
        elif kind == "ragged":
            x = to_ragged(b) if b else tf.RaggedTensor.from_row_lengths(tf.constant([], tf.float64), [])
        else:
            x = to_sparse(f, b)
        cols = kind.endswith("cols")
        c, m, v = tf_utils.reduce_batch_count_mean_and_var(x, not cols)
        red.append([c.numpy(), m.numpy(), v.numpy(), np.zeros([], np.float32)])
    cols = kind.endswith("cols")
    sh = () if not cols else r.choice([(f,), (None,)])
    comb = Comb(np.float64, sh)
    mean, var = comb.extract_output(e2e.accumulate(r, comb, red))
    if cols:
        for j in range(f):
            n, m, v = stats([row[j] for row in rows])
            if n:
                E.check("per column", E.And(E.eq(float(mean[j]), m), E.eq(float(var[j]), v)), (mean, var, j, m, v))
    else:
        n, m, v = stats([x for row in rows for x in row])
        E.check("over all elements", E.And(E.eq(float(mean), m), E.eq(float(var), v)), (mean, var, m, v))


# ------------------------------------------------ parts of different shapes
def positions(shape):
    return list(np.ndindex(*shape))


@unit(P, "padding keeps every element at its position and adds zeros", [analyzers._pad_arrays_to_match], sym=False,
      bounded="all pairs of shapes of rank 1 and 2 with sizes up to 4 and of rank 3 up to 2", conc=1)
def padding(E):
    import itertools
    for rank, top in ((1, 5), (2, 4), (3, 2)):
        shapes = list(itertools.product(range(top + 1), repeat=rank))
        for s, t in itertools.product(shapes, repeat=2):
            a = np.arange(1, int(np.prod(s)) + 1).reshape(s)
            b = -np.arange(1, int(np.prod(t)) + 1).reshape(t) / 2
            got = E.call(analyzers._pad_arrays_to_match, a, b)
            want = tuple(map(max, s, t))
            for g, o in zip(got, (a, b)):
                full = np.zeros(want, o.dtype)
                full[tuple(map(slice, o.shape))] = o
                E.check("padded", g.shape == want and np.array_equal(g, full), (s, t, g))


@unit(P, "partial statistics of different shapes merge position by position", T, sym=False,
      bounded="generated parts of rank 1 to 3 and sizes up to 4, random merge trees", conc=150, conc_s=6)
def shapes(E):
    cv, cw = E.choice("mode", MODES)
    r = E.rng
    rank = r.randint(1, 3)
    c = Comb(np.float64, (None,) * rank, cv, cw)
    data = {}
    accs = []
    for _ in range(r.randint(2, 5)):
        sh = tuple(r.randint(0 if r.random() < 0.2 else 1, 4) for _ in range(rank))
        n, m, v, w = (np.zeros(sh) for _ in range(4))
        for ix in positions(sh):
            vals = [(r.randint(-9, 9) / 2, r.choice([0.5, 1.0, 2.0, 4.0]) if cw else 1.0)
                    for _ in range(r.choice([0, 1, 2, 5]))]
            data.setdefault(ix, []).extend(vals)
            n[ix] = len(vals)
            tw = sum(t for _, t in vals)
            m[ix] = sum(x * t for x, t in vals) / tw if vals else float("nan")
            v[ix] = np.var([x for x, _ in vals]) if vals else float("nan")
            w[ix] = tw / len(vals) if vals else float("nan")
        accs.append((n.astype(np.int64), m, v if cv else np.zeros(sh), w if cw else np.ones(sh)))
    E.note(cv, cw, accs)
    with np.errstate(all="ignore"):
        pool = [c.add_input(c.create_accumulator(), a) if r.random() < 0.5 else Acc(*a) for a in accs]
        while len(pool) > 1:
            i = r.randrange(len(pool) - 1)
            pool[i:i + 2] = [c.merge_accumulators([pool[i], pool[i + 1]])]
    out = pool[0]
    seen = {ix: vs for ix, vs in data.items() if vs}
    if not seen:
        return
    n = np.asarray(out.count)
    E.check("no value outside the result", all(all(i < k for i, k in zip(ix, n.shape)) for ix in seen), n.shape)
    E.check("every value counted once", all(int(n[ix]) == len(seen.get(ix, [])) for ix in positions(n.shape)), n)
    for ix, vs in seen.items():
        tw = sum(t for _, t in vs)
        mean = sum(x * t for x, t in vs) / tw
        E.check("mean", abs(float(out.mean[ix]) - mean) <= 1e-6, (ix, out.mean[ix], mean))
        if cv:
            var = np.var([x for x, _ in vs])
            E.check("variance", abs(float(out.variance[ix]) - var) <= 1e-6 * (1 + var), (ix, out.variance[ix], var))
        if cw:
            E.check("mean weight", abs(float(out.weight[ix]) - tw / len(vs)) <= 1e-6, (ix, out.weight[ix]))
