"""C03: covariance and PCA statistics do not depend on batching.

An accumulator (P, S, n) stands for the set of vectors with
P = sum of outer products, S = sum of vectors, n = number of vectors."""
import numpy as np
import tensorflow as tf

from tensorflow_transform import analyzers
from contracts import e2e
from pyvc.harness import unit

P = "C03"
Cov, Pca = analyzers.CovarianceCombiner, analyzers.PCACombiner
SP2 = "vec*vec'"


def draw(E, tag):
    if E.symbolic:
        return [E.arr("p" + tag, space=SP2), E.arr("s" + tag, space="vec"), E.arr("n" + tag, dtype="int64", lo=0)]
    k = E._shape("vec")[0]
    n = E.int("n" + tag, 0, 4)
    x = E.gen("x" + tag, lambda r: np.array([[r.choice([0., 1., -2.5, r.gauss(0, 3)]) for _ in range(k)] for _ in range(n)]).reshape(n, k))
    return [x.T @ x, x.sum(axis=0), np.array(float(n))]


def comb(E, cls=Cov):
    k = 3 if E.symbolic else E._shape("vec")[0]
    return E.new(cls, (k, k), *([] if cls is Cov else [k]))


@unit(P, "adding a batch adds its outer products, sums and rows", [Cov], conc=150)
def add_input(E):
    c = comb(E)
    a = draw(E, "a")
    dt = E.choice("dtype", ["float64", "int64"])
    x = E.arr("x", space="batch*vec", dtype=dt)
    r = E.call(c.add_input, a, [x])
    E.check("three parts", len(r) == 3)
    if E.symbolic:
        from pyvc import models
        cross = models.np_matmul(models.np_transpose(x), x)
        n = E.call(np.shape, x)[0]
    else:
        cross = sum([np.outer(v, v) for v in x.astype(float)], np.zeros((x.shape[1],) * 2))
        n = x.shape[0]
    E.elementwise("products of the union", lambda v, p, q: E.eq(v, p + q), r[0], a[0], cross)
    E.elementwise("sums of the union", lambda v, p, q: E.eq(v, p + q), r[1], a[1], E.coltotal(x))
    E.check("number of vectors", E.eq(float(r[2]) if not E.symbolic else r[2], (a[2].el if E.symbolic else float(a[2])) + n))


@unit(P, "merging adds the parts", [Cov], conc=100)
def merge(E):
    c = comb(E)
    k = E.choice("parts", [1, 2, 3])
    parts = [draw(E, str(i)) for i in range(k)]
    r = E.call(c.merge_accumulators, parts)
    for j, name in enumerate(["products", "sums", "numbers"]):
        E.elementwise(name + " add up", lambda v, *xs: E.eq(v, sum(xs)), r[j], *[p[j] for p in parts])


@unit(P, "merging any number of parts adds them all", [Cov], conc=60)
def merge_many(E):
    c = comb(E)
    if not E.symbolic:
        parts = [draw(E, str(i)) for i in range(E.int("k", 1, 7))]
        r = c.merge_accumulators(parts)
        for j in range(3):
            E.check("the sum of all parts", E.eq(np.asarray(r[j], float), np.sum([p[j] for p in parts], axis=0)))
        return
    import z3
    from pyvc import core, models
    S = [z3.Function("prefix%d" % j, z3.IntSort(), z3.RealSort() if j < 2 else z3.IntSort()) for j in range(3)]
    for s in S:
        core.assume(s(0) == 0)
    sps = [SP2, "vec", None]

    def elem(e):
        v = [e.arr("p", space=SP2), e.arr("s", space="vec"), e.arr("n", dtype="int64", lo=0)]
        for j, x in enumerate(v):
            core.assume(S[j](e.i + 1) == S[j](e.i) + x.el.e)
        return v

    def inv(st, k):
        a, j = st["acc"], st["component"]
        return E.eq(0 if a is None else a.el, core.mk(S[j](core.to_arith(k))))
    seq = E.seq("parts", elem, inv, lambda n, v: E.arr("h", space=sps[int(n[-1])], dtype="int64" if n[-1] == "2" else "float64"), minlen=1)
    seq.folds = 3
    r = E.call(c.merge_accumulators, seq)
    for j in range(3):
        E.check("the sum of all parts", E.eq(r[j], core.mk(S[j](seq.length))))


@unit(P, "a fresh accumulator is the empty set", [Cov, Pca], conc=20)
def create(E):
    cls = E.choice("class", [Cov, Pca])
    k = E.choice("dim", [1, 2, 4])
    c = E.new(cls, (k, k), *([] if cls is Cov else [k]))
    p, s, n = E.call(c.create_accumulator)
    E.check("zero", np.all(p == 0) and np.all(s == 0) and n == 0)
    E.check("shapes", np.shape(p) == (k, k) and np.shape(s) == (k,) and np.shape(n) == ())
    out, = E.call(c.extract_output, [p, s, n])
    E.check("defined on no data", np.all(np.isfinite(out)) and out.shape == (k, k))


@unit(P, "the covariance is E[xx'] - E[x]E[x]'", [Cov], conc=150)
def extract(E):
    c = comb(E)
    p, s, n = draw(E, "a")
    E.assume(E.Not(E.eq(n, 0)))
    out = E.call(c.extract_output, [p, s, n])
    E.check("one output", len(out) == 1)
    if E.symbolic:
        from pyvc import models
        ss = models.np_outer(s, s)
        E.elementwise("covariance", lambda v, q, m, k: E.eq(v * k * k, q * k - m), out[0], p, ss, n)
        return
    k = float(n)
    cov = p / k - np.outer(s / k, s / k)
    E.check("covariance", E.eq(out[0], cov))
    E.check("symmetric", E.eq(out[0], out[0].T))


def vectors(r):
    k = r.choice([1, 2, 3, 4])
    n = r.choice([0, 1, 2, 4, 8, 12])
    kind = r.choice(["float", "float", "const", "corr"])
    row = [r.gauss(0, 3) for _ in range(k)]
    rows = []
    for _ in range(n):
        t = r.gauss(0, 2)
        rows.append([round(r.gauss(0, 3), 2) for _ in range(k)] if kind == "float" else list(row) if kind == "const" else
                    [t * (j + 1) + r.gauss(0, 0.1) for j in range(k)])
    return k, rows


def run(E, c, k, rows, dt):
    batches = e2e.split(E.rng, rows, 4)
    E.note([len(b) for b in batches])
    return c.extract_output(e2e.accumulate(E.rng, c, [[np.array(b, dt).reshape(-1, k)] for b in batches]))[0]


@unit(P, "the covariance of a data set is that of any split of it", [Cov], sym=False,
      bounded="generated sets of up to 12 vectors of up to 4 components, random merge trees", conc=250, conc_s=6)
def splits(E):
    k, rows = E.gen("rows", vectors)
    dt = E.choice("dtype", [np.float64, np.float32, np.int64, np.int32])
    if np.dtype(dt).kind == "i":
        m = E.choice("scale", [1, 30000])
        rows = [[float(int(v) * m) for v in row] for row in rows]
    c = Cov((k, k), np.float64)
    out = run(E, c, k, rows, dt)
    x = np.array(rows, np.float64).reshape(-1, k)
    if dt == np.float32:
        x = x.astype(np.float32).astype(np.float64)
    want = np.zeros((k, k)) if not len(x) else (x.T @ x) / len(x) - np.outer(x.mean(axis=0), x.mean(axis=0))
    tol = 1e-3 if dt == np.float32 else 1e-6
    E.check("covariance", E.eq(out / max(1, np.abs(x).max(initial=0)) ** 2, want / max(1, np.abs(x).max(initial=0)) ** 2, tol=tol), (out, want))
    E.check("symmetric", E.eq(out, out.T), out)


@unit(P, "a component that is not a number does not change the others", [Cov], sym=False,
      bounded="generated sets of up to 6 vectors of 3 components", conc=40, conc_s=3)
def nan_column(E):
    rows = E.gen("rows", lambda r: [[r.gauss(0, 3) for _ in range(3)] for _ in range(r.randint(1, 6))])
    j = E.choice("component", [0, 1, 2])
    bad = E.choice("value", [float("nan"), float("inf")])
    at = E.int("row", 0, len(rows) - 1)
    rest = [i for i in range(3) if i != j]
    c = Cov((3, 3), np.float64)
    with np.errstate(all="ignore"):
        out = run(E, c, 3, [[bad if (i, k) == (at, j) else v for k, v in enumerate(row)] for i, row in enumerate(rows)],
                  np.float64)
    x = np.array(rows)[:, rest]
    want = x.T @ x / len(x) - np.outer(x.mean(axis=0), x.mean(axis=0))
    E.check("covariance of the others", E.eq(out[np.ix_(rest, rest)], want), (out, want))
    E.check("and the component itself has none", not np.isfinite(out[j]).any() and not np.isfinite(out[:, j]).any(), out)


@unit(P, "principal components are orthonormal eigenvectors by decreasing variance", [Pca], sym=False,
      bounded="generated sets of up to 12 vectors of up to 4 components, random merge trees", conc=250, conc_s=6)
def pca(E):
    k, rows = E.gen("rows", vectors)
    m = E.gen("output_dim", lambda r: r.choice([None] + list(range(1, k + 1))))
    c = Pca((k, m), m, np.float64)
    out = run(E, c, k, rows, np.float64)
    mm = k if m is None else m
    E.check("shape", out.shape == (k, mm), out.shape)
    E.check("orthonormal", np.allclose(out.T @ out, np.eye(mm), atol=1e-8), out)
    x = np.array(rows, np.float64).reshape(-1, k)
    if not len(x):
        return
    cov = np.cov(x, rowvar=False, bias=True).reshape(k, k)
    sc = max(1.0, np.abs(cov).max())
    lam = np.diag(out.T @ cov @ out)
    E.check("eigenvectors of the covariance", np.abs(cov @ out - out * lam).max() <= 1e-6 * sc, (cov, out))
    E.check("decreasing variance", all(a >= b - 1e-7 * sc for a, b in zip(lam, lam[1:])), lam)
    E.check("the leading ones", np.allclose(lam, np.sort(np.linalg.eigvalsh(cov))[::-1][:mm], atol=1e-6 * sc), lam)


def e2e_fn(inputs):
    from tensorflow_transform import analyzers as a
    x = inputs["x"]
    b = tf.zeros_like(x)[:, :1]
    return {"cov": b + tf.reshape(a.covariance(x, tf.float32), [1, -1]), "pca": b + tf.reshape(a.pca(x, 1, tf.float32), [1, -1])}


@unit(P, "whole pipelines report the covariance and components of the data set", [analyzers.covariance, analyzers.pca],
      sym=False, bounded="generated data sets of up to 6 rows through the real pipeline", conc=2, conc_s=9)
def pipelines(E):
    rows = E.gen("rows", lambda r: [[r.gauss(0, 3), r.gauss(1, 1), r.gauss(0, .2)] for _ in range(r.randint(2, 6))])
    bs = E.choice("batch", [1, 2, None])
    out, _ = e2e.analyze_transform(e2e_fn, [{"x": x} for x in rows], {"x": tf.io.FixedLenFeature([3], tf.float32)}, bs)
    x = np.array(rows)
    cov = np.cov(x, rowvar=False, bias=True)
    E.check("covariance", np.allclose(np.reshape(out[0]["cov"], (3, 3)), cov, atol=1e-3), (out[0], cov))
    v = np.reshape(out[0]["pca"], (3,))
    lam = np.linalg.eigvalsh(cov)[-1]
    E.check("first component", abs(v @ v - 1) < 1e-3 and np.allclose(cov @ v, lam * v, atol=1e-2 * lam), (v, lam))
