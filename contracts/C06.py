"""C06: label-aware vocabulary scores are the (adjusted) mutual information."""
import collections
import math
import os
import shutil
from fractions import Fraction

import apache_beam as beam
import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzer_nodes, analyzers, info_theory, tf_utils
from tensorflow_transform.beam import analyzer_impls as impls
from contracts import beamkit, e2e
from contracts.C05 import _Tuple, read_vocab
from pyvc.harness import unit, Raised

P = "C06"
Acc = analyzers.WeightedMeanAndVarCombiner.accumulator_class
OT = analyzers._VocabOrderingType


def log2(E, x):
    if E.symbolic:
        from pyvc import models
        return E.log(x) / models.LOGC(2)
    return math.log2(x)


def clip(E, p):
    if E.symbolic:
        from pyvc import models
        return models.np_clip(p, 1e-6, 1 - 1e-6)
    return E.ite(p < 1e-6, 1e-6, E.ite(p > 1 - 1e-6, 1 - 1e-6, p))


@unit(P, "the score of a token is the sum over the labels of their pointwise mutual information",
      [impls._calculate_mutual_information_for_feature_value, impls._clip_probability,
       info_theory.calculate_partial_mutual_information],
      bounded="proved for at most two labels (the loop over the labels is unrolled), all counts, weights and means", conc=300,
      max_s=100, timeout_s=10)
def score(E):
    L = E.choice("labels", [1, 2, 3]) if not E.symbolic else E.choice("labels", [1, 2])
    S = E.choice("labels seen with the token", [1, 2, 3]) if not E.symbolic else E.choice("labels seen with the token", [1, 2])
    E.assume(S <= L)
    adjusted = E.choice("adjusted", [False, True])
    if E.symbolic:
        E.assume(not adjusted or L == 1)
    gcount, count = E.int("gcount", 0, 40), E.int("count", 1, 40)
    gweight, weight = E.real("gweight", 0.25, 4), E.real("weight", 0.25, 4)
    gmean = [E.real("gmean", 0, 1) for _ in range(L)]
    mean = [E.real("mean", 0, 1) for _ in range(S)]
    mind = E.real("min_diff", 0, 3)
    def emi(n, x, y):
        if E.symbolic:
            from pyvc import core
            return core.ufun("emi", *[core.to_real(core.el_of(v)) for v in (n, x, y)])
        return n + 3 * x + 7 * y
    if adjusted:
        if E.symbolic:
            E.stub(info_theory, "calculate_partial_expected_mutual_information", emi)
        else:
            E.stub(info_theory, "calculate_partial_expected_mutual_information", lambda n, x, y: n + 3 * x + 7 * y)

    token = E.bytes("token")
    g = Acc(count=gcount, mean=_vec(E, gmean), variance=0.0, weight=gweight)
    a = Acc(count=count, mean=_vec(E, mean), variance=0.0, weight=weight)
    n, x = gcount * gweight, count * weight
    if not E.symbolic:
        E.assume(all(abs(abs(x * (m * gweight * gcount) / n - clip(E, lm) * x) - mind) > 1e-4
                     for m, lm in zip(gmean, mean + [0] * 3)) if n else True)
    r = E.attempt(impls._calculate_mutual_information_for_feature_value, (token, a), g, adjusted, mind)
    if isinstance(r, Raised):
        E.check("a token heavier than the data set is refused, nothing else",
                E.And(isinstance(r.exc, ValueError), x > n))
        return
    E.check("the token is kept", E.eq(r[0], token))
    got, expected, freq = r[1]
    if E.symbolic:
        empty = E.eq(n, 0)
    else:
        empty = n == 0
    if E.symbolic and not isinstance(freq, int) or not E.symbolic and not empty:
        E.check("the frequency is the weight of the token", E.eq(freq, x))
    if not E.symbolic and empty or E.symbolic and isinstance(got, float) and math.isnan(got):
        E.check("no data: no score", E.And(empty, E.isnan(got)))
        return
    want, wexp = 0, 0
    terms, exps = [], []
    for i in range(L):
        y = gmean[i] * gweight * gcount
        nij = clip(E, mean[i] if i < S else 0) * weight * count
        diff = x * y / n - nij
        use = E.And(E.Not(E.eq(y, 0)) if E.symbolic else y != 0, E.Or(diff >= mind, -diff >= mind))
        if E.symbolic:
            # the branches taken by the code decide `use`; ask the solver which
            from pyvc import core
            use = core.truth(use)
        if use:
            terms.append(nij * (log2(E, nij) + log2(E, n) - log2(E, x) - log2(E, y)))
            exps.append(emi(n, x, y))
    for t in terms:
        want = want + t
    for t in exps:
        wexp = wexp + t
    if E.symbolic and isinstance(got, int) and not terms:
        E.check("score", E.eq(got, 0))
        return
    const = same_round(E, x, n)
    if const:
        E.check("a token in every record scores zero", E.And(E.eq(got, 0), E.eq(expected, 0)))
        return
    if adjusted:
        E.check("adjusted score", E.eq(got, want - wexp, tol=1e-6) if E.symbolic else abs(got - (want - wexp)) <= 1e-6 * (1 + abs(want) + abs(wexp)))
        E.check("expectation reported", E.eq(expected, wexp))
    else:
        E.check("score", E.eq(got, want) if E.symbolic else abs(got - want) <= 1e-6 * (1 + abs(want)))


def same_round(E, x, n):
    if E.symbolic:
        import builtins
        from pyvc import core
        return core.truth(E.eq(E.interp.call(builtins.round, x), E.interp.call(builtins.round, n)))
    return round(x) == round(n)


def _vec(E, xs):
    if E.symbolic:
        from pyvc import core
        return core.SymVec(xs)
    return np.array(xs)


@unit(P, "the score of a token is the sum over all labels, however many there are",
      [impls._calculate_mutual_information_for_feature_value, impls._clip_probability,
       info_theory.calculate_partial_mutual_information], conc=0, max_s=150, timeout_s=15)
def score_all(E):
    import z3
    from pyvc import core
    adjusted = E.choice("adjusted", [False, True])
    gcount, count = E.int("gcount", 0), E.int("count", 1)
    gweight, weight, mind = E.real("gweight", 0), E.real("weight", 0), E.real("min_diff", 0)
    E.assume(weight > 0)
    n, x = gcount * gweight, count * weight
    gm = vector(E, "gmean", lo=0)
    cm = vector(E, "mean", lo=0)
    emi = lambda n, x, y: core.ufun("emi", *[core.to_real(core.el_of(v)) for v in (n, x, y)])
    E.stub(info_theory, "calculate_partial_expected_mutual_information", emi)
    # ghost state: the sums over the labels before k
    M, X = [z3.Function(f, z3.IntSort(), z3.RealSort()) for f in ("score_before", "expected_before")]
    core.assume(M(0) == 0)
    core.assume(X(0) == 0)

    def term(k):
        """What label k contributes; None if nothing."""
        y = gm.get(k) * gweight * gcount
        seen = core.mk(k < cm.length)
        nij = clip(E, E.ite(seen, cm.get(k), 0)) * weight * count
        diff = x * y / n - nij
        if not core.truth(E.And(E.Not(E.eq(y, 0)), E.Or(diff >= mind, -diff >= mind))):
            return 0, 0
        return nij * (log2(E, nij) + log2(E, n) - log2(E, x) - log2(E, y)), emi(n, x, y)

    def inv(st, k):
        e = core.to_arith(k)
        if not z3.is_int_value(z3.simplify(e)) and not z3.eq(e, gm.length):
            prev = z3.simplify(e - 1)
            if z3.is_const(prev):  # the pass over label prev is over: unfold the sums
                m, v = term(prev)
                core.assume(M(e) == M(prev) + core.to_real(m))
                core.assume(X(e) == X(prev) + core.to_real(v))
        ok = E.eq(st["mutual_information"], core.mk(M(e)))
        if adjusted:
            ok = E.And(ok, E.eq(st["expected_mutual_information"], core.mk(X(e))))
        return ok

    def havoc(name, v):
        return None if v is None else E.real(name)
    E.loop(impls._calculate_mutual_information_for_feature_value, inv, havoc)
    token = E.bytes("token")
    g = Acc(count=gcount, mean=gm, variance=0.0, weight=gweight)
    a = Acc(count=count, mean=cm, variance=0.0, weight=weight)
    r = E.attempt(impls._calculate_mutual_information_for_feature_value, (token, a), g, adjusted, mind)
    if isinstance(r, Raised):
        E.check("a token heavier than the data set is refused, nothing else",
                E.And(isinstance(r.exc, ValueError), x > n))
        return
    E.check("the token is kept", E.eq(r[0], token))
    got, expected, freq = r[1]
    if core.truth(E.eq(n, 0)):
        E.check("no data: no score", E.And(E.isnan(got), E.isnan(expected), E.eq(freq, 0)))
        return
    E.check("the frequency is the weight of the token", E.eq(freq, x))
    if same_round(E, x, n):
        E.check("a token in every record scores zero", E.And(E.eq(got, 0), E.eq(expected, 0)))
        return
    want, wexp = core.mk(M(gm.length)), core.mk(X(gm.length))
    if adjusted:
        E.check("adjusted score", E.eq(got, want - wexp))
        E.check("expectation reported", E.eq(expected, wexp))
    else:
        E.check("score", E.eq(got, want))


def vector(E, name, lo=None):
    """A numeric vector of any length."""
    v = E.seq(name, lambda e: e.real("entry", lo))
    v.kind = "vector"
    return v


@unit(P, "the hypergeometric weights come from the factorials, for every support",
      [info_theory._hypergeometric_pmf, info_theory._logfactorial], conc=0, max_s=100, timeout_s=15)
def pmf_all(E):
    import z3
    from pyvc import core
    n, x, y = E.int("n", 0), E.int("x", 0), E.int("y", 0)
    E.assume(E.And(x <= n, y <= n))
    LG = lambda m: core.ufun("lgamma", z3.simplify(core.to_real(m) + 1))  # log m!

    def grow(m):
        """log (m+1)! = log m! + log(m+1), used where m+1 >= 1."""
        e = core.to_arith(m)
        core.assume(z3.Implies(e >= 0, core.to_real(LG(m + 1)) == core.to_real(LG(m)) + core.to_real(
            core.ufun("log", z3.simplify(core.to_real(m + 1))))))
    lo, hi = E.ite(x + y - n > 0, x + y - n, 0), E.ite(x < y, x, y)
    den = lambda j: LG(n) + LG(j) + LG(x - j) + LG(y - j) + LG(n - x - y + j)
    num = LG(x) + LG(y) + LG(n - x) + LG(n - y)

    def inv(st, k):
        j = lo + core.mk(core.to_arith(k))
        if not z3.is_int_value(z3.simplify(core.to_arith(k))):
            for m in (j - 1, x - j, y - j, n - x - y + j - 1):
                grow(m)
        return E.Or(j > hi, E.eq(st["denominator"], den(j)))

    def yields(k):
        j = lo + k
        return j, core.ufun("exp", z3.simplify(core.to_real(num - den(j))))
    E.loop(info_theory._hypergeometric_pmf, inv, lambda name, v: E.real(name), yields)
    r = E.call(info_theory._hypergeometric_pmf, n, x, y)
    E.check("the support is all of max(0, x + y - n) .. min(x, y)", E.eq(core.mk(r.length), hi - lo + 1))


@unit(P, "the expectation is the weighted sum over the support, for every support",
      [info_theory.calculate_partial_expected_mutual_information], conc=0, max_s=100, timeout_s=15)
def expected_all(E):
    import z3
    from pyvc import core
    n, x, y = E.int("n", 0), E.int("x", 0), E.int("y", 0)
    E.assume(E.And(x <= n, y <= n))
    lo, hi = E.ite(x + y - n > 0, x + y - n, 0), E.ite(x < y, x, y)
    S, W = [z3.Function(f, z3.IntSort(), z3.RealSort()) for f in ("sum_before", "weight_before")]
    core.assume(S(0) == 0)
    core.assume(W(0) == 0)

    def elem(e):
        """The contract of _hypergeometric_pmf: values from lo on, each with its weight."""
        j = lo + core.mk(e.i)
        p = e.real("p")
        core.assume(core.as_z3_bool(p > 0))
        return j, p

    def inv(st, k):
        e = core.to_arith(k)
        prev = z3.simplify(e - 1)
        if z3.is_const(prev) and not z3.is_int_value(prev):
            j, p = pmf.get(prev)
            t = 0
            if core.truth(j > 0):
                t = j * (log2(E, n) + log2(E, j) - log2(E, x) - log2(E, y)) * p
            core.assume(S(e) == S(prev) + core.to_real(t))
            core.assume(W(e) == W(prev) + core.to_real(p))
        return E.And(E.eq(st["partial_result"], core.mk(S(e))), E.eq(st["sum_probability"], core.mk(W(e))),
                     E.Implies(core.mk(e > 0), core.mk(W(e) > 0)), core.mk(W(e) >= 0))
    pmf = E.seq("pmf", elem, inv, lambda name, v: E.real(name), symlen=hi - lo + 1)
    E.stub(info_theory, "_hypergeometric_pmf", lambda a, b, c: (
        E.check("the weights of these counts are asked for", E.And(E.eq(a, n), E.eq(b, x), E.eq(c, y))), pmf)[1])
    got = E.call(info_theory.calculate_partial_expected_mutual_information, n, x, y)
    if core.truth(E.Or(E.eq(x, 0), E.eq(y, 0))):
        E.check("nothing to expect", E.eq(got, 0))
        return
    m = pmf.length
    E.check("expected mutual information", E.eq(got * core.mk(W(m)), core.mk(S(m))))


@unit(P, "partial and expected mutual information and the hypergeometric weights are exact",
      [info_theory.calculate_partial_mutual_information, info_theory.calculate_partial_expected_mutual_information,
       info_theory._hypergeometric_pmf], sym=False, bounded="all counts n <= 60 sampled, and n up to 5000", conc=400, conc_s=8)
def info(E):
    r = E.rng
    n = r.choice([r.randint(1, 12), r.randint(1, 60), r.randint(1, 5000)])
    x, y = r.randint(0, n), r.randint(0, n)
    E.note((n, x, y))
    k = r.randint(0, min(x, y))
    want = k * math.log2(n * k / (x * y)) if k and x and y else 0
    got = info_theory.calculate_partial_mutual_information(k, x, y, n)
    E.check("pointwise mutual information", abs(got - want) <= 1e-9 * (1 + abs(want) + k * 20), f"{k} {x} {y} {n}: {got} {want}")
    if n > 600:
        n = n % 600 + 1
        x, y = x % (n + 1), y % (n + 1)
    pm = list(info_theory._hypergeometric_pmf(n, x, y))
    lo, hi = max(0, x + y - n), min(x, y)
    E.check("support", [j for j, _ in pm] == list(range(lo, hi + 1)), f"{n} {x} {y}")
    den = math.comb(n, y)
    exact = {j: float(Fraction(math.comb(x, j) * math.comb(n - x, y - j), den)) for j in range(lo, hi + 1)}
    E.check("probabilities", all(abs(p - exact[j]) <= 1e-8 for j, p in pm), f"{n} {x} {y}: {pm}")
    want = sum(p * j * math.log2(n * j / (x * y)) for j, p in exact.items() if j) if x and y else 0
    got = info_theory.calculate_partial_expected_mutual_information(n, x, y)
    E.check("expected mutual information", abs(got - want) <= 1e-6 * (1 + abs(want)), f"{n} {x} {y}: {got} {want}")
    # The pipeline computes counts as count * weight * mean, correct up to rounding.
    eps = [r.choice([0, 1, -1]) * r.choice([1e-15, 1e-12, 1e-8]) for _ in range(3)]
    near = [c * (1 + e) for c, e in zip((n, x, y), eps)]
    if near[0] >= max(near[1:]):
        got = info_theory.calculate_partial_expected_mutual_information(*near)
        E.check("expected mutual information of counts up to rounding", abs(got - want) <= 1e-4 * (1 + abs(want)),
                f"{near}: {got} {want}")


class Column:
    """A numpy column of any length, of which only the list is taken."""
    _pyvc_symbolic = True

    def __init__(self, seq):
        self.seq = seq

    def tolist(self):
        return self.seq


@unit(P, "every token of a batch keeps its own count, weight and label weights",
      [impls._flatten_to_key_and_means_accumulator_list, impls._make_count_and_weights_means_accumulator], conc=150)
def flattened(E):
    weighted = E.choice("weighted", [False, True])
    if E.symbolic:
        n = E.int("tokens", 0)
        keys = E.seq("keys", lambda e: e.bytes("key"), symlen=n)
        counts = E.seq("counts", lambda e: e.int("count", 1), symlen=n)
        weights = E.seq("weights", lambda e: e.real("weight", 0.001), symlen=n)
        labels = E.choice("labels", [1, 2, 3])
        from pyvc import core
        pos = E.seq("positive", lambda e: core.SymVec([e.real(f"label{j}", 0) for j in range(labels)]), symlen=n)
        wrap = Column
    else:
        rows = E.gen("rows", lambda r: [(r.choice("abcde") + str(i), r.randint(1, 9), r.choice([0.5, 1.0, 3.25]) * r.randint(1, 9),
                                         [r.randint(0, 20) / 4 for _ in range(3)]) for i in range(r.randint(0, 6))])
        keys, counts, weights, pos = [[row[j] for row in rows] for j in range(4)]
        labels = 3
        wrap = np.array
    cols = (wrap(keys), wrap(weights), wrap(pos), wrap(counts)) if weighted else (wrap(keys), wrap(pos), wrap(counts))
    out = E.call(impls._flatten_to_key_and_means_accumulator_list, cols, compute_weighted=weighted)
    if E.symbolic:
        E.check("one pair per token", E.eq(core.mk(out.length), n))
        i = E.int("i", 0)
        E.assume(i < n)
        todo = [(out.at(i), keys.at(i), counts.at(i), weights.at(i), pos.at(i))]
    else:
        out = list(out)
        E.check("one pair per token", len(out) == len(keys))
        todo = list(zip(out, keys, counts, weights, pos))
    for (k, acc), key, count, weight, p in todo:
        E.check("the token is kept", E.eq(k, key))
        E.check("its count", E.eq(acc.count, count))
        if weighted:
            E.check("its weight", E.eq(acc.weight * count, weight))
        else:
            E.check("no weight", acc.weight is None)
        E.check("as many means as labels", len(acc.mean) == labels)
        for j in range(labels):
            of = lambda v: v._item(j) if hasattr(v, "_item") else v[j]
            E.check("the weight of a label", E.eq(of(acc.mean) * (weight if weighted else count), of(p)))


@unit(P, "the sentinel carries the label distribution, everything else is a token", [impls._extract_sentinels], conc=60)
def sentinels(E):
    beamkit.prepare(E)
    kind = E.choice("token", ["text", "int", "text sentinel", "int sentinel"])
    t = {"text": lambda: E.bytes("t"), "int": lambda: E.int("t"),
         "text sentinel": lambda: tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING,
         "int sentinel": lambda: tf_utils.GLOBAL_Y_COUNT_SENTINEL_INT}[kind]()
    if kind == "text":
        E.assume(E.Not(E.eq(t, tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING)))
    if kind == "int":
        E.assume(E.Not(E.eq(t, tf_utils.GLOBAL_Y_COUNT_SENTINEL_INT)))
    acc = Acc(1, 2, 3, 4)
    r = list(E.call(impls._extract_sentinels, (t, acc)))
    E.check("one output", len(r) == 1)
    if kind.endswith("sentinel"):
        E.check("global", r[0].tag == "global" and r[0].value is acc)
    else:
        E.check("feature", E.And(r[0].tag == "feature", E.eq(r[0].value[0], t), r[0].value[1] is acc))


@unit(P, "the recommended regularisation grows with the data set from 2 to 25",
      [analyzers.calculate_recommended_min_diff_from_avg], conc=200)
def min_diff(E):
    n = E.int("n", 0, 5000000)
    m = E.int("m", 0, 5000000)
    E.assume(n <= m)
    a, b = E.call(analyzers.calculate_recommended_min_diff_from_avg, n), E.call(
        analyzers.calculate_recommended_min_diff_from_avg, m)
    E.check("between 2 and 25", E.And(a >= 2, a <= 25))
    E.check("monotone", a <= b)
    E.check("small data sets", E.Or(n > 10000, E.eq(a, 2)))
    E.check("large data sets", E.Or(n < 1000000, E.eq(a, 25)))


# ------------------------------------------------------- co-occurrence counts
def data_gen(r, multi=None, unique=True):
    dt = r.choice(["string", "int64"])
    al = ["a", "b", "ab", "c", "\u00e9"] if dt == "string" else [0, 1, 2, 7, 40]
    multi = r.random() < 0.3 if multi is None else multi
    top = r.choice([1, 3, 3, 11])
    rows = []
    for _ in range(r.randint(1, 9)):
        x = [r.choice(al) for _ in range(r.randint(0, 4))]
        if unique:
            x = list(dict.fromkeys(x))
        y = [r.randint(0, top) for _ in range(r.randint(0, 2))] if multi else [r.randint(0, top)]
        if multi:
            y = list(dict.fromkeys(y))
        rows.append({"x": x, "y": y, "w": r.choice([0.5, 1.0, 2.0, 3.5])})
    return dt, multi, rows


def table(rows, weighted):
    """token -> (weight, count, {label: weight}); the sentinel under None."""
    t = collections.defaultdict(lambda: [0.0, 0, collections.defaultdict(float)])
    for row in rows:
        w = row["w"] if weighted else 1.0
        for k in row["x"] + [None]:
            k = k.encode() if isinstance(k, str) else k
            t[k][0] += w
            t[k][1] += 1
            for y in row["y"]:
                t[k][2][y] += w
    return {k: (a, b, {y: v for y, v in c.items() if v}) for k, (a, b, c) in t.items()}


def xs_tensor(rows, dt, kind):
    rag = tf.ragged.constant([r["x"] for r in rows], dtype=dt, ragged_rank=1) if any(r["x"] for r in rows) else \
        tf.RaggedTensor.from_row_lengths(tf.constant([], dtype=dt), [0] * len(rows))
    if kind == "ragged":
        return rag
    if kind == "sparse":
        return rag.to_sparse()
    return tf.constant([r["x"] for r in rows], dtype=dt)


def weights_tensor(rows, kind):
    if kind == "dense":
        return tf.constant([[r["w"]] * len(r["x"]) for r in rows], tf.float32)
    return tf.constant([r["w"] for r in rows for _ in r["x"]], tf.float32)


SENT = {b"global_y_count_sentinel": None}


def sentinel_key(k):
    return None if k in (tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING, tf_utils.GLOBAL_Y_COUNT_SENTINEL_INT) else k


@unit(P, "batch co-occurrences are the weighted counts of token and label",
      [tf_utils.reduce_batch_weighted_cooccurrences, tf_utils._compute_weighted_counts,
       tf_utils._preprocess_tensors_for_cooccurences, tf_utils._compute_vocabulary_values,
       tf_utils.extend_reduced_batch_with_y_counts, tf_utils._broadcast_to_x_shape], sym=False,
      bounded="generated batches of up to 9 rows", conc=150, conc_s=12)
def cooccurrences(E):
    r = E.rng
    kind = E.choice("kind", ["dense", "sparse", "ragged"])
    dt, multi, rows = E.gen("rows", lambda r: data_gen(r, unique=False))
    if kind == "dense":
        n = max(1, min(len(row["x"]) for row in rows))
        rows = [dict(row, x=(row["x"] or [row and ("a" if dt == "string" else 0)])[:n]) for row in rows]
        rows = [dict(row, x=row["x"] + row["x"][:1] * (n - len(row["x"]))) for row in rows]
    if not multi or all(not row["y"] for row in rows):
        multi = False
        rows = [dict(row, y=row["y"][:1] or [0]) for row in rows]
    x = xs_tensor(rows, dt, kind)
    if multi and kind == "ragged":
        x = x.to_sparse()
    y = tf.ragged.constant([row["y"] for row in rows], dtype=tf.int64, ragged_rank=1).to_sparse() if multi else tf.constant(
        [row["y"][0] for row in rows], tf.int64)
    weighted = E.choice("weighted", [False, True]) and kind == "dense" and rows[0]["x"] != []
    w = tf.constant([[row["w"]] * len(row["x"]) for row in rows], tf.float32) if weighted else None
    one_per_row = weighted and len(rows[0]["x"]) == 1
    if weighted and not one_per_row:
        w = None
        weighted = False
    if weighted:
        x, w = tf.reshape(x, [-1]), tf.reshape(w, [-1])
    out = tf_utils.reduce_batch_weighted_cooccurrences(x, y, w)
    want = table(rows, weighted)
    keys = [sentinel_key(k) for k in out.unique_x.numpy().tolist()]
    E.check("each token once", len(set(keys)) == len(keys) and set(keys) == set(want), f"{keys} want {list(want)}")
    for i, k in enumerate(keys):
        row = out.summed_positive_per_x_and_y.numpy()[i]
        got = {j: float(v) for j, v in enumerate(row) if v}
        E.check("weights, counts and co-occurrences",
                (abs(float(out.summed_weights_per_x.numpy()[i]) - want[k][0]) < 1e-4,
                 int(out.counts_per_x.numpy()[i]) == want[k][1], close(got, want[k][2])) == (True, True, True),
                f"{k}: {out.summed_weights_per_x.numpy()[i]} {out.counts_per_x.numpy()[i]} {got} want {want[k]}; rows {rows}")


def close(a, b, tol=1e-4):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol * (1 + abs(b[k])) for k in a)


@unit(P, "co-occurrence statistics are independent of batching and partitioning",
      [impls._flatten_to_key_and_means_accumulator_list, impls._make_count_and_weights_means_accumulator,
       impls._WeightedMeanCombineFn, analyzers.WeightedMeanAndVarCombiner], sym=False,
      bounded="generated data sets of up to 9 rows in up to 4 batches, random merge trees", conc=150, conc_s=14)
def partitions(E):
    r = E.rng
    dt, multi, rows = E.gen("rows", lambda r: data_gen(r, multi=False))
    weighted = E.choice("weighted", [False, True])
    vals = [(row["w"] if weighted else 1.0) for row in rows]
    fn = impls._WeightedMeanCombineFn(output_shape=(None,), compute_weighted=weighted)
    per = collections.defaultdict(list)
    for b in e2e.split(r, rows):
        if not b:
            continue
        x = xs_tensor(b, dt, "sparse")
        # weights travel with the tokens: one row per record
        out = tf_utils.reduce_batch_weighted_cooccurrences(
            tf.sparse.to_dense(x, default_value="" if dt == "string" else -99) if False else x,
            tf.constant([row["y"][0] for row in b], tf.int64)) if not weighted else table_batch(b, dt)
        args = (out[0], out[1], out[2], out[3]) if weighted else (out.unique_x.numpy(), out.summed_positive_per_x_and_y.numpy(),
                                                                  out.counts_per_x.numpy())
        for k, acc in impls._flatten_to_key_and_means_accumulator_list(args, compute_weighted=weighted):
            per[sentinel_key(k)].append(acc)
    want = table(rows, weighted)
    E.check("tokens", set(per) == set(want))
    for k, accs in per.items():
        r.shuffle(accs)
        m = e2e.accumulate(r, fn, accs)
        m = fn.extract_output(m)
        weight = m.weight if weighted else 1.0
        got = {j: float(v) for j, v in enumerate(np.atleast_1d(m.mean) * np.atleast_1d(weight) * m.count) if abs(v) > 1e-6}
        E.check("count, weight and co-occurrence of the whole", int(m.count) == want[k][1] and close(got, want[k][2]) and (
            not weighted or abs(float(m.weight) * int(m.count) - want[k][0]) < 1e-3), f"{k}: {m} want {want[k]}")


def table_batch(b, dt):
    t = table(b, True)
    top = max(y for row in b for y in row["y"])
    keys = list(t)
    sent = tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING if dt == "string" else tf_utils.GLOBAL_Y_COUNT_SENTINEL_INT
    return (np.array([sent if k is None else k for k in keys], dtype=object if dt == "string" else np.int64),
            np.array([t[k][0] for k in keys], np.float32),
            np.array([[t[k][2].get(j, 0.0) for j in range(top + 1)] for k in keys], np.float32),
            np.array([t[k][1] for k in keys], np.int64))


# ---------------------------------------------------------------- end to end
def mi_scores(rows, weighted, adjusted, mind):
    t = table(rows, weighted)
    n, _, ys = t[None]
    out = {}
    for k, (x, _, c) in t.items():
        if k is None:
            continue
        if round(x) == round(n):
            out[k] = (0.0, x)
            continue
        mi = 0.0
        for y, ny in ys.items():
            p = min(max(c.get(y, 0.0) / x, 1e-6), 1 - 1e-6)
            nij = p * x
            if abs(x * ny / n - nij) < mind:
                continue
            mi += nij * math.log2(nij * n / (x * ny))
            if adjusted:
                mi -= info_theory.calculate_partial_expected_mutual_information(n, x, ny)
        out[k] = (mi, x)
    return out


@unit(P, "the merged score of a token is the mutual information over the whole data set",
      [impls._MutualInformationTransformMerge, impls._MutualInformationTransformAccumulate, impls._VocabularyAccumulateImpl,
       impls._VocabularyMergeImpl], sym=False, bounded="generated data sets of up to 12 rows in up to 4 batches", conc=25, conc_s=14)
def merged(E):
    r = E.rng
    dt, _, rows = E.gen("rows", lambda r: data_gen(r, multi=False))
    weighted = E.choice("weighted", [False, True])
    adjusted = E.choice("adjusted", [False, True])
    mind = E.choice("min_diff_from_avg", [0.0, 0.3, None])
    if adjusted:
        rows = [dict(row, w=float(math.ceil(row["w"]))) for row in rows]
    ot = OT.WEIGHTED_MUTUAL_INFORMATION if weighted else OT.MUTUAL_INFORMATION
    data = []
    for b in e2e.split(r, rows):
        if b:
            k, w, pos, c = table_batch(b, dt)
            if not weighted:
                t = table(b, False)
                pos = np.array([[t[sentinel_key(x)][2].get(j, 0.0) for j in range(pos.shape[1])] for x in k.tolist()], np.float32)
            data.append((k, w, pos, c) if weighted else (k, pos, c))
    acc = list(data | _Tuple(impls._VocabularyAccumulateImpl(analyzer_nodes.VocabularyAccumulate(
        vocab_ordering_type=ot, input_dtype=dt), None)))
    out = list(acc | _Tuple(impls._VocabularyMergeImpl(analyzer_nodes.VocabularyMerge(
        vocab_ordering_type=ot, use_adjusted_mutual_info=adjusted, min_diff_from_avg=mind), None)))
    want = mi_scores(rows, weighted, adjusted, 2 if mind is None else mind)
    near_tie = False
    t = table(rows, weighted)
    n, _, ys = t[None]
    for k, (x, _, c) in t.items():
        for y, ny in ys.items():
            if abs(abs(x * ny / n - c.get(y, 0.0)) - (2 if mind is None else mind)) < 1e-3:
                near_tie = True
    if near_tie and mind != 0.0:
        return
    got = {k: v for v, k in out}
    E.check("each token once", len(out) == len(got) and set(got) == set(want), f"{out} want {want}")
    for k, (mi, x) in want.items():
        E.check("score and frequency", abs(got[k][0] - mi) <= 2e-3 * (1 + abs(mi)) and abs(got[k][1] - x) <= 1e-3 * (1 + x),
                f"{k}: {got[k]} want {want[k]}; weighted {weighted} adjusted {adjusted} mind {mind} rows {rows}")
        if not adjusted and mind == 0.0:
            E.check("never negative beyond rounding", got[k][0] >= -1e-3, f"{k}: {got[k]}")


@unit(P, "tft.vocabulary with labels orders tokens by score and writes it",
      [analyzers.vocabulary, analyzers._vocabulary_analyzer_nodes, analyzers._get_vocabulary_analyzer_inputs], sym=False,
      bounded="generated data sets of up to 12 rows", conc=8, conc_s=16, weight=3)
def whole(E):
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.tf_metadata import dataset_metadata
    r = E.rng
    dt, _, rows = E.gen("rows", lambda r: data_gen(r, multi=False))
    rows = rows + [dict(row) for row in rows[:3]]
    variants = {}
    for i in range(4):
        o = dict(adjusted=r.random() < 0.4, mind=r.choice([0.0, 0.0, None]), weighted=r.random() < 0.4)
        if r.random() < 0.4:
            o["frequency_threshold"] = r.choice([1, 2])
        variants[f"v{i}"] = o
    if any(o["adjusted"] for o in variants.values()):
        rows = [dict(row, w=float(math.ceil(row["w"]))) for row in rows]
    feed = [{"x": row["x"], "y": row["y"][0], "w": [row["w"]] * len(row["x"])} for row in rows]
    spec = {"x": tf.io.VarLenFeature(tf.string if dt == "string" else tf.int64), "y": tf.io.FixedLenFeature([], tf.int64),
            "w": tf.io.VarLenFeature(tf.float32)}
    E.note(variants)

    def pfn(ins):
        for n, o in variants.items():
            kw = dict(labels=ins["y"], vocab_filename=n, use_adjusted_mutual_info=o["adjusted"], min_diff_from_avg=o["mind"],
                      store_frequency=True)
            if "frequency_threshold" in o:
                kw["frequency_threshold"] = o["frequency_threshold"]
            tft.vocabulary(ins["x"], **kw)
        return {"y": ins["y"]}
    tmp = e2e.scratch()
    try:
        out = os.path.join(tmp, "o")
        with tft_beam.Context(temp_dir=tmp, desired_batch_size=E.choice("batch size", [1, 2, 3, 100])):
            md = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
            (feed, md) | tft_beam.AnalyzeDataset(pfn) | tft_beam.WriteTransformFn(out)
        o = tft.TFTransformOutput(out)
        got = {n: o.vocabulary_by_name(n) for n in variants}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for n, opts in variants.items():
        mind = 2 if opts["mind"] is None else opts["mind"]
        want = mi_scores(rows, False, opts["adjusted"], mind)
        # with labels the threshold applies to the score
        th = opts.get("frequency_threshold", float("-inf"))
        if any(abs(v[0] - th) < 1e-2 for v in want.values()):
            continue
        want = {(k if dt == "string" else str(k).encode()): v for k, v in want.items() if v[0] >= th}
        g = [(float(l.split(b" ", 1)[0]), l.split(b" ", 1)[1]) for l in got[n]]
        if not want:
            E.check("placeholder", len(g) == 1)
            continue
        E.check("tokens", {t for _, t in g} == set(want) and len(g) == len(want), f"{opts}: {g} want {want}")
        E.check("ordered by score, then token", g == sorted(g, reverse=True), f"{opts}: {g}")
        if mind == 0.0:
            E.check("scores", all(abs(s - want[t][0]) <= 2e-3 * (1 + abs(want[t][0])) for s, t in g), f"{opts}: {g} want {want} rows {rows}")
