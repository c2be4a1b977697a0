"""C17: fusing accumulations changes nothing but the number of stages."""
import os
import shutil
import unittest.mock as mock

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzer_nodes, analyzers, impl_helper, nodes
from tensorflow_transform.beam import analysis_graph_builder as agb
from tensorflow_transform.beam import analyzer_cache as ac
from tensorflow_transform.beam import analyzer_impls as ai
from tensorflow_transform.beam import beam_nodes
from tensorflow_transform.beam import combiner_packing_util as cpu
from pyvc.harness import unit, Raised
from contracts import beamkit, e2e
from contracts.C16 import preprocessing
from contracts.e2e import scratch

P = "C17"


# -------------------------------------------------------------- accumulating
class Falsy(str):
    """A partial result that is false."""
    def __bool__(self): return False


class Opaque(analyzer_nodes.Combiner):
    """A combiner of which nothing is known: its results are terms."""
    _pyvc_symbolic = True

    def __init__(self, name):
        self.name = name

    def create_accumulator(self): return ("create", self.name)
    def add_input(self, acc, batch): return ("add", self.name, acc, batch)
    def merge_accumulators(self, accs): return ("merge", self.name, tuple(accs))
    def compact(self, acc): return ("compact", self.name, acc)
    def extract_output(self, acc): return ("extract", self.name, acc)
    def output_tensor_infos(self): return []


@unit(P, "a wrapped accumulation is that of its combiner", [ai._CombinerWrapper], conc=40)
def wrapper(E):
    """For every combiner, partial result and input: the wrapper hands them to
    the combiner's method of the same name, and nothing else."""
    c = Opaque("c")
    for merging in (False, True):
        w = E.new(ai._CombinerWrapper, c, merging)
        acc, x = E.choice("partial result", [None, Falsy("acc")]), E.choice("input", [None, Falsy("x")])
        E.check("starts as the combiner does", E.call(w.create_accumulator) == c.create_accumulator())
        got = E.call(w.add_input, acc, x)
        if merging:
            want = c.merge_accumulators([v for v in (acc, x) if v is not None])
        else:
            want = c.add_input(acc, x)
        E.check("adds what the combiner adds", got == want, (merging, got, want))
        E.check("merges what the combiner merges", E.call(w.merge_accumulators, ["a", "b"]) == c.merge_accumulators(["a", "b"]))
        E.check("compacts as the combiner does", E.call(w.compact, acc) == c.compact(acc))
        E.check("delivers the result of the combiner, or its partial result", E.call(w.extract_output, acc) == (c.extract_output(acc) if merging else acc))


@unit(P, "each fused accumulation gets its own inputs and partial results", [ai._PackedCombinerWrapper], conc=80,
      bounded="up to 3 fused accumulations")
def packed(E):
    """Every method of the fused accumulation acts on each component as the
    method of the wrapped combiner acts on it alone (so, by induction, every
    batching and merge tree does)."""
    n = E.choice("fused", [1, 2, 3])
    merging = E.choice("merging", [False, True])
    keys = [] if merging else E.choice("keys", [[("x",), ("y",), ("z",)], [("x",), ("x",), ("x", "y")], [("y", "x"), ("x", "y"), ("y",)], [("z", "z"), (), ("x",)]])[:n]
    labels = E.choice("labels", [["l0", "l1", "l2"], ["b", "a", "c"], ["x", "y", "z"]])[:n]
    cs = [Opaque(f"c{i}") for i in range(n)]
    if merging:
        ops = [cpu._CombinerOpWrapper(combiner=c, keys=(l,), label="out " + l) for c, l in zip(cs, labels)]
    else:
        ops = [cpu._CombinerOpWrapper(combiner=c, keys=k, label="out " + l) for c, k, l in zip(cs, keys, labels)]
    w = E.new(ai._PackedCombinerWrapper, ops, merging)
    one = [E.new(ai._CombinerWrapper, c, merging) for c in cs]
    E.check("starts as each does", list(E.call(w.create_accumulator)) == [o.create_accumulator() for o in one])
    acc = [E.choice(f"partial result {i}", [None, Falsy(f"acc{i}")]) if merging and i < 2 else f"acc{i}" for i in range(n)]
    if merging:
        j = E.choice("which", list(range(n)))
        x = E.choice("value", [None, Falsy("value")])
        got = list(E.call(w.add_input, list(acc), (labels[j], x)))
        want = list(acc)
        want[j] = one[j].add_input(acc[j], x)
    else:
        element = {"x": "X", "y": "Y", "z": "Z"}
        got = list(E.call(w.add_input, list(acc), element))
        want = [o.add_input(a, tuple(element[k] for k in ks)) for o, a, ks in zip(one, acc, keys)]
    E.check("adds to each what belongs to it", got == want, (got, want))
    m = E.choice("merged", [2, 3])
    many = [[f"{a}{i}" for i in range(n)] for a in "abc"[:m]]
    E.check("merges each with its own", list(E.call(w.merge_accumulators, many)) == [one[i].merge_accumulators([p[i] for p in many]) for i in range(n)])
    E.check("compacts each", list(E.call(w.compact, list(acc))) == [o.compact(a) for o, a in zip(one, acc)])
    out = E.call(w.extract_output, list(acc))
    if not merging:
        E.check("delivers a missing partial result, too", E.call(w.extract_output, [None] * n) == {"out " + l: None for l in labels})
    E.check("delivers each result under its label", out == {"out " + l: o.extract_output(a) for l, o, a in zip(labels, one, acc)}, out)


# ------------------------------------------------------------ real pipelines
def combiners(r):
    """[(combiner, names of its inputs)]"""
    dt = np.float32
    some = []
    for _ in range(r.randint(1, 4)):
        kind = r.choice(["sum", "max", "moments", "covariance", "quantiles", "two"])
        x = r.choice(["x", "y"])
        if kind == "sum":
            some.append((analyzers.NumPyCombiner(np.sum, np.array(0, dt), [dt], [()]), (x,)))
        elif kind == "max":
            some.append((analyzers.NumPyCombiner(np.max, np.array(-np.inf, dt), [dt], [()]), (x,)))
        elif kind == "two":
            some.append((analyzers.NumPyCombiner(np.sum, np.array(0, dt), [dt, dt], [(), ()]), r.choice([("x", "y"), ("y", "x"), ("x", "x")])))
        elif kind == "moments":
            some.append((analyzers.WeightedMeanAndVarCombiner(dt, ()), ("n" + x, "m" + x, "v" + x, "w" + x)))
        elif kind == "covariance":
            some.append((analyzers.CovarianceCombiner((2, 2), dt), ("mat",)))
        else:
            some.append((analyzers.QuantilesCombiner(4, 0.01, dt), (r.choice(["bx", "by"]),)))
    return some


def batches(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
        k = r.randint(1, 4)
        b = {}
        for x in "xy":
            v = np.array([r.randint(-8, 8) for _ in range(k)], np.float32)
            b[x], b["b" + x] = np.sum(v), v
            b["n" + x], b["m" + x], b["v" + x], b["w" + x] = np.float32(k), np.mean(v), np.var(v), np.float32(1.0)
        b["mat"] = np.array([[r.randint(-4, 4), r.randint(-4, 4)] for _ in range(k)], np.float32)
        out.append(b)
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    if x is None:
        return [None]
    return list(np.asarray(x, dtype=np.float64).ravel())


def near(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all((x is None) == (y is None) and (x is None or np.isclose(x, y, rtol=1e-5, atol=1e-5, equal_nan=True)) for x, y in zip(a, b))


@unit(P, "a fused stage delivers the results of the separate ones", [ai._InitialAccumulatePackedCombineImpl, ai._MergeAccumulatorsPackedCombineImpl, ai._InitialAccumulateCombineImpl,
      ai._MergeAccumulatorsCombineImpl], sym=False, conc=14, conc_s=14, weight=2, bounded="up to 4 accumulations of real combiners, up to 5 batches")
def stages(E):
    cs, bs, split = E.gen("stage", lambda r: (combiners(r), batches(r), r.randint(1, 3)))
    import apache_beam as beam
    ops = [cpu._CombinerOpWrapper(combiner=c, keys=k, label=f"l{i}") for i, (c, k) in enumerate(cs)]
    outs = [cpu._CombinerOpWrapper(combiner=c, keys=(f"l{i}",), label=f"r{i}") for i, (c, k) in enumerate(cs)]
    parts = [bs[i::split] for i in range(split)]

    def build(p, *pcs):
        res, each, keyed = {}, {}, []
        for j, pc in enumerate(pcs):
            acc = (pc,) | f"fused{j}" >> ai._InitialAccumulatePackedCombineImpl(analyzer_nodes.PackedCombineAccumulate(ops, f"p{j}"), None)
            res[f"fused{j}"] = acc
            for i, (c, k) in enumerate(cs):
                one = pc | f"take{j}_{i}" >> beam.Map(lambda e, k=k: tuple(e[x] for x in k))
                with nodes_scope():
                    d = analyzer_nodes.CacheableCombineAccumulate(c)
                each[j, i] = (one,) | f"single{j}_{i}" >> ai._InitialAccumulateCombineImpl(d, None)
                res[f"single{j}_{i}"] = each[j, i]
                keyed.append(acc | f"key{j}_{i}" >> beam.Map(lambda e, i=i: (f"l{i}", e[f"l{i}"])))
        res["merged"] = (keyed | "flat" >> beam.Flatten(),) | "merge" >> ai._MergeAccumulatorsPackedCombineImpl(analyzer_nodes.PackedCombineMerge(outs, "m"), None)
        for i, (c, k) in enumerate(cs):
            with nodes_scope():
                d = analyzer_nodes.CacheableCombineMerge(c)
            together = [each[j, i] for j in range(len(pcs))] | f"flat{i}" >> beam.Flatten()
            res[f"merged{i}"] = (together,) | f"merge{i}" >> ai._MergeAccumulatorsCombineImpl(d, None)
        return res
    got = beamkit.run_many(build, *parts)
    for j in range(split):
        E.check("one result per stage", len(got[f"fused{j}"]) == 1 and set(got[f"fused{j}"][0]) == {o.label for o in ops}, got[f"fused{j}"])
    E.check("one merged result", len(got["merged"]) == 1 and set(got["merged"][0]) == {o.label for o in outs}, got["merged"])
    for i, (c, k) in enumerate(cs):
        a, (b,) = got["merged"][0][f"r{i}"], got[f"merged{i}"]
        E.check("merged: the fused result is the separate one", near(a, b), (type(c).__name__, k, a, b))
        if not isinstance(c, analyzers.QuantilesCombiner):
            for j in range(split):
                x, (y,) = got[f"fused{j}"][0][f"l{i}"], got[f"single{j}_{i}"]
                E.check("accumulated: the fused partial result is the separate one", near(x, y), (type(c).__name__, k, x, y))


def nodes_scope():
    """Node labels are made unique within a graph."""
    return tf.Graph().as_default()


# -------------------------------------------------------------- the rewriting
class Terms:
    """What a value of an analysis graph computes, as a term in which fused and
    separate accumulations look the same."""

    def __init__(self):
        self.ids, self.names = {}, []
        self.memo = {}

    def term(self, *t):
        if t not in self.ids:
            self.ids[t] = len(self.names)
            self.names.append(t)
        return self.ids[t]

    def members(self, t):
        n = self.names[t]
        return list(n[1]) if n[0] == "all of" else [t]

    def union(self, ts):
        m = sorted(x for t in ts for x in self.members(t))
        return m[0] if len(m) == 1 else self.term("all of", tuple(m))

    def value(self, v):
        got = self.op(v.parent_operation)
        return got[v.value_index]

    def op(self, o):
        if id(o) not in self.memo:
            self.memo[id(o)] = (o, self.compute(o))
        return self.memo[id(o)][1]

    def compute(self, o):
        d, ins = o.operation_def, [self.value(v) for v in o.inputs]
        an, bn = analyzer_nodes, beam_nodes
        if isinstance(d, bn.Flatten):
            return [self.union(ins)]
        if isinstance(d, bn.ExtractFromDict):
            src = self.names[ins[0]]
            if src[0] == "fused":
                return [dict(src[1])[d.keys]]
            return [self.term("extract", d.keys, ins[0])]
        if isinstance(d, an.CacheableCombineAccumulate):
            return [self.term("accumulate", id(d.combiner), ins[0])]
        if isinstance(d, an.PackedCombineAccumulate):
            return [self.term("fused", tuple((c.label, self.term("accumulate", id(c.combiner), self.term("extract", c.keys, ins[0]))) for c in d.combiners))]
        if isinstance(d, an.CacheableCombineMerge):
            return [self.term("merge", id(d.combiner), self.union(ins))]
        if isinstance(d, an.AddKey):
            return [self.union([self.term("keyed", d.key, m) for m in self.members(ins[0])])]
        if isinstance(d, an.PackedCombineMerge):
            every = [self.names[m] for m in self.members(self.union(ins))]
            if not all(e[0] == "keyed" for e in every):
                raise AssertionError(f"a fused merge of partial results that are not keyed: {every}")
            known = {c.keys[0] for c in d.combiners}
            if not all(e[1] in known for e in every):
                raise AssertionError(f"a fused merge gets partial results of others: {every} {known}")
            return [self.term("fused", tuple((c.label, self.term("merge", id(c.combiner), self.union([e[2] for e in every if e[1] == c.keys[0]]))) for c in d.combiners))]
        if isinstance(d, an.ExtractCombineMergeOutputs):
            return [self.term("output", i, repr(d.output_tensor_infos), ins[0]) for i in range(d.num_outputs)]
        if isinstance(d, an.ExtractPackedCombineMergeOutputs):
            return [self.term("output", i, repr(d.output_tensor_info_list), ins[0]) for i in range(d.num_outputs)]
        if isinstance(d, bn.CreateSavedModel):
            ins = sorted(ins)
        return [self.term("op", type(d).__name__, d.label, i, tuple(ins)) for i in range(d.num_outputs)]


MORE = ["mean", "mean", "sum", "max", "quantiles", "covariance", "gaussian", "zscore", "zscore", "vocabulary", "count_per_key", "approximate", "approximate"]


def draw(r):
    """[(kind, indices of earlier analyzers its input depends on)]"""
    out, single = [], r.random() < 0.6
    for i in range(r.randint(1, 6)):
        out.append((r.choice(MORE), [] if single or not i else r.sample(range(i), r.choice([0, 0, 1]))))
    return out


@unit(P, "the rewritten graph computes what the original does", [cpu.perform_combiner_packing_optimization], sym=False, conc=30, conc_s=25, weight=3,
      bounded="up to 6 analyzers of 9 kinds, up to 3 datasets, random caches")
def rewriting(E):
    def gen(r):
        keys = [(k, r.random() < 0.85) for k in r.sample(["a", "b", "c"], r.randint(1, 3))]
        return draw(r), keys, r.choice([None, 0.0, 0.4, 1.0]), r.getrandbits(32)
    ans, names, density, seed = E.gen("plan", gen)
    keys = [ac.DatasetKey(k) if c else ac.DatasetKey(k).non_cacheable() for k, c in names]
    import random
    r = random.Random(seed)
    seen = []

    def spy(future, cache, phases, _real=cpu.perform_combiner_packing_optimization):
        seen.append((future, cache and dict(cache)))
        return _real(future, cache, phases)

    def build(cache):
        tmp = scratch()
        try:
            with tf.init_scope():
                g, ins, outs = impl_helper.trace_preprocessing_function(preprocessing(ans), {"x": tf.TensorSpec([None], tf.float32)}, use_tf_compat_v1=False,
                                                                        base_temp_dir=os.path.join(tmp, "t"))
            with mock.patch.object(cpu, "perform_combiner_packing_optimization", spy):
                return agb.build(g, ins, outs, dataset_keys=keys, cache_dict=cache)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    cache = None
    if density is not None:
        cache = {}
        _, out, _ = build({})
        for k, entries in (out or {}).items():
            have = {c: "entry" for c in entries if r.random() < density}
            if have:
                cache[k] = ac.DatasetCache(have, None)
    seen.clear()
    future, out, _ = build(cache)
    (before, cache_before), = seen
    t = Terms()
    a, b = t.value(before), t.value(future)
    E.check("the rewritten graph computes what the original does", a == b)
    wrote = {k: v for k, v in (cache_before or {}).items()}
    after = {(d, c): v for d, e in (out or {}).items() for c, v in e.items()}
    E.check("the same partial results are cached", set(wrote) == set(after), (list(wrote), list(after)))
    for k in wrote:
        E.check("a cached partial result is the one of the original", t.value(wrote[k]) == t.value(after[k]), k)
    # nothing is computed twice that was computed once
    def count(root, kinds):
        ops, todo = {}, [root.parent_operation]
        while todo:
            o = todo.pop()
            if id(o) not in ops:
                ops[id(o)] = o
                todo += [v.parent_operation for v in o.inputs]
        return [o.operation_def for o in ops.values() if isinstance(o.operation_def, kinds)]
    an = analyzer_nodes
    for single, fused in ((an.CacheableCombineAccumulate, an.PackedCombineAccumulate), (an.CacheableCombineMerge, an.PackedCombineMerge)):
        n0 = len(count(before, single))
        rest, packs = len(count(future, single)), count(future, fused)
        E.check("each accumulation runs once", rest + sum(len(p.combiners) for p in packs) == n0, (n0, rest, packs))


@unit(P, "pipelines with and without fusing give the same results", [cpu.perform_combiner_packing_optimization, ai._PackedCombinerWrapper], sym=False, conc=3, conc_s=14, weight=2,
      bounded="up to 6 analyzers of 9 kinds over up to 9 rows")
def whole(E):
    ans, rows, bs = E.gen("pipeline", lambda r: ([a for a in draw(r) if a[0] != "gaussian"] or [("mean", [])], [{"x": float(r.randint(-9, 9))} for _ in range(r.randint(1, 9))], r.randint(1, 4)))
    # three phases do not run on the installed Beam runner
    ans = [(k, [d for d in deps if d < i]) for i, (k, deps) in enumerate(ans)]
    ans = [(k, [d for d in deps if not ans[d][1]]) for k, deps in ans]
    spec = {"x": tf.io.FixedLenFeature([], tf.float32)}
    fused, _ = e2e.analyze_transform(preprocessing(ans), rows, spec, bs)
    with mock.patch.object(cpu, "perform_combiner_packing_optimization", lambda future, c, n: (future, c)):
        plain, _ = e2e.analyze_transform(preprocessing(ans), rows, spec, bs)
    E.check("the same rows", len(fused) == len(plain))
    for a, b in zip(fused, plain):
        E.check("the same columns", set(a) == set(b))
        for k in a:
            E.check("the same values", np.allclose(a[k], b[k], rtol=1e-4, atol=1e-3, equal_nan=True), (ans, k, a[k], b[k]))
