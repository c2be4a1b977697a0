"""C16: the analysis plan runs every analyzer once, in dependency order."""
import os
import shutil
import unittest.mock as mock

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzer_nodes, impl_helper, nodes
from tensorflow_transform.beam import analysis_graph_builder as agb
from tensorflow_transform.beam import analyzer_cache as ac
from tensorflow_transform.beam import beam_nodes
from pyvc.harness import unit, Raised
from contracts.e2e import scratch

P = "C16"


# ------------------------------------------------------------------ traversal
class Def(nodes.OperationDef):
    def __init__(self, name, n):
        self.name, self.n = name, n

    @property
    def num_outputs(self):
        return self.n

    @property
    def label(self):
        return self.name


class Recorder(nodes.Visitor):
    """Gives every output of every visited operation a value of its own."""

    def __init__(self, wrong=None):
        self.log, self.validated, self.wrong = [], [], wrong

    def visit(self, operation_def, input_values):
        self.log.append((operation_def.label, input_values))
        out = tuple(f"{operation_def.label}/{i}" for i in range(operation_def.num_outputs))
        if self.wrong and self.wrong[0] == operation_def.label:
            return {"fewer": out[:-1], "more": out + ("x",), "one": out[0] if out else "x", "number": 7,
                    "node": operation_def}[self.wrong[1]]
        return out

    def validate_value(self, value):
        self.validated.append(value)


def draw_graph(r):
    """[(outputs, [(operation, output)])] in an order of dependency."""
    out = []
    for i in range(r.randint(1, 8)):
        k = r.choice([0, 1, 1, 2, 3]) if i else 0
        ins = []
        for _ in range(k):
            j = r.randrange(i)
            if out[j][0]:
                ins.append((j, r.randrange(out[j][0])))
        out.append((r.choice([1, 1, 1, 2, 3, 0]), ins))
    return out


def make_graph(desc):
    ops = []
    for i, (n, ins) in enumerate(desc):
        ops.append(nodes.OperationNode(Def(f"op{i}", n), tuple(ops[j].outputs[k] for j, k in ins)))
    return ops


@unit(P, "a walk visits each operation once, after its inputs", [nodes.Traverser.visit_value_node, nodes.Traverser._maybe_visit_value_node,
                                                            nodes.Traverser._visit_operation], sym=False, conc=200, bounded="graphs of up to 8 operations")
def walk(E):
    desc, roots = E.gen("graph", lambda r: (draw_graph(r), [r.random() for _ in range(r.randint(1, 3))]))
    ops = make_graph(desc)
    values = [v for o in ops for v in o.outputs]
    E.assume(values)
    v = Recorder()
    t = nodes.Traverser(v)
    want = set()

    def reach(i):
        if i not in want:
            want.add(i)
            for j, _ in desc[i][1]:
                reach(j)
    for root in roots:
        node = values[int(root * len(values))]
        got = t.visit_value_node(node)
        E.check("the value of the output asked for is returned", got == f"{node.parent_operation.operation_def.label}/{node.value_index}", got)
        reach(ops.index(node.parent_operation))
        done = [l for l, _ in v.log]
        E.check("exactly the operations it depends on are visited", sorted(done) == sorted(f"op{i}" for i in want), (done, want))
    for pos, (label, ins) in enumerate(v.log):
        i = int(label[2:])
        E.check("an operation is handed exactly the outputs it depends on, in order", ins == tuple(f"op{j}/{k}" for j, k in desc[i][1]), (label, ins))
        E.check("all its inputs are visited before", all(f"op{j}" in [l for l, _ in v.log[:pos]] for j, _ in desc[i][1]))
    E.check("every output value is validated", sorted(v.validated) == sorted(f"op{i}/{k}" for i in want for k in range(desc[i][0])))


@unit(P, "a walk rejects cycles and wrong outputs", [nodes.Traverser._visit_operation], sym=False, conc=150, bounded="graphs of up to 8 operations")
def walk_rejects(E):
    desc, pick, how = E.gen("graph", lambda r: (draw_graph(r), r.random(), r.choice(["fewer", "more", "one", "number", "node", "cycle", "cycle"])))
    ops = make_graph(desc)
    E.assume(ops[-1].outputs)
    anc = set()

    def reach(i):
        if i not in anc:
            anc.add(i)
            for j, _ in desc[i][1]:
                reach(j)
    reach(len(ops) - 1)
    bad = sorted(anc)[int(pick * len(anc))]
    if how == "cycle":
        # an operation of the walk also reads an output of the last one
        ops[bad]._inputs = ops[bad].inputs + (ops[-1].outputs[0],)
        got = E.attempt(lambda: nodes.Traverser(Recorder()).visit_value_node(ops[-1].outputs[0]))
        E.check("a cyclic graph is rejected", isinstance(got, Raised) and isinstance(got.exc, AssertionError), got)
        return
    E.assume(desc[bad][0] > 0)
    v = Recorder((f"op{bad}", how))
    got = E.attempt(lambda: nodes.Traverser(v).visit_value_node(ops[-1].outputs[0]))
    E.check("a step with the wrong outputs is rejected", isinstance(got, Raised) and isinstance(got.exc, ValueError), (how, got))


@unit(P, "nodes are validated", [nodes.OperationNode.__init__, nodes.ValueNode.__post_init__, nodes.OperationNode.outputs], conc=40)
def node_checks(E):
    n, i = E.int("outputs", 0, 4), E.int("index", -3, 6)
    d = Count(n)
    op = E.new(nodes.OperationNode, d, ())
    got = E.attempt(lambda: E.new(nodes.ValueNode, op, i))
    ok = E.And(E.le(0, i), E.Not(E.le(n, i)))
    if isinstance(got, Raised):
        E.check("an output that exists is accepted", E.Not(ok), (n, i))
        E.check("an output that does not exist is a ValueError", isinstance(got.exc, ValueError))
    else:
        E.check("an output that does not exist is rejected", ok, (n, i))
    for bad in [None, "x", [], ("x",), 3]:
        E.check("inputs that are not a tuple of nodes are rejected", isinstance(E.attempt(lambda: E.new(nodes.OperationNode, d, bad)), Raised), bad)
    E.check("something that is no operation is rejected", isinstance(E.attempt(lambda: E.new(nodes.OperationNode, "op", ())), Raised))


class Count(Def):
    def __init__(self, n):
        Def.__init__(self, "count", n)


# ------------------------------------------------------------------- readiness
class Knows:
    """What can be computed in a phase: the given answers."""
    _pyvc_symbolic = True

    def ready_to_run(self, tensor):
        return tensor


def all_of(E, seq):
    if not E.symbolic:
        return all(bool(v) for v in seq)
    import z3
    from pyvc import core
    i = z3.Int(core.fresh_name("i"))
    return core.mk(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < seq.length), core.to_z3_bool(seq.get(i)) if hasattr(core, "to_z3_bool") else seq.get(i).e)))


@unit(P, "an operation is ready when everything it depends on is", [agb._ReadyVisitor.visit, agb._ReadyVisitor.__init__], conc=60)
def readiness(E):
    """For any number of inputs and of tensors."""
    source = E.choice("operation", ["tensors", "results"]) == "tensors"
    flags = E.seq("inputs", lambda e: e.bool("ready"), kind="tuple")
    v = E.new(agb._ReadyVisitor, Knows())
    if source:
        d, ins = tuple.__new__(analyzer_nodes.TensorSource, (flags, "source")), ()
    else:
        d, ins = Count(3), flags
    out = E.call(v.visit, d, ins)
    E.check("every output has an answer", len(out) == (1 if source else 3))
    for o in out:
        E.check("it is ready exactly when all of them are", E.eq(o, all_of(E, flags)), out)


@unit(P, "the tensors an analyzer reads are computed and handed to it in order", [agb._TranslateVisitor.visit, agb._tensor_name], sym=False, conc=30, conc_s=6,
      bounded="up to 5 tensors, outputs of operations with up to 3 of them")
def sources(E):
    pick = E.gen("tensors", lambda r: [(r.randrange(3), r.randrange(3)) for _ in range(r.randint(1, 5))])
    with tf.Graph().as_default():
        x = tf.compat.v1.placeholder(tf.float32, [None, 3], name="x")
        outs = [tf.unstack(x, axis=1, name="parts"), tf.split(x * 2.0, 3, axis=1, name="scope/parts"), [x, tf.identity(x, name="parts/x"), tf.identity(x, name="y_0")]]
        ts = tuple(outs[a][b] for a, b in pick)
        d = analyzer_nodes.TensorSource(ts)
        v = agb._TranslateVisitor()
        v.phase, v.intermediate_output_signature = 0, {}
        v.extracted_values_dict = nodes.apply_operation(beam_nodes.ExtractInputForSavedModel, dataset_key=None, label="all")
        (out,) = v.visit(d, ())
    keys = out.parent_operation.operation_def.keys
    E.check("one key for each tensor", len(keys) == len(ts), keys)
    E.check("each is read from the values of the phase", out.parent_operation.inputs == (v.extracted_values_dict,))
    E.check("a key names the tensor asked for", all(v.intermediate_output_signature.get(k) is t for k, t in zip(keys, ts)), (keys, [t.name for t in ts]))
    E.check("nothing else is computed", set(v.intermediate_output_signature) == set(keys), v.intermediate_output_signature)


# ------------------------------------------------------------------ cache entries
class Part(Def):
    """An operation with fields, as those of the library."""


def some_operation(r):
    """(operation, [the same with one thing changed])"""
    from tensorflow_transform import analyzers as an
    k = r.randrange(5)
    if k == 0:
        keys = tuple(r.sample(["t0", "t1", "t2", "t3"], r.randint(2, 3)))
        mk = lambda ks: beam_nodes.ExtractFromDict(tuple(ks), "extract")
        other = [t for t in ["t0", "t1", "t2", "t3"] if t not in keys][0]
        return mk(keys), [mk(keys[::-1]), mk((other,) + keys[1:]), mk(keys[:-1] + (other,)), mk(keys[:-1]), mk(keys + (other,))]
    if k == 1:
        d = tuple.__new__(analyzer_nodes.VocabularyAccumulate, (1, "string", "voc"))
        return d, [d._replace(vocab_ordering_type=2), d._replace(input_dtype="int64"), d._replace(label="voc2")]
    if k == 2:
        e = r.choice([0.01, 0.1])
        mk = lambda eps, cls=analyzer_nodes.CacheableCombineAccumulate, label="q": tuple.__new__(cls, (an.QuantilesCombiner(5, eps, "float32"), label))
        return mk(e), [mk(e * 2), mk(e / 10), mk(e, label="q2"), mk(e, analyzer_nodes.CacheableCombinePerKeyAccumulate)]
    if k == 3:
        import importlib
        exp = importlib.import_module("tensorflow_transform.experimental.analyzers")
        n = r.randint(1, 9)
        mk = lambda n, label="v": tuple.__new__(analyzer_nodes.CacheableCombineAccumulate, (exp._VocabularyCombiner(n, tf.string), label))
        return mk(n), [mk(n + 1), mk(10 * n), mk(n, "v2"), tuple.__new__(analyzer_nodes.CacheableCombineAccumulate, (an.CovarianceCombiner((2, 2)), "v"))]
    mk = lambda q, cls=analyzer_nodes.FlattenLists: tuple.__new__(cls, (q,))
    return mk("a"), [mk("b"), mk("a", analyzer_nodes.VocabularyCount)]


@unit(P, "an entry is named after everything it was computed from", [agb._OptimizeVisitor._make_next_hashed_path], sym=False, conc=120, conc_s=6,
      bounded="5 kinds of operations with up to 3 inputs")
def entry_names(E):
    def gen(r):
        return r.getrandbits(40), [bytes(r.randrange(256) for _ in range(20)) for _ in range(r.randint(1, 3))], r.randrange(3)
    seed, parents, which = E.gen("operation", gen)
    import random
    import hashlib
    d, others = some_operation(random.Random(seed))
    paths = {f"t{i}": hashlib.sha1(b"path%d" % i).digest() for i in range(4)}
    v = agb._OptimizeVisitor([], {}, paths, {}, 1)
    h = v._make_next_hashed_path(parents, d)
    E.check("the name is always the same", h == agb._OptimizeVisitor([], {}, dict(paths), {}, 1)._make_next_hashed_path(list(parents), d))
    for o in others:
        E.check("another operation, or other parameters, have another name", v._make_next_hashed_path(parents, o) != h, (d, o))
    i = which % len(parents)
    changed = parents[:i] + [hashlib.sha1(parents[i]).digest()] + parents[i + 1:]
    E.check("other inputs have another name", v._make_next_hashed_path(changed, d) != h, d)
    E.check("an input too many has another name", v._make_next_hashed_path(parents + parents[-1:], d) != h, d)
    if len(parents) > 1 and parents[0] != parents[-1]:
        E.check("the order of the inputs matters", v._make_next_hashed_path(parents[::-1], d) != h, d)
    E.check("without a name for an input there is none", v._make_next_hashed_path(parents[:i] + [None] + parents[i + 1:], d) is None, d)
    if isinstance(d, beam_nodes.ExtractFromDict):
        for k in d.keys:
            w = agb._OptimizeVisitor([], {}, dict(paths, **{k: b"another path 1234567"}), {}, 1)
            E.check("another tensor has another name", w._make_next_hashed_path(parents, d) != h, (d, k))


FAMILIES = {
    "quantiles": [(n, e, w, r) for n in (4, 40) for e in (0.001, 0.3) for w in (False, True) for r in (True, False)],
    "bucketize": [(n, e) for n in (4, 40) for e in (0.001, 0.3)],
    "bucketize_per_key": [(n, e) for n in (4, 40) for e in (0.001, 0.3)],
    "approximate_vocabulary": [(k, w) for k in (1, 3, 50) for w in (False, True)],
    "moments": [(f, r) for f in ("mean", "var", "scale_to_z_score") for r in (True, False)],
    "extrema": [(f, r) for f in ("min", "max", "sum", "scale_to_0_1") for r in (True, False)],
    "vocabulary": [(t, f, w) for t in (None, 2) for f in (None, 3) for w in (False, True)],
    "covariance": ["covariance", "pca 1", "pca 2"],
}


def analysis(family, p):
    """A preprocessing function with one analyzer called a."""
    import importlib
    exp = importlib.import_module("tensorflow_transform.experimental.analyzers")

    def apply(i):
        if family == "quantiles":
            n, e, w, r = p
            return tft.quantiles(i["x"] if r else i["v"], n, e, weights=i["w"] if w and r else None, reduce_instance_dims=r, name="a")
        if family == "bucketize":
            return tft.bucketize(i["x"], p[0], p[1], name="a")
        if family == "bucketize_per_key":
            return tft.bucketize_per_key(i["x"], i["s"], p[0], p[1], name="a")
        if family == "approximate_vocabulary":
            return exp.approximate_vocabulary(i["s"], top_k=p[0], weights=i["w"] if p[1] else None, vocab_filename="a", name="a")
        if family == "vocabulary":
            return tft.vocabulary(i["s"], top_k=p[0], frequency_threshold=p[1], weights=i["w"] if p[2] else None, vocab_filename="a", name="a")
        if family in ("moments", "extrema"):
            f, r = p
            return getattr(tft, f)(i["v"], **({"elementwise": not r} if f.startswith("scale") else {"reduce_instance_dims": r}), name="a")
        return tft.covariance(i["v"], tf.float32, name="a") if p == "covariance" else tft.pca(i["v"], int(p[-1]), tf.float32, name="a")
    return lambda i: {"o": i["x"] + tf.cast(tf.size(apply(i)), tf.float32)}


def accumulations(pfn):
    """{cache key: (the accumulation, the tensors it reads)}"""
    specs = {n: tf.TensorSpec([None], tf.float32) for n in "xw"}
    specs.update(v=tf.TensorSpec([None, 2], tf.float32), s=tf.TensorSpec([None], tf.string))
    tmp = scratch()
    try:
        with tf.init_scope():
            graph, ins, outs = impl_helper.trace_preprocessing_function(pfn, specs, use_tf_compat_v1=False, base_temp_dir=os.path.join(tmp, "t"))
        read = {}
        real = agb._TranslateVisitor.visit

        def visit(self, d, values):
            out = real(self, d, values)
            if isinstance(d, analyzer_nodes.TensorSource):
                read[out[0].parent_operation.operation_def.label] = d.tensors
            return out
        with mock.patch.object(agb.combiner_packing_util, "perform_combiner_packing_optimization", lambda future, c, n: (future, c)), \
                mock.patch.object(agb._TranslateVisitor, "visit", visit):
            cache = agb.build(graph, ins, outs, dataset_keys=[ac.DatasetKey("d")], cache_dict={})[1]
        got = {}
        for k, v in list((cache or {}).values())[0].items():
            step = v.parent_operation.inputs[0].parent_operation
            up = step.inputs[0].parent_operation.operation_def.label.split("[AnalysisIndex")[0]
            got[k] = (step.operation_def, read.get(up))
        return got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def values_for(r, tensors, top):
    """A batch of values such as the tensors could have."""
    import numpy as np
    rows, groups, out = 900, 30, []
    for t in tensors:
        dt = t.dtype.as_numpy_dtype
        sh = [groups if t.dtype == tf.string or any(u.dtype == tf.string for u in tensors) else rows if d is None else d for d in (t.shape.as_list() if t.shape.rank is not None else [None])]
        n = int(np.prod(sh))
        if t.dtype == tf.string:
            out.append(np.array([b"k%03d" % q for q in r.sample(range(n * 2), n)], object).reshape(sh))
        elif t.dtype.is_integer:
            out.append(np.array([r.randint(1, 9) for _ in range(n)], dt).reshape(sh))
        else:
            out.append(np.array([r.randint(1, top) for _ in range(n)], dt).reshape(sh))
    return out


@unit(P, "an entry left by another analysis is used only when it serves as well", [agb._OptimizeVisitor._apply_operation_on_fine_grained_view, agb._OptimizeVisitor._make_next_hashed_path,
      agb.get_analysis_cache_entry_keys], sym=False, conc=40, conc_s=16, weight=2, bounded="pairs of analyzers of 8 families with the same name and input")
def entries_shared(E):
    """Whenever two analyses give an entry the same name, the partial result of one is as good as that of the other."""
    import random
    import numpy as np

    def gen(r):
        fam = r.choice(sorted(FAMILIES))
        return fam, *r.sample(range(len(FAMILIES[fam])), 2), r.getrandbits(32)
    fam, i, j, seed = E.gen("pair", gen)
    p, q = FAMILIES[fam][i], FAMILIES[fam][j]
    a, b = accumulations(analysis(fam, p)), accumulations(analysis(fam, q))
    wide = lambda bt: [v * np.array([1, 4], v.dtype) if v.dtype.kind == "f" and v.shape[1:] == (2,) else v for v in bt]      # distinct principal directions
    for k in set(a) & set(b):
        (da, ta), (db, _) = a[k], b[k]
        E.check("the same kind of accumulation has the same entry", type(da) is type(db) and type(da.cache_coder) is type(db.cache_coder), (p, q, da, db))
        if not hasattr(da, "combiner") or ta is None:
            E.check("the same accumulation has the same entry", da == db, (p, q, da, db))
            continue
        r = random.Random(seed)
        batches = [wide(values_for(r, ta, 9 if fam == "covariance" else 10 ** 5)) for _ in range(3)]
        if "PerKey" in type(da).__name__:
            batches = [[np.ravel(v) for v in bt[1:]] for bt in batches]
        ca, cb = da.combiner, db.combiner
        def acc(c):
            s = c.create_accumulator()
            for bt in batches:
                s = c.add_input(s, bt)
            return c.compact(s)
        here, left = acc(cb), ca.accumulator_coder.decode_cache(ca.accumulator_coder.encode_cache(acc(ca)))
        want = cb.extract_output(here)
        left = E.attempt(lambda: cb.extract_output(cb.merge_accumulators([cb.create_accumulator(), left])))
        E.check("what the other analysis left can be used", not isinstance(left, Raised), (fam, p, q, left))
        same = lambda x, y: np.shape(x) == np.shape(y) and (np.allclose(x, y, rtol=1e-5, atol=1e-5) if np.asarray(x).dtype.kind in "fiu" else np.array_equal(x, y))
        E.check("it gives the same result", len(left) == len(want) and all(same(x, y) for x, y in zip(left, want)), (fam, p, q, left, want))


# ----------------------------------------------------------------------- plan
KINDS = ["mean", "mean", "sum", "max", "vocabulary", "quantiles", "covariance", "gaussian", "count_per_key", "zscore"]


def draw_analyzers(r):
    """[(kind, number of earlier analyzers its input depends on)]"""
    out = []
    single = r.random() < 0.5
    for i in range(r.choice([0, 1, 2, 2, 3, 3, 4])):
        out.append((r.choice(KINDS), [] if single else sorted(r.sample(range(i), r.choice([0, 0, 1, 1, 2]) if i >= 2 else r.choice([0, 0, i])))))
    return out


def scalar_of(kind, x, name):
    """An analyzer named name over x, reduced to a scalar."""
    f = tf.cast(x, tf.float32)
    if kind == "mean":
        return tft.mean(f, name=name)
    if kind == "sum":
        return tf.cast(tft.sum(f, name=name), tf.float32)
    if kind == "max":
        return tft.max(f, name=name)
    if kind == "vocabulary":
        p = tft.vocabulary(tf.strings.as_string(f), name=name, vocab_filename=name)
        return tf.cast(tf.strings.length(p), tf.float32)
    if kind == "quantiles":
        return tf.reduce_sum(tft.quantiles(f, 3, 0.01, name=name))
    if kind == "covariance":
        return tf.reduce_sum(tft.covariance(tf.stack([f, f * 2], axis=1), tf.float32, name=name))
    if kind == "gaussian":
        return tf.reduce_sum(tft.scale_to_gaussian(f, name=name)[:0])
    if kind == "count_per_key":
        k, c = tft.count_per_key(tf.strings.as_string(f), name=name)
        return tf.cast(tf.reduce_sum(c), tf.float32)
    if kind == "zscore":
        return tf.reduce_sum(tft.scale_to_z_score(f, name=name)[:0])
    if kind == "approximate":
        import importlib
        exp = importlib.import_module("tensorflow_transform.experimental.analyzers")
        p = exp.approximate_vocabulary(tf.strings.as_string(f), top_k=20, name=name, vocab_filename=name)
        return tf.cast(tf.strings.length(p), tf.float32)
    raise AssertionError(kind)


def preprocessing(analyzers):
    def pfn(inputs):
        x = inputs["x"]
        got = []
        for i, (kind, deps) in enumerate(analyzers):
            y = x + float(i + 1)
            for d in deps:
                y = y - got[d]
            got.append(scalar_of(kind, y, f"an{i}"))
        out = {"x": x + 1.0}
        for i, g in enumerate(got):
            out[f"o{i}"] = x + g
        return out
    return pfn


def build(pfn, keys, cache):
    tmp = scratch()
    try:
        specs = {"x": tf.TensorSpec([None], tf.float32)}
        with tf.init_scope():
            graph, ins, outs = impl_helper.trace_preprocessing_function(pfn, specs, use_tf_compat_v1=False, base_temp_dir=os.path.join(tmp, "t"))
        # fusing accumulations is the subject of C17
        with mock.patch.object(agb.combiner_packing_util, "perform_combiner_packing_optimization", lambda future, c, n: (future, c)):
            return agb.build(graph, ins, outs, dataset_keys=keys, cache_dict=cache)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def operations(root):
    """All operations above a value, each once."""
    seen, out, todo = set(), [], [root.parent_operation]
    while todo:
        op = todo.pop()
        if id(op) in seen:
            continue
        seen.add(id(op))
        out.append(op)
        todo += [v.parent_operation for v in op.inputs]
    return out


def is_merge(op):
    """A step that brings the contributions of all datasets together."""
    d = op.operation_def
    return not d.is_partitionable and any(v.parent_operation.operation_def.is_partitionable for v in op.inputs) and not isinstance(
        d, (beam_nodes.CreateSavedModel, beam_nodes.CreateTensorBinding))


def contributions(value):
    """[(where from, dataset, cache key, label of the caching step)]"""
    op, d = value.parent_operation, value.parent_operation.operation_def
    if isinstance(d, beam_nodes.ExtractInputForSavedModel):
        return [("data", d.dataset_key, None, None)]
    if isinstance(d, analyzer_nodes.DecodeCache):
        return [("cache", d.dataset_key, d.cache_key, None)]
    if isinstance(d, beam_nodes.ApplySavedModel):
        return contributions(op.inputs[1])
    parts = [contributions(v) for v in op.inputs]
    if isinstance(d, beam_nodes.Flatten):
        out = [c for p in parts for c in p]
    else:
        out = parts[0]
        if any(p != out for p in parts):
            raise AssertionError(f"{d.label} mixes datasets: {parts}")
    if d.cache_coder is not None:
        out = [(w, k, c, d.label.split("[AnalysisIndex")[0]) if c is None else (w, k, c, l) for w, k, c, l in out]
    return out


def phases(value):
    """Phases of the models the data of a value went through."""
    op, d = value.parent_operation, value.parent_operation.operation_def
    if isinstance(d, beam_nodes.ApplySavedModel):
        return {d.phase}
    return set().union(set(), *[phases(v) for v in op.inputs])


@unit(P, "the plan computes each analyzer from one contribution of each dataset", [agb.build, agb._OptimizeVisitor, agb._perform_cache_optimization, agb.get_analysis_dataset_keys,
      agb.get_analysis_cache_entry_keys], sym=False, conc=80, conc_s=40, weight=4, bounded="up to 4 analyzers of 10 kinds, up to 3 datasets, random caches")
def plan(E):
    def gen(r):
        analyzers = draw_analyzers(r)
        keys = [(k, r.random() < 0.85) for k in r.sample(["a", "b", "c", "10", "9"], r.randint(1, 3))]
        return analyzers, keys, r.choice([r.random(), 0.5, 0.75]), r.getrandbits(32), r.random() < 0.15
    analyzers, names, density, seed, nothing = E.gen("plan", gen)
    if nothing:
        density = 0.0
    pfn = preprocessing(analyzers)
    keys = [ac.DatasetKey(k) if c else ac.DatasetKey(k).non_cacheable() for k, c in names]
    specs = {"x": tf.TensorSpec([None], tf.float32)}
    # with an empty cache: what is cached under which key
    future, out_cache, _ = build(pfn, keys, {})
    entry = {}
    for d, entries in (out_cache or {}).items():
        E.check("only datasets that may be cached are cached", d in keys and d.is_cached, d)
        for k, v in entries.items():
            step = v.parent_operation.inputs[0].parent_operation.operation_def.label.split("[AnalysisIndex")[0]
            E.check("one step has one cache key for all datasets", entry.setdefault(step, k) == k, (step, k))
    E.check("two steps have different cache keys", len(set(entry.values())) == len(entry), entry)
    if any(k.is_cached for k in keys):
        listed = agb.get_analysis_cache_entry_keys(pfn, specs, keys, False)
        E.check("the cache keys of the plan are listed", set(listed) == set(entry.values()), (listed, entry))
    # with some of the entries in the cache
    import random
    r = random.Random(seed)
    cache = {}
    for d in keys:
        have = {k: "entry" for k in entry.values() if d.is_cached and r.random() < density}
        if r.random() < 0.3:
            have[b"another key"] = "entry"
        if have or r.random() < 0.3:
            cache[d] = ac.DatasetCache(have, r.choice([None, "metadata", "metadata", "metadata"]))
    future, new_cache, leaves = build(pfn, keys, cache)
    ops = operations(future)
    labels = [o.operation_def.label for o in ops]
    E.check("no two steps have the same label", len(set(labels)) == len(labels), labels)
    read, flat = set(), False
    merges = [o for o in ops if is_merge(o)]
    plain = build(pfn, keys, None)[0]
    E.check("the plan has the steps of the plan without a cache", sorted(o.operation_def.label for o in merges) == sorted(o.operation_def.label for o in operations(plain) if is_merge(o)))
    depth = {}
    for i, (kind, deps) in enumerate(analyzers):
        depth[i] = 1 + max([depth[j] for j in deps], default=-1)
    used = set()
    for m in merges:
        label = m.operation_def.label
        for v in m.inputs:
            if not v.parent_operation.operation_def.is_partitionable:
                continue
            got = contributions(v)
            if [k for _, k, _, _ in got] == [ac._make_flattened_dataset_key()]:
                flat = True
                continue
            E.check("an analyzer has one contribution of each dataset", sorted(k for _, k, _, _ in got) == sorted(keys), (label, got))
            step = {l for _, _, c, l in got if l is not None}
            ck = {c for _, _, c, _ in got if c is not None} | {entry[l] for l in step if l in entry}
            E.check("the contributions are results of one step", len(step) <= 1 and len(ck) <= 1, (label, got))
            used |= ck
            for w, d, c, l in got:
                avail = bool(ck) and list(ck)[0] in (cache[d].cache_dict if d in cache else {})
                E.check("a contribution is read from the cache exactly when it is there", (w == "cache") == avail, (label, d, w, cache.get(d)))
                if w == "data":
                    read.add(d)
        ph = set().union(*[phases(v) for v in m.inputs])
        for i in range(len(analyzers)):
            if f"an{i}" in label.replace("[", "/").replace("#", "/").replace("]", "/").split("/"):
                E.check("an analyzer of other analyzers runs in a later phase", not ph or min(ph) >= depth[i], (label, ph, depth[i]))
    complete = [k for v in leaves for k in v.parent_operation.operation_def.input_cache_dataset_keys]
    hit = {d for m in merges for v in m.inputs if v.parent_operation.operation_def.is_partitionable for w, d, _, _ in contributions(v) if w == "cache"}
    missed = {d for d, e in (new_cache or {}).items() if e}
    several = len({o.operation_def.phase for o in ops if isinstance(o.operation_def, beam_nodes.ApplySavedModel)} | set(depth.values())) > 1
    E.check("the datasets said to come from the cache alone do", set(complete) <= (set() if several else {d for d in hit - missed if cache[d].metadata}), (complete, hit, missed, several))
    E.check("each of them is said to", several or flat or set(complete) == {d for d in hit - missed - read if cache[d].metadata}, (complete, hit, missed, read))
    flattened = ac._make_flattened_dataset_key()
    for o in ops:
        d = o.operation_def
        if isinstance(d, beam_nodes.ApplySavedModel):
            before = [p for p in operations(o.inputs[0].parent_operation.outputs[0]) if isinstance(p.operation_def, beam_nodes.ApplySavedModel)]
            E.check("a phase uses results of earlier phases only", all(p.operation_def.phase < d.phase for p in before), d.label)
    want = {(d, k) for d in keys if d.is_cached for k in used if k not in (cache[d].cache_dict if d in cache else {})}
    have = {(d, k) for d, e in (new_cache or {}).items() for k in e}
    E.check("what was computed and may be cached is written to the cache", have == want, (have, want))
    need = set(agb.get_analysis_dataset_keys(pfn, specs, keys, cache, False))
    E.check("the datasets listed for reading are those not fully cached", need == (set(keys) if flat else read), (need, flat, read))


def analyse_with_cache(pfn, md, data, where, entries, transform):
    """One analysis of the datasets in data (None: not read), with the cache entries
    that entries(dataset, cache key) keeps of those at where; the new ones are
    written there.  -> transformed rows"""
    import apache_beam as beam
    import tensorflow_transform.beam as tft_beam
    from contracts import beamkit
    tmp = scratch()
    try:
        beamkit._SINK.clear()
        with beam.Pipeline() as p, tft_beam.Context(temp_dir=os.path.join(tmp, "t")):
            cache = {}
            for d, c in (p | ac.ReadAnalysisCacheFromFS(where, [k for k in data if k.is_cached])).items():
                cache[d] = ac.DatasetCache({k: v for k, v in c.cache_dict.items() if entries(d, k)}, c.metadata)
            need = tft_beam.analysis_graph_builder.get_analysis_dataset_keys(pfn, md_specs(md), list(data), cache, False)
            pcolls = {d: (p | f"rows {d}" >> beam.Create(rows)) if d in need else None for d, rows in data.items()}
            fn, new = (pcolls, cache, md) | tft_beam.AnalyzeDatasetWithCache(pfn)
            if new:
                _ = new | ac.WriteAnalysisCacheToFS(p, where)
            if transform:
                out, _ = ((p | "to transform" >> beam.Create(transform), md), fn) | tft_beam.TransformDataset()
                out | beam.Map(beamkit._keep, "out")
        return beamkit._SINK.get("out", []), need
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def md_specs(md):
    from tensorflow_transform.tf_metadata import schema_utils
    return {k: tf.TensorSpec([None] + list(v.shape), v.dtype) for k, v in schema_utils.schema_as_feature_spec(md.schema).feature_spec.items()}


def cached_outputs(kinds):
    def pfn(ins):
        x, v, k, out = ins["x"], ins["v"], ins["k"], {"i": ins["i"]}
        for kind in kinds:
            if kind == "scale":
                out[kind] = tft.scale_to_0_1(x)
            elif kind == "z":
                out[kind] = tft.scale_to_z_score(v, elementwise=True)
            elif kind == "sum":
                out[kind] = x + tf.cast(tft.sum(v) + tft.mean(x), tf.float32)
            elif kind == "vocabulary":
                out[kind] = tft.compute_and_apply_vocabulary(k, vocab_filename="words")
            elif kind == "buckets":
                out[kind] = tft.bucketize(x, 3, epsilon=0.001)
            elif kind == "by key":
                out[kind] = tft.scale_to_z_score_per_key(x, k)
            elif kind == "counts":
                keys, n = tft.count_per_key(k)
                out[kind] = tf.reduce_sum(tf.where(k[:, tf.newaxis] == keys[tf.newaxis], n[tf.newaxis], 0), axis=1)
            elif kind == "two phases":
                y = x - tft.mean(x)
                out[kind] = y / (1 + tft.max(tf.abs(y)))
            elif kind == "covariance":
                out[kind] = x + tf.reduce_sum(tft.covariance(v, tf.float32))
        return out
    return pfn


def cached_analysis(E, kinds):
    from contracts import e2e
    from tensorflow_transform.tf_metadata import dataset_metadata

    def draw(r):
        rows = [[{"i": 10 * d + i, "x": float(r.randint(-8, 8)), "v": [float(r.randint(0, 4)), float(r.randint(-3, 3))], "k": r.choice("abcd")} for i in range(r.randint(1, 5))] for d in range(3)]
        return rows, r.sample(kinds, r.randint(2, 3)), [r.random() < 0.9 for _ in range(3)], r.choice([1.0, 1.0, 0.6]), r.randint(0, 2**32), r.choice([[0, 1], [0], [0, 1, 2]])
    rows, kinds, cacheable, density, seed, first = E.gen("data", draw)
    pfn = cached_outputs(kinds)
    spec = {"i": tf.io.FixedLenFeature([], tf.int64), "x": tf.io.FixedLenFeature([], tf.float32), "v": tf.io.FixedLenFeature([2], tf.float32), "k": tf.io.FixedLenFeature([], tf.string)}
    md = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
    import random
    r = random.Random(seed)
    keys = [ac.DatasetKey(n) if c else ac.DatasetKey(n).non_cacheable() for n, c in zip(["a-b", "a", "10"], cacheable)]
    keep = {}
    every = [x for part in rows for x in part]
    base = scratch()
    try:
        # some of the datasets, without a cache; then all of them, with some of the entries
        analyse_with_cache(pfn, md, {keys[i]: rows[i] for i in first}, base, lambda d, k: False, None)
        out, need = analyse_with_cache(pfn, md, dict(zip(keys, rows)), base, lambda d, k: keep.setdefault((d, k), r.random() < density), every)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    want, _ = e2e.analyze_transform(pfn, every, spec)
    by = lambda rs: {int(o["i"]): o for o in rs}
    E.check("every row once", sorted(int(o["i"]) for o in out) == sorted(x["i"] for x in every), (len(out), len(every)))
    for i, a in by(out).items():
        for k in kinds:
            E.check("the values of the analysis without a cache", np.allclose(a[k], by(want)[i][k], rtol=1e-4, atol=1e-5), (kinds, k, a[k], by(want)[i][k], sorted(d.key for d in need)))
    E.cover("some read" if need else "all cached")


def _cached_unit(kinds):
    @unit(P, f"an analysis with a cache gives what the analysis of all data gives ({', '.join(kinds)})", [agb.build, ac.WriteAnalysisCacheToFS.expand, ac.ReadAnalysisCacheFromFS.expand], sym=False,
          conc=12, conc_s=50, weight=3, bounded="3 datasets of up to 5 rows, 2 or 3 analyzers")
    def cached(E):
        cached_analysis(E, list(kinds))


for _kinds in (("scale", "z", "sum"), ("vocabulary", "counts", "by key"), ("buckets", "two phases", "covariance")):
    _cached_unit(_kinds)
