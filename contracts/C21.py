"""C21: the output schema describes exactly the tensors produced."""
import collections
import tempfile

import numpy as np
import tensorflow as tf
from google.protobuf import any_pb2
from tensorflow_metadata.proto.v0 import schema_pb2

from tensorflow_transform import schema_inference as si, common, graph_context, impl_helper, tf2_utils
from tensorflow_transform.beam import impl
from tensorflow_transform.tf_metadata import schema_utils
from pyvc.harness import unit, Raised
from contracts import coderkit as kit

P = "C21"
R, S, F, V = tf.io.RaggedFeature, tf.io.SparseFeature, tf.io.FixedLenFeature, tf.io.VarLenFeature
DT = [tf.string, tf.int64, tf.float32, tf.int32, tf.float64, tf.bool]


# ------------------------------------------------------- one tensor at a time
class Shape:
    """A static shape of known rank with arbitrary sizes."""
    _pyvc_symbolic = True

    def __init__(self, dims): self.dims = dims

    @property
    def ndims(self): return None if self.dims is None else len(self.dims)
    rank = ndims

    def as_list(self): return list(self.dims)
    def __getitem__(self, k): return Shape(self.dims[k]) if isinstance(k, slice) else self.dims[k]
    def __iter__(self): return iter(self.dims)
    def __len__(self): return len(self.dims)


class Like:
    """A tensor of which only the type and the static shape are known."""
    _pyvc_symbolic = True

    def __init__(self, cls, dtype, shape, **more):
        self.cls, self.dtype, self.shape = cls, dtype, shape
        self.__dict__.update(more)

    @property
    def __class__(self): return self.cls or object
    def get_shape(self): return self.shape


class Ragged(collections.namedtuple("Ragged", "dtype value_key partitions row_splits_dtype")):
    """tf.io.RaggedFeature without its type checks."""
    RowLengths, UniformRowLength = R.RowLengths, R.UniformRowLength

    def __new__(cls, dtype, value_key=None, partitions=(), row_splits_dtype=tf.int32, validate=False):
        return tuple.__new__(cls, (dtype, value_key, partitions, row_splits_dtype))


def ragged(E):
    if E.symbolic:
        E.stub(tf.io, "RaggedFeature", Ragged)


def dims(E, name, ranks):
    rank = E.choice(f"{name} rank", ranks)
    if rank is None:
        return None
    return [None if E.choice(f"{name} size {k} known", [True, False]) is False else E.int(f"{name} size {k}", 0) for k in range(rank)]


def tensor(E, name, ranks=(None, 0, 1, 2, 3, 4)):
    """(the tensor, kind, dtype, its sizes)"""
    kind = E.choice(f"{name} kind", ["dense", "sparse", "ragged", "other"])
    dt = E.choice(f"{name} dtype", DT)
    if kind == "dense":
        d = dims(E, name, ranks)
        return Like(tf.Tensor, dt, Shape(d)), kind, dt, d
    if kind == "sparse":
        d = dims(E, name, [k for k in ranks if k and k > 1])
        return Like(tf.SparseTensor, dt, Shape(d)), kind, dt, d
    if kind == "ragged":
        d = dims(E, name, [k for k in ranks if k])
        if len(d) == 4:               # many more axes
            d += [None, E.int(f"{name} size 5", 0), None][:E.choice(f"{name} more", [0, 3])]
        rows = Like(tf.Tensor, E.choice(f"{name} splits", [tf.int32, tf.int64]), Shape([None]))
        return Like(tf.RaggedTensor, dt, Shape([None, None] + d[1:]), values=Like(tf.Tensor, dt, Shape(d)), row_splits=rows), kind, dt, d
    return Like(None, dt, Shape([None])), kind, dt, None


def same_sizes(E, got, want):
    """The sizes of a static shape, in order."""
    got = list(got)
    if len(got) != len(want):
        return False
    return E.And(*[(g is None) == (w is None) and (w is None or E.eq(g, w)) for g, w in zip(got, want)])


def described(E, name, spec, kind, dt, d, forced, splits=tf.int64):
    if kind == "dense":
        E.check("a dense tensor has a fixed length", isinstance(spec, F), str(type(spec)))
        if not isinstance(spec, F):
            return
        E.check("the shape without the batch", same_sizes(E, spec.shape, d[1:]))
        E.check("always present", spec.default_value is None)
    elif kind == "sparse" and (forced or len(d) > 2):
        E.check("a sparse tensor stays sparse", isinstance(spec, S), str(type(spec)))
        if not isinstance(spec, S):
            return
        E.check("one column per axis", len(spec.index_key) == len(d) - 1)
        for k, c in enumerate(spec.index_key):
            E.check("the index columns are named after it", E.eq(c, name + f"$sparse_indices_{k}"))
        E.check("so is the value column", E.eq(spec.value_key, name + "$sparse_values"))
        E.check("the sizes without the batch", same_sizes(E, spec.size, d[1:]))
        E.check("sorted", spec.already_sorted is True)
    elif kind == "sparse":
        E.check("a matrix has a variable length", isinstance(spec, V), str(type(spec)))
    else:
        E.check("a ragged tensor stays ragged", isinstance(spec, (R, Ragged)), str(type(spec)))
        if not isinstance(spec, (R, Ragged)):
            return
        E.check("the value column", E.eq(spec.value_key, name + "$ragged_values"))
        E.check("row splits of the same type", spec.row_splits_dtype == splits)
        E.check("a partition per inner axis", len(spec.partitions) == len(d) - 1)
        k = 0
        for got, want in zip(spec.partitions, d[1:]):
            if want is None:
                k += 1
                E.check("row lengths where the size varies", isinstance(got, R.RowLengths) and E.eq(got.key, name + f"$row_lengths_{k}"))
            else:
                E.check("the size where it is fixed", isinstance(got, R.UniformRowLength) and E.eq(got.length, want))
    E.check("the dtype", spec.dtype == dt)


def fits(kind, dt, d, complete):
    if dt not in (tf.string, tf.int64, tf.float32) or kind == "other":
        return False
    if kind == "dense":
        return bool(d) and not (complete and any(x is None for x in d[1:]))
    return True


@unit(P, "a tensor is described exactly or rejected", [si._feature_spec_from_batched_tensors, si._ragged_feature_spec_from_batched_tensor], conc=400, max_paths=20000, max_s=120)
def one(E):
    ragged(E)
    name = E.str("name")
    t, kind, dt, d = tensor(E, "x")
    complete = E.choice("complete", [True, False])
    forced = kind == "sparse" and E.choice("forced", [True, False])
    E.assume(E.Not(E.eq(name, "other")))
    out = E.attempt(lambda: E.call(si._feature_spec_from_batched_tensors, {name: t}, complete, [name] if forced else ["other"]))
    ok = fits(kind, dt, d, complete)
    if isinstance(out, Raised):
        E.check("rejected only if it cannot be described", not ok, out)
        E.check("by the error documented", isinstance(out.exc, (ValueError, TypeError)))
        return
    E.check("what cannot be described is rejected", ok)
    if not ok:
        return
    E.check("one feature", len(out) == 1 and isinstance(out, dict))
    (got, spec), = E.items(out)
    E.check("named as the tensor", E.eq(got, name))
    described(E, name, spec, kind, dt, d, forced, t.row_splits.dtype if kind == "ragged" else None)


@unit(P, "each tensor has its own feature", [si._feature_spec_from_batched_tensors, si._ragged_feature_spec_from_batched_tensor], conc=400, max_paths=20000, max_s=120,
      bounded="two tensors of rank 1 and 2, of accepted types")
def several(E):
    ragged(E)
    names = [E.str(f"name {k}") for k in range(2)]
    for i in range(2):
        for j in range(i):
            E.assume(E.Not(E.eq(names[i], names[j])))
    parts = []
    for k in range(2):
        kind = E.choice(f"kind {k}", ["dense", "sparse", "ragged"])
        d = [None] + [E.int(f"size {k} {j}", 0) for j in range(E.choice(f"rank {k}", [1, 2]))]
        dt = [tf.string, tf.int64][k]
        t = Like({"dense": tf.Tensor, "sparse": tf.SparseTensor, "ragged": tf.RaggedTensor}[kind], dt, Shape(d), values=Like(tf.Tensor, dt, Shape(d)), row_splits=Like(tf.Tensor, tf.int64, Shape([None])))
        parts.append((t, kind, dt, d))
    forced = E.choice("forced", [None, 0, 1])
    out = E.call(si._feature_spec_from_batched_tensors, {n: p[0] for n, p in zip(names, parts)}, True, [n for k, n in enumerate(names) if k == forced])
    E.check("a feature each", len(out) == 2)
    for k, ((got, spec), n, (t, kind, dt, d)) in enumerate(zip(E.items(out), names, parts)):
        E.check("named as the tensor", E.eq(got, n))
        described(E, n, spec, kind, dt, d, kind == "sparse" and k == forced)


# ----------------------------------------------------------- annotated shapes
@unit(P, "an annotated shape replaces the sizes of its sparse feature", [si._override_sparse_feature_annotated_shapes], conc=200)
def shapes(E):
    name, other = E.str("name"), E.str("other name")
    E.assume(E.Not(E.eq(name, other)))
    kind = E.choice("kind", ["sparse", "varlen", "fixed", "absent"])
    rank = E.choice("rank", [1, 2, 3])
    old, new = [[E.int(f"{w} size {k}", 0) for k in range(rank)] for w in ("old", "new")]
    dt = E.choice("dtype", DT[:3])
    flag = E.choice("annotation", ["shape", "bytes", "str"])
    note = new if flag == "shape" else [b""] if flag == "bytes" else [""]
    keys, value = [E.str(f"index {k}") for k in range(rank)], E.str("value column")
    mine = {"sparse": lambda: S(keys, value, dt, old, True), "varlen": lambda: V(dt), "fixed": lambda: F(old, dt), "absent": lambda: None}[kind]()
    theirs = S([E.str("their index")], E.str("their values"), tf.int64, [E.int("their size", 0)], True)
    specs = {other: theirs}
    if mine is not None:
        specs[name] = mine
    if E.symbolic:
        E.stub(si.tf, "TensorShape", Shape)
    out = E.attempt(lambda: E.call(si._override_sparse_feature_annotated_shapes, specs, {name: note}))
    if isinstance(out, Raised):
        E.check("only a feature that is absent is rejected", kind == "absent" and isinstance(out.exc, ValueError), out)
        return
    E.check("a feature that is absent is rejected", kind != "absent")
    E.check("others are untouched", specs[other] is theirs and len(specs) == 2)
    if kind == "absent":
        return
    got = specs[name]
    E.check("same kind and type", type(got) is type(mine) and got.dtype == dt)
    if kind == "sparse":
        E.check("same columns", E.And(len(got.index_key) == rank, *[E.eq(a, b) for a, b in zip(got.index_key, keys)], E.eq(got.value_key, value)))
        E.check("still sorted", got.already_sorted is True)
        E.check("sizes as annotated, if any", same_sizes(E, [getattr(x, "value", x) for x in got.size], new if flag == "shape" else old))
    else:
        E.check("not changed", got is mine)


# -------------------------------------------- overrides recorded by the program
class Named:
    """A tensor known by its name."""
    _pyvc_symbolic = True

    def __init__(self, name, dtype, **more): 
        self.name, self.dtype = name, dtype
        self.__dict__.update(more)

    @property
    def __class__(self): return tf.Tensor


class Collections:
    """The collections of a graph."""
    def __init__(self, **c): self.c = c
    def get_collection(self, k): return list(self.c.get(k, []))


def features_of(E, plain):
    """Three tensors of distinct names and the features they are returned as."""
    n = ["x:0", "scope/y:0", "x_1:0"] if plain else [E.str(f"tensor {k}") for k in range(3)]
    for i in range(3):
        for j in range(i):
            E.assume(E.Not(E.eq(n[i], n[j])))
    keys = ["p", "q", "r"]
    to = [E.choice(f"feature {k}", [None, 0, 1]) for k in keys]
    return n, {k: Named(n[i], tf.int64) for k, i in zip(keys, to) if i is not None}, {k: i for k, i in zip(keys, to) if i is not None}


@unit(P, "overrides reach every feature of their tensor and no other", [si._get_schema_overrides], conc=300,
      max_paths=20000, max_s=60, bounded="two overrides, three tensors, three features")
def overrides(E):
    if not hasattr(si, "_get_tensor_value_to_keys_map"):
        return
    sentinel = E.choice("with a default", [None, "unused_sentinel"])
    n, features, owner = features_of(E, sentinel is not None)
    at = [E.choice(f"override {k}", [0, 1, 2] + (["default"] if sentinel else [])) for k in range(E.choice("overrides", [0, 1, 2]))]
    tensors = [Named(sentinel + ":0", tf.string) if i == "default" else Named(n[i], tf.int64) for i in at]
    lo, hi = [E.int(f"low {k}") for k in range(len(at))], [E.int(f"high {k}") for k in range(len(at))]
    g = Collections(t=tensors, lo=lo, hi=hi)
    m = E.call(si._get_tensor_value_to_keys_map, features)
    got = E.call(si._get_schema_overrides, g, m, "t", ["lo", "hi"], sentinel)
    want = [(f, lo[k], hi[k]) for k, i in enumerate(at) for f in ([sentinel] if i == "default" else [f for f, o in owner.items() if o == i])]
    rows = list(zip(got["t"], got["lo"], got["hi"])) if want else []
    E.check("as many entries in each list", len(got["t"]) == len(got["lo"]) == len(got["hi"]) == len(want), (got, want))
    for (f, a, b), (wf, wa, wb) in zip(rows, want):
        E.check("each override with its own range, in order", E.And(f == wf, E.eq(a, wa), E.eq(b, wb)))


class Handle:
    """The reference of a tensor."""
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Handle) and self.name == o.name
    def __hash__(self): return hash(self.name)
    def __deepcopy__(self, memo): return self


@unit(P, "in graph mode ranges reach every feature of their tensor and no other", [si.infer_feature_schema, si._get_tensor_ranges], conc=200, max_paths=20000, max_s=60,
      bounded="two ranges, three tensors, three features")
def graph_ranges(E):
    keys = ["p", "q", "r"]
    refs = [Handle(k) for k in range(3)]
    kinds = [E.choice(f"kind {k}", ["dense", "sparse", "ragged"]) for k in range(2)] + ["dense"]
    values = [Named(f"t{k}", tf.int64, ref=lambda k=k: refs[k]) for k in range(3)]
    for v in values:
        v.ref._pyvc_native = True
    whole = [v if kind == "dense" else Like(tf.SparseTensor, tf.int64, None, values=v) if kind == "sparse" else Like(tf.RaggedTensor, tf.int64, None, flat_values=v) for v, kind in zip(values, kinds)]
    owner = {k: i for k in keys if (i := E.choice(f"feature {k}", [None, 0, 1, 2])) is not None}
    at = {0: [], 1: [0], 2: [1, 0]}[E.choice("ranges", [0, 1, 2])]
    lo, hi = [E.int(f"low {k}") for k in range(3)], [E.int(f"high {k}") for k in range(3)]
    g = Collections(**{si._TF_METADATA_TENSOR_COLLECTION: [values[i] for i in at], si._TF_METADATA_TENSOR_MIN_COLLECTION: [lo[i] for i in at], si._TF_METADATA_TENSOR_MAX_COLLECTION: [hi[i] for i in at]})
    done = E.choice("evaluated", [True, False])
    session = type("Session", (), {"_pyvc_symbolic": True, "run": lambda self, x: x})() if done else None
    seen = []

    def common_(features, tensor_ranges, feature_annotations, global_annotations, sparse_output_annotations, is_evaluation_complete):
        seen.append((dict(tensor_ranges), is_evaluation_complete, dict(features)))
        return "schema"
    common_._pyvc_native = True
    E.stub(si, "_infer_feature_schema_common", common_)
    features = {k: whole[i] for k, i in owner.items()}
    got = E.call(si.infer_feature_schema, features, g, session)
    E.check("described once", got == "schema" and len(seen) == 1)
    ranges, complete, described_ = seen[0]
    E.check("complete exactly if evaluated", complete is done)
    E.check("all tensors are described", list(described_) == list(features) and all(described_[k] is features[k] for k in features))
    E.check("a range exactly for the features of its tensors", set(ranges) == {k for k, i in owner.items() if i in at}, (ranges, owner, at))
    for k, (a, b) in ranges.items():
        i = owner.get(k)
        if i in at and done:
            E.check("the range of its tensor", E.And(E.eq(a, lo[i]), E.eq(b, hi[i])))
        elif i in at:
            E.check("not known before analysis", a is None and b is None)


@unit(P, "a range is only recorded for what can have one", [si.set_tensor_schema_override], conc=60)
def recorded(E):
    kinds = ["dense", "sparse", "number"]
    what, lo, hi = (E.choice(w, kinds) for w in ("tensor", "low", "high"))
    dt = E.choice("dtype", [tf.int64, tf.int32, tf.float32, tf.string])
    mk = lambda kind, dt: 3 if kind == "number" else Like(tf.Tensor if kind == "dense" else tf.SparseTensor, dt, Shape([None]))
    t, a, b = mk(what, dt), mk(lo, tf.int64), mk(hi, tf.int64)
    put = []

    def add(key, x): put.append((key, x))
    add._pyvc_native = True
    E.stub(tf.compat.v1, "add_to_collection", add)
    out = E.attempt(lambda: E.call(si.set_tensor_schema_override, t, a, b))
    ok = what == lo == hi == "dense" and dt == tf.int64
    if isinstance(out, Raised):
        E.check("rejected by a ValueError only if it cannot have a range", not ok and isinstance(out.exc, ValueError), out)
        E.check("nothing is recorded", not put)
        return
    E.check("what cannot have a range is rejected", ok)
    for key, x in ((si._TF_METADATA_TENSOR_COLLECTION, t), (si._TF_METADATA_TENSOR_MIN_COLLECTION, a), (si._TF_METADATA_TENSOR_MAX_COLLECTION, b)):
        E.check("tensor, low and high end are recorded", [y is x for k, y in put if k == key] == [True], put)


class Any:
    """any_pb2.Any"""
    _pyvc_symbolic = True
    def __init__(self, type_url=None, value=None): self.type_url, self.value = type_url, value
    def __eq__(self, o): return isinstance(o, Any) and self.__dict__ == o.__dict__
    __hash__ = None


@unit(P, "annotations are kept with what they annotate", [si._get_schema_annotations_common], conc=200, bounded="three annotations")
def annotations(E):
    mine = [E.choice(f"key {k}", ["global", "a", "b", "ref"]) for k in range(E.choice("annotations", [0, 1, 2, 3]))]
    ref = Handle("ref")
    keys = [si._TF_METADATA_EXTRA_ANNOTATION_GLOBAL if k == "global" else ref if k == "ref" else k for k in mine]
    urls, values = [E.str(f"type {k}") for k in range(len(mine))], [E.str(f"value {k}") for k in range(len(mine))]
    available = E.choice("available", [True, False])
    E.stub(common, "IS_ANNOTATIONS_PB_AVAILABLE", available)
    E.stub(si, "any_pb2", type("Pb", (), {"Any": Any}))
    by_tensor, everywhere = E.call(si._get_schema_annotations_common, keys, urls, values)
    for key in ("global", "a", "b", "ref"):
        got = everywhere if key == "global" else list(by_tensor.get(ref if key == "ref" else key, []))
        want = [k for k, m in enumerate(mine) if m == key] if available else []
        E.check("as many as recorded", len(got) == len(want), (key, mine))
        for g, k in zip(got, want):
            E.check("type and value, in order", E.And(E.eq(g.type_url, urls[k]), E.eq(g.value, values[k])))


# ------------------------------------------------------------- whole inference
INPUTS = {"d": tf.TensorSpec([None], tf.int64), "m": tf.TensorSpec([None, 3], tf.float32), "n": tf.TensorSpec([None, 2, 1], tf.int64), "t": tf.TensorSpec([None, 2], tf.string),
          "s": tf.SparseTensorSpec([None, None], tf.int64), "s3": tf.SparseTensorSpec([None, 5, 7], tf.float32), "i3": tf.SparseTensorSpec([None, 4, 6], tf.int64),
          "r": tf.RaggedTensorSpec([None, None], tf.int64), "r2": tf.RaggedTensorSpec([None, None, 2], tf.string, ragged_rank=1), "r3": tf.RaggedTensorSpec([None, None, None], tf.int64),
          "u": tf.TensorSpec([None, None], tf.int64), "w": tf.TensorSpec([None], tf.int32), "z": tf.TensorSpec([], tf.int64)}


def draw_program(r):
    names = r.sample(["x", "y", "a b", "value", "\u00e9", "X", "f/g", "a.b", "c$d"], r.randint(1, 6))
    bad = r.random() < 0.25
    pool = [r.choice(["d", "m", "n", "t", "s", "s3", "i3", "r", "r2", "r3"]) for _ in range(r.randint(1, 4))]
    if bad:
        pool[r.randrange(len(pool))] = r.choice("uwz")
    notes = [(r.choice([None] + list(range(len(pool)))), f"type {k}", f"value {k}") for k in range(r.choice([0, 0, 1, 2, 3]))]
    ints = [k for k, p in enumerate(pool) if INPUTS[p].dtype == tf.int64 and p != "z"]
    ranges = {k: (r.randint(-9, 3), r.choice([3, 7, 2 ** 40, -20])) for k in r.sample(ints, r.randint(0, len(ints)))}
    kept = [k for k, p in enumerate(pool) if p in ("s", "s3", "i3")]
    forced = {k: r.choice(["sparse", [r.randint(7, 9) for _ in range(1 if pool[k] == "s" else 2)]]) for k in r.sample(kept, r.randint(0, len(kept)))}
    return {n: r.randrange(len(pool)) for n in names}, pool, ranges, notes, forced, r.choice([True, True, False]), r.choice([True, False])


def infer(program):
    owner, pool, ranges, notes, forced, evaluate, v1 = program

    def fn(x):
        made = [tf.nest.map_structure(tf.identity, x[p], expand_composites=True) for p in pool]
        for k, (lo, hi) in ranges.items():
            si.set_tensor_schema_override(si._get_tensor_values(made[k]), tf.constant(lo, tf.int64) + 1, tf.constant(hi, tf.int64) + 2)
        for k, url, value in notes:
            si.annotate(url, tf.constant(value), tensor=None if k is None else made[k] if pool[k][0] in "si" and k % 2 else si._get_tensor_values(made[k]))
        for k, a in forced.items():
            (si.annotate_true_sparse_output(made[k]) if a == "sparse" else si.annotate_sparse_output_shape(made[k], tf.constant(a, tf.int64)))
        return {n: made[k] for n, k in owner.items()}
    if v1:
        with tf.compat.v1.Graph().as_default() as g:
            ins = {k: tf.nest.map_structure(lambda t: tf.raw_ops.Placeholder(dtype=t.dtype, shape=t.shape), s, expand_composites=True) for k, s in INPUTS.items() if k[0] not in "sri"}
            for k, s in INPUTS.items():
                if k[0] in "si":
                    ins[k] = tf.compat.v1.sparse_placeholder(s.dtype, s.shape)
                elif k[0] == "r":
                    ins[k] = tf.compat.v1.ragged.placeholder(s.dtype, s.ragged_rank, s.shape[s.ragged_rank + 1:])
            out = fn(ins)
            if evaluate:
                with tf.compat.v1.Session(graph=g) as s:
                    return si.infer_feature_schema(out, g, s)
            return si.infer_feature_schema(out, g)
    f = tf.function(fn, input_signature=[INPUTS], autograph=False).get_concrete_function()
    with f.graph.as_default():
        out = tf.nest.pack_sequence_as(f.structured_outputs, f.outputs, expand_composites=True)
        given = tf2_utils.get_structured_inputs_from_func_graph(f.graph)
    with tempfile.TemporaryDirectory() as d:
        ctx = graph_context.TFGraphContext(module_to_export=tf.Module(), temp_dir=d, evaluated_replacements={})
        mf = si.get_traced_metadata_fn(fn, given, ctx, evaluate_schema_overrides=evaluate)
        return si.infer_feature_schema_v2(out, mf, evaluate)


def expected(name, p, flag):
    dt, dims = INPUTS[p].dtype, INPUTS[p].shape.as_list()[1:]
    if p[0] in "si":
        if flag is None and len(dims) < 2:
            return V(dt), name
        return S([f"{name}$sparse_indices_{k}" for k in range(len(dims))], f"{name}$sparse_values", dt, flag if isinstance(flag, list) else [-1 if d is None else d for d in dims], True), f"{name}$sparse_values"
    if p[0] == "r":
        parts = {"r": [], "r2": [R.UniformRowLength(2)], "r3": [R.RowLengths(f"{name}$row_lengths_1")]}[p]
        return R(dt, f"{name}$ragged_values", parts, tf.int64), f"{name}$ragged_values"
    return F(dims, dt), name


@unit(P, "the schema is the description of the outputs", [si.infer_feature_schema, si.infer_feature_schema_v2, si._infer_feature_schema_common, si.get_traced_metadata_fn, si._get_sparse_output_annotations], sym=False, conc=150, conc_s=16,
      bounded="programs of up to 6 outputs of 10 kinds")
def whole(E):
    program = E.gen("program", draw_program)
    owner, pool, ranges, notes, forced, evaluate, v1 = program
    E.stub(common, "IS_ANNOTATIONS_PB_AVAILABLE", True)
    out = E.attempt(lambda: infer(program))
    used = {k for k in owner.values()}
    bad = any(pool[k] in "wz" or pool[k] == "u" and evaluate for k in used)
    if isinstance(out, Raised):
        E.check("rejected only if some output cannot be described", bad and isinstance(out.exc, ValueError), (out, program))
        return
    E.check("outputs that cannot be described are rejected", not bad, program)
    want = {n: expected(n, pool[k], forced.get(k) if evaluate else None) for n, k in owner.items()}
    got = schema_utils.schema_as_feature_spec(out).feature_spec
    E.check("one feature per output", set(got) == set(owner), (sorted(got), sorted(owner)))
    for n, (spec, _) in want.items():
        if n in got and pool[owner[n]] != "u":
            E.check("dtype, shape and representation", type(got[n]) is type(spec) and (got[n] == spec if not isinstance(spec, S) else got[n]._replace(size=list(got[n].size)) == spec), (got[n], spec, program))
    columns = {c: n for n, (_, c) in want.items()}
    for f in out.feature:
        n = columns.get(f.name)
        k = owner.get(n)
        if n is None:
            E.check("other columns carry no annotations", not f.annotation.extra_metadata, (f, program))
            continue
        E.check("a range exactly if one was recorded", f.HasField("int_domain") == (k in ranges), (f, program))
        if k in ranges:
            dom = f.int_domain
            E.check("the evaluated range", (dom.min, dom.max) == (ranges[k][0] + 1, ranges[k][1] + 2) if evaluate else not dom.HasField("min") and not dom.HasField("max"), (f, program))
            E.check("categorical", dom.is_categorical)
        mine = [(u, v.encode()) for j, u, v in notes if j == k] if evaluate else []
        E.check("the annotations recorded for it, in order", [(a.type_url, a.value) for a in f.annotation.extra_metadata] == mine, (f, program))
    E.check("annotations of the whole", [(a.type_url, a.value) for a in out.annotation.extra_metadata] == ([(u, v.encode()) for j, u, v in notes if j is None] if evaluate else []), (out, program))
    E.cover("evaluated" if evaluate else "not evaluated")


def parsed(spec, examples):
    """Serialized examples, parsed with the specification -> comparable columns."""
    from contracts import C23
    got = tf.io.parse_example(tf.constant(examples), spec)
    return {k: C23.dense(v) for k, v in got.items()}


@unit(P, "the data of a pipeline, the metadata written for it and its encoded form agree", [schema_utils.schema_as_feature_spec, impl._remove_columns_from_metadata, impl_helper.analyze_in_place], sym=False,
      conc=8, conc_s=30, weight=2, bounded="programs of up to 5 outputs of 15 kinds, up to 6 rows")
def written(E):
    import os
    import shutil
    import apache_beam as beam
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.tf_metadata import dataset_metadata, metadata_io
    from contracts import C23, beamkit, e2e
    steps, rows, drop, batches, plain, v1 = E.gen("program", lambda r: (C23.draw_program(r), [C23.draw_row(r) for _ in range(r.randint(1, 6))], r.random(), r.random() < 0.5, r.random() < 0.4, r.random() < 0.3))
    if plain:
        steps = [(("hash", "table", "copy")[i % 3], p, q) for i, (_, p, q) in enumerate(steps)]
    names = [f"out {k}" for k in range(len(steps))]
    gone = [n for i, n in enumerate(names) if int(drop * 2 ** (i + 1)) % 2 and len(names) > 1 and i] or None
    md = dataset_metadata.DatasetMetadata.from_feature_spec(C23.SPEC)
    where = e2e.scratch()
    try:
        beamkit._SINK.clear()
        with beam.Pipeline() as p, tft_beam.Context(temp_dir=os.path.join(where, "tmp"), force_tf_compat_v1=v1):
            fn = (p | "rows" >> beam.Create(rows), md) | tft_beam.AnalyzeDataset(C23.pfn(steps))
            _ = fn | tft_beam.WriteTransformFn(os.path.join(where, "out"))
            result = ((p | "test" >> beam.Create([rows]) | beam.FlatMap(list), md), fn) | tft_beam.TransformDataset(exclude_outputs=gone, output_record_batches=batches)
            _ = result[0] | beam.Map(beamkit._keep, "rows")
            _ = result | tft_beam.EncodeTransformedDataset() | "keep examples" >> beam.Map(beamkit._keep, "examples")
            _ = result[1] | tft_beam.WriteMetadata(os.path.join(where, "less"), p)
        got, examples = beamkit._SINK.get("rows", []), beamkit._SINK.get("examples", [])
        out = tft.TFTransformOutput(os.path.join(where, "out"))
        full = out.transformed_feature_spec()
        E.check("every output is described", sorted(full) == names, (sorted(full), names))
        less = metadata_io.read_metadata(os.path.join(where, "less")).schema
        spec, domains = schema_utils.schema_as_feature_spec(less)
        kept = [n for n in names if n not in (gone or [])]
        E.check("the outputs asked for are described as before", dict(spec) == {n: full[n] for n in kept}, (spec, full, gone))
        E.check("with their ranges", dict(domains) == {n: d for n, d in out.transformed_domains().items() if n in kept}, (domains, gone))
        if batches:
            got = [dict(zip(b.schema.names, vs)) for b, _ in got for vs in zip(*[c.to_pylist() for c in b.columns])]
        have = {c for row in got for c in row}
        E.check("columns only of the outputs asked for", len(got) == len(rows) and all(any(c == n or c.startswith(n + "$") for n in kept) for c in have), (sorted(have), kept))
        # what was encoded parses, with the specification, into what the transform computes
        E.check("an example of every row", len(examples) == len(rows))
        layer = {k: C23.dense(v) for k, v in out.transform_features_layer()(C23.feed(rows)).items()}

        def lists(v):
            """Values by row, in a form that does not depend on the padding."""
            if v[0] == "sparse":
                return sorted((tuple(i), x) for i, x in zip(v[1], v[2]))
            return v[1]
        back = parsed(spec, examples)
        order = range(len(rows))
        E.check("the encoded outputs are those asked for", sorted(back) == kept)
        for n in kept:
            a, b = lists(back[n]), lists(layer[n])
            if isinstance(a, list) and a and isinstance(a[0], tuple):
                same = len(a) == len(b) and all(i == j and C23.close(x, y) for (i, x), (j, y) in zip(a, b))
            else:
                same = C23.close(a, b)
            E.check("what was encoded is what the transform computes", same, (n, steps, a, b))
            values = [x for _, x in a] if back[n][0] == "sparse" else [x for x in np.asarray(a, dtype=object).reshape(-1)] if back[n][0] == "dense" else None
            dom = domains.get(n)
            if isinstance(dom, schema_pb2.IntDomain) and values is not None:
                E.check("values lie in the range described", all(dom.min <= x <= dom.max for x in values), (n, steps, dom, values))
            size = E.attempt(out.num_buckets_for_transformed_feature, n)
            if isinstance(dom, schema_pb2.IntDomain) and dom.min == 0:
                E.check("the number of buckets is the size of the range", size == dom.max + 1, (n, dom))
            else:
                E.check("only integers from zero on have a number of buckets", isinstance(size, Raised) and isinstance(size.exc, ValueError), (n, str(dom)))
        if plain:
            there = os.path.join(where, "in place")
            read = {k: f for k, f in C23.SPEC.items() if k != "r"}        # TF1 has no placeholders for ragged features
            impl_helper.analyze_in_place(C23.pfn(steps), v1, read, impl_helper.get_type_specs_from_feature_specs(read), there)
            E.check("described alike without looking at the data", tft.TFTransformOutput(there).transformed_feature_spec() == full and tft.TFTransformOutput(there).transformed_domains() == out.transformed_domains())
            alike = {k: C23.dense(v) for k, v in tft.TFTransformOutput(there).transform_features_layer()(C23.feed(rows, read)).items()}
            E.check("and computed alike", sorted(alike) == names and all(C23.close(lists(alike[n]), lists(layer[n])) for n in names), (alike, layer))
    finally:
        shutil.rmtree(where, ignore_errors=True)
    E.cover("encoded")
