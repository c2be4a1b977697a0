"""C14: feature specifications and metadata survive the schema round trip."""
import collections
import os
import tempfile

import numpy as np
import tensorflow as tf
from tensorflow_metadata.proto.v0 import schema_pb2, path_pb2
from tfx_bsl.tfxio import tensor_representation_util as tru

from tensorflow_transform.tf_metadata import dataset_metadata, metadata_io, schema_utils
from pyvc.harness import unit, Raised
from contracts import coderkit as kit


P = "C14"
PB = schema_pb2
R, S, F, V = tf.io.RaggedFeature, tf.io.SparseFeature, tf.io.FixedLenFeature, tf.io.VarLenFeature
KIND = {tf.int64: PB.INT, tf.float32: PB.FLOAT, tf.string: PB.BYTES}


# ------------------------------------------ one feature at a time, in the proof
class Message:
    """A proto message under its contract: the fields given, in turn."""
    _pyvc_symbolic = True

    def __init__(self, **fields):
        for k, v in fields.items():
            if v is not None:
                setattr(self, k, v)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        m = Message()
        object.__setattr__(self, k, m)
        return m

    def CopyFrom(self, other): self.__dict__ = dict(other.__dict__)

    def has(self): return sorted(self.__dict__)


class Parts(Message):
    """A message with a repeated field."""
    def __init__(self, **fields):
        super().__init__(**fields)
        self.partition = []

    Partition = Message


class Representation(Message):
    RaggedTensor = Parts


class Sparse(Message):
    IndexFeature = Message
    ValueFeature = Message


class Fixed(Message):
    Dim = Message


class Proto:
    """schema_pb2 with messages under contract."""
    INT, FLOAT, BYTES, STRUCT = PB.INT, PB.FLOAT, PB.BYTES, PB.STRUCT
    Feature = FeaturePresence = Message
    FixedShape, SparseFeature, TensorRepresentation = Fixed, Sparse, Representation

    class IntDomain(Message): pass
    class FloatDomain(Message): pass
    class StringDomain(Message): pass


class Paths: Path = Message


DOMAINS = {"int": Proto.IntDomain, "float": Proto.FloatDomain, "string": Proto.StringDomain}


def proto(E):
    E.stub(schema_utils, "schema_pb2", Proto)
    E.stub(schema_utils, "path_pb2", Paths)


def domain_of(E, domains, name):
    kind = E.choice("range", [None, "int", "float", "string", "other"])
    if kind is None:
        return None, None
    d = DOMAINS[kind](low=E.real("low")) if kind != "other" else object()
    domains[name] = d
    return kind, d


def check_value(E, f, dt, kind, d):
    E.check("the type of the values", f.type == KIND[dt])
    for k in DOMAINS:
        got = f.__dict__.get(k + "_domain")
        E.check(f"{k} range exactly if given", (got is not None) == (k == kind), f.has())
        if got is not None and k == kind:
            E.check("the range is the one given", E.eq(got.low, d.low))


DT = [tf.int64, tf.float32, tf.string, tf.int32, tf.float64]


@unit(P, "a fixed or variable length feature is described exactly", [schema_utils._feature_from_feature_spec, schema_utils._set_type, schema_utils._set_domain], conc=150)
def plain(E):
    proto(E)
    name, dt = E.str("name"), E.choice("dtype", DT)
    fixed = E.choice("fixed", [True, False])
    domains = {}
    kind, d = domain_of(E, domains, name)
    if fixed:
        default = E.choice("default", [None, 0, "x"])
        shape = E.seq("shape", lambda e: e.int("size", 0))
        spec = tuple.__new__(F, (shape, dt, default))
    else:
        default, shape = None, None
        spec = V(dt)
    f = E.attempt(lambda: E.call(schema_utils._feature_from_feature_spec, spec, name, domains))
    fits = default is None and dt in KIND and kind != "other"
    if isinstance(f, Raised):
        E.check("rejected only if it cannot be represented", not fits, f)
        E.check("by a ValueError", isinstance(f.exc, ValueError))
        return
    E.check("what cannot be represented is rejected", fits, (dt, default, kind))
    E.check("the name", E.eq(f.name, name))
    check_value(E, f, dt, kind, d)
    E.check("a shape exactly for a fixed length", ("shape" in f.has()) == fixed)
    if fixed:
        E.check("always present", f.presence.min_fraction == 1.0)
        dims = f.shape.dim
        E.check("the rank", E.eq(E.call(len, dims), E.call(len, shape)))
        i = E.int("axis", 0)
        E.assume(E.Not(E.le(E.call(len, shape), i)))
        E.check("the size of each axis", E.eq(E.item(dims, i).size, E.item(shape, i)))
    else:
        E.check("not required", "presence" not in f.has() and "value_count" not in f.has())


@unit(P, "a sparse feature is described exactly", [schema_utils._sparse_feature_from_feature_spec, schema_utils._set_type, schema_utils._set_domain], conc=150)
def sparse(E):
    proto(E)
    name, dt = E.str("name"), E.choice("dtype", DT)
    rank = E.choice("rank", ["one", 1, 2, 3, 0])
    value, is_sorted = E.str("value column"), E.choice("sorted", [True, False])
    keys = [E.str(f"index {k}") for k in range(1 if rank == "one" else rank)]
    sizes = [E.int(f"size {k}", -1) for k in range(len(keys))]
    spec = collections.namedtuple("Spec", "index_key value_key dtype size already_sorted")(
        keys[0] if rank == "one" else keys, value, dt, sizes[0] if rank == "one" else sizes, is_sorted)
    domains = {}
    kind, d = domain_of(E, domains, name)
    out = E.attempt(lambda: E.call(schema_utils._sparse_feature_from_feature_spec, spec, name, domains))
    fits = dt in KIND and kind != "other"
    if isinstance(out, Raised):
        E.check("rejected only if it cannot be represented", not fits, out)
        return
    E.check("what cannot be represented is rejected", fits)
    index, val, ref = out
    E.check("one column per axis and one for the values", len(index) == len(keys) and len(ref.index_feature) == len(keys))
    for k, n, f, g in zip(keys, sizes, index, ref.index_feature):
        E.check("index columns in order", E.And(E.eq(f.name, k), E.eq(g.name, k)))
        E.check("integer indices", f.type == PB.INT)
        if "int_domain" not in f.has():
            E.check("no size only if the size is unknown", E.eq(n, -1))
        else:
            E.check("the size of the axis", E.And(E.eq(f.int_domain.min, 0), E.eq(f.int_domain.max, n - 1)))
    E.check("the value column", E.And(E.eq(val.name, value), E.eq(ref.value_feature.name, value), E.eq(ref.name, name)))
    check_value(E, val, dt, kind, d)
    E.check("sorted exactly if declared", ("is_sorted" in ref.has()) == is_sorted)


@unit(P, "a ragged feature is described exactly", [schema_utils._ragged_tensor_representation_from_feature_spec, schema_utils._set_type, schema_utils._set_domain], conc=150)
def ragged(E):
    proto(E)
    name, dt = E.str("name"), E.choice("dtype", DT)
    value = E.str("value column") if E.choice("own column", [True, False]) else None
    parts = []
    for k, a in enumerate(E.choice("partitions", ["", "r", "u", "ru", "rru", "ur", "x", "rx"])):
        parts.append(R.RowLengths(E.str(f"lengths {k}")) if a == "r" else R.UniformRowLength(E.int(f"length {k}", 0)) if a == "u" else R.RowSplits("s"))
    spec = collections.namedtuple("Spec", "dtype value_key partitions")(dt, value, parts)
    if value is not None:
        E.assume(E.Not(E.eq(value, "")))
    domains = {}
    kind, d = domain_of(E, domains, name)
    out = E.attempt(lambda: E.call(schema_utils._ragged_tensor_representation_from_feature_spec, spec, name, domains))
    fits = dt in KIND and kind != "other" and all(not isinstance(p, R.RowSplits) for p in parts)
    if isinstance(out, Raised):
        E.check("rejected only if it cannot be represented", not fits, out)
        return
    E.check("what cannot be represented is rejected", fits)
    val, lengths, rep = out
    column = name if value is None else value
    E.check("the value column", E.And(E.eq(val.name, column), len(rep.ragged_tensor.feature_path.step) == 1, E.eq(rep.ragged_tensor.feature_path.step[0], column)))
    check_value(E, val, dt, kind, d)
    got = rep.ragged_tensor.partition
    E.check("one partition each", len(got) == len(parts))
    rows = [p for p in parts if isinstance(p, R.RowLengths)]
    E.check("one column of row lengths each", len(lengths) == len(rows) and all(f.type == PB.INT for f in lengths))
    for p, g in zip(parts, got):
        if isinstance(p, R.RowLengths):
            E.check("row lengths in place", g.has() == ["row_length"] and E.eq(g.row_length, p.key))
        else:
            E.check("uniform lengths in place", g.has() == ["uniform_row_length"] and E.eq(g.uniform_row_length, p.length))
    for p, f in zip(rows, lengths):
        E.check("the columns of row lengths in order", E.eq(f.name, p.key))


# ------------------------------------------------------------- whole schemas
def draw_range(r, dt):
    if r.random() < 0.5:
        return None
    if dt == tf.int64:
        lo, hi = sorted([r.choice([0, -1, 5, -2 ** 63, 2 ** 63 - 1, 7]), r.randint(-100, 100)])
        return r.choice([PB.IntDomain(min=lo, max=hi), PB.IntDomain(min=lo), PB.IntDomain(max=hi), PB.IntDomain(min=lo, max=hi, is_categorical=True), PB.IntDomain(is_categorical=True), PB.IntDomain()])
    if dt == tf.float32:
        return r.choice([PB.FloatDomain(min=r.uniform(-5, 0), max=r.uniform(0, 5)), PB.FloatDomain(min=0.0), PB.FloatDomain(max=float("inf")), PB.FloatDomain(min=0.1)])
    return r.choice([PB.StringDomain(name="voc", value=["a", "b", "\u00e9\n\""]), PB.StringDomain(value=[""]), PB.StringDomain(name="x")])


NAMES = kit.NAMES + ["a.b", "(a)", "x.y.z", "'q'", "\u4e2d\n", "x$sparse_values"]


def draw_spec(r):
    """(spec in normal form, ranges)"""
    spec, ranges = {}, {}
    for n in r.sample(NAMES, r.randint(0, 6)):
        kind, dt = r.choice(["fixed", "fixed", "varlen", "sparse", "ragged"]), r.choice(kit.DTYPES)
        if kind == "fixed":
            spec[n] = F([r.choice([0, 1, 2, 7, 2 ** 40]) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]))], dt)
        elif kind == "varlen":
            spec[n] = V(dt)
        elif kind == "sparse":
            k = r.choice([1, 1, 2, 3, 4])
            spec[n] = S([f"{n}_i{j}" for j in range(k)], r.choice([f"{n}_v", n]), dt, [r.choice([-1, 1, 1, 5, 10 ** 12, 0]) for _ in range(k)], already_sorted=r.random() < 0.4)
        else:
            parts = [R.RowLengths(f"{n}_r{j}") if r.random() < 0.6 else R.UniformRowLength(r.choice([0, 1, 2, 9])) for j in range(r.choice([0, 0, 1, 2, 3]))]
            spec[n] = R(dt, r.choice([f"{n}_v", n]), parts, row_splits_dtype=tf.int64)
        d = draw_range(r, dt)
        if d is not None:
            ranges[n] = d
    if r.random() < 0.3:    # features called as one another's value columns
        for kind in (S, R):
            ns = [n for n in spec if isinstance(spec[n], kind)][:2]
            if len(ns) == 2:
                for n, m in (ns, ns[::-1]):
                    s = spec[n]
                    spec[n] = (S(s.index_key, m, s.dtype, s.size, already_sorted=s.already_sorted) if kind is S else
                               R(s.dtype, m, s.partitions, row_splits_dtype=tf.int64))
    return spec, ranges


def loosen(r, n, s):
    """The specification in another form with the same meaning."""
    if isinstance(s, F):
        return F(r.choice([tuple, list, tf.TensorShape])(s.shape), s.dtype) if r.random() < 0.5 else s
    if isinstance(s, S) and len(s.size) == 1 and r.random() < 0.5:
        return S(s.index_key[0], s.value_key, s.dtype, s.size[0], already_sorted=s.already_sorted)
    if isinstance(s, S) and r.random() < 0.5:
        return S(s.index_key, s.value_key, s.dtype, tuple(s.size), already_sorted=s.already_sorted)
    if isinstance(s, R) and s.value_key == n and r.random() < 0.5:
        return R(s.dtype, None, s.partitions, row_splits_dtype=tf.int64)
    return s


def spoil(r, spec, ranges):
    n = r.choice(sorted(spec))
    s, ranges = spec[n], dict(ranges)
    what = r.choice(["dtype", "default", "sequence", "range", "splits"])
    if what == "dtype":
        t = r.choice([tf.int32, tf.float64, tf.bool, tf.uint8])
        bad = S(["i"], "v", t, [5]) if isinstance(s, S) else V(t) if isinstance(s, V) else F([], t)
    elif what == "default":
        bad = F([], tf.int64, default_value=r.choice([0, -1, 7]))
    elif what == "sequence":
        bad = tf.io.FixedLenSequenceFeature([], tf.int64, True)
    elif what == "splits":
        bad = R(tf.int64, "v", [r.choice([R.RowSplits("s"), R.ValueRowIds("s"), R.RowLimits("s"), R.RowStarts("s")])], row_splits_dtype=tf.int64)
    else:
        ranges[n], bad = r.choice([(0, 5), "voc", PB.BoolDomain()]), s
    return what, dict(spec, **{n: bad}), ranges


@unit(P, "specification, schema and disk agree", [schema_utils.schema_from_feature_spec, schema_utils.schema_as_feature_spec, metadata_io.write_metadata, metadata_io.read_metadata,
      dataset_metadata.DatasetMetadata.from_feature_spec], sym=False, conc=400, bounded="up to 6 features, up to 4 writes to a directory", conc_s=10)
def round_trip(E):
    def gen(r):
        specs = [draw_spec(r) for _ in range(r.randint(1, 4))]
        return [(s, d, {n: loosen(r, n, x) for n, x in s.items()}, spoil(r, s, d) if s else None, r.choice(["", "sub", "deep/er"])) for s, d in specs]
    history, schemas = E.gen("metadata", gen), []
    with tempfile.TemporaryDirectory(prefix="pyvc") as d:
        for spec, ranges, given, bad, sub in history:
            schema = E.attempt(lambda: schema_utils.schema_from_feature_spec(given, ranges) if ranges else schema_utils.schema_from_feature_spec(given))
            E.check("a specification is represented", not isinstance(schema, Raised), schema)
            if isinstance(schema, Raised):
                return
            got = schema_utils.schema_as_feature_spec(schema)
            E.check("the same features", got.feature_spec == spec, (spec, got.feature_spec))
            E.check("the same ranges", got.domains == ranges, (ranges, got.domains))
            columns = [c for n, s in spec.items() for c in ([n] if isinstance(s, (F, V)) else [s.value_key] + (list(s.index_key) if isinstance(s, S) else [p.key for p in s.partitions if isinstance(p, R.RowLengths)]))]
            E.check("one column each and none besides", sorted(f.name for f in schema.feature) == sorted(columns), (columns, schema))
            m = dataset_metadata.DatasetMetadata.from_feature_spec(given, ranges)
            E.check("metadata of a specification", m.schema == schema and m == dataset_metadata.DatasetMetadata(schema) and not m != dataset_metadata.DatasetMetadata(schema))
            E.check("the order of the features does not matter", schema_utils.schema_from_feature_spec(dict(reversed(list(given.items()))), ranges) == schema)
            path = os.path.join(d, sub)
            metadata_io.write_metadata(m, path)
            back = E.attempt(lambda: metadata_io.read_metadata(path))
            E.check("what is read is what was written last", not isinstance(back, Raised) and back.schema == schema and back == m, back)
            for other, osub in schemas:
                if osub != sub:
                    E.check("other directories keep theirs", metadata_io.read_metadata(os.path.join(d, osub)).schema == other)
            schemas = [x for x in schemas if x[1] != sub] + [(schema, sub)]
            if bad is not None:
                out = E.attempt(lambda: schema_utils.schema_from_feature_spec(bad[1], bad[2]))
                E.check("what cannot be represented is rejected", isinstance(out, Raised), (bad, out))




@unit(P, "the ranges read from a schema are those of the source of each feature", [schema_utils.schema_as_feature_spec, schema_utils._sequence_schema_as_feature_spec, schema_utils._get_domain],
      sym=False, conc=300, bounded="up to 4 context and 4 sequence features", conc_s=5)
def read_ranges(E):
    """Schemas that did not come from a specification: string ranges shared at
    the level of the schema, and sequences."""
    def gen(r):
        def feats(k):
            out = []
            for n in r.sample(["x", "y", "z", "a.b", "seq", "int"], k):
                dt = r.choice(kit.DTYPES)
                out.append((n, dt, draw_range(r, dt), r.choice([None, None, "d1", "d2", "missing"]) if dt == tf.string else None))
            return out
        return (feats(r.randint(0, 4)), feats(r.randint(1, 4)) if r.random() < 0.7 else [], [(n, r.random() < 0.7) for n in r.sample(["d1", "d2", "d3"], r.randint(0, 3))],
                r.random(), r.random() < 0.5)
    context, sequence, shared, pick, two = E.gen("schema", gen)
    pools = {n: PB.StringDomain(name=n, value=[n, "v"] if full else []) for n, full in shared}
    schema, want, spec = PB.Schema(string_domain=[pools[n] for n, _ in shared]), {}, {}
    group = schema.tensor_representation_group[""].tensor_representation

    def add(to, name, n, dt, d, ref):
        f = to.feature.add(name=n, type=KIND[dt])
        if ref is not None:
            f.domain = ref
            d = pools.get(ref)
        else:
            schema_utils._set_domain(n, f, d)
        if d is not None:
            want[name] = d
    for n, *rest in context:
        add(schema, n, n, *rest)
        spec[n] = V(rest[0])
        if sequence:
            group[n].varlen_sparse_tensor.column_name = n
    if sequence:
        structs = [schema.feature.add(name=n, type=PB.STRUCT) for n in ["##SEQUENCE##", "more"][:1 + two]]
        for k, (n, *rest) in enumerate(sequence):
            st = structs[k % len(structs)]
            name = n if pick < 0.3 and n not in spec else "seq of " + n
            add(st.struct_domain, name, n, *rest)
            group[name].ragged_tensor.feature_path.step.extend([st.name, n])
            spec[name] = R(rest[0], n, [], row_splits_dtype=tf.int64)
    if not sequence:
        del schema.tensor_representation_group[""]
    got = schema_utils.schema_as_feature_spec(schema)
    E.check("the features", got.feature_spec == spec, (spec, got.feature_spec))
    E.check("the ranges", got.domains == want, (want, got.domains))


@unit(P, "the former JSON form of a schema is read", [metadata_io.read_metadata, metadata_io._parse_schema_json, metadata_io._column_schema_from_json, metadata_io._domain_from_json],
      sym=False, conc=150, bounded="up to 5 features", conc_s=4)
def json_form(E):
    import json

    def gen(r):
        out = []
        for n in r.sample(NAMES, r.randint(0, 5)):
            dt = r.choice(kit.DTYPES)
            lo, hi = r.choice([(None, None), (0, 5), (-2 ** 63, 2 ** 63 - 1), (None, 0), (0, None)])
            out.append((n, dt, [r.choice([0, 1, 5]) for _ in range(r.randint(0, 3))] if r.random() < 0.6 else None, lo, hi, r.choice([None, True, False]), r.random() < 0.5))
        return out
    feats = E.gen("schema", gen)
    spec, want, out = {}, {}, []
    for n, dt, shape, lo, hi, cat, text in feats:
        num = (lambda x: str(x)) if text else (lambda x: x)
        d = {"ints": {k: v for k, v in (("min", lo if lo is None else num(lo)), ("max", hi if hi is None else num(hi)), ("isCategorical", cat)) if v is not None}} if dt == tf.int64 else {"floats": {}} if dt == tf.float32 else {"strings": {}}
        if dt == tf.int64:
            want[n] = PB.IntDomain(min=lo, max=hi, is_categorical=cat)
        f = {"name": n, "domain": d, "parsingOptions": {"tfOptions": {"varLenFeature": {}} if shape is None else {"fixedLenFeature": {}}}}
        if shape is not None:
            f["fixedShape"] = {"axis": [{"size": num(s)} for s in shape]} if shape else {}
        spec[n] = V(dt) if shape is None else F(shape, dt)
        out.append(f)
    with tempfile.TemporaryDirectory(prefix="pyvc") as d:
        os.makedirs(os.path.join(d, "v1-json"))
        with open(os.path.join(d, "v1-json", "schema.json"), "w") as f:
            json.dump({"feature": out} if out else {}, f)
        got = schema_utils.schema_as_feature_spec(metadata_io.read_metadata(d).schema)
        E.check("the features", got.feature_spec == spec, (spec, got.feature_spec))
        E.check("the ranges", got.domains == want, (want, got.domains))
        m = dataset_metadata.DatasetMetadata.from_feature_spec({"other": V(tf.int64)})
        metadata_io.write_metadata(m, d)
        E.check("metadata written since takes its place", metadata_io.read_metadata(d) == m)
    with tempfile.TemporaryDirectory(prefix="pyvc") as d:
        E.check("no metadata is an error", isinstance(E.attempt(lambda: metadata_io.read_metadata(d)), Raised))


@unit(P, "the columns of a ragged feature are taken once", [schema_utils.pop_ragged_source_columns], sym=False, conc=200, bounded="up to 3 partitions and 5 columns")
def pop(E):
    def gen(r):
        cols = {c: r.choice([PB.INT, PB.INT, PB.INT, PB.FLOAT, PB.BYTES]) for c in r.sample(["v", "r0", "r1", "r2", "other"], r.randint(2, 5))}
        return cols, [r.choice(["r0", "r1", "r2", 2]) for _ in range(r.randint(0, 3))]
    cols, parts = E.gen("schema", gen)
    rep = PB.TensorRepresentation()
    rep.ragged_tensor.feature_path.step.append("v")
    for p in parts:
        rep.ragged_tensor.partition.add(**({"uniform_row_length": p} if p == 2 else {"row_length": p}))
    have = {n: PB.Feature(name=n, type=t) for n, t in cols.items()}
    got = E.attempt(lambda: schema_utils.pop_ragged_source_columns("x", rep, have))
    rows = [p for p in parts if p != 2]
    fits = "v" in cols and len(set(rows)) == len(rows) and all(cols.get(p) == PB.INT for p in rows)
    if isinstance(got, Raised):
        E.check("rejected only if a column is missing, used twice or not of integers", not fits and isinstance(got.exc, ValueError), got)
        return
    E.check("a column that is missing, used twice or not of integers is rejected", fits, (cols, parts))
    E.check("the value column is returned", got.name == "v")
    E.check("exactly its columns are taken", sorted(have) == sorted(set(cols) - set(rows) - {"v"}), sorted(have))


def clash(label, spec):
    @unit(P, f"no feature is lost when {label}", [schema_utils.schema_from_feature_spec, schema_utils.schema_as_feature_spec], sym=False, conc=1, bounded="one specification")
    def u(E):
        schema = E.attempt(lambda: schema_utils.schema_from_feature_spec(spec))
        got = schema if isinstance(schema, Raised) else E.attempt(lambda: schema_utils.schema_as_feature_spec(schema))
        E.check("kept or rejected", isinstance(got, Raised) or sorted(got.feature_spec) == sorted(spec), got)


clash("it is the value column of a ragged feature", {"x": R(tf.float32, "v", [], row_splits_dtype=tf.int64), "v": V(tf.float32)})
clash("it is the row length column of a ragged feature", {"x": R(tf.float32, "v", [R.RowLengths("l")], row_splits_dtype=tf.int64), "l": V(tf.int64)})
clash("it is the value column of a sparse feature", {"x": S(["i"], "v", tf.float32, [10]), "v": V(tf.float32)})
clash("a ragged feature takes its values from a column called as it", {"x": S(["i"], "w", tf.float32, [10]), "w": R(tf.float32, "x", [], row_splits_dtype=tf.int64)})
clash("it is the index column of a sparse feature", {"x": S(["i"], "v", tf.float32, [10]), "i": V(tf.int64)})
clash("two sparse features share an index column", {"x": S(["i"], "v", tf.float32, [10]), "y": S(["i"], "w", tf.float32, [10])})
clash("two ragged features share their columns", {"x": R(tf.float32, "v", [R.RowLengths("l")], row_splits_dtype=tf.int64), "y": R(tf.float32, "v", [R.RowLengths("l")], row_splits_dtype=tf.int64)})
clash("a sparse and a ragged feature share their values", {"x": S(["i"], "v", tf.float32, [10]), "y": R(tf.float32, "v", [], row_splits_dtype=tf.int64)})


@unit(P, "the default value of a dense feature is read as it is", [schema_utils.schema_as_feature_spec, schema_utils._standardize_default_value], sym=False, conc=100, bounded="up to 3 features", conc_s=3)
def defaults(E):
    """For schemas that did not come from a specification."""
    def gen(r):
        out = []
        for n in r.sample(["x", "y", "z"], r.randint(1, 3)):
            dt = r.choice(kit.DTYPES)
            d = r.choice([0, -1, 2 ** 62]) if dt == tf.int64 else r.choice([0.0, -1.5, float("inf")]) if dt == tf.float32 else r.choice([b"", b"a", "\u00e9".encode(), b"\xff"])
            out.append((n, dt, r.choice([[], [], [1], [2], [2, 3]]), r.choice([d, d, None])))
        return out
    schema, want = PB.Schema(), {}
    for n, dt, shape, d in E.gen("schema", gen):
        schema.feature.add(name=n, type=KIND[dt])
        t = schema.tensor_representation_group[""].tensor_representation[n].dense_tensor
        t.column_name = n
        t.shape.SetInParent()
        for k in shape:
            t.shape.dim.add(size=k)
        if d is not None:
            setattr(t.default_value, {tf.int64: "int_value", tf.float32: "float_value", tf.string: "bytes_value"}[dt], d)
        size = int(np.prod(shape, dtype=int))
        want[n] = (shape, dt, None if d is None else [d] * size)
    got = schema_utils.schema_as_feature_spec(schema)
    E.check("exactly the features", sorted(got.feature_spec) == sorted(want) and not got.domains, got)
    for n, (shape, dt, d) in want.items():
        s = got.feature_spec.get(n)
        have = s.default_value if s.default_value is None or isinstance(s.default_value, list) else [s.default_value]
        have = have and [x.encode() if isinstance(x, str) else x for x in have]
        E.check("shape, type and default of each", isinstance(s, F) and list(s.shape) == shape and s.dtype == dt and have == d, (s, d))
