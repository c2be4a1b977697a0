"""C19: batch and instance forms of data convert without loss."""
import collections
import types as types_

import numpy as np
import pyarrow as pa
import tensorflow as tf
from tfx_bsl.tfxio import tensor_adapter

from tensorflow_transform import impl_helper, schema_inference
from tensorflow_transform.beam import impl
from tensorflow_transform.tf_metadata import schema_utils
from pyvc.harness import unit, Raised
from contracts import coderkit as kit

P = "C19"
R, S, F, V = tf.io.RaggedFeature, tf.io.SparseFeature, tf.io.FixedLenFeature, tf.io.VarLenFeature


# ------------------------------------------------- sparse values are well formed
Pair = collections.namedtuple("Pair", "row value next_row next_value")


class Family:
    """Values over the pairs of consecutive rows that satisfy a condition, and
    possibly over the first row."""
    _pyvc_symbolic = True

    def __init__(self, s, members): self.s, self.members = s, members

    def _map(self, f): return Family(self.s, [(k, g, lambda p, t=t: f(t(p))) for k, g, t in self.members])

    def __lt__(self, o): return self._map(lambda x: x < o)
    def __le__(self, o): return self._map(lambda x: x <= o)
    def __gt__(self, o): return self._map(lambda x: x > o)
    def __ge__(self, o): return self._map(lambda x: x >= o)
    def __eq__(self, o): return self._map(lambda x: self.s.E.eq(x, o))
    def __ne__(self, o): return self._map(lambda x: self.s.E.Not(self.s.E.eq(x, o)))
    __hash__ = None


class Steps:
    """np.diff along the rows."""
    _pyvc_symbolic = True

    def __init__(self, s): self.s = s

    def __getitem__(self, at):
        rows, col = at
        assert rows == slice(None) and col in (0, 1), at
        return Family(self.s, [("pair", lambda p: True, lambda p: p[col + 2] - p[col])])


class Where:
    _pyvc_symbolic = True

    def __init__(self, cond, next=False): self.cond, self.next = cond, next

    def __add__(self, k):
        assert k == 1 and not self.next
        return Where(self.cond, True)


class Starts:
    def __init__(self, where): self.where = where


class Indices:
    """The rows of a sparse tensor, two generic neighbours at a time."""
    _pyvc_symbolic = True

    def __init__(self, E):
        self.E, self.n, self.cols = E, E.int("entries", 0), E.int("columns", 1)
        self.shape = (self.n, self.cols)
        self.generic, self.first, self.witness = self.pair("pair"), (E.int("first row"), E.int("first value")), []

    def pair(self, name): return Pair(*[self.E.int(f"{name} {f}") for f in Pair._fields])

    def __getitem__(self, at):
        rows, col = at
        assert isinstance(rows, Starts) and col in (0, 1), at
        (_, g, t), = rows.where.cond.members
        return Family(self, [("pair", lambda p: self.E.And(g(p), t(p)), lambda p: p[col + 2]), ("first", lambda p: True, lambda p: p[col])])


class Numpy:
    """numpy under contract on the rows above."""
    _pyvc_symbolic = True

    def __init__(self, s): self.s = s

    def asarray(self, x): return x

    def diff(self, x, axis=None):
        assert x is self.s and axis == 0
        return Steps(x)

    def logical_and(self, a, b):
        (k, g, t), (k2, g2, t2) = *a.members, *b.members
        return Family(self.s, [(k, lambda p: self.s.E.And(g(p), g2(p)), lambda p: self.s.E.And(t(p), t2(p)))])

    def any(self, x):
        E, s = self.s.E, self.s
        which = E.choice(f"any {len(s.witness)}", [None] + list(range(len(x.members))))
        if which is None:
            for kind, g, t in x.members:
                if kind == "pair":
                    E.assume(E.Not(E.And(2 <= s.n, g(s.generic), t(s.generic))))
                else:
                    E.assume(E.Not(t(s.first)))
            return False
        kind, g, t = x.members[which]
        w = s.pair("witness") if kind == "pair" else s.first
        E.assume(E.And(g(w), t(w), s.n >= (2 if kind == "pair" else 1)))
        s.witness.append((kind, w))
        return True

    def where(self, cond): return (Where(cond),)

    def append(self, rows, x):
        assert isinstance(rows, Where) and rows.next and x == 0
        return Starts(rows)


def row_ok(E, p):
    """A row continues its instance, or starts a later one from zero."""
    return E.Or(E.And(p.row < p.next_row, E.eq(p.next_value, 0)), E.And(E.eq(p.row, p.next_row), E.eq(p.next_value, p.value + 1)))


@unit(P, "exactly well formed sparse values are accepted", [impl_helper.validate_varlen_sparse_value], conc=800)
def sparse_rows(E):
    if E.symbolic:
        s = Indices(E)
        E.stub(impl_helper, "np", Numpy(s))
        value = type("Value", (), {})()
        value.indices = s
        got = E.attempt(lambda: E.call(impl_helper.validate_varlen_sparse_value, "x", value))
        if isinstance(got, Raised):
            bad = [E.Not(row_ok(E, w) if k == "pair" else E.eq(w[1], 0)) for k, w in s.witness]
            E.check("rejected only if some row is out of place", E.Or(E.Not(E.eq(s.cols, 2)), *bad), got)
            E.check("by a ValueError", isinstance(got.exc, ValueError))
            return
        E.check("matrices of two columns only", E.eq(s.cols, 2))
        E.check("each row continues its instance or starts a later one from zero", E.Implies(2 <= s.n, row_ok(E, s.generic)))
        E.check("the first row starts from zero", E.Implies(1 <= s.n, E.eq(s.first[1], 0)))
        return

    def gen(r):
        rows, i = [], r.choice([0, 0, 1, 5])
        for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
            rows += [[i, v] for v in range(r.randint(1, 3))]
            i += r.choice([1, 1, 2])
        if r.random() < 0.6 and rows:
            k = r.randrange(len(rows))
            rows[k] = [rows[k][0] + r.choice([0, 0, -1, 1]), max(0, rows[k][1] + r.choice([0, 1, -1, 2]))] if r.random() < 0.6 else rows[r.randrange(len(rows))]
        return rows
    rows = E.gen("rows", gen)
    fits = all(v == 0 if k == 0 else row_ok(E, Pair(*rows[k - 1], i, v)) for k, (i, v) in enumerate(rows))
    got = E.attempt(lambda: impl_helper.validate_varlen_sparse_value("x", tf.compat.v1.SparseTensorValue(np.array(rows, dtype=np.int64).reshape(-1, 2), [b""] * len(rows), [9, 9])))
    if isinstance(got, Raised):
        E.check("rejected only if some row is out of place", not fits and isinstance(got.exc, ValueError), got)
    else:
        E.check("a row out of place is rejected", fits)


# ----------------------------------------------------------------- slicing
class Rows:
    """A record batch: a range of the rows of the whole."""
    _pyvc_symbolic = True

    def __init__(self, E, start, num_rows, nbytes): self.E, self.start, self.num_rows, self.nbytes = E, start, num_rows, nbytes

    def slice(self, offset=0, length=None):
        E = self.E
        if length is None:
            length = self.num_rows - offset
        E.check("slices lie within the batch", E.And(E.le(0, offset), E.le(0, length), E.le(offset + length, self.num_rows)))
        return Rows(E, self.start + offset, length, E.int(f"bytes {len(E.sliced)}", 0))


@unit(P, "slicing a large batch keeps all rows in order", [impl._maybe_slice_large_record_batch], conc=0)
def slicing(E):
    E.sliced = []
    whole = Rows(E, E.int("start", 0), E.int("rows", 0), E.int("bytes", 0))
    g = impl._maybe_slice_large_record_batch
    f = types_.FunctionType(g.__code__, g.__globals__, g.__name__, g.__defaults__, g.__closure__)

    def contract(b):
        """The pieces of a smaller batch are its rows in order."""
        E.check("the parts are smaller, so slicing ends", E.And(b.num_rows < whole.num_rows, E.le(1, b.num_rows)))
        E.sliced.append(b)
        return [b]
    contract._pyvc_native = True
    E.stub(impl, "_maybe_slice_large_record_batch", contract)
    out = list(E.call(f, whole))
    E.check("at least one piece", len(out) >= 1)
    at = whole.start
    for b in out:
        E.check("pieces follow one another", E.eq(b.start, at))
        at = at + b.num_rows
    E.check("up to the end", E.eq(at, whole.start + whole.num_rows))
    if len(out) == 1:
        E.check("a batch above the limit is only kept if it is a single row", E.Or(E.le(whole.nbytes, impl._MAX_TRANSFORMED_BATCH_BYTES_SIZE), E.le(whole.num_rows, 1)))


# ------------------------------------------------------------ whole conversion
def draw_schema(r):
    out = []
    for n in r.sample(["x", "y", "a b", "value", "\u00e9", "X", "f/g", "a.b", "c$d"], r.randint(1, 5)):
        kind = r.choice(["fixed", "fixed", "varlen", "sparse", "ragged"])
        arg = (r.choice([[], [], [1], [3], [2, 2], [1, 3, 2]]) if kind == "fixed" else r.choice([2, 3, 2, 1]) if kind == "sparse"
               else r.choice(["", "r", "u", "ru", "rr", "ruu"]) if kind == "ragged" else None)
        out.append((n, kind, r.choice(kit.DTYPES), arg))
    return out


def spec_of(n, kind, dt, arg, splits=tf.int64):
    if kind == "fixed":
        return F(arg, dt)
    if kind == "varlen":
        return V(dt)
    if kind == "sparse":
        return S([f"{n}$sparse_indices_{k}" for k in range(arg)], f"{n}$sparse_values", dt, [10] * arg)
    rows, parts = 0, []
    for a in arg:
        rows += a == "r"
        parts.append(R.RowLengths(f"{n}$row_lengths_{rows}") if a == "r" else R.UniformRowLength(2))
    return R(dt, f"{n}$ragged_values", parts, row_splits_dtype=splits)


NP = {tf.string: object, tf.int64: np.int64, tf.float32: np.float32}


def draw_rows(r, n, kind, dt, arg, size):
    """(the batch as a tensor value, [{column: values} per row])"""
    if kind == "fixed":
        v = kit.array(r, dt, [size] + arg)
        return v.astype(NP[dt]), [{n: v[i]} for i in range(size)]
    if kind == "varlen":
        rows = [[kit.scalar(r, dt) for _ in range(r.choice([0, 0, 1, 2, 4]))] for _ in range(size)]
        idx = [[i, j] for i, x in enumerate(rows) for j in range(len(x))]
        flat = [x for row in rows for x in row]
        width = max(map(len, rows), default=0) + r.choice([0, 0, 3])
        return tf.compat.v1.SparseTensorValue(np.array(idx, np.int64).reshape(-1, 2), np.array(flat + [None], object)[:-1].astype(NP[dt]), np.array([size, width], np.int64)), [{n: x} for x in rows]
    if kind == "sparse":
        rows = [sorted({tuple(r.randrange(10) for _ in range(arg)) for _ in range(r.choice([0, 0, 1, 2, 4]))}) for _ in range(size)]
        vals = [[kit.scalar(r, dt) for _ in row] for row in rows]
        idx = [[i, *c] for i, row in enumerate(rows) for c in row]
        flat = [x for row in vals for x in row]
        want = [dict({f"{n}$sparse_values": vals[i]}, **{f"{n}$sparse_indices_{k}": [c[k] for c in rows[i]] for k in range(arg)}) for i in range(size)]
        return tf.compat.v1.SparseTensorValue(np.array(idx, np.int64).reshape(-1, arg + 1), np.array(flat + [None], object)[:-1].astype(NP[dt]), np.array([size] + [10] * arg, np.int64)), want

    def nested(parts):
        if not parts:
            return kit.scalar(r, dt)
        return [nested(parts[1:]) for _ in range(r.choice([0, 1, 2, 3]) if parts[0] == "r" else 2)]
    rows = [nested("r" + arg) for _ in range(size)]
    want = []
    for row in rows:
        level, w, k = row, {}, 0
        for a in arg:
            if a == "r":
                k += 1
                w[f"{n}$row_lengths_{k}"] = [len(x) for x in level]
            level = [y for x in level for y in x]
        w[f"{n}$ragged_values"] = level
        want.append(w)
    lens, level = [], rows
    for a in "r" + arg:
        lens.append((a, [len(x) for x in level]))
        level = [y for x in level for y in x]
    inner = [2] * (len(arg) - len(arg.rstrip("u")))
    out = np.array(level + [None], object)[:-1].astype(NP[dt]).reshape([-1] + inner if inner else [-1])
    for a, ls in reversed(lens[:len(lens) - len(inner)]):
        splits = np.concatenate([[0], np.cumsum(ls)]).astype(np.int64)
        out = tf.compat.v1.ragged.RaggedTensorValue(out, splits)
    return out, want


def draw_pass(r, size):
    """(column, what each row gets, or None if it cannot be matched up)"""
    t = r.choice([pa.int64(), pa.float32(), pa.large_binary()])
    n = r.choice([size, size, size, 1, size + 1, size + 3, max(size - 1, 0), 2, 0])
    one = lambda: None if r.random() < 0.3 else [] if n in (size, 1) and r.random() < 0.2 else [{pa.int64(): r.randint(-9, 9), pa.float32(): r.choice([0.0, 1.5]), pa.large_binary(): r.choice([b"", b"a"])}[t]]
    col = [one() for _ in range(n)] if r.random() < 0.6 else [one()] * n
    want = col if n == size else [col[0]] * size if n and all(c == col[0] for c in col) else None
    return pa.array(col, r.choice([pa.list_, pa.large_list])(t)), want


def same_row(E, schema, got, want, label):
    for n, kind, dt, arg in schema:
        for c, v in want[n].items():
            t = tf.int64 if "$row_lengths" in c or "$sparse_indices" in c else dt
            E.check(label + ": every value of the row", c in got and kit.same(t, got[c], v), (c, got.get(c), v))
            if kind == "fixed":
                shape = np.shape(got[c]) if arg else ()
                E.check(label + ": the shape", shape == tuple(arg) and (arg or not isinstance(got[c], np.ndarray)), (c, got[c]))


@unit(P, "a batch converts to the rows it holds", [impl._convert_to_record_batch, impl._transformed_batch_to_instance_dicts, impl_helper.record_batch_to_instance_dicts,
      impl_helper.make_tensor_to_arrow_converter, impl_helper.get_type_specs_from_feature_specs, impl._maybe_slice_large_record_batch], sym=False, conc=500,
      bounded="up to 5 features and 7 rows", conc_s=15)
def conversion(E):
    def gen(r):
        schema, size = draw_schema(r), r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7])
        return schema, size, {s[0]: draw_rows(r, *s, size) for s in schema}, [draw_pass(r, size) for _ in range(r.choice([0, 0, 1, 2, 3]))], r.choice([10 ** 9, 10 ** 9, 200, 60, 1])
    schema, size, data, passed, limit = E.gen("batch", gen)
    proto = schema_utils.schema_from_feature_spec({s[0]: spec_of(*s) for s in schema})
    E.stub(impl, "_MAX_TRANSFORMED_BATCH_BYTES_SIZE", limit)
    converter = impl_helper.make_tensor_to_arrow_converter(proto)
    batch = {n: v for n, (v, _) in data.items()}
    fields = [(f"pass {k}", c.type) for k, (c, _) in enumerate(passed)]
    batch.update({f"pass {k}": c for k, (c, _) in enumerate(passed)})
    before = dict(batch)
    meta = tensor_adapter.TensorAdapterConfig(pa.schema(fields), {})
    got = E.attempt(lambda: [x for x in impl._convert_to_record_batch(batch, converter, {f for f, _ in fields} | {"not there"}, meta, validate_varlen_sparse_values=True)])
    E.check("the batch is left alone", batch.keys() == before.keys() and all(batch[k] is before[k] for k in batch))
    if any(w is None for _, w in passed):
        E.check("values that cannot be matched with rows are rejected", isinstance(got, Raised) and isinstance(got.exc, ValueError), got)
        return
    E.check("a batch is converted", not isinstance(got, Raised), got)
    if isinstance(got, Raised):
        return
    E.check("every row is there once", sum(b.num_rows for b, _ in got) == size, got)
    E.check("batches respect the limit or have one row", all(b.num_rows <= 1 or b.nbytes <= limit for b, _ in got))
    i = 0
    for piece in got:
        rows = impl._transformed_batch_to_instance_dicts(piece, proto)
        E.check("as many instances as rows", len(rows) == piece[0].num_rows)
        arrow = piece[0].to_pylist()
        for row, direct in zip(rows, arrow):
            want = {n: w[i] for n, (_, w) in data.items()}
            same_row(E, schema, row, want, "instance")
            E.check("nothing besides", set(row) == {c for w in want.values() for c in w} | {f for f, _ in fields}, sorted(row))
            for k, (c, w) in enumerate(passed):
                v = row[f"pass {k}"]
                v = v if v is None else list(v)
                E.check("each row has its own passed through value", v == w[i] or v is not None and w[i] is not None and kit.same(tf.string if w[i] and isinstance(w[i][0], bytes) else tf.float32, v, w[i]), (v, w[i]))
            i += 1


@unit(P, "the parsing specification of each feature gives its tensor type", [impl_helper.get_type_specs_from_feature_specs, impl_helper.batched_placeholders_from_specs], sym=False, conc=200, bounded="up to 5 features")
def types(E):
    schema, sequence, splits = E.gen("schema", lambda r: (draw_schema(r), r.random() < 0.3, r.choice([tf.int32, tf.int64])))
    specs = {s[0]: spec_of(*s, splits) for s in schema}
    names = frozenset(s[0] for s in schema) if sequence else frozenset()
    got = impl_helper.get_type_specs_from_feature_specs(specs, names) if sequence else impl_helper.get_type_specs_from_feature_specs(specs)
    E.check("a type each", sorted(got) == sorted(specs))
    for n, kind, dt, arg in schema:
        t = got[n]
        if kind == "fixed":
            E.check("dense", t == tf.TensorSpec([None] + arg, dt), t)
        elif kind == "varlen":
            E.check("variable length", t == tf.SparseTensorSpec([None, None], dt), t)
        elif kind == "sparse":
            E.check("sparse", t == tf.SparseTensorSpec([None] + [10] * arg, dt), t)
        else:
            lead = [None, None] + ([None] if sequence else [])
            E.check("ragged", t == tf.RaggedTensorSpec(lead + [None if a == "r" else 2 for a in arg], dt, len(lead) - 1 + arg.count("r"), splits), t)
    with tf.Graph().as_default():
        tensors = impl_helper.batched_placeholders_from_specs(got)
        for n, kind, dt, arg in schema:
            x = tensors[n]
            E.check("a placeholder of that type", tf.type_spec_from_value(x).is_compatible_with(got[n]) and x.dtype == dt and x.shape.as_list() == got[n].shape.as_list(), (n, x, got[n]))


@unit(P, "transformed rows keep their passed through values", [impl._RunMetaGraphDoFn._handle_batch, impl._RunMetaGraphDoFn._get_passthrough_data_from_recordbatch, impl._RunMetaGraphDoFn.setup],
      sym=False, conc=150, bounded="up to 5 rows and 4 passed through columns", conc_s=6)
def passed_through(E):
    """The transformation is applied to the tensors of the batch, and each
    column to pass through is that of the batch, whatever the column order."""
    def gen(r):
        size = r.choice([1, 2, 3, 5])
        cols = {f"p{k}": [r.choice([None, [r.randint(0, 9)]]) for _ in range(size)] for k in r.sample(range(6), r.randint(0, 4))}
        order = list(cols) + ["x", "z"]
        r.shuffle(order)
        return [r.randint(-9, 9) for _ in range(size)], cols, order, r.sample(["p0", "p1", "p2", "absent"], r.randint(0, 4)), r.random() < 0.5
    xs, cols, order, keys, v1 = E.gen("batch", gen)
    from tfx_bsl.tfxio import tensor_representation_util
    arrays = dict({c: pa.array(v, pa.large_list(pa.int64())) for c, v in cols.items()}, x=pa.array([[v] for v in xs], pa.large_list(pa.int64())), z=pa.array([[-v] for v in xs], pa.large_list(pa.int64())))
    batch = pa.RecordBatch.from_arrays([arrays[c] for c in order], order)
    reps = {s: tensor_representation_util.InferTensorRepresentationsFromSchema(schema_utils.schema_from_feature_spec({s: F([], tf.int64)}))[s] for s in ("x", "z")}
    config = tensor_adapter.TensorAdapterConfig(batch.schema, reps)
    E.check("keys that are features are rejected", isinstance(E.attempt(lambda: impl._RunMetaGraphDoFn(None, None, ["x"] + keys, v1, config)), Raised))
    fn = impl._RunMetaGraphDoFn(None, None, keys, v1, config)
    fn.setup()
    graph = impl._RunMetaGraphDoFn._GraphStateCommon("", ["z", "x"], ["b", "a"], None)
    graph.callable_get_outputs = (lambda z, x: [x + 1, z - x]) if v1 else (lambda f: {"a": f["z"].numpy() - f["x"].numpy(), "b": f["x"].numpy() + 1})
    fn._graph_state = graph
    got = fn._handle_batch(batch)
    E.check("the outputs and the columns to pass through", set(got) == {"a", "b"} | (set(keys) & set(cols)), sorted(got))
    E.check("outputs by name", list(got["b"]) == [x + 1 for x in xs] and list(got["a"]) == [-2 * x for x in xs], got)
    for k in set(keys) & set(cols):
        E.check("columns by name", got[k].to_pylist() == cols[k], (k, got[k], cols[k]))
