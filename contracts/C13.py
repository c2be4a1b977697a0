"""C13: tf.Example encoding round-trips and leaks nothing between calls."""
import pickle
import random

import numpy as np
import tensorflow as tf

from tensorflow_transform.coders import example_proto_coder as epc
from tensorflow_transform.tf_metadata import schema_utils
from pyvc.harness import unit, Raised
from contracts import coderkit as kit

P = "C13"


class Field:
    """A repeated field of a proto under its contract."""
    _pyvc_symbolic = True

    def __init__(self, old=()): self.parts = list(old)

    def __delitem__(self, i):
        assert i == slice(None), "deletes some values only"
        self.parts = []

    def append(self, x): self.parts.append(("one", x))
    def extend(self, xs): self.parts.append(("all", xs))


class Values:
    def __init__(self, old): self.value = Field(old)


class Feature:
    """tf.train.Feature: one list; clearing detaches the lists handed out before."""
    _pyvc_symbolic = True

    def __init__(self, old): self._fill(old)

    def _fill(self, old): self.bytes_list, self.int64_list, self.float_list = Values(old), Values(old), Values(old)

    def Clear(self): self._fill(())


class Example:
    def __init__(self, names, old): self.features = type("F", (), {})(); self.features.feature = {n: Feature(old) for n in names}


LISTS = {tf.string: "bytes_list", tf.int64: "int64_list", tf.float32: "float_list"}


def drawn(E, dt, name):
    if dt == tf.string:
        return E.bytes(name) if E.as_bytes else E.str(name)
    return E.int(name, -2 ** 63, 2 ** 63 - 1) if dt == tf.int64 else E.real(name)


def stored(E, dt, x):
    return E.call(tf.compat.as_bytes, x) if dt == tf.string else x


def content(E, field, dt, v, label):
    """The field holds exactly the values v, whatever it held before."""
    E.check(label + ": nothing is left of earlier calls", [p for p in field.parts if p == "old"] == [], field.parts)
    E.check(label + ": one list of values is stored", len(field.parts) == 1 and field.parts[0][0] == "all", field.parts)
    if len(field.parts) != 1:
        return
    got = field.parts[0][1]
    got = list(got) if not E.symbolic else got
    E.check(label + ": as many as given", E.eq(E.call(len, got), E.call(len, v)))
    i = E.int("index", 0)
    E.assume(E.Not(E.le(E.call(len, v), i)))
    E.check(label + ": each value is the one given", E.eq(E.item(got, i), stored(E, dt, E.item(v, i))))


@unit(P, "a fixed-length feature holds exactly its values", [epc._FixedLenFeatureHandler.__init__, epc._FixedLenFeatureHandler.initialize_encode_cache,
                                                        epc._FixedLenFeatureHandler.encode_value, epc._make_cast_fn, epc._make_feature_value_fn], conc=200)
def fixed(E):
    dt = E.choice("dtype", kit.DTYPES)
    E.as_bytes = E.choice("text", [True, False]) if dt == tf.string else True
    shape = E.choice("shape", [(), (1,), (3,), (0,)])
    h = E.new(epc._FixedLenFeatureHandler, "x", tf.io.FixedLenFeature(list(shape), dt))
    ex = Example(["x", "other"], ["old"])
    E.call(h.initialize_encode_cache, ex)
    field = lambda: getattr(ex.features.feature["x"], LISTS[dt]).value
    if shape == ():
        v = drawn(E, dt, "value")
        E.call(h.encode_value, v)
        E.check("exactly the value", len(field().parts) == 1 and field().parts[0][0] == "one", field().parts)
        E.check("the value given", E.eq(field().parts[0][1], stored(E, dt, v)))
    else:
        v = E.seq("values", lambda e: drawn(e, dt, "value"))
        n, size = E.call(len, v), int(np.prod(shape, dtype=int))
        got = E.attempt(lambda: E.call(h.encode_value, v))
        if isinstance(got, Raised):
            E.check("a fitting number of values is accepted", E.Not(E.eq(n, size)), got)
            E.check("a wrong number of values is a ValueError that names the feature", isinstance(got.exc, ValueError) and (E.symbolic or "'x'" in str(got.exc)), got)
        else:
            E.check("a wrong number of values is rejected", E.eq(n, size))
            content(E, field(), dt, v, "fixed")
    E.check("no other feature changes", getattr(ex.features.feature["other"], LISTS[dt]).value.parts == ["old"])


@unit(P, "a variable-length feature holds exactly its values", [epc._VarLenFeatureHandler.__init__, epc._VarLenFeatureHandler.initialize_encode_cache,
                                                           epc._VarLenFeatureHandler.encode_value, epc._make_cast_fn, epc._make_feature_value_fn], conc=200)
def varlen(E):
    """Whatever was encoded before, and whether or not the feature was absent
    then."""
    dt = E.choice("dtype", kit.DTYPES)
    E.as_bytes = E.choice("text", [True, False]) if dt == tf.string else True
    h = E.new(epc._VarLenFeatureHandler, "x", dt)
    ex = Example(["x", "other"], ["old"])
    E.call(h.initialize_encode_cache, ex)
    for _ in range(E.choice("absent before", [0, 1, 2])):
        E.call(h.encode_value, None)
    f = lambda: getattr(ex.features.feature["x"], LISTS[dt]).value
    what = E.choice("values", ["list", "one", "absent"])
    if what == "absent":
        E.call(h.encode_value, None)
        E.check("an absent value leaves the feature empty", f().parts == [])
    elif what == "one":
        v = drawn(E, dt, "value")
        E.call(h.encode_value, v)
        content(E, f(), dt, [v], "one value")
    else:
        v = E.seq("values", lambda e: drawn(e, dt, "value"))
        E.call(h.encode_value, v)
        content(E, f(), dt, v, "values")
    E.check("no other feature changes", getattr(ex.features.feature["other"], LISTS[dt]).value.parts == ["old"])


# ------------------------------------------------------------- whole encoder
def draw_schema(r):
    """[(name, kind, dtype, argument)]"""
    out = []
    for n in r.sample(kit.NAMES, r.randint(1, 5)):
        kind = r.choice(["fixed", "fixed", "varlen", "sparse", "ragged"])
        dt = r.choice(kit.DTYPES)
        if kind == "fixed":
            arg = r.choice([[], [], [1], [3], [2, 2], [1, 3, 2], [0]])
        elif kind == "ragged":
            arg = r.choice([["r"], ["r", "r"], ["r", 2], ["r", "r", "r"], ["r", 2, 3]])
        else:
            arg = r.choice([1, 1, 2, 3])
        out.append((n, kind, dt, arg))
    return out


def spec_of(n, kind, dt, arg):
    if kind == "fixed":
        return tf.io.FixedLenFeature(arg, dt)
    if kind == "varlen":
        return tf.io.VarLenFeature(dt)
    if kind == "sparse":
        return tf.io.SparseFeature([f"{n}_i{k}" for k in range(arg)] if arg > 1 else f"{n}_i0", f"{n}_v", dt, [10] * arg if arg > 1 else 10)
    parts = [tf.io.RaggedFeature.RowLengths(f"{n}_r{k}") if a == "r" else tf.io.RaggedFeature.UniformRowLength(a) for k, a in enumerate(arg)]
    return tf.io.RaggedFeature(dt, f"{n}_v", parts, row_splits_dtype=tf.int64)


def columns(schema):
    out = {}
    for n, kind, dt, arg in schema:
        if kind in ("fixed", "varlen"):
            out[n] = dt
        elif kind == "sparse":
            out.update({f"{n}_i{k}": tf.int64 for k in range(arg)})
            out[f"{n}_v"] = dt
        else:
            out.update({f"{n}_r{k}": tf.int64 for k, a in enumerate(arg) if a == "r"})
            out[f"{n}_v"] = dt
    return out


def draw_instance(r, schema):
    """(instance, {column: values}, {feature: value parsed})"""
    inst, want, parsed = {}, {}, {}

    def put(col, dt, v, absent=True):
        if not len(v) and absent and r.random() < 0.4:
            inst[col] = None
        else:
            inst[col] = kit.as_form(r, dt, v)
            if dt == tf.string and isinstance(inst[col], list) and r.random() < 0.3:
                inst[col] = [x.decode() if isinstance(x, bytes) else x for x in inst[col]]
            if len(v) == 1 and r.random() < 0.2 and absent:
                inst[col] = v[0]
        want[col] = list(v)
    for n, kind, dt, arg in schema:
        if kind == "fixed":
            v = kit.array(r, dt, arg)
            inst[n] = kit.as_form(r, dt, v) if arg else (v.item() if r.random() < 0.7 else np.asarray(v.item(), dtype={tf.string: object, tf.int64: np.int64, tf.float32: np.float32}[dt]))
            want[n] = v.ravel().tolist()
            parsed[n] = v
            continue
        if kind == "varlen":
            v = [kit.scalar(r, dt) for _ in range(r.choice([0, 0, 1, 2, 3, 6]))]
            put(n, dt, v)
            parsed[n] = v
            continue
        if kind == "sparse":
            idx = sorted({tuple(r.randrange(10) for _ in range(arg)) for _ in range(r.choice([0, 1, 2, 4]))})
            v = [kit.scalar(r, dt) for _ in idx]
            for k in range(arg):
                put(f"{n}_i{k}", tf.int64, [i[k] for i in idx])
            put(f"{n}_v", dt, v)
            parsed[n] = (idx, v)
            continue
        count, lens = 1, []
        for k, a in enumerate(arg):
            if a == "r":
                lens.append([r.choice([0, 1, 2, 3]) for _ in range(count if k else r.choice([0, 1, 2, 3]))])
                put(f"{n}_r{k}", tf.int64, lens[-1])
                count = sum(lens[-1])
            else:
                count *= a
        v = [kit.scalar(r, dt) for _ in range(count)]
        put(f"{n}_v", dt, v)
        parsed[n] = (lens, v)
    return inst, want, parsed


def read(example, col, dt):
    f = example.features.feature
    return list(getattr(f[col], LISTS[dt]).value) if col in f else []


def same_parsed(kind, dt, got, want):
    if kind == "fixed":
        return tuple(got.shape) == want.shape and kit.same(dt, got.numpy(), want)
    if kind == "varlen":
        return kit.same(dt, got.values.numpy(), want) and got.indices.numpy().ravel().tolist() == list(range(len(want)))
    if kind == "sparse":
        return kit.same(dt, got.values.numpy(), want[1]) and [tuple(i) for i in got.indices.numpy().tolist()] == want[0]
    lens, v = want
    return kit.same(dt, got.flat_values.numpy(), v) and [x.numpy().tolist() for x in got.nested_row_lengths()] == lens


@unit(P, "what is encoded parses back, whatever was encoded before", [epc.ExampleProtoCoder.__init__, epc.ExampleProtoCoder.encode, epc.ExampleProtoCoder.__reduce__,
      epc._FixedLenFeatureHandler.encode_value, epc._VarLenFeatureHandler.encode_value], sym=False, conc=500, bounded="schemas of up to 5 features, up to 5 instances per encoder", conc_s=12)
def whole(E):
    def gen(r):
        schema = draw_schema(r)
        return schema, r.random() < 0.6, [(r.choice(["encode", "encode", "pickle", "wrong size", "wrong type", "missing", "no text"]), draw_instance(r, schema), r.random()) for _ in range(r.randint(1, 5))]
    schema, serialized, steps = E.gen("encoder", gen)
    spec = {s[0]: spec_of(*s) for s in schema}
    c = epc.ExampleProtoCoder(schema_utils.schema_from_feature_spec(spec), serialized=serialized)
    cols = columns(schema)
    kept = []
    for what, (inst, want, parsed), pick in steps:
        name, kind, dt, arg = schema[int(pick * len(schema))]
        if what == "pickle":
            c = pickle.loads(pickle.dumps(c))
        elif what == "missing":
            broken = dict(inst)
            del broken[sorted(broken)[int(pick * len(broken))]]
            E.check("an instance without one of its features is rejected", isinstance(E.attempt(lambda: c.encode(broken)), Raised), broken)
        elif what == "no text" and kind in ("fixed", "varlen") and dt == tf.string:
            v = [kit.scalar(random.Random(pick), dt) for _ in range(int(np.prod(arg, dtype=int)) if kind == "fixed" else 1 + int(pick * 3))]
            if v:
                v[int(pick * len(v))] = "a\ud800b"
                broken = dict(inst, **{name: np.array(v, dtype=object).reshape(arg).tolist() if kind == "fixed" else v})
                got = E.attempt(lambda: c.encode(broken))
                E.check("text that cannot be encoded is rejected", isinstance(got, Raised), (name, broken[name]))
        elif what == "wrong size" and kind == "fixed" and arg == [1] and dt != tf.string and pick < 0.4:
            got = E.attempt(lambda: c.encode(dict(inst, **{name: 1})))
            E.check("a number where a vector is declared is an error that names the feature", isinstance(got, Raised) and repr(name)[1:-1] in str(got.exc), (name, got))
        elif what == "wrong size" and kind == "fixed" and arg:
            r = random.Random(pick)
            size = int(np.prod(arg))
            broken = dict(inst, **{name: [kit.scalar(r, dt) for _ in range(size + 1 if pick < 0.7 or not size else size - 1)]})
            got = E.attempt(lambda: c.encode(broken))
            E.check("a wrong number of values is an error that names the feature", isinstance(got, Raised) and isinstance(got.exc, ValueError) and repr(name) in str(got.exc), (name, got))
        elif what == "wrong type" and kind in ("fixed", "varlen") and dt != tf.string:
            broken = dict(inst, **{name: b"text" if arg == [] else [b"text"] * int(np.prod(arg, dtype=int)) if kind == "fixed" else [b"text"]})
            if not (kind == "fixed" and arg and (len(arg) > 1 or 0 in arg)):
                got = E.attempt(lambda: c.encode(broken))
                E.check("a value of another type is an error that names the feature", isinstance(got, Raised) and name in str(got.exc), (name, got))
        before = pickle.dumps(inst)
        out = E.attempt(lambda: c.encode(inst))
        E.check("an instance that fits is encoded", not isinstance(out, Raised), (inst, out))
        E.check("the instance is left alone", pickle.dumps(inst) == before)
        E.check("serialized exactly if asked for", isinstance(out, bytes if serialized else tf.train.Example), type(out))
        if not isinstance(out, bytes if serialized else tf.train.Example):
            return
        kept.append((out, want))
        example = tf.train.Example.FromString(out) if serialized else out
        for col, t in cols.items():
            E.check("each feature holds its values", kit.same(t, read(example, col, t), want[col]), (col, read(example, col, t), want[col]))
        E.check("and there is no other feature", set(example.features.feature) <= set(cols), example)
        fresh = epc.ExampleProtoCoder(schema_utils.schema_from_feature_spec(spec), serialized=False).encode(inst)
        E.check("the result does not depend on earlier calls", all(read(example, col, t) == read(fresh, col, t) or kit.same(t, read(example, col, t), read(fresh, col, t)) for col, t in cols.items()))
        # TensorFlow parses empty or uniform ragged columns only if present
        back = tf.io.parse_single_example(example.SerializeToString(), spec)
        for n, kind, dt, arg in schema:
            if kind == "ragged" and arg[-1] != "r":
                E.check("the values parse back", kit.same(dt, back[n].flat_values.numpy(), parsed[n][1]), (n, back[n], parsed[n]))
            else:
                E.check("parsing gives the instance back", same_parsed(kind, dt, back[n], parsed[n]), (n, back[n], parsed[n]))
    if not serialized:
        for out, want in kept:
            for col, t in cols.items():
                E.check("results of earlier calls stay as they were", kit.same(t, read(out, col, t), want[col]), col)


@unit(P, "only what can be encoded is accepted", [epc.ExampleProtoCoder.__init__], sym=False, conc=40, bounded="kinds of partitions of ragged features")
def construction(E):
    R = tf.io.RaggedFeature
    kind = E.choice("partition", ["row splits", "uniform then ragged", "value rowids", "limits"])
    parts = {"row splits": [R.RowSplits("s")], "uniform then ragged": [R.UniformRowLength(2), R.RowLengths("l")], "value rowids": [R.ValueRowIds("i")],
             "limits": [R.RowLimits("l")]}[kind]
    spec = {"x": R(tf.int64, "v", parts, row_splits_dtype=tf.int64)}
    got = E.attempt(lambda: epc.ExampleProtoCoder(schema_utils.schema_from_feature_spec(spec)))
    E.check("a partition that cannot be encoded is rejected", isinstance(got, Raised), got)
