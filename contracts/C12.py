"""C12: CSV encoding is unambiguous and faithful."""
import csv
import io
import pickle

import numpy as np
import tensorflow as tf

from tensorflow_transform.coders import csv_coder
from tensorflow_transform.tf_metadata import schema_utils
from pyvc.harness import unit, Raised
from contracts import coderkit as kit

P = "C12"


class Encoder:
    """An encoder of lists of which only the interface is known."""
    _pyvc_symbolic = True

    def __init__(self): self.got = []

    def encode_record(self, values):
        self.got.append(values)
        return b"joined"


def text(E, name, kind):
    return E.bytes(name) if kind == "bytes" else E.str(name)


def decoded(E, x):
    return E.call(tf.compat.as_str_any, x)


@unit(P, "a fixed-length feature fills its field and no other", [csv_coder._FixedLenFeatureHandler.__init__, csv_coder._FixedLenFeatureHandler.encode_value], conc=120)
def fixed(E):
    shape = E.choice("shape", [(), (1,), (3,), (0,), (5,)])
    kind = E.choice("text", ["bytes", "str"])
    multivalent = E.choice("multivalent", [True, False])
    at = E.choice("column", [0, 1, 2])
    enc = Encoder() if multivalent else None
    h = E.new(csv_coder._FixedLenFeatureHandler, "x", tf.io.FixedLenFeature(list(shape), tf.string), at, enc)
    row = ["before0", "before1", "before2"]
    if shape == ():
        v = text(E, "value", kind)
        got = E.attempt(lambda: E.call(h.encode_value, row, v))
        n, want = 1, v
    else:
        v = E.seq("values", lambda e: text(e, "value", kind))
        got = E.attempt(lambda: E.call(h.encode_value, row, v))
        n = E.call(len, v)
    size = int(np.prod(shape, dtype=int))
    if isinstance(got, Raised):
        E.check("a fitting number of values is accepted", E.Or(E.Not(E.eq(n, size)), not multivalent and size != 1), got)
        E.check("a wrong number of values is a ValueError", isinstance(got.exc, ValueError), got)
    else:
        E.check("a wrong number of values is rejected", E.eq(n, size), (n, size))
        if multivalent:
            E.check("the field is the joined values", row[at] == b"joined" and len(enc.got) == 1 and (enc.got[0] is v or shape == () and len(enc.got[0]) == 1 and enc.got[0][0] is v))
        else:
            E.check("several values do not fit a field", size == 1)
            E.check("the field is the value", E.eq(row[at], decoded(E, v if shape == () else E.item(v, 0))), row[at])
    E.check("no other field changes", all(row[i] == f"before{i}" for i in range(3) if i != at))


@unit(P, "a variable-length feature fills its field and no other", [csv_coder._VarLenFeatureHandler.__init__, csv_coder._VarLenFeatureHandler.encode_value], conc=120)
def varlen(E):
    kind = E.choice("text", ["bytes", "str"])
    multivalent = E.choice("multivalent", [True, False])
    at = E.choice("column", [0, 1, 2])
    enc = Encoder() if multivalent else None
    h = E.new(csv_coder._VarLenFeatureHandler, "x", tf.string, at, enc)
    row = ["before0", "before1", "before2"]
    v = E.seq("values", lambda e: text(e, "value", kind))
    n = E.call(len, v)
    got = E.attempt(lambda: E.call(h.encode_value, row, v))
    if isinstance(got, Raised):
        E.check("what fits is accepted", E.And(not multivalent, E.Not(E.le(n, 1))), got)
        E.check("what does not fit is a ValueError", isinstance(got.exc, ValueError), got)
    elif multivalent:
        E.check("the field is the joined values", row[at] == b"joined" and len(enc.got) == 1 and enc.got[0] is v)
    else:
        E.check("several values do not fit a field", E.le(n, 1), n)
        if E.eq(n, 0):
            E.check("no value is an empty field", row[at] == "", row[at])
        else:
            E.check("the field is the value", E.eq(row[at], decoded(E, E.item(v, 0))), row[at])
    E.check("no other field changes", all(row[i] == f"before{i}" for i in range(3) if i != at))


class Buffer:
    """io.StringIO under its contract for writing at the end and truncation."""
    _pyvc_symbolic = True

    def __init__(self): self.parts, self.pos = [], "end"

    def getvalue(self):
        return self.parts[0] if len(self.parts) == 1 else Mixed(self.parts)

    def seek(self, n):
        self.pos = n

    def truncate(self, n=None):
        assert n == 0 or (n is None and self.pos == 0), "truncation elsewhere"
        self.parts = []
        self.was = self.pos


class Mixed:
    def __init__(self, parts): self.parts = parts


class Written:
    def __init__(self, record): self.record = record


class Writer:
    _pyvc_symbolic = True

    def __init__(self, buffer, fail): self.buffer, self.fail = buffer, fail

    def writerow(self, record):
        if self.fail == "writing":
            raise csv.Error("no")
        self.buffer.parts.append(Written(record))


@unit(P, "a record is encoded from an empty buffer and leaves it empty", [csv_coder.CsvCoder._WriterWrapper.encode_record], conc=0)
def record(E):
    w = object.__new__(csv_coder.CsvCoder._WriterWrapper)
    fail = E.choice("fails", [None, "writing", "as bytes"])
    w._buffer = Buffer()
    w._writer = Writer(w._buffer, fail)

    def as_bytes(x, *a):
        if fail == "as bytes":
            raise UnicodeEncodeError("utf-8", "x", 0, 1, "surrogate")
        return x
    E.stub(tf.compat, "as_bytes", as_bytes)
    v = E.seq("record", lambda e: e.bytes("value"))
    got = E.attempt(lambda: E.call(w.encode_record, v))
    E.check("the buffer is empty for the next record", w._buffer.parts == [] and w._buffer.pos == 0 and getattr(w._buffer, "was", 0) == 0, (w._buffer.parts, w._buffer.pos))
    E.check("it fails exactly if the record cannot be written", isinstance(got, Raised) == (fail is not None), got)
    if fail is None and not isinstance(got, Raised):
        E.check("the result is this record alone", isinstance(got, Written), got)
        n = E.int("index", 0)
        E.check("with one field per value", E.eq(E.call(len, got.record), E.call(len, v)))
        E.assume(E.Not(E.le(E.call(len, v), n)))
        E.check("each field is the text of its value", E.eq(E.item(got.record, n), decoded(E, E.item(v, n))))


# ------------------------------------------------------------- whole encoder
def draw_schema(r):
    """[(name, kind, dtype, shape or index dimensions, multivalent)]"""
    out = []
    names = r.sample(kit.NAMES, r.randint(1, 4))
    multi = r.random() < 0.7
    for n in names:
        kind = r.choice(["fixed", "fixed", "varlen", "varlen", "sparse"])
        dt = r.choice(kit.DTYPES)
        m = multi and r.random() < 0.6
        if kind == "fixed":
            arg = r.choice([[], [], [1], [1, 1]] + ([[2], [3], [2, 2], [0]] if m else []))
        else:
            arg = r.choice([1, 1, 2, 3])
        out.append((n, kind, dt, arg, m))
    return out, multi


def columns(schema):
    out = []
    for n, kind, dt, arg, m in schema:
        if kind == "sparse":
            out += [f"{n}_i{k}" for k in range(arg)] + [f"{n}_v"]
        else:
            out.append(n)
    return out


def draw_instance(r, schema):
    """(instance, {column: (dtype, values)})"""
    inst, want = {}, {}
    for n, kind, dt, arg, m in schema:
        if kind == "fixed":
            v = kit.array(r, dt, arg)
            inst[n] = v.item() if arg == [] else kit.as_form(r, dt, v)
            want[n] = (dt, v.ravel().tolist())
            continue
        k = r.choice([0, 0, 1, 2, 3]) if m else r.choice([0, 1])
        cols = [(n, dt)] if kind == "varlen" else [(f"{n}_i{j}", tf.int64) for j in range(arg)] + [(f"{n}_v", dt)]
        for c, t in cols:
            v = [r.randrange(10) for _ in range(k)] if "_i" in c and c.split("_i")[0] == n and kind == "sparse" else [kit.scalar(r, t) for _ in range(k)]
            inst[c] = kit.as_form(r, t, v)
            want[c] = (t, v)
    return inst, want


def parse(cell, dt):
    return cell.encode() if dt == tf.string else int(cell) if dt == tf.int64 else float(cell)


def read(line, delimiter):
    rows = list(csv.reader(io.StringIO(line.decode(), newline=""), delimiter=delimiter))
    return rows


BAD = {"surrogate": "x\ud800", "latin": b"\xff\xfe"}


@unit(P, "what is encoded reads back", [csv_coder.CsvCoder.__init__, csv_coder.CsvCoder.encode, csv_coder.CsvCoder.__reduce__, csv_coder.CsvCoder._WriterWrapper.encode_record], sym=False, conc=1500,
      bounded="schemas of up to 4 features, up to 5 instances per encoder")
def whole(E):
    def gen(r):
        (schema, multi), n = draw_schema(r), r.randint(1, 5)
        steps = []
        for _ in range(n):
            steps.append((r.choice(["encode", "encode", "encode", "pickle", "fail", "missing"]), draw_instance(r, schema), r.random(), r.choice(list(BAD))))
        return schema, multi, r.choice([",", ",", "\t", ";", "|"]), r.choice(["|", ";", "|", ",", "'"]), r.getrandbits(32), steps
    schema, multi, d1, d2, seed, steps = E.gen("encoder", gen)
    import random
    cols = columns(schema)
    random.Random(seed).shuffle(cols)
    spec = {}
    for n, kind, dt, arg, m in schema:
        spec[n] = {"fixed": lambda: tf.io.FixedLenFeature(arg, dt), "varlen": lambda: tf.io.VarLenFeature(dt),
                   "sparse": lambda: tf.io.SparseFeature([f"{n}_i{k}" for k in range(arg)], f"{n}_v", dt, [10] * arg)}[kind]()
    c = csv_coder.CsvCoder(cols, schema_utils.schema_from_feature_spec(spec), delimiter=d1, secondary_delimiter=d2 if multi else None,
                           multivalent_columns=[s[0] for s in schema if s[4]] if multi else None)
    multivalent = {}
    for n, kind, dt, arg, m in schema:
        for col in ([n] if kind != "sparse" else [f"{n}_i{k}" for k in range(arg)] + [f"{n}_v"]):
            multivalent[col] = m
    for what, (inst, want), pick, bad in steps:
        if what == "pickle":
            c = pickle.loads(pickle.dumps(c))
        if what == "missing":
            broken = dict(inst)
            del broken[sorted(broken)[int(pick * len(broken))]]
            E.check("an instance without one of its columns is rejected", isinstance(E.attempt(lambda: c.encode(broken)), Raised), broken)
        if what == "fail":
            texts = [n for n, kind, dt, arg, m in schema if kind == "fixed" and dt == tf.string and arg in ([], [1])]
            if texts:
                n = texts[int(pick * len(texts))]
                broken = dict(inst, **{n: BAD[bad] if [s for s in schema if s[0] == n][0][3] == [] else [BAD[bad]]})
                E.check("text that cannot be encoded is rejected", isinstance(E.attempt(lambda: c.encode(broken)), Raised), broken)
            for n, kind, dt, arg, m in schema:
                size = int(np.prod(arg, dtype=int))
                if kind == "fixed" and arg and m and pick < 0.5:
                    broken = dict(inst, **{n: [kit.scalar(__import__("random").Random(seed), dt)] * (size + 1)})
                    E.check("a wrong number of values is rejected", isinstance(E.attempt(lambda: c.encode(broken)), Raised), broken)
                if kind == "varlen" and not m:
                    broken = dict(inst, **{n: [kit.scalar(__import__("random").Random(seed), dt)] * 2})
                    E.check("several values are rejected where there is no second delimiter", isinstance(E.attempt(lambda: c.encode(broken)), Raised), broken)
        line = E.attempt(lambda: c.encode(inst))
        E.check("an instance that fits is encoded", not isinstance(line, Raised), (inst, line))
        rows = read(line, d1)
        if cols == [cols[0]] and not rows:
            rows = [[""]]
        E.check("one record of one field per column", len(rows) == 1 and len(rows[0]) == len(cols), (line, rows))
        for col, cell in zip(cols, rows[0]):
            dt, vals = want[col]
            if multivalent[col]:
                inner = read(cell.encode(), d2)
                E.check("a multivalent field is one record", len(inner) <= 1, (col, cell))
                got = [parse(x, dt) for x in inner[0]] if inner else []
            elif len(vals) == 0:
                E.check("no value is an empty field", cell == "", (col, cell))
                continue
            else:
                got = [parse(cell, dt)]
            E.check("the values read back", kit.same(dt, got, vals), (col, got, vals, line))
        E.check("encoding again gives the same bytes", c.encode(inst) == line, inst)
        E.check("so does a pickled copy", pickle.loads(pickle.dumps(c)).encode(inst) == line, inst)


@unit(P, "columns and features must match", [csv_coder.CsvCoder.__init__], sym=False, conc=80, bounded="schemas of up to 4 features")
def construction(E):
    (schema, multi), pick = E.gen("schema", lambda r: (draw_schema(r), r.random()))
    cols = columns(schema)
    spec = {}
    for n, kind, dt, arg, m in schema:
        spec[n] = {"fixed": lambda: tf.io.FixedLenFeature(arg, dt), "varlen": lambda: tf.io.VarLenFeature(dt),
                   "sparse": lambda: tf.io.SparseFeature([f"{n}_i{k}" for k in range(arg)], f"{n}_v", dt, [10] * arg)}[kind]()
    s = schema_utils.schema_from_feature_spec(spec)
    gone = cols[int(pick * len(cols))]
    got = E.attempt(lambda: csv_coder.CsvCoder([c for c in cols if c != gone], s, secondary_delimiter="|"))
    E.check("a feature without a column is rejected", isinstance(got, Raised) and isinstance(got.exc, ValueError), gone)
    got = E.attempt(lambda: csv_coder.CsvCoder(cols, s, multivalent_columns=[schema[0][0]]))
    E.check("multivalent columns need a second delimiter", isinstance(got, Raised) and isinstance(got.exc, ValueError))
    ragged = dict(spec, r=tf.io.RaggedFeature(tf.int64, "rv", [tf.io.RaggedFeature.RowLengths("rl")], row_splits_dtype=tf.int64))
    got = E.attempt(lambda: csv_coder.CsvCoder(cols + ["r", "rv", "rl"], schema_utils.schema_from_feature_spec(ragged), secondary_delimiter="|"))
    E.check("ragged features are rejected", isinstance(got, Raised), got)
