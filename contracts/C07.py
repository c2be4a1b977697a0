"""C07: applying a vocabulary gives each token its line number, others in-range ids."""
import os
import shutil

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzers, mappers, schema_inference, tf_utils
from contracts import e2e, graphs
from contracts.C05 import spec_vocab, first_letter
from pyvc.harness import unit, Raised

P = "C07"
APPLY = [mappers._apply_vocabulary_internal, mappers.apply_vocabulary]


@unit(P, "the range recorded for the ids contains every id that can be produced", APPLY, conc=0)
def recorded_range(E):
    oov = E.int("num_oov_buckets", 0, 50)
    default = E.int("default_value", -1000, 1000)
    size = E.int("vocabulary size", 1, 100000)
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    x = E.arr("x", space="batch*feat", kind="tf", dtype="int64")
    ids = E.arr("ids", space="batch*feat", kind="tf", dtype="int64")
    from contracts.C01 import wrap
    from pyvc import core
    i = ids.el
    # assumed contract of TensorFlow's lookup tables
    E.assume(E.Or(E.And(i >= 0, i < size),
                  E.And(E.eq(oov, 0), E.eq(i, default)),
                  E.And(oov > 0, i >= size, i < size + oov)))
    seen = []

    def lookup(construct, path, values):
        seen.append((path, values))
        return ids, E.ite(oov > 0, size + oov, size)
    E.stub(tf_utils, "construct_and_lookup_table", lookup)
    E.stub(schema_inference, "set_tensor_schema_override", lambda t, lo, hi: seen.append((t, lo, hi)))
    arg = x if kind == "dense" else wrap(E, x, kind)
    r = E.call(mappers.apply_vocabulary, arg, "vocab", default_value=default, num_oov_buckets=oov)
    E.check("one lookup in the given vocabulary", len(seen) == 2 and seen[0][0] == "vocab")
    looked = seen[0][1]
    E.check("every value is looked up", E.eq(core.el_of(looked), x.el))
    t, lo, hi = seen[1]
    E.check("the range is recorded for the ids produced", t is ids)
    E.check("the range contains every id", E.And(i >= lo, i <= hi))
    E.check("the range is tight", E.And(E.Or(E.eq(lo, 0), E.And(E.eq(oov, 0), E.eq(lo, default))),
                                        E.Or(E.eq(hi, size + oov - 1), E.And(E.eq(oov, 0), E.eq(hi, default)))))
    out = r if kind == "dense" else r.values if kind == "sparse" else r.flat_values
    E.check("the ids are returned", out is ids)
    if kind == "sparse":
        E.check("structure kept", r.indices is arg.indices and r.dense_shape is arg.dense_shape)
    if kind == "ragged":
        E.check("structure kept", r.nested_row_splits is arg.nested_row_splits)


@unit(P, "an empty vocabulary file name or a value that is no token is rejected", APPLY, conc=40)
def rejected(E):
    dt = E.choice("dtype", ["float32", "float64", "int64"])
    x = E.arr("x", space="batch", kind="tf", dtype=dt)
    path = E.choice("path", [None, "", b"", "vocab"])
    if E.symbolic:
        E.stub(tf_utils, "construct_and_lookup_table", lambda c, p, v: (v, 5))
        E.stub(schema_inference, "set_tensor_schema_override", lambda t, lo, hi: None)
    if dt == "int64" and path == "vocab" and not E.symbolic:
        return
    r = E.attempt(mappers.apply_vocabulary, x, path)
    E.check("rejected exactly if so", isinstance(r, Raised) == (dt != "int64" or not path), repr(r))
    if isinstance(r, Raised):
        E.check("ValueError", isinstance(r.exc, ValueError))


def write_vocab(path, tokens, fmt, store):
    lines = [(b"%d " % (len(tokens) - i)) + t if store else t for i, t in enumerate(tokens)]
    if fmt == "text":
        with open(path, "wb") as f:
            f.write(b"".join(l + b"\n" for l in lines))
        return path
    path += ".tfrecord.gz"
    with tf.io.TFRecordWriter(path, "GZIP") as w:
        for l in lines:
            w.write(l)
    return path


def case_gen(r):
    dt = r.choice(["string", "string", "int64"])
    if dt == "string":
        al = ["a", "b", "ab", "\u00e9", "x y", "-1", "z" * 9, ""] if r.random() < 0.7 else [str(i) for i in range(12)]
        vocab = [t for t in al if t and r.random() < 0.6] or ["a"]
    else:
        al = [-3, -1, 0, 1, 2, 5, 77, 2 ** 40]
        vocab = [t for t in al if r.random() < 0.6] or [0]
    r.shuffle(vocab)
    rows = [[r.choice(al) for _ in range(r.randint(0, 4))] for _ in range(r.randint(1, 5))]
    return dt, vocab, rows, al


@unit(P, "tokens of the vocabulary get their line number, the others the default or an id of their own bucket",
      APPLY + [mappers._make_construct_vocabulary_table_function, tf_utils.construct_and_lookup_table,
               tf_utils.make_tfrecord_vocabulary_lookup_initializer, tf_utils._make_tfrecord_vocabulary_dataset,
               tf_utils._split_vocabulary_entries],
      sym=False, bounded="generated vocabularies of up to 12 tokens and batches of up to 5 rows", conc=80, conc_s=16, weight=2)
def lookup(E):
    dt, vocab, rows, al = E.gen("case", case_gen)
    kind = E.choice("representation", ["dense", "sparse", "ragged", "ragged2"])
    fmt = E.choice("format", ["text", "tfrecord_gzip"])
    store = E.choice("store_frequency", [False, True])
    oov = E.choice("num_oov_buckets", [0, 0, 1, 2, 7])
    default = E.choice("default_value", [-1, 0, 3, 100, -50])
    if store and fmt == "text":
        vocab = [t.replace(" ", "_") if isinstance(t, str) else t for t in vocab]
        rows = [[t.replace(" ", "_") if isinstance(t, str) else t for t in row] for row in rows]
    if kind == "dense":
        rows = graphs.rect(rows, al[0])
    tmp = e2e.scratch()
    try:
        path = write_vocab(os.path.join(tmp, "v"), [graphs.text(t) if dt != "string" else t.encode() for t in vocab], fmt, store)

        def build():
            x = graphs.tensor(rows, dt, kind)
            r = mappers._apply_vocabulary_internal(x, tf.constant(path), default, oov, None, fmt, store, None)
            lo, hi = schema_inference.get_tensor_schema_override(tf_utils.get_values(r))
            return x, r, lo, hi, mappers.get_num_buckets_for_transformed_feature(tf_utils.get_values(r))
        x, r, lo, hi, buckets = graphs.run(build)
        again = graphs.run(lambda: mappers._apply_vocabulary_internal(
            tf.constant(al, dt), tf.constant(path), default, oov, None, fmt, store, None))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    E.check("structure kept", graphs.structure(x) == graphs.structure(r), f"{x} {r}")
    alone = dict(zip(al, again.tolist()))
    got = graphs.rows_of(r)
    if kind == "ragged2":
        got = [row for rs in got for row in rs]
    E.check("one row of ids per row", len(got) == len(rows))
    for a, b in zip(rows, got):
        E.check("one id per value", len(a) == len(b))
        for t, i in zip(a, b):
            if t in vocab:
                E.check("a token of the vocabulary gets its line number", i == vocab.index(t), f"{t!r} -> {i}; {vocab}")
            elif oov:
                E.check("an unknown token gets an id after the vocabulary", len(vocab) <= i < len(vocab) + oov, f"{t!r} -> {i}")
                if t in alone:
                    E.check("chosen by the token alone", alone[t] == i, f"{t!r} -> {i} or {alone[t]}")
            else:
                E.check("an unknown token gets the default value", i == default, f"{t!r} -> {i}")
            E.check("the id is in the recorded range", lo <= i <= hi, f"{i} not in [{lo}, {hi}]")
    E.check("recorded range", (int(lo), int(hi)) == ((0, len(vocab) + oov - 1) if oov else (
        min(0, default), max(len(vocab) - 1, default))), f"{lo} {hi}")
    E.check("number of buckets", int(buckets) == int(hi) + 1)


@unit(P, "hashing keeps the structure and gives equal strings equal ids below the bucket count", [mappers.hash_strings],
      sym=False, bounded="generated batches of up to 6 rows", conc=120, conc_s=8)
def hashed(E):
    r = E.rng
    rows = E.gen("rows", lambda r: [["".join(r.choice("ab\u00e9 ") for _ in range(r.randint(0, 3))) for _ in range(r.randint(0, 4))]
                                    for _ in range(r.randint(1, 6))])
    kind = E.choice("representation", ["dense", "sparse", "ragged", "ragged2"])
    if kind == "dense":
        rows = graphs.rect(rows, "q")
    n = E.choice("buckets", [1, 2, 10, 1000])
    key = E.choice("key", [None, [1, 2], [7, 2 ** 40]])
    x = graphs.tensor(rows, "string", kind)
    h = mappers.hash_strings(x, n, key)
    f = (lambda t: tf.strings.to_hash_bucket_fast([t], n)) if key is None else (
        lambda t: tf.strings.to_hash_bucket_strong([t], n, key))
    got = h.numpy().tolist() if kind == "dense" else (h.to_list() if kind.startswith("ragged") else tf.RaggedTensor.from_sparse(h).to_list())
    want = [[int(f(t)[0]) for t in row] for row in rows]
    if kind == "ragged2":
        E.check("structure kept", [np.array_equal(a, b) for a, b in zip(h.nested_row_splits, x.nested_row_splits)] == [True, True])
        got = [row for rs in h.to_list() for row in rs]
    if kind == "sparse":
        E.check("structure kept", np.array_equal(h.indices, x.indices) and np.array_equal(h.dense_shape, x.dense_shape))
        E.check("ids", h.values.numpy().tolist() == [i for row in want for i in row])
    else:
        E.check("ids", [list(g) for g in got] == want, f"{got} want {want}")
    flat = [i for row in want for i in row]
    E.check("in range", all(0 <= i < n for i in flat))
    bad = E.attempt(mappers.hash_strings, tf.constant([1, 2]), n)
    E.check("only strings are hashed", isinstance(bad, Raised) and isinstance(bad.exc, TypeError))


@unit(P, "spaces are replaced before a vocabulary with counts is written or read", [tf_utils.maybe_format_vocabulary_input],
      sym=False, bounded="generated batches", conc=80, conc_s=5)
def spaces(E):
    rows = E.gen("rows", lambda r: [["".join(r.choice("ab \n") for _ in range(r.randint(0, 4))) for _ in range(r.randint(0, 4))]
                                    for _ in range(r.randint(1, 6))])
    kind = E.choice("representation", ["dense", "sparse", "ragged"])
    if kind == "dense":
        rows = graphs.rect(rows, "q")
    x = graphs.tensor(rows, "string", kind)
    y = tf_utils.maybe_format_vocabulary_input(x)
    vals = tf_utils.get_values(y).numpy().reshape(-1).tolist()
    E.check("values", vals == [t.replace(" ", "__SPACE__").encode() for row in rows for t in row])
    E.check("same kind", type(x) is type(y))


def rows_gen(r):
    al = ["a", "b", "ab", "c", "ca", "d", "\u00e9", "b c"]
    ints = [-2, 0, 1, 2, 3, 11]
    return [{"x": [r.choice(al) for _ in range(r.randint(0, 4))], "i": [r.choice(ints) for _ in range(r.randint(0, 3))],
             "f": r.choice(al)} for _ in range(r.randint(1, 8))]


@unit(P, "compute_and_apply_vocabulary maps the data to positions in the vocabulary of the data", APPLY + [
    mappers.compute_and_apply_vocabulary], sym=False, bounded="generated data sets of up to 8 rows", conc=8, conc_s=16, weight=3)
def whole(E):
    r = E.rng
    rows = E.gen("rows", rows_gen)
    spec = {"x": tf.io.VarLenFeature(tf.string), "i": tf.io.VarLenFeature(tf.int64), "f": tf.io.FixedLenFeature([], tf.string)}
    variants = {}
    for k in range(2):
        o = dict(col=r.choice("xxif"), default_value=r.choice([-1, -1, 0, 9]), num_oov_buckets=r.choice([0, 0, 1, 3]))
        if r.random() < 0.5:
            o["top_k"] = r.choice([1, 2, 3])
        if r.random() < 0.4:
            o["frequency_threshold"] = r.choice([2, 3])
        o["store_frequency"] = r.random() < 0.4
        o["file_format"] = r.choice(["text", "text", "tfrecord_gzip"])
        if r.random() < 0.3:
            o["fingerprint_shuffle"] = True
        if o["col"] != "i" and r.random() < 0.3:
            o["reserved_tokens"] = ["<pad>", "a"]
        if r.random() < 0.25:
            o["key_fn"], o["coverage_top_k"] = first_letter, 1
        variants[f"v{k}"] = o
    E.note(variants)

    def pfn(ins):
        out = {}
        for n, o in variants.items():
            out[n] = tft.compute_and_apply_vocabulary(ins[o["col"]], vocab_filename=n, **{k: v for k, v in o.items() if k != "col"})
        return out
    fresh = rows + [{"x": ["unseen", "a"], "i": [12345], "f": "unseen"}]
    data, tm = e2e.analyze_transform(pfn, rows, spec, E.choice("batch size", [1, 3, 100]), transform_rows=fresh)
    for n, o in variants.items():
        sp = o["store_frequency"] and o["file_format"] == "text"
        fmt = (lambda t: t.replace(" ", "__SPACE__") if isinstance(t, str) and sp else t)
        vals = [[fmt(t) for t in (row[o["col"]] if isinstance(row[o["col"]], list) else [row[o["col"]]])] for row in fresh]
        want, *_ = spec_vocab([{"x": v} for v in vals[:-1]], dict(o, dtype="int64" if o["col"] == "i" else "string"))
        vocab = [t for _, t in want]
        dom = [f for f in tm.schema.feature if f.name == n][0].int_domain
        got = [np.atleast_1d(row[n]).tolist() for row in data]
        for a, b in zip(vals, got):
            E.check("one id per value", len(a) == len(b), f"{n} {o}: {a} {b}")
            for t, i in zip(a, b):
                tb = graphs.text(t) if not isinstance(t, str) else t.encode()
                ok = i == vocab.index(tb) if tb in vocab else (
                    len(vocab) <= i < len(vocab) + o["num_oov_buckets"] if o["num_oov_buckets"] else i == o["default_value"])
                E.check("id", ok, f"{n} {o}: {t!r} -> {i}; vocabulary {vocab}")
                E.check("id in the range of the schema", dom.min <= i <= dom.max, f"{n} {o}: {i} not in [{dom.min}, {dom.max}]")
        if o["num_oov_buckets"]:
            rng = (0, len(vocab) + o["num_oov_buckets"] - 1)
        else:
            rng = (min(0, o["default_value"]), max(len(vocab) - 1, o["default_value"]))
        E.check("range of the schema", (dom.min, dom.max) == rng, f"{n} {o}: [{dom.min}, {dom.max}] want {rng}")


@unit(P, "the lookup table is built from whole lines or from the token column, with the given default or buckets",
      [mappers._make_construct_vocabulary_table_function], conc=40)
def table_built(E):
    oov = E.int("num_oov_buckets", 0, 50)
    default = E.int("default_value", -1000, 1000)
    store = E.choice("store_frequency", [False, True])
    fmt = E.choice("format", ["text", "tfrecord_gzip", "other"])
    x = E.arr("x", space="batch", kind="tf", dtype=E.choice("dtype", ["string", "int64"]))
    made = []

    def text_init(*a, **k):
        made.append(("text", a, k))
        return "init"

    def record_init(*a, **k):
        made.append(("record", a, k))
        return "init"
    E.stub(tf.lookup, "TextFileInitializer", text_init)
    E.stub(tf_utils, "make_tfrecord_vocabulary_lookup_initializer", record_init)
    E.stub(tf.lookup, "StaticVocabularyTable", lambda *a, **k: ("buckets", a, k))
    E.stub(tf.lookup, "StaticHashTable", lambda *a, **k: ("default", a, k))
    f = E.call(mappers._make_construct_vocabulary_table_function, x, fmt, oov, default, store)
    r = E.attempt(f, "path")
    E.check("an unknown format is rejected", isinstance(r, Raised) == (fmt == "other"))
    if fmt == "other":
        E.check("by a ValueError", isinstance(r.exc, ValueError))
        return
    E.check("one initializer", len(made) == 1 and made[0][0] == ("text" if fmt == "text" else "record"))
    _, a, k = made[0]
    if fmt == "text":
        names = ["filename", "key_dtype", "key_index", "value_dtype", "value_index", "vocab_size", "delimiter"]
        k = {**dict(zip(names, a)), **k}
        E.check("file", k["filename"] == "path")
        E.check("keys", k["key_dtype"] == x.dtype and k["key_index"] == (1 if store else tf.lookup.TextFileIndex.WHOLE_LINE))
        E.check("values are line numbers", k["value_dtype"] == tf.int64 and k["value_index"] == tf.lookup.TextFileIndex.LINE_NUMBER)
        E.check("columns", not store or k["delimiter"] == " ")
        E.check("all lines", k.get("vocab_size") is None)
    else:
        k = {**dict(zip(["filename", "key_dtype", "value_dtype", "return_indicator_as_value", "has_indicator"], a)), **k}
        E.check("file", k["filename"] == "path")
        E.check("keys", k["key_dtype"] == x.dtype)
        E.check("values are line numbers", not k["return_indicator_as_value"])
        E.check("counts are dropped", bool(k["has_indicator"]) == store)
    kind, a, k = r
    names = ["initializer", "num_oov_buckets", "lookup_key_dtype"] if kind == "buckets" else ["initializer", "default_value"]
    k = {**dict(zip(names, a)), **k}
    E.check("table of the file", k["initializer"] == "init")
    E.check("buckets if there are any", (oov > 0) if kind == "buckets" else E.eq(oov, 0))
    if kind == "buckets":
        E.check("number of buckets", E.eq(k["num_oov_buckets"], oov))
        E.check("lookup of the same type", k.get("lookup_key_dtype") in (None, x.dtype) or k["lookup_key_dtype"] == x.dtype)
    else:
        E.check("default", E.eq(k["default_value"], default))
