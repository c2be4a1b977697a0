"""C23: a saved transform computes the same values as the pipeline that wrote it."""
import os
import shutil

import apache_beam as beam
import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
import tensorflow_transform.beam as tft_beam
from tensorflow_transform import graph_context, impl_helper, output_wrapper, tf2_utils
from tensorflow_transform.saved import saved_transform_io as v1_io, saved_transform_io_v2 as v2_io
from tensorflow_transform.tf_metadata import dataset_metadata
from pyvc.harness import unit, Raised
from contracts import coderkit as kit, e2e

P = "C23"
F, V, S, R = tf.io.FixedLenFeature, tf.io.VarLenFeature, tf.io.SparseFeature, tf.io.RaggedFeature
SPEC = {"a": F([], tf.float32), "b": F([], tf.float32), "m": F([2], tf.float32), "t": F([], tf.string), "v": V(tf.string), "n": F([], tf.int64),
        "s": S(["s$i", "s$j"], "s$v", tf.float32, [3, 4]), "r": R(tf.int64, "r$v", [], tf.int64)}
WORDS = ["a", "b", "cc", "", "d d", "\u00e9", "A"]


def draw_row(r):
    cells = sorted({(r.randrange(3), r.randrange(4)) for _ in range(r.choice([0, 1, 2]))})
    num = lambda: float(r.choice([0, 1, 2, 3, -4, 10, 0.5]))
    return {"a": num(), "b": num(), "m": [num(), num()], "t": r.choice(WORDS), "v": [r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 3]))], "n": r.randint(-3, 9),
            "s$i": [i for i, _ in cells], "s$j": [j for _, j in cells], "s$v": [num() for _ in cells], "r$v": [r.randint(0, 9) for _ in range(r.choice([0, 1, 2, 4]))]}


def feed(rows, keys=None):
    """The rows as a batch of tensors, as a parser gives them."""
    def ragged2(lists, dtype):
        return tf.RaggedTensor.from_row_lengths(tf.constant([x for l in lists for x in l], dtype), tf.constant([len(l) for l in lists], tf.int64))
    n = len(rows)
    out = {}
    for k, dt in (("a", tf.float32), ("b", tf.float32), ("m", tf.float32), ("t", tf.string), ("n", tf.int64)):
        out[k] = tf.reshape(tf.constant([row[k] for row in rows], dt), [n, 2] if k == "m" else [n])
    v = [row["v"] for row in rows]
    out["v"] = tf.SparseTensor(np.array([[i, j] for i, l in enumerate(v) for j in range(len(l))], np.int64).reshape(-1, 2), tf.constant([x for l in v for x in l], tf.string), [n, max(map(len, v), default=0)])
    out["s"] = tf.SparseTensor(np.array([[i, a, b] for i, row in enumerate(rows) for a, b in zip(row["s$i"], row["s$j"])], np.int64).reshape(-1, 3), tf.constant([x for row in rows for x in row["s$v"]], tf.float32), [n, 3, 4])
    out["r"] = ragged2([row["r$v"] for row in rows], tf.int64)
    return {k: x for k, x in out.items() if keys is None or k in keys}


# kind -> (inputs read, builds [(suffix, tensor)])
def make(kind, x, k, p, q):
    """One output of the preprocessing function."""
    if kind == "scale":
        return tft.scale_to_z_score(x[p])
    if kind == "mean":
        return x[p] - tft.mean(x[q])
    if kind == "apply":
        return tft.compute_and_apply_vocabulary(x["t"], vocab_filename=f"vocab_{k}" if k % 2 else None, num_oov_buckets=k % 3, default_value=-7)
    if kind == "varlen":
        return tft.compute_and_apply_vocabulary(x["v"], top_k=3, default_value=k)
    if kind == "twice":
        f = tft.vocabulary(x["t"], vocab_filename=f"my words {k}")
        return tf.stack([tft.apply_vocabulary(x["t"], f), tft.apply_vocabulary(tf.strings.lower(x["t"]), f, default_value=9)], 1)
    if kind == "bucket":
        return tft.bucketize(x[p], 3)
    if kind == "by key":
        return tft.scale_by_min_max_per_key(x[p], x["t"])
    if kind == "bag":
        return tft.tfidf(tft.compute_and_apply_vocabulary(x["v"]), 10)[0]
    if kind == "sparse":
        return tf.SparseTensor(x["s"].indices, x["s"].values - tft.min(x["s"]), x["s"].dense_shape)
    if kind == "ragged":
        return x["r"] + tft.max(x["r"])
    if kind == "hash":
        return tft.hash_strings(x["t"], 5 + k)
    if kind == "matrix":
        return tft.scale_to_0_1(x["m"], elementwise=True)
    if kind == "cond":
        return tf.cond(tft.mean(x[p]) > 0, lambda: x[q] + 1.0, lambda: x[q] * tft.max(x[p]) if False else x[q] * 2.0)
    if kind == "table":
        t = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.constant([-1, 0, 1, 2], tf.int64), tf.constant([1, 2, 3, k], tf.int64)), 5)
        return t.lookup(x["n"])
    if kind == "copy":
        return tf.identity(x[p])
    raise ValueError(kind)


KINDS = {"scale": "p", "mean": "p", "apply": "t", "varlen": "v", "twice": "t", "bucket": "p", "by key": "pt", "bag": "v", "sparse": "s", "ragged": "r", "hash": "t", "matrix": "m", "cond": "q", "table": "n", "copy": "p"}


def draw_program(r):
    return [(r.choice(list(KINDS)), r.choice("ab"), r.choice("ab")) for _ in range(r.randint(1, 5))]


def pfn(steps):
    return lambda x: {f"out {k}": make(kind, x, k, p, q) for k, (kind, p, q) in enumerate(steps)}


def reads(step):
    kind, p, q = step
    return {p if c == "p" else q if c == "q" else c for c in KINDS[kind]}


def dense(v):
    """A comparable form of a tensor or tensor value."""
    if isinstance(v, (tf.SparseTensor, tf.compat.v1.SparseTensorValue)):
        return ("sparse", np.asarray(v.indices).tolist(), np.asarray(v.values).tolist(), np.asarray(v.dense_shape).tolist())
    if isinstance(v, (tf.RaggedTensor, tf.compat.v1.ragged.RaggedTensorValue)):
        return ("ragged", v.to_list())
    return ("dense", np.asarray(v).tolist())


def close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) or isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True))
    return a == b


SINK = []


def keep(row):
    SINK.append(row)


def write(steps, rows, where, v1):
    """Analyzes the rows, writes the transform, and returns what it makes of
    `test`."""
    md = dataset_metadata.DatasetMetadata.from_feature_spec(SPEC)

    def run(test):
        del SINK[:]
        with beam.Pipeline() as p, tft_beam.Context(temp_dir=os.path.join(where, "tmp"), force_tf_compat_v1=v1, desired_batch_size=len(test)):
            fn = (p | "rows" >> beam.Create(rows), md) | tft_beam.AnalyzeDataset(pfn(steps))
            _ = fn | tft_beam.WriteTransformFn(os.path.join(where, "out"))
            data, _ = ((p | "test" >> beam.Create([test]) | beam.FlatMap(list), md), fn) | tft_beam.TransformDataset()
            _ = data | beam.Map(keep)
        return list(SINK)
    return run


def columns(v, name, step):
    """The columns a row of the pipeline has for a value of the batch."""
    tag, *parts = dense(v)
    if tag == "dense":
        return [{name: x} for x in parts[0]]
    if tag == "ragged":
        return [{name + "$ragged_values": x} for x in parts[0]]
    idx, vals, shape = parts
    out = []
    for i in range(shape[0]):
        mine = [(ix, x) for ix, x in zip(idx, vals) if ix[0] == i]
        if step[0] == "sparse":
            out.append({f"{name}$sparse_indices_{d}": [ix[d + 1] for ix, _ in mine] for d in range(len(shape) - 1)} | {f"{name}$sparse_values": [x for _, x in mine]})
        else:
            out.append({name: [x for _, x in mine]})
    return out


def same_rows(E, got, want, steps, keys, label):
    n = len(want)
    E.check(label + ": the outputs computed from what is given", sorted(got) == sorted(f"out {k}" for k, s in enumerate(steps) if reads(s) <= keys), (sorted(got), steps, sorted(keys)))
    for k, step in enumerate(steps):
        name = f"out {k}"
        if name not in got:
            continue
        rows = columns(got[name], name, step)
        E.check(label + ": as many rows", len(rows) == n, (len(rows), n))
        for row, full in zip(rows, want):
            for c, v in row.items():
                w = full[c]
                w = w.tolist() if isinstance(w, np.ndarray) else w
                E.check(label + ": the value the pipeline computes", close(v, w), (step, c, v, w))


@unit(P, "a reloaded transform gives what the pipeline gave", [v2_io.SavedModelLoader.apply_transform_model, v1_io.partially_apply_saved_transform_internal], sym=False, conc=12, conc_s=30, bounded="programs of up to 5 outputs of 15 kinds, up to 6 rows", weight=2)
def whole(E):
    steps, other, rows, test, v1, some = E.gen("program", lambda r: (draw_program(r), r.random() < 0.5 and draw_program(r), [draw_row(r) for _ in range(r.randint(1, 6))], [draw_row(r) for _ in range(r.randint(1, 4))], r.random() < 0.5,
                                                            r.sample(sorted(SPEC), r.randint(1, len(SPEC)))))
    tmp = e2e.scratch()
    try:
        want = write(steps, rows, tmp, v1)(test)
        moved = os.path.join(tmp, "moved")
        os.rename(os.path.join(tmp, "out"), moved)
        shutil.rmtree(os.path.join(tmp, "tmp"))
        if other:
            write(other, test, os.path.join(tmp, "other"), v1)(rows)
            decoy = tft.TFTransformOutput(os.path.join(tmp, "other", "out")).transform_features_layer()(feed(test))
        out = tft.TFTransformOutput(moved)
        every = set(SPEC)
        layer = out.transform_features_layer()
        same_rows(E, dict(layer(feed(test))), want, steps, every, "layer")
        same_rows(E, dict(layer(feed(test, some))), want, steps, set(some), "layer, some inputs")
        if not (v1 and any(kind == "cond" for kind, _, _ in steps)):      # TensorFlow cannot import the branches twice
            f = tf.function(lambda x: dict(out.transform_raw_features(x)))
            same_rows(E, f(feed(test)), want, steps, every, "raw features")
        loader = v2_io.SavedModelLoader(out.transform_savedmodel_dir)
        if not v1:
            loader.finalize(some, [f"out {k}" for k, s in enumerate(steps) if reads(s) <= set(some)])
        same_rows(E, loader.apply_transform_model(feed(test, some)), want, steps, set(some), "finalized")
        if v1:
            with tf.compat.v1.Graph().as_default() as g, tf.compat.v1.Session() as s:
                if other:
                    tft.TFTransformOutput(os.path.join(tmp, "other", "out")).transform_raw_features(feed(test))
                outs = out.transform_raw_features(feed(test, some))
                s.run([tf.compat.v1.global_variables_initializer(), tf.compat.v1.tables_initializer()])
                same_rows(E, s.run(dict(outs)), want, steps, set(some), "in a graph")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    E.cover("TF1" if v1 else "TF2")


# ----------------------------------------------- saving and loading on its own
def draw_function(r, v1):
    """[(kind, first, second)] over float columns numbered from the inputs a, b
    on, and which results are outputs."""
    steps = []
    for k in range(2, 2 + r.randint(1, 7)):
        steps.append((r.choice(["file"] * 4 + ["add", "neg", "cond", "call", "control", "words", "length", "file", "matrix", "cells", "sums", "const", "number", "nested", "places", "lengths", "extent", "variable"]), r.randrange(k), r.randrange(k)))
    if v1:             # TensorFlow cannot cut out a tensor from what it is only run after
        steps = [(kind, p, p if kind == "control" else q) for kind, p, q in steps]
    outs = r.sample(range(2 + len(steps)), r.randint(1, min(4, 1 + len(steps))))
    more = [(kind, r.choice(outs)) for kind in r.sample(["pairs", "lists", "wide", "text"], r.randint(0, 3))]
    return steps, outs, more


HELD = {}           # the variables of the functions


def build(x, steps, outs, more, path, scale=1.0):
    vals = [x["a"], x["b"]]
    size = lambda: tf.shape(x["a"])
    for k, (kind, p, q) in enumerate(steps):
        a, b = vals[p], vals[q]
        if kind == "add":
            out = a * scale + b
        elif kind == "neg":
            out = -a
        elif kind == "cond":
            out = tf.cond(tf.reduce_sum(a) > 0, lambda: b + 1.0, lambda: b * 2.0)
        elif kind == "call":
            out = tf.function(lambda u, v: (u - v, u * 2 + v), autograph=False)(a, b)[k % 2]
        elif kind == "nested":
            g = tf.function(lambda u: tf.cond(tf.reduce_sum(u) > 0, lambda: u + 1.0, lambda: u * 2.0), autograph=False)
            out = tf.function(lambda u: g(u) + 1.0, autograph=False)(a)
        elif kind == "control":
            with tf.control_dependencies([b * 2]):
                out = tf.identity(a) + 1
        elif kind == "words":
            t = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.constant(WORDS), tf.constant([float(k + i) for i in range(len(WORDS))])), -1.0)
            out = t.lookup(x["t"]) * scale
        elif kind == "length":
            out = tf.cast(tf.strings.length(x["t"]), tf.float32) + a
        elif kind == "file":
            t = tf.lookup.StaticHashTable(tf.lookup.TextFileInitializer(path if k % 2 or tf.compat.v1.executing_eagerly_outside_functions() else tf.constant(path, name=f"path_{k}"), tf.string, tf.lookup.TextFileIndex.WHOLE_LINE, tf.int64, tf.lookup.TextFileIndex.LINE_NUMBER), -1)
            out = tf.cast(t.lookup(x["t"]), tf.float32) + a * 0
        elif kind == "matrix":
            out = tf.reduce_sum(x["m"], 1) + a
        elif kind == "cells":
            out = tf.reduce_sum(tf.sparse.to_dense(tf.sparse.reorder(x["s"])), [1, 2])
        elif kind == "sums":
            out = tf.cast(tf.reduce_sum(x["r"], 1), tf.float32)
        elif kind == "places":
            out = tf.cast(tf.math.unsorted_segment_sum(x["s"].indices[:, 2], x["s"].indices[:, 0], tf.size(x["a"])), tf.float32) + a
        elif kind == "lengths":
            out = tf.cast(x["r"].row_lengths(), tf.float32)
        elif kind == "extent":
            out = tf.cast(x["v"].dense_shape[1] * 0 + tf.cast(tf.range(tf.shape(x["b"])[0]), tf.int64), tf.float32)
        elif kind == "variable":
            if not tf.compat.v1.executing_eagerly_outside_functions():
                var = tf.Variable(k + scale, trainable=False, name=f"variable_{k}")
            else:
                if (id(steps), k) not in HELD:
                    with tf.init_scope():
                        HELD[id(steps), k] = tf.Variable(k + scale, trainable=False)
                var = HELD[id(steps), k]
            out = a * var
        elif kind == "number":
            out = tf.cast(x["n"], tf.float32) * 3.0
        else:
            out = a * 0.0 + float(k)
        vals.append(out)
    made = {f"o{k}": vals[k] for k in outs}
    for kind, k in more:
        v = vals[k]
        if kind == "pairs":
            made["pairs"] = tf.SparseTensor(x["s"].indices, x["s"].values + tf.gather(v, x["s"].indices[:, 0]), x["s"].dense_shape)
        elif kind == "lists":
            made["lists"] = x["r"] * 2
        elif kind == "wide":
            made["wide"] = tf.stack([v, v + 1.0], 1)
        else:
            made["text"] = tf.SparseTensor(x["v"].indices, tf.strings.lower(x["v"].values), x["v"].dense_shape)
    return made


def inputs_of(steps, outs, more):
    deps = [{"a"}, {"b"}]
    for kind, p, q in steps:
        d = {"add": deps[p] | deps[q], "cond": deps[p] | deps[q], "call": deps[p] | deps[q], "words": {"t"}, "length": {"t"} | deps[p], "file": {"t"} | deps[p], "matrix": {"m"} | deps[p], "cells": {"s"}, "sums": {"r"}, "number": {"n"}, "places": {"a", "s"} | deps[p], "lengths": {"r"}, "extent": {"v", "b"}}
        deps.append(d.get(kind, deps[p]))
    out = {f"o{k}": deps[k] for k in outs}
    for kind, k in more:
        out[kind] = {"pairs": {"s"} | deps[k], "lists": {"r"}, "wide": deps[k], "text": {"v"}}[kind]
    return out


SPECS = {"a": tf.TensorSpec([None], tf.float32), "b": tf.TensorSpec([None], tf.float32), "m": tf.TensorSpec([None, 2], tf.float32), "t": tf.TensorSpec([None], tf.string), "n": tf.TensorSpec([None], tf.int64),
         "v": tf.SparseTensorSpec([None, None], tf.string), "s": tf.SparseTensorSpec([None, 3, 4], tf.float32), "r": tf.RaggedTensorSpec([None, None], tf.int64, 1, tf.int64)}


def save(fn, where, v1):
    if v1:
        with tf.compat.v1.Graph().as_default(), tf.compat.v1.Session() as s:
            ins = impl_helper.batched_placeholders_from_specs(SPECS)
            out = fn(ins)
            s.run([tf.compat.v1.global_variables_initializer(), tf.compat.v1.tables_initializer()])
            v1_io.write_saved_transform_from_session(s, ins, out, where)
        return
    module = tf.Module()
    context = graph_context.TFGraphContext(module_to_export=module, temp_dir=None, evaluated_replacements=None)
    f = impl_helper.get_traced_transform_fn(preprocessing_fn=fn, input_signature=SPECS, tf_graph_context=context, output_keys_to_name_map=None)
    v2_io.write_v2_saved_model(module, f, "transform_fn", where, None)


@unit(P, "a function saved and loaded again is the same function", [v2_io.SavedModelLoader.apply_transform_model, v2_io.SavedModelLoader.finalize, v2_io.SavedModelLoader._get_fetches, v2_io._get_output_to_inputs_map, v2_io.optimize_concrete_function,
      v1_io.partially_apply_saved_transform_internal, v1_io._expand_input_map, v1_io.write_saved_transform_from_session, tf2_utils.supply_missing_inputs, tf2_utils.get_structured_inputs_from_func_graph],
      sym=False, conc=120, conc_s=40, bounded="functions of up to 7 steps of 18 kinds, up to 5 rows", weight=2)
def loaded(E):
    program, again, rows, v1, some = E.gen("function", lambda r: ((v1 := r.random() < 0.5) and None or draw_function(r, v1), draw_function(r, v1), [draw_row(r) for _ in range(r.randint(1, 5))], v1, r.sample(sorted(SPECS), r.randint(1, len(SPECS)))))
    tmp = e2e.scratch()
    try:
        HELD.clear()
        paths = [os.path.join(tmp, n) for n in ("words", "more")]
        for k, p in enumerate(paths):
            os.mkdir(p)
            with open(os.path.join(p, "list"), "w") as f:
                f.write("\n".join(["a", "cc", "A", "b"][::[1, -1][k]]))
        paths = [os.path.join(p, "list") for p in paths]
        models = []
        for k, prog in enumerate((program, again)):
            where = os.path.join(tmp, f"model {k}")
            save(lambda x: build(x, *prog, paths[k], k + 1.0), where, v1)
            models.append(where + " moved")
            want = {n: dense(v) for n, v in build(feed(rows), *prog, paths[k], k + 1.0).items()}
            models[-1] = (where + " moved", want, inputs_of(*prog))
            os.rename(where, where + " moved")
        for p in paths:
            os.remove(p)

        def check(got, model, keys, label):
            _, want, needs = model
            E.check(label + ": the outputs of the inputs given, and no other", set(got) == {n for n in want if needs[n] <= set(keys)}, (program, again, v1, some, sorted(got)))
            for n in got:
                E.check(label + ": the same values", close(dense(got[n]), want[n]), (n, dense(got[n]), want.get(n), program, again, v1))
        loaders = [v2_io.SavedModelLoader(w) for w, _, _ in models]
        for l, m in zip(loaders, models):
            check(l.apply_transform_model(feed(rows)), m, SPECS, "all")
            check(l.apply_transform_model(feed(rows, some)), m, some, "some")
            out = tf.function(lambda x, l=l: l.apply_transform_model(x))(feed(rows, some))
            check(out, m, some, "in a function")
            bad = E.attempt(lambda: l.apply_transform_model(dict(feed(rows), extra=tf.constant([1.0]))))
            E.check("inputs it does not have are rejected", isinstance(bad, Raised) and isinstance(bad.exc, ValueError), bad)
        if not v1:
            for l, m in zip(loaders, models):
                outs = [n for n in m[1] if m[2][n] <= set(some)]
                bad = [n for n in m[1] if not m[2][n] <= set(some)]
                if bad:
                    E.check("outputs of other inputs cannot be asked for", isinstance(E.attempt(lambda: l.finalize(some, outs + bad[:1])), Raised))
                if outs:
                    l.finalize(some, outs)
                    got = l.apply_transform_model(feed(rows, some))
                    check(got, m, some, "finalized")
                    l.finalize(some, outs[:1])
                    got = l.apply_transform_model(feed(rows, some))
                    E.check("only the outputs asked for", set(got) == set(outs[:1]) and close(dense(got[outs[0]]), m[1][outs[0]]), (sorted(got), outs))
        else:
            for k in (0, 1):
                if not any(kind in ("cond", "call", "nested", "variable") for kind, _, _ in (program, again)[k][0]):
                    got = tf.function(lambda x, k=k: v1_io.partially_apply_saved_transform_internal(models[k][0], x)[1])(feed(rows))
                    check(got, models[k], SPECS, "imported into a function")
            for mixed in ([0], [0, 1], [1, 0]):
                with tf.compat.v1.Graph().as_default(), tf.compat.v1.Session() as s:
                    made = []
                    for k in mixed:
                        missing, outs = v1_io.partially_apply_saved_transform_internal(models[k][0], feed(rows, some))
                        E.check("the other inputs are left open", set(missing) == set(SPECS) - set(some), sorted(missing))
                        made.append((k, {n: v for n, v in outs.items() if models[k][2][n] <= set(some)}))
                        E.check("all outputs are there", set(outs) == set(models[k][1]))
                    s.run([tf.compat.v1.global_variables_initializer(), tf.compat.v1.tables_initializer()])
                    for k, outs in made:
                        check(s.run(outs) if outs else {}, models[k], some, "in a graph")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    E.cover("TF1" if v1 else "TF2")
