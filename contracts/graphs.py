"""Evaluating repository graph code natively (v1 graph and session)."""
import logging

import numpy as np
import tensorflow as tf


def run(build):
    """build() -> nested structure of tensors, evaluated in a fresh graph."""
    with tf.Graph().as_default():
        out = build()
        with tf.compat.v1.Session() as s:
            s.run([tf.compat.v1.global_variables_initializer(), tf.compat.v1.tables_initializer()])
            return s.run(out)


def text(b):
    return b if isinstance(b, bytes) else str(b).encode()


def tensor(rows, dt, kind):
    """rows: list of lists -> dense (equal lengths), sparse or ragged tensor."""
    if kind == "dense":
        n = len(rows[0]) if rows else 0
        return tf.constant(np.array([t for r in rows for t in r], dtype=object if dt == "string" else dt).reshape(len(rows), n), dtype=dt) \
            if rows and n else tf.zeros([len(rows), n], tf.int64) if dt != "string" else tf.constant([[]] * len(rows), tf.string)
    vals = [t for r in rows for t in r]
    rag = tf.RaggedTensor.from_row_lengths(tf.constant(vals, dtype=dt) if vals else tf.constant([], dtype=dt),
                                           tf.constant([len(r) for r in rows], tf.int64))
    if kind == "ragged2":  # rows of rows: the first row has no rows, the others two at most
        n = len(rows)
        return tf.RaggedTensor.from_row_lengths(rag, tf.constant([0] + [2] * (n // 2) + [1] * (n % 2), tf.int64))
    return rag if kind == "ragged" else rag.to_sparse()


def rows_of(v):
    """Evaluated dense/sparse/ragged value -> list of lists per row."""
    if isinstance(v, tf.compat.v1.SparseTensorValue):
        out = [[] for _ in range(int(v.dense_shape[0]))]
        for (i, *_), x in zip(v.indices.tolist(), v.values.tolist()):
            out[i].append(x)
        return out
    if isinstance(v, tf.compat.v1.ragged.RaggedTensorValue):
        return v.to_list()
    return v.tolist()


def structure(v):
    if isinstance(v, tf.compat.v1.SparseTensorValue):
        return ("sparse", v.indices.tolist(), v.dense_shape.tolist())
    if isinstance(v, tf.compat.v1.ragged.RaggedTensorValue):
        return ("ragged", [s.tolist() for s in v.nested_row_splits])
    return ("dense", v.shape)


def rect(rows, fill):
    """Cuts or fills rows to one length."""
    n = max((len(r) for r in rows), default=0)
    return [r + [fill] * (n - len(r)) for r in rows]
