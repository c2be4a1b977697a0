"""C11: text features (n-grams, bag of words, tf-idf, counts)."""
import math

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import mappers, tf_utils
from contracts import e2e, graphs
from pyvc.harness import unit, Raised

P = "C11"
TOKENS = [b"a", b"b", b"", b"ab", b"the", b" ", b"\xc3\xa9", b"a b", b"-"]


# ------------------------------------------------------------------- values
def draw_rows(r, tokens=TOKENS, most=6):
    few = r.sample(tokens, r.randint(1, min(4, len(tokens))))
    if b"" in tokens and r.random() < 0.4:
        few[0] = b""
    return [[r.choice(few) for _ in range(r.choice([0, 0, 1, 2, 3, r.randint(0, 9)]))] for _ in range(r.randint(0, most))]


def sparse(rows, dt, gaps):
    """gaps: number of empty columns left before each token of a row."""
    idx, vals, width = [], [], 0
    k = 0
    for i, row in enumerate(rows):
        c = 0
        for t in row:
            c += gaps[k % len(gaps)] if gaps else 0
            idx.append([i, c])
            vals.append(t)
            c, k = c + 1, k + 1
        width = max(width, c)
    return tf.SparseTensor(tf.constant(idx, tf.int64, shape=[len(idx), 2]), tf.constant(vals, dt, shape=[len(vals)]), tf.constant([len(rows), width + (gaps[0] if gaps else 0)], tf.int64))


def unknown_sizes(t):
    """The tensor as a placeholder of unknown sizes."""
    if isinstance(t, tf.SparseTensor):
        d = lambda v, s: tf.compat.v1.placeholder_with_default(v, s)
        return tf.SparseTensor(d(t.indices, [None, 2]), d(t.values, [None]), d(t.dense_shape, [2]))
    return tf.compat.v1.placeholder_with_default(t, [None] * t.shape.rank)


def well_formed(v):
    """Row-major, left-aligned and inside a dense shape of least width."""
    seen, last = {}, (-1, -1)
    for i, j in v.indices.tolist():
        if (i, j) <= last or j != seen.get(i, 0):
            return False
        last, seen[i] = (i, j), j + 1
    return list(v.dense_shape)[1] == max(seen.values(), default=0) and all(i < v.dense_shape[0] for i in seen)


def runs(row, lo, hi, sep):
    return [sep.join(row[i:i + k]) for i in range(len(row)) for k in range(lo, hi + 1) if i + k <= len(row)]


def draw_text(r):
    lo = r.randint(1, 4)
    return draw_rows(r), r.choice([[], [], [0, 1], [2], [0, 0, 3, 1]]), lo, r.randint(lo, lo + 3), r.choice([b" ", b"", b"--", b"a"])


# ------------------------------------------------------------------- n-grams
@unit(P, "n-grams are exactly the runs of tokens of a row, in order", [mappers.ngrams, mappers.segment_indices], sym=False, conc=150, conc_s=8,
      bounded="batches of up to 6 rows of up to 9 tokens, n-grams of up to 7 tokens")
def ngrams(E):
    rows, gaps, lo, hi, sep = E.gen("text", draw_text)
    got = graphs.run(lambda: tft.ngrams(unknown_sizes(sparse(rows, tf.string, gaps)), (lo, hi), sep.decode()))
    E.check("the runs of each row", graphs.rows_of(got) == [runs(row, lo, hi, sep) for row in rows], (rows, lo, hi, sep, got))
    E.check("left-aligned rows", well_formed(got), got)
    E.cover("gaps" if gaps else "no gaps")


@unit(P, "impossible n-gram ranges and shapes are rejected", [mappers.ngrams, mappers.bag_of_words], conc=40)
def rejected(E):
    class Text:
        def get_shape(self): return tf.TensorShape([None] * rank)
    rank = E.choice("rank", [1, 2, 3])
    lo, hi = E.int("lowest", lo=-5, hi=5), E.int("highest", lo=-5, hi=5)
    bad = rank != 2
    E.assume(E.Or(bad, lo < 1, hi < lo))
    f = E.choice("function", [mappers.ngrams, mappers.bag_of_words])
    out = E.attempt(f, Text(), (lo, hi), " ")
    E.check("rejected", isinstance(out, Raised) and isinstance(out.exc, ValueError), str(out))


@unit(P, "a bag of words lists the different n-grams of a row once", [mappers.bag_of_words, mappers.deduplicate_tensor_per_row], sym=False, conc=60, conc_s=8,
      bounded="batches of up to 6 rows of up to 9 tokens")
def bag(E):
    rows, gaps, lo, hi, sep = E.gen("text", draw_text)
    got = graphs.run(lambda: tft.bag_of_words(unknown_sizes(sparse(rows, tf.string, gaps)), (lo, hi), sep.decode()))
    out = graphs.rows_of(got)
    E.check("each once", len(out) == len(rows) and all(len(set(o)) == len(o) and set(o) == set(runs(row, lo, hi, sep)) for o, row in zip(out, rows)), (rows, lo, hi, sep, got))
    E.check("left-aligned rows", well_formed(got), got)


@unit(P, "removing duplicates keeps exactly the different values of each row", [mappers.deduplicate_tensor_per_row], sym=False, conc=150, conc_s=8,
      bounded="batches of up to 6 rows of up to 9 values")
def distinct(E):
    def draw(r):
        dt = r.choice(["string", "string", "string", "int64", "float32", "int32"])
        kind = r.choice(["sparse", "sparse", "sparse", "sparse", "dense", "dense unknown rank", "rank 1", "rank 1 unknown"])
        rows = draw_rows(r, TOKENS if dt == "string" else [0, 1, -1, 7, 2**31 - 1] if dt.startswith("int") else [0.0, 1.0, -2.5, float("inf")])
        return dt, kind, graphs.rect(rows, rows[0][0] if rows and rows[0] else b"" if dt == "string" else 1) if kind.startswith("dense") else rows, r.choice([[], [1], [0, 2]])
    dt, kind, rows, gaps = E.gen("batch", draw)
    if kind.startswith("rank 1"):
        rows = [row[:1] or [b"" if dt == "string" else 3] for row in rows]

    def make():
        if kind == "sparse":
            t = unknown_sizes(sparse(rows, dt, gaps))
        else:
            a = np.array([t for row in rows for t in row], dtype=object if dt == "string" else dt)
            a = a.reshape([len(rows)] if kind.startswith("rank 1") else [len(rows), len(rows[0]) if rows else 0])
            t = tf.constant(a, dtype=dt, shape=a.shape) if a.size else tf.zeros(a.shape, tf.dtypes.as_dtype(dt)) if dt != "string" else tf.fill(a.shape, "")
            t = tf.compat.v1.placeholder_with_default(t, None if "unknown" in kind else [None] * a.ndim)
        return tft.mappers.deduplicate_tensor_per_row(t)
    got = graphs.run(make)
    out = graphs.rows_of(got)
    E.check("the different values of each row", len(out) == len(rows) and all(sorted(o) == sorted(set(row)) for o, row in zip(out, rows)), (dt, kind, rows, got))
    E.check("left-aligned rows", well_formed(got) or kind.startswith("rank 1") and not rows, got)
    E.cover(kind)


# -------------------------------------------------------------------- counts
@unit(P, "word counts are the numbers of tokens of the rows", [mappers.word_count], sym=False, conc=150, conc_s=6,
      bounded="batches of up to 6 rows, rank up to 4")
def word_count(E):
    def draw(r):
        rows = draw_rows(r)
        kind = r.choice(["sparse", "ragged", "deep"])
        return rows, kind, r.choice([[], [1], [0, 2]]), r.choice([2, 3, 4]), [r.randint(0, 2) for _ in range(60)], r.choice([tf.string, tf.float32])
    rows, kind, gaps, rank, inner, dt = E.gen("batch", draw)
    if dt == tf.float32:
        rows = [[0.0 if t == b"a" else float(len(t)) for t in row] for row in rows]

    def make():
        if kind == "ragged":
            return tft.word_count(graphs.tensor(rows, "string" if dt == tf.string else "float32", "ragged"))
        s = sparse(rows, dt, gaps)
        if kind == "deep":          # positions spread over further axes
            n = [len(row) for row in rows]
            idx = [[i, *((j,) if rank == 2 else (j // 3, j % 3) if rank == 3 else (j // 3, inner[j], j % 3))] for i in range(len(rows)) for j in range(n[i])]
            s = tf.SparseTensor(tf.constant(idx, tf.int64, shape=[len(idx), rank]), s.values, tf.constant([len(rows), *[10] * (rank - 1)], tf.int64))
        return tft.word_count(s)
    got = graphs.run(make)
    E.check("the number of tokens of each row", got.tolist() == [len(row) for row in rows] and got.dtype == np.int64, (rows, kind, rank, got))


@unit(P, "positions within segments count up from zero", [mappers.segment_indices], sym=False, conc=100, conc_s=4, bounded="up to 12 values")
def segments(E):
    def draw(r):
        ids = sorted(r.choice([r.randint(0, 3), r.randint(0, 30)]) for _ in range(r.randint(0, 12)))
        return ids, r.choice(["int32", "int64"])
    ids, dt = E.gen("segments", draw)
    got = graphs.run(lambda: tft.segment_indices(tf.constant(ids, dt, shape=[len(ids)])))
    E.check("number of earlier values of the segment", got.tolist() == [ids[:i].count(s) for i, s in enumerate(ids)] and got.dtype == dt, (ids, got))


# -------------------------------------------------------------------- tf-idf
@unit(P, "inverse document frequency", [tf_utils.document_frequency_to_idf], conc=200)
def idf(E):
    smooth, base = E.choice("smooth", [True, False]), E.choice("baseline", [True, False])
    n = E.int("corpus", lo=1, hi=10**6)
    d = E.arr("documents", space="vocab", kind="tf", dtype="int64", lo=0 if smooth else 1, hi=10**6)
    got = E.call(tf_utils.document_frequency_to_idf, d, n, smooth, base)

    def same(g, k):
        want = E.log((n + 1) / (k + 1) if smooth else n / k) + (1 if base else 0)
        return E.eq(g, want) if E.symbolic else abs(g - want) <= 1e-4 * max(1, abs(want))
    E.elementwise("log of the ratio plus the baseline", same, got, d)


def draw_ids(r):
    return [[r.randrange(-1, 7) if r.random() < 0.1 else r.randrange(0, r.choice([1, 3, 6])) for _ in range(r.choice([0, 1, 2, 3, r.randint(0, 9)]))] for _ in range(r.randint(1, 6))]


def weights(rows, docs, n, smooth, size):
    """Per row: {term: weight} for ids already in range."""
    def idf(t):
        d = sum(t in row for row in docs)
        return 1 + (math.log((n + 1) / (d + 1)) if smooth else math.log(n / d) if d else math.inf)
    return [{t: row.count(t) / len(row) * idf(t) for t in row} for row in rows]


@unit(P, "term frequencies, document counts and weights of a batch", [mappers._to_term_frequency, mappers._count_docs_with_term, mappers._to_tfidf, mappers._split_tfidfs_to_outputs],
      sym=False, conc=100, conc_s=8, bounded="batches of up to 6 rows of up to 9 ids")
def batch(E):
    def draw(r):
        rows = [[t % 6 for t in row] for row in draw_ids(r)]
        return rows, r.choice([[], [1], [0, 2]]), r.randint(6, 8), [r.randint(1, 9) for _ in range(8)], r.random() < 0.5, r.random() < 0.5
    rows, gaps, size, counts, smooth, dynamic = E.gen("batch", draw)
    n = max(counts)

    def make():
        x = unknown_sizes(sparse(rows, tf.int64, gaps))
        f = mappers._to_term_frequency(x, tf.constant(size, tf.int64) if dynamic else size)
        w = mappers._to_tfidf(f, tf.constant([counts[:size]], tf.int64), tf.constant(n), smooth)
        return f, mappers._count_docs_with_term(f), w, mappers._split_tfidfs_to_outputs(w)
    f, c, w, (ids, ws) = graphs.run(make)
    at = {(i, t): row.count(t) / len(row) for i, row in enumerate(rows) for t in row}
    E.check("share of the row", {tuple(p): v for p, v in zip(f.indices.tolist(), f.values.tolist())} == at and len(f.values) == len(at), (rows, f))
    E.check("documents containing each term", np.asarray(c).shape == (1, size) and np.asarray(c)[0].tolist() == [sum(t in row for row in rows) for t in range(size)], (rows, c))
    idf = [1 + (math.log((n + 1) / (k + 1)) if smooth else math.log(n / k)) for k in counts]
    got = {tuple(p): v for p, v in zip(w.indices.tolist(), w.values.tolist())}
    E.check("weights", set(got) == set(at) and all(abs(got[p] - at[p] * idf[p[1]]) < 1e-4 * max(1, abs(idf[p[1]])) for p in at), (rows, counts, w))
    E.check("ids and weights are aligned", well_formed(ids) and ids.indices.tolist() == ws.indices.tolist() and ids.dense_shape.tolist() == ws.dense_shape.tolist(), (rows, ids, ws))
    E.check("one entry per term and row", ids.dense_shape[0] == len(rows) and [(i, t, v) for (i, _), t, v in zip(ids.indices.tolist(), ids.values.tolist(), ws.values.tolist())] == sorted((i, t, v) for (i, t), v in got.items()), (rows, ids, ws))


@unit(P, "tf-idf of a batch uses the statistics of the whole data", [mappers.tfidf], sym=False, conc=100, conc_s=7, bounded="batches of up to 6 rows of up to 9 ids; data of the other batches arbitrary")
def one_batch(E):
    """The sums over the data are those of this batch and of an arbitrary rest."""
    def draw(r):
        rows, size = draw_ids(r), r.choice([1, 2, 4, 6, 7])
        more = r.randint(0, 5)
        return rows, r.choice([[], [1], [0, 2]]), size, [r.randint(0, more) for _ in range(size)], more, r.random() < 0.7, r.random() < 0.5
    rows, gaps, size, rest, more, smooth, dynamic = E.gen("batch", draw)

    def total(x, reduce_instance_dims=True, name=None, output_dtype=None):
        if reduce_instance_dims:
            return tf.reduce_sum(x) + more
        return tf.reduce_sum(x, 0) + tf.constant(rest, x.dtype)
    E.stub(mappers.analyzers, "sum", total)
    got = graphs.run(lambda: tft.tfidf(unknown_sizes(sparse(rows, tf.int64, gaps)), tf.constant(size, tf.int64) if dynamic else size, smooth))
    ids, ws = got
    clean = [[t % size for t in row] for row in rows]
    n = len(rows) + more
    docs = [sum(t in row for row in clean) + rest[t] for t in range(size)]
    E.check("ids and weights are aligned", well_formed(ids) and ids.indices.tolist() == ws.indices.tolist() and ids.dense_shape.tolist() == ws.dense_shape.tolist() and ids.dense_shape[0] == len(rows), (rows, got))
    for row, terms, weights_ in zip(clean, graphs.rows_of(ids), graphs.rows_of(ws)):
        E.check("one entry per different term", sorted(terms) == sorted(set(row)), (rows, size, got))
        E.check("share of the row times inverse document frequency", all(abs(w - row.count(t) / len(row) * (1 + (math.log((n + 1) / (docs[t] + 1)) if smooth else math.log(n / docs[t])))) < 1e-4
                for t, w in zip(terms, weights_)), (rows, size, smooth, rest, more, got))


@unit(P, "whole pipelines compute tf-idf, n-grams, bags and counts of the data", [mappers.tfidf, mappers.ngrams, mappers.bag_of_words, mappers.word_count], sym=False, conc=2, conc_s=20,
      bounded="generated data sets of up to 6 rows through the real pipeline")
def pipelines(E):
    rows, size, smooth, bs = E.gen("data", lambda r: (draw_ids(r), r.choice([1, 2, 4, 6, 7]), r.random() < 0.7, r.choice([1, 2, None])))

    def fn(x):
        ids, w = tft.tfidf(x["i"], size, smooth)
        words = tf.SparseTensor(x["i"].indices, tf.strings.as_string(x["i"].values), x["i"].dense_shape)
        return {"ids": ids, "w": w, "n": tft.word_count(x["i"]), "g": tft.ngrams(words, (1, 2), " "), "b": tft.bag_of_words(words, (1, 2), " ")}
    out, _ = e2e.analyze_transform(fn, [{"i": row} for row in rows], {"i": tf.io.VarLenFeature(tf.int64)}, bs)
    E.check("one output per row", len(out) == len(rows))
    clean = [[t if 0 <= t < size else t % size for t in row] for row in rows]
    for row, want, o in zip(rows, weights(clean, clean, len(rows), smooth, size), out):
        got = dict(zip(np.asarray(o["ids"]).tolist(), np.asarray(o["w"]).tolist()))
        E.check("one weight per term", len(got) == len(o["ids"]) == len(o["w"]) and set(got) == set(want) and all(abs(got[t] - want[t]) < 1e-4 * max(1, want[t]) for t in want), (rows, size, smooth, row, o, want))
        text = [str(t).encode() for t in row]
        E.check("number of tokens", int(o["n"]) == len(row), (row, o))
        E.check("n-grams", list(o["g"]) == runs(text, 1, 2, b" "), (row, o))
        E.check("bag", sorted(o["b"]) == sorted(set(runs(text, 1, 2, b" "))), (row, o))
