"""C05: the vocabulary holds exactly the qualifying tokens, in the promised order."""
import collections
import hashlib
import os
import re
import shutil

import apache_beam as beam
import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzer_nodes, analyzers, tf_utils
from tensorflow_transform.beam import analyzer_impls as impls
from contracts import beamkit, e2e
from pyvc.harness import unit, Raised

P = "C05"
DUMMY = {"string": b"49d0cd50-04bb-48c0-bc6f-5b575dce351a", "int64": b"-1", "int32": b"-1"}
NINF = float("-inf")


def text(b):
    return b if isinstance(b, bytes) else str(b).encode()


# ----------------------------------------------------- thresholds and top k
@unit(P, "a token stays exactly if its count and score reach their thresholds", [impls._ApplyThresholdsAndTopK],
      conc=25, conc_s=8)
def thresholds(E):
    beamkit.prepare(E, impls._ApplyThresholdsAndTopK)
    pair = E.choice("metric", ["count", "score and count"])
    count = E.int("count", 0, 30) if E.choice("counts", ["int", "real"]) == "int" else E.real("count", 0, 30)
    score = E.real("score", -10, 10)
    token = E.bytes("token")
    ft = E.choice("frequency threshold", ["zero", "some"])
    ft = 0 if ft == "zero" else E.int("frequency_threshold", 0, 20)
    it = NINF if E.choice("score threshold", ["none", "some"]) == "none" else E.real("info_threshold", -10, 10)
    top_k = None if E.choice("top_k", ["none", "some"]) == "none" else E.int("top_k", 1, 4)
    key_fn = E.choice("key_fn", [None, first_letter])
    metric = score if pair != "count" else count
    el = ((score, count), token) if pair != "count" else (count, token)
    ok = E.And(count >= ft, pair == "count" or score >= it)
    if E.symbolic:
        t = E.call(impls._ApplyThresholdsAndTopK, ft, top_k, "string", it, key_fn)
        out = t.fn(beamkit.coll(E, el))
        tops = [x for x in out.log if x[0] in ("Top", "TopPerKey")]
        kept = [x for x in out.items if x[1] is token]
        rest = [x for x in out.items if x[1] is not token]
        E.check("nothing but the token itself or the placeholder comes out", len(kept) <= 1 and all(
            x == (1, DUMMY["string"]) for x in rest) and len(rest) <= 1)
        if kept:
            E.check("a token below its thresholds is dropped", ok)
            E.check("the token keeps its metric", E.eq(kept[0][0], metric))
        if top_k is None:
            E.check("without top k every qualifying token stays", E.Or(bool(kept), E.Not(ok)))
            E.check("no selection without top k", not tops and not rest)
        elif not tops:
            E.check("a selection is made whenever top k is set and something qualifies",
                    E.And(key_fn is not None, E.Not(ok)) if key_fn else False)
        else:
            E.check("exactly one selection, of the requested size",
                    E.And(len(tops) == 1, E.eq(tops[0][1], top_k)))
            E.check("selection per key exactly in the coverage arm", (tops[0][0] == "TopPerKey") == (key_fn is not None))
            if key_fn is None:
                E.check("the largest are selected", tops[0][2] is None and tops[0][3] is False)
            cand = tops[0][-1]
            if key_fn is not None and cand:
                E.check("grouped by the key of the token", E.eq(cand[0][0], E.call(first_letter, token)))
                cand = [c[1] for c in cand]
            E.check("the selection is made among exactly the qualifying tokens, ranked by metric",
                    E.And(E.Or(bool(cand), E.Not(ok)), E.Or(not cand, E.And(ok, *[
                        E.And(E.eq(c[0], metric), c[1] is token) for c in cand]))))
        return
    others = [(E.rng.randint(0, 30), b"%c%d" % (E.rng.choice(b"abc"), i)) for i in range(E.rng.randint(0, 8))]
    els = [el] + [((-float(c), c), t) if pair != "count" else (c, t) for c, t in others if t != token]
    out = beamkit.run(impls._ApplyThresholdsAndTopK(ft, top_k, "string", it, key_fn), els)
    want = apply(els, ft, it, top_k, key_fn, "string")
    E.check("tokens kept", same_bag(out, want), f"{els} -> {out} want {want}")


def first_letter(t):
    return t[:1]


first_letter._pyvc_native = True


def apply(els, ft, it, top_k, key_fn, dtype, dummy=True):
    """The specification: (metric, token) pairs that qualify."""
    q = []
    for m, t in els:
        info, freq = m if isinstance(m, tuple) else (float("inf"), m)
        if freq >= ft and info >= it:
            q.append((m[0] if isinstance(m, tuple) else m, t if dtype == "string" else text(t)))
    if top_k is not None:
        if key_fn:
            by = collections.defaultdict(list)
            for m, t in q:
                by[key_fn(t)].append((m, t))
            q = [x for v in by.values() for x in sorted(v, reverse=True)[:top_k]]
        else:
            q = sorted(q, reverse=True)[:top_k]
            if not q and dummy:
                q = [(1, DUMMY[dtype])]
    return q


def same_bag(a, b):
    return sorted((float(m), t) for m, t in a) == sorted((float(m), t) for m, t in b)


@unit(P, "pruning joins the qualifying tokens with the covered ones, once each, or rejects its options",
      [impls._VocabularyPruneImpl, impls._ApplyThresholdsAndTopK], conc=20, conc_s=10)
def prune(E):
    beamkit.prepare(E, impls._ApplyThresholdsAndTopK)
    token, count = E.bytes("token"), E.int("count", 0, 12)
    key_fn = E.choice("key_fn", [None, first_letter])

    def opt(name, lo, hi):
        return None if E.choice(name + " given", [False, True]) is False else E.int(name, lo, hi)
    top_k, cov_k = opt("top_k", -1, 3), opt("coverage_top_k", -1, 3)
    ft, cft = E.int("frequency_threshold", -1, 10), E.int("coverage_frequency_threshold", -1, 10)
    E.assume(E.And(top_k is None or E.Not(E.eq(top_k, 0)), cov_k is None or E.Not(E.eq(cov_k, 0))))
    op = analyzer_nodes.VocabularyPrune(
        top_k=top_k, frequency_threshold=ft, informativeness_threshold=NINF, coverage_top_k=cov_k,
        coverage_frequency_threshold=cft, coverage_informativeness_threshold=NINF, key_fn=key_fn,
        input_dtype="string")
    bad = E.Or(top_k is not None and top_k < 0, ft < 0, cov_k is not None and cov_k < 0, cft < 0)
    if not E.symbolic:
        els = [(count, token)] + [(E.rng.randint(0, 12), b"%c%d" % (E.rng.choice(b"abc"), i))
                                  for i in range(E.rng.randint(0, 7))]
        els = list({t: (c, t) for c, t in els}.values())
        r = E.attempt(beamkit.run, _expand(op), els)
        if isinstance(r, Raised):
            E.check("options are rejected exactly if negative", bad and isinstance(r.exc, ValueError), str(r.exc))
            return
        E.check("options are rejected exactly if negative", not bad)
        want = apply(els, ft, NINF, top_k, None, "string", dummy=not key_fn)
        if key_fn:
            want = list(dict.fromkeys(want + apply(els, cft, NINF, cov_k, key_fn, "string")))
        E.check("the pruned vocabulary", same_bag(r, want), f"{op} {els} -> {r} want {want}")
        return
    ob = E.new(impls._VocabularyPruneImpl, op, None)
    out = E.attempt(ob.expand, (beamkit.coll(E, (count, token)),))
    if isinstance(out, Raised):
        E.check("options are rejected exactly if negative", E.And(bad, isinstance(out.exc, ValueError)))
        return
    E.check("options are rejected exactly if negative", E.Not(bad))
    kept = [x for x in out.items if x[1] is token]
    rest = [x for x in out.items if x[1] is not token]
    E.check("a kept token reaches the threshold of one arm",
            E.Or(not kept, count >= ft, E.And(key_fn is not None, count >= cft)))
    E.check("without top k every token that reaches a threshold is kept",
            E.Or(bool(kept), E.And(E.Or(count < ft, top_k is not None),
                                   E.Or(key_fn is None, count < cft, cov_k is not None))))
    E.check("the token keeps its count", E.And(*[E.eq(x[0], count) for x in kept]))
    E.check("coverage alone never adds a placeholder", not rest or key_fn is None)
    E.check("duplicates of the arms are removed", (("Distinct",) in out.log) == (key_fn is not None))


def _expand(op, cls=None):
    return (cls or impls._VocabularyPruneImpl)(op, None) if cls else _Tuple(impls._VocabularyPruneImpl(op, None))


class _Tuple(beam.PTransform):
    """Hands the collection over as the 1-tuple the implementations take."""

    def __init__(self, inner):
        super().__init__()
        self._inner = inner

    def expand(self, pc):
        return self._inner.expand((pc,))


@unit(P, "top_k and the frequency threshold are validated and made numeric",
      [analyzers._get_top_k_and_frequency_threshold], conc=100)
def options(E):
    k = None if E.choice("top_k given", [False, True]) is False else E.int("top_k", -5, 100)
    f = None if E.choice("threshold given", [False, True]) is False else E.real("threshold", -5, 100)
    r = E.attempt(analyzers._get_top_k_and_frequency_threshold, k, f)
    bad = E.Or(k is not None and k <= 0, f is not None and f < 0)
    if isinstance(r, Raised):
        E.check("rejected exactly if not positive / negative", E.And(bad, isinstance(r.exc, ValueError)))
    else:
        E.check("rejected exactly if not positive / negative", E.Not(bad))
        E.check("values unchanged", E.And((r[0] is None) == (k is None), (r[1] is None) == (f is None),
                                          k is None or E.eq(r[0], k), f is None or E.eq(r[1], f)))


@unit(P, "an empty vocabulary gets a placeholder of its type, any other is left alone",
      [impls.maybe_add_empty_vocabulary_dummy, analyzers.get_empy_vocabulary_dummy_value], conc=60)
def dummy(E):
    dt = E.choice("dtype", ["string", "int64", "int32"])
    n = E.choice("n", [0, 1, 2])
    xs = [(E.int("c", 0, 9), E.bytes("t")) for _ in range(n)]
    r = E.call(impls.maybe_add_empty_vocabulary_dummy, xs, dt)
    if n:
        E.check("unchanged", E.And(len(r) == n, *[E.And(E.eq(a[0], b[0]), E.eq(a[1], b[1])) for a, b in zip(r, xs)]))
    else:
        E.check("one placeholder of the type of the tokens", list(r) == [(1, DUMMY[dt])])


# ------------------------------------------------------------------ ordering
def tokens_gen(r):
    al = r.choice(["ab", "abcdef", "a b\u00e9\u65e5z", "AZaz09"])
    toks = ["".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))).encode() for _ in range(r.randint(0, 12))]
    toks = list(dict.fromkeys(toks))
    return [(r.choice([1, 1, 2, 3, r.randint(1, 99)]), t) for t in toks]


@unit(P, "ordering: reserved tokens first, then the others by count and token, or by hash",
      [impls._OrderElementsFn, impls._count_and_token_to_bytes], sym=False,
      bounded="generated vocabularies of up to 12 tokens in up to 4 batches", conc=500, conc_s=8)
def order(E):
    r = E.rng
    counts = E.gen("counts", tokens_gen)
    if E.choice("counts are", ["int", "float"]) == "float":
        counts = [(c + r.choice([0.0, 0.5, 0.25]), t) for c, t in counts]
    store = E.choice("store_frequency", [False, True])
    shuffle = E.choice("fingerprint_shuffle", [False, True])
    dt = E.choice("dtype", ["string", "int64"])
    if dt != "string":
        counts = [(c, b"%d" % i) for i, (c, _) in enumerate(counts)]
    res = E.choice("reserved", ["none", "empty", "new", "overlapping"])
    reserved = {"none": None, "empty": [], "new": [b"<pad>", b"<unk>"]}.get(
        res, [t for _, t in counts if r.random() < 0.4] + [b"<pad>"])
    kw = dict(key=lambda kv: hashlib.sha1(kv[1]).digest()) if shuffle else dict(reverse=True)
    got = []
    for _ in range(2):
        shuffled = list(counts)
        r.shuffle(shuffled)
        batches = [sorted(b, **kw) if r.random() < 0.7 else b for b in e2e.split(r, shuffled)]
        args = [] if reserved is None else [[np.array(reserved, dtype=object)]]
        fn = impls._OrderElementsFn(store, kw, dt)
        got.append(list(fn.process(None, batches, *args)))
    E.check("independent of the order of arrival", got[0] == got[1], got)
    rest = [(c, t) for c, t in counts if t not in set(reserved or [])]
    rest.sort(key=lambda ct: hashlib.sha1(ct[1]).digest()) if shuffle else rest.sort(key=lambda ct: (ct[0], ct[1]), reverse=True)
    want = [(-1, t) for t in reserved or []] + rest or [(1, DUMMY[dt])]
    E.check("reserved tokens, then the rest in order", got[0] == [
        (str(c).encode() + b" " + t if store else t) for c, t in want], f"{got[0]} want {want}")


def ordered(counts, shuffle):
    if shuffle:
        return sorted(counts, key=lambda ct: hashlib.sha1(ct[1]).digest())
    return sorted(counts, reverse=True)


@unit(P, "the file written lists the ordered vocabulary", [impls._VocabularyOrderAndWriteImpl, impls._BatchAndPreSort],
      sym=False, bounded="generated vocabularies of up to 12 tokens", conc=40, conc_s=12)
def write(E):
    r = E.rng
    counts = [(c, t) for c, t in E.gen("counts", tokens_gen) if t]
    store = E.choice("store_frequency", [False, True])
    shuffle = E.choice("fingerprint_shuffle", [False, True])
    fmt = E.choice("format", ["text", "tfrecord_gzip"])
    reserved = E.choice("reserved", [None, [b"<pad>", b"a"]])
    r.shuffle(counts)
    tmp = e2e.scratch()
    try:
        op = analyzer_nodes.VocabularyOrderAndWrite(
            vocab_filename="v", store_frequency=store, fingerprint_shuffle=shuffle, file_format=fmt,
            input_dtype="string", input_is_sorted=False)
        ex = collections.namedtuple("Extra", ["base_temp_dir"])(tmp)

        def build(p, pc, *more):
            out = impls._VocabularyOrderAndWriteImpl(op, ex).expand((pc,) + more)
            return {"path": out[0]}
        path = beamkit.run_many(build, counts, *([] if reserved is None else [[[np.array(reserved, dtype=object)]]]))["path"]
        E.check("one path", len(path) == 1 and os.path.exists(str(path[0])))
        got = read_vocab(str(path[0]), fmt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rest = ordered([(c, t) for c, t in counts if t not in (reserved or [])], shuffle)
    want = [(-1, t) for t in reserved or []] + rest or [(1, DUMMY["string"])]
    want = [(str(c).encode() + b" " + t if store else t) for c, t in want]
    E.check("contents", got == want, f"{got} want {want}")


def read_vocab(path, fmt):
    if fmt == "text":
        with open(path, "rb") as f:
            return f.read().split(b"\n")[:-1]
    return [x.numpy() for x in tf.data.TFRecordDataset(path, compression_type="GZIP")]


# ------------------------------------------------------------------ counting
def col_gen(r):
    al = r.choice(["ab", "abc", "a\u00e9 z"])
    return [["".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2]))) for _ in range(r.randint(0, 5))]
            for _ in range(r.randint(0, 6))]


@unit(P, "batch counts are the sums of the weights of the tokens that may be written",
      [tf_utils.reduce_batch_weighted_counts, tf_utils._make_regex_filter_fn, analyzers._get_vocabulary_analyzer_inputs,
       analyzers.get_vocab_newline_characters_regex],
      sym=False, bounded="generated batches of up to 6 rows", conc=200, conc_s=10)
def batch_counts(E):
    r = E.rng
    kind = E.choice("kind", ["dense", "sparse", "ragged"])
    dt = E.choice("dtype", ["string", "int64"])
    fmt = E.choice("format", ["text", "tfrecord_gzip"])
    rows = E.gen("rows", col_gen)
    rows = [[t if r.random() < 0.85 else t + r.choice(["\n", "\r", "\n\n", " \r\n", "x\ny"]) for t in row] for row in rows]
    if dt == "int64":
        rows = [[len(t) * 3 - 2 for t in row] for row in rows]
    if kind == "dense":
        n = min([len(x) for x in rows], default=0)
        rows = [x[:n] for x in rows]
        x = tf.constant(np.array([t for row in rows for t in row], dtype=object).reshape(len(rows), n),
                        dtype=dt) if rows and n else tf.zeros([0, 1], dt) if dt != "string" else tf.constant([], tf.string)
    elif kind == "ragged":
        x = tf.ragged.constant(rows, dtype=dt, ragged_rank=1) if rows else tf.ragged.constant([[]], dtype=dt, ragged_rank=1)
    else:
        x = (tf.ragged.constant(rows or [[]], dtype=dt, ragged_rank=1)).to_sparse()
    vals = [t for row in rows for t in row]
    weighted = E.choice("weighted", [False, True])
    w = [r.choice([0.0, 0.5, 1.0, 2.25]) for _ in vals]
    ot = analyzers._VocabOrderingType.WEIGHTED_FREQUENCY if weighted else analyzers._VocabOrderingType.FREQUENCY
    out = analyzers._get_vocabulary_analyzer_inputs(ot, x, fmt, None, tf.constant(w, tf.float32) if weighted else None)

    def ok(t):
        return dt != "string" or fmt != "text" or (t != "" and not re.search("[\n\r]", t))
    want = collections.defaultdict(float)
    for t, wt in zip(vals, w):
        if ok(t):
            want[text(t) if dt == "string" else t] += wt if weighted else 1
    got = collections.defaultdict(float)
    toks = out[0].numpy().tolist()
    if weighted:
        E.check("each token once", len(set(toks)) == len(toks))
    for i, t in enumerate(toks):
        got[t] += float(out[1].numpy()[i]) if weighted else 1
    E.check("weights per token", dict(got) == dict(want), f"{dict(got)} want {dict(want)}")


@unit(P, "a filter leaves out the tokens it matches in full and no others",
      [tf_utils.reduce_batch_weighted_counts, tf_utils._make_regex_filter_fn], sym=False,
      bounded="generated batches of up to 9 tokens", conc=60, conc_s=4)
def regex_filter(E):
    toks = E.gen("tokens", lambda r: ["".join(r.choice("abB\n ") for _ in range(r.randint(0, 3))) for _ in range(r.randint(0, 9))])
    rx = E.choice("regex", ["a", "a|b", "", "[ab]", "a.*", ".*\n.*", "ab", "^$|a", None])
    mode = E.choice("mode", ["plain", "force", "weights"])
    w = [E.rng.choice([0.5, 1.0, 2.0]) for _ in toks]
    x = tf.constant(toks, tf.string)
    out = tf_utils.reduce_batch_weighted_counts(x, tf.constant(w, tf.float32) if mode == "weights" else None, mode == "force", rx)
    want = collections.defaultdict(float)
    for t, v in zip(toks, w):
        if rx is None or not re.fullmatch(rx, t):
            want[t.encode()] += v if mode == "weights" else 1
    got = collections.defaultdict(float)
    n = {"plain": None, "force": out[3], "weights": out[1]}[mode]
    for i, t in enumerate(out.unique_x.numpy().tolist()):
        got[t] += 1 if n is None else float(n.numpy()[i])
    E.check("the other tokens, with their weights", dict(got) == dict(want), (toks, rx, dict(got), dict(want)))


@unit(P, "counts accumulate and merge to the counts of the whole data set",
      [impls._VocabularyAccumulateImpl, impls._VocabularyMergeImpl, impls._VocabularyCountImpl, impls._flatten_value_to_list,
       impls._flatten_value_and_weights_to_list_of_tuples], sym=False,
      bounded="generated data of up to 6 batches in up to 3 partitions", conc=30, conc_s=12)
def accumulate(E):
    r = E.rng
    weighted = E.choice("weighted", [False, True])
    ot = analyzers._VocabOrderingType.WEIGHTED_FREQUENCY if weighted else analyzers._VocabOrderingType.FREQUENCY
    batches = E.gen("batches", col_gen)
    data = []
    want = collections.defaultdict(float)
    for b in batches:
        toks = [t.encode() for t in (dict.fromkeys(b) if weighted else b)]
        ws = [r.choice([0.5, 1.0, 2.0]) for _ in toks]
        data.append((np.array(toks, dtype=object),) + ((np.array(ws, np.float32),) if weighted else ()))
        for t, w in zip(toks, ws):
            want[t] += w if weighted else 1
    parts = e2e.split(r, data, 3)
    acc = [list(parts[i] | _Tuple(impls._VocabularyAccumulateImpl(analyzer_nodes.VocabularyAccumulate(
        vocab_ordering_type=ot, input_dtype="string"), None))) for i in range(len(parts)) if parts[i]]
    flat = [x for a in acc for x in a]
    E.check("tokens once per partition", all(len({t for t, _ in a}) == len(a) for a in acc))
    merged = list(flat | _Tuple(impls._VocabularyMergeImpl(analyzer_nodes.VocabularyMerge(
        vocab_ordering_type=ot, use_adjusted_mutual_info=False, min_diff_from_avg=None), None))) if flat else []
    E.check("(count, token) once per token", len(merged) == len(want) and {t: c for c, t in merged} == dict(want),
            f"{merged} want {dict(want)}")
    n = list(merged | _Tuple(impls._VocabularyCountImpl(analyzer_nodes.VocabularyCount("c"), None))) if merged else None
    if n is not None:
        E.check("size counted", n == [len(want)])


# ---------------------------------------------------------------- end to end
def spec_vocab(rows, opts):
    cnt = collections.Counter()
    for row in rows:
        for t, w in zip(row["x"], row.get("w") or [1] * len(row["x"])):
            tb = text(t)
            if opts.get("file_format", "text") == "text" and isinstance(t, str) and (tb == b"" or re.search(b"[\n\r]", tb)):
                continue
            cnt[t if not isinstance(t, str) else tb] += w
    dt = opts["dtype"]
    els = [(c, t) for t, c in cnt.items()]
    q = apply(els, opts.get("frequency_threshold") or 0, NINF, opts.get("top_k"), None, dt, dummy=False)
    if opts.get("key_fn"):
        q = list(dict.fromkeys(q + apply(els, opts.get("coverage_frequency_threshold") or 0, NINF,
                                         opts["coverage_top_k"], opts["key_fn"], dt)))
    res = [t.encode() for t in opts.get("reserved_tokens") or []]
    if not q and opts.get("top_k"):
        q = [(1, DUMMY[dt])]
    rest = ordered([(c, t) for c, t in q if t not in res], opts.get("fingerprint_shuffle"))
    return [(-1, t) for t in res] + rest or [(1, DUMMY[dt])], res, els, q


def rows_gen(r):
    dt = r.choice(["string", "string", "int64"])
    al = ["a", "b", "ab", "c", "ca", "d", "\u00e9", "b c", "", "x\ny"] if dt == "string" else [-2, 0, 1, 2, 3, 11]
    w = r.random() < 0.4
    rows = []
    for _ in range(r.randint(1, 9)):
        x = [r.choice(al[:r.randint(1, len(al))]) for _ in range(r.randint(0, 4))]
        row = {"x": x}
        if w:
            row["w"] = [r.choice([0.5, 1.0, 1.5, 3.0]) for _ in x]
        rows.append(row)
    return dt, w, rows


@unit(P, "tft.vocabulary on a data set writes the promised list", [analyzers.vocabulary, analyzers._vocabulary_analyzer_nodes],
      sym=False, bounded="generated data sets of up to 9 rows, any batch size", conc=10, conc_s=16, weight=4)
def whole(E):
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.tf_metadata import dataset_metadata
    r = E.rng
    dt, w, rows = E.gen("rows", rows_gen)
    variants = {}
    for i in range(5):
        o = {"dtype": dt}
        if r.random() < 0.5:
            o["top_k"] = r.choice([1, 2, 3, 50])
        if r.random() < 0.5:
            o["frequency_threshold"] = r.choice([1, 2, 3, 4, 100])
        o["store_frequency"] = r.random() < 0.4
        o["file_format"] = r.choice(["text", "text", "tfrecord_gzip"])
        if r.random() < 0.3:
            o["fingerprint_shuffle"] = True
        if dt == "string" and r.random() < 0.35:
            o["reserved_tokens"] = r.choice([["<pad>"], ["<pad>", "a"], ["zz", "b", "<unk>"]])
        if r.random() < 0.35:
            o["key_fn"] = first_letter
            o["coverage_top_k"] = r.choice([1, 2])
            if r.random() < 0.5:
                o["coverage_frequency_threshold"] = r.choice([1, 2, 3])
        variants[f"v{i}"] = o
    E.note(variants)
    spec = {"x": tf.io.VarLenFeature(tf.string if dt == "string" else tf.int64)}
    if w:
        spec["w"] = tf.io.VarLenFeature(tf.float32)

    def pfn(ins):
        out = {"x": ins["x"]}
        for n, o in variants.items():
            kw = {k: v for k, v in o.items() if k not in ("dtype",)}
            if w:
                kw["weights"] = ins["w"].values if isinstance(ins["w"], tf.SparseTensor) else ins["w"]
            tft.vocabulary(ins["x"], vocab_filename=n, **kw)
            out[n + "_size"] = tft.experimental.get_vocabulary_size_by_name(n) * tf.ones(tf.shape(ins["x"])[:1], tf.int64)
        return out
    tmp = e2e.scratch()
    try:
        out = os.path.join(tmp, "o")
        with tft_beam.Context(temp_dir=tmp, desired_batch_size=E.choice("batch size", [1, 2, 100])):
            md = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
            fn = (rows, md) | tft_beam.AnalyzeDataset(pfn)
            (data, _) = ((rows[:1], md), fn) | tft_beam.TransformDataset()
            fn | tft_beam.WriteTransformFn(out)
        o = tft.TFTransformOutput(out)
        got = {n: (o.vocabulary_by_name(n), o.vocabulary_size_by_name(n)) for n in variants}
        sizes = {n: int(data[0][n + "_size"]) for n in variants}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for n, opts in variants.items():
        want, res, els, q = spec_vocab(rows, opts)
        lines = [(str(c).encode() + b" " + t if opts["store_frequency"] else t) for c, t in want]
        if w and opts["store_frequency"]:
            g = [(float(l.split(b" ", 1)[0]), l.split(b" ", 1)[1]) for l in got[n][0]]
            E.check("vocabulary", g == [(float(c), t) for c, t in want], f"{opts}: {g} want {want}")
        else:
            E.check("vocabulary", got[n][0] == lines, f"{opts}: {got[n][0]} want {lines}")
        E.check("size read from the file", got[n][1] == len(want), f"{opts}: {got[n][1]} want {len(want)}")
        if not any(t in res for _, t in q) and q:
            E.check("size reported in the graph", sizes[n] == len(want), f"{opts}: {sizes[n]} want {len(want)}")


def reserved_size(case):
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.tf_metadata import dataset_metadata
    spec = {"x": tf.io.VarLenFeature(tf.string)}
    kw = dict(over=dict(reserved_tokens=["a", "z"]), none=dict(reserved_tokens=["z"], frequency_threshold=9))[case]

    def pfn(ins):
        tft.vocabulary(ins["x"], vocab_filename=case, **kw)
        return {"n": tft.experimental.get_vocabulary_size_by_name(case) * tf.ones(tf.shape(ins["x"])[:1], tf.int64)}
    tmp = e2e.scratch()
    try:
        with tft_beam.Context(temp_dir=tmp):
            md = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
            (data, _), _ = ([{"x": ["a", "b"]}], md) | tft_beam.AnalyzeAndTransformDataset(pfn)
        return int(list(data)[0]["n"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@unit(P, "the size reported in the graph agrees with the list when a reserved token occurs in the data",
      [analyzers._vocabulary_analyzer_nodes, impls._VocabularyCountImpl], sym=False, bounded="one fixed data set", conc=1,
      conc_s=20, weight=2)
def reserved_overlap(E):
    n = reserved_size("over")
    E.check("size", n == 3, f"{n}, the file has 3 entries")


@unit(P, "the size reported in the graph agrees with the list when only reserved tokens are written",
      [analyzers._vocabulary_analyzer_nodes, impls._VocabularyCountImpl], sym=False, bounded="one fixed data set", conc=1,
      conc_s=20, weight=2)
def reserved_only(E):
    n = reserved_size("none")
    E.check("size", n == 1, f"{n}, the file has 1 entry")
