"""C15: cache entries are lossless and never confused."""
import json
import os
import pickle
import shutil
import struct

import numpy as np
import tensorflow as tf
import apache_beam as beam

from tensorflow_transform import analyzer_nodes as an
from tensorflow_transform import analyzers
from tensorflow_transform.beam import analyzer_cache as ac
from pyvc.harness import unit, Raised
from contracts.e2e import scratch
from contracts import beamkit

P = "C15"
VALID = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-"


def equal(a, b):
    """Equality of decoded accumulators, with arrays compared by value."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and a.dtype == object or isinstance(b, np.ndarray) and b.dtype == object:
        return equal(list(a) if np.ndim(a) else a.item(), list(b) if np.ndim(b) else b.item())
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" or b.dtype.kind == "f"))


# ------------------------------------------------------------------- coders
@unit(P, "framing of a key and its value", [an._BaseKVCoder.encode_cache, an._BaseKVCoder.decode_cache, an._BaseKVCoder.__init__], conc=150)
def framing(E):
    """decode(encode(key, value)) == (key, value) for all byte strings."""
    c = E.new(an._BaseKVCoder)
    key, value = E.bytes("key"), E.bytes("value")
    out = E.attempt(lambda: E.call(c.decode_cache, E.call(c.encode_cache, (key, value))))
    E.check("every key and value can be encoded and decoded", not isinstance(out, Raised), out)
    if isinstance(out, Raised):
        return
    E.check("two parts come back", len(out) == 2)
    E.check("the key comes back", E.eq(out[0], key), (out[0], key))
    E.check("the value comes back", E.eq(out[1], value), (out[1], value))


@unit(P, "vocabulary accumulators survive the cache", [an._VocabularyAccumulatorCoder.encode_cache, an._VocabularyAccumulatorCoder.decode_cache,
                                                   an._VocabularyAccumulatorCoder.__init__, an._BaseKVCoder.encode_cache, an._BaseKVCoder.decode_cache], conc=200)
def vocabulary_entries(E):
    kind = E.choice("token type", ["string", "int64", "int32"])
    shape = E.choice("value", ["count", "weight", "weighted mean and variance"])
    c = E.new(an._VocabularyAccumulatorCoder, input_dtype=kind)
    token = E.bytes("token") if kind == "string" else E.int("token", -2 ** 31 if kind == "int32" else -2 ** 63, 2 ** 31 - 1 if kind == "int32" else 2 ** 63 - 1)
    if shape == "count":
        value = E.int("count", 0)
    elif shape == "weight":
        value = E.real("weight")
    else:
        value = analyzers._WeightedMeanAndVarAccumulator(E.arr("n", "labels", dtype="int64", lo=0), E.arr("mean", "labels"),
                                                       E.arr("variance", "labels"), E.arr("w", "labels"))
    out = E.attempt(lambda: E.call(c.decode_cache, E.call(c.encode_cache, (token, value))))
    E.check("every entry can be encoded and decoded", not isinstance(out, Raised), out)
    if isinstance(out, Raised):
        return
    E.check("a token and a value come back", len(out) == 2)
    E.check("the token comes back", E.eq(out[0], token), (out[0], token))
    if not E.symbolic:
        E.check("the token comes back to the last digit", type(out[0]) is type(token) and out[0] == token, (out[0], token))
        E.check("a count comes back as an integer", shape != "count" or type(out[1]) is int and out[1] == value, (out[1], value))
    if shape != "weighted mean and variance":
        E.check("the value comes back", E.eq(out[1], value), (out[1], value))
        return
    E.check("the accumulator has its four fields", len(out[1]) == 4, out[1])
    for n, got, want in zip(value._fields, out[1], value):
        if E.symbolic:
            E.check(f"the {n} of the accumulator comes back", E.eq(got, want))
        else:
            E.check(f"the {n} of the accumulator comes back", equal(got, want), (got, want))


class KeyTag(an.CacheCoder):
    """An invertible coder for the value of a keyed accumulator."""
    _pyvc_symbolic = True

    def encode_cache(self, x):
        return b"<" + x

    def decode_cache(self, x):
        return x[1:]


@unit(P, "keyed accumulators survive the cache", [an._CombinerPerKeyAccumulatorCoder.encode_cache, an._CombinerPerKeyAccumulatorCoder.decode_cache,
                                              an._CombinerPerKeyAccumulatorCoder.__init__, an._BaseKVCoder.encode_cache, an._BaseKVCoder.decode_cache], conc=150)
def keyed_entries(E):
    """For every coder of the values that is itself lossless."""
    c = E.new(an._CombinerPerKeyAccumulatorCoder, KeyTag())
    key, value = E.bytes("key"), E.bytes("value")
    out = E.attempt(lambda: E.call(c.decode_cache, E.call(c.encode_cache, (key, value))))
    E.check("every keyed accumulator can be encoded and decoded", not isinstance(out, Raised), out)
    if isinstance(out, Raised):
        return
    E.check("the key comes back", E.eq(out[0], key), (out[0], key))
    E.check("the value comes back", E.eq(out[1], value), (out[1], value))


def number(r, dt, special=True):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return r.choice([0, 1, -1 if i.min < 0 else 2, int(i.max), int(i.min), r.randint(max(i.min, -1000), min(i.max, 1000)), int(i.max) - r.randint(0, 3)])
    v = r.choice([0.0, -0.0, 0.1, 1e-300 if dt.itemsize == 8 else 1e-30, 1e300 if dt.itemsize == 8 else 3e38, r.gauss(0, 1), r.gauss(0, 1e6), 1 / 3, 2.0 ** 53 + 1,
                  float("nan") if special else 1.5, float("inf") if special else 2.5, float("-inf") if special else -3.5])
    return v


def array(r, dt, shape):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    return np.array([number(r, dt) for _ in range(n)], dtype=dt).reshape(shape)


@unit(P, "numeric accumulators survive the cache", [an.JsonNumpyCacheCoder.encode_cache, an.JsonNumpyCacheCoder.decode_cache], sym=False, conc=200,
      bounded="1 to 3 arrays of up to 3x3 entries of 8 dtypes")
def numeric_entries(E):
    def gen(r):
        k = r.randint(1, 3)
        dt = r.choice(["int64", "int32", "uint8", "float32", "float64", "uint64", "int16", "float16"])
        same = r.random() < 0.6
        sh = [r.randint(1, 3) for _ in range(r.randint(0, 2))]
        out = []
        for _ in range(k):
            out.append(array(r, dt, sh))
            if not same:
                sh = [r.randint(1, 3) for _ in range(r.randint(0, 2))]
        return tuple(out), r.choice(["list", "tuple", "alone"])
    arrays, form = E.gen("accumulator", gen)
    acc = list(arrays) if form == "list" else tuple(arrays) if form == "tuple" else arrays[0]
    c = an.JsonNumpyCacheCoder()
    e = c.encode_cache(acc)
    E.check("the encoding is bytes", isinstance(e, bytes), e)
    d = E.attempt(lambda: c.decode_cache(e))
    E.check("decoding works", not isinstance(d, Raised), d)
    E.check("the decoded accumulator has the same values", equal(d, acc), (d, acc))


# ------------------------------------------------- accumulators of the combiners
def combiners(r):
    """(name, combiner, one batch) of each cacheable combiner."""
    k = r.randint(1, 3)
    b = r.randint(1, 4)
    x = np.array([[r.choice([0.0, 1.5, -2.25, 7.0, 0.1, 1e6, 3.0]) for _ in range(k)] for _ in range(b)], np.float64)
    kind = r.choice(["sum", "max", "mean", "weighted", "covariance", "pca"])
    if kind in ("sum", "max"):
        dt = r.choice(["int64", "int32", "float32", "float64"])
        f, d, da = (np.sum, 0, None) if kind == "sum" else (np.max, -np.inf if dt[0] == "f" else int(np.iinfo(dt).min), None)
        return kind, (lambda: analyzers.NumPyCombiner(f, d, [np.dtype(dt)], [(k,)])), lambda y: [y.sum(0).astype(dt)] if kind == "sum" else [y.max(0).astype(dt)], x
    if kind == "mean":
        return kind, (lambda: analyzers.WeightedMeanAndVarCombiner(np.float64, output_shape=(k,))), lambda y: (np.full((k,), len(y), np.int64), y.mean(0), y.var(0), np.zeros(k)), x
    if kind == "weighted":
        return kind, (lambda: analyzers.WeightedMeanAndVarCombiner(np.float64, output_shape=(k,), compute_variance=False, compute_weighted=True)), \
            lambda y: (np.full((k,), len(y), np.int64), y.mean(0), np.zeros(k), np.full((k,), 1.5)), x
    if kind == "covariance":
        return kind, (lambda: analyzers.CovarianceCombiner(numpy_dtype=np.float64, output_shape=(k, k))), lambda y: [y], x
    if kind == "pca":
        return kind, (lambda: analyzers.PCACombiner(output_shape=(k, k), numpy_dtype=np.float64, output_dim=k)), lambda y: [y], x


@unit(P, "an accumulator read back from the cache merges like the original", [analyzers.NumPyCombiner, analyzers.WeightedMeanAndVarCombiner,
      analyzers.CovarianceCombiner, analyzers.PCACombiner], sym=False, conc=120, conc_s=12,
      bounded="2 to 4 batches of up to 4 rows and 3 columns; sum, maximum, mean, weighted mean, covariance and PCA")
def merges_alike(E):
    def gen(r):
        return r.getrandbits(40), r.randint(2, 4), r.randint(0, 15)
    seed, n, mask = E.gen("case", gen)
    import random
    kind, make, prep, x = combiners(random.Random(seed))
    c = make()
    coder = c.accumulator_coder
    plain, cached = [], []
    for i in range(n):
        y = x if i == 0 else x * (i + 1) + i
        acc = c.add_input(c.create_accumulator(), prep(y))
        plain.append(acc)
        if mask >> i & 1 or i == 0:
            got = E.attempt(lambda: coder.decode_cache(coder.encode_cache(acc)))
            E.check("the accumulator can be written and read", not isinstance(got, Raised), (kind, got))
            E.check("the accumulator read back is equal", equal(list(got), list(acc)), (kind, got, acc))
            acc = got
        cached.append(acc)
    if E.rng.random() < 0.5:
        plain.append(c.create_accumulator())
        cached.append(coder.decode_cache(coder.encode_cache(c.create_accumulator())))
    a = c.extract_output(c.merge_accumulators(iter(plain)))
    b = E.attempt(lambda: c.extract_output(c.merge_accumulators(iter(cached))))
    E.check("accumulators read back can be merged", not isinstance(b, Raised), (kind, b))
    E.check("the merged result is the same", len(a) == len(b) and all(np.allclose(p, q, rtol=1e-12, atol=1e-12, equal_nan=True) for p, q in zip(a, b)), (kind, a, b))


@unit(P, "sketches read back from the cache answer the same", [analyzers._QuantilesSketchCacheCoder, analyzers.QuantilesCombiner], sym=False, conc=30, conc_s=8,
      bounded="up to 3 batches of up to 6 values; quantiles and approximate vocabularies")
def sketches_alike(E):
    import importlib
    exp = importlib.import_module("tensorflow_transform.experimental.analyzers")
    def gen(r):
        return [[r.choice([0.0, 1.0, 2.5, -3.0, 8.0, 4.0]) for _ in range(r.randint(1, 6))] for _ in range(r.randint(1, 3))], r.choice(["quantiles", "vocabulary"])
    batches, kind = E.gen("batches", gen)
    if kind == "quantiles":
        c = analyzers.QuantilesCombiner(3, 0.01, np.float32)
        feed = lambda b: [np.array([[v] for v in b], np.float32)]
    else:
        c = exp._VocabularyCombiner(10, tf.string, output_pylist=True)
        feed = lambda b: (np.array([str(v).encode() for v in b], object), np.ones(len(b), np.float32))
    accs = [c.add_input(c.create_accumulator(), feed(b)) for b in batches]
    coder = c.accumulator_coder
    back = [coder.decode_cache(coder.encode_cache(a)) for a in accs]
    E.check("an accumulator read twice is written the same", all(isinstance(coder.encode_cache(a), bytes) for a in back))
    f = lambda xs: c.extract_output(c.merge_accumulators(iter(xs)))
    E.check("the merged result is the same", equal([np.asarray(v) for v in f(back)], [np.asarray(v) for v in f(accs)]))


# ------------------------------------------------------------------ locations
@unit(P, "a cache key has one location of its own", [ac.make_cache_entry_key], conc=100)
def entry_keys(E):
    a, b = E.str("a"), E.str("b")
    x, y = E.call(ac.make_cache_entry_key, a), E.call(ac.make_cache_entry_key, b)
    E.check("the same cache key gives the same entry", E.eq(x, E.call(ac.make_cache_entry_key, a)))
    E.check("different cache keys give different entries", E.Implies(E.Not(E.eq(a, b)), E.Not(E.eq(x, y))), (a, b))


@unit(P, "a dataset key has one location of its own", [ac.DatasetKey.__new__, ac._make_valid_cache_component, ac._get_dataset_cache_path], conc=150)
def dataset_keys(E):
    """Keys of the documented alphabet are used as they are."""
    base = E.str("base", alphabet=VALID + "/")
    a, b = E.str("a", alphabet=VALID), E.str("b", alphabet=VALID)
    E.assume(E.And(of(E, a), of(E, b)))
    x, y = E.call(ac.DatasetKey, a), E.call(ac.DatasetKey, b)
    E.check("the key is kept", E.eq(x.key, a))
    E.check("the dataset is cached", x.is_cached is True)
    p, q = E.call(ac._get_dataset_cache_path, base, x), E.call(ac._get_dataset_cache_path, base, y)
    E.check("the same key gives the same location", E.eq(p, E.call(ac._get_dataset_cache_path, base, E.call(ac.DatasetKey, a))))
    E.check("different keys give different locations", E.Implies(E.Not(E.eq(a, b)), E.Not(E.eq(p, q))), (a, b, p, q))


def of(E, s):
    if E.symbolic:
        import z3
        from pyvc import core
        z = z3.StringVal
        cls = z3.Union(z3.Range(z("a"), z("z")), z3.Range(z("A"), z("Z")), z3.Range(z("0"), z("9")), z3.Re(z(".")), z3.Re(z("_")), z3.Re(z("-")))
        return core.mk(z3.InRe(s.e, z3.Plus(cls)))
    return len(s) > 0 and all(c in VALID for c in s)


ODD = "abAB/\\*@[]:=-?_. +~%"


@unit(P, "dataset keys with other characters keep their own location", [ac.DatasetKey.__new__, ac._make_valid_cache_component], sym=False, conc=300,
      bounded="pairs of keys of up to 5 characters")
def odd_dataset_keys(E):
    def gen(r):
        s = "".join(r.choice(ODD) for _ in range(r.randint(1, 5)))
        t = list(s)
        i = r.randrange(len(t))
        t[i] = r.choice([r.choice(ODD), t[i].swapcase(), r.choice(" _.+~%")])
        return s, "".join(t)
    a, b = E.gen("keys", gen)
    E.assume(a != b)
    x, y = ac.DatasetKey(a), ac.DatasetKey(b)
    E.check("the same key gives the same location", ac.DatasetKey(a) == x and hash(ac.DatasetKey(a)) == hash(x))
    same_class = lambda c, d: c == d or (c in "/\\-" and d in "/\\-") or (c in "[]" and d in "[]")
    E.assume(not (len(a) == len(b) and all(same_class(c, d) for c, d in zip(a, b))))   # see the next contract
    E.check("different keys give different locations", x != y and ac._get_dataset_cache_path("/base", x) != ac._get_dataset_cache_path("/base", y), (a, b, x))


for _a, _b in [("a/b", "a-b"), ("a\\b", "a-b"), ("a[b", "a]b")]:
    @unit(P, f"the dataset keys {_a} and {_b} have a location each", [ac.DatasetKey.__new__, ac._make_valid_cache_component], sym=False, conc=1, bounded="one pair of keys")
    def confused_dataset_keys(E, a=_a, b=_b):
        E.check("different locations", ac.DatasetKey(a) != ac.DatasetKey(b))


# ------------------------------------------------------------ reading and writing
DIR = "/cache/some-dataset"


class Manifest:
    """The manifest file of a dataset: holds the given contents."""
    _pyvc_symbolic = True

    def __init__(self, contents):
        self.contents, self.written = contents, None

    def read(self):
        return self.contents

    def write(self, m):
        self.written = m


@unit(P, "writing keeps the earlier entries and gives every new one a place of its own", [ac.WriteAnalysisCacheToFS._write_cache], conc=60)
def write_entries(E):
    """For every manifest of earlier writes and every cache of any size."""
    if E.symbolic:
        return write_entries_sym(E)
    earlier, new = E.gen("entries", lambda r: ({f"k{i}".encode(): n for i, n in zip(r.sample(range(9), r.randint(0, 5)), r.sample(range(30), 5))},
                                               [f"k{i}".encode() for i in r.sample(range(9), r.randint(0, 4))]))
    mf, paths = Manifest(dict(earlier)), {}

    class Pc:
        def __init__(self, key): self.key = key
        def __or__(self, named): return named(self)

    class Sink:
        def __init__(self, path): self.path = path
        def __rrshift__(self, label): return lambda pc: paths.__setitem__(pc.key, self.path)
    w = ac.WriteAnalysisCacheToFS(None, "/cache", sink=Sink)
    w._write_cache(mf, 0, DIR, ac.DatasetCache({k: Pc(k) for k in new}, None))
    m = mf.written
    E.check("the manifest is written", isinstance(m, dict))
    E.check("it lists the earlier and the new entries", set(m) == set(earlier) | set(new), (m, earlier, new))
    E.check("earlier entries keep their place", all(m[k] == earlier[k] for k in earlier if k not in new), (m, earlier, new))
    E.check("no two entries share a place", len(set(m.values())) == len(m), (m, earlier, new))
    E.check("a new entry is written where the manifest says", paths == {k: f"{DIR}/{m[k]}" for k in new}, (paths, m))
    E.check("no earlier place is written to", not {f"{DIR}/{i}" for i in earlier.values()} & set(paths.values()), (paths, earlier))


def write_entries_sym(E):
    import z3
    from pyvc import core, models_map, models_beam
    from pyvc.interp import SymSeq
    mk, C = core.mk, z3.IntVal
    K, L = z3.Ints("K L")
    E.assume(mk(K != L))
    m = models_map.arbitrary([K, L], "manifest")
    has, at = list(m.present), list(m.vals)
    for p, v in zip(has, at):
        E.assume(mk(z3.Implies(p, v >= 0)))
    E.assume(mk(z3.Implies(z3.And(*has), at[0] != at[1])))
    n, keyf = z3.Int("entries"), z3.Function("entry_key", z3.IntSort(), z3.IntSort())
    pos = z3.Ints("position_K position_L")      # where K and L are among the new entries, if they are
    E.assume(mk(n >= 0))
    E.assume(mk(z3.Implies(m.some, m.top >= 0)))
    E.assume(mk(z3.Implies(z3.And(pos[0] == pos[1], pos[0] >= 0), pos[0] >= n)))      # one key per position
    new = [z3.And(p >= 0, p < n) for p in pos]
    ghost = {"paths": [z3.String("path_K"), z3.String("path_L")]}
    where = lambda v: z3.Concat(z3.StringVal(DIR + "/"), z3.IntToStr(v))

    class Pc(core.Sym):
        _pyvc_pcoll = True
        def __init__(self, i): self.i = i
        def __hash__(self): return 0

    def get(i):
        for p, k in zip(pos, (K, L)):
            core.assume((keyf(i) == k) == (i == p))
        return (mk(keyf(i)), Pc(i))

    def inv(state, k):
        maps = [v for v in state.values() if isinstance(v, models_map.SymMap)]
        if not maps or seq.start is None:
            raise core.Unsupported("entries are not numbered by enumerate")
        s, k = maps[0], core.to_arith(k)
        f = seq.start
        cs = [f >= 0, z3.Implies(k > 0, s.some), z3.Implies(m_some, s.some)]
        for i in range(2):
            done = z3.And(pos[i] >= 0, pos[i] < k)
            cs.append(z3.If(done, z3.And(s.present[i], s.vals[i] == f + pos[i], ghost["paths"][i] == where(s.vals[i])),
                            z3.And(s.present[i] == has[i], s.vals[i] == at[i])))
        return mk(z3.And(*cs))

    def havoc(name, v):
        if isinstance(v, models_map.SymMap):
            ghost["paths"] = [z3.String(core.fresh_name("path")) for _ in range(2)]
            return models_map.havoc(v)
        raise core.Unsupported(f"loop variable {name}")
    m_some = m.some
    seq = SymSeq(n, get, "list", inv, havoc, "entries")
    seq.start = None

    def sink(path):
        def write(pc):
            ghost["paths"] = [z3.If(pc.i == p, core.to_str(path), g) for p, g in zip(pos, ghost["paths"])]
            return None
        return models_beam.PT(write)
    sink._pyvc_native = True

    class Entries:
        _pyvc_symbolic = True
        def items(self): return seq
    w = E.new(ac.WriteAnalysisCacheToFS, None, "/cache", sink=sink)
    mf = Manifest(m)
    E.call(w._write_cache, mf, 0, DIR, ac.DatasetCache(Entries(), None))
    r = mf.written
    E.check("the manifest is written", isinstance(r, models_map.SymMap))
    if not isinstance(r, models_map.SymMap):
        return
    for i in range(2):
        E.check("it lists the earlier and the new entries", mk(r.present[i] == z3.Or(has[i], new[i])))
        E.check("earlier entries keep their place", mk(z3.Implies(z3.And(has[i], z3.Not(new[i])), r.vals[i] == at[i])))
        E.check("a new entry is written where the manifest says", mk(z3.Implies(new[i], ghost["paths"][i] == where(r.vals[i]))))
        E.check("no earlier place is written to", mk(z3.Implies(z3.And(new[i], has[1 - i]), r.vals[i] != at[1 - i])))
    E.check("no two entries share a place", mk(z3.Implies(z3.And(*r.present), r.vals[0] != r.vals[1])))


_COUNT = [0]


def write(base, cache, keys=None):
    """cache: {dataset key: ({entry key: [bytes]}, size or None)}."""
    import logging
    logging.disable(logging.WARNING)
    with beam.Pipeline() as p:
        d = {}
        for n, (key, (entries, size)) in enumerate(cache.items()):
            meta = None
            if size is not None:
                meta = p | f"meta{n}" >> beam.Create([ac.DatasetCacheMetadata(size)])
            d[ac.DatasetKey(key)] = ac.DatasetCache({k: p | f"c{n}_{m}" >> beam.Create(v) for m, (k, v) in enumerate(entries.items())}, meta)
        _ = d | ac.WriteAnalysisCacheToFS(p, base, None if keys is None else [ac.DatasetKey(k) for k in keys])


def read(base, keys, only=None):
    out = {}
    beamkit._SINK.clear()
    with beam.Pipeline() as p:
        got = p | ac.ReadAnalysisCacheFromFS(base, [ac.DatasetKey(k) for k in keys], only)
        names = {}
        for i, (dk, cache) in enumerate(got.items()):
            for j, (ek, pc) in enumerate(cache.cache_dict.items()):
                names[f"{i}/{j}"] = (dk.key, ek)
                pc | f"keep{i}/{j}" >> beam.Map(beamkit._keep, f"{i}/{j}")
            if cache.metadata is not None:
                names[f"{i}/m"] = (dk.key, None)
                cache.metadata | f"keepm{i}" >> beam.Map(beamkit._keep, f"{i}/m")
    return {v: sorted(beamkit._SINK.get(n, []), key=repr) for n, v in names.items()}


@unit(P, "a cache directory keeps everything written to it", [ac.WriteAnalysisCacheToFS.expand, ac.WriteAnalysisCacheToFS._write_cache, ac.ReadAnalysisCacheFromFS.expand,
      ac._ManifestFile.read, ac._ManifestFile.write, ac.DatasetCacheMetadata.encode, ac.DatasetCacheMetadata.decode], sym=False, conc=8, conc_s=25, weight=4,
      bounded="up to 3 writes of up to 2 datasets with up to 3 entries each")
def histories(E):
    def gen(r):
        hist = []
        names = r.sample(["a", "b", "span-1", "span-2", "1", "11", "a.b", "A_b"], 3)
        entries = [b"k%d" % i for i in range(3)] + [b"__v1__/x y", b"\xff\x00z", b"1", b"11"]
        for _ in range(r.randint(1, 3)):
            cache = {}
            for n in r.sample(names, r.randint(1, 2)):
                cache[n] = ({e: [r.choice([b"", b"v", b"\n", bytes([r.randrange(256) for _ in range(r.randint(0, 9))])]) for _ in range(r.randint(0, 3))]
                             for e in r.sample(entries, r.randint(0, 3))}, r.choice([None, 0, 1, 5, 10 ** 12]))
            hist.append(cache)
        return names, hist, r.choice([None, None, "some", "none"])
    names, hist, only = E.gen("history", gen)
    base = scratch()
    try:
        want, size = {}, {}
        for cache in hist:
            write(base, cache, None if len(cache) == 1 else names)
            for n, (entries, s) in cache.items():
                for e, v in entries.items():
                    want[(n, e)] = sorted(v, key=repr)
                if s is not None:
                    size[n] = s
        known = sorted({e for _, e in want})
        keep = None if only is None else [] if only == "none" else known[::2]
        got = read(base, names, keep)
        data = {k: v for k, v in got.items() if k[1] is not None}
        exp = {k: v for k, v in want.items() if keep is None or k[1] in keep}
        E.check("exactly the entries written are found", set(data) == set(exp), (sorted(map(repr, data)), sorted(map(repr, exp))))
        E.check("every entry has the values written for it last", data == exp, (data, exp))
        sizes = {k[0]: [m.dataset_size for m in v] for k, v in got.items() if k[1] is None}
        has = {n for n, _ in want}
        E.check("the size of every dataset is the one recorded", sizes == {n: [s] for n, s in size.items() if n in has}, (sizes, size))
    finally:
        shutil.rmtree(base, ignore_errors=True)


@unit(P, "an entry among many is read from its own place", [ac.WriteAnalysisCacheToFS._write_cache, ac.ReadAnalysisCacheFromFS.expand], sym=False, conc=1, conc_s=20, weight=2,
      bounded="13 entries of one dataset")
def many_entries(E):
    """The places are numbered: place 1 is not read for place 11."""
    n = E.gen("entries", lambda r: r.randint(12, 13))
    base = scratch()
    try:
        entries = {b"e%d" % i: [b"v%d" % i] for i in range(n)}
        write(base, {"a": (entries, 3)})
        got = read(base, ["a"])
        E.check("every entry has its own values", {k[1]: v for k, v in got.items() if k[1] is not None} == entries, got)
    finally:
        shutil.rmtree(base, ignore_errors=True)
