"""Segments: a batch split by its keys.

A key tensor is known through one boolean per row, "the row carries the key
under consideration"; a per-key result is known by its entry for that key.
Assumed contracts: tf.unique lists every key once and idx names the key of each
row; tf.math.unsorted_segment_sum / _max reduce, for every key, exactly the rows
whose idx names it."""
import z3

from . import core, models, models_tf
from .core import SymArr, Sym, Unsupported, mk


class KeyIdx(Sym):
    def __init__(self, key):
        self.key = key

    def __hash__(self): return 0


class KeyCount(Sym):
    def __init__(self, key):
        self.key = key

    def __hash__(self): return 0


class Unique(Sym):
    def __init__(self, key, y, count):
        self.y, self.idx, self.count, self.key = y, KeyIdx(key), count, key

    def __hash__(self): return 0

    def __iter__(self):
        return iter((self.y, self.idx, self.count)[:2 + self.counted])

    counted = False


def own_of(key, space):
    """The indicator of the key under consideration over a space whose leading
    dimension is that of the keys."""
    o = key.el.own
    models.ALIAS.setdefault(o.get_id(), set()).add(space.name)
    return mk(o)


class KeyStr(core.SymStr):
    __slots__ = ("own",)

    def __init__(self, e, kind, own):
        super().__init__(e, kind)
        self.own = own


def keys(env, name, space="batch"):
    k = env.arr(name, space=space, kind="tf", dtype="string")
    o = z3.Bool(env._nm(name + "_own"))
    models.register_generic(o, k.space)
    return SymArr(KeyStr(k.el.e, "bytes", o), "tf", k.dtype, k.space)


def gathered(env_space, key):
    """Keys of the values of a composite tensor, from the keys of its rows."""
    o = z3.Bool(str(key.el.own) + "_of_" + env_space.name)
    e = z3.String(str(key.el.e) + "_of_" + env_space.name)
    models.register_generic(o, env_space)
    models.register_generic(e, env_space)
    return SymArr(KeyStr(e, "bytes", o), "tf", key.dtype, env_space)


class Rows(models_tf.Opaque):
    """The positions of the values of a composite tensor."""

    def __init__(self, name, space):
        super().__init__(name)
        self.space = space

    def __getitem__(self, i):
        if i == (slice(None), 0):
            return RowsOf(self.space)
        raise Unsupported("index of positions")


class Dims(models_tf.Opaque):
    def __getitem__(self, i):
        return models_tf.Opaque(f"{self.name}[{i}]")

    def assert_is_compatible_with(self, o):
        return None


def is_keys(x):
    return isinstance(x, SymArr) and hasattr(x.el, "own")


def lead(a, b):
    d = lambda s: (s.dims or (s.name,))[0]
    return d(a) == d(b)


def tail(space):
    d = space.dims or (space.name,)
    return core.cur().ex.space_of("*".join(("keys",) + tuple(d[1:])))


def segment_sum(x, idx):
    if not lead(x.space, idx.key.space):
        raise Unsupported("segment ids of another dimension")
    own = own_of(idx.key, x.space)
    el = core.ite(own, models.to_int(x.el) if isinstance(x.el, (core.SymBool, bool)) else x.el, 0.0 if x.dtype.is_floating else 0)
    sp = tail(x.space)
    r = models.space_sum(el, x.space)
    models._register_rec(r, sp)
    return SymArr(r, "tf", x.dtype, sp)


def rows_of(x, idx):
    """A per-key result, repeated in the rows of its key."""
    d = x.space.dims or (x.space.name,)
    if d[0] != "keys":
        raise Unsupported("gather of a tensor without keys")
    lead = (idx.key.space.dims or (idx.key.space.name,))[0]
    sp = core.cur().ex.space_of("*".join((lead,) + tuple(d[1:])))
    n = "of_another_key[%s]" % models._key(core.to_arith(x.el))
    other = z3.Int(n) if z3.is_int(core.to_arith(x.el)) else z3.Real(n)
    models.register_generic(other, sp)
    return SymArr(core.ite(own_of(idx.key, sp), x.el, mk(other)), "tf", x.dtype, sp)


def segment_max_el(x, own, space):
    if isinstance(x, core.SymOpt):
        if core._feasible(core.cur(), z3.And(core.as_z3_bool(own), z3.Not(x.fin))):
            raise Unsupported("extremum of possibly missing values")
        x = x.v
    e = core.to_arith(x)
    m = (z3.Int if z3.is_int(e) else z3.Real)("segmax[%s](%s|%s)" % (space.name, models._key(core.as_z3_bool(own)), models._key(e)))
    core.assume(z3.Implies(core.as_z3_bool(own), m >= e))
    return mk(m)


def install(ip):
    import tensorflow as tf

    def over(*fs):
        def deco(m):
            for f in fs:
                old = ip.models[id(f)][1] if id(f) in ip.models else None

                def g(*a, _f=f, _old=old, **k):
                    r = m(*a, **k)
                    if r is not NotImplemented:
                        return r
                    if _old is None:
                        raise Unsupported(f"{_f.__name__} form")
                    return _old(*a, **k)
                ip.model(f)(g)
            return m
        return deco

    def unique(x, out_idx=tf.int32, name=None):
        if not is_keys(x):
            raise Unsupported("tf.unique form")
        sp = core.cur().ex.space_of("keys")
        y = SymArr(core.SymStr(z3.String("generic_key"), "bytes"), "tf", x.dtype, sp)
        c = models.space_sum(models.to_int(own_of(x, x.space)), x.space)
        models._register_rec(c, sp)
        return Unique(x, y, SymArr(c, "tf", tf.as_dtype(out_idx), sp))
    ip.model(tf.unique)(unique)

    def unique_with_counts(*a, **k):
        r = unique(*a, **k)
        r.counted = True
        return r
    ip.model(tf.unique_with_counts)(unique_with_counts)

    def seg(kind):
        def f(data, segment_ids, num_segments, name=None):
            ns = num_segments.el if isinstance(num_segments, SymArr) else num_segments
            if not (isinstance(data, SymArr) and isinstance(segment_ids, KeyIdx)):
                raise Unsupported("segment form")
            sp = core.cur().ex.space_of("keys")
            if not (isinstance(ns, Sym) and z3.eq(z3.simplify(core.to_arith(ns)), z3.simplify(core.to_arith(models.count_of(sp))))):
                raise Unsupported("number of segments")
            if kind == "sum":
                return segment_sum(data, segment_ids)
            if not lead(data.space, segment_ids.key.space):
                raise Unsupported("segment ids of another dimension")
            r = segment_max_el(data.el, own_of(segment_ids.key, data.space), data.space)
            models._register_rec(r, tail(data.space))
            return SymArr(r, "tf", data.dtype, tail(data.space))
        return f
    ip.model(tf.math.unsorted_segment_sum)(seg("sum"))
    ip.model(tf.math.unsorted_segment_max)(seg("max"))

    @over(tf.debugging.assert_equal, tf.debugging.assert_greater_equal)
    def _assert(x, y, *a, **k):
        return None

    @over(tf.gather)
    def _gather(params, indices, *a, **k):
        if is_keys(params) and isinstance(indices, RowsOf):
            return gathered(indices.space, params)
        if isinstance(params, SymArr) and isinstance(indices, KeyIdx) and not a and not k:
            return rows_of(params, indices)
        return NotImplemented

    prev = ip.sym_attr

    def attr(o, name):
        if isinstance(o, Unique) and name in ("y", "idx", "count"):
            return getattr(o, name)
        return prev(o, name)
    ip.sym_attr = attr


class RowsOf(Sym):
    """Row numbers of the values of a composite tensor."""

    def __init__(self, space):
        self.space = space

    def __hash__(self): return 0
