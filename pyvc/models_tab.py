"""Boundary tables: vectors of symbolic length, known by an element function.

A table stands for a tensor of shape [n] or [1, n].  Reads instantiate the
declared order of the entries against every index read before on the path, so
no quantifiers reach the solver.  tf.searchsorted is TensorFlow's own assumed
contract: for entries in non-decreasing order the position splits the table
into the entries below the value and the others."""
import z3

from . import core, models, models_tf
from .core import SymArr, SymInt, Sym, Unsupported, arr_map, compare, is_sym, mk


class Base:
    """The entries; order is 'le' (non-decreasing), 'lt' or None (unordered)."""

    def __init__(self, fn, n, order):
        self.fn, self.n, self.order, self.seen = fn, n, order, []

    def at(self, i):
        i = z3.simplify(core.to_arith(i))
        e = self.fn(i)
        if self.order and not any(z3.eq(i, j) for j in self.seen):
            n = core.to_arith(self.n)
            for j in self.seen:
                f = self.fn(j)
                for (a, x), (b, y) in (((i, e), (j, f)), ((j, f), (i, e))):
                    inr = z3.And(a >= 0, b < n)
                    if self.order == "lt":
                        core.assume(z3.Implies(z3.And(inr, a < b), core.to_arith(x) < core.to_arith(y)))
                    else:
                        core.assume(z3.Implies(z3.And(inr, a <= b), core.to_arith(x) <= core.to_arith(y)))
            self.seen.append(i)
        return e


class SymTab(Sym):
    def __init__(self, get, n, dtype, rank, order, source=None):
        self.get, self.n, self.dtype, self.rank, self.order = get, n, dtype, rank, order
        self.source = source if source is not None else self
        self.found = []

    def __hash__(self): return 0
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f"<table of {self.n}>"

    def with_(self, **k):
        a = dict(get=self.get, n=self.n, dtype=self.dtype, rank=self.rank, order=self.order, source=self.source)
        a.update(k)
        return SymTab(**a)

    def map(self, f, dtype=None, order=None):
        return SymTab(lambda i: f(self.get(i)), self.n, dtype or self.dtype, self.rank, order)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if self.rank == 2 and len(i) == 2:
                if i[0] == slice(None):
                    r = self.with_(rank=1)[i[1]]
                    return SymTab(lambda _: r.el, 1, self.dtype, 1, self.order) if isinstance(r, SymArr) else r.with_(rank=2)
                if i[0] in (0, -1) and not is_sym(i[0]):
                    return self.with_(rank=1)[i[1]]
            raise Unsupported("index of a table")
        if self.rank == 2:
            if not is_sym(i) and i in (0, -1):
                return self.with_(rank=1)
            raise Unsupported("index of a table")
        n = core.to_arith(self.n)
        if isinstance(i, slice):
            lo, hi = i.start, i.stop
            if i.step is not None or any(is_sym(v) for v in (lo, hi)):
                raise Unsupported("slice of a table")
            lo = 0 if lo is None else lo
            start = z3.IntVal(lo) if lo >= 0 else n + lo
            stop = n if hi is None else (z3.IntVal(hi) if hi >= 0 else n + hi)
            start = z3.If(start < 0, 0, z3.If(start > n, n, start))
            stop = z3.If(stop < 0, 0, z3.If(stop > n, n, stop))
            m = mk(z3.simplify(z3.If(stop > start, stop - start, 0)))
            return SymTab(lambda k: self.get(mk(core.to_arith(k) + start)), m, self.dtype, 1, self.order)
        k = core.to_arith(i)
        k = mk(z3.simplify(z3.If(k < 0, n + k, k))) if not (isinstance(i, int) and i >= 0) else i
        safe(z3.And(core.to_arith(k) >= 0, core.to_arith(k) < n))
        return SymArr(self.get(k), "tf", self.dtype, None)


class Where(Sym):
    def __init__(self, cond):
        self.cond = cond

    def __hash__(self): return 0


def safe(cond):
    import tensorflow as tf
    if not core.branch(cond):
        raise tf.errors.InvalidArgumentError(None, None, "index out of range")


def table(env, name, minlen=0, dtype="float32", order="le", rank=2, lo=None, hi=None, n=None):
    import tensorflow as tf
    d = tf.as_dtype(dtype)
    if n is None:
        n = env.int("len_" + name, minlen, None)
    f = z3.Function("tab_" + env._nm(name), z3.IntSort(), z3.IntSort() if d.is_integer else z3.RealSort())

    def fn(i):
        v = f(i)
        for c, k in ((lo, ">="), (hi, "<=")):
            if c is not None:
                core.assume(core.as_z3_bool(compare(k, mk(v), c)))
        return mk(v)
    base = Base(fn, n, order)
    t = SymTab(base.at, n, d, rank, order)
    t.base = base
    return t


def search(tab, x, side):
    """Assumed contract of tf.searchsorted for one value."""
    for y, s, k in tab.found:
        if s == side and same(x, y):
            return k
    n = core.to_arith(tab.n)
    name = core.fresh_name("position")
    k = z3.Int(name)
    core.assume(z3.And(k >= 0, k <= n))
    if tab.order is None:
        raise Unsupported("search in a table that is not sorted")
    v, fin = core.opt_parts(x) if isinstance(x, core.SymOpt) else (x, z3.BoolVal(True))
    below, above = tab.get(mk(z3.simplify(k - 1))), tab.get(mk(k))
    lt, le = lambda a, b: core.as_z3_bool(compare("<", a, b)), lambda a, b: core.as_z3_bool(compare("<=", a, b))
    if side == "right":
        lo, hi = le(below, v), lt(v, above)
    else:
        lo, hi = lt(below, v), le(v, above)
    core.assume(z3.Implies(z3.And(fin, k > 0), lo))
    core.assume(z3.Implies(z3.And(fin, k < n), hi))
    # comparisons with NaN are false
    core.assume(z3.Implies(z3.Not(fin), k == (n if side == "right" else 0)))
    tab.found.append((x, side, mk(k)))
    return mk(k)


def same(a, b):
    if isinstance(a, core.SymOpt) and isinstance(b, core.SymOpt):
        return same(a.v, b.v) and z3.eq(a.fin, b.fin)
    if isinstance(a, Sym) and isinstance(b, Sym) and hasattr(a, "e") and hasattr(b, "e"):
        return z3.eq(z3.simplify(a.e), z3.simplify(b.e))
    return a is b


def flat_space(sp):
    if sp is None:
        raise Unsupported("flattened scalar")
    if sp.rank == 1:
        return sp
    f = getattr(sp, "_flat", None)
    if f is None:
        f = core.Space(f"flat({sp.name})", rank=1, dims=(f"flat({sp.name})",))
        f.flat_of = sp
        sp._flat = f
    return f


def install(ip):
    import tensorflow as tf
    hold = lambda *fs: [(f, ip.models[id(f)][1] if id(f) in ip.models else None) for f in fs]

    def over(*fs):
        """Registers a model that handles tables and leaves the rest to the
        model there was before."""
        def deco(m):
            for f, old in hold(*fs):
                def g(*a, _f=f, _old=old, **k):
                    r = m(*a, **k)
                    if r is not NotImplemented:
                        return r
                    if _old is None:
                        raise Unsupported(f"{_f.__name__} form")
                    return _old(*a, **k)
                ip.model(f)(g)
            return m
        return deco

    @over(tf.convert_to_tensor, tf.identity)
    def _conv(x, *a, **k):
        return x if isinstance(x, SymTab) else NotImplemented

    @over(tf.cast)
    def _cast(x, dtype, name=None):
        if not isinstance(x, SymTab):
            return NotImplemented
        d = tf.as_dtype(dtype)
        if d == x.dtype:
            return x
        if d.is_floating:
            return x.map(models.to_float, d, x.order)
        if x.dtype.is_integer and d.is_integer:
            return x.with_(dtype=d)
        raise Unsupported("cast of a table")

    @over(tf.reshape)
    def _reshape(x, shape, name=None):
        if isinstance(x, SymTab) and shape == [-1]:
            return x.with_(rank=1)
        if isinstance(x, SymArr) and shape == [-1]:
            return SymArr(x.el, "tf", x.dtype, flat_space(x.space))
        if isinstance(x, SymArr) and isinstance(shape, models.SymShape):
            if shape.space is x.space or getattr(x.space, "flat_of", None) is shape.space:
                return SymArr(x.el, "tf", x.dtype, shape.space)
        return NotImplemented

    @over(tf.shape)
    def _shape(x=None, out_type=None, name=None, input=None):
        x = x if x is not None else input
        if not isinstance(x, SymTab):
            return NotImplemented
        d = tf.as_dtype(out_type or tf.int32)
        n = SymArr(x.n, "tf", d, None)
        return [1, n] if x.rank == 2 else [n]

    @over(tf.size)
    def _size(input=None, out_type=None, name=None):
        if not isinstance(input, SymTab):
            return NotImplemented
        return SymArr(input.n, "tf", tf.as_dtype(out_type or tf.int32), None)

    @over(tf.math.is_finite)
    def _fin(x, name=None):
        return x.map(models.isfinite, tf.bool) if isinstance(x, SymTab) else NotImplemented

    @over(tf.where, tf.compat.v1.where)
    def _where(c, x=None, y=None, name=None):
        return Where(c) if isinstance(c, SymTab) and x is None and y is None else NotImplemented

    @over(tf.gather_nd)
    def _gather_nd(t, i, *a, **k):
        if isinstance(t, SymTab) and isinstance(i, Where) and i.cond.rank == t.rank:
            c = i.cond.get(mk(z3.Int(core.fresh_name("any"))))
            if c is True or (isinstance(c, SymArr) and c.el is True):
                return t.with_(rank=1)
        raise Unsupported("tf.gather_nd form")

    @over(tf.expand_dims)
    def _expand(x, axis=None, name=None):
        if isinstance(x, SymArr) and x.space is None and axis in (0, -1):
            return SymTab(lambda i: x.el, 1, x.dtype, 1, None)
        return x.with_(rank=2) if isinstance(x, SymTab) and x.rank == 1 and axis == 0 else NotImplemented

    @over(tf.concat)
    def _concat(values, axis, name="concat"):
        vs = list(values)
        if not vs or not any(isinstance(v, SymTab) for v in vs) or axis not in (0, -1):
            return NotImplemented
        if not all(isinstance(v, SymTab) and v.rank == 1 for v in vs):
            raise Unsupported("tf.concat form")
        ends, n = [], z3.IntVal(0)
        for v in vs:
            n = n + core.to_arith(v.n)
            ends.append(z3.simplify(n))

        def get(i):
            i = core.to_arith(i)
            r = None
            for v, e in reversed(list(zip(vs, ends))):
                x = v.get(mk(z3.simplify(i - (e - core.to_arith(v.n)))))
                r = x if r is None else core.ite(mk(i < e), x, r)
            return r
        return SymTab(get, mk(ends[-1]), vs[0].dtype, 1, None)

    @over(tf.gather)
    def _gather(params, indices, *a, **k):
        if not isinstance(params, SymTab):
            return NotImplemented
        if params.rank != 1 or a or any(v is not None for n, v in k.items() if n not in ("name", "axis")) or k.get("axis") not in (None, 0, -1):
            raise Unsupported("tf.gather form")

        def one(i):
            safe(z3.And(core.to_arith(i) >= 0, core.to_arith(i) < core.to_arith(params.n)))
            return params.get(i)
        return arr_map(one, indices, dtype=params.dtype)

    @over(tf.searchsorted)
    def _search(sorted_sequence, values, side="left", out_type=tf.int32, name=None):
        t = sorted_sequence
        if not (isinstance(t, SymTab) and t.rank == 1 and isinstance(values, SymArr)):
            return NotImplemented
        if t.dtype != values.dtype:
            raise TypeError(f"searchsorted of {values.dtype} in {t.dtype}")
        if side not in ("left", "right"):
            raise ValueError(side)
        return arr_map(lambda x: search(t, x, side), values, dtype=tf.as_dtype(out_type))

    @over(tf.compat.v1.assert_rank)
    def _rank(x, rank, *a, **k):
        if isinstance(x, SymTab):
            if x.rank != rank:
                raise ValueError("rank")
            return None
        return NotImplemented

    @over(tf.compat.v1.assert_greater, tf.debugging.assert_greater)
    def _greater(x, y, *a, **k):
        if not core.truth(compare(">", x, y)):
            raise tf.errors.InvalidArgumentError(None, None, "assertion failed")
        return None

    @over(tf.compat.v1.verify_tensor_all_finite)
    def _finite(t=None, msg=None, name=None, x=None, message=None):
        x = t if t is not None else x
        f = models.isfinite(x)
        f = f.el if isinstance(f, SymArr) else f
        if not core.truth(f):
            raise tf.errors.InvalidArgumentError(None, None, "not finite")
        return x

    prev = ip.sym_attr

    def attr(o, name):
        if isinstance(o, SymTab):
            if name == "dtype":
                return o.dtype
            if name in ("shape", "get_shape"):
                s = models_tf.Opaque("static shape")
                return models.BoundModel(lambda: s) if name == "get_shape" else s
            raise Unsupported(f"attribute {name} of a table")
        return prev(o, name)
    ip.sym_attr = attr
