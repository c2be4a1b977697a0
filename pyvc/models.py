"""Assumed contracts of builtins, the standard library and NumPy.

Each model states, over exact (mathematical) numbers, what the library call
returns.  They are trusted; evidence files list the ones a run used."""
import builtins
import collections
import functools
import itertools
import math
import operator
import re

import numpy as np
import z3

from . import core
from .core import (Sym, SymArr, SymBool, SymInt, SymReal, SymStr, SymTerm, Unsupported, arr_map, as_z3_bool, binop,
                   compare, is_sym, mk, truth)
from .interp import SymSeq, _Key


# ------------------------------------------------------------ reductions
GENERIC = {}  # z3 const id -> Space


def register_generic(e, space):
    GENERIC[e.get_id()] = (e, space)


def _generic(e, space, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    g = GENERIC.get(k)
    if g is not None and (g[1] is space or space.name in ALIAS.get(k, ())):
        r = True
    else:
        r = any(_generic(c, space, memo) for c in e.children())
    memo[k] = r
    return r


def space_sum(el, space):
    """Sum over a space of an elementwise term, as a linear functional: index
    free factors are pulled out, what remains is one symbol per monomial."""
    if isinstance(el, core.SymOpt):
        if not core._feasible(core.cur(), z3.Not(el.fin)):
            el = el.v
        else:
            raise Unsupported("sum of possibly missing values")
    if not isinstance(el, Sym):
        if core.is_fp_special(el):
            raise Unsupported("sum of non-finite")
        return binop("*", count_of(space), el)
    e = core.to_arith(el)
    isint = z3.is_int(e)
    total = None
    for conds, gen, coef in _indicator_terms(e, space):
        t = moment(space, conds, gen) * to_r(coef)
        total = t if total is None else total + t
    if total is None:
        total = z3.RealVal(0)
    v = mk(z3.simplify(total))
    s = to_r(core.to_arith(v))
    r = to_r(e)
    n = to_r(core.to_arith(count_of(space)))
    # facts about any finite sum with the generic element among its terms
    p = core.cur()
    if not core._feasible(p, r < 0):
        core.assume(s >= 0)
        core.assume(z3.Implies(n >= 1, s >= r))
        core.assume(z3.Implies(n == 0, s == 0))
    if not core._feasible(p, r > 1):
        core.assume(s <= n)
    if isint and isinstance(v, SymReal):
        iv = z3.Int("int_" + _key(s))
        core.assume(z3.ToReal(iv) == s)
        return SymInt(iv)
    return v


def _atoms(e, space, memo, out, seen):
    """Generic boolean leaves of the if-then-else conditions of e."""
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_bool(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_XOR):
            pass
        else:
            if not any(e.eq(x) for x in out):
                out.append(e)
            return
    for c in e.children():
        _atoms(c, space, memo, out, seen)


def _indicator_terms(e, space):
    """e as a sum of (set of positive conditions, monomial or None, index-free
    coefficient); conditions are idempotent indicators."""
    memo = {}
    e = z3.simplify(e)
    atoms = []
    _atoms(e, space, memo, atoms, set())
    atoms = [a for a in atoms if _generic(a, space, memo)]
    if len(atoms) > 5:
        raise Unsupported("sum of a term with many conditions")
    res = {}
    for bits in itertools.product((True, False), repeat=len(atoms)):
        x = z3.simplify(z3.substitute(e, *[(a, z3.BoolVal(b)) for a, b in zip(atoms, bits)])) if atoms else e
        pos = [i for i, b in enumerate(bits) if b]
        neg = [i for i, b in enumerate(bits) if not b]
        for gen, coef in _expand(x, space, {}):
            if _is_zero(coef):
                continue
            for r in range(len(neg) + 1):
                for sub in itertools.combinations(neg, r):
                    key = (tuple(sorted(pos + list(sub))), "" if gen is None else _key(gen))
                    c = -to_r(coef) if r % 2 else to_r(coef)
                    if key in res:
                        res[key] = (res[key][0], res[key][1] + c)
                    else:
                        res[key] = (gen, c)
    out = []
    for (cs, _), (gen, coef) in res.items():
        coef = z3.simplify(coef, som=True)
        if not _is_zero(coef):
            out.append(([atoms[i] for i in cs], gen, coef))
    return out


def to_r(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def count_of(space):
    n = z3.Int("n_" + space.name)
    core.assume(n >= 0)
    return SymInt(n)


def _key(e):
    return z3.simplify(e, som=True).sexpr().replace("\n", " ").replace("|", "!")


_TO_REAL = re.compile(r"\(to_real ([^()\s]+|![^!]*!)\)")


def moment(space, conds, gen):
    if gen is None and not conds:
        return to_r(core.to_arith(count_of(space)))
    # a sum of integers is the sum of the same numbers taken as reals
    k = "&".join(sorted(_key(c) for c in conds)) + ":" + ("1" if gen is None else _TO_REAL.sub(r"\1", _key(gen)))
    m = z3.Real("sum[%s](%s)" % (space.name, k))
    if gen is None:
        n = core.to_arith(count_of(space))
        core.assume(z3.And(m >= 0, m <= z3.ToReal(n)))
        core.assume(m == z3.ToReal(z3.Int("int_sum[%s](%s)" % (space.name, k))))
    return m


def _expand(e, space, memo):
    """e = sum gen_k * coef_k with coef index free; gen None stands for 1."""
    if not _generic(e, space, memo):
        return [(None, e)]
    k = e.decl().kind() if z3.is_app(e) else None
    ch = e.children()
    if k == z3.Z3_OP_TO_REAL:
        return [(g if g is None else to_r(g), to_r(c)) for g, c in _expand(ch[0], space, memo)]
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        out = []
        for i, c in enumerate(ch):
            for g, co in _expand(c, space, memo):
                out.append((g, -co if (k == z3.Z3_OP_SUB and i) else co))
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(g, -c) for g, c in _expand(ch[0], space, memo)]
    if k == z3.Z3_OP_MUL:
        acc = [(None, z3.IntVal(1) if z3.is_int(e) else z3.RealVal(1))]
        for c in ch:
            new = []
            for g2, c2 in _expand(c, space, memo):
                for g, co in acc:
                    gg = g2 if g is None else (g if g2 is None else to_r(g) * to_r(g2))
                    new.append((gg, to_r(co) * to_r(c2)))
            acc = new
        return acc
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and ch[1].as_long() in (2, 3, 4):
        return _expand(z3.Product(*[ch[0]] * ch[1].as_long()), space, memo)
    if k == z3.Z3_OP_DIV and not _generic(ch[1], space, memo):
        return [(g, to_r(c) / to_r(ch[1])) for g, c in _expand(ch[0], space, memo)]
    return [(e, z3.RealVal(1))]


def _is_zero(c):
    c = z3.simplify(c)
    return (z3.is_int_value(c) and c.as_long() == 0) or (z3.is_rational_value(c) and c.numerator_as_long() == 0)


# ------------------------------------------------------------- sequences
def reduce_contract(ip, f, seq, *init):
    """functools.reduce over an unbounded sequence, by the loop contract."""
    from .core import PathEnd
    if seq.inv is None:
        raise Unsupported("reduce over a symbolic sequence without a contract")
    if init:
        acc, start = init[0], 0
    else:
        if core.branch(seq.length <= 0):
            raise TypeError("reduce() of empty iterable with no initial value")
        acc, start = seq.get(z3.IntVal(0)), 1
    ip.env.check(f"invariant of the reduction of {seq.name} holds on entry", seq.inv({"acc": acc}, start), kind="invariant")
    hav = seq.havoc("acc", acc)
    if core.choose(2) == 0:
        k = z3.Int(core.fresh_name(f"k_{seq.name}"))
        core.assume(z3.And(k >= start, k < seq.length))
        core.assume(core.as_z3_bool(seq.inv({"acc": hav}, SymInt(k))))
        new = ip.call(f, hav, seq.get(k))
        ip.env.check(f"invariant of the reduction of {seq.name} is preserved",
                     seq.inv({"acc": new}, SymInt(k) + 1), kind="invariant")
        raise PathEnd()
    core.assume(core.as_z3_bool(seq.inv({"acc": hav}, mk(seq.length))))
    return hav


def seq_slice(s, i):
    if i.step not in (None, 1):
        raise Unsupported("stepped slice of a symbolic sequence")
    n = s.length

    def norm(x, d):
        if x is None:
            return d
        x = core.to_arith(x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    lo, hi = z3.simplify(norm(i.start, z3.IntVal(0))), z3.simplify(norm(i.stop, n))
    ln = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    inv = s.inv if (z3.is_int_value(lo) and lo.as_long() == 0) else None
    return SymSeq(ln, lambda k: s.get(z3.simplify(k + lo)), s.kind, inv, s.havoc, s.name)


class MapSeq(SymSeq):
    def __init__(self, base, f):
        self.base, self.f = base, f
        super().__init__(base.length, lambda i: core.summarize_value(lambda: f(base.get(i))), "list",
                         name=f"map({base.name})")

    def __bool__(self):
        return bool(self.base)


def map_seq(s, f):
    return MapSeq(s, f)


def root_emit(seq):
    """(root sequence, i -> elements that its i-th element contributes)."""
    if isinstance(seq, MapSeq):
        r, em = root_emit(seq.base)
        return r, lambda i: [seq.f(x) for x in em(i)]
    if isinstance(seq, FilterSeq):
        r, em = root_emit(seq.base)
        return r, lambda i: [x for x in em(i) if truth(seq.pred(x))]
    return seq, lambda i: [seq.get(i)]


def unzip_seq(seq):
    """zip(*seq) of a non-empty sequence of equally long lists."""
    if not core.branch(seq.length > 0):
        return []
    el = seq.get(z3.IntVal(0))
    if not isinstance(el, (list, tuple)):
        raise Unsupported("zip(*sequence) of non-lists")
    out = []
    for j in range(len(el)):
        c = MapSeq(seq, lambda x, j=j: x[j])
        c.component = j
        out.append(c)
    return out


def fold_seq(ip, op, seq, what):
    """Left fold of a non-empty filtered / mapped sequence, by the contract of
    its root: inv({"acc": value or None, "component": j}, k)."""
    from .core import PathEnd
    root, emit = root_emit(seq)
    if root.inv is None:
        raise Unsupported(f"{what} over a symbolic sequence without a contract")
    j = getattr(seq, "component", 0)
    if not core.branch(seq.length > 0):
        raise Unsupported(f"{what} of an empty sequence")
    st = lambda a: {"acc": a, "component": j}
    ip.env.check(f"invariant of {what} over {root.name} holds on entry", root.inv(st(None), 0), kind="invariant")
    which = core.choose(3)
    hav = root.havoc(f"acc{j}", None) if which != 1 else None
    if which < 2:
        k = z3.Int(core.fresh_name(f"k_{root.name}"))
        core.assume(z3.And(k >= 0, k < root.length))
        core.assume(core.as_z3_bool(root.inv(st(hav), SymInt(k))))
        new = hav
        for x in emit(k):
            new = x if new is None else op(new, x)
        ip.env.check(f"invariant of {what} over {root.name} is preserved", root.inv(st(new), SymInt(k) + 1),
                     kind="invariant")
        raise PathEnd()
    core.assume(core.as_z3_bool(root.inv(st(hav), mk(root.length))))
    return hav


class FilterSeq(SymSeq):
    """The subsequence of base where pred holds, order kept."""

    def __init__(self, base, pred):
        self.base, self.pred = base, pred
        n = z3.Int(core.fresh_name("len_filter"))
        core.assume(z3.And(n >= 0, n <= base.length))
        idx = z3.Function(core.fresh_name("filter_idx"), z3.IntSort(), z3.IntSort())
        self.idx = idx

        def get(i):
            j = idx(i)
            core.assume(z3.And(j >= 0, j < base.length))
            core.assume(z3.Implies(i > 0, idx(i - 1) < j))
            el = base.get(j)
            p = core.summarize_value(lambda: truth(pred(el)))
            core.assume(as_z3_bool(p))
            return el
        super().__init__(n, get, "list", name=f"filter({base.name})")

    def __bool__(self):
        from .core import PathEnd
        if core.branch(self.length > 0):
            return True
        root, _ = root_emit(self)
        env = getattr(core.cur().ex, "env", None)
        if root.inv is not None and getattr(root, "folds", None) and env is not None:
            # nothing passes the filter: the fold state stays empty
            for j in range(root.folds):
                st = {"acc": None, "component": j}
                env.check(f"nothing kept from {root.name}: entry", root.inv(st, 0), kind="invariant")
                if core.choose(2) == 0:
                    k = z3.Int(core.fresh_name(f"k_{root.name}"))
                    core.assume(z3.And(k >= 0, k < root.length))
                    core.assume(core.as_z3_bool(root.inv(st, SymInt(k))))
                    if root_emit(self)[1](k):
                        raise core.Infeasible()
                    env.check(f"nothing kept from {root.name}: preserved", root.inv(st, SymInt(k) + 1), kind="invariant")
                    raise PathEnd()
                core.assume(core.as_z3_bool(root.inv(st, mk(root.length))))
        return False


def filter_seq(s, pred):
    return FilterSeq(s, pred)


class ConcatSeq(SymSeq):
    def __init__(self, a, b):
        self.parts = (a, b)
        la = a.length if isinstance(a, SymSeq) else z3.IntVal(len(a))
        lb = b.length if isinstance(b, SymSeq) else z3.IntVal(len(b))

        def get(i):
            i = z3.simplify(i)
            if core.branch(i < la):
                return _get(a, i)
            return _get(b, i - la)
        super().__init__(la + lb, get, "list", name="concat")


def _get(s, i):
    if isinstance(s, SymSeq):
        return s.get(z3.simplify(i))
    for k in range(len(s)):
        if core.branch(i == k):
            return s[k]
    raise core.Infeasible()


class SortSeq(SymSeq):
    """A sorted permutation of base: elements are base elements, adjacent
    elements are in key order (ties keep the order of base)."""

    def __init__(self, interp, base, key, reverse):
        self.base, self.key, self.reverse = base, key, reverse
        perm = z3.Function(core.fresh_name("perm"), z3.IntSort(), z3.IntSort())
        self.perm = perm

        def get(i):
            j = perm(i)
            core.assume(z3.And(j >= 0, j < base.length))
            return base.get(j)
        super().__init__(base.length, get, "list", name=f"sorted({base.name})")


def seq_binop(op, a, b):
    va, vb = (isinstance(v, SymSeq) and v.kind == "vector" for v in (a, b))
    if va or vb:
        # a numeric vector of any length
        if va and vb:
            if not z3.eq(z3.simplify(a.length), z3.simplify(b.length)):
                raise Unsupported("vectors of different lengths")
            f = lambda i: binop(op, a.get(i), b.get(i), ieee=True)
        elif va:
            f = lambda i: binop(op, a.get(i), b, ieee=True)
        else:
            f = lambda i: binop(op, a, b.get(i), ieee=True)
        return SymSeq((a if va else b).length, f, "vector", name=(a if va else b).name)
    if op == "+":
        return ConcatSeq(a, b)
    raise Unsupported("operator %s on a symbolic sequence" % op)


# ------------------------------------------------------------ attributes
class BoundModel:
    _pyvc_native = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class SymShape:
    """Shape of a generic array: equality is identity of the index space."""
    _pyvc_symbolic = True

    def __init__(self, space):
        self.space = space

    def __eq__(self, o):
        return isinstance(o, SymShape) and o.space is self.space

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    def as_list(self):
        return self

    def __len__(self):
        if not all(d in ("batch", "vec", "vec'") for d in self.space.dims or ("?",)):
            raise Unsupported("rank of a generic array")
        return len(self.space.dims)

    def __getitem__(self, i):
        if i == 0:
            return count_of(self.space)
        if isinstance(i, slice) and i == slice(1, None) and len(self.space.dims or ()) > 1:
            return SymShape(rest_space(self.space))
        raise Unsupported("index of a generic shape")

    @property
    def ndims(self):
        r = getattr(self.space, "rank", None)
        if r is None:
            raise Unsupported("rank of a generic array")
        return r

    @property
    def rank(self):
        return self.ndims


def sym_attr(ip, o, name):
    if isinstance(o, SymArr):
        if name == "dtype":
            return o.dtype
        if name == "shape":
            if o.kind == "tf":
                import tensorflow as tf
                return tf.TensorShape([]) if o.space is None else SymShape(o.space)
            return () if o.space is None else SymShape(o.space)
        if name == "get_shape":
            import tensorflow as tf
            return BoundModel(lambda: tf.TensorShape([]) if o.space is None else SymShape(o.space))
        if name == "ndim" and o.space is None:
            return 0
        if name == "ndim" and o.space.rank is not None:
            return o.space.rank
        if name == "size":
            return 1 if o.space is None else count_of(o.space)
        if name == "astype":
            return BoundModel(lambda d, copy=True: np_cast(o, d))
        if name == "T":
            return np_transpose(o)
        if name in ("item",) and o.space is None:
            return BoundModel(lambda: o.el)
        if name in ("any", "all", "sum", "min", "max") and o.space is None:
            return BoundModel(lambda axis=None: o)
        if name == "sum":
            return BoundModel(lambda axis=None: np_sum(o, axis))
        if name in ("copy",):
            return BoundModel(lambda: o)
        raise Unsupported(f"attribute {name} of a symbolic array")
    if isinstance(o, SymStr):
        if name in ("encode", "decode", "startswith", "endswith"):
            return BoundModel(getattr(o, name))
        if name == "__class__":
            return str if o.kind == "str" else bytes
        raise Unsupported(f"attribute {name} of a symbolic string")
    if isinstance(o, SymSeq):
        if name == "append":
            raise Unsupported("append to a symbolic sequence")
        if name == "sort":
            def sort(key=None, reverse=False):
                base = SymSeq(o.length, o.get, o.kind, name=o.name)
                s = SortSeq(ip, base, key, reverse)
                o.length, o.get, o.kind = s.length, s.get, s.kind
                o.sorted_by = s
            return BoundModel(sort)
        raise Unsupported(f"attribute {name} of a symbolic sequence")
    if isinstance(o, (SymInt, SymReal)):
        if name == "dtype":
            raise Unsupported("dtype of a symbolic scalar")
        if name == "item":
            return BoundModel(lambda: o)
        if name == "astype":
            return BoundModel(lambda d: np_cast(o, d))
        if name == "is_integer" and isinstance(o, SymReal):
            return BoundModel(lambda: mk(z3.IsInt(o.e)))
        if name == "shape":
            return ()
    a = getattr(o, name)
    return a


# ---------------------------------------------- outer products of columns
class SymMatT(Sym):
    """The transpose of a batch x vec array."""
    def __init__(self, arr):
        self.arr = arr

    def __hash__(self): return 0
    def __matmul__(self, o): return np_matmul(self, o)


def prime_of(v, space):
    """The same element at an independent second column index."""
    if not isinstance(v, Sym):
        return v
    env_space = core.cur().ex.space_of
    sub, seen, st = [], set(), [v.e]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        g = GENERIC.get(e.get_id())
        if g is not None and "vec" in (g[1].dims or ()):
            q = z3.Const(str(e) + "'", e.sort())
            register_generic(q, env_space("*".join(d + "'" if d == "vec" else d for d in g[1].dims)))
            sub.append((e, q))
        else:
            st.extend(e.children())
    return mk(z3.substitute(v.e, *sub)) if sub else v


def np_matmul(a, b):
    if isinstance(a, SymMatT) and isinstance(b, SymArr) and b.space is a.arr.space and b.space.dims == ("batch", "vec"):
        sp = core.cur().ex.space_of("batch*vec*vec'")
        el = binop("*", a.arr.el, prime_of(b.el, b.space))
        el2 = mk(z3.simplify(to_r(core.to_arith(el)), som=True))
        for e in [a.arr.el, prime_of(b.el, b.space)]:
            _alias(e, sp)
        r = space_sum(el2, sp)
        out = core.cur().ex.space_of("vec*vec'")
        return SymArr(r, "np", core._dtype_join("*", a.arr, b), out)
    raise Unsupported("np.matmul form")


ALIAS = {}


def _alias(v, space):
    """Marks the generic constants of v as varying over space, too."""
    st = [v.e] if isinstance(v, Sym) else []
    while st:
        e = st.pop()
        if e.get_id() in GENERIC:
            ALIAS.setdefault(e.get_id(), set()).add(space.name)
        st.extend(e.children())


def np_outer(a, b):
    if isinstance(a, SymArr) and isinstance(b, SymArr) and a.space is b.space and a.space.dims == ("vec",):
        return SymArr(binop("*", a.el, prime_of(b.el, b.space)), "np", core._dtype_join("*", a, b),
                      core.cur().ex.space_of("vec*vec'"))
    raise Unsupported("np.outer form")


def np_transpose(a, axes=None):
    if isinstance(a, SymMatT):
        return a.arr
    if isinstance(a, SymArr) and a.space is None:
        return a
    if isinstance(a, SymArr) and a.space.dims == ("batch", "vec"):
        return SymMatT(a)
    raise Unsupported("np.transpose form")


def arr_getitem(ip, o, i):
    if o.space is None and i == ():
        return o
    if i is Ellipsis:
        return o
    h = getattr(o.space, "getitem", None)
    if h:
        return h(o, i)
    raise Unsupported(f"indexing of a symbolic array by {i!r}")


def np_cast(v, dtype):
    dt = np.dtype(dtype)
    f = cast_fn(dt.kind)
    if isinstance(v, SymArr):
        return SymArr(f(v.el), "np", dt, v.space)
    return f(v)


def cast_fn(kind):
    if kind == "f":
        return to_float
    if kind in "iu":
        return to_int
    if kind == "b":
        return to_bool
    if kind in "OSU":
        return lambda x: x
    raise Unsupported("cast to kind " + kind)


def to_float(x):
    if isinstance(x, core.SymOpt):
        return core.mk_opt(to_float(x.v), x.fin)
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(z3.ToReal(core.to_arith(x)))
    if isinstance(x, SymReal):
        return x
    if isinstance(x, Sym):
        raise Unsupported("float() of " + type(x).__name__)
    return float(x)


def to_int(x):
    if isinstance(x, SymReal):
        return mk(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, SymBool):
        return mk(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, Sym):
        raise Unsupported("int() of " + type(x).__name__)
    if isinstance(x, float) and not math.isfinite(x):
        raise Unsupported("integer cast of a non-finite value")
    return int(x)


def to_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return mk(x.e != 0)
    return bool(x)


# ------------------------------------------------------------------ numpy
def np_sum(a, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(a, SymSeq) and axis == 0:
        return fold_seq(_IP[0], lambda x, y: core.arr_binop("+", x, y), a, "the sum")
    if isinstance(a, (list, tuple)) and axis == 0:
        r = a[0]
        for x in a[1:]:
            r = binop("+", r, x) if not isinstance(r, SymArr) and not isinstance(x, SymArr) else core.arr_binop("+", r, x)
        return r if not (isinstance(r, np.ndarray)) else r
    if isinstance(a, SymArr):
        if a.space is None:
            return SymArr(to_int(a.el) if a.dtype is not None and a.dtype.kind == "b" else a.el, a.kind, a.dtype, None)
        return reduce_space(a, axis)
    if isinstance(a, (SymInt, SymReal)):
        return a
    if isinstance(a, (list, tuple)) and axis is None:
        r = 0
        for x in a:
            r = binop("+", r, x if not isinstance(x, (list, tuple, SymArr)) else np_sum(x))
        return r
    raise Unsupported("np.sum form")


def reduce_space(a, axis, f=None):
    """Sum (or f) over all dimensions or the leading one."""
    f = f or space_sum
    el = a.el
    if len(a.space.dims or ()) > 1:
        # n_<space> stands for the number of summands: one meaning per path
        use = core.cur().__dict__.setdefault("axis_use", {})
        if use.setdefault(a.space.name, axis) != axis:
            raise Unsupported("reductions of one array over different axes")
    if isinstance(el, (SymBool, bool)):
        el = to_int(el)
    d = a.space.dims or (a.space.name,)
    if axis is None or (len(d) == 1 and axis in (0, -1)):
        return SymArr(f(el, a.space), a.kind, a.dtype, None)
    if axis == 0:
        rest = rest_space(a.space)
        r = f(el, a.space)
        _register_rec(r, rest)
        return SymArr(r, a.kind, a.dtype, rest)
    raise Unsupported("reduction over an inner axis of a generic array")


_REST = {}


def rest_space(sp):
    d = sp.dims
    env_space = core.cur().ex.space_of
    return env_space("*".join(d[1:]))


def _register_rec(v, space):
    """Marks every moment symbol of v as varying over the remaining dims."""
    if isinstance(v, core.SymOpt):
        _register_rec(v.v, space)
        return
    if not isinstance(v, Sym):
        return
    st, seen = [v.e], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(
                ("sum[", "min[", "max[", "int_")):
            register_generic(e, space)
        st.extend(e.children())


def space_extremum(which):
    def f(el, space):
        """Minimum / maximum over a space: a bound on the generic element."""
        if isinstance(el, core.SymOpt):
            if core._feasible(core.cur(), z3.Not(el.fin)):
                raise Unsupported("extremum of possibly missing values")
            el = el.v
        n = core.to_arith(count_of(space))
        neutral = float("inf") if which == "min" else float("-inf")
        if core.is_fp_special(el):
            return el
        if not isinstance(el, Sym):
            return core.ite(mk(n > 0), el, neutral)
        if core.branch(n == 0):
            return neutral
        e = core.to_arith(el)
        m = (z3.Int if z3.is_int(e) else z3.Real)("%s[%s](%s)" % (which, space.name, _key(e)))
        core.assume(m <= e if which == "min" else m >= e)
        return mk(m)
    return f


def np_minmax(which):
    def f(a, axis=None, **k):
        if isinstance(a, SymSeq) and axis == 0:
            return fold_seq(_IP[0], lambda x, y: ew_minmax(which, x, y), a, "the " + which)
        if isinstance(a, (list, tuple)) and axis == 0:
            r = a[0]
            for x in a[1:]:
                r = ew_minmax(which, r, x)
            return r
        if isinstance(a, SymArr) and a.space is None:
            return a
        raise Unsupported("np.min/np.max form")
    return f


def smm(which, x, y):
    x, y = core.unbox(x), core.unbox(y)
    if core.is_fp_special(x) or core.is_fp_special(y):
        if (core.is_fp_special(x) and math.isnan(x)) or (core.is_fp_special(y) and math.isnan(y)):
            return float("nan")
    if isinstance(x, core.SymOpt) or isinstance(y, core.SymOpt):
        (a, fa), (b, fb) = core.opt_parts(x), core.opt_parts(y)
        return core.mk_opt(smm(which, a, b), z3.And(fa, fb))
    c = compare("<=" if which == "min" else ">=", x, y)
    return core.ite(c, x, y) if isinstance(c, Sym) else (x if c else y)


def ew_minmax(which, a, b):
    return arr_map(lambda x, y: smm(which, x, y), a, b) if isinstance(a, SymArr) or isinstance(b, SymArr) else smm(which, a, b)


def nan_to_num(v, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        if isinstance(x, core.SymOpt):
            return core.ite(mk(x.fin), x.v, nan)
        if isinstance(x, Sym):
            return x
        return float(np.nan_to_num(x, nan=nan, posinf=posinf, neginf=neginf)) if isinstance(x, float) else x
    return arr_map(f, v) if isinstance(v, SymArr) else f(v)


def np_where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where with one argument")
    a, b = ab
    arrs = [x for x in (c, a, b) if isinstance(x, SymArr)]
    if not arrs:
        return core.ite(c, a, b)
    dt = core._dtype_join("+", a, b) if (isinstance(a, SymArr) or isinstance(b, SymArr)) else np.asarray(0.0).dtype
    return arr_map(lambda p, x, y: core.ite(p, x, y) if isinstance(p, Sym) else (x if p else y), c, a, b, dtype=dt) \
        if isinstance(c, SymArr) or True else None


def np_array(x, dtype=None, **k):
    if isinstance(x, SymArr):
        return x if dtype is None else np_cast(x, dtype)
    if isinstance(x, (SymInt, SymReal, SymBool)):
        d = np.dtype("int64") if isinstance(x, SymInt) else np.dtype("bool") if isinstance(x, SymBool) else np.dtype("float64")
        r = SymArr(x, "np", d, None)
        return r if dtype is None else np_cast(r, dtype)
    if isinstance(x, core.SymVec):
        return core.SymVec(x.items, dtype or x.dtype)
    if isinstance(x, (list, tuple)) and x:
        rows = [core._other(v) for v in x]
        rows = [np_array(v) if isinstance(v, (list, tuple)) else v for v in rows]
        if dtype is None:
            dtype = np.result_type(*[v.dtype if isinstance(v, (SymArr, core.SymVec)) else
                                     np_array(v).dtype if is_sym(v) else np.asarray(v).dtype for v in rows])
        return core.SymVec([v.el if isinstance(v, SymArr) and v.space is None else v for v in rows], dtype)
    raise Unsupported("np.array of a structure of symbolic values")


def np_stack(xs, axis=0, **k):
    if axis != 0 or not all(isinstance(x, (SymArr, core.SymVec)) for x in xs):
        raise Unsupported("np.stack form")
    return np_array(list(xs))


def isnan(v):
    f = lambda x: mk(z3.Not(x.fin)) if isinstance(x, core.SymOpt) else (isinstance(x, float) and math.isnan(x))
    return arr_map(f, v, dtype=core.bool_dtype(v.kind)) if isinstance(v, SymArr) else f(v)


def isinf(v):
    f = lambda x: (isinstance(x, float) and math.isinf(x))
    return arr_map(f, v, dtype=core.bool_dtype(v.kind)) if isinstance(v, SymArr) else f(v)


def isfinite(v):
    f = lambda x: mk(x.fin) if isinstance(x, core.SymOpt) else not (isinstance(x, float) and not math.isfinite(x))
    return arr_map(f, v, dtype=core.bool_dtype(v.kind)) if isinstance(v, SymArr) else f(v)


def ew(op):
    def f(a, b, out=None, where=None, **k):
        if where is not None:
            if out is None:
                raise Unsupported("where= without out=")
            return arr_map(lambda c, o, x, y: binop(op, x, y, ieee=True) if truth(c) else o, where, out, a, b,
                           dtype=getattr(out, "dtype", None))
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            return core.arr_binop(op, a, b)
        return binop(op, a, b, ieee=True)
    return f


def ewc(op):
    def f(a, b, **k):
        return compare(op, a, b)
    return f


def log_model(base, strict=False):
    def one(x):
        if strict and not isinstance(x, Sym) and x <= 0:
            raise ValueError("math domain error")
        if not isinstance(x, Sym):
            with np.errstate(all="ignore"):
                return float({None: np.log, 2: np.log2, 10: np.log10, "1p": np.log1p}[base](x)) if core.is_fp_special(x) or x <= 0 else core.ufun(
                    "log", core.to_real(x)) if x != 1 else 0.0
        e = core.to_real(x)
        if base == "1p":
            e = e + 1
        if core.branch(e <= 0):
            if strict:
                raise ValueError("math domain error")
            return float("-inf") if core.branch(e == 0) else float("nan")
        r = core.ufun("log", z3.simplify(e))
        if base in (2, 10):
            r = r / core.ufun("log", z3.RealVal(base)) if False else binop("/", r, LOGC(base))
        return r

    def f(v, *a, **k):
        return arr_map(one, v) if isinstance(v, SymArr) else one(v)
    return f


def LOGC(base):
    c = core.ufun("log", z3.RealVal(base))
    core.assume(c.e > 0)
    return c


def exp_model(v, *a, **k):
    def one(x):
        if not isinstance(x, Sym):
            return float(np.exp(x))
        r = core.ufun("exp", core.to_real(x))
        core.assume(r.e > 0)
        return r
    return arr_map(one, v) if isinstance(v, SymArr) else one(v)


def np_anyall(which):
    def f(v, axis=None, **k):
        if isinstance(v, (SymBool, bool)):
            return v
        if isinstance(v, core.SymVec) and axis is None:
            bs = [as_z3_bool(f(v._item(i))) for i in range(len(v))]
            return mk((z3.Or if which == "any" else z3.And)(*bs))
        if isinstance(v, SymArr):
            el = v.el
            if not isinstance(el, Sym):
                if v.space is None:
                    return bool(el)
                # constant over all elements
                if which == "any":
                    return mk(z3.And(core.to_arith(count_of(v.space)) > 0, z3.BoolVal(bool(el))))
                return mk(z3.Or(core.to_arith(count_of(v.space)) == 0, z3.BoolVal(bool(el))))
            b = as_z3_bool(el)
            if v.space is None:
                return mk(b)
            memo = {}
            if not _generic(b, v.space, memo):
                return mk(b)
            r = z3.Bool("%s[%s](%s)" % (which, v.space.name, _key(b)))
            core.cur().abstract = True
            core.assume(z3.Implies(b, r) if which == "any" else z3.Implies(r, b))
            return SymBool(r)
        if isinstance(v, (list, tuple)):
            return (any if which == "any" else all)(truth(f(x)) for x in v)
        raise Unsupported("np.%s form" % which)
    return f


def array_equal(a, b, **k):
    A = a if isinstance(a, SymArr) else None
    B = b if isinstance(b, SymArr) else None
    if A is None and isinstance(a, (SymInt, SymReal)):
        A = np_array(a)
    if B is None and isinstance(b, (SymInt, SymReal)):
        B = np_array(b)
    a2, b2 = (A if A is not None else np.asarray(a)), (B if B is not None else np.asarray(b))
    sh = lambda v: (v.space if isinstance(v, SymArr) else ("shape",) + v.shape if v.shape else None)
    s1, s2 = sh(a2), sh(b2)
    if s1 is None and s2 is None:
        x = a2.el if isinstance(a2, SymArr) else a2.item()
        y = b2.el if isinstance(b2, SymArr) else b2.item()
        return compare("==", x, y)
    if s1 is None or s2 is None:
        return False
    raise Unsupported("np.array_equal of arrays of rank > 0")


def zeros_like(fill):
    def f(a, dtype=None, **k):
        if isinstance(a, core.SymVec):
            return core.vec_map(lambda x: f(x, dtype), a)
        if isinstance(a, SymArr):
            d = a.dtype if dtype is None else np.dtype(dtype)
            return SymArr(fill if d.kind == "f" else int(fill), "np", d, a.space)
        raise Unsupported("zeros_like form")
    return f


def shape_fill(fill):
    def f(shape, dtype=float, **k):
        if isinstance(shape, SymShape):
            return SymArr(fill, "np", np.dtype(dtype), shape.space)
        raise Unsupported("zeros/ones with a symbolic shape")
    return f


def np_full(shape, value, dtype=None, **k):
    if isinstance(shape, SymShape):
        v = value
        if isinstance(value, SymArr):
            v = value.el
        d = np.dtype(dtype) if dtype is not None else (np.asarray(value).dtype if not is_sym(value) else np.dtype(float))
        return SymArr(v, "np", d, shape.space)
    if shape in ((), []):
        return np_array(value, dtype)
    raise Unsupported("np.full with symbolic arguments")


def np_clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = ew_minmax("max", r, lo)
    if hi is not None:
        r = ew_minmax("min", r, hi)
    return r


# ------------------------------------------------------------------ install
_IP = [None]


def install(ip):
    _IP[0] = ip
    reg = ip.model

    # ---- builtins
    @reg(builtins.len)
    def _len(x):
        if isinstance(x, SymSeq):
            return mk(x.length)
        if isinstance(x, SymStr):
            return x.length()
        if isinstance(x, SymArr):
            if x.space is None:
                raise TypeError("len() of unsized object")
            raise Unsupported("len of a generic array")
        if isinstance(x, (SymInt, SymReal)):
            raise TypeError("object has no len()")
        return len(x)

    @reg(builtins.isinstance)
    def _isinstance(x, t):
        return sym_isinstance(x, t)

    @reg(builtins.bool)
    def _bool(x):
        return to_bool(x) if isinstance(x, (SymBool, SymInt, SymReal)) else truth(x)

    @reg(builtins.int)
    def _int(x, *a):
        if isinstance(x, SymStr):
            v = z3.StrToInt(x.e)
            if a and a[0] != 10:
                raise Unsupported("int() with a base")
            if core.branch(v < 0):
                raise ValueError("invalid literal for int()")
            return mk(v)
        if isinstance(x, SymArr) and x.space is None:
            x = x.el
        return to_int(x)

    @reg(builtins.float)
    def _float(x):
        if isinstance(x, SymArr) and x.space is None:
            x = x.el
        return to_float(x)

    @reg(builtins.str)
    def _str(x="", *a):
        if isinstance(x, SymStr) and x.kind == "str":
            return x
        if isinstance(x, SymInt):
            return SymStr(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))
        core.cur().abstract = True
        return SymStr(z3.String(core.fresh_name("str")))

    @reg(builtins.repr)
    def _repr(x):
        return "<symbolic>"

    @reg(builtins.abs)
    def _abs(x):
        return arr_map(core.sabs, x) if isinstance(x, SymArr) else core.sabs(x)

    @reg(builtins.range)
    def _range(*a):
        if len(a) == 1:
            n = core.to_arith(a[0])
            n = z3.If(n > 0, n, z3.IntVal(0))
            return SymSeq(z3.simplify(n), lambda i: mk(z3.simplify(i)), "list", name="range")
        if len(a) == 2:
            lo, hi = core.to_arith(a[0]), core.to_arith(a[1])
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return SymSeq(n, lambda i: mk(z3.simplify(i + lo)), "list", name="range")
        raise Unsupported("stepped symbolic range")

    @reg(builtins.sum)
    def _sum(xs, start=0):
        if isinstance(xs, SymSeq) and xs.kind == "vector" and start == 0:
            core.cur().abstract = True
            return mk(z3.Real(core.fresh_name("sum")))  # any number
        if isinstance(xs, SymSeq):
            raise Unsupported("sum of a symbolic sequence")
        r = start
        for x in ip.iterate(xs):
            r = ip.binary("+", r, x)
        return r

    @reg(builtins.any)
    def _any(xs):
        if isinstance(xs, SymSeq):
            i = z3.Int(core.fresh_name("any_i"))
            el = core.summarize_value(lambda: to_bool_v(_assume_and_get(xs, i)))
            return mk(z3.Exists([i], z3.And(i >= 0, i < xs.length, as_z3_bool(el))))
        if isinstance(xs, SymArr):
            return np_anyall("any")(xs)
        return any(truth(x) for x in ip.iterate(xs))

    @reg(builtins.all)
    def _all(xs):
        if isinstance(xs, SymSeq):
            i = z3.Int(core.fresh_name("all_i"))
            el = core.summarize_value(lambda: to_bool_v(_assume_and_get(xs, i)))
            return mk(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < xs.length), as_z3_bool(el))))
        if isinstance(xs, SymArr):
            return np_anyall("all")(xs)
        return all(truth(x) for x in ip.iterate(xs))

    def _assume_and_get(xs, i):
        core.assume(z3.And(i >= 0, i < xs.length))
        return xs.get(i)

    def to_bool_v(x):
        return to_bool(x) if isinstance(x, (Sym, bool, int, float)) else truth(x)

    def _minmax(which):
        def f(*a, key=None, default=None):
            if len(a) == 1:
                xs = list(ip.iterate(a[0]))
            else:
                xs = list(a)
            if not xs:
                if default is not None:
                    return default
                raise ValueError(f"{which}() arg is an empty sequence")
            if all(core.is_num(x) for x in xs) and key is None:
                r = xs[0]
                for x in xs[1:]:
                    r = smm(which, r, x)
                return r
            best = xs[0]
            kf = (lambda v: ip.call(key, v)) if key else (lambda v: v)
            for x in xs[1:]:
                if truth(ip.compare_("<" if which == "min" else ">", kf(x), kf(best))):
                    best = x
            return best
        return f
    reg(builtins.min)(_minmax("min"))
    reg(builtins.max)(_minmax("max"))

    @reg(builtins.sorted)
    def _sorted(xs, key=None, reverse=False):
        if isinstance(xs, SymSeq):
            return SortSeq(ip, xs, key, reverse)
        xs = list(ip.iterate(xs))
        kf = (lambda v: ip.call(key, v)) if key else (lambda v: v)
        out = []
        rev = truth(reverse)
        for x in xs:  # stable insertion sort, forking on comparisons
            k = kf(x)
            pos = len(out)
            while pos > 0 and truth(ip.compare_(">" if not rev else "<", out[pos - 1][0], k)):
                pos -= 1
            out.insert(pos, (k, x))
        return [x for _, x in out]

    @reg(builtins.list)
    def _list(x=()):
        if isinstance(x, SymSeq):
            return x if isinstance(x, (FilterSeq, MapSeq)) else SymSeq(x.length, x.get, "list", x.inv, x.havoc, x.name)
        return list(ip.iterate(x))

    @reg(builtins.tuple)
    def _tuple(x=()):
        if isinstance(x, SymSeq):
            return x if isinstance(x, (FilterSeq, MapSeq)) else SymSeq(x.length, x.get, "tuple", x.inv, x.havoc, x.name)
        return tuple(ip.iterate(x))

    @reg(builtins.set)
    def _set(x=()):
        out = set()
        for v in ip.iterate(x):
            if not any(truth(ip.eq(_Key.unwrap(y), v)) for y in out):
                out.add(_Key.wrap(v))
        return out

    @reg(builtins.dict)
    def _dict(*a, **k):
        d = {}
        for x in a:
            items = x.items() if isinstance(x, dict) else x
            for kk, v in items:
                ip.dict_set(d, _Key.unwrap(kk), v)
        d.update(k)
        return d

    @reg(builtins.iter)
    def _iter(x):
        if isinstance(x, SymSeq):
            it = SymSeq(x.length, x.get, "iter", x.inv, x.havoc, x.name)
            return it
        return iter(list(ip.iterate(x)))

    @reg(builtins.next)
    def _next(it, *d):
        if isinstance(it, SymSeq):
            if it.kind != "iter":
                raise TypeError("not an iterator")
            if core.branch(it.length <= 0):
                if d:
                    return d[0]
                raise StopIteration()
            first = it.get(z3.IntVal(0))
            old, n, inv = it.get, it.length, it.inv
            it.get = lambda i: old(z3.simplify(i + 1))
            it.length = z3.simplify(n - 1)
            if inv is not None:
                it.inv = lambda st, k: inv(st, binop("+", k, 1))
            return first
        return next(it, *d)

    @reg(builtins.zip)
    def _zip(*xs, strict=False):
        if any(isinstance(x, (tuple, list)) and not x for x in xs) and not strict:
            return []
        if any(isinstance(x, SymSeq) for x in xs):
            if not all(isinstance(x, SymSeq) for x in xs):
                raise Unsupported("zip of symbolic and concrete sequences")
            n = xs[0].length
            for x in xs[1:]:
                n = z3.If(x.length < n, x.length, n)
            return SymSeq(z3.simplify(n), lambda i: tuple(x.get(i) for x in xs), "list", name="zip")
        return list(zip(*[list(ip.iterate(x)) for x in xs], strict=strict))

    @reg(itertools.zip_longest)
    def _zip_longest(*xs, fillvalue=None):
        seqs = [x for x in xs if isinstance(x, SymSeq)]
        if any(not isinstance(x, SymSeq) and list(x) for x in xs) or any(
                not z3.eq(z3.simplify(x.length), z3.simplify(seqs[0].length)) for x in seqs):
            raise Unsupported("zip_longest of sequences of different lengths")
        return SymSeq(seqs[0].length, lambda i: tuple(x.get(i) if isinstance(x, SymSeq) else fillvalue for x in xs), "list", name="zip")

    @reg(builtins.enumerate)
    def _enumerate(x, start=0):
        if isinstance(x, SymSeq):
            r = SymSeq(x.length, lambda i: (mk(z3.simplify(i + core.to_arith(start))), x.get(i)), "list", x.inv, x.havoc, "enumerate")
            x.start = core.to_arith(start)
            return r
        return list(enumerate(list(ip.iterate(x)), start))

    @reg(builtins.reversed)
    def _reversed(x):
        return list(reversed(list(ip.iterate(x))))

    @reg(builtins.map)
    def _map(f, *xs):
        if isinstance(xs[0], SymSeq):
            return map_seq(xs[0], lambda v: ip.call(f, v))
        return [ip.call(f, *a) for a in zip(*[list(ip.iterate(x)) for x in xs])]

    @reg(builtins.filter)
    def _filter(f, xs):
        pred = (lambda v: ip.call(f, v)) if f is not None else (lambda v: v)
        if isinstance(xs, SymSeq):
            return filter_seq(xs, pred)
        return [x for x in ip.iterate(xs) if truth(pred(x))]

    _map.always = _filter.always = _sorted.always = True
    ip.models[id(builtins.min)][1].always = True
    ip.models[id(builtins.max)][1].always = True

    @reg(builtins.hash)
    def _hash(x):
        raise Unsupported("hash of a symbolic value")

    @reg(builtins.round)
    def _round(x, nd=None):
        if isinstance(x, SymArr) and x.space is None:
            x = x.el
        if nd is None and not isinstance(x, Sym):
            return round(x)
        if nd is None and isinstance(x, SymInt):
            return x
        if nd is None and isinstance(x, SymReal):
            # round half to even
            f = z3.ToInt(x.e)
            d = x.e - z3.ToReal(f)
            return mk(z3.If(d < 0.5, f, z3.If(d > 0.5, f + 1, z3.If(f % 2 == 0, f, f + 1))))
        raise Unsupported(f"round of {x!r}")

    @reg(builtins.divmod)
    def _divmod(a, b):
        return binop("//", a, b), binop("%", a, b)

    @reg(builtins.hasattr)
    def _hasattr(o, n):
        if isinstance(o, SymArr):
            try:
                sym_attr(ip, o, n)
                return True
            except Unsupported:
                return n in ("shape", "dtype")
        if isinstance(o, Sym):
            return hasattr({SymStr: "" if getattr(o, "kind", "") == "str" else b"", SymInt: 0, SymReal: 0.0, SymBool: True}.get(type(o), []), n)
        return hasattr(o, n)

    @reg(builtins.getattr)
    def _getattr(o, n, *d):
        try:
            return ip.getattr_(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    @reg(builtins.callable)
    def _callable(o):
        return callable(o) and not isinstance(o, Sym)

    @reg(builtins.type)
    def _type(o):
        if isinstance(o, Sym):
            return {SymInt: int, SymReal: float, SymBool: bool, SymSeq: list}.get(
                type(o), (str if getattr(o, "kind", None) == "str" else bytes) if isinstance(o, SymStr) else np.ndarray)
        return type(o)

    @reg(builtins.print)
    def _print(*a, **k):
        return None

    @reg(functools.reduce)
    def _reduce(f, xs, *init):
        if isinstance(xs, SymSeq):
            return reduce_contract(ip, f, xs, *init)
        xs = list(ip.iterate(xs))
        if init:
            acc = init[0]
        else:
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = ip.call(f, acc, x)
        return acc
    _reduce.always = True

    @reg(itertools.chain)
    def _chain(*xs):
        if any(isinstance(x, SymSeq) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ConcatSeq(r, x if isinstance(x, SymSeq) else list(x))
            return r
        return [y for x in xs for y in ip.iterate(x)]

    @reg(operator.itemgetter)
    def _ig(*a):
        raise Unsupported("itemgetter of symbolic")

    @reg(collections.OrderedDict)
    def _od(*a):
        d = collections.OrderedDict()
        for x in a:
            for k, v in (x.items() if isinstance(x, dict) else ip.iterate(x)):
                ip.dict_set(d, k, v)
        return d

    @reg(math.isnan)
    def _misnan(x):
        return isnan(x)

    reg(math.log)(log_model(None, strict=True))
    reg(math.log2)(log_model(2, strict=True))

    @reg(math.lgamma)
    def _lgamma(x):
        e = z3.simplify(core.to_real(x))
        if core.branch(z3.And(e <= 0, e == z3.ToReal(z3.ToInt(e)))):
            raise ValueError("math domain error")
        return core.ufun("lgamma", e)
    reg(math.exp)(exp_model)
    reg(math.sqrt)(lambda x: core.sqrt(x, False))
    reg(math.isfinite)(isfinite)
    reg(math.isinf)(isinf)

    @reg(math.floor)
    def _floor(x):
        return mk(z3.ToInt(core.to_real(x)))

    @reg(math.ceil)
    def _ceil(x):
        return mk(-z3.ToInt(-core.to_real(x)))

    # ---- numpy
    reg(np.sum)(np_sum)
    reg(np.min, np.amin)(np_minmax("min"))
    reg(np.max, np.amax)(np_minmax("max"))
    reg(np.minimum)(lambda a, b: ew_minmax("min", a, b))
    reg(np.maximum)(lambda a, b: ew_minmax("max", a, b))
    reg(np.nan_to_num)(nan_to_num)
    reg(np.where)(np_where)
    reg(np.array, np.asarray, np.copy)(np_array)
    reg(np.isnan)(isnan)
    reg(np.isinf)(isinf)
    reg(np.isfinite)(isfinite)
    reg(np.add)(ew("+"))
    reg(np.subtract)(ew("-"))
    reg(np.multiply)(ew("*"))
    reg(np.divide, np.true_divide)(ew("/"))
    reg(np.power)(ew("**"))
    reg(np.equal)(ewc("=="))
    reg(np.not_equal)(ewc("!="))
    reg(np.less)(ewc("<"))
    reg(np.less_equal)(ewc("<="))
    reg(np.greater)(ewc(">"))
    reg(np.greater_equal)(ewc(">="))
    reg(np.log)(log_model(None))
    reg(np.log2)(log_model(2))
    reg(np.log1p)(log_model("1p"))
    reg(np.exp)(exp_model)
    reg(np.sqrt)(lambda v: arr_map(core.sqrt, v))
    reg(np.abs, np.absolute)(lambda v: arr_map(core.sabs, v))
    reg(np.stack)(np_stack)
    reg(np.logical_and)(lambda a, b, **k: arr_map(lambda x, y: mk(z3.And(as_z3_bool(x), as_z3_bool(y))), a, b))
    reg(np.logical_or)(lambda a, b, **k: arr_map(lambda x, y: mk(z3.Or(as_z3_bool(x), as_z3_bool(y))), a, b))
    reg(np.minimum)(lambda a, b, **k: ew_minmax("min", a, b))
    reg(np.maximum)(lambda a, b, **k: ew_minmax("max", a, b))
    reg(np.arctan)(lambda v: arr_map(lambda x: core.ufun("arctan", core.to_real(x)) if is_sym(x) else math.atan(x), v))
    reg(np.cos)(lambda v: arr_map(lambda x: core.ufun("cos", core.to_real(x)) if is_sym(x) else math.cos(x), v))

    @reg(np.apply_along_axis)
    def _aaa(f, axis, a, *args, **k):
        if axis != 0 or not isinstance(a, core.SymVec):
            raise Unsupported("np.apply_along_axis form")
        # one generic column
        sp = next((v.space for v in a.items if isinstance(v, SymArr)), None)
        r = ip.call(f, core.SymVec([v.el if isinstance(v, SymArr) else v for v in a.items], a.dtype), *args, **k)
        if not isinstance(r, core.SymVec):
            raise Unsupported("np.apply_along_axis result")
        return core.SymVec([SymArr(core.el_of(v), "np", a.dtype, sp) for v in r.items], a.dtype)
    reg(np.square)(lambda v: binop("*", v, v))
    reg(np.negative)(lambda v: -v)
    reg(np.any)(np_anyall("any"))
    reg(np.all)(np_anyall("all"))
    reg(np.array_equal)(array_equal)
    reg(np.zeros_like)(zeros_like(0.0))
    reg(np.ones_like)(zeros_like(1.0))
    reg(np.zeros)(shape_fill(0.0))
    reg(np.ones)(shape_fill(1.0))
    reg(np.full)(np_full)
    reg(np.clip)(np_clip)
    reg(np.matmul, np.dot)(np_matmul)
    reg(np.outer)(np_outer)
    reg(np.transpose)(np_transpose)
    reg(np.ndarray.astype)(lambda a, d, copy=True: np_cast(a, d))
    reg(np.logical_not)(lambda v: ~v if isinstance(v, SymArr) else mk(z3.Not(as_z3_bool(v))))
    reg(np.isscalar)(lambda v: not isinstance(v, SymArr))
    reg(np.ndim)(lambda v: sym_attr(ip, v, "ndim") if isinstance(v, SymArr) else 0)
    reg(np.shape)(lambda v: sym_attr(ip, v, "shape") if isinstance(v, SymArr) else ())
    reg(np.promote_types)(np.promote_types); reg(np.result_type)(lambda *a: np.result_type(*[x.dtype if isinstance(x, SymArr) else x for x in a]))
    for d in (np.float32, np.float64, np.int64, np.int32, np.float16, np.bool_):
        reg(d)(lambda v, d=d: np_scalar_cast(v, d))


def np_scalar_cast(v, d):
    if isinstance(v, SymArr):
        return np_cast(v, d)
    return np_cast(v, d)


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []

    def fl(z):
        for y in z:
            if isinstance(y, tuple):
                fl(y)
            elif hasattr(y, "__args__") and not isinstance(y, type):
                fl(y.__args__)
            else:
                flat.append(y)
    fl(ts)
    if isinstance(x, Sym):
        names = _kinds(x)
        for k in flat:
            for n in names:
                try:
                    if n is k or (isinstance(n, type) and issubclass(n, k)):
                        return True
                except TypeError:
                    pass
        return False
    return isinstance(x, t)


def _kinds(x):
    import collections.abc
    if isinstance(x, SymBool):
        return (bool,)
    if isinstance(x, SymInt):
        return (int,)
    if isinstance(x, SymReal):
        return (float,)
    if isinstance(x, SymStr):
        return (str,) if x.kind == "str" else (bytes,)
    if isinstance(x, SymArr):
        if x.kind == "np":
            return (np.ndarray,)
        import tensorflow as tf
        return (tf.Tensor,)
    if type(x).__name__ == "SymSparse":
        import tensorflow as tf
        return (tf.SparseTensor,)
    if type(x).__name__ == "SymRagged":
        import tensorflow as tf
        return (tf.RaggedTensor,)
    if isinstance(x, SymSeq):
        return (list,) if x.kind == "list" else (tuple,) if x.kind == "tuple" else (collections.abc.Iterator,)
    return (object,)
