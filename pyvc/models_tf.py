"""Assumed contracts of the TensorFlow calls used by the functions under proof.

Elementwise operations, whole-array reductions and graph bookkeeping, over
exact numbers.  A tensor is known by its generic element (core.SymArr)."""
import contextlib
import math

import numpy as np
import z3

from . import core, models
from .core import SymArr, SymBool, SymInt, SymOpt, SymReal, SymStr, Sym, Unsupported, arr_map, binop, compare, is_sym, mk
from .models import ew, ewc, ew_minmax, reduce_space, SymShape


class SymSparse(Sym):
    """tf.SparseTensor with symbolic values; indices and shape are opaque."""

    def __init__(self, values, indices, dense_shape, dtype=None):
        self.values, self.indices, self.dense_shape = values, indices, dense_shape

    def __hash__(self): return 0
    @property
    def dtype(self): return self.values.dtype
    def with_values(self, v): return SymSparse(v, self.indices, self.dense_shape)


class SymRagged(Sym):
    def __init__(self, flat_values, splits):
        self.flat_values, self.nested_row_splits = flat_values, splits

    def __hash__(self): return 0
    @property
    def dtype(self): return self.flat_values.dtype


class Opaque(Sym):
    """A value that may only be passed along; identity is equality."""

    def __init__(self, name):
        self.name = name

    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __repr__(self): return f"<opaque {self.name}>"
    def __deepcopy__(self, memo): return self


def tfdt(d):
    import tensorflow as tf
    return tf.as_dtype(d)


def cast(x, dtype, name=None):
    d = tfdt(dtype)
    if isinstance(x, SymSparse):
        return x.with_values(cast(x.values, d))
    if isinstance(x, SymRagged):
        return SymRagged(cast(x.flat_values, d), x.nested_row_splits)
    f = models.to_float if d.is_floating else models.to_int if d.is_integer else models.to_bool if d.is_bool else None
    if f is None:
        raise Unsupported("tf.cast to " + d.name)
    if isinstance(x, SymArr):
        return SymArr(f(x.el), "tf", d, x.space)
    return SymArr(f(x), "tf", d, None)


def tensorize(x, like=None):
    if isinstance(x, (SymArr, SymSparse, SymRagged)):
        return x
    d = like.dtype if isinstance(like, SymArr) else None
    if isinstance(x, SymReal):
        return SymArr(x, "tf", d or tfdt("float32"), None)
    if isinstance(x, SymInt):
        return SymArr(x, "tf", d or tfdt("int32"), None)
    if isinstance(x, SymBool):
        return SymArr(x, "tf", tfdt("bool"), None)
    return x


def where(c, x=None, y=None, name=None):
    if x is None:
        raise Unsupported("tf.where with one argument")
    c, x, y = [core._other(v) for v in (c, x, y)]
    dt = next((v.dtype for v in (x, y) if isinstance(v, SymArr)), None)
    if isinstance(x, SymArr) and isinstance(y, SymArr) and x.dtype != y.dtype:
        raise TypeError(f"tf.where of {x.dtype} and {y.dtype}")
    if not isinstance(c, SymArr):
        c = SymArr(c, "tf", tfdt("bool"), None)
    f = lambda p, a, b: core.ite(p, a, b) if isinstance(p, Sym) else (a if p else b)
    return arr_map(f, c, x, y, dtype=dt)


def like(v):
    def f(x, dtype=None, name=None, **k):
        if isinstance(x, SymArr):
            d = tfdt(dtype) if dtype is not None else x.dtype
            val = float(v) if d.is_floating else bool(v) if d.is_bool else "" if d.name == "string" else int(v)
            return SymArr(b"" if val == "" else val, "tf", d, x.space)
        raise Unsupported("zeros_like form")
    return f


def reduce_sum(x=None, axis=None, keepdims=False, name=None, input_tensor=None, **k):
    x = x if x is not None else input_tensor
    if keepdims:
        raise Unsupported("keepdims")
    if isinstance(x, SymArr):
        if x.space is None:
            return x
        return reduce_space(x, axis)
    raise Unsupported("tf.reduce_sum form")


def reduce_ext(which):
    def f(x=None, axis=None, keepdims=False, name=None, input_tensor=None, **k):
        x = x if x is not None else input_tensor
        if isinstance(x, SymArr) and not keepdims:
            if x.space is None:
                return x
            return reduce_space(x, axis, models.space_extremum(which))
        raise Unsupported("tf.reduce_%s form" % which)
    return f


def divide_no_nan(a, b, name=None):
    def f(x, y):
        if not isinstance(y, Sym):
            return 0.0 if y == 0 else binop("/", x, float(y), True)
        if core.branch(core.to_arith(y) == 0):
            return 0.0
        return binop("/", x, y, True)
    return arr_map(f, a, b)


def bound(f):
    return models.BoundModel(f)


def install(ip):
    import tensorflow as tf
    reg = ip.model
    reg(tf.cast)(cast)
    import logging as _logging
    from absl import logging as _absl
    reg(_absl.warn, _absl.warning, _absl.info, _absl.error, _absl.debug)(lambda *a, **k: None)
    reg(tf.compat.v1.logging.warn, tf.compat.v1.logging.warning, tf.compat.v1.logging.info, tf.compat.v1.logging.debug,
        tf.compat.v1.logging.error, _logging.warning, _logging.info, _logging.debug, _logging.error)(
            lambda *a, **k: None)
    reg(tf.where, tf.compat.v1.where)(where)
    reg(tf.zeros_like, tf.compat.v1.zeros_like)(like(0))
    reg(tf.ones_like, tf.compat.v1.ones_like)(like(1))
    reg(tf.reduce_sum, tf.compat.v1.reduce_sum, tf.math.reduce_sum)(reduce_sum)
    reg(tf.reduce_min, tf.math.reduce_min)(reduce_ext("min"))
    reg(tf.reduce_max, tf.math.reduce_max)(reduce_ext("max"))
    reg(tf.add, tf.math.add)(ew("+"))
    reg(tf.subtract, tf.math.subtract)(ew("-"))
    reg(tf.multiply, tf.math.multiply)(ew("*"))
    reg(tf.divide, tf.math.divide, tf.math.truediv)(ew("/"))
    reg(tf.math.divide_no_nan)(divide_no_nan)
    reg(tf.square, tf.math.square)(lambda x, name=None: arr_map(lambda v: binop("*", v, v), x))
    reg(tf.sqrt, tf.math.sqrt)(lambda x, name=None: arr_map(core.sqrt, x))
    reg(tf.abs, tf.math.abs)(lambda x, name=None: arr_map(core.sabs, x))
    reg(tf.negative, tf.math.negative)(lambda x, name=None: -x)
    reg(tf.equal, tf.math.equal)(ewc("=="))
    reg(tf.not_equal, tf.math.not_equal)(ewc("!="))
    reg(tf.less, tf.math.less)(ewc("<"))
    reg(tf.less_equal, tf.math.less_equal)(ewc("<="))
    reg(tf.greater, tf.math.greater)(ewc(">"))
    reg(tf.greater_equal, tf.math.greater_equal)(ewc(">="))
    reg(tf.minimum, tf.math.minimum)(lambda a, b, name=None: ew_minmax("min", a, b))
    reg(tf.maximum, tf.math.maximum)(lambda a, b, name=None: ew_minmax("max", a, b))
    reg(tf.logical_not, tf.math.logical_not)(lambda x, name=None: ~x)
    reg(tf.logical_and, tf.math.logical_and)(lambda a, b, name=None: a & b)
    reg(tf.logical_or, tf.math.logical_or)(lambda a, b, name=None: a | b)
    reg(tf.math.is_nan)(lambda x, name=None: models.isnan(x))
    reg(tf.math.is_finite)(lambda x, name=None: models.isfinite(x))
    reg(tf.math.is_inf)(lambda x, name=None: models.isinf(x))
    reg(tf.math.log)(models.log_model(None))
    reg(tf.math.exp)(models.exp_model)
    reg(tf.identity)(lambda x, name=None: x)
    reg(tf.stop_gradient)(lambda x, name=None: x)
    reg(tf.ensure_shape)(lambda x, s, name=None: x)

    @reg(tf.clip_by_value)
    def _clip(x, lo, hi, name=None):
        return ew_minmax("min", ew_minmax("max", x, lo), hi)

    @reg(tf.math.sigmoid, tf.sigmoid)
    def _sigmoid(x, name=None):
        def one(v):
            if not isinstance(v, Sym):
                return 1.0 / (1.0 + math.exp(-v)) if math.isfinite(v) else (float("nan") if v != v else float(v > 0))
            if isinstance(v, SymOpt):
                return core.mk_opt(one(v.v), v.fin)
            r = core.ufun("sigmoid", core.to_real(v))
            core.assume(z3.And(r.e > 0, r.e < 1))
            core.assume((r.e > z3.RealVal("1/2")) == (core.to_real(v) > 0))
            core.assume((r.e < z3.RealVal("1/2")) == (core.to_real(v) < 0))
            return r
        return arr_map(one, x)

    def vector_space(n):
        """The index space of a vector of n elements (one space per length)."""
        n = z3.simplify(core.to_real(n), som=True)
        sp = ip.env.space("range[%s]" % models._key(n))
        if not hasattr(sp, "index"):
            sp.index = z3.Int("i_" + sp.name)
            models.register_generic(sp.index, sp)
        i = sp.index
        core.assume(z3.And(i >= 0, z3.ToReal(i) < n))
        core.assume(z3.Implies(n >= 0, core.to_real(models.count_of(sp)) == n))
        return sp

    def filled(v):
        def f(shape, dtype=tf.float32, name=None):
            d = tfdt(dtype)
            if isinstance(shape, SymShape):
                sp = shape.space
            elif isinstance(shape, (list, tuple)) and len(shape) == 1:
                sp = vector_space(shape[0].el if isinstance(shape[0], SymArr) else shape[0])
            else:
                raise Unsupported("tf.ones/zeros with a symbolic shape")
            return SymArr(float(v) if d.is_floating else int(v), "tf", d, sp)
        return f
    reg(tf.ones)(filled(1))
    reg(tf.zeros)(filled(0))

    @reg(tf.range)
    def _range(start, limit=None, delta=1, dtype=None, name="range"):
        if limit is None:
            start, limit = 0, start
        el = lambda v: v.el if isinstance(v, SymArr) else v
        start, limit, delta = el(start), el(limit), el(delta)
        if is_sym(delta) or delta not in (1, -1):
            raise Unsupported("tf.range step")
        sp = vector_space(binop("*", binop("-", limit, start), delta))
        i = sp.index
        d = tfdt(dtype) if dtype is not None else tf.int32
        v = binop("+", start, binop("*", core.SymInt(i), delta))
        return SymArr(models.to_float(v) if d.is_floating else v, "tf", d, sp)

    @reg(tf.size)
    def _size(input=None, out_type=None, name=None):
        x = input
        d = tfdt(out_type) if out_type is not None else tf.int32
        if isinstance(x, SymArr):
            return SymArr(1 if x.space is None else models.count_of(x.space), "tf", d, None)
        raise Unsupported("tf.size form")

    @reg(tf.rank)
    def _rank(input, name=None):
        if isinstance(input, SymArr):
            return 0 if input.space is None else len(input.space.dims or (0,))
        raise Unsupported("tf.rank form")

    @reg(tf.shape)
    def _shape(input=None, out_type=None, name=None, x=None):
        input = x if input is None else input
        if isinstance(input, SymArr):
            return SymShape(input.space)
        if isinstance(input, SymSparse):
            return input.dense_shape
        raise Unsupported("tf.shape form")

    @reg(tf.fill)
    def _fill(dims, value, name=None):
        if isinstance(dims, (tuple, list)) and not dims:
            return value
        if isinstance(dims, SymShape):
            v = value.el if isinstance(value, SymArr) else value
            d = value.dtype if isinstance(value, SymArr) else tf.convert_to_tensor(value).dtype
            return SymArr(v, "tf", d, dims.space)
        raise Unsupported("tf.fill form")

    @reg(tf.convert_to_tensor, tf.constant)
    def _conv(x, dtype=None, name=None, shape=None):
        t = tensorize(x)
        return t if dtype is None or not isinstance(t, SymArr) else cast(t, dtype)

    @reg(tf.SparseTensor, tf.compat.v1.SparseTensor)
    def _sparse(indices=None, values=None, dense_shape=None):
        return SymSparse(values, indices, dense_shape)

    @reg(tf.RaggedTensor.from_nested_row_splits.__func__)
    def _ragged(cls, flat_values, nested_row_splits, name=None, validate=True):
        return SymRagged(flat_values, nested_row_splits)

    @reg(tf.broadcast_to)
    def _bc(x, shape, name=None):
        if isinstance(shape, SymShape):
            sp = core._join_space(SymArr(0, space=x.space if isinstance(x, SymArr) else None), SymArr(0, space=shape.space))
            if sp is not shape.space:
                raise Unsupported("broadcast")
            return SymArr(x.el, "tf", x.dtype, sp)
        raise Unsupported("tf.broadcast_to form")

    @reg(tf.control_dependencies, tf.compat.v1.name_scope, tf.name_scope)
    def _ctx(*a, **k):
        return contextlib.nullcontext()
    _ctx.always = True

    def ite_cond(pred, true_fn=None, false_fn=None, name=None):
        p = pred.el if isinstance(pred, SymArr) else pred
        return ip.call(true_fn) if core.truth(p) else ip.call(false_fn)
    reg(tf.cond)(ite_cond)

    # tensors as members
    prev = ip.sym_attr

    def attr(o, name):
        if isinstance(o, SymSparse):
            if name in ("values", "indices", "dense_shape", "dtype", "with_values"):
                v = getattr(o, name)
                return bound(v) if name == "with_values" else v
            if name == "get_shape":
                return bound(lambda: Opaque("static shape"))
            if name == "shape":
                return Opaque("static shape")
            raise Unsupported(f"attribute {name} of a symbolic sparse tensor")
        if isinstance(o, SymRagged):
            if name in ("flat_values", "nested_row_splits", "dtype"):
                return getattr(o, name)
            if name == "with_flat_values":
                return bound(lambda v: SymRagged(v, o.nested_row_splits))
            if name in o.__dict__:
                v = o.__dict__[name]
                return bound(v) if callable(v) else v
            raise Unsupported(f"attribute {name} of a symbolic ragged tensor")
        if isinstance(o, Opaque):
            if hasattr(type(o), name) and not name.startswith("_"):
                return bound(getattr(o, name))
            raise Unsupported(f"attribute {name} of {o!r}")
        if isinstance(o, SymArr) and o.kind == "tf" and name == "set_shape":
            return bound(lambda s: None)
        return prev(o, name)
    ip.sym_attr = attr
