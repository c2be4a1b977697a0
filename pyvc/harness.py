"""Contracts (units), the environments they run in, and the check runner.

A unit is a function body(E).  The same text is
  * proved: E = SymEnv; inputs are symbolic over their whole domain, E.call
    interprets the real function's AST, E.check states an obligation;
  * replayed: E = ConcEnv with a solver model; E.call runs the real function
    natively and E.check is evaluated;
  * run-time checked (bounded): E = ConcEnv with a seeded generator.
"""
import builtins
import ast
import collections
import hashlib
import json
import math
import os
import random
import re
import sys
import time
import traceback

import z3

from . import core, solve
from .core import (Budget, Explorer, Infeasible, Path, PathEnd, Sym, SymArr, SymBool, SymInt, SymReal, SymStr, SymTerm,
                   Unsupported, as_z3_bool, is_sym, mk)
from . import interp as interp_mod
from .interp import Interp, SymSeq

UNITS = collections.OrderedDict()


class Unit:
    def __init__(self, prop, name, body, targets, sym, conc, bounded, max_paths, max_s, note, timeout_s, conc_s,
                 exact, weight):
        self.prop, self.name, self.body, self.targets = prop, name, body, targets
        self.sym, self.conc, self.bounded = sym, conc, bounded
        self.max_paths, self.max_s, self.note, self.timeout_s = max_paths, max_s, note, timeout_s
        self.conc_s, self.exact, self.weight = conc_s, exact, weight


def unit(prop, name, targets=(), sym=True, conc=60, bounded=None, max_paths=1500, max_s=60, note="", timeout_s=6.0,
         conc_s=8.0, exact=True, weight=1):
    """Registers a unit.  bounded: text of the bound if the symbolic run does
    not cover all inputs (then its obligations are never counted as proved)."""
    def deco(body):
        u = Unit(prop, name, body, targets, sym, conc, bounded, max_paths, max_s, note, timeout_s, conc_s, exact,
                 weight)
        UNITS.setdefault(prop, []).append(u)
        return body
    return deco


class ContractFailure(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class Skip(BaseException):
    """The drawn input violates a precondition."""


class Raised:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({type(self.exc).__name__}: {str(self.exc)[:120]})"


TOL = 1e-6


# ------------------------------------------------------------------ symbolic
class LoopContract:
    def __init__(self, inv, havoc, yields=None):
        self.inv, self.havoc, self.yields = inv, havoc, yields


class SymEnv:
    symbolic = True

    def __init__(self, unit_, interp):
        self.u, self.interp = unit_, interp
        self.records = []  # (label, kind, status, backend, secs, model, abstract, choices)
        self.choices = {}
        self.specials = set()

    # inputs
    def _nm(self, name):
        return core.fresh_name(name)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self._nm(name))
        if lo is not None:
            core.assume(v >= core.to_arith(lo))
        if hi is not None:
            core.assume(v <= core.to_arith(hi))
        return SymInt(v)

    def real(self, name, lo=None, hi=None, small=None):
        v = z3.Real(self._nm(name))
        if lo is not None:
            core.assume(v >= core.to_real(lo))
        if hi is not None:
            core.assume(v <= core.to_real(hi))
        return SymReal(v)

    def bool(self, name):
        return SymBool(z3.Bool(self._nm(name)))

    def str(self, name, kind="str", alphabet=None, maxlen=None):
        v = z3.String(self._nm(name))
        if maxlen is not None:
            core.assume(z3.Length(v) <= maxlen)
        if kind == "bytes":
            r = z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("\\u{ff}"))
            core.assume(z3.InRe(v, z3.Star(r)))
        return SymStr(v, kind)

    def bytes(self, name, **k):
        return self.str(name, "bytes", **k)

    def choice(self, name, options):
        k = core.choose(len(options))
        self.choices[self._nm(name)] = k
        return options[k]

    def arr(self, name, space=None, kind="np", dtype="float64", lo=None, hi=None, is_int=None, nan=False):
        dt = norm_dtype(kind, dtype)
        integer = dtype_is_int(kind, dt) if is_int is None else is_int
        if dtype_is_bool(kind, dt):
            el = self.bool(name)
        elif dtype_is_str(kind, dt):
            el = self.str(name, "bytes")
        else:
            el = self.int(name, lo, hi) if integer else self.real(name, lo, hi)
        sp = self.space(space) if isinstance(space, str) else space
        if sp is not None:
            from . import models
            models.register_generic(el.e, sp)
        if nan:
            f = z3.Bool(self._nm(name + "_present"))
            if sp is not None:
                models.register_generic(f, sp)
            el = core.SymOpt(el, f)
        return SymArr(el, kind, dt, sp)

    def space(self, name):
        if not hasattr(self, "_spaces"):
            self._spaces = {}
        if name not in self._spaces:
            d = tuple(name.split("*"))
            self._spaces[name] = core.Space(name, rank=len(d), dims=d)
        return self._spaces[name]

    def seq(self, name, elem, inv=None, havoc=None, minlen=0, maxlen=None, kind="list", symlen=None):
        n = z3.Int(self._nm("len_" + name)) if symlen is None else core.to_arith(symlen)
        core.assume(n >= minlen)
        if maxlen is not None:
            core.assume(n <= maxlen)
        sort_cache = {}

        def get(i):
            return elem(_ElemEnv(self, name, i, sort_cache))
        return SymSeq(n, get, kind, inv, havoc, name)

    # conditions
    def assume(self, c):
        core.assume(as_z3_bool(c))

    def where(self, c, a, b):
        return core.ite(c if isinstance(c, Sym) else c, a, b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def And(self, *cs):
        return mk(z3.And(*[as_z3_bool(c) for c in cs])) if cs else True

    def Or(self, *cs):
        return mk(z3.Or(*[as_z3_bool(c) for c in cs])) if cs else False

    def Not(self, c):
        return mk(z3.Not(as_z3_bool(c)))

    def Implies(self, a, b):
        return mk(z3.Implies(as_z3_bool(a), as_z3_bool(b)))

    def eq(self, a, b, tol=None):
        import numpy as np
        for x in (a, b):
            if isinstance(x, SymArr) and x.space is None:
                pass
        a = a.el if isinstance(a, SymArr) else unarr(a)
        b = b.el if isinstance(b, SymArr) else unarr(b)
        if not is_sym(a) and not is_sym(b):
            return conc_eq(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if core.is_fp_special(a) or core.is_fp_special(b):
            if is_sym(a) or is_sym(b):
                return False
            return conc_eq(a, b)
        return self.interp.compare_("==", a, b)

    def le(self, a, b, tol=None):
        a = a.el if isinstance(a, SymArr) else unarr(a)
        b = b.el if isinstance(b, SymArr) else unarr(b)
        return core.compare("<=", a, b)

    def same(self, a, b):
        return self.eq(a, b)

    def log(self, x):
        return core.ufun("log", core.to_real(x))

    def sqrt(self, x):
        return core.sqrt(x)

    def isnan(self, x):
        x = x.el if isinstance(x, SymArr) else unarr(x)
        return isinstance(x, float) and math.isnan(x)

    def isfinite(self, x):
        x = x.el if isinstance(x, SymArr) else unarr(x)
        return is_sym(x) or math.isfinite(x)

    # calls
    def call(self, f, *args, **kwargs):
        return self.interp.call(f, *args, **kwargs)

    def attempt(self, f, *args, **kwargs):
        try:
            return self.interp.call(f, *args, **kwargs)
        except (Unsupported, Budget):
            raise
        except Exception as e:
            gap = core.model_gap(e)
            if gap:
                raise Unsupported(f"outside the model: {gap}")
            return Raised(e)

    def new(self, cls, *args, **kwargs):
        return self.interp.construct(cls, list(args), kwargs)

    def stub(self, owner, name, fn):
        if not isinstance(owner, type) and not hasattr(owner, name) and hasattr(builtins, name):
            setattr(owner, name, fn)           # a builtin, as that module sees it
            self.cleanups.append(lambda: delattr(owner, name))
            return
        old = owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)
        if not callable(getattr(old, "__func__", old)):
            # a variable, not a function: replaced for the duration of the path
            setattr(owner, name, fn)
            self.cleanups.append(lambda: setattr(owner, name, old))
            return
        self.interp.contracts[getattr(old, "__func__", old)] = fn

    def loop(self, fn, inv, havoc, yields=None):
        """Contract of the loops of fn: see Interp.loop_contract (while) and
        Interp.loop_symbolic (for, over a sequence of any length)."""
        self.interp.loops[fn.__qualname__] = LoopContract(inv, havoc, yields)

    def gen(self, name, f):
        raise Unsupported("generator of concrete values in a proof")

    def list(self, v):
        return list(self.interp.iterate(v))

    # obligations
    def check(self, label, cond, detail="", kind="post", pre=()):
        p = core.cur()
        if len(core.STACK) > 1:
            raise Unsupported("obligation inside a summary")
        if isinstance(cond, SymArr):
            cond = cond.el
        g = as_z3_bool(cond)
        st, backend, dt, model = solve.prove(p.pc + list(pre), g, self.u.timeout_s)
        self.records.append((label, kind, st, backend, dt, model, p.abstract, dict(self.choices)))

    def map(self, f, *arrs):
        """Elementwise construction of an array from arrays."""
        r = core.arr_map(f, *arrs)
        return r

    def total(self, arr):
        """Sum over all elements of an array (specification side)."""
        from . import models
        if not isinstance(arr, SymArr) or arr.space is None:
            return arr.el if isinstance(arr, SymArr) else arr
        el = arr.el
        if isinstance(el, (SymBool, bool)):
            el = models.to_int(el)
        return models.space_sum(el, arr.space)

    def coltotal(self, arr):
        """Sum over the leading dimension (specification side)."""
        from . import models
        if isinstance(arr.el, (SymBool, bool)):
            arr = SymArr(models.to_int(arr.el), arr.kind, arr.dtype, arr.space)
        return models.reduce_space(arr, 0)

    def elementwise(self, label, spec, *arrs):
        from . import models
        els = [a.el if isinstance(a, SymArr) else unarr(a) for a in arrs]
        pre = [core.to_arith(models.count_of(a.space)) >= 1 for a in arrs if isinstance(a, SymArr) and a.space is not None]
        # the generic element exists: its index space is not empty
        self.check(label, spec(*els), pre=pre)

    def table(self, name, **k):
        """A sorted tensor of shape [1, n] (rank 2) or [n] of unknown length."""
        from . import models_tab
        return models_tab.table(self, name, **k)

    def table_len(self, t):
        return t.n

    def at(self, t, i):
        return t.get(i)

    def item(self, seq, i):
        """seq[i]"""
        return self.interp.getitem(seq, i)

    def items(self, d):
        """The entries of a dictionary the code built."""
        from .interp import _Key
        return [(_Key.unwrap(k), v) for k, v in d.items()]

    def for_index(self, t, name, f):
        """f(i, entry) for an arbitrary index of the table."""
        i = self.int(name, 0, None)
        return self.Implies(i < t.n, f(i, t.get(i)))

    def keys(self, name, space="batch"):
        """A vector of keys, one per row."""
        from . import models_seg
        return models_seg.keys(self, name, space)

    def for_keys(self, key, vocab, x, f):
        """f(own, pick) for every key: own marks the elements of x of that key,
        pick selects the key's entry of a per-key result."""
        from . import models_seg
        f(SymArr(models_seg.own_of(key, x.space), "tf", None, x.space), lambda r: SymArr(r.el, "tf", r.dtype, None if r.space.name == "keys" else r.space))

    def seg_max(self, own, x):
        from . import models_seg
        return models_seg.segment_max_el(x.el, own.el, x.space)

    def fail(self, label, detail=""):
        self.check(label, False, detail)

    def cover(self, label):
        p = core.cur()
        self.records.append((label, "cover", "sat" if solve.satisfiable(p.pc) != "unsat" else "unsat", "z3", 0, None,
                             False, {}))

    def note(self, *a):
        pass


class _ElemEnv:
    """Draws fields of the i-th element of a symbolic sequence."""

    def __init__(self, env, name, i, cache):
        self.env, self.name, self.i, self.cache = env, name, i, cache
        self.symbolic = True

    def _f(self, field, sort):
        return z3.Function(f"{self.name}.{field}", z3.IntSort(), sort)(self.i)

    def int(self, field, lo=None, hi=None):
        v = self._f(field, z3.IntSort())
        if lo is not None:
            core.assume(v >= lo)
        if hi is not None:
            core.assume(v <= hi)
        return SymInt(v)

    def real(self, field, lo=None, hi=None):
        v = self._f(field, z3.RealSort())
        if lo is not None:
            core.assume(v >= lo)
        if hi is not None:
            core.assume(v <= hi)
        return SymReal(v)

    def bool(self, field):
        return SymBool(self._f(field, z3.BoolSort()))

    def str(self, field, kind="str", **k):
        return SymStr(self._f(field, z3.StringSort()), kind)

    def bytes(self, field, **k):
        return self.str(field, "bytes")

    def assume(self, c):
        core.assume(as_z3_bool(c))

    def choice(self, field, options):
        raise Unsupported("choice inside a sequence element")

    def arr(self, field, space=None, kind="np", dtype="float64", lo=None, hi=None):
        dt = norm_dtype(kind, dtype)
        el = self.int(field, lo, hi) if dtype_is_int(kind, dt) else self.real(field, lo, hi)
        return SymArr(el, kind, dt, self.env.space(space) if isinstance(space, str) else space)

    def __getattr__(self, n):
        return getattr(self.env, n)


def unarr(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if type(x).__module__.startswith("tensorflow") and hasattr(x, "numpy"):
        return unarr(x.numpy())
    return x


def norm_dtype(kind, dtype):
    if kind == "np":
        import numpy as np
        return np.dtype(dtype)
    import tensorflow as tf
    return tf.as_dtype(dtype)


def dtype_is_int(kind, dt):
    return dt.kind in "iu" if kind == "np" else dt.is_integer


def dtype_is_bool(kind, dt):
    return dt.kind == "b" if kind == "np" else dt.is_bool


def dtype_is_str(kind, dt):
    return dt.kind in "SUO" if kind == "np" else dt.name == "string"


def conc_eq(a, b, tol=TOL):
    """Equality used at run time: exact, except floats up to rounding."""
    import numpy as np
    a, b = unarr(a), unarr(b)
    if hasattr(a, "numpy") and type(a).__module__.startswith("tensorflow"):
        a = a.numpy()
    if hasattr(b, "numpy") and type(b).__module__.startswith("tensorflow"):
        b = b.numpy()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "OSU" or b.dtype.kind in "OSU":
            return all(conc_eq(x, y, tol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                scale = np.maximum(np.maximum(np.abs(a), np.abs(b)), 1.0)
                scale = np.where(np.isfinite(scale), scale, 1.0)
                ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * scale)
            return bool(np.all(ok))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b or (a != a and b != b):
                return True
            if not (math.isfinite(a) and math.isfinite(b)):
                return False
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(conc_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(conc_eq(a[k], b[k], tol) for k in a)
    return bool(a == b)


def loose_eq(a, b):
    if callable(a) and callable(b) and "InterpFunction" in (type(a).__name__, type(b).__name__):
        return True
    try:
        if conc_eq(a, b):
            return True
    except Exception:
        pass
    if type(a) is not type(b):
        return False
    try:
        if bool(a == b):
            return True
    except Exception:
        pass
    if type(a).__eq__ is object.__eq__ or dataclass_like(a):
        da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if da is None:
            return True
        return set(da) == set(db) and all(loose_eq(da[k], db[k]) for k in da)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(loose_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(loose_eq(a[k], b[k]) for k in a)
    return repr(a) == repr(b)


def dataclass_like(a):
    import dataclasses
    return dataclasses.is_dataclass(a)


# ------------------------------------------------------------------ concrete
class ConcEnv:
    symbolic = False

    def __init__(self, unit_, rng, consts, model=None, choices=None, p_model=1.0, cross=None, forced=None,
                 tape=None):
        self.tape, self.pos = tape, 0
        self.cleanups = []
        self.u, self.rng, self.consts = unit_, rng, consts
        self.model, self.choices, self.p_model = model, choices or {}, p_model
        self.names = {}
        self.drawn = []
        self.checks = 0
        self.cross = cross
        self.shape_of = {}
        self.forced = forced

    def _nm(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def _rec(self, name, v):
        if self.tape is not None and self.pos < len(self.tape) and self.tape[self.pos][0] == name:
            v = self.tape[self.pos][1]
        self.pos += 1
        if len(self.drawn) < 5000:
            self.drawn.append((name, v))
        return v

    def _use_model(self):
        return self.model is not None and self.rng.random() < self.p_model

    def _mval(self, e):
        v = self.model.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_string_value(v):
            return zstr(v)
        return None

    def clip(self, v, lo, hi):
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return v

    def int(self, name, lo=None, hi=None, wide=False):
        n = self._nm(name)
        if self.forced and n in self.forced:
            return self._rec(n, self.forced[n])
        if self._use_model():
            # a value outside its range is one that the proof did not constrain
            v = self._mval(z3.Int(n))
            if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi):
                return self._rec(n, v)
        return self._rec(n, self.rand_int(lo, hi))

    def rand_int(self, lo, hi):
        r = self.rng
        k = r.random()
        l = lo if lo is not None else -50
        h = hi if hi is not None else max(l + 50, 50)
        if k < 0.35:
            h2 = min(h, l + 6)
            v = r.randint(l, h2) if lo is not None else r.randint(-3, 3)
        elif k < 0.5 and self.consts["int"]:
            v = r.choice(self.consts["int"]) + r.choice([-1, 0, 0, 1])
        elif k < 0.56 and hi is None:
            v = r.choice([2**31, 2**40, 10**6, 255, 256, 65536])
        else:
            v = r.randint(l, h)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            v = r.randint(l, h)
        return v

    def real(self, name, lo=None, hi=None, small=False):
        n = self._nm(name)
        if self.forced and n in self.forced:
            return self._rec(n, self.forced[n])
        if self._use_model():
            v = self._mval(z3.Real(n))
            if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi):
                return self._rec(n, float(v))
        return self._rec(n, self.rand_real(lo, hi, small))

    def rand_real(self, lo=None, hi=None, small=False):
        r = self.rng
        k = r.random()
        if lo is not None and hi is not None:
            if k < 0.2:
                return float(r.choice([lo, hi]))
            return float(lo + (hi - lo) * r.choice([r.random(), 0.5, 0.25, 0.75]))
        if k < 0.35:
            v = float(r.randint(-4, 4))
        elif k < 0.5:
            v = r.randint(-40, 40) / 4.0
        elif k < 0.62 and self.consts["num"] and not small:
            v = float(r.choice(self.consts["num"])) + r.choice([0, 0, 0, 1, -1, 0.5])
        elif k < 0.66 and not small:
            v = r.choice([1e3, -1e3, 12345.75, 1e6, -2.5e5])
        elif k < 0.7:
            v = 0.0
        else:
            v = r.gauss(0, 3)
        if lo is not None and v < lo:
            v = lo + abs(v - lo) if abs(v - lo) < 1e7 else lo
        if hi is not None and v > hi:
            v = hi - abs(v - hi) if abs(v - hi) < 1e7 else hi
        if abs(v) > 1e9:
            v = 1e6
        return v

    def bool(self, name):
        n = self._nm(name)
        if self._use_model():
            v = self._mval(z3.Bool(n))
            if v is not None:
                return self._rec(n, bool(v))
        return self._rec(n, self.rng.random() < 0.5)

    def str(self, name, kind="str", alphabet=None, maxlen=None):
        n = self._nm(name)
        if self._use_model():
            v = self._mval(z3.String(n))
            if v is not None:
                return self._rec(n, v if kind == "str" else v.encode("latin-1", "replace"))
        return self._rec(n, self.rand_str(kind, alphabet, maxlen))

    def rand_str(self, kind="str", alphabet=None, maxlen=None):
        r = self.rng
        k = r.random()
        if alphabet is None and k < 0.15 and self.consts["str"]:
            s = r.choice(self.consts["str"])
            if r.random() < 0.5:
                s = s + r.choice(["a", "0", " ", "/"])
        else:
            al = alphabet or r.choice(["ab", "abcXYZ019", "ab \t", "a,b\"'\n\r|;-_/.%$", "éßø日本\U0001f600a", "\x00\x01\x7f~"])
            s = "".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])))
        if maxlen is not None:
            s = s[:maxlen]
        return s if kind == "str" else s.encode("utf-8")

    def bytes(self, name, **k):
        return self.str(name, "bytes", **k)

    def choice(self, name, options):
        n = self._nm(name)
        if n in self.choices:
            k = self.choices[n]
            if k < len(options):
                k = self._rec(n, k)
                return options[k]
        k = self._rec(n, self.rng.randrange(len(options)))
        return options[k]

    def space(self, name):
        return name

    def _shape(self, space):
        if space is None:
            return ()
        out = ()
        for d in space.split("*"):
            if d not in self.shape_of:
                # a dimension named batch* is a single (possibly empty) axis
                self.shape_of[d] = self._rec("shape_" + d, self.rng.choice(
                    [(0,), (1,), (2,), (3,), (5,), (8,)] if d.startswith("batch") else
                    [(1,), (2,), (3,), (4,)] if d.startswith("vec") else
                    [(1,), (2,), (3,), (5,), (2, 2), (1, 3)]))
            out += self.shape_of[d]
        return out

    def arr(self, name, space=None, kind="np", dtype="float64", lo=None, hi=None, shape=None, nan=False):
        import numpy as np
        n = self._nm(name)
        sh = self._shape(space) if shape is None else shape
        dt = norm_dtype(kind, dtype)
        k = int(np.prod(sh)) if sh else 1
        if dtype_is_bool(kind, dt):
            f = lambda: self.rng.random() < 0.5
        elif dtype_is_str(kind, dt):
            f = lambda: self.rand_str("bytes")
        elif dtype_is_int(kind, dt):
            f = lambda: self.rand_int(lo, hi)
        else:
            f = lambda: self.rand_real(lo, hi)
        vals = [f() for _ in range(k)]
        if self.model is not None and k and self._use_model():
            sort = (z3.Bool if dtype_is_bool(kind, dt) else z3.String if dtype_is_str(kind, dt) else
                    z3.Int if dtype_is_int(kind, dt) else z3.Real)
            v = self._mval(sort(n))
            if v is not None:
                if isinstance(v, str):
                    v = v.encode("latin-1", "replace")
                # with a model every array has the model's generic element everywhere
                vals = [v] * k
        if nan:
            pn = self.rng.choice([0.0, 0.2, 0.5])
            vals = [float("nan") if self.rng.random() < pn else x for x in vals]
        npdt = np.dtype(dtype) if kind == "np" else (object if dt.name == "string" else dt.as_numpy_dtype)
        if npdt is not object and np.dtype(npdt).kind in "iu":
            ii = np.iinfo(npdt)
            vals = [max(ii.min, min(ii.max, int(x))) for x in vals]
        a = np.empty(sh, dtype=npdt) if npdt is object else None
        if npdt is object:
            a.ravel()[:] = vals
            a = np.array(vals, dtype=object).reshape(sh) if not sh else a
        else:
            a = np.array(vals, dtype=npdt).reshape(sh)
        a = self._rec(n, a)
        if kind == "tf":
            import tensorflow as tf
            return tf.constant(a, dtype=dt)
        return a if sh or True else a

    def seq(self, name, elem, inv=None, havoc=None, minlen=0, maxlen=None, kind="list", symlen=None):
        n = self._nm("len_" + name)
        ln = None
        if symlen is not None:
            ln = int(symlen)
        elif self._use_model():
            v = self._mval(z3.Int(n))
            if v is not None and 0 <= v <= 200:
                ln = v
        if ln is None:
            ln = self.rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 12])
        ln = max(minlen, ln)
        if maxlen is not None:
            ln = min(ln, maxlen)
        ln = self._rec(n, ln)
        out = [elem(_ConcElem(self, name, i)) for i in range(ln)]
        return out if kind == "list" else tuple(out)

    def assume(self, c):
        if not c:
            raise Skip()

    def ite(self, c, a, b):
        return a if c else b

    where = ite

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def eq(self, a, b, tol=TOL):
        return conc_eq(a, b, tol)

    def same(self, a, b):
        return conc_eq(a, b, 0.0)

    def le(self, a, b, tol=TOL):
        a, b = unarr(a), unarr(b)
        if isinstance(a, float) or isinstance(b, float):
            if a != a or b != b:
                return False
            return a <= b or a - b <= tol * max(1.0, abs(a), abs(b))
        return a <= b

    def log(self, x):
        return math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))

    def sqrt(self, x):
        return math.sqrt(x)

    def isnan(self, x):
        x = unarr(x)
        return isinstance(x, float) and math.isnan(x)

    def isfinite(self, x):
        x = unarr(x)
        return math.isfinite(x)

    def call(self, f, *args, **kwargs):
        if self.cross is not None:
            return self._cross_call(f, args, kwargs)
        r = f(*args, **kwargs)
        if hasattr(r, "__next__"):
            r = list(r)
        return r

    def _cross_call(self, f, args, kwargs):
        """Runs f natively and through the generator's interpreter; both must
        agree (the engine's own consistency check)."""
        import copy
        ip, stat = self.cross
        self.cross, saved = None, self.cross
        try:
            try:
                a2, k2 = copy.deepcopy((args, kwargs))
                f2 = copy.deepcopy(f) if hasattr(f, "__self__") and not isinstance(f.__self__, type) else f
            except Exception:
                return self.call(f, *args, **kwargs)
            st = random.getstate()
            try:
                r, exc = self.call(f, *args, **kwargs), None
            except Exception as e:
                r, exc = None, e
            random.setstate(st)
            ex = Explorer(max_paths=1, max_s=20)
            core.STACK.append(Path(ex, []))
            try:
                ip.depth = 0
                ip.env = self
                try:
                    r2, exc2 = ip.call(f2, *a2, **k2), None
                    if hasattr(r2, "__next__"):
                        r2 = list(r2)
                except (Unsupported, Budget, Infeasible, PathEnd) as e:
                    r2 = exc2 = None
                    stat["skipped"] += 1
                else:
                    stat["compared"] += 1
                    if exc is not None or not loose_eq(r, r2):
                        stat["mismatch"].append(f"{getattr(f, '__qualname__', f)}: native {exc or r!r} interpreted {r2!r}"[:600])
            except Exception as e:
                if exc is None:
                    stat["mismatch"].append(f"{getattr(f, '__qualname__', f)}: native {r!r} interpreted raises {type(e).__name__} {e}"[:600])
                else:
                    stat["compared"] += 1
            finally:
                core.STACK.pop()
        finally:
            self.cross = saved
        if exc is not None:
            raise exc
        return r

    def stub(self, owner, name, fn):
        """Replaces owner.name by the contract fn for the duration of the run."""
        old = owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)
        setattr(owner, name, fn)
        self.cleanups.append(lambda: setattr(owner, name, old))

    def gen(self, name, f):
        """A drawn value of any kind (run-time checks only)."""
        return self._rec(self._nm(name), f(self.rng))

    def attempt(self, f, *args, **kwargs):
        try:
            return self.call(f, *args, **kwargs)
        except Exception as e:
            return Raised(e)

    def new(self, cls, *a, **k):
        return cls(*a, **k)

    def loop(self, fn, inv, havoc, yields=None):
        pass

    def list(self, v):
        return list(v)

    def check(self, label, cond, detail="", kind="post"):
        self.checks += 1
        import numpy as np
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise ContractFailure(label, detail() if callable(detail) else detail)

    def map(self, f, *arrs):
        import numpy as np
        tfk = any(hasattr(a, "numpy") for a in arrs)
        arrs = [a.numpy() if hasattr(a, "numpy") else np.asarray(a) for a in arrs]
        bc = np.broadcast_arrays(*arrs)
        vals = [f(*t) for t in zip(*[b.ravel().tolist() for b in bc])]
        dt = arrs[0].dtype if not any(isinstance(v, float) for v in vals) or arrs[0].dtype.kind == "f" else np.float64
        r = np.array(vals, dtype=dt).reshape(bc[0].shape)
        if tfk:
            import tensorflow as tf
            return tf.constant(r)
        return r

    def total(self, arr):
        import numpy as np
        a = arr.numpy() if hasattr(arr, "numpy") else np.asarray(arr)
        return float(np.sum(a, dtype=np.float64)) if a.dtype.kind in "fb" else int(np.sum(a))

    def coltotal(self, arr):
        import numpy as np
        a = arr.numpy() if hasattr(arr, "numpy") else np.asarray(arr)
        return np.sum(a, axis=0, dtype=np.float64)

    def elementwise(self, label, spec, *arrs):
        import numpy as np
        conv = []
        for a in arrs:
            if hasattr(a, "numpy"):
                a = a.numpy()
            conv.append(np.asarray(a, dtype=object if getattr(a, "dtype", None) is not None and np.asarray(a).dtype.kind in "OS" else None))
        try:
            bc = np.broadcast_arrays(*conv)
        except ValueError:
            raise ContractFailure(label, "shape mismatch: " + str([c.shape for c in conv]))
        if bc[0].shape != conv[0].shape:
            raise ContractFailure(label, "result shape %s, expected %s" % (conv[0].shape, bc[0].shape))
        self.checks += 1
        for t in zip(*[b.ravel().tolist() for b in bc]):
            if not spec(*t):
                raise ContractFailure(label, f"element values {t}")

    def table(self, name, minlen=0, dtype="float32", order="le", rank=2, lo=None, hi=None, n=None):
        import numpy as np
        import tensorflow as tf
        d = tf.as_dtype(dtype)
        nm = self._nm(name)
        if n is None:
            n = self.int("len_" + name, minlen, None)
        n = min(max(n, minlen), 8) if n > 12 else n
        draw = (lambda: self.rand_int(lo, hi)) if d.is_integer else (lambda: self.rand_real(lo, hi))
        vals = [draw() for _ in range(n)]
        if self.model is not None and self._use_model():
            f = z3.Function("tab_" + nm, z3.IntSort(), z3.IntSort() if d.is_integer else z3.RealSort())
            mv = [self._mval(f(i)) for i in range(n)]
            vals = [v if m is None else m for v, m in zip(vals, mv)]
        if d.is_integer:
            ii = np.iinfo(d.as_numpy_dtype)
            vals = [max(ii.min, min(ii.max, int(v))) for v in vals]
        vals = np.asarray(vals, d.as_numpy_dtype)
        vals = vals[np.isfinite(vals)] if not d.is_integer else vals
        if order:
            vals = np.sort(vals)
        if order == "lt":
            vals = np.unique(vals)
        if len(vals) < minlen:
            raise Skip()
        self._rec(nm, vals.tolist())
        return tf.constant(vals if rank == 1 else vals[None], dtype=d)

    def table_len(self, t):
        return int(t.shape[-1])

    def item(self, seq, i):
        return seq[i]

    def items(self, d):
        return list(d.items())

    def at(self, t, i):
        import numpy as np
        return t.numpy().reshape(-1)[i].item()

    def keys(self, name, space="batch"):
        import numpy as np
        import tensorflow as tf
        sh = self._shape(space)
        pool = [b"", b"a", b"b", b"a b", b"zz", "\u00e9".encode(), b"-1", b"0"]
        pool = self.rng.sample(pool, self.rng.randint(1, 4))
        v = np.empty(sh, dtype=object)
        v.ravel()[:] = [self.rng.choice(pool) for _ in range(int(np.prod(sh)))]
        self._rec(self._nm(name), v.tolist())
        return tf.constant(v, tf.string) if v.size else tf.zeros(sh, tf.string)

    def for_keys(self, key, vocab, x, f):
        import numpy as np
        key, vocab = key.numpy(), vocab.numpy().tolist()
        x = np.asarray(x)
        present = set(key.ravel().tolist())
        if sorted(vocab) != sorted(present):
            raise ContractFailure("every key once", f"{vocab} for {present}")
        for i, k in enumerate(vocab):
            own = (key == k).reshape(key.shape + (1,) * (x.ndim - key.ndim))
            f(np.broadcast_to(own, x.shape), lambda r: np.asarray(r)[i])

    def seg_max(self, own, x):
        import numpy as np
        return np.max(np.asarray(x)[np.asarray(own)]).item()

    def for_index(self, t, name, f):
        return all(f(i, v) for i, v in enumerate(t.numpy().reshape(-1).tolist()))

    def fail(self, label, detail=""):
        self.check(label, False, detail)

    def cover(self, label):
        pass

    def note(self, *a):
        self.drawn.append(("note", a))


class _ConcElem:
    symbolic = False

    def __init__(self, env, name, i):
        self.env, self.name, self.i = env, name, i

    def _m(self, field, sort):
        if self.env._use_model():
            return self.env._mval(z3.Function(f"{self.name}.{field}", z3.IntSort(), sort)(z3.IntVal(self.i)))
        return None

    def int(self, field, lo=None, hi=None):
        v = self._m(field, z3.IntSort())
        if v is None:
            v = self.env.rand_int(lo, hi)
        return self.env._rec(f"{self.name}[{self.i}].{field}", self.env.clip(v, lo, hi))

    def real(self, field, lo=None, hi=None):
        v = self._m(field, z3.RealSort())
        if v is None:
            v = self.env.rand_real(lo, hi)
        return self.env._rec(f"{self.name}[{self.i}].{field}", self.env.clip(float(v), lo, hi))

    def bool(self, field):
        v = self._m(field, z3.BoolSort())
        return self.env._rec(f"{self.name}[{self.i}].{field}", self.env.rng.random() < .5 if v is None else v)

    def str(self, field, kind="str", **k):
        v = self._m(field, z3.StringSort())
        if v is None:
            v = self.env.rand_str("str", **k)
        return self.env._rec(f"{self.name}[{self.i}].{field}", v if kind == "str" else v.encode("utf-8", "replace"))

    def bytes(self, field, **k):
        return self.str(field, "bytes", **k)

    def arr(self, field, **k):
        return self.env.arr(f"{self.name}[{self.i}].{field}", **k)

    def __getattr__(self, n):
        return getattr(self.env, n)


def zstr(v):
    s = v.as_string()
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1:i + 3] == "u{":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s[i] == "\\" and s[i + 1:i + 2] == "x":
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


# ---------------------------------------------------------- constants mining
def mine(targets):
    ints, nums, strs = set(), set(), set()
    for t in targets:
        try:
            f = getattr(t, "__func__", t)
            f = f.fget if isinstance(f, property) else f
            if isinstance(f, type):
                import inspect
                fn = inspect.getsourcefile(f)
                tree, _, _ = interp_mod.file_index(fn)
                node = [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef) and n.name == f.__name__][0]
            elif hasattr(f, "__wrapped__"):
                node = interp_mod.find_ast(f.__wrapped__)
            else:
                node = interp_mod.find_ast(f)
        except Exception:
            continue
        doc = {id(n.body[0].value) for n in ast.walk(node)
               if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(node):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 2**62:
                    ints.add(v)
                    nums.add(v)
                elif isinstance(v, float) and abs(v) < 1e12:
                    nums.add(v)
                elif isinstance(v, str) and len(v) < 30:
                    strs.add(v)
                elif isinstance(v, bytes) and len(v) < 30:
                    strs.add(v.decode("latin-1"))
    return {"int": sorted(ints), "num": sorted(nums), "str": sorted(strs)}


# -------------------------------------------------------------------- runner
def run_sym(u, make_interp):
    """Generates and discharges the obligations of one unit."""
    res = {"unit": u.name, "obligations": [], "paths": 0, "unsupported": None, "functions": {}, "externals": [],
           "refuted": []}
    ip = make_interp()
    t0 = time.time()
    ex = Explorer(max_paths=u.max_paths, max_s=u.max_s)
    ended = [0]
    envs = []

    def body():
        env = SymEnv(u, ip)
        ip.env = env
        ip.depth = 0
        ip.contracts = {}
        ex.space_of = env.space
        ex.env = env
        envs.append(env)
        env.cleanups = []
        try:
            u.body(env)
        finally:
            for c in reversed(env.cleanups):
                c()

    def end(p, outcome, value):
        env = envs[-1]
        if outcome == "raise":
            if isinstance(value, (Skip,)):
                return
            # an exception escaped the harness: obligation "no exception"
            st = solve.satisfiable(p.pc)
            if st == "unsat":
                return
            model = None
            if st == "sat":
                s = z3.Solver()
                s.set("timeout", 5000)
                s.add(*p.pc)
                if s.check() == z3.sat:
                    model = s.model()
            tb = "".join(traceback.format_exception(type(value), value, value.__traceback__)[-3:])
            internal = "/pyvc/" in tb.split("File")[-1] and not isinstance(value, (ValueError, KeyError, IndexError, ZeroDivisionError, AssertionError))
            gone = interface_change(value)
            if gone:
                raise Unsupported(f"interface changed: {gone}")
            gap = core.model_gap(value)
            if gap:
                raise Unsupported(f"outside the model: {gap}")
            if internal or isinstance(value, (AttributeError, NotImplementedError, z3.Z3Exception)):
                raise Unsupported(f"generator error: {type(value).__name__}: {value} @ {tb[-300:]}")
            env.records.append((f"no exception escapes ({type(value).__name__}: {str(value)[:80]})", "exception",
                                "refuted", "path", 0.0, model, p.abstract, dict(env.choices)))
        elif outcome == "return":
            ended[0] += 1
            if ended[0] <= 3:
                env.records.append(("path reaches the end of the contract", "cover",
                                    solve.satisfiable(p.pc, 3.0), "z3", 0, None, p.abstract, {}))

    try:
        ex.run(body, end)
    except (Unsupported, Budget) as e:
        res["unsupported"] = f"{type(e).__name__}: {e}"
    except RecursionError as e:
        res["unsupported"] = "RecursionError"
    except Exception as e:
        res["unsupported"] = "generator error: " + "".join(traceback.format_exception_only(type(e), e)).strip() + \
            " @ " + "".join(traceback.format_tb(e.__traceback__)[-2:])
    res["paths"] = ex.paths
    for env in envs:
        for (label, kind, st, backend, dt, model, abstract, choices) in env.records:
            res["obligations"].append((label, kind, st, backend, round(dt, 3)))
            if st in ("refuted", "unknown") and kind != "cover":
                res["refuted"].append({"label": label, "status": st, "backend": backend, "model": model,
                                       "abstract": abstract, "choices": choices})
    res["functions"] = dict(ip.used)
    res["externals"] = sorted(ip.ext_used)
    res["wall_s"] = time.time() - t0
    res["solver"] = {k: list(v) for k, v in solve.STATS.items()}
    posts = [o for o in res["obligations"] if o[1] != "cover"]
    covers = [o for o in res["obligations"] if o[1] == "cover"]
    if res["unsupported"] is None:
        if not posts:
            res["unsupported"] = "vacuous: no obligations generated"
        elif not any(o[2] in ("sat",) for o in covers) and not any(o[1] == "invariant" for o in posts):
            res["unsupported"] = "vacuous: no path reaches the end of the contract"
    return res


CALLS = re.compile(r"missing (\d+|a) required .*argument|missing required argument|unexpected keyword argument|takes (from )?\d+.*positional argument|"
                   r"(module|type object|object) .*has no attribute|has no attribute '_")


def interface_change(e):
    """The contract itself names or calls something of the repository that is
    not there (any more) in that form: nothing can be concluded."""
    if not isinstance(e, (AttributeError, TypeError, ImportError)) or not CALLS.search(str(e)):
        return None
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    last = traceback.extract_tb(e.__traceback__)[-1]
    if os.path.abspath(last.filename).startswith((os.path.join(here, "contracts"), os.path.join(here, "pyvc"))):
        return f"{type(e).__name__}: {e} ({os.path.basename(last.filename)}:{last.lineno})"
    return None


class Missing:
    """A function a contract is about that is not in the repository (any more)."""

    def __init__(self, why):
        self.why = why


def target(f):
    try:
        return f()
    except AttributeError as e:
        return Missing(str(e))


def one_conc(u, seed, consts, **kw):
    """One run-time check; returns (status, failure, env)."""
    import numpy as np
    rng = random.Random(seed)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    env = ConcEnv(u, rng, consts, **kw)
    try:
        try:
            u.body(env)
        finally:
            for c in reversed(env.cleanups):
                c()
        return "ok", None, env
    except Skip:
        return "skip", None, env
    except ContractFailure as e:
        return "fail", (e.label, str(e.detail)[:2000]), env
    except Exception as e:
        gone = interface_change(e)
        if gone:
            return "interface", gone, env
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        return "fail", (f"no exception escapes ({type(e).__name__})", f"{e} {tb}"[:2000]), env


def run_conc(u, seed, n, budget_s):
    consts = mine(u.targets)
    t0 = time.time()
    runs = ok = checks = 0
    distinct = set()
    sample = None
    h = int(hashlib.sha1(u.name.encode()).hexdigest()[:8], 16)
    for i in range(n):
        if time.time() - t0 > budget_s and i > 0:
            break
        s = (seed * 1000003 + h) * 100003 + i
        st, fail, env = one_conc(u, s, consts)
        runs += 1
        if st == "ok":
            ok += 1
            checks += env.checks
            distinct.add(repr(env.drawn)[:4000])
            if sample is None and env.drawn:
                sample = repr(env.drawn)[:300]
        elif st == "interface":
            return {"runs": runs, "ok": ok, "checks": checks, "distinct": len(distinct), "sample": sample, "fail": None, "interface": fail}
        elif st == "fail":
            # confirm determinism of the failure before reporting it
            st2, fail2, env2 = one_conc(u, s, consts)
            if st2 == "fail":
                return {"runs": runs, "ok": ok, "checks": checks, "distinct": len(distinct), "sample": sample,
                        "fail": {"label": fail[0], "detail": fail[1], "seed": s, "_drawn": list(env.drawn),
                                 "inputs": [(a, repr(b)[:400]) for a, b in env.drawn]}}
    return {"runs": runs, "ok": ok, "checks": checks, "distinct": len(distinct), "sample": sample, "fail": None}


def replay_models(u, refuted, seed, budget_s=20.0):
    """Replays counter-models on the real code; then searches near them."""
    consts = mine(u.targets)
    t0 = time.time()
    for phase in (1.0, 0.6):
        for r in refuted[:12]:
            tries = 3 if phase == 1.0 else 60
            for i in range(tries):
                if time.time() - t0 > budget_s:
                    return None
                if r["model"] is None and phase == 1.0:
                    continue
                st, fail, env = one_conc(u, seed * 7919 + i, consts, model=r["model"], choices=r["choices"],
                                         p_model=phase)
                if st == "fail":
                    return {"label": fail[0], "detail": fail[1], "obligation": r["label"], "_drawn": list(env.drawn),
                            "inputs": [(a, repr(b)[:400]) for a, b in env.drawn],
                            "model": str(r["model"])[:2000] if r["model"] is not None else None,
                            "seed": seed * 7919 + i, "choices": r["choices"], "p_model": phase}
    return None
