"""Dictionaries of unbounded size: what is known is the value under a few
arbitrary keys, whether there is any entry, and a bound of the values."""
import builtins

import z3

from . import core
from .core import Sym, SymInt, Unsupported, as_z3_bool, mk


class SymMap(Sym):
    _pyvc_symbolic = True

    def __init__(self, keys, present, vals, some, top):
        self.keys_, self.present, self.vals, self.some, self.top = list(keys), list(present), list(vals), some, top

    def __hash__(self): return 0
    def __deepcopy__(self, memo): return self.copy()
    def __bool__(self): return core.branch(self.some)
    def copy(self): return SymMap(self.keys_, self.present, self.vals, self.some, self.top)

    def __setitem__(self, k, v):
        x, y = core.to_arith(k), core.to_arith(v)
        for i, key in enumerate(self.keys_):
            c = x == key
            self.present[i] = z3.simplify(z3.Or(self.present[i], c))
            self.vals[i] = z3.simplify(z3.If(c, y, self.vals[i]))
        self.some = z3.BoolVal(True)
        self.top = None

    def bound(self):
        """An upper bound that some value attains."""
        if self.top is None:
            t = z3.Int(core.fresh_name("top"))
            for p, v in zip(self.present, self.vals):
                core.assume(z3.Implies(p, v <= t))
            self.top = t
        return self.top


class MapValues(Sym):
    def __init__(self, m):
        self.m = m

    def __hash__(self): return 0
    def __bool__(self): return core.branch(self.m.some)


def havoc(m):
    n = core.fresh_name
    return SymMap(m.keys_, [z3.Bool(n("present")) for _ in m.keys_], [z3.Int(n("val")) for _ in m.keys_], z3.Bool(n("some")), None)


class Forgotten(list):
    """A list of which nothing is known after a loop that appended to it."""
    _pyvc_symbolic = True


def arbitrary(keys, name="map"):
    """Any dictionary from the keys to integers."""
    m = SymMap(keys, [z3.Bool(f"{name}_has{i}") for i in range(len(keys))], [z3.Int(f"{name}_at{i}") for i in range(len(keys))],
               z3.Bool(f"{name}_some"), z3.Int(f"{name}_top"))
    for p, v in zip(m.present, m.vals):
        core.assume(z3.Implies(p, z3.And(m.some, v <= m.top)))
    return m


def install(ip):
    prev = ip.sym_attr

    def attr(o, name):
        from .models import BoundModel
        if isinstance(o, SymMap):
            if name == "values":
                return BoundModel(lambda: MapValues(o))
            if name == "copy":
                return BoundModel(o.copy)
            raise Unsupported(f"dict.{name} of a dictionary of unbounded size")
        return prev(o, name)
    ip.sym_attr = attr

    for f in (builtins.max,):
        old = ip.models[id(f)][1]

        def model(*a, _old=old, **k):
            if a and isinstance(a[0], MapValues):
                m = a[0].m
                if not core.branch(m.some):
                    if "default" in k:
                        return k["default"]
                    raise ValueError("max() iterable argument is empty")
                return SymInt(m.bound())
            return _old(*a, **k)
        ip.model(f)(model)
