"""Assumed contracts of the Beam transforms the repository composes.

A PCollection is represented by one generic element (or none): Filter, Map,
MapTuple, FlatMap, Values, Keys, KvSwap and Flatten are homomorphisms of
multisets, so what they do to every element on its own decides what they do to
the collection.  Top.Of(k) and Top.LargestPerKey(k) select (`selected`) some of
the elements of the whole collection into one list; that they select the k
largest is Beam's own contract and is assumed.  Distinct keeps one copy."""
import z3

from . import core
from .core import Unsupported, Sym


class TopList(Sym):
    """The list emitted by Top: contains the generic element or not."""
    _pyvc_symbolic = True

    def __init__(self, items, nonempty):
        self.items, self.nonempty = items, nonempty

    def __bool__(self):
        return core.branch(self.nonempty)

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self


class Coll(Sym):
    _pyvc_symbolic = _pyvc_pcoll = True

    def __init__(self, items, log=()):
        self.items, self.log = list(items), tuple(log)

    def __or__(self, t):
        if not isinstance(t, PT):
            raise Unsupported(f"PCollection | {type(t).__name__}")
        return t.fn(self)

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    @property
    def pipeline(self):
        raise Unsupported("pipeline of a symbolic PCollection")


class PT:
    """A transform; `label >> t`, `coll | t` and `(colls) | t`."""
    _pyvc_symbolic = _pyvc_pcoll = True

    def __init__(self, fn):
        self.fn = fn

    def __rrshift__(self, label):
        return self

    def __ror__(self, left):
        return self.fn(left)

    def with_input_types(self, *a, **k):
        return self
    with_output_types = with_input_types


def coll_binop(op, a, b):
    if isinstance(b, PT):
        if op == "|":
            return b.fn(a)
        if op == ">>":
            return b
    raise Unsupported(f"PCollection {op} {type(b).__name__}")


def items_of(ip, v):
    if isinstance(v, TopList):
        return list(v.items)
    return list(ip.iterate(v))


def install(ip):
    import apache_beam as beam
    c = ip.call

    def reg(obj):
        def deco(f):
            f.always = True
            ip.models[id(obj)] = (obj, f)
            return f
        return deco

    def elementwise(f):
        return PT(lambda coll: Coll([y for x in coll.items for y in f(x)], coll.log))

    reg(beam.pvalue.TaggedOutput)(lambda tag, value: beam.pvalue.TaggedOutput(tag, value))

    @reg(beam.Filter)
    def _filter(fn, *a, **k):
        return elementwise(lambda x: [x] if core.truth(c(fn, x, *a, **k)) else [])

    @reg(beam.Map)
    def _map(fn, *a, **k):
        return elementwise(lambda x: [c(fn, x, *a, **k)])

    @reg(beam.MapTuple)
    def _maptuple(fn, *a, **k):
        return elementwise(lambda x: [c(fn, *x, *a, **k)])

    @reg(beam.FlatMap)
    def _flatmap(fn, *a, **k):
        return elementwise(lambda x: items_of(ip, c(fn, x, *a, **k)))

    @reg(beam.FlatMapTuple)
    def _flatmaptuple(fn, *a, **k):
        return elementwise(lambda x: items_of(ip, c(fn, *x, *a, **k)))

    @reg(beam.Values)
    def _values():
        return elementwise(lambda x: [x[1]])

    @reg(beam.Keys)
    def _keys():
        return elementwise(lambda x: [x[0]])

    @reg(beam.KvSwap)
    def _swap():
        return elementwise(lambda x: [(x[1], x[0])])

    @reg(beam.Flatten)
    def _flatten():
        return PT(lambda colls: Coll([x for d in colls for x in d.items], sum((d.log for d in colls), ())))

    @reg(beam.Distinct)
    def _distinct():
        return PT(lambda coll: Coll(coll.items, coll.log + (("Distinct",),)))

    def select(items, k, what):
        n = core.fresh_name(what)
        nonempty = z3.Bool(f"{n}_nonempty")
        out = []
        for i, x in enumerate(items):
            if core.branch(z3.Bool(f"{n}_selects_{i}")):
                core.assume(nonempty)
                out.append(x)
        if items and not out:
            # k >= 1 (checked by the caller's contract): something was selected
            core.assume(nonempty)
        return out, nonempty

    @reg(beam.combiners.Top.Of)
    def _top(n, key=None, reverse=False):
        def fn(coll):
            out, ne = select(coll.items, n, "top")
            return Coll([TopList(out, ne)], coll.log + (("Top", n, key, reverse, tuple(coll.items)),))
        return PT(fn)

    @reg(beam.combiners.Top.LargestPerKey)
    def _topk(n):
        def fn(coll):
            res = []
            for kv in coll.items:
                out, ne = select([kv[1]], n, "topkey")
                res.append((kv[0], TopList(out, ne)))
            return Coll(res, coll.log + (("TopPerKey", n, tuple(coll.items)),))
        return PT(fn)


def ptransform_fn(ip, factory):
    """The function decorated with beam.ptransform_fn, as a model of calling it."""
    inner = dict(zip(factory.__code__.co_freevars, [x.cell_contents for x in factory.__closure__ or ()])).get("fn")
    if inner is None:
        raise Unsupported("ptransform_fn without a function")

    def model(*a, **k):
        return PT(lambda coll: ip.call(inner, coll, *a, **k))
    model.always = True
    ip.models[id(factory)] = (factory, model)
