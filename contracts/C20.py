"""C20: reported input dependencies are exactly the inputs that can affect a result."""
import collections
import itertools
import tempfile
import types as types_

import numpy as np
import tensorflow as tf

import tensorflow_transform as tft
from tensorflow_transform import analyzer_nodes, graph_tools as gt, impl_helper, inspect_preprocessing_fn as inspect_, nodes, tf_utils
from pyvc.harness import unit, Raised

P = "C20"


# ------------------------------------------------------------------- traversal
class Node:
    """A node of a graph, with its parents."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


class Done(Exception):
    pass


class Step:
    """The state of the traversal at the start of an arbitrary step: `current`
    is on top of the stack, some nodes are analyzed, some are being analyzed.
    Its contract: an analyzed node has its own result, a node being analyzed
    depends on ... `current`, and a node leaves the stack only once analyzed."""
    _pyvc_symbolic = True

    def __init__(self, E, root):
        self.E, self.root, self.rounds = E, root, 0
        self.current, self.known, self.written, self.pushed, self.popped, self.opened = None, {}, [], [], 0, {}
        self.parents = [Node(f"parent {k}") for k in range(E.choice("parents", [0, 1, 2, 3]))]
        self.started = []

    def analyzed(self, n):
        if n not in self.known:
            self.known[n] = self.E.choice(f"{n} analyzed", [True, False])
        return self.known[n]


class Stack:
    """collections.deque"""
    _pyvc_symbolic = True

    def __init__(self, s, items=()):
        self.s, self.items = s, list(items)

    def append(self, n):
        if self.s.rounds == 0:
            self.s.started.append(n)
        else:
            self.s.pushed.append(n)

    def extend(self, ns):
        for n in ns:
            self.append(n)

    def __bool__(self):
        s, E = self.s, self.s.E
        if s.rounds == 0:
            E.check("the traversal starts at the node asked for", s.started == [s.root], str(s.started))
            s.rounds = 1
            if E.choice("a step", [True, False]):
                s.current = Node("current") if E.choice("inside", [True, False]) else s.root
                return True
            s.known[s.root] = True        # the stack is empty: the root was removed, once analyzed
            return False
        E.check("a node leaves the stack only once analyzed", s.popped == 0 or s.popped == 1 and (s.analyzed(s.current)), str(s.popped))
        E.check("only the node asked about gets a result", s.written in ([], [s.current]), str(s.written))
        E.check("the node leaves the stack with its result", not s.written or s.popped == 1)
        if not s.popped:
            E.check("all parents are visited otherwise", s.pushed == s.parents, str(s.pushed))
            E.check("some of them is not analyzed", any(not s.analyzed(p) for p in s.parents))
            E.check("the node stays open", s.opened.get(s.current) is True)
        else:
            E.check("nothing is visited after the last", not s.pushed)
            E.check("no node stays open without being on the stack", not s.opened.get(s.current, False))
        E.check("no other node is opened or closed", set(s.opened) <= {s.current})
        raise Done()

    def __getitem__(self, k):
        assert k == -1
        return self.s.current

    def pop(self):
        self.s.popped += 1
        return self.s.current


class Memo:
    """The results so far."""
    _pyvc_symbolic = True

    def __init__(self, s): self.s = s
    def __contains__(self, n): return self.s.analyzed(n)

    def __getitem__(self, n):
        self.s.E.check("results are only read if there are any", self.s.analyzed(n), str(n))
        return ("result", n)

    def get(self, n, default=None): return ("result", n) if self.s.analyzed(n) else default

    def __setitem__(self, n, v):
        self.s.E.check("the result of a node is its own", v == ("result", n), (n, v))
        self.s.written.append(n)
        self.s.known[n] = True

    def __delitem__(self, n):
        self.s.E.check("no result is dropped", False, str(n))


class Open:
    """The nodes being analyzed; in a graph without loops none of them is a
    parent of the node on top of the stack."""
    _pyvc_symbolic = True

    def __init__(self, s): self.s = s
    def add(self, n): self.s.opened[n] = True
    def discard(self, n): self.s.opened[n] = False
    def remove(self, n): self.s.opened[n] = False
    def __contains__(self, n): return self.s.opened.get(n, False)
    def intersection(self, ns): return {n for n in ns if n in self}
    def __and__(self, ns): return self.intersection(ns)


@unit(P, "each step of the traversal keeps results complete", [gt._GraphAnalyzer.analyze_tensor], conc=0, bounded="three parents each, graphs without loops")
def step(E):
    root = Node("root")
    s = Step(E, root)
    a = gt._GraphAnalyzer.__new__(gt._GraphAnalyzer)
    a._memoized_analyze_tensor_result = Memo(s)

    def parents(_, n):
        E.check("parents of the node on top", n is s.current, str(n))
        return list(s.parents)

    def compute(_, n, results):
        E.check("computed for the node on top", n is s.current)
        E.check("from the results of all its parents, in order", list(results) == [("result", p) for p in s.parents], str(results))
        return ("result", n)
    same = lambda x: x
    deque = lambda *a: Stack(s, *a)
    opened = lambda *a: Open(s)
    for f in (parents, compute, same, deque, opened):
        f._pyvc_native = True
    E.stub(gt.tf_utils, "hashable_tensor_or_op", same)
    E.stub(gt.tf_utils, "deref_tensor_or_op", same)
    E.stub(gt.collections, "deque", deque)
    E.stub(gt, "set", opened)
    E.stub(gt._GraphAnalyzer, "_get_parents", parents)
    E.stub(gt._GraphAnalyzer, "_compute_analysis_result", compute)
    out = E.attempt(lambda: E.call(gt._GraphAnalyzer.analyze_tensor, a, root))
    if isinstance(out, Raised):
        E.check("steps do not fail", isinstance(out.exc, Done), out)
        return
    E.check("the result of the node asked for is returned", out == ("result", root), out)


def reach(parents, n):
    """The nodes `n` depends on, itself included."""
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += parents[m]
    return seen


@unit(P, "the result of a node covers everything it depends on", [gt._GraphAnalyzer.analyze_tensor, gt._GraphAnalyzer._compute_analysis_result], sym=False, conc=3000, conc_s=6, bounded="graphs of up to 9 nodes, with and without loops")
def graphs(E):
    def draw(r):
        n = r.randint(1, 9)
        loops = r.random() < 0.5
        parents = {i: [r.randrange(n if loops and r.random() < 0.35 else max(i, 1)) for _ in range(r.choice([0, 1, 1, 2, 3]))] if i or loops else [] for i in range(n)}
        sources = {i: r.random() < 0.6 for i in r.sample(range(n), r.randint(0, min(n, 3)))}
        return parents, sources, [r.randrange(n) for _ in range(r.randint(1, 6))]
    parents, sources, asked = E.gen("graph", draw)
    all_ = {i: Node(i) for i in parents}
    a = gt._GraphAnalyzer({all_[i]: gt._SourceInfo(ready, str(i)) for i, ready in sources.items()}, lambda x, parents=None: None, None)
    a._get_parents = lambda n: [] if n.name in sources else [all_[p] for p in parents[n.name]]
    a._compute_analysis_results_for_func_attributes = lambda n, r: []
    cut = {i: [] if i in sources else p for i, p in parents.items()}
    for i in asked:
        got = a.analyze_tensor(all_[i])
        below = reach(cut, i)
        E.check("depends on exactly the sources below it", {n.name for n in got.dependent_sources} == {s for s in sources if s in below}, (parents, sources, asked, i, got))
        E.check("ready exactly if all of them are", got.is_ready_to_run == all(sources[s] for s in sources if s in below), (parents, sources, asked, i, got))
    E.cover("some loop" if any(i in reach(cut, j) for i in cut for j in cut[i]) else "no loop")


@unit(P, "the result of a node is made of those of its parents and functions", [gt._GraphAnalyzer._compute_analysis_result], conc=200, max_paths=5000, bounded="two parents, two functions")
def compute(E):
    n = Node("n")
    is_source = E.choice("a source", [True, False])
    own_ready = E.bool("ready")
    seen = []
    alike = E.choice("all descriptions alike", [False, True])   # neither sorted nor distinct

    def translate(x, parents=None):
        seen.append((x, parents))
        return "path"
    kids = [gt._AnalysisResult(E.bool(f"parent {k} ready"), (b"parent", b"parent") if alike else (b"parent", b"zya"[k:k + 1]), {f"s{j}" for j in E.choice(f"parent {k} sources", [[], [0, 1], [2]])}) for k in range(E.choice("parents", [0, 1, 2]))]
    funcs = [gt._AnalysisResult(E.bool(f"function {k} ready"), (b"function", b"function") if alike else (b"function", b"zya"[k:k + 1]), {f"s{j}" for j in E.choice(f"function {k} sources", [[], [1], [3]])}) for k in range(E.choice("functions", [0, 1, 2]))]
    before = [set(k.dependent_sources) for k in kids + funcs]

    def functions(_, x, results): return list(funcs)
    for f in (translate, functions):
        f._pyvc_native = True
    a = gt._GraphAnalyzer.__new__(gt._GraphAnalyzer)
    a._source_info_dict, a._translate_path_fn = ({n: gt._SourceInfo(own_ready, "n$tensor")} if is_source else {}), translate
    E.stub(gt._GraphAnalyzer, "_compute_analysis_results_for_func_attributes", functions)
    got = E.call(gt._GraphAnalyzer._compute_analysis_result, a, n, list(kids))
    if is_source:
        E.check("a source is ready as recorded", E.eq(got.is_ready_to_run, own_ready))
        E.check("a source depends on itself", set(got.dependent_sources) == {n})
        E.check("and is described by its name", got.path == "path" and seen == [("n$tensor", None)], str(seen))
        return
    E.check("ready exactly if all are", E.eq(got.is_ready_to_run, E.And(*[k.is_ready_to_run for k in kids + funcs])))
    E.check("depends on what they depend on", set(got.dependent_sources) == set().union(*before), str(got.dependent_sources))
    E.check("described by itself and all their descriptions in order", got.path == "path" and len(seen) == 1 and seen[0][0] is n and list(seen[0][1]) == [k.path for k in kids + funcs], str(seen))
    E.check("the results used are not changed", [set(k.dependent_sources) for k in kids + funcs] == before)


# ------------------------------------------------------------------ fingerprints
def draw_expression(r, depth=3):
    """(operation, number, parts)"""
    if depth == 0 or r.random() < 0.3:
        return r.choice([("x",), ("y",), ("x",), ("y",), ("given",) if r.random() < 0.2 else ("y",), ("const", r.choice([1.0, 2.0])), ("const", r.choice([1.0, 2.0, 3.0])), ("s",), ("S",), ("text", r.randrange(3))])
    op = r.choice(["add", "sub", "mul", "max", "neg", "exp", "split", "control", "func", "reduce", "cond", "branches", "other branch", "output", "while"])
    n = {"add": 2, "sub": 2, "mul": 2, "max": 2, "control": 2, "cond": 2}.get(op, 1)
    return (op, r.randrange(CHOICES[op]) if op in CHOICES else 0, *[draw_expression(r, depth - 1) for _ in range(n)])


CHOICES = {"split": 4, "func": 2, "reduce": 2, "branches": 2, "other branch": 2, "output": 4, "while": 2}   # variants of an operation
LEAVES = ("x", "y", "s", "S", "given", "const", "text")


def mutate(r, e):
    """The same expression with one difference, or none."""
    if len(e) <= 2 or r.random() < 0.3:
        return draw_expression(r, 1) if r.random() < 0.5 else ({"x": ("y",), "y": ("x",), "s": ("S",), "S": ("s",), "given": ("x",), "const": ("const", 2.5), "text": ("text", (e[-1] + 1) % 3 if e[0] == "text" else 0)}[e[0]] if len(e) <= 2 else e)
    if len(e) == 4 and r.random() < 0.3:
        return (e[0], e[1], e[3], e[2])
    if r.random() < 0.4:
        swap = {"add": "sub", "sub": "mul", "mul": "max", "max": "add", "neg": "exp", "exp": "neg"}
        return (swap[e[0]], *e[1:]) if e[0] in swap else (e[0], (e[1] + r.randrange(1, CHOICES[e[0]])) % CHOICES[e[0]], *e[2:]) if e[0] in CHOICES else (e[0], e[1], e[3], e[2])
    k = r.randrange(2, len(e))
    return e[:k] + (mutate(r, e[k]),) + e[k + 1:]


def build(e, ins, names, memo):
    if e in memo:
        return memo[e]
    op, parts = e[0], [build(p, ins, names, memo) for p in e[2:]] if e[0] not in LEAVES else []
    name = next(names)
    if op in ins:
        out = ins[op]
    elif op == "const":
        out = tf.fill([4], tf.constant(e[1], name=name))
    elif op == "text":
        out = tf.cast(tf.strings.length(tf.constant([["a", "b", "c", "d"], ["a", "b", "e", "d"], ["a", "b", "c", "de"]][e[1]], name=name)), tf.float32)
    elif op == "split":
        out = tf.concat(4 * [tf.split(parts[0], 4, name=name)[e[1]]], 0)
    elif op == "other branch":
        out = tf.cond(tf.reduce_sum(parts[0]) > 0, lambda: parts[0] + 1.0, [lambda: parts[0] * 2.0, lambda: parts[0] * 3.0][e[1]])
    elif op == "output":       # variants: which of three results, and what the last one is
        out = tf.function(lambda v: (v + 1.0, v + 2.0, v * (3.0 if e[1] < 3 else 4.0)), autograph=False)(parts[0])[min(e[1], 2)]
    elif op == "while":
        out = tf.while_loop(lambda i, u: i < 3, lambda i, u: (i + 1, u + 1.0 if e[1] else u * 2.0), [tf.constant(0), parts[0] + 0.0])[1]
    elif op == "func":
        f = tf.function((lambda v: v * 2 + 1) if e[1] else (lambda v: v * 3 + 1), autograph=False)
        out = f(parts[0])
    elif op == "cond":
        out = tf.cond(tf.reduce_sum(parts[0]) > 0, lambda: parts[0] + 1.0, lambda: parts[1] * 2.0)
    elif op == "branches":
        b = [lambda: parts[0] + 1.0, lambda: parts[0] * 2.0]
        out = tf.cond(tf.reduce_sum(parts[0]) > 0, b[e[1]], b[1 - e[1]])
    elif op == "reduce":
        out = tf.reduce_sum(parts[0], keepdims=bool(e[1])) + tf.zeros([4])
    elif op == "control":
        with tf.control_dependencies([tf.identity(parts[1])]):
            out = tf.identity(parts[0], name=name)
    else:
        out = {"add": tf.add, "sub": tf.subtract, "mul": tf.multiply, "max": tf.maximum, "neg": tf.negative, "exp": tf.exp}[op](*parts, name=name)
    memo[e] = out
    return out


def fingerprint(e, prefix, noise):
    with tf.compat.v1.Graph().as_default() as g:
        ins = {}
        for k in (["x", "y"] if not noise else ["y", "x"]):
            ins[k] = tf.compat.v1.placeholder(tf.float32, [4], name=prefix + k)
        sparse = {k: tf.compat.v1.sparse_placeholder(tf.float32, [4], name=prefix + k + "parse") for k in (["s", "S"] if not noise else ["S", "s"])}
        if noise:
            tf.exp(ins["x"])
        given = tf.compat.v1.placeholder(tf.float32, [4], name=prefix + "given")   # what some earlier analyzer computes
        names = (f"{prefix}{k}" for k in itertools.count())
        dense = {k: tf.ensure_shape(tf.sparse.to_dense(v), [4]) for k, v in sparse.items()}
        out = build(e, dict(ins, **dense, given=given), names, {})
        a = gt.InitializableGraphAnalyzer(g, dict(ins, **sparse), [(given, True)], gt.describe_path_as_analyzer_cache_hash)
        return a.get_unique_path(out)


@unit(P, "computations have the same fingerprint exactly if they are the same", [gt.describe_path_as_analyzer_cache_hash, gt._serialize_op_attr, gt.InitializableGraphAnalyzer.get_unique_path], sym=False, conc=400, conc_s=8, bounded="expressions of depth 3 of 21 kinds")
def fingerprints(E):
    def draw(r):
        e = draw_expression(r)
        if r.random() < 0.4:          # two variants of an operation
            op, below = r.choice(list(CHOICES) + ["text"]), draw_expression(r, 1)
            e, f = [("text", k) if op == "text" else (op, k, below) for k in r.sample(range(CHOICES.get(op, 3)), 2)]
            return ("exp", 0, e), ("exp", 0, f), False
        return e, e if r.random() < 0.3 else mutate(r, e), r.random() < 0.5
    e, f, noise = E.gen("expressions", draw)
    a, b = fingerprint(e, "p", False), fingerprint(f, "q", noise)
    unknown = ["given" in str(e), "given" in str(f)]
    E.check("described exactly if it uses no analyzer's result", [a is None, b is None] == unknown and all(isinstance(p, bytes) for p in (a, b) if p is not None), (e, f, a, b))
    if not any(unknown):
        E.check("the same exactly if they are the same computation", (a == b) == (e == f), (e, f))


@unit(P, "what depends on an earlier analyzer has no fingerprint", [gt.describe_path_as_analyzer_cache_hash], conc=100)
def unknown(E):
    parents = [None if E.choice(f"parent {k} known", [True, False]) is False else b"%d" % k for k in range(E.choice("parents", [0, 1, 2, 3]))]
    what = E.choice("what", ["source", "analyzer", "tensor"])
    if what == "analyzer":
        E.check("no fingerprint for an analyzer", E.call(gt.describe_path_as_analyzer_cache_hash, None) is None)
        return
    x = "x$tensor" if what == "source" else Tensor(E.choice("index", [0, 1, 2]))
    got = E.call(gt.describe_path_as_analyzer_cache_hash, x, parents)
    E.check("no fingerprint exactly if a part has none", (got is None) == any(p is None for p in parents), got)


@unit(P, "a fingerprint depends on all of the parts", [gt.describe_path_as_analyzer_cache_hash], sym=False, conc=300, bounded="up to 4 parts of 20 bytes")
def every_part(E):
    """Fingerprints of equal length that differ anywhere, in another order or
    of another output are different."""
    parents, k, at, index, other = E.gen("parts", lambda r: ([bytes(r.randrange(256) for _ in range(20)) for _ in range(r.randint(1, 4))], r.random(), r.randrange(20), r.randrange(12), r.randrange(12)))
    k = int(k * len(parents))
    fp = lambda i, ps: gt.describe_path_as_analyzer_cache_hash(Tensor(i), list(ps))
    changed = list(parents)
    changed[k] = changed[k][:at] + bytes([changed[k][at] ^ 1]) + changed[k][at + 1:]
    E.check("the same parts, the same fingerprint", fp(index, parents) == fp(index, parents))
    E.check("another part, another fingerprint", fp(index, changed) != fp(index, parents), (k, at))
    E.check("another output, another fingerprint", (fp(index, parents) == fp(other, parents)) == (index == other), (index, other))
    E.check("another order, another fingerprint", parents == parents[::-1] or fp(index, parents) != fp(index, parents[::-1]))
    E.check("a missing part, another fingerprint", fp(index, parents) != fp(index, parents[:-1]))
    E.check("a name is described by all of it", gt.describe_path_as_analyzer_cache_hash(parents[0], []) != gt.describe_path_as_analyzer_cache_hash(parents[0][:at] + b"z" + parents[0][at:], []))


class Tensor:
    """An output of an operation."""
    def __init__(self, index): self.value_index = index
    @property
    def __class__(self): return tf.Tensor


@unit(P, "Python functions do not share fingerprints", [gt.describe_path_as_analyzer_cache_hash], sym=False, conc=8, bounded="one call of each kind of Python function")
def pyfuncs(E):
    kind = E.gen("kind", lambda r: r.choice(["tft", "numpy", "py", "stateless"]))

    def path(f):
        with tf.compat.v1.Graph().as_default() as g:
            x = tf.compat.v1.placeholder(tf.float32, [4], name="x")
            y = (tft.apply_pyfunc(f, tf.float32, True, "f", x) if kind == "tft" else tf.numpy_function(f, [x], tf.float32) if kind == "numpy"
                 else tf.py_function(f, [x], tf.float32) if kind == "py" else tf.numpy_function(f, [x], tf.float32, stateful=False))
            op = y.op
            op._set_attr("token", tf.compat.v1.AttrValue(s=b"pyfunc_0"))      # as in a fresh process
            return gt.InitializableGraphAnalyzer(g, {"x": x}, [], gt.describe_path_as_analyzer_cache_hash).get_unique_path(y)
    E.check("different functions, different fingerprints", path(lambda v: v + 1) != path(lambda v: v * 2), kind)


# --------------------------------------------------------------- whole graphs
def draw_graph(r):
    """Steps of a program over values numbered from the inputs on: 0-2 dense
    inputs, 3 a sparse input, 4 and 5 results of analyzers."""
    steps = []
    for k in range(6, 6 + r.randint(1, 9)):
        p = lambda: r.choice([r.randrange(k), r.randrange(max(0, k - 3), k)])
        kind = r.choice(["add", "neg", "control", "cond", "loop", "call", "nested", "table", "file", "split", "sparse", "size"])
        steps.append((kind, p(), p(), p()))
    return steps, [r.random() < 0.5, r.random() < 0.5], r.choice(["v1", "v1", "v1 loops", "v2"]), [r.randrange(6 + len(steps)) for _ in range(r.randint(1, 4))]


def run_steps(steps, first, tables, sparse):
    vals = list(first)
    for k, (kind, *ps) in enumerate(steps):
        a, b, c = (vals[p] for p in ps)
        if kind == "add":
            out = a + b
        elif kind == "neg":
            out = -a
        elif kind == "split":
            out = tf.concat(tf.split(a, 2), 0)
        elif kind == "control":
            with tf.control_dependencies([b * 2]):
                out = tf.identity(a) + 1
        elif kind == "cond":
            out = tf.cond(tf.reduce_sum(a) > 0, lambda: b + 1, lambda: c * 2)
        elif kind == "loop":
            out = tf.while_loop(lambda i, u, v: i < 3, lambda i, u, v: (i + 1, u + v * c, v * u), [tf.constant(0), a + 0., b + 0.], shape_invariants=[tf.TensorShape([])] + 2 * [tf.TensorShape([4])])[1 + k % 2]
        elif kind == "call":
            out = tf.function(lambda u, v: u * 2 + v, autograph=False)(a, b)
        elif kind == "nested":
            g = tf.function(lambda u: tf.cond(tf.reduce_sum(u) > 0, lambda: u + b, lambda: u * 2), autograph=False)
            out = tf.function(lambda u: g(u) + 1, autograph=False)(a)
        elif kind == "table" and tables:
            known = tables[k % 2]
            t = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.cast(known, tf.int64), tf.constant([1., 2., 3., 4.])) if k % 3 else tf.lookup.KeyValueTensorInitializer(tf.constant([1, 2, 3, 4], tf.int64), known), 0.)
            out = t.lookup(tf.cast(a, tf.int64))
        elif kind == "file" and tables:
            t = tf.lookup.StaticHashTable(tf.lookup.TextFileInitializer(tf.strings.as_string(tables[k % 2][0]), tf.int64, 0, tf.int64, 1), 0)
            out = tf.cast(t.lookup(tf.cast(a, tf.int64)), tf.float32)
        elif kind == "size":
            out = tf.cast(sparse.dense_shape, tf.float32) + tf.zeros([4])
        elif kind == "sparse":
            s = tf.sparse.from_dense(a)
            out = tf.sparse.to_dense(tf.sparse.add(s, tf.sparse.from_dense(b)))
            out = tf.ensure_shape(out, [4])
        else:
            out = tf.exp(a)
        vals.append(out)
    return vals


def depends(steps, tables):
    """For each value the inputs and analyzer results it is computed from."""
    out = [{k} for k in range(6)]
    for k, (kind, *ps) in enumerate(steps):
        n = {"add": 2, "neg": 1, "control": 2, "cond": 3, "loop": 3, "call": 2, "nested": 2, "split": 1, "sparse": 2}.get(kind, 1)
        d = set().union(*(out[p] for p in ps[:n]))
        if kind == "size":
            d = {3}
        if kind in ("table", "file") and tables:
            d = d | {4 + k % 2}
        out.append(d)
    return out


@unit(P, "dependencies of real graphs", [gt.get_dependent_inputs, gt.InitializableGraphAnalyzer.get_dependent_inputs, gt.InitializableGraphAnalyzer.ready_to_run, gt.InitializableGraphAnalyzer.__init__,
                                        gt.InitializableGraphAnalyzer._get_table_init_op_source_info, gt._GraphAnalyzer._compute_analysis_results_for_func_attributes, gt._GraphAnalyzer._get_parents],
      sym=False, conc=400, conc_s=14, bounded="graphs of up to 9 steps of 12 kinds", weight=2)
def real(E):
    steps, ready, mode, asked = E.gen("graph", draw_graph)
    v1 = mode != "v2"
    kinds = {k for k, *_ in steps}
    names = ["a", "b", "c", "s"]

    def check(g, ins, results, vals):
        for t in results:
            g.add_to_collection(analyzer_nodes.TENSOR_REPLACEMENTS, analyzer_nodes.TensorSink(t, None, False))
        want = depends(steps, v1)
        of = lambda i: {names[k] for k in want[i] if k < 4}
        got = gt.get_dependent_inputs(g, ins, [vals[i] for i in asked])
        E.check("the inputs of several outputs", set(got) == set().union(*(of(i) for i in asked)), (steps, mode, asked, sorted(got)))
        E.check("with their tensors", all(got[k] is ins[k] for k in got))
        i, j, k = (asked * 3)[:3]
        parts = tf.SparseTensor(tf.cast(vals[i][:, None], tf.int64), vals[j], tf.cast(vals[k][:1], tf.int64)), tf.RaggedTensor.from_row_splits(vals[j], tf.cast(vals[k], tf.int64), validate=False)
        for p, above in zip(parts, [[i, j, k], [j, k]]):
            got = gt.get_dependent_inputs(g, ins, {"o": p})
            E.check("the inputs of every part of an output", set(got) == set().union(*(of(a) for a in above)), (steps, mode, above, sorted(got)))
        got = gt.get_dependent_inputs(g, ins, [vals[i] for i in asked])
        E.check("the same by name", list(gt.get_dependent_inputs(g, ins, {f"o{k}": vals[i] for k, i in enumerate(asked)})) == list(got))
        a = gt.InitializableGraphAnalyzer(g, ins, list(zip(results, ready)))
        for i in asked:
            r = all(ready[k - 4] for k in want[i] if k >= 4)
            E.check("ready exactly if all it needs is", a.ready_to_run(vals[i]) == r, (steps, ready, mode, i, r))
            E.check("the inputs of one output", set(a.get_dependent_inputs(vals[i])) == of(i), (steps, mode, i))
        if v1:
            inits = g.get_collection(tf.compat.v1.GraphKeys.TABLE_INITIALIZERS)
            good = [ready[k % 2] for k, (kind, *_) in enumerate(steps) if kind in ("table", "file")]
            E.check("a table is initialized once its contents are known", list(a.ready_table_initializers) == [t for t, ok in zip(inits, good) if ok] and len(inits) == len(good), (steps, ready))
    if v1:
        if mode == "v1 loops":
            tf.compat.v1.disable_control_flow_v2()
        try:
            with tf.compat.v1.Graph().as_default() as g:
                ph = [tf.compat.v1.placeholder(tf.float32, [4], name=n) for n in names[:3]]
                sp = tf.compat.v1.sparse_placeholder(tf.float32, [None] if steps[0][1] % 2 else None, name="s")
                results = [tf.compat.v1.placeholder(tf.float32, [4], name=f"r{k}") for k in range(2)]
                ins = dict(zip(names, ph + [sp]))
                vals = run_steps(steps, ph + [tf.ensure_shape(tf.sparse.to_dense(sp), [4])] + results, results, sp)
                check(g, ins, results, vals)
        finally:
            tf.compat.v1.enable_control_flow_v2()
    else:
        kept = {}

        def fn(ins):
            dense = [ins[n] for n in names[:3]]
            results = [tf.raw_ops.Placeholder(dtype=tf.float32, shape=[4]) for _ in range(2)]
            kept["vals"] = run_steps(steps, dense + [tf.ensure_shape(tf.sparse.to_dense(ins["s"]), [4])] + results, None, ins["s"])
            kept["results"] = results
            kept["ins"] = ins
            return kept["vals"][-1]
        f = tf.function(fn, input_signature=[dict({n: tf.TensorSpec([4], tf.float32) for n in names[:3]}, s=tf.SparseTensorSpec([4], tf.float32))], autograph=False).get_concrete_function()
        with f.graph.as_default():
            check(f.graph, kept["ins"], kept["results"], kept["vals"])
    E.cover(mode)


# ---------------------------------------------------------- required columns
COLUMNS = {"a": tf.TensorSpec([None], tf.float32), "b": tf.TensorSpec([None], tf.float32), "t": tf.TensorSpec([None], tf.string), "v": tf.SparseTensorSpec([None, None], tf.string), "d": tf.TensorSpec([None], tf.float32)}
FEATURES = {"a": tf.io.FixedLenFeature([], tf.float32), "b": tf.io.FixedLenFeature([], tf.float32), "t": tf.io.FixedLenFeature([], tf.string), "v": tf.io.VarLenFeature(tf.string), "d": tf.io.FixedLenFeature([], tf.float32)}


def draw_columns(r):
    """[(kind, first, second)] over columns and earlier results."""
    nums, texts, steps = ["a", "b", "d"], ["t"], []
    for k in range(r.randint(1, 6)):
        kind = r.choice(["add", "scale", "mean", "vocab", "length", "assert", "varlen", "bucket", "by key", "pair"])
        steps.append((kind, r.choice(nums), r.choice(nums), r.choice(texts)))
        nums.append(f"o{k}")
    outs = r.sample(nums[3:], r.randint(1, len(nums) - 3)) + r.sample(["a", "b", "d"], r.choice([0, 0, 1]))
    return steps, outs, r.random() < 0.5


def columns_fn(steps, outs):
    def fn(x):
        vals, pairs = dict(x), {}
        for k, (kind, p, q, t) in enumerate(steps):
            u, w = vals[p], vals[q]
            if kind == "add":
                out = u + w
            elif kind == "scale":
                out = tft.scale_to_0_1(u)
            elif kind == "mean":
                out = u - tft.mean(w)
            elif kind == "vocab":
                out = tf.cast(tft.compute_and_apply_vocabulary(vals[t]), tf.float32)
            elif kind == "length":
                out = u + tf.cast(tf.strings.length(vals[t]), tf.float32)
            elif kind == "assert":
                with tf.control_dependencies([tf.debugging.assert_greater(w, -1e9)]):
                    out = tf.identity(u) * 2
            elif kind == "varlen":
                out = u + tf.cast(tf.size(tft.compute_and_apply_vocabulary(x["v"]).values), tf.float32)
            elif kind == "pair":                       # a sparse output whose parts come from different columns
                n = tf.size(u)
                out = tf.SparseTensor(tf.cast(tf.stack([tf.argsort(w)[:n], tf.zeros_like(w, tf.int32)], 1), tf.int64), u, tf.cast(tf.stack([tf.size(w), 1]), tf.int64))
                pairs[f"o{k}"], out = out, u * 1
            elif kind == "bucket":
                out = tf.cast(tft.bucketize(u, 3), tf.float32)
            else:
                out = tft.scale_to_z_score_per_key(u, vals[t])
            vals[f"o{k}"] = out
        return {f"out {n}": pairs.get(n, vals[n]) for n in outs}
    return fn


@unit(P, "columns needed for analysis and transformation", [inspect_.get_analyze_input_columns, inspect_.get_transform_input_columns, gt.get_dependent_inputs], sym=False, conc=60, conc_s=14, bounded="preprocessing functions of up to 6 steps of 10 kinds", weight=2)
def columns(E):
    steps, outs, v1 = E.gen("program", draw_columns)
    data = {n: {n} for n in COLUMNS}          # columns a value is computed from
    analyzed, controls = set(), set()
    ties, shown = set(), {n: data[n] for n in COLUMNS}
    for k, (kind, p, q, t) in enumerate(steps):
        o = f"o{k}"
        reads = {"scale": data[p], "mean": data[q], "vocab": data[t], "varlen": {"v"}, "bucket": data[p], "by key": data[p] | data[t]}.get(kind, set())
        analyzed |= reads
        data[o] = {"add": data[p] | data[q], "scale": data[p], "mean": data[p], "vocab": data[t], "length": data[p] | data[t], "assert": data[p] | data[q], "varlen": data[p] | {"v"}, "bucket": data[p], "by key": data[p] | data[t], "pair": data[p]}[kind]
        shown[o] = data[o] | data[q] if kind == "pair" else data[o]
        if kind == "assert":
            controls |= data[q]
        if kind in ("assert", "vocab", "varlen", "by key"):   # table lookups and assertions: tf.function ties them to every output
            ties |= data[p] | data[q] | data[t] | ({"v"} if kind == "varlen" else set())
    fn = columns_fn(steps, outs)
    spec = FEATURES if v1 else COLUMNS
    got = inspect_.get_analyze_input_columns(fn, spec, v1)
    want = analyzed | (set() if v1 else controls)
    E.check("columns the analyzers read", set(got) == want and len(got) == len(set(got)), (steps, outs, v1, got, sorted(want)))
    got = inspect_.get_transform_input_columns(fn, spec, v1)
    want = set().union(*(shown[n] for n in outs))
    if not v1:
        E.check("columns the outputs are computed from", want <= set(got) <= want | ties and len(got) == len(set(got)), (steps, outs, v1, got, sorted(want)))
    else:
        E.check("columns the outputs are computed from", set(got) == want and len(got) == len(set(got)), (steps, outs, v1, got, sorted(want)))
    E.cover("v1" if v1 else "v2")


# ------------------------------------------- inputs of functions and analyzers
def direct(steps, v2, control, tables):
    """For each value the placeholders an outgoing edge reaches."""
    out = [{k} for k in range(6)]
    for kind, *ps in steps:
        n = {"add": 2, "neg": 1, "control": 2 if control else 1, "cond": 3, "loop": 3, "call": 2, "nested": 2, "split": 1, "sparse": 2}.get(kind, 1)
        out.append({3} if kind == "size" else set().union(*(out[p] for p in ps[:n])))
    return out


@unit(P, "the placeholders an operation is computed from", [gt.retrieve_sources, gt._retrieve_source_keys], sym=False, conc=300, conc_s=8, bounded="graphs of up to 9 steps, or chains of up to 300")
def sources(E):
    (steps, _, _, asked), control, chain = E.gen("graph", lambda r: (draw_graph(r), r.random() < 0.5, r.choice([0, 0, 0, 100, 300])))
    steps = [s for s in steps]
    with tf.compat.v1.Graph().as_default() as g:
        names = ["a", "b", "c"]
        ph = [tf.compat.v1.placeholder(tf.float32, [4], name=n) for n in names]
        sp = tf.compat.v1.sparse_placeholder(tf.float32, name="s")
        results = [tf.compat.v1.placeholder(tf.float32, [4], name=f"r{k}") for k in range(2)]
        vals = run_steps(steps, ph + [tf.ensure_shape(tf.sparse.to_dense(sp), [4])] + results, results, sp)
        want = direct(steps, False, control, False)
        if chain:
            x = tf.identity(vals[asked[0]])
            for k in range(chain):
                x = x + 1.0 if k % 50 else x + ph[k // 50 % 3]
            vals.append(x)
            want.append(want[asked[0]] | {k // 50 % 3 for k in range(0, chain, 50)})
            asked = [len(vals) - 1]
        owner = dict({t.ref(): k for k, t in enumerate(ph)}, **{}) | {t.ref(): 3 for t in (sp.indices, sp.values, sp.dense_shape)} | {t.ref(): 4 + k for k, t in enumerate(results)}
        got = gt.retrieve_sources([vals[i].op for i in asked], ignore_control_dependencies=not control)
        got = {owner[t.ref()] for t in got if t.ref() in owner}
        E.check("exactly those some path leads to", got == set().union(*(want[i] for i in asked)), (steps, asked, control, chain, got))
        if not control:
            keys = gt._retrieve_source_keys([vals[i] for i in asked], dict(zip(names + ["s"], ph + [sp])))
            E.check("by name", set(keys) == {"abcs"[k] for i in asked for k in want[i] if k < 4}, (steps, asked, keys))


@unit(P, "analyzers are told apart by the inputs they read", [gt.get_analyzers_fingerprint, impl_helper._validate_analyzers_fingerprint], sym=False, conc=40, conc_s=8, bounded="up to 5 analyzers of 4 kinds")
def traced(E):
    """A second trace of a preprocessing function may only be used if each
    analyzer reads the same inputs as in the first."""
    def draw(r):
        calls = [(r.choice(["mean", "max", "vocab", "by key"]), r.choice("abd"), r.choice("abd"), r.random() < 0.3) for _ in range(r.randint(1, 5))]
        again = list(calls)
        if r.random() < 0.7:
            r.shuffle(again)
        if r.random() < 0.3:
            k = r.randrange(len(again))
            again[k] = (*again[k][:1], r.choice("abd"), *again[k][2:])
        return calls, again, r.random() < 0.2
    calls, again, longer = E.gen("calls", draw)
    reads = lambda kind, p, q, both: {"t"} if kind == "vocab" else {p} | ({q} if both else set()) | ({"t"} if kind == "by key" else set())

    def trace(calls):
        def fn(x):
            out = {}
            for k, (kind, p, q, both) in enumerate(calls):
                u = x[p] + tf.function(lambda a, b: a * b, autograph=False)(x[p], x[q]) if both else x[p] * 2
                with tf.control_dependencies([tf.identity(x["b"])]):
                    u = tf.identity(u)
                out[f"o{k}"] = (u - tft.mean(u) if kind == "mean" else u / tft.max(u) if kind == "max" else tft.compute_and_apply_vocabulary(x["t"]) if kind == "vocab" else tft.scale_to_z_score_per_key(u, x["t"]))
            return out
        with tempfile.TemporaryDirectory() as d:
            graph, ins, _ = impl_helper.trace_preprocessing_function(fn, COLUMNS, use_tf_compat_v1=False, base_temp_dir=d)
            return graph, ins, gt.get_analyzers_fingerprint(graph, ins)
    graph, ins, first = trace(calls)
    got = {frozenset(f.source_keys) for f in first.values()}
    E.check("each analyzer has the inputs it reads", got == {frozenset(reads(*c)) for c in calls}, (calls, first))
    E.check("and a fingerprint, unless it builds on another analyzer", all(len(f.unique_path_hash) >= 1 for f in first.values()), (calls, first))
    graph, ins, second = trace(again + [("mean", "a", "a", False)] * longer)
    of = lambda calls: {kind: [reads(*c) for c in calls if c[0] == kind] for kind in ("mean", "max", "vocab", "by key")}
    same = of(calls) == of(again) and not longer
    got = E.attempt(lambda: impl_helper._validate_analyzers_fingerprint(first, graph, ins))
    E.check("a trace with other inputs is rejected", isinstance(got, Raised) == (not same) and (same or isinstance(got.exc, RuntimeError)), (calls, again, longer, got))
    E.cover("same" if same else "another")
