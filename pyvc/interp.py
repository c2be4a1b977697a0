"""Interpreter of the real functions: walks the AST re-parsed from /repo.

Only functions whose code lives under the repository package are interpreted;
everything else is called natively (when no symbolic value is involved) or
through a model registered in models_*.py (an assumed contract).  Docstrings,
annotations and decorators that were already applied at import are not
re-evaluated; nothing else of the body is dropped.
"""
import ast
import builtins
import functools
import inspect
import os
import types

import z3

from . import core
from .core import (Sym, SymArr, SymBool, SymInt, SymReal, SymStr, SymTerm, Unsupported, PathEnd,
                   binop, compare, is_sym, mk, truth)

REPO_PKG = None  # set by set_repo()


def set_repo(path):
    global REPO_PKG
    REPO_PKG = os.path.realpath(os.path.join(path, "tensorflow_transform")) + os.sep


_AST = {}


def file_index(filename):
    if filename not in _AST:
        with open(filename, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}

        def walk(node, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min([d.lineno for d in ch.decorator_list] + [ch.lineno])
                    idx[(first, ch.name)] = ch
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault((ch.lineno, "<lambda>"), []).append(ch)
                walk(ch, cls)
        walk(tree, None)
        _AST[filename] = (tree, idx, src)
    return _AST[filename]


def find_ast(fn):
    code = fn.__code__
    _, idx, _ = file_index(code.co_filename)
    node = idx.get((code.co_firstlineno, code.co_name))
    if isinstance(node, list):
        cands = [n for n in node if [a.arg for a in n.args.args] == list(code.co_varnames[:code.co_argcount])]
        if len(cands) != 1:
            raise Unsupported(f"ambiguous lambda at {code.co_filename}:{code.co_firstlineno}")
        node = cands[0]
    if node is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return node


def is_repo_function(f):
    return (isinstance(f, types.FunctionType) and f.__code__.co_filename
            and os.path.realpath(f.__code__.co_filename).startswith(REPO_PKG)
            and f.__code__.co_name not in ("<module>",))


class ReturnEx(BaseException):
    def __init__(self, v):
        self.v = v


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


class Scope:
    """Lexical scope; cells are shared with closures by reference."""
    __slots__ = ("vars", "parent", "globals_", "global_names", "nonlocal_names", "cls", "selfv", "fn", "yields", "fname")

    def __init__(self, parent, globals_):
        self.vars, self.parent, self.globals_ = {}, parent, globals_
        self.global_names, self.nonlocal_names = set(), set()
        self.cls = parent.cls if parent else None
        self.selfv = parent.selfv if parent else None
        self.fn = None
        self.yields = None
        self.fname = None

    def lookup(self, name):
        s = self
        if name in self.global_names:
            s = None
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in self.globals_:
            return self.globals_[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store(self, name, v):
        if name in self.global_names:
            raise Unsupported("assignment to a global")
        if name in self.nonlocal_names:
            s = self.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
        self.vars[name] = v


class CellScope(Scope):
    """Scope over the closure cells of a native function."""

    def __init__(self, fn):
        super().__init__(None, fn.__globals__)
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                self.vars[n] = c.cell_contents
            except ValueError:
                pass


class InterpFunction:
    """A function or lambda defined inside interpreted code."""

    def __init__(self, interp, node, scope, defaults, kw_defaults, name):
        self.interp, self.node, self.scope = interp, node, scope
        self.defaults, self.kw_defaults, self.__name__ = defaults, kw_defaults, name
        self.__qualname__ = name
        self.__module__ = scope.globals_.get("__name__", "")

    def __call__(self, *a, **k):
        return self.interp.run_node(self.node, self.scope, self.defaults, self.kw_defaults, a, k, self.__name__)

    def __get__(self, obj, owner):
        return functools.partial(self, obj)


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # belongs to this function unless inside a nested one
            return _yield_here(node)
    return False


def _yield_here(fnode):
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


MUTATORS = ("append", "extend", "add", "update", "insert", "pop", "remove", "clear", "discard", "setdefault", "sort", "reverse", "popleft", "appendleft")


class SymSeq(Sym):
    """A list of unbounded symbolic length.  get(z3 Int) gives an element.

    inv(state, k) and havoc(name, value) are the loop contract used when code
    loops over the sequence with a for statement."""

    def __init__(self, length, get, kind="list", inv=None, havoc=None, name="seq"):
        self.length, self.get, self.kind = length, get, kind
        self.inv, self.havoc, self.name = inv, havoc, name

    def __hash__(self): return 0
    def __repr__(self): return f"<SymSeq {self.name} len={self.length}>"
    def __bool__(self): return core.branch(self.length > 0)

    def at(self, i):
        x = core.to_arith(i)
        neg = z3.simplify(x < 0)
        if not z3.is_false(neg):
            x = z3.If(x < 0, x + self.length, x)
        if core.branch(z3.Or(x < 0, x >= self.length)):
            raise IndexError("list index out of range")
        return self.get(z3.simplify(x))

    def map(self, f, name=None):
        def get(i):
            return core.summarize_value(lambda: f(self.get(i)))
        return SymSeq(self.length, get, "list", name=name or f"map({self.name})")


def spoken(f, *a):
    """A loop contract that names variables the code does not have says nothing."""
    try:
        return f(*a)
    except KeyError as e:
        raise Unsupported(f"the loop contract speaks of {e}, which the code does not have")


class Interp:
    def __init__(self, env=None):
        self.env = env
        self.models = {}       # id(callable) -> (callable, model)
        self.method_models = {}  # (type, name) -> model(self, *args)
        self.contracts = {}    # function object -> replacement (contract of a callee)
        self.used = {}         # qualified name -> file:line of interpreted functions
        self.ext_used = set()  # modelled externals used
        self.depth = 0
        self.max_while = 40
        self.loops = {}

    # ------------------------------------------------------------------ calls
    def model(self, *fns):
        def deco(m):
            for f in fns:
                self.models[id(f)] = (f, m)
            return m
        return deco

    def call(self, f, *args, **kwargs):
        return self.call_(f, list(args), dict(kwargs))

    def call_(self, f, args, kwargs):
        if isinstance(f, (type, types.FunctionType)) and f in self.contracts:
            return self.contracts[f](*args, **kwargs)
        m = self.models.get(id(f))
        if m is not None:
            if getattr(m[1], "always", False) or any(is_sym(a) for a in args) or any(
                    is_sym(a) for a in kwargs.values()):
                self.ext_used.add(getattr(f, "__module__", None) and f"{f.__module__}.{getattr(f, '__qualname__', getattr(f, '__name__', f))}" or str(f))
                return m[1](*args, **kwargs)
        if isinstance(f, InterpFunction):
            return f(*args, **kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call_(f.func, list(f.args) + args, kw)
        if isinstance(f, types.MethodType):
            if f.__func__ in self.contracts:
                return self.contracts[f.__func__](f.__self__, *args, **kwargs)
            if is_repo_function(f.__func__):
                return self.run_function(f.__func__, [f.__self__] + args, kwargs)
            if self.models.get(id(f.__func__)) and any(
                    is_sym(a) for a in [f.__self__, *args, *kwargs.values()]):
                return self.models[id(f.__func__)][1](f.__self__, *args, **kwargs)
            if isinstance(f.__self__, type) and hasattr(f.__self__, "_fields") and f.__name__ == "_make":
                return f.__self__(*args[0])
            if isinstance(f.__self__, Sym) or hasattr(type(f.__self__), "_pyvc_symbolic"):
                return f(*args, **kwargs)
            if f.__name__ in ("_replace", "_asdict") and hasattr(f.__self__, "_fields"):
                return f(*args, **kwargs)
            if not (any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())):
                return f(*args, **kwargs)
            mm = self._method_model(f.__self__, f.__name__)
            if mm:
                return mm(f.__self__, *args, **kwargs)
            raise Unsupported(f"external method {type(f.__self__).__name__}.{f.__name__} with symbolic arguments")
        if isinstance(f, types.FunctionType):
            if f in self.contracts:
                return self.contracts[f](*args, **kwargs)
            if is_repo_function(f):
                return self.run_function(f, args, kwargs)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)) and getattr(f, "__self__", None) is not None \
                and not isinstance(f.__self__, types.ModuleType):
            return self.builtin_method(f, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if getattr(f, "_pyvc_native", False):
            return f(*args, **kwargs)
        if getattr(f, "__name__", None) == "__new__" and args and isinstance(args[0], type) and issubclass(args[0], tuple) \
                and hasattr(args[0], "_fields"):
            return f(*args, **kwargs)
        try:
            contract = self.contracts.get(f)       # an external function
        except TypeError:
            contract = None
        if contract is not None:
            return contract(*args, **kwargs)
        symbolic = any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())
        if not symbolic:
            return f(*args, **kwargs)
        call = getattr(type(f), "__call__", None)
        if is_repo_function(call):
            return self.run_function(call, [f] + args, kwargs)
        raise Unsupported(f"external call {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} with symbolic arguments")

    def _method_model(self, obj, name):
        for t in type(obj).__mro__:
            if (t, name) in self.method_models:
                return self.method_models[(t, name)]
        return None

    def construct(self, cls, args, kwargs):
        init = cls.__init__
        if is_repo_function(init) and cls.__new__ is object.__new__:
            obj = cls.__new__(cls)
            self.run_function(init, [obj] + args, kwargs)
            return obj
        if is_repo_function(init):
            obj = cls.__new__(cls, *args, **kwargs)
            self.run_function(init, [obj] + args, kwargs)
            return obj
        if is_repo_function(cls.__new__):
            return self.run_function(cls.__new__, [cls] + args, kwargs)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return cls(*args, **kwargs)
        if issubclass(cls, BaseException):
            return cls(*[a if not is_sym(a) else "<symbolic>" for a in args], **kwargs)
        if not (any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())):
            return cls(*args, **kwargs)
        import dataclasses
        if dataclasses.is_dataclass(cls) or getattr(cls, "_pyvc_symbolic", False):
            return cls(*args, **kwargs)
        raise Unsupported(f"external constructor {cls.__module__}.{cls.__qualname__} with symbolic arguments")

    def builtin_method(self, f, args, kwargs):
        o, name = f.__self__, f.__name__
        if isinstance(o, dict):
            return self.dict_method(o, name, f, args, kwargs)
        if isinstance(o, (list,)):
            if name == "extend" and args and isinstance(args[0], SymSeq):
                raise Unsupported("extend by a symbolic sequence")
            if name == "append" and getattr(self, "on_append", None):
                self.on_append(o, args[0])
            return f(*args, **kwargs)
        if isinstance(o, set):
            if name in ("add", "discard", "remove") and (is_sym(args[0]) or is_sym(o)):
                if name == "add":
                    if not any(truth(self.eq(x, args[0])) for x in list(o)):
                        o.add(_Key.wrap(args[0]))
                    return None
                raise Unsupported("set removal of symbolic value")
            if is_sym(o) or any(is_sym(a) for a in args):
                raise Unsupported(f"set.{name} with symbolic values")
            return f(*args, **kwargs)
        symbolic = any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())
        if isinstance(o, (str, bytes)) and symbolic:
            m = getattr(self, "str_" + name, None)
            if m:
                return m(o, *args, **kwargs)
            raise Unsupported(f"str.{name} with symbolic arguments")
        if not symbolic:
            return f(*args, **kwargs)
        if isinstance(o, (Sym,)) or hasattr(type(o), "_pyvc_symbolic"):
            return f(*args, **kwargs)
        if isinstance(o, (types.GeneratorType, type(iter([])), type(iter(())))):
            return f(*args, **kwargs)
        if isinstance(o, tuple):
            return f(*args, **kwargs)
        mm = self._method_model(o, name)
        if mm:
            return mm(o, *args, **kwargs)
        if isinstance(o, type) and issubclass(o, tuple):
            return f(*args, **kwargs)
        import collections
        if isinstance(o, collections.deque):
            return f(*args, **kwargs)
        raise Unsupported(f"builtin method {type(o).__name__}.{name} with symbolic arguments")

    def str_join(self, sep, items):
        items = list(self.iterate(items))
        out = None
        for i, it in enumerate(items):
            if i:
                out = binop("+", out, sep)
            out = it if out is None else binop("+", out, it)
        return out if out is not None else type(sep)()

    def str_format(self, fmt, *args, **kwargs):
        return core.SymStr(z3.String(core.fresh_name("fmt"))) if self._mark_abstract() else None

    def _mark_abstract(self):
        core.cur().abstract = True
        return True

    # ---------------------------------------------------------------- dicts
    def eq(self, a, b):
        return self.compare_("==", a, b)

    def dict_find(self, d, key):
        """Returns the stored key equal to key, or None-tuple."""
        if not is_sym(key) and not any(is_sym(k) for k in d):
            try:
                return (key,) if key in d else ()
            except TypeError:
                raise
        for k in list(d):
            if truth(self.eq(_Key.unwrap(k), _Key.unwrap(key))):
                return (k,)
        return ()

    def dict_get(self, d, key):
        if type(d).__name__ == "ObjectIdentityDictionary" or not isinstance(d, dict):
            return d[key]
        if not is_sym(key) and not any(is_sym(k) for k in d):
            return d[key]
        k = self.dict_find(d, key)
        if k:
            return d[k[0]]
        dflt = getattr(d, "default_factory", None)
        if dflt is not None:
            v = self.call(dflt)
            d[_Key.wrap(key)] = v
            return v
        import collections
        if isinstance(d, collections.Counter):
            return 0
        raise KeyError(key)

    def dict_set(self, d, key, v):
        if not isinstance(d, dict) or (not is_sym(key) and not any(is_sym(k) for k in d)):
            d[key] = v
            return
        k = self.dict_find(d, key)
        d[k[0] if k else _Key.wrap(key)] = v

    def dict_method(self, d, name, f, args, kwargs):
        if name in ("get", "setdefault", "pop", "__getitem__", "__contains__") and (
                is_sym(args[0]) or any(is_sym(k) for k in d)):
            k = self.dict_find(d, args[0])
            if name == "__contains__":
                return bool(k)
            if name == "__getitem__":
                return self.dict_get(d, args[0])
            if k:
                return d.pop(k[0]) if name == "pop" else d[k[0]]
            if name == "pop" and len(args) < 2:
                raise KeyError(args[0])
            dv = args[1] if len(args) > 1 else None
            if name == "setdefault":
                d[_Key.wrap(args[0])] = dv
            return dv
        if name in ("keys", "items") and any(isinstance(k, _Key) for k in d):
            return [(_Key.unwrap(k), v) if name == "items" else _Key.unwrap(k) for k, v in d.items()]
        if name == "update" and args and isinstance(args[0], dict):
            for k, v in args[0].items():
                self.dict_set(d, _Key.unwrap(k), v)
            for k, v in kwargs.items():
                self.dict_set(d, k, v)
            return None
        return f(*args, **kwargs)

    # ------------------------------------------------------------- functions
    def run_function(self, fn, args, kwargs):
        node = find_ast(fn)
        key = f"{fn.__module__}.{fn.__qualname__}"
        self.used[key] = (fn.__code__.co_filename, node.lineno)
        scope = CellScope(fn)
        cls = scope.vars.get("__class__")
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        return self.run_node(node, scope, defaults, kwd, args, kwargs, fn.__qualname__, cls)

    def run_node(self, node, parent, defaults, kw_defaults, args, kwargs, name, cls=None):
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("recursion too deep")
        try:
            scope = Scope(parent, parent.globals_)
            scope.fname = name
            if cls is not None:
                scope.cls = cls
            self.bind(node.args, scope, defaults, kw_defaults, list(args), dict(kwargs), name)
            if node.args.args:
                scope.selfv = scope.vars.get(node.args.args[0].arg)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, scope)
            gen = _yield_here(node)
            if gen:
                scope.yields = []
            try:
                self.body(node.body, scope)
            except ReturnEx as r:
                if not gen:
                    return r.v
            if gen:
                return scope.yields if isinstance(scope.yields, SymSeq) else iter(scope.yields)
            return None
        finally:
            self.depth -= 1

    def bind(self, a, scope, defaults, kw_defaults, args, kwargs, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            raise TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            scope.vars[n] = v
        if a.vararg is not None:
            scope.vars[a.vararg.arg] = tuple(args[len(pos):])
        rest = pos[len(args):]
        for n in rest:
            if n in kwargs:
                scope.vars[n] = kwargs.pop(n)
            else:
                i = pos.index(n) - (len(pos) - len(defaults))
                if i < 0:
                    raise TypeError(f"{name}() missing required argument: '{n}'")
                scope.vars[n] = defaults[i]
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                scope.vars[n] = kwargs.pop(n)
            elif n in kw_defaults:
                scope.vars[n] = kw_defaults[n]
            else:
                raise TypeError(f"{name}() missing keyword argument: '{n}'")
        if a.kwarg is not None:
            scope.vars[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'")

    # ------------------------------------------------------------ statements
    def body(self, stmts, sc):
        for s in stmts:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, sc)

    def st_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, sc)

    def st_Pass(self, s, sc):
        pass

    def st_Return(self, s, sc):
        raise ReturnEx(self.ev(s.value, sc) if s.value is not None else None)

    def st_Break(self, s, sc):
        raise BreakEx()

    def st_Continue(self, s, sc):
        raise ContinueEx()

    def st_Global(self, s, sc):
        sc.global_names.update(s.names)

    def st_Nonlocal(self, s, sc):
        sc.nonlocal_names.update(s.names)

    def st_Import(self, s, sc):
        for a in s.names:
            mod = __import__(a.name)
            sc.store(a.asname or a.name.split(".")[0], mod)

    def st_ImportFrom(self, s, sc):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(s.module + "." + a.name)
            sc.store(a.asname or a.name, v)

    def st_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def st_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def st_AugAssign(self, s, sc):
        op = _OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = sc.lookup(t.id)
            sc.store(t.id, self.inplace(op, old, self.ev(s.value, sc)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            old = self.getattr_(o, t.attr)
            setattr(o, t.attr, self.inplace(op, old, self.ev(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev_index(t.slice, sc)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, old, self.ev(s.value, sc)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, old, v):
        if isinstance(old, list) and op == "+":
            old.extend(self.iterate(v))
            return old
        return self.binary(op, old, v)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            sc.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                parts = items[:i] + [items[i:len(items) - after]] + items[len(items) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
                return
            if len(items) != len(t.elts):
                raise ValueError(f"cannot unpack: expected {len(t.elts)}, got {len(items)}")
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, sc), self.ev_index(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unsupported("assignment target")

    def setattr_(self, o, name, v):
        if hasattr(type(o), "_pyvc_setattr"):
            return o._pyvc_setattr(name, v)
        setattr(o, name, v)

    def st_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                i = self.ev_index(t.slice, sc)
                if isinstance(o, dict) and (is_sym(i) or any(is_sym(k) for k in o)):
                    k = self.dict_find(o, i)
                    if not k:
                        raise KeyError(i)
                    del o[k[0]]
                else:
                    del o[i]
            else:
                raise Unsupported("del target")

    def st_If(self, s, sc):
        self.body(s.body if truth(self.ev(s.test, sc)) else s.orelse, sc)

    def st_Assert(self, s, sc):
        if not truth(self.ev(s.test, sc)):
            raise AssertionError("assertion in code")

    def st_Raise(self, s, sc):
        if s.exc is None:
            raise sc.lookup("__current_exc__")
        e = self.ev(s.exc, sc)
        if isinstance(e, type):
            e = e()
        raise e

    def st_FunctionDef(self, s, sc):
        f = self.make_function(s, sc)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, sc), f)
        sc.store(s.name, f)

    def make_function(self, s, sc):
        defaults = [self.ev(d, sc) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, sc) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return InterpFunction(self, s, sc, defaults, kwd, getattr(s, "name", "<lambda>"))

    def st_ClassDef(self, s, sc):
        raise Unsupported("class definition inside a function")

    def st_With(self, s, sc):
        self._with(s.items, s, sc)

    def _with(self, items, s, sc):
        if not items:
            self.body(s.body, sc)
            return
        it = items[0]
        cm = self.ev(it.context_expr, sc)
        if is_repo_function(getattr(type(cm), "__enter__", None)):
            v = self.run_function(type(cm).__enter__, [cm], {})
            exit_ = lambda *a: self.run_function(type(cm).__exit__, [cm] + list(a), {})
        else:
            v = cm.__enter__()
            exit_ = cm.__exit__
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            self._with(items[1:], s, sc)
        except Exception as e:
            if not truth(exit_(type(e), e, e.__traceback__)):
                raise
        except BaseException:
            exit_(None, None, None)
            raise
        else:
            exit_(None, None, None)

    def st_Try(self, s, sc):
        try:
            try:
                self.body(s.body, sc)
            except (Unsupported, core.Budget):
                raise
            except Exception as e:
                gap = core.model_gap(e)
                if gap:
                    raise Unsupported(f"outside the model: {gap}")
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, sc)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            sc.store(h.name, e)
                        sc.vars["__current_exc__"] = e
                        self.body(h.body, sc)
                        break
                else:
                    raise
            else:
                self.body(s.orelse, sc)
        finally:
            if s.finalbody:
                self.body(s.finalbody, sc)

    def loop_contract(self, s, sc, lc):
        """Partial correctness of a loop by its contract: inv(vars) holds on
        entry and after every pass; havoc(vars) forgets what a pass may write."""
        env = self.env
        where = f"the loop of {getattr(sc, 'fname', '?')}"
        env.check(f"invariant of {where} holds on entry", spoken(lc.inv, sc.vars), kind="invariant")
        which = core.choose(2)
        spoken(lc.havoc, sc.vars)
        core.assume(core.as_z3_bool(spoken(lc.inv, sc.vars)))
        if truth(self.ev(s.test, sc)) != (which == 0):
            raise core.Infeasible()
        if which == 0:
            try:
                self.body(s.body, sc)
            except ContinueEx:
                pass
            except BreakEx:
                return
            env.check(f"invariant of {where} is preserved", spoken(lc.inv, sc.vars), kind="invariant")
            raise PathEnd()
        self.body(s.orelse, sc)

    def st_While(self, s, sc):
        lc = self.loops.get(getattr(sc, "fname", None))
        if lc is not None:
            return self.loop_contract(s, sc, lc)
        n = 0
        while truth(self.ev(s.test, sc)):
            n += 1
            if n > self.max_while:
                raise Unsupported("while loop without a contract exceeds the unrolling limit")
            try:
                self.body(s.body, sc)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.body(s.orelse, sc)

    def st_For(self, s, sc):
        it = self.ev(s.iter, sc)
        if isinstance(it, SymSeq):
            lc = self.loops.get(getattr(sc, "fname", None))
            if lc is not None and it.inv is None:
                it = SymSeq(it.length, it.get, it.kind, lc.inv, lc.havoc, f"{it.name} in {sc.fname}")
                it.yields = lc.yields
            return self.loop_symbolic(s, it, sc)
        for x in self.iterate(it):
            self.assign(s.target, x, sc)
            try:
                self.body(s.body, sc)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.body(s.orelse, sc)

    def loop_symbolic(self, s, seq, sc):
        if seq.inv is None:
            raise Unsupported(f"loop over symbolic sequence {seq.name} without a contract")
        stored, grown = set(), set()
        from .models_map import SymMap, Forgotten
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and isinstance(sc.vars.get(n.value.id), SymMap):
                stored.add(n.value.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                raise Unsupported("loop body with heap writes")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                o = n.func.value
                if not isinstance(o, ast.Name):
                    raise Unsupported("loop body with heap writes")
                grown.add(o.id)
        env = self.env
        for g in sorted(grown - stored):
            if g in sc.vars:
                if type(sc.vars[g]) is not list:
                    raise Unsupported("loop body that changes a collection")
                sc.vars[g] = Forgotten()
        state = {n: sc.vars[n] for n in sorted(stored) if n in sc.vars}
        env.check(f"invariant of the loop over {seq.name} holds on entry", spoken(seq.inv, state, 0), kind="invariant")
        which = core.choose(2)
        # a loop that yields: each pass yields one value, given by the contract
        made = getattr(seq, "yields", None)
        gen = sc
        while gen is not None and gen.yields is None:
            gen = gen.parent
        if made is None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
            raise Unsupported("loop that yields without a contract")
        if made is not None and (gen is None or gen.yields):
            raise Unsupported("values yielded before a loop with a contract")
        hav = {n: spoken(seq.havoc, n, v) for n, v in state.items()}
        heap = getattr(seq.havoc, "heap", None)
        if heap is not None:
            heap()                  # objects that the body may change by their methods
        for n in stored:
            sc.vars.pop(n, None)
        sc.vars.update(hav)
        if which == 0:
            k = z3.Int(core.fresh_name(f"k_{seq.name}"))
            core.assume(z3.And(k >= 0, k < seq.length))
            core.assume(core.as_z3_bool(spoken(seq.inv, hav, SymInt(k))))
            self.assign(s.target, seq.get(k), sc)
            try:
                self.body(s.body, sc)
            except ContinueEx:
                pass
            except BreakEx:
                if made is not None:
                    raise Unsupported("break in a loop that yields")
                return
            if made is not None:
                if len(gen.yields) != 1:
                    raise Unsupported("a pass that does not yield one value")
                env.check(f"value yielded by the loop over {seq.name}", env.eq(gen.yields[0], made(SymInt(k))), kind="invariant")
            st = {n: sc.vars[n] for n in state}
            env.check(f"invariant of the loop over {seq.name} is preserved", spoken(seq.inv, st, SymInt(k) + 1),
                      kind="invariant")
            raise PathEnd()
        core.assume(core.as_z3_bool(spoken(seq.inv, hav, mk(seq.length))))
        if made is not None:
            gen.yields = SymSeq(seq.length, lambda i: made(mk(i)), "iter", name="values yielded")
        self.body(s.orelse, sc)

    def iterate(self, v):
        if isinstance(v, SymSeq):
            n = z3.simplify(v.length)
            if z3.is_int_value(n):
                return [v.get(z3.IntVal(i)) for i in range(n.as_long())]
            raise Unsupported(f"enumeration of symbolic sequence {v.name}")
        if isinstance(v, SymArr):
            raise Unsupported("iteration over a symbolic array")
        if isinstance(v, SymStr):
            raise Unsupported("iteration over a symbolic string")
        if isinstance(v, (SymInt, SymReal, SymBool)):
            raise TypeError(f"cannot iterate over {type(v).__name__}")
        if isinstance(v, (dict, set)):
            return [_Key.unwrap(k) for k in v]
        it = getattr(type(v), "__iter__", None)
        if is_repo_function(it):
            return self.run_function(it, [v], {})
        return v

    # ----------------------------------------------------------- expressions
    def ev(self, e, sc):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, sc)

    def ex_Constant(self, e, sc):
        return e.value

    def ex_Name(self, e, sc):
        return sc.lookup(e.id)

    def ex_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        sc.store(e.target.id, v)
        return v

    def ex_Attribute(self, e, sc):
        return self.getattr_(self.ev(e.value, sc), e.attr)

    def getattr_(self, o, name):
        if isinstance(o, Sym):
            return self.sym_attr(o, name)
        if isinstance(o, types.ModuleType):
            return getattr(o, name)
        try:
            st = inspect.getattr_static(type(o), name)
        except AttributeError:
            st = None
        if isinstance(st, property) and is_repo_function(st.fget):
            return self.run_function(st.fget, [o], {})
        return getattr(o, name)

    def sym_attr(self, o, name):
        from . import models
        r = models.sym_attr(self, o, name)
        return r

    def ex_Subscript(self, e, sc):
        return self.getitem(self.ev(e.value, sc), self.ev_index(e.slice, sc))

    def ev_index(self, s, sc):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x, sc) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, sc) for x in s.elts)
        return self.ev(s, sc)

    def getitem(self, o, i):
        if isinstance(o, dict):
            return self.dict_get(o, i)
        if isinstance(o, SymSeq):
            if isinstance(i, slice):
                from . import models
                return models.seq_slice(o, i)
            return o.at(i)
        if isinstance(o, SymStr):
            return o[i]
        if isinstance(o, SymArr):
            from . import models
            return models.arr_getitem(self, o, i)
        if isinstance(o, Sym) and type(o).__name__ == "SymTab":
            return o[i]
        if isinstance(o, (list, tuple)) and isinstance(i, (SymInt, SymBool)):
            n = len(o)
            x = core.to_arith(i)
            for k in range(n):
                if core.branch(z3.Or(x == k, x == k - n)):
                    return o[k]
            raise IndexError("index out of range")
        if isinstance(o, (list, tuple)) and isinstance(i, slice) and any(
                is_sym(x) for x in (i.start, i.stop, i.step)):
            n = len(o)

            def conc(x):
                if not is_sym(x):
                    return x
                for k in range(-n, n + 1):
                    if core.branch(core.to_arith(x) == k):
                        return k
                return n if core.branch(core.to_arith(x) > n) else -n
            return o[slice(conc(i.start), conc(i.stop), conc(i.step))]
        if isinstance(o, (str, bytes)) and is_sym(i):
            return SymStr(core.to_str(o), core.str_kind(o))[i]
        if is_sym(i) and not hasattr(type(o), "_pyvc_symbolic"):
            gi = getattr(type(o), "__getitem__", None)
            if is_repo_function(gi):
                return self.run_function(gi, [o, i], {})
            raise Unsupported(f"symbolic index into {type(o).__name__}")
        gi = getattr(type(o), "__getitem__", None)
        if is_repo_function(gi):
            return self.run_function(gi, [o, i], {})
        return o[i]

    def setitem(self, o, i, v):
        if isinstance(o, dict):
            return self.dict_set(o, i, v)
        if is_sym(i) and not hasattr(type(o), "_pyvc_symbolic"):
            raise Unsupported("assignment at a symbolic index")
        o[i] = v

    def ex_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if sc.cls is None:
                raise Unsupported("super() outside a method")
            s = sc
            return super(sc.cls, sc.selfv)
        if isinstance(e.func, ast.Name) and e.func.id == "locals":
            raise Unsupported("locals()")
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc)
                if f is zip and len(e.args) == 1 and isinstance(v, SymSeq):
                    from . import models
                    return models.unzip_seq(v)
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, sc))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, sc))
            else:
                kwargs[k.arg] = self.ev(k.value, sc)
        return self.call_(f, args, kwargs)

    def ex_Lambda(self, e, sc):
        return self.make_function(e, sc)

    def ex_BinOp(self, e, sc):
        return self.binary(_OPS[type(e.op)], self.ev(e.left, sc), self.ev(e.right, sc))

    def binary(self, op, a, b):
        if op == "%" and isinstance(a, (str, bytes)):
            if is_sym(b):
                return self.str_format(a, b)
            return a % b
        if not is_sym(a, 0) and not is_sym(b, 0):
            if isinstance(a, (list, tuple)) and op == "*" and isinstance(b, SymInt):
                raise Unsupported("list repetition by a symbolic count")
            return core._native(op, a, b)
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            from . import models
            return models.seq_binop(op, a, b)
        if hasattr(type(a), "_pyvc_pcoll") or hasattr(type(b), "_pyvc_pcoll"):
            from . import models_beam
            return models_beam.coll_binop(op, a, b)
        if op == "@":
            from . import models
            return models.np_matmul(a, b)
        r = binop(op, a, b)
        if r is NotImplemented:
            m = {"+": "__radd__", "*": "__rmul__", "-": "__rsub__", "/": "__rtruediv__"}.get(op)
            if m and hasattr(type(b), m) and not isinstance(b, Sym):
                return getattr(b, m)(a)
            raise TypeError(f"unsupported operand types for {op}: {type(a).__name__}, {type(b).__name__}")
        return r

    def ex_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return mk(z3.Not(v.e))
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def ex_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, sc)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isand and not t:
                return False if isinstance(v, SymBool) else v
            if not isand and t:
                return True if isinstance(v, SymBool) else v
        return v

    def ex_IfExp(self, e, sc):
        return self.ev(e.body if truth(self.ev(e.test, sc)) else e.orelse, sc)

    def ex_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, sc)
            res = self.cmp(op, left, right)
            if i < len(e.ops) - 1:
                if not truth(res):
                    return False
            left = right
        return res

    def compare_(self, op, a, b):
        if not is_sym(a) and not is_sym(b):
            return compare(op, a, b)
        if op in ("==", "!="):
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                    return op == "!="
                r = True
                for x, y in zip(a, b):
                    c = self.compare_("==", x, y)
                    if isinstance(c, SymArr):
                        c = mk(core.as_z3_bool(c.el)) if c.space is None else _unsup("array in tuple comparison")
                    r = c if r is True else (r if c is True else (
                        False if (c is False or r is False) else mk(z3.And(core.as_z3_bool(r), core.as_z3_bool(c)))))
                    if r is False:
                        break
                return r if op == "==" else (mk(z3.Not(core.as_z3_bool(r))))
            if (isinstance(a, (tuple, list, dict)) or isinstance(b, (tuple, list, dict))) and not (
                    isinstance(a, SymArr) or isinstance(b, SymArr)):
                if isinstance(a, dict) and isinstance(b, dict):
                    if set(a) != set(b):
                        return op == "!="
                    r = self.compare_("==", [a[k] for k in a], [b[k] for k in a])
                    return r if op == "==" else mk(z3.Not(core.as_z3_bool(r)))
                if isinstance(a, Sym) or isinstance(b, Sym):
                    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
                        raise Unsupported("comparison of a symbolic sequence")
                return op == "!="
        elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            # lexicographic order
            for x, y in zip(a, b):
                if truth(self.compare_("==", x, y)):
                    continue
                return self.compare_(op, x, y)
            return compare(op, len(a), len(b))
        return compare(op, a, b)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return mk(z3.Not(r.e)) if isinstance(r, SymBool) else not truth(r)
        return self.compare_(_CMP[type(op)], a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)) and (
                isinstance(a, Sym) or isinstance(b, Sym)):
            return truth(compare("==", a, b))
        return False

    def contains(self, c, x):
        if isinstance(c, dict):
            return bool(self.dict_find(c, x))
        if isinstance(c, SymStr):
            return mk(z3.Contains(c.e, core.to_str(x)))
        if isinstance(c, (str, bytes)) and is_sym(x):
            return mk(z3.Contains(core.to_str(c), core.to_str(x)))
        if isinstance(c, SymSeq):
            i = z3.Int(core.fresh_name("ix"))
            el = c.get(i)
            eq = core.as_z3_bool(self.eq(el, x))
            return mk(z3.Exists([i], z3.And(i >= 0, i < c.length, eq)))
        if is_sym(x) or is_sym(c):
            if isinstance(c, (list, tuple, set, frozenset)) or type(c).__name__ in ("dict_keys", "dict_values"):
                for y in list(c):
                    y = _Key.unwrap(y)
                    if y is x or truth(self.eq(y, x)):
                        return True
                return False
            if hasattr(type(c), "_pyvc_symbolic"):
                return c.__contains__(x)
            raise Unsupported(f"membership in {type(c).__name__}")
        ct = getattr(type(c), "__contains__", None)
        if is_repo_function(ct):
            return self.run_function(ct, [c, x], {})
        return x in c

    def ex_Tuple(self, e, sc):
        return tuple(self._elts(e.elts, sc))

    def ex_List(self, e, sc):
        return list(self._elts(e.elts, sc))

    def ex_Set(self, e, sc):
        out = set()
        for x in self._elts(e.elts, sc):
            out.add(_Key.wrap(x))
        return out

    def _elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def ex_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                self.dict_set(d, self.ev(k, sc), self.ev(v, sc))
        return d

    def ex_JoinedStr(self, e, sc):
        parts = []
        symbolic = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, sc)
                if is_sym(x):
                    symbolic = True
                    parts.append(x)
                else:
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    spec = self.ev(v.format_spec, sc) if v.format_spec is not None else ""
                    parts.append(format(x, spec))
        if not symbolic:
            return "".join(parts)
        out = ""
        for p in parts:
            if isinstance(p, SymStr) and p.kind == "str":
                out = binop("+", out, p) if out else p
            elif isinstance(p, str):
                out = binop("+", out, p) if (out != "" if not isinstance(out, Sym) else True) else p
            elif isinstance(p, SymInt):
                s = z3.If(p.e >= 0, z3.IntToStr(p.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-p.e)))
                out = binop("+", out, SymStr(s))
            else:
                core.cur().abstract = True
                out = binop("+", out, SymStr(z3.String(core.fresh_name("fmt"))))
        return out

    # comprehensions ------------------------------------------------------
    def _comp(self, gens, sc, emit):
        def rec(i, s):
            if i == len(gens):
                emit(s)
                return
            g = gens[i]
            it = self.ev(g.iter, s)
            for x in self.iterate(it):
                s2 = Scope(s, s.globals_)
                self.assign(g.target, x, s2)
                if all(truth(self.ev(c, s2)) for c in g.ifs):
                    rec(i + 1, s2)
        s0 = Scope(sc, sc.globals_)
        rec(0, s0)

    def _seq_comp(self, e, sc):
        """Comprehension over one symbolic sequence: map / filter."""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        it = self.ev(g.iter, sc)
        if not isinstance(it, SymSeq):
            return ("value", it)
        from . import models

        def bind(x):
            s2 = Scope(sc, sc.globals_)
            self.assign(g.target, x, s2)
            return s2

        def pred(x):
            s2 = bind(x)
            r = True
            for c in g.ifs:
                if not truth(self.ev(c, s2)):
                    return False
            return r
        seq = it
        if g.ifs:
            seq = models.filter_seq(it, pred)
        return ("seq", models.map_seq(seq, lambda x: self.ev(e.elt, bind(x))))

    def _list_like(self, e, sc):
        g0 = e.generators[0]
        if len(e.generators) == 1:
            k, v = self._seq_comp(e, sc)
            if k == "seq":
                return v
            out = []
            for x in self.iterate(v):
                s2 = Scope(sc, sc.globals_)
                self.assign(g0.target, x, s2)
                if all(truth(self.ev(c, s2)) for c in g0.ifs):
                    out.append(self.ev(e.elt, s2))
            return out
        out = []
        self._comp(e.generators, sc, lambda s: out.append(self.ev(e.elt, s)))
        return out

    def ex_ListComp(self, e, sc):
        return self._list_like(e, sc)

    def ex_GeneratorExp(self, e, sc):
        v = self._list_like(e, sc)
        return v if isinstance(v, SymSeq) else iter(v)

    def ex_SetComp(self, e, sc):
        v = self._list_like(e, sc)
        if isinstance(v, SymSeq):
            raise Unsupported("set of a symbolic sequence")
        out = set()
        for x in v:
            if is_sym(x):
                if not any(truth(self.eq(_Key.unwrap(y), x)) for y in out):
                    out.add(_Key.wrap(x))
            else:
                out.add(x)
        return out

    def ex_DictComp(self, e, sc):
        d = {}
        self._comp(e.generators, sc, lambda s: self.dict_set(d, self.ev(e.key, s), self.ev(e.value, s)))
        return d

    def ex_Yield(self, e, sc):
        s = sc
        while s is not None and s.yields is None:
            s = s.parent
        if isinstance(s.yields, SymSeq):
            raise Unsupported("value yielded after a loop with a contract")
        s.yields.append(self.ev(e.value, sc) if e.value is not None else None)
        return None

    def ex_YieldFrom(self, e, sc):
        s = sc
        while s is not None and s.yields is None:
            s = s.parent
        s.yields.extend(self.iterate(self.ev(e.value, sc)))
        return None

    def ex_Starred(self, e, sc):
        raise Unsupported("starred expression")


def _unsup(m):
    raise Unsupported(m)


class _Key:
    """Wraps a symbolic dict/set key so that native hashing never compares it."""
    _pyvc_symbolic = True
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return id(self.v)

    def __eq__(self, o):
        return isinstance(o, _Key) and o.v is self.v

    @staticmethod
    def wrap(v):
        return _Key(v) if is_sym(v) else v

    @staticmethod
    def unwrap(k):
        return k.v if isinstance(k, _Key) else k


_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
