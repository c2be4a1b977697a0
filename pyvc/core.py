"""Symbolic values, path exploration and obligations (the VC generator core).

A *path* is one control-flow path through interpreted code, with a path
condition (a list of z3 formulas).  Paths are explored by re-execution: at a
branch on a symbolic condition the solver says which sides are feasible; the
side not taken is queued and the harness is run again from the start with the
recorded decisions.  Obligations are formulas that must be implied by the path
condition at the point where they are stated; each is sent to the back ends in
solve.py.
"""
import fractions
import linecache
import math
import os
import re
import sys
import time

import z3


class Unsupported(Exception):
    """The code left the subset of Python / library calls the generator models."""


_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_QUOTED = re.compile(r"'(?:[\w.]*\.)?(\w+)'")


def model_gap(e):
    """An exception that comes from a model (an operation it does not have, an
    assertion about how it is used) rather than from the code: says so, or None."""
    tb = e.__traceback__
    if tb is None:
        return None
    while tb.tb_next is not None:
        tb = tb.tb_next
    name = os.path.abspath(tb.tb_frame.f_code.co_filename)
    if not name.startswith((os.path.join(_HERE, "contracts"), os.path.join(_HERE, "pyvc"))):
        return None
    line = linecache.getline(name, tb.tb_lineno).strip()
    if line.startswith("raise ") or re.search(r":\s*raise ", line):
        return None
    if not isinstance(e, AssertionError):
        if not isinstance(e, (TypeError, AttributeError)):
            return None
        ours = {c.__name__ for n, m in list(sys.modules.items()) if n.startswith(("pyvc", "contracts"))
                for c in vars(m).values() if isinstance(c, type) and c.__module__.startswith(("pyvc", "contracts"))}
        if not ours & set(_QUOTED.findall(str(e))):
            return None
    return f"{type(e).__name__}: {e} ({os.path.basename(name)}:{tb.tb_lineno} {line[:80]})"


class Infeasible(BaseException):
    """The current path condition is unsatisfiable; abandon the path."""


class PathEnd(BaseException):
    """The current path ends here on purpose (end of a cut loop body)."""


class Budget(Exception):
    """Path or time budget of a unit exhausted."""


# ---------------------------------------------------------------- path state
class Path:
    def __init__(self, explorer, prefix, base_pc=()):
        self.ex = explorer
        self.prefix = list(prefix)
        self.taken = []
        self.pc = list(base_pc)
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.branch_timeout_ms)
        for c in self.pc:
            self.solver.add(c)
        self.counter = {}
        self.abstract = False  # an over-approximation was used on this path

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f"{base}!{n}"


STACK = []  # stack of Path


def cur():
    if not STACK:
        raise Unsupported("symbolic value used outside of an exploration")
    return STACK[-1]


def fresh_name(base):
    # fresh names must be unique over the whole stack: use the root path
    return STACK[0].fresh_name(base)


def assume(cond):
    cond = as_z3_bool(cond)
    p = cur()
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return
    if z3.is_false(cond):
        raise Infeasible()
    p.pc.append(cond)
    p.solver.add(cond)


def branch(cond):
    """Decides a symbolic condition on the current path (forking if needed)."""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    p = cur()
    idx = len(p.taken)
    if idx < len(p.prefix):
        choice = p.prefix[idx]
    else:
        p.ex.tick()
        can_t = _feasible(p, cond)
        can_f = _feasible(p, z3.Not(cond))
        if can_t and can_f:
            p.ex.queue.append(p.taken + [False])
            choice = True
        elif can_t:
            choice = True
        elif can_f:
            choice = False
        else:
            raise Infeasible()
    p.taken.append(choice)
    c = cond if choice else z3.Not(cond)
    p.pc.append(c)
    p.solver.add(c)
    return choice


def choose(n):
    """Non-deterministic choice among n alternatives (all explored)."""
    p = cur()
    for k in range(n - 1):
        idx = len(p.taken)
        if idx < len(p.prefix):
            choice = p.prefix[idx]
        else:
            p.ex.tick()
            p.ex.queue.append(p.taken + [False])
            choice = True
        p.taken.append(choice)
        if choice:
            return k
    return n - 1


def _feasible(p, cond):
    p.solver.push()
    p.solver.add(cond)
    r = p.solver.check()
    p.solver.pop()
    return r != z3.unsat


class Explorer:
    def __init__(self, max_paths=3000, max_s=120.0, branch_timeout_ms=1500):
        self.queue = [[]]
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = time.time() + max_s
        self.branch_timeout_ms = branch_timeout_ms

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget of the exploration exhausted")

    def run(self, body, on_end=None, base_pc=(), abstract=False):
        """Runs body() once per path.  on_end(path, outcome, value)."""
        while self.queue:
            prefix = self.queue.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget("path budget exhausted (%d)" % self.max_paths)
            self.tick()
            p = Path(self, prefix, base_pc)
            p.abstract = abstract
            STACK.append(p)
            try:
                try:
                    v = body()
                    out = ("return", v)
                except Infeasible:
                    out = ("infeasible", None)
                except PathEnd:
                    out = ("cut", None)
                except (Unsupported, Budget):
                    raise
                except Exception as e:  # an exception of the code under proof
                    out = ("raise", e)
                if on_end is not None and out[0] != "infeasible":
                    on_end(p, out[0], out[1])
            finally:
                STACK.pop()


def summarize(fn):
    """Evaluates pure fn() on all paths under the current path condition.

    Returns a list of (condition, outcome, value); conditions are relative to
    the current path condition and are exhaustive and exclusive.
    """
    parent = cur()
    ex = Explorer(max_paths=400, max_s=max(1.0, parent.ex.deadline - time.time()),
                  branch_timeout_ms=parent.ex.branch_timeout_ms)
    res = []
    n0 = len(parent.pc)

    def done(p, outcome, value):
        extra = p.pc[n0:]
        if p.abstract:
            parent.abstract = True
        res.append((z3.And(*extra) if extra else z3.BoolVal(True), outcome, value))

    ex.run(fn, done, base_pc=list(parent.pc), abstract=parent.abstract)
    return res


def summarize_value(fn):
    """As summarize, merging scalar results into one if-then-else value."""
    res = summarize(fn)
    if not res:
        raise Infeasible()
    for _, o, v in res:
        if o != "return":
            if o == "raise":
                raise Unsupported(f"summarised code may raise {type(v).__name__}: {v}")
            raise Unsupported("summarised code did not return")
    return merge_values([(c, v) for c, _, v in res])


def merge_values(pairs):
    if len(pairs) == 1:
        return pairs[0][1]
    vals = [v for _, v in pairs]
    if all(v is vals[0] for v in vals):
        return vals[0]
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        items = [merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(vals[0]))]
        t = type(vals[0])
        return t(*items) if hasattr(t, "_fields") else tuple(items)
    if all(isinstance(v, list) for v in vals) and len({len(v) for v in vals}) == 1:
        return [merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(vals[0]))]
    if not any(isinstance(v, Sym) for v in vals):
        try:
            if all(type(v) is type(vals[0]) and v == vals[0] for v in vals):
                return vals[0]
        except Exception:
            pass
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        e = as_z3_bool(vals[-1])
        for c, v in reversed(pairs[:-1]):
            e = z3.If(c, as_z3_bool(v), e)
        return mk(e)
    if all(isinstance(v, (int, float, SymInt, SymReal)) for v in vals) and not any(
            isinstance(v, float) and not math.isfinite(v) for v in vals):
        es = [to_arith(v) for v in vals]
        if any(z3.is_real(e) for e in es):
            es = [z3.ToReal(e) if z3.is_int(e) else e for e in es]
        e = es[-1]
        for (c, _), x in zip(reversed(pairs[:-1]), reversed(es[:-1])):
            e = z3.If(c, x, e)
        return mk(e)
    if all(isinstance(v, SymArr) for v in vals):
        a = vals[0]
        if all(v.kind == a.kind and v.dtype == a.dtype and v.space == a.space for v in vals):
            return SymArr(merge_values([(c, v.el) for c, v in pairs]), a.kind, a.dtype, a.space)
    if all(isinstance(v, (str, bytes, SymStr)) for v in vals):
        kind = "bytes" if (isinstance(vals[0], bytes) or getattr(vals[0], "kind", "") == "bytes") else "str"
        e = to_str(vals[-1])
        for c, v in reversed(pairs[:-1]):
            e = z3.If(c, to_str(v), e)
        return SymStr(e, kind)
    raise Unsupported("cannot merge path results of kinds %s" % sorted({type(v).__name__ for v in vals}))


# ------------------------------------------------------------- scalar values
class Sym:
    __slots__ = ()


def mk(e):
    """Wraps a z3 term; literals become Python values."""
    e = z3.simplify(e) if not z3.is_const(e) else e
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_int(e):
        return SymInt(e)
    if z3.is_real(e):
        return SymReal(e)
    if z3.is_string(e):
        return SymStr(e)
    return SymTerm(e)


def as_z3_bool(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, (bool,)):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, SymArr):
        return as_z3_bool(v.el)
    import numpy as np
    if isinstance(v, np.bool_):
        return z3.BoolVal(bool(v))
    if isinstance(v, (SymInt, SymReal)):
        return v.e != 0
    raise Unsupported(f"not a boolean: {type(v).__name__}")


def is_num(v):
    import numpy as np
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_)) or isinstance(
        v, (SymInt, SymReal, SymBool))


def is_fp_special(v):
    import numpy as np
    return isinstance(v, (float, np.floating)) and not math.isfinite(v)


def to_arith(v):
    import numpy as np
    if isinstance(v, (SymInt, SymReal)):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating)):
        if not math.isfinite(v):
            raise Unsupported("non-finite constant in arithmetic")
        if isinstance(v, (np.float32, np.float16)):
            # a single precision constant stands for the decimal it prints as
            f = fractions.Fraction(str(v))
        else:
            f = fractions.Fraction(repr(float(v)))
        return z3.RealVal(f)
    if isinstance(v, fractions.Fraction):
        return z3.RealVal(v)
    if isinstance(v, SymArr):
        raise Unsupported("array used as scalar")
    raise Unsupported(f"not a number: {type(v).__name__}")


def _coerce(a, b):
    x, y = to_arith(a), to_arith(b)
    if z3.is_real(x) and z3.is_int(y):
        y = z3.ToReal(y)
    elif z3.is_int(x) and z3.is_real(y):
        x = z3.ToReal(x)
    return x, y


def truth(v):
    """Python truth value of v, forking if symbolic."""
    if isinstance(v, SymBool):
        return branch(v.e)
    if isinstance(v, (SymInt, SymReal)):
        return branch(v.e != 0)
    if isinstance(v, SymStr):
        return branch(z3.Length(v.e) > 0)
    if isinstance(v, SymArr):
        if v.space is None:
            return truth(v.el)
        raise Unsupported("truth value of a symbolic array")
    return bool(v)


def unbox(v):
    """A concrete scalar tensor as the Python number it holds."""
    if type(v).__name__ == "EagerTensor" and v.shape.rank == 0:
        return _other(v)
    return v


def binop(op, a, b, ieee=False):
    """Scalar arithmetic.  ieee: division by zero gives inf/nan, not an error."""
    import numpy as np
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = unbox(a), unbox(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if ieee:
            with np.errstate(all="ignore"):
                return _native(op, _npify(a), _npify(b))
        return _native(op, a, b)
    if isinstance(a, SymVec) or isinstance(b, SymVec):
        return vec_map(lambda x, y: binop(op, x, y, True), a, b)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return arr_binop(op, a, b)
    if isinstance(a, (SymStr, str, bytes)) or isinstance(b, (SymStr, str, bytes)):
        return str_binop(op, a, b)
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        (x, fx), (y, fy) = opt_parts(a), opt_parts(b)
        r = binop(op, x, y, ieee)
        return mk_opt(r, z3.And(fx, fy))
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    sa, sb = is_fp_special(a), is_fp_special(b)
    if sa or sb:
        return _special_binop(op, a, b)
    x, y = _coerce(a, b)
    if op == "+":
        return mk(x + y)
    if op == "-":
        return mk(x - y)
    if op == "*":
        return mk(x * y)
    if op == "/":
        if z3.is_int(x):
            x, y = z3.ToReal(x), z3.ToReal(y)
        if branch(y == 0):
            if not ieee:
                raise ZeroDivisionError("division by zero")
            if branch(x == 0):
                return float("nan")
            return float("inf") if branch(x > 0) else float("-inf")
        return mk(x / y)
    if op in ("//", "%"):
        if branch(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if z3.is_int(x):
            if branch(y > 0):
                return mk(x / y if op == "//" else x % y)
            # floor division by a negative: -x div -y
            return mk((-x) / (-y) if op == "//" else -((-x) % (-y)))
        q = z3.ToReal(z3.ToInt(x / y))
        return mk(q) if op == "//" else mk(x - q * y)
    if op == "**":
        if isinstance(b, (int, np.integer)) or (isinstance(b, float) and b == int(b)):
            n = int(b)
            if 0 <= n <= 8:
                r = z3.IntVal(1) if z3.is_int(x) else z3.RealVal(1)
                if isinstance(b, float) and z3.is_int(x):
                    x, r = z3.ToReal(x), z3.RealVal(1)
                for _ in range(n):
                    r = r * x
                return mk(r)
            if -8 <= n < 0:
                return binop("/", 1.0, binop("**", a, -n), ieee)
        if b == 0.5:
            return sqrt(a, ieee)
        if isinstance(a, (int, float)) and a > 0:
            return ufun("pow", to_real(a), to_real(b))
        raise Unsupported("power")
    if op in ("&", "|", "^") and isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        p, q = as_z3_bool(a), as_z3_bool(b)
        return mk({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](p, q))
    raise Unsupported("operator " + op)


def _npify(x):
    import numpy as np
    return np.float64(x) if isinstance(x, float) else x


def _native(op, a, b):
    import operator as o
    return {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod,
            "**": o.pow, "&": o.and_, "|": o.or_, "^": o.xor, "<<": o.lshift, ">>": o.rshift,
            "@": o.matmul}[op](a, b)


def _special_binop(op, a, b):
    nan = float("nan")
    sa, sb = is_fp_special(a), is_fp_special(b)
    if (sa and math.isnan(a)) or (sb and math.isnan(b)):
        return nan
    if op == "+":
        return float(a) if sa else float(b)
    if op == "-":
        return float(a) if sa else -float(b)
    if op in ("*", "/") and sa:
        y = to_arith(b)
        if branch(y == 0):
            return nan
        return float(a) if branch(y > 0) else -float(a)
    if op == "*" and sb:
        return _special_binop(op, b, a)
    if op == "/" and sb:
        return 0.0
    raise Unsupported("operator %s on a non-finite value" % op)


def compare(op, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = unbox(a), unbox(b)
    if isinstance(a, SymVec) or isinstance(b, SymVec):
        return vec_map(lambda x, y: compare(op, x, y), a, b)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return arr_compare(op, a, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator as o
        return {"==": o.eq, "!=": o.ne, "<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}[op](a, b)
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        for v, w in ((a, b), (b, a)):
            if is_fp_special(w) and not math.isnan(w):
                v = v.v if branch(v.fin) else float("nan")
                return compare(op, v, w) if w is b else compare(op, w, v)
        (x, fx), (y, fy) = opt_parts(a), opt_parts(b)
        c = as_z3_bool(compare(op, x, y))
        return mk(z3.Or(z3.Not(z3.And(fx, fy)), c) if op == "!=" else z3.And(fx, fy, c))
    if isinstance(a, SymTerm) or isinstance(b, SymTerm):
        if isinstance(a, SymTerm) and isinstance(b, SymTerm) and a.e.sort() == b.e.sort():
            if op == "==":
                return mk(a.e == b.e)
            if op == "!=":
                return mk(a.e != b.e)
            if a.less is not None:
                lt = lambda x, y: a.less(x, y)
                return mk({"<": lambda: lt(a.e, b.e), ">": lambda: lt(b.e, a.e),
                           "<=": lambda: z3.Not(lt(b.e, a.e)), ">=": lambda: z3.Not(lt(a.e, b.e))}[op]())
            raise Unsupported("ordering of opaque values")
        if op in ("==", "!="):
            other = b if isinstance(a, SymTerm) else a
            if other is None or isinstance(other, (tuple, list, dict)):
                return op == "!="
        raise Unsupported("comparison of an opaque value with " + type(b).__name__)
    if isinstance(a, (SymStr, str, bytes)) or isinstance(b, (SymStr, str, bytes)):
        return str_compare(op, a, b)
    if is_num(a) and is_num(b):
        sa, sb = is_fp_special(a), is_fp_special(b)
        if sa or sb:
            x = a if sa else 0.0
            y = b if sb else 0.0
            import operator as o
            return bool({"==": o.eq, "!=": o.ne, "<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}[op](
                float(x), float(y)))
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) and op in ("==", "!="):
            x, y = as_z3_bool(a), as_z3_bool(b)
            return mk(x == y if op == "==" else z3.Xor(x, y))
        x, y = _coerce(a, b)
        return mk({"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
                   "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]())
    if op == "==":
        return False
    if op == "!=":
        return True
    raise TypeError(f"'{op}' not supported between {type(a).__name__} and {type(b).__name__}")


def to_real(v):
    e = to_arith(v)
    return z3.ToReal(e) if z3.is_int(e) else e


_UF = {}


def ufun(name, *args):
    """Uninterpreted real function (an abstraction: refutations are not exact)."""
    if name not in _UF:
        _UF[name] = z3.Function("f_" + name, *([z3.RealSort()] * (len(args) + 1)))
    if STACK:
        cur().abstract = True
    return mk(_UF[name](*args))


def sqrt(v, ieee=True):
    if not isinstance(v, Sym):
        import numpy as np
        with np.errstate(all="ignore"):
            return float(np.sqrt(v))
    if isinstance(v, SymOpt):
        return mk_opt(sqrt(v.v, ieee), v.fin)
    x = to_real(v)
    if branch(x < 0):
        if ieee:
            return float("nan")
        raise ValueError("math domain error")
    if branch(x == 0):
        return 0.0
    if "sqrt" not in _UF:
        _UF["sqrt"] = z3.Function("f_sqrt", z3.RealSort(), z3.RealSort())
    s = _UF["sqrt"](z3.simplify(x, som=True))
    assume(s > 0)
    assume(s * s == x)
    return SymReal(s)


def sabs(v):
    if not isinstance(v, Sym):
        return abs(v)
    x = to_arith(v)
    return mk(z3.If(x >= 0, x, -x))


def ite(c, a, b):
    """Scalar if-then-else without forking where possible."""
    if isinstance(c, SymArr):
        c = c.el
    if not isinstance(c, SymBool):
        return a if truth(c) else b
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        if any(is_fp_special(v) and not math.isnan(v) for v in (a, b)):
            return a if branch(c.e) else b
        (x, fx), (y, fy) = opt_parts(a), opt_parts(b)
        return mk_opt(ite(c, x, y), z3.If(c.e, fx, fy))
    if is_fp_special(a) or is_fp_special(b) or not (is_num(a) and is_num(b)):
        if isinstance(a, (SymStr, str, bytes)) and isinstance(b, (SymStr, str, bytes)):
            return SymStr(z3.If(c.e, to_str(a), to_str(b)), getattr(a, "kind", getattr(b, "kind", "str")))
        return a if branch(c.e) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mk(z3.If(c.e, as_z3_bool(a), as_z3_bool(b)))
    x, y = _coerce(a, b)
    return mk(z3.If(c.e, x, y))


class SymOpt(Sym):
    """A float that may be NaN: the real v where fin holds, NaN elsewhere."""
    __slots__ = ("v", "fin")
    __array_ufunc__ = None

    def __init__(self, v, fin):
        self.v, self.fin = v, fin

    def __hash__(self): return 0
    def __repr__(self): return f"<SymOpt {self.v} if {self.fin}>"
    def __deepcopy__(self, memo): return self
    def __neg__(self): return mk_opt(-self.v, self.fin)
    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)


def opt_parts(x):
    if isinstance(x, SymOpt):
        return x.v, x.fin
    if is_fp_special(x):
        if math.isnan(x):
            return 0.0, z3.BoolVal(False)
        raise Unsupported("infinity mixed with a possibly missing value")
    return x, z3.BoolVal(True)


def mk_opt(v, fin):
    fin = z3.simplify(fin)
    if z3.is_true(fin):
        return v
    if z3.is_false(fin):
        return float("nan")
    if is_fp_special(v):
        if math.isnan(v):
            return v
        return v if branch(fin) else float("nan")
    return SymOpt(v, fin)


class SymNumBase(Sym):
    __slots__ = ("e",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __floordiv__(self, o): return binop("//", self, o)
    def __rfloordiv__(self, o): return binop("//", o, self)
    def __mod__(self, o): return binop("%", self, o)
    def __rmod__(self, o): return binop("%", o, self)
    def __pow__(self, o): return binop("**", self, o)
    def __rpow__(self, o): return binop("**", o, self)
    def __neg__(self): return mk(-to_arith(self))
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __bool__(self): return truth(self)
    def __hash__(self): return 0
    def __index__(self): return force_int(self)
    def __repr__(self): return f"<{type(self).__name__} {str(self.e)[:60]}>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class SymInt(SymNumBase):
    __slots__ = ()

    def to_bytes(self, *a, **k):
        raise Unsupported("int.to_bytes")


class SymReal(SymNumBase):
    __slots__ = ()


class SymBool(SymNumBase):
    __slots__ = ()
    def __and__(self, o): return binop("&", self, o)
    def __rand__(self, o): return binop("&", o, self)
    def __or__(self, o): return binop("|", self, o)
    def __ror__(self, o): return binop("|", o, self)
    def __xor__(self, o): return binop("^", self, o)
    def __invert__(self): return mk(z3.Not(self.e))
    def __neg__(self): return mk(-to_arith(self))


def force_int(v):
    raise Unsupported("a symbolic integer is used where Python needs a machine integer")


class SymTerm(Sym):
    """A value of an uninterpreted sort; equality (and maybe a total order)."""
    __slots__ = ("e", "less")

    def __init__(self, e, less=None):
        self.e, self.less = e, less

    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __hash__(self): return 0
    def __repr__(self): return f"<SymTerm {self.e}>"
    def __deepcopy__(self, memo): return self


# ------------------------------------------------------------------ strings
def to_str(v):
    if isinstance(v, SymStr):
        return v.e
    if isinstance(v, bytes):
        return z3.StringVal("".join("\\u{%x}" % b for b in v))
    if isinstance(v, str):
        return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in v))
    raise Unsupported(f"not a string: {type(v).__name__}")


def str_kind(v):
    return v.kind if isinstance(v, SymStr) else ("bytes" if isinstance(v, bytes) else "str")


def str_binop(op, a, b):
    isstr = lambda x: isinstance(x, (SymStr, str, bytes))
    if op == "+" and isstr(a) and isstr(b):
        if str_kind(a) != str_kind(b):
            raise TypeError("can't concat str and bytes")
        return SymStr(z3.Concat(to_str(a), to_str(b)), str_kind(a))
    if op == "*":
        raise Unsupported("string repetition")
    if op == "%":
        raise Unsupported("string formatting")
    return NotImplemented


def str_compare(op, a, b):
    isstr = lambda x: isinstance(x, (SymStr, str, bytes))
    if not (isstr(a) and isstr(b)) or str_kind(a) != str_kind(b):
        if op == "==":
            return False
        if op == "!=":
            return True
        raise TypeError("unorderable types")
    x, y = to_str(a), to_str(b)
    return mk({"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
               ">": lambda: y < x, ">=": lambda: y <= x}[op]())


class SymStr(Sym):
    __slots__ = ("e", "kind")

    def __init__(self, e, kind="str"):
        self.e, self.kind = e, kind

    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __bool__(self): return truth(self)
    def __hash__(self): return 0
    def __repr__(self): return f"<SymStr {str(self.e)[:60]}>"
    def __deepcopy__(self, memo): return self
    def __contains__(self, o): return truth(mk(z3.Contains(self.e, to_str(o))))
    def length(self): return mk(z3.Length(self.e))

    def startswith(self, p):
        if isinstance(p, tuple):
            return mk(z3.Or(*[z3.PrefixOf(to_str(q), self.e) for q in p]))
        return mk(z3.PrefixOf(to_str(p), self.e))

    def endswith(self, p):
        return mk(z3.SuffixOf(to_str(p), self.e))

    def encode(self, *a):
        # utf-8 identified with the code points: an abstraction of the encoding
        if self.kind != "str":
            raise AttributeError("encode")
        return SymStr(self.e, "bytes")

    def decode(self, *a):
        if self.kind != "bytes":
            raise AttributeError("decode")
        return SymStr(self.e, "str")

    def __getitem__(self, i):
        n = z3.Length(self.e)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("stepped slice of a string")

            def norm(x, dflt):
                if x is None:
                    return dflt
                x = to_arith(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            lo, hi = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return SymStr(z3.SubString(self.e, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))), self.kind)
        x = to_arith(i)
        x = z3.If(x < 0, x + n, x)
        if branch(z3.Or(x < 0, x >= n)):
            raise IndexError("string index out of range")
        if self.kind == "bytes":
            return mk(z3.StrToCode(z3.SubString(self.e, x, 1)))
        return SymStr(z3.SubString(self.e, x, 1), self.kind)


# ------------------------------------------------- generic-element arrays
class SymVec(Sym):
    """A NumPy array whose first axis has a known length and symbolic rows."""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, items, dtype=None):
        import numpy as np
        self.items, self.dtype = list(items), np.dtype(dtype if dtype is not None else "float64")

    def __hash__(self): return 0
    def __repr__(self): return f"<SymVec {self.items}>"
    def __deepcopy__(self, memo): return SymVec(self.items, self.dtype)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter([self._item(i) for i in range(len(self.items))])

    def _item(self, i):
        v = self.items[i]
        return v if isinstance(v, (SymArr, SymVec)) else SymArr(v, "np", self.dtype, None)

    def _idx(self, i):
        if isinstance(i, tuple):
            if len(i) == 2 and i[1] is Ellipsis:
                return i[0]
            raise Unsupported("index of a small array")
        return i

    def __getitem__(self, i):
        i = self._idx(i)
        if isinstance(i, slice):
            return SymVec(self.items[i], self.dtype)
        if isinstance(i, int):
            return self._item(i)
        raise Unsupported("index of a small array")

    def __setitem__(self, i, v):
        i = self._idx(i)
        if not isinstance(i, int):
            raise Unsupported("write to a small array")
        v = _other(v)
        self.items[i] = v.el if isinstance(v, SymArr) and v.space is None else v

    def copy(self): return SymVec(self.items, self.dtype)
    def astype(self, d, copy=True): return SymVec(self.items, d)

    @property
    def shape(self):
        if all(not isinstance(v, SymVec) and getattr(v, "space", None) is None for v in self.items):
            return (len(self.items),)
        raise Unsupported("shape of a small array of arrays")

    def __neg__(self): return vec_map(lambda x: -x, self)
    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)


def vec_map(f, *args, dtype=None):
    import numpy as np
    n = {len(a.items) for a in args if isinstance(a, SymVec)}
    if len(n) != 1:
        raise ValueError("operands could not be broadcast together")
    n = n.pop()
    cols = []
    for a in args:
        if isinstance(a, SymVec):
            cols.append([a._item(i) for i in range(n)])
        elif isinstance(a, np.ndarray) and a.ndim == 1 and len(a) == n:
            cols.append([SymArr(x.item(), "np", a.dtype, None) for x in a])
        elif isinstance(a, np.ndarray) and a.ndim:
            raise Unsupported("mixed small arrays")
        else:
            cols.append([a] * n)
    out = [f(*xs) for xs in zip(*cols)]
    d = dtype or next((o.dtype for o in out if isinstance(o, (SymArr, SymVec))), None)
    return SymVec([o.el if isinstance(o, SymArr) and o.space is None else o for o in out], d)


class Space:
    """An index space: the generic element of an array over it is one symbol.

    Two arrays over the same Space have the same shape.  A reduction over a
    space is a linear functional on the elementwise terms (see moments)."""
    _n = 0

    def __init__(self, name, rank=None, dims=None):
        self.name, self.rank, self.dims = name, rank, dims

    def __repr__(self):
        return f"Space({self.name})"


class SymArr(Sym):
    """An array known by its generic element.

    kind 'np' (numpy.ndarray) or 'tf' (tf.Tensor); space None means a scalar
    (shape ()).  el is a scalar symbolic or concrete Python value."""
    __slots__ = ("el", "kind", "dtype", "space")
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, el, kind="np", dtype=None, space=None):
        self.el, self.kind, self.dtype, self.space = el, kind, dtype, space

    def __add__(self, o): return arr_binop("+", self, o)
    def __radd__(self, o): return arr_binop("+", o, self)
    def __sub__(self, o): return arr_binop("-", self, o)
    def __rsub__(self, o): return arr_binop("-", o, self)
    def __mul__(self, o): return arr_binop("*", self, o)
    def __rmul__(self, o): return arr_binop("*", o, self)
    def __truediv__(self, o): return arr_binop("/", self, o)
    def __rtruediv__(self, o): return arr_binop("/", o, self)
    def __floordiv__(self, o): return arr_binop("//", self, o)
    def __mod__(self, o): return arr_binop("%", self, o)
    def __pow__(self, o): return arr_binop("**", self, o)
    def __and__(self, o): return arr_binop("&", self, o)
    def __or__(self, o): return arr_binop("|", self, o)
    def __invert__(self): return arr_map(lambda x: (not x) if isinstance(x, bool) else mk(z3.Not(as_z3_bool(x))), self)
    def __neg__(self): return arr_map(lambda x: -x, self)
    def __abs__(self): return arr_map(sabs, self)
    def __eq__(self, o): return arr_compare("==", self, o)
    def __ne__(self, o): return arr_compare("!=", self, o)
    def __lt__(self, o): return arr_compare("<", self, o)
    def __le__(self, o): return arr_compare("<=", self, o)
    def __gt__(self, o): return arr_compare(">", self, o)
    def __ge__(self, o): return arr_compare(">=", self, o)
    def __bool__(self): return truth(self)
    def __hash__(self): return 0
    def __repr__(self): return f"<SymArr {self.kind} {self.el!r} {self.dtype} {self.space}>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def el_of(v):
    if isinstance(v, SymArr):
        return v.el
    return v


def _join_space(a, b):
    sa = a.space if isinstance(a, SymArr) else None
    sb = b.space if isinstance(b, SymArr) else None
    if sa is None:
        return sb
    if sb is None or sb is sa:
        return sa
    da, db = sa.dims, sb.dims
    if da and db:
        if len(da) < len(db) and db[-len(da):] == da:
            return sb
        if len(db) < len(da) and da[-len(db):] == db:
            return sa
    raise Unsupported(f"broadcast of {sa} with {sb}")


def _dtype_join(op, a, b):
    import numpy as np
    da = a.dtype if isinstance(a, SymArr) else None
    db = b.dtype if isinstance(b, SymArr) else None
    if da is None or db is None:
        d = da if da is not None else db
        o = b if da is not None else a
        if d is None:
            return None
        kind = (a if isinstance(a, SymArr) else b).kind
        if kind == "np":
            nd = np.dtype(d)
            if isinstance(o, (float, np.floating, SymReal)) and nd.kind in "iub":
                return np.dtype(np.float64)
            if op == "/" and nd.kind in "iub":
                return np.dtype(np.float64)
        return d
    if isinstance(a, SymArr) and a.kind == "np" and isinstance(b, SymArr) and b.kind == "np":
        r = np.promote_types(da, db)
        if op == "/" and r.kind in "iub":
            r = np.dtype(np.float64)
        return r
    if da != db:
        raise Unsupported(f"mixed dtypes {da} {db}")
    return da


def _other(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return v.item() if v.dtype.kind != "f" else float(v)
        if v.size and (v == v.flat[0]).all():
            return v.flat[0].item()
        raise Unsupported("operation of a symbolic array with a concrete array")
    try:
        import tensorflow as tf
        if isinstance(v, tf.Tensor):
            return _other(v.numpy())
    except ImportError:
        pass
    return v


def arr_binop(op, a, b):
    a, b = _other(a), _other(b)
    sp = _join_space(a, b)
    kind = (a if isinstance(a, SymArr) else b).kind
    dt = _dtype_join(op, a, b)
    x, y = el_of(a), el_of(b)
    if isinstance(x, (SymStr, str, bytes)) or isinstance(y, (SymStr, str, bytes)):
        return SymArr(str_binop(op, x, y), kind, dt, sp)
    return SymArr(binop(op, x, y, ieee=True), kind, dt, sp)


def arr_compare(op, a, b):
    import numpy as np
    if a is None or b is None:
        if op in ("==", "!="):
            return op == "!="
    a, b = _other(a), _other(b)
    sp = _join_space(a, b)
    kind = (a if isinstance(a, SymArr) else b).kind
    r = compare(op, el_of(a), el_of(b))
    return SymArr(r, kind, bool_dtype(kind), sp)


def bool_dtype(kind):
    import numpy as np
    if kind == "np":
        return np.dtype(bool)
    import tensorflow as tf
    return tf.bool


def arr_map(f, *args, dtype=None):
    """Applies scalar f elementwise; result keeps the first array's dtype."""
    if any(isinstance(a, SymVec) for a in args):
        return vec_map(lambda *xs: arr_map(f, *xs, dtype=dtype), *args, dtype=dtype)
    args = [_other(a) for a in args]
    arrs = [a for a in args if isinstance(a, SymArr)]
    if not arrs:
        return f(*args)
    sp = None
    for a in arrs:
        sp = _join_space(SymArr(None, space=sp), a)
    return SymArr(f(*[el_of(a) for a in args]), arrs[0].kind, dtype if dtype is not None else arrs[0].dtype, sp)


def is_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if hasattr(type(v), "_pyvc_symbolic"):
        return True
    if depth:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(is_sym(x, depth - 1) for x in v)
        if isinstance(v, dict):
            return any(is_sym(x, depth - 1) for x in v.values()) or any(is_sym(x, depth - 1) for x in v.keys())
    return False
