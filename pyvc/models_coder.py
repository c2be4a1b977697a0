"""Assumed contracts of struct, json, os.path and text codecs on symbolic text.

struct: integers of a fixed width are an uninterpreted encoding of that width
with an inverse; "<n>s" is the n bytes of its value.  json: loads is the
inverse of dumps on JSON values (lists, numbers, text; a tuple comes back as a
list); bytes and arrays cannot be written.  Text codecs keep the characters."""
import json
import os
import re
import string
import struct

import numpy as np
import tensorflow as tf
import z3

from . import core, models
from .core import Sym, SymArr, SymInt, SymReal, SymBool, SymStr, Unsupported, is_sym, mk

WIDTH = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8}


class Listed(Sym):
    """arr.tolist(): nested lists of the entries of an array."""

    def __init__(self, arr):
        self.arr = arr

    def __hash__(self): return 0
    def __deepcopy__(self, memo): return self


def parts(e):
    """The segments of a concatenation."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [q for c in e.children() for q in parts(c)]
    return [e]


WIDTHS = {}    # encoding function name -> width
LONGEST = 2 ** 62   # no string of a Python process is longer


def lengths_only(e, memo, vars_):
    """e with the length of every text replaced by a number, or None."""
    if e.get_id() in memo:
        return memo[e.get_id()]
    r = None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        t = e.arg(0)
        seg = parts(t)
        if len(seg) > 1:
            r = z3.Sum(*[lengths_only(z3.Length(x), memo, vars_) for x in seg])
        elif z3.is_string_value(t):
            r = lengths_only(z3.simplify(e), memo, vars_)
        elif z3.is_app(t) and t.decl().name() in WIDTHS:
            r = z3.IntVal(WIDTHS[t.decl().name()])
        else:
            r = z3.Int(f"len!{t.get_id()}")
            vars_.append(r)
    elif not any(_texty(c) for c in e.children()):
        if e.num_args() == 0:
            r = e
        else:
            cs = [lengths_only(c, memo, vars_) for c in e.children()]
            r = None if any(c is None for c in cs) else e.decl()(*cs)
    memo[e.get_id()] = r
    return r


def _texty(c):
    return z3.is_string(c) or z3.is_re(c)


def proved(c, full=False):
    """Is c true by the lengths of the texts involved alone?  (full: or by
    everything known on the path)"""
    if z3.is_true(z3.simplify(c)):
        return True
    vs = []
    f = lengths_only(c, {}, vs)
    if f is not None:
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add([z3.And(v >= 0, v < LONGEST) for v in vs])
        s.add(z3.Not(f))
        if s.check() == z3.unsat:
            return True
    return full and not core._feasible(core.cur(), z3.Not(c))


def decided(c):
    """A branch decided by lengths when possible."""
    if proved(c):
        return True
    if proved(z3.Not(c)):
        return False
    return core.branch(c)


def slice_parts(s, lo, hi):
    """s[lo:hi] when both ends fall between segments, else None."""
    seg = parts(s.e)
    if len(seg) < 2:
        return None
    at, cum = [z3.IntVal(0)], z3.IntVal(0)
    for x in seg:
        cum = cum + z3.Length(x)
        at.append(cum)
    i = next((k for k, c in enumerate(at) if proved(c == lo)), None)
    if i is None:
        return None
    j = len(seg) if hi is None else next((k for k, c in enumerate(at) if k >= i and proved(c == hi)), None)
    if j is None:
        return None
    r = seg[i:j]
    return SymStr(z3.StringVal("") if not r else r[0] if len(r) == 1 else z3.Concat(*r), s.kind)


def tokens(fmt):
    """[(count, code)] of a struct format, counts possibly symbolic."""
    raw = []
    if isinstance(fmt, (str, bytes)):
        raw = [fmt if isinstance(fmt, str) else fmt.decode()]
    elif isinstance(fmt, SymStr):
        for x in parts(z3.simplify(fmt.e) if not parts(fmt.e)[1:] else fmt.e):
            if z3.is_string_value(x):
                raw.append(x.as_string())
            elif z3.is_app(x) and x.decl().name() == "str.from_int":
                raw.append(mk(x.arg(0)))
            else:
                raise Unsupported("a struct format of unknown text")
    out, n, order = [], None, "@"
    for r in raw:
        if not isinstance(r, str):
            n = r
            continue
        for c in r:
            if c in "@=<>!" and not out:
                order = c
            elif c.isdigit():
                if n is not None and not isinstance(n, int):
                    raise Unsupported("a struct count of mixed text")
                n = (n or 0) * 10 + int(c)
            elif c == "s":
                out.append((1 if n is None else n, "s"))
                n = None
            elif c in WIDTH:
                out += [(1, c)] * (1 if n is None else n)
                n = None
            elif not c.isspace():
                raise Unsupported(f"struct code {c}")
    fixed = [c for _, c in out if c != "s"]
    if order == "@":
        k = 0
        for cnt, c in out:
            if c == "s":
                k = None
            elif k is None or k % WIDTH[c]:
                if WIDTH[c] > 1:
                    raise Unsupported("struct alignment")
            else:
                k += WIDTH[c]
    return out, order


def enc(code, order):
    return z3.Function(f"struct_{order}{code}", z3.IntSort(), z3.StringSort())


def dec(code, order):
    return z3.Function(f"unstruct_{order}{code}", z3.StringSort(), z3.IntSort())


def pack(fmt, *vals):
    toks, order = tokens(fmt)
    if len(toks) != len(vals):
        raise struct.error("pack expected another number of items")
    out = []
    for (n, c), v in zip(toks, vals):
        if c == "s":
            if not (isinstance(v, bytes) or isinstance(v, SymStr) and v.kind == "bytes"):
                raise struct.error("argument for 's' must be a bytes object")
            e = core.to_str(v)
            ln, k = z3.Length(e), core.to_arith(n)
            if decided(ln == k):
                out.append(e)
            elif decided(ln > k):
                out.append(z3.SubString(e, 0, k))
            else:
                raise Unsupported("padded bytes")
        else:
            x = core.to_arith(v)
            bits = 8 * WIDTH[c]
            lo, hi = (0, 2 ** bits) if c.isupper() else (-2 ** (bits - 1), 2 ** (bits - 1))
            if decided(z3.Or(x < lo, x >= hi)):
                raise struct.error("argument out of range")
            e = enc(c, order)(x)
            WIDTHS[e.decl().name()] = WIDTH[c]
            core.assume(z3.Length(e) == WIDTH[c])
            core.assume(dec(c, order)(e) == x)
            out.append(e)
    return SymStr(out[0] if len(out) == 1 else z3.Concat(*out), "bytes")


def unpack_from(fmt, buf, offset=0):
    toks, order = tokens(fmt)
    total = z3.IntVal(0)
    for n, c in toks:
        total = total + (core.to_arith(n) if c == "s" else WIDTH[c])
    have = z3.Length(core.to_str(buf))
    o = core.to_arith(offset)
    if decided(have - o < total):
        raise struct.error("unpack_from requires a larger buffer")
    out = []
    for n, c in toks:
        w = core.to_arith(n) if c == "s" else z3.IntVal(WIDTH[c])
        piece = core_slice(SymStr(core.to_str(buf), "bytes"), o, o + w)
        o = z3.simplify(o + w)
        if c == "s":
            out.append(piece)
        else:
            out.append(mk(dec(c, order)(piece.e)))
            if z3.is_app(piece.e) and piece.e.decl().eq(enc(c, order)):
                out[-1] = mk(piece.e.arg(0))
    return tuple(out)


def core_slice(s, lo, hi):
    r = slice_parts(s, lo, hi)
    return r if r is not None else SymStr(z3.SubString(s.e, lo, hi - lo), s.kind)


def getitem(s, i):
    """Slices of text with ends between its segments; None if not such."""
    if not isinstance(i, slice) or i.step not in (None, 1):
        return None
    lo = z3.IntVal(0) if i.start is None else core.to_arith(i.start)
    hi = None if i.stop is None else core.to_arith(i.stop)
    n = z3.Length(s.e)
    if not proved(lo >= 0) or hi is not None and not proved(z3.And(hi >= 0, hi <= n)):
        return None
    return slice_parts(s, lo, hi)


# --------------------------------------------------------------------- json
REG = {}


def jsonable(x):
    if isinstance(x, SymStr):
        if x.kind == "bytes":
            raise TypeError("Object of type bytes is not JSON serializable")
        return x
    if isinstance(x, (SymInt, SymReal, SymBool, Listed)):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {jsonable(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, Sym):
        raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")
    return json.loads(json.dumps(x))


def copy(x):
    if isinstance(x, list):
        return [copy(v) for v in x]
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return x


def dumps(x, **k):
    if set(k) - {"sort_keys", "indent", "separators"}:
        raise Unsupported("json.dumps options")
    j = jsonable(x)
    s = z3.String(core.fresh_name("json"))
    REG[s.get_id()] = (s, j)
    return SymStr(s, "str")


def loads(s, **k):
    e = z3.simplify(core.to_str(s))
    if e.get_id() not in REG or k:
        raise Unsupported("json.loads of text not written by json.dumps")
    return copy(REG[e.get_id()][1])


# --------------------------------------------------------------------- text
def as_bytes(x, *a, **k):
    if isinstance(x, SymStr):
        return SymStr(x.e, "bytes")
    raise TypeError("Expected binary or unicode string")


def as_text(x, *a, **k):
    if isinstance(x, SymStr):
        return SymStr(x.e, "str")
    raise TypeError("Expected binary or unicode string")


def replace(s, a, b, *k):
    """s.replace(a, b) when it is decided whether a occurs."""
    if k or is_sym(a) or is_sym(b):
        raise Unsupported("str.replace")
    if proved(z3.Not(z3.Contains(s.e, core.to_str(a))), full=True):
        return s
    core.cur().abstract = True
    return SymStr(z3.String(core.fresh_name("replaced")), s.kind)


def join(a, *ps):
    path = core.to_str(a)
    for p in ps:
        b = core.to_str(p)
        if core.branch(z3.PrefixOf(z3.StringVal("/"), b)):
            path = b
        elif core.branch(z3.Or(path == z3.StringVal(""), z3.SuffixOf(z3.StringVal("/"), path))):
            path = z3.Concat(path, b)
        else:
            path = z3.Concat(path, z3.StringVal("/"), b)
    return SymStr(path)


def fmt_int(v):
    e = core.to_arith(v)
    if proved(e >= 0):
        return SymStr(z3.IntToStr(e))
    return SymStr(z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e))))


def str_format(fmt, *args, **kwargs):
    if not isinstance(fmt, str):
        return None
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if not re.fullmatch(r"\w*", field) or spec or conv not in (None, "s"):
            return None
        if field == "":
            v = args[auto]
            auto += 1
        else:
            v = args[int(field)] if field.isdigit() else kwargs[field]
        if isinstance(v, SymStr) and v.kind == "str":
            out.append(v)
        elif isinstance(v, SymInt):
            out.append(fmt_int(v))
        elif is_sym(v):
            return None
        else:
            out.append(str(v))
    es = [core.to_str(x) for x in out]
    return SymStr(es[0] if len(es) == 1 else z3.Concat(*es)) if es else ""


def install(ip):
    reg = ip.model
    reg(struct.pack)(pack)
    reg(struct.unpack_from)(unpack_from)

    @reg(struct.unpack)
    def _unpack(fmt, buf):
        r = unpack_from(fmt, buf)
        return r
    reg(json.dumps)(dumps)
    reg(json.loads)(loads)
    reg(tf.compat.as_bytes)(as_bytes)
    reg(tf.compat.as_text, tf.compat.as_str)(as_text)
    reg(tf.compat.as_str_any)(as_text)
    reg(os.path.join)(join)

    prev = ip.sym_attr

    def attr(o, name):
        if isinstance(o, SymArr) and name == "tolist":
            return models.BoundModel(lambda: Listed(o))
        if isinstance(o, SymStr) and name == "replace":
            return models.BoundModel(lambda *a: replace(o, *a))
        return prev(o, name)
    ip.sym_attr = attr

    arr_prev = models.np_array

    def array(x, *a, **k):
        if isinstance(x, Listed):
            if a or any(v is not None for v in k.values()):
                raise Unsupported("np.array of a list with options")
            return x.arr
        return arr_prev(x, *a, **k)
    reg(np.array, np.asarray)(array)

    getitem_prev = ip.getitem

    def gi(o, i):
        if isinstance(o, SymStr):
            r = getitem(o, i)
            if r is not None:
                return r
        return getitem_prev(o, i)
    ip.getitem = gi

    fmt_prev = ip.str_format

    def sf(fmt, *args, **kwargs):
        r = str_format(fmt, *args, **kwargs)
        return r if r is not None else fmt_prev(fmt, *args, **kwargs)
    ip.str_format = sf
