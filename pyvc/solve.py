"""Back ends that discharge obligations: ring normal form, z3, z3-nlsat, cvc5."""
import fractions
import os
import subprocess
import tempfile
import time

import z3

F = fractions.Fraction
STATS = {}  # backend -> [count, seconds]
CVC5 = "/opt/veriftools/bin/cvc5"


def _stat(b, dt):
    s = STATS.setdefault(b, [0, 0.0])
    s[0] += 1
    s[1] += dt


# ------------------------------------------------- rational normal form
class TooBig(Exception):
    pass


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(d.items()))


def _pmul(p, q):
    if len(p) * len(q) > 200000:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): F(1)}


def _ratfun(e, memo, keep):
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = _ratfun1(e, memo, keep)
    memo[k] = r
    keep.append(e)
    return r


def _ratfun1(e, memo, keep):
    if z3.is_int_value(e):
        return ({(): F(e.as_long())} if e.as_long() else {}), ONE
    if z3.is_rational_value(e):
        f = F(e.numerator_as_long(), e.denominator_as_long())
        return ({(): f} if f else {}), ONE
    k = e.decl().kind() if z3.is_app(e) else None
    ch = e.children() if z3.is_app(e) else []
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = _ratfun(ch[0], memo, keep)
        for c in ch[1:]:
            n2, d2 = _ratfun(c, memo, keep)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2:
                n = _padd(n, n2, s)
            else:
                n = _padd(_pmul(n, d2), _pmul(n2, d), s)
                d = _pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = _ratfun(ch[0], memo, keep)
        return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = ONE, ONE
        for c in ch:
            n2, d2 = _ratfun(c, memo, keep)
            n, d = _pmul(n, n2), _pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = _ratfun(ch[0], memo, keep)
        n2, d2 = _ratfun(ch[1], memo, keep)
        return _pmul(n, d2), _pmul(d, n2)
    if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])) and 0 <= z3.simplify(ch[1]).as_long() <= 8:
        n, d = ONE, ONE
        b = _ratfun(ch[0], memo, keep)
        for _ in range(z3.simplify(ch[1]).as_long()):
            n, d = _pmul(n, b[0]), _pmul(d, b[1])
        return n, d
    if k == z3.Z3_OP_TO_REAL:
        return _ratfun(ch[0], memo, keep)
    keep.append(e)
    return {((e.get_id(), 1),): F(1)}, ONE


def ring_equal(a, b):
    """True if a == b as rational functions (all denominators non-zero)."""
    try:
        memo, keep = {}, []
        n1, d1 = _ratfun(a, memo, keep)
        n2, d2 = _ratfun(b, memo, keep)
        if not d1 or not d2:
            return False
        return not _padd(_pmul(n1, d2), _pmul(n2, d1), -1)
    except TooBig:
        return False


def _conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out.extend(_conjuncts(c))
        return out
    return [g]


def prove(pc, goal, timeout_s=8.0):
    """Is goal implied by pc?  -> (status, backend, seconds, model)."""
    t0 = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        _stat("simplifier", time.time() - t0)
        return "proved", "simplifier", time.time() - t0, None
    parts = _conjuncts(goal)
    if len(parts) > 1:
        bs = []
        for g in parts:
            st, b, dt, m = prove(pc, g, timeout_s)
            if st != "proved":
                return st, b, time.time() - t0, m
            bs.append(b)
        return "proved", "+".join(sorted(set(bs))), time.time() - t0, None
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        t = time.time()
        if ring_equal(goal.arg(0), goal.arg(1)):
            _stat("ring", time.time() - t)
            return "proved", "ring", time.time() - t0, None
    status, model, backend = "unknown", None, "z3"
    budget = timeout_s
    for name, mk in (("z3", lambda: z3.Solver()),
                     ("z3-nlsat", lambda: z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver())):
        if name == "z3-nlsat" and _has_strings_or_quant(pc + [goal]):
            continue
        t = time.time()
        try:
            s = mk()
            s.set("timeout", int(1000 * budget))
            for c in pc:
                s.add(c)
            s.add(z3.Not(goal))
            r = s.check()
        except z3.Z3Exception:
            continue
        _stat(name, time.time() - t)
        if r == z3.unsat:
            return "proved", name, time.time() - t0, None
        if r == z3.sat:
            try:
                model = s.model()
            except z3.Z3Exception:
                model = None
            return "refuted", name, time.time() - t0, model
        budget = max(2.0, timeout_s)
    t = time.time()
    r = cvc5_check(pc + [z3.Not(goal)], timeout_s)
    _stat("cvc5", time.time() - t)
    if r == "unsat":
        return "proved", "cvc5", time.time() - t0, None
    return status, backend, time.time() - t0, None


def satisfiable(pc, timeout_s=5.0):
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    for c in pc:
        s.add(c)
    return str(s.check())


def _has_strings_or_quant(fs):
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        if z3.is_string(e) or z3.is_seq(e):
            return True
        st.extend(e.children())
    return False


def cvc5_check(fs, timeout_s):
    exe = CVC5 if os.path.exists(CVC5) else "cvc5"
    s = z3.Solver()
    for c in fs:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        r = subprocess.run([exe, f"--tlimit={int(timeout_s * 1000)}", "--nl-cov", "--strings-exp", f.name],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return out
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass
