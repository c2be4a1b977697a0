"""C04: L-moments combine as pair-weighted averages; the Gaussianizing map is
the monotone inverse of the Tukey HH transform.

Abstraction: an accumulator stands, for each order r = 1..4, for the number
c_r of r-tuples seen and the sum c_r * l_r over them."""
import itertools
import math

import numpy as np
import tensorflow as tf

from tensorflow_transform import analyzers, gaussianization, mappers, tf_utils
from contracts import e2e
from pyvc.harness import unit, Raised

P = "C04"
Comb = analyzers._LMomentsCombiner
Acc = analyzers._LMomentsAccumulator
T = [Comb, Acc, analyzers._pad_arrays_to_match]
TB = [tf_utils.reduce_batch_count_l_moments, tf_utils._num_terms_and_factors, tf_utils._iteration_l_moments_dense,
      tf_utils._iteration_l_moments_sparse, tf_utils._condition_l_moments_dense, tf_utils._condition_l_moments_sparse]
TG = [gaussianization.compute_tukey_hh_params, gaussianization._binary_search, gaussianization._params_to_errors,
      gaussianization._tukey_hh_l_skewness_and_kurtosis]


def draw(E, tag, sp, nan=False):
    cs = [E.arr(f"c{r}{tag}", space=sp, dtype="float64", lo=0) for r in range(1, 5)]
    if not E.symbolic:
        cs = [np.asarray(c).round() for c in cs]
    # without samples there are no tuples either
    cs = cs[:1] + [E.map(lambda c, n: E.ite(n > 0, c, 0.0), c, cs[0]) for c in cs[1:]]
    empty = float("nan") if nan else 0.0
    ls = [E.map(lambda l, c: E.ite(c > 0, l, empty), E.arr(f"l{r}{tag}", space=sp), c) for r, c in zip(range(1, 5), cs)]
    return cs, ls


def z(E, x):
    return 0.0 if E.isnan(x) else x


@unit(P, "adding a batch weights each L-moment by its number of tuples", T, conc=200)
def add_input(E):
    sp = E.choice("space", [None, "feat"])
    c = E.new(Comb, np.float64, () if sp is None else (None,))
    nan = E.choice("nan", [False, True]) if sp is None else False
    (ca, la), (cb, lb) = draw(E, "a", sp, nan), draw(E, "b", sp, nan)
    r = E.call(c.add_input, E.new(Acc, *ca, *la), [*cb, *lb])
    for i in range(4):
        E.elementwise(f"count of order {i + 1}", lambda x, a, b: E.eq(x, a + b), r[i], ca[i], cb[i])
        E.elementwise(f"L-moment of order {i + 1}",
                      lambda l, a, b, p, q: E.Or(E.eq(a + b, 0), False if E.isnan(l) else E.eq(
                          l * (a + b), a * z(E, p) + b * z(E, q))), r[4 + i], ca[i], cb[i], la[i], lb[i])


@unit(P, "an empty part is neutral, exactly", T, conc=100)
def neutral(E):
    sp = E.choice("space", [None, "feat"])
    c = E.new(Comb, np.float64, () if sp is None else (None,))
    ca, la = draw(E, "a", sp)
    E.assume(E.Not(E.eq(E.total(ca[0]), 0)))
    e = E.call(E.new(Comb, np.float64, E.choice("shape", [(), (None,)])).create_accumulator)
    E.check("a fresh accumulator has seen nothing", all(np.all(np.asarray(v) == 0) for v in e))
    accs = [E.new(Acc, *ca, *la), e]
    r = E.call(c.merge_accumulators, accs if E.choice("order", [True, False]) else accs[::-1])
    for i in range(4):
        E.elementwise(f"count {i + 1}", lambda x, y: E.eq(x, y), r[i], ca[i])
        E.elementwise(f"l{i + 1}", lambda x, y, k: E.Or(E.eq(k, 0), E.eq(x, y)), r[4 + i], la[i], ca[i])


@unit(P, "merging any number of parts, in sequence", T, conc=150, timeout_s=10)
def merge_many(E):
    c = E.new(Comb, np.float64, ())
    if not E.symbolic:
        parts = [draw(E, f"p{i}", None) for i in range(E.int("k", 1, 6))]
        r = E.call(c.merge_accumulators, [Acc(*cs, *ls) for cs, ls in parts])
        for i in range(4):
            n = sum(float(cs[i]) for cs, _ in parts)
            E.check(f"count {i + 1}", E.eq(float(r[i]), n))
            E.check(f"l{i + 1}", n == 0 or E.eq(float(r[4 + i]), sum(float(cs[i]) * float(ls[i]) for cs, ls in parts) / n))
        return
    import z3
    from pyvc import core
    F = [z3.Function(f"prefix_{x}{i}", z3.IntSort(), z3.RealSort()) for x in "cl" for i in range(4)]
    core.assume(z3.And(*[f(0) == 0 for f in F]))

    def elem(e):
        cs = [e.arr(f"c{i}", lo=0) for i in range(4)]
        ls = [e.arr(f"l{i}") for i in range(4)]
        for i in range(4):
            e.assume(E.Implies(E.eq(cs[0], 0), E.eq(cs[i], 0)))
            e.assume(E.Implies(E.eq(cs[i], 0), E.eq(ls[i], 0)))
            C, L = core.to_real(cs[i].el), core.to_real(ls[i].el)
            core.assume(z3.And(F[i](e.i) >= 0, F[i](e.i + 1) == F[i](e.i) + C, F[4 + i](e.i + 1) == F[4 + i](e.i) + C * L))
        return Acc(*cs, *ls)

    def inv(st, k):
        k = core.to_arith(k)
        out = []
        for a in [v for v in st.values() if isinstance(v, tuple) and hasattr(v, "count_l1")]:
            el = lambda x: x.el if hasattr(x, "el") else float(np.asarray(x))
            for i in range(4):
                c_, l_ = el(a[i]), el(a[4 + i])
                out += [E.le(0, c_), E.eq(c_, core.SymReal(F[i](k))), E.eq(c_ * l_, core.SymReal(F[4 + i](k))),
                        E.Implies(E.eq(el(a[0]), 0), E.eq(c_, 0)), E.Implies(E.eq(c_, 0), E.eq(l_, 0))]
        return E.And(*out)

    def havoc(name, v):
        return Acc(*[E.arr(f"h{i}", lo=0 if i < 4 else None) for i in range(8)])
    seq = E.seq("parts", elem, inv, havoc, minlen=1)
    r = E.call(c.merge_accumulators, seq)
    E.check("the merged accumulator represents all parts", inv({"r": r}, core.mk(seq.length)))


def choose(E, n, r):
    return 1 if r == 0 else n if r == 1 else n * (n - 1) * 0.5 if r == 2 else n * (n - 1) * (n - 2) * (1 / 6 if not E.symbolic else frac(1, 6))


def frac(a, b):
    import fractions
    return fractions.Fraction(a, b)


@unit(P, "the weight of the i-th smallest of n values is that of the sample L-moments", [tf_utils._num_terms_and_factors],
      conc=60)
def factors(E):
    if E.symbolic:
        from pyvc import core
        n = E.int("n", 1)
        r = E.call(tf_utils._num_terms_and_factors, core.SymArr(n, "tf", tf.int32, None), tf.float64)
        i = core.SymInt(__import__("z3").Int("i_" + r[5].space.name)) if r[5].space is not None else None
    else:
        n = E.int("n", 1, 30)
        r = E.call(tf_utils._num_terms_and_factors, tf.constant(n), tf.float64)
    counts = [n, n * (n - 1) / 2, n * (n - 1) * (n - 2) / 6, n * (n - 1) * (n - 2) * (n - 3) / 24]
    for k in range(4):
        E.check(f"number of {k + 1}-tuples", E.eq(r[k] if E.symbolic else float(r[k]), counts[k]))
    signs = [[1], [1, -1], [1, -2, 1], [1, -3, 3, -1]]
    C = lambda a, q: 1 if q == 0 else a if q == 1 else a * (a - 1) / 2 if q == 2 else a * (a - 1) * (a - 2) / 6
    for k in range(4):
        f = r[4 + k]
        for j in ([i] if E.symbolic else range(n)):
            if E.symbolic:
                w = f.el
            else:
                w = float(f[j])
            num = sum(s * C(j, k - q) * C(n - 1 - j, q) for q, s in enumerate(signs[k]))
            E.check(f"factor of order {k + 1}", E.Or(n < k + 1, E.eq(w * (counts[k] * (k + 1)), num)))
            # fewer values than the order: l2 of one value is 0
            if k == 1:
                E.check("one value has no scale", E.Or(n > 1, E.eq(w, 0)))


# ------------------------------------------------------------- Tukey HH
@unit(P, "Tukey HH location and scale: the scale is positive", [gaussianization.tukey_hh_l_mean_and_scale], conc=100)
def mean_scale(E):
    hl, hr = E.real("hl", 0, 0.99), E.real("hr", 0, 0.99)
    if E.symbolic:
        from pyvc import core
        h = core.SymVec([hl, hr], "float64")
    else:
        h = np.array([hl, hr])
    m, s = E.call(gaussianization.tukey_hh_l_mean_and_scale, h)
    E.check("scale is positive", s > 0)
    q = E.sqrt
    E.check("mean", E.eq(m * ((1 - hl) * (1 - hr)), (1 / np.sqrt(2 * np.pi)) * (hr - hl)))
    E.check("scale", E.eq(s * ((1 - hl) * (1 - hr) * q(2 - hl) * q(2 - hr)),
                          (1 / np.sqrt(2 * np.pi)) * ((1 - hl) * q(2 - hl) + (1 - hr) * q(2 - hr))))


@unit(P, "binary search keeps its bracket", [gaussianization._binary_search], conc=60)
def bisect(E):
    a, b = E.real("low", 0, 1), E.real("high", 0, 1)
    E.assume(a <= b)
    if E.symbolic:
        import z3
        from pyvc import core
        err = lambda x: core.ufun("error", core.to_real(core.el_of(x)))
        err._pyvc_native = True

        def havoc(v):
            v["low_value"], v["high_value"] = E.real("lo"), E.real("hi")
            v["current_iter"] = E.int("it", 0)
            for n in ("current_value", "current_error"):
                v.pop(n, None)

        def inv(v):
            return E.And(a <= v["low_value"], v["low_value"] <= v["high_value"], v["high_value"] <= b)
        E.loop(gaussianization._binary_search, inv, havoc)
    else:
        t, sl = E.gen("root", lambda r: r.uniform(-0.5, 1.5)), E.gen("slope", lambda r: 10 ** r.uniform(-8, 2))
        err = lambda x: sl * (x - t)
    lo, hi = E.call(gaussianization._binary_search, err, a, b)
    E.check("the result is inside the bracket", E.And(E.le(a, lo), E.le(lo, hi), E.le(hi, b)))
    if not E.symbolic and a <= t <= b and sl > 1e-3:
        E.check("the root stays in the bracket", lo <= t <= hi, (lo, t, hi))
        E.check("the bracket shrinks or an end is a root", hi - lo <= max((b - a) / 2 ** 10 * 1.01, 2e-6) or
                min(abs(err(lo)), abs(err(hi))) < 2e-6, (a, b, lo, hi))


@unit(P, "fitted tail parameters lie in [0, 1)", TG[:1], conc=150)
def fit_range(E):
    sk, ku = E.real("skewness", -0.99, 0.99), E.real("kurtosis", -0.25, 1.2)
    if E.symbolic:  # the threshold constant is rounded: a sliver above it starts the search at -3.5e-8
        E.assume(E.Or(ku < 0.1226017, ku > 0.122602))
    if E.symbolic:
        import z3
        from pyvc import core
        # contracts of the callees: errors are any numbers, a search returns a sub-bracket
        E.stub(gaussianization, "_params_to_errors", lambda h, d, t: core.SymVec([E.real("e0"), E.real("e1")]))

        def search(f, lo, hi):
            E.check("the search bracket is ordered", E.le(lo, hi), kind="pre")
            l, h = E.real("sl"), E.real("sh")
            core.assume(as_b(E.And(lo <= l, l <= h, h <= hi)))
            return l, h
        as_b = core.as_z3_bool
        E.stub(gaussianization, "_binary_search", search)
        x = core.SymVec([sk, ku], "float64")

        def havoc(v):
            for n in ("search_params", "min_search_params", "max_search_params", "previous_search_params"):
                v[n] = core.SymVec([E.real(n + "0"), E.real(n + "1")])
            v["current_iter"] = E.int("it", 0, 20)
            for n in ("error_skewness", "low_delta_h", "high_delta_h", "upperbound_delta_found", "error_kurtosis", "low_h",
                      "high_h", "current_error", "delta_search_params"):
                v.pop(n, None)

        def inv(v):
            s, lo, hi = [[w._item(0).el, w._item(1).el] for w in (v["search_params"], v["min_search_params"], v["max_search_params"])]
            return E.And(0 <= lo[1], lo[1] <= s[1], s[1] <= hi[1], hi[1] <= lo[0], lo[0] <= s[0], s[0] <= hi[0], hi[0] < 1)
        E.loop(gaussianization.compute_tukey_hh_params, inv, havoc)
        old = core.ufun

        def ufun(name, e):
            r = old(name, e)
            if name == "cos":
                # cosine is increasing on [-pi/2, 0]: cos(-1.2309594) > 0.33333334, cos(-pi/3) = 1/2
                t = e
                core.assume(z3.Implies(z3.And(t >= z3.RealVal("-1.2309594"), t <= z3.RealVal("-1.0471996")),
                                       z3.And(r.e >= z3.RealVal("0.33333334"), r.e < z3.RealVal("0.499999"))))
            return r
        core.ufun = ufun
        try:
            r = E.call(gaussianization.compute_tukey_hh_params, x)
        finally:
            core.ufun = old
    else:
        dt = E.gen("dtype", lambda r: r.choice([np.float32, np.float64]))
        r = E.call(gaussianization.compute_tukey_hh_params, np.array([sk, ku], dt))
    a, b = r[0], r[1]
    tol = 1e-6
    E.check("left parameter in [0, 1)", E.And(a >= -tol, a < 1))
    E.check("right parameter in [0, 1)", E.And(b >= -tol, b < 1))
    E.check("the heavier tail is on the side of the skew", E.And(E.Implies(sk >= 0, E.le(a, b)), E.Implies(sk < 0, E.le(b, a))))
    E.check("not long-tailed: both are zero", E.Implies(ku < 0.1226, E.And(E.eq(a, 0), E.eq(b, 0))))
    if not E.symbolic:
        E.cover("fit")


def lskew_kurt(hl, hr, m=200001):
    """L-skewness and L-kurtosis of the Tukey HH variable by quadrature over
    the normal order statistics (an oracle independent of the closed forms)."""
    zz = np.linspace(-12, 12, m)
    w = np.where(zz < 0, zz * np.exp(hl * zz * zz / 2), zz * np.exp(hr * zz * zz / 2))
    phi = np.exp(-zz * zz / 2) / math.sqrt(2 * math.pi)
    F = np.cumsum(phi) * (zz[1] - zz[0])
    F = F - phi * (zz[1] - zz[0]) / 2
    P_ = [np.ones_like(F), 2 * F - 1, 6 * F ** 2 - 6 * F + 1, 20 * F ** 3 - 30 * F ** 2 + 12 * F - 1]
    dz = zz[1] - zz[0]
    return [float(np.sum(w * p * phi) * dz) for p in P_]


@unit(P, "L-moments of the Tukey HH distribution match quadrature; the fit recovers the parameters",
      TG + [gaussianization.tukey_hh_l_mean_and_scale], sym=False, bounded="generated parameters in [0, 0.6]", conc=25, conc_s=4)
def fit(E):
    hl, hr = E.real("hl", 0, 0.6), E.real("hr", 0, 0.6)
    l1, l2, l3, l4 = lskew_kurt(hl, hr, 20001)
    h = np.array([hl, hr])
    m, s = gaussianization.tukey_hh_l_mean_and_scale(h)
    E.check("L-mean and L-scale", abs(m - l1) < 2e-3 * max(1, abs(l1)) and abs(s - l2) < 2e-3 * l2, (m, l1, s, l2))
    sk, ku = gaussianization._tukey_hh_l_skewness_and_kurtosis(h)
    E.check("L-skewness and L-kurtosis", abs(sk - l3 / l2) < 3e-3 and abs(ku - l4 / l2) < 3e-3, (sk, l3 / l2, ku, l4 / l2))
    r = gaussianization.compute_tukey_hh_params(np.array([sk, ku]))
    sk2, ku2 = gaussianization._tukey_hh_l_skewness_and_kurtosis(np.array([r[0], r[1]]))
    E.check("the fitted parameters reproduce the L-moments", abs(sk2 - sk) < 0.1 and abs(ku2 - ku) < 1e-3, (h, r, sk, sk2, ku, ku2))
    E.check("the fitted parameters are those of the distribution", np.allclose(r, h, atol=0.13), (h, r))


def forward(x, hl, hr):
    return np.where(x < 0, x * np.exp(hl * x * x / 2), x * np.exp(hr * x * x / 2))


@unit(P, "inverse_tukey_hh inverts the Tukey HH map and keeps sign and order", [gaussianization.inverse_tukey_hh], conc=100)
def inverse(E):
    if E.symbolic:
        import z3
        from pyvc import core
        # contract of lambert_w: the unique w >= 0 with w e^w = x, increasing in x
        args = []

        def lw(x):
            e = core.to_real(x.el)
            w = core.ufun("lambert_w", e)
            core.assume(z3.Implies(e >= 0, z3.And(w.e >= 0, w.e * core.ufun("exp", w.e).e == e,
                                                  core.ufun("exp", w.e).e >= 1)))
            for e2, w2 in args:
                core.assume(z3.Implies(z3.And(e >= 0, e2 > e), w2 > w.e))
                core.assume(z3.Implies(z3.And(e2 >= 0, e2 < e), w2 < w.e))
            args.append((e, w.e))
            return core.SymArr(w, "tf", x.dtype, x.space)
        E.stub(gaussianization, "lambert_w", lw)
    hl, hr = E.arr("hl", kind="tf", dtype="float64", lo=0, hi=0.99), E.arr("hr", kind="tf", dtype="float64", lo=0, hi=0.99)
    x = E.arr("x", space="batch", kind="tf", dtype="float64", lo=-50, hi=50)
    y = E.call(gaussianization.inverse_tukey_hh, x, hl, hr)
    E.elementwise("the sign is kept", lambda o, v: E.And(E.Implies(v > 0, o > 0), E.Implies(v < 0, o < 0), E.Implies(
        E.eq(v, 0), E.eq(o, 0))), y, x)
    if E.symbolic:
        from pyvc import core

        def inv(o, v, a, b):
            h = core.ite(v < 0, a, b)
            small = h * v * v < 1e-7
            w = core.ufun("lambert_w", core.to_real(h * v * v))
            e = core.ufun("exp", core.to_real(w))
            # with w = h o^2: o^2 e^(h o^2) = v^2, i.e. tukey(o) = v
            return E.Or(E.And(small, E.eq(o, v)), E.And(E.eq(h * o * o, w), E.eq(o * o * e, v * v)))
        E.elementwise("tukey_hh(inverse_tukey_hh(x)) = x", inv, y, x, hl, hr)
    else:
        E.elementwise("tukey_hh(inverse_tukey_hh(x)) = x", lambda o, v, a, b: abs(float(forward(np.array(o), a, b)) - v)
                      <= 1e-5 * max(1, abs(v)), y, x, hl, hr)
    if not E.symbolic:
        v = np.sort(np.unique(x.numpy()))
        u = E.call(gaussianization.inverse_tukey_hh, tf.constant(v), hl, hr).numpy()
        gap = np.diff(v) > 1e-5 * np.maximum(1, np.abs(v[1:]))
        E.check("order is kept", bool(np.all(np.diff(u)[gap] > 0)), (v, u))


@unit(P, "order is kept between any two values", [gaussianization.inverse_tukey_hh], conc=0, timeout_s=10)
def monotone(E):
    if not E.symbolic:
        return
    import z3
    from pyvc import core
    args = []

    def lw(x):
        e = core.to_real(x.el)
        w = core.ufun("lambert_w", e)
        core.assume(z3.Implies(e >= 0, w.e >= 0))
        core.assume(z3.Implies(e > 0, w.e > 0))
        for e2, w2 in args:
            core.assume(z3.Implies(z3.And(e >= 0, e2 > e), w2 > w.e))
            core.assume(z3.Implies(z3.And(e2 >= 0, e2 < e), w2 < w.e))
        args.append((e, w.e))
        return core.SymArr(w, "tf", x.dtype, x.space)
    E.stub(gaussianization, "lambert_w", lw)
    h = E.arr("h", kind="tf", dtype="float64", lo=0, hi=0.99)
    g = E.arr("g", kind="tf", dtype="float64", lo=0, hi=0.99)
    a, b = E.arr("a", kind="tf", dtype="float64"), E.arr("b", kind="tf", dtype="float64")
    E.assume(a.el < b.el)
    ya, yb = E.call(gaussianization.inverse_tukey_hh, a, h, g), E.call(gaussianization.inverse_tukey_hh, b, h, g)
    # the cut-over at h x^2 = 1e-7 replaces x by an approximation with relative
    # error below 1e-14: both values on one side of it
    ha, hb = [core.ite(v.el < 0, h.el * v.el * v.el, g.el * v.el * v.el) for v in (a, b)]
    E.check("a < b implies f(a) < f(b)", E.Or(E.And(ha < 1e-7, hb >= 1e-7, a.el > 0), E.And(ha >= 1e-7, hb < 1e-7, b.el < 0),
                                             ya.el < yb.el))


@unit(P, "lambert_w solves w e^w = x", [gaussianization.lambert_w], sym=False,
      bounded="generated x in [1e-9, 1e30]", conc=40, conc_s=3)
def lambert(E):
    xs = np.array(E.gen("xs", lambda r: sorted([10 ** r.uniform(-9, 30) for _ in range(20)] + [10 ** r.uniform(-1, 1) for _ in range(20)])))
    w = gaussianization.lambert_w(tf.constant(xs)).numpy()
    E.check("w e^w = x", np.allclose(w * np.exp(w), xs, rtol=1e-6), (xs, w))
    E.check("increasing", bool(np.all(np.diff(w) > 0)))


# -------------------------------------------------------- combiner output
@unit(P, "output: robust location and scale from the fitted parameters", [Comb.extract_output], conc=100)
def extract(E):
    c = E.new(Comb, np.float64, ())
    cs, ls = draw(E, "a", None)
    seen = []
    if E.symbolic:
        from pyvc import core

        def params(v):
            seen.append((v._item(0).el, v._item(1).el))
            return core.SymVec([hl, hr], "float64")
        hl, hr = E.real("hl", 0, 0.999), E.real("hr", 0, 0.999)
        E.stub(gaussianization, "compute_tukey_hh_params", params)
    sc = lambda v: v.el if hasattr(v, "el") else v if E.symbolic else float(v)
    loc, scale, ol, orr = [sc(v) for v in E.call(c.extract_output, E.new(Acc, *cs, *ls))]
    c4, l1, l2, l3, l4 = [sc(v) for v in (cs[3], *ls)]
    if E.symbolic:
        E.check("the fitted parameters are reported", E.And(E.eq(ol, hl), E.eq(orr, hr)))
        s3, s4 = seen[0]
        ok = E.And(l2 > 0, c4 > 0)
        E.check("L-skewness and L-kurtosis are ratios to the L-scale",
                E.And(E.Implies(ok, E.And(E.eq(s3 * l2, l3), E.eq(s4 * l2, l4))), E.Implies(E.Not(ok), E.And(E.eq(s3, 0), E.eq(s4, 0)))))
        m, s = E.call(gaussianization.tukey_hh_l_mean_and_scale, core.SymVec([hl, hr], "float64"))
        m, s = m.el, s.el
    else:
        m, s = [float(v) for v in gaussianization.tukey_hh_l_mean_and_scale(np.array([ol, orr]))]
        ok = l2 > 0 and c4 > 0
        want = gaussianization.compute_tukey_hh_params(np.array([l3 / l2, l4 / l2] if ok else [0., 0.]))
        E.check("fitted from the L-ratios", np.allclose([ol, orr], want))
    E.check("scale is positive", scale > 0)
    E.check("scale matches the second L-moment", E.Or(E.Not(l2 > 0), E.eq(scale * s, l2)))
    E.check("scale of constant data is one", E.Or(l2 > 0, E.eq(scale, 1)))
    E.check("location matches the first L-moment", E.eq(loc + scale * m, l1))


# ---------------------------------------------------- bounded: batches, pipelines
def sample_l(xs):
    """Sample L-moments from their definition over all r-subsets."""
    xs = sorted(xs)
    out, cnt = [], []
    for r in range(1, 5):
        subs = list(itertools.combinations(xs, r))
        cnt.append(len(subs))
        sg = [(-1) ** k * math.comb(r - 1, k) for k in range(r)]
        out.append(sum(sum(sg[k] * s[r - 1 - k] for k in range(r)) for s in subs) / (r * len(subs)) if subs else 0.0)
    return cnt, out


@unit(P, "batch L-moments equal the sample L-moments of the values present", TB, sym=False,
      bounded="generated batches up to 7 rows and 3 columns", conc=60, conc_s=10)
def batch(E):
    kind = E.choice("kind", ["dense", "dense2", "sparse", "ragged", "sparse_flat"])
    r = E.rng
    dt = E.choice("dtype", [np.float32, np.float64])
    n, f = r.randint(1, 6), r.randint(1, 3)
    val = lambda: dt(r.choice([r.uniform(-9, 9), r.choice([0, 1, 1, -2])]))
    if kind in ("dense", "dense2"):
        x = np.array([[val() for _ in range(f)] for _ in range(n)], dt)
        cols = [list(x[:, j]) for j in range(f)] if kind == "dense2" else [list(x.ravel())]
        arg, rid = tf.constant(x), kind == "dense"
    elif kind == "ragged":
        rows = [[val() for _ in range(r.randint(0, 3))] for _ in range(n)]
        cols, arg, rid = [[v for q in rows for v in q]], tf.ragged.constant(rows, dtype=tf.as_dtype(dt)), True
    else:
        mask = [[r.random() < 0.6 for _ in range(f)] for _ in range(n)]
        ind = [[i, j] for i in range(n) for j in range(f) if mask[i][j]]
        vs = [val() for _ in ind]
        arg = tf.SparseTensor(np.array(ind, np.int64).reshape(-1, 2), np.array(vs, dt), [n, f])
        rid = kind == "sparse_flat"
        cols = [vs] if rid else [[v for (i, j), v in zip(ind, vs) if j == k] for k in range(f)]
    if not sum(map(len, cols)) and kind == "dense":
        return
    E.note(kind, cols)
    out = [np.asarray(v, float) for v in tf_utils.reduce_batch_count_l_moments(arg, rid)]
    want = [sample_l(c) for c in cols]
    for k in range(4):
        wc = np.array([w[0][k] for w in want], float)
        wl = np.array([w[1][k] for w in want], float)
        if rid:
            wc, wl = wc[0], wl[0]
        E.check(f"count of order {k + 1}", out[2 * k].shape == np.shape(wc) and np.allclose(out[2 * k], wc), (out[2 * k], wc))
        E.check(f"L-moment {k + 1}", out[2 * k + 1].shape == np.shape(wl) and np.allclose(out[2 * k + 1], wl, atol=1e-4, rtol=1e-4),
                (out[2 * k + 1], wl, cols))


def spec_e2e():
    return {"x": tf.io.FixedLenFeature([2], tf.float32), "s": tf.io.VarLenFeature(tf.float32), "i": tf.io.FixedLenFeature([], tf.int64)}


def fn_e2e(inputs):
    return {"a": mappers.scale_to_gaussian(inputs["x"]), "b": mappers.scale_to_gaussian(inputs["x"], elementwise=True),
            "s": mappers.scale_to_gaussian(inputs["s"]), "i": mappers.scale_to_gaussian(inputs["i"])}


def gaussianize(vals, data):
    data = np.array(data, float)
    cnt, (l1, l2, l3, l4) = sample_l(data)
    ok = l2 > 1e-12 and cnt[3] > 0
    hl, hr = gaussianization.compute_tukey_hh_params(np.array([l3 / l2, l4 / l2] if ok else [0., 0.]))
    m, s = gaussianization.tukey_hh_l_mean_and_scale(np.array([hl, hr]))
    scale = l2 / s if l2 > 1e-12 else 1.0
    loc = l1 - scale * m
    den = scale if hl > 0 or hr > 0 else data.std()
    out = []
    for v in vals:
        q = (v - loc) / den if den else v - loc
        h = hl if q < 0 else hr
        if h * q * q < 1e-7:
            out.append(q)
            continue
        lo, hi = 0.0, abs(q)
        for _ in range(80):
            mid = (lo + hi) / 2
            if h * mid * mid / 2 < 600 and mid * math.exp(h * mid * mid / 2) < abs(q):
                lo = mid
            else:
                hi = mid
        out.append(math.copysign(lo, q))
    return out, (hl, hr)


@unit(P, "whole pipelines gaussianize by the fitted transform", [mappers.scale_to_gaussian, mappers._scale_to_gaussian_internal,
      analyzers._tukey_parameters] + TB + T, sym=False, bounded="generated data sets of up to 12 rows through the real pipeline",
      conc=1, conc_s=16)
def pipelines(E):
    def rows_(r):
        tail = lambda: round(r.choice([1, 1, -1]) * math.exp(r.uniform(-2, 3 if r.random() < 0.7 else 6)), 2)
        return [{"x": [tail(), float(r.randint(-3, 3))], "s": [tail() for _ in range(r.randint(0, 3))],
                 "i": int(tail())} for _ in range(r.randint(6, 10))]
    rows = E.gen("rows", rows_)
    out, _ = e2e.analyze_transform(fn_e2e, rows, spec_e2e(), 1000)
    E.check("one output per row", len(out) == len(rows))
    for name, get in {"a": lambda q: q["x"], "s": lambda q: q["s"], "i": lambda q: [q["i"]]}.items():
        data = [v for q in rows for v in get(q)]
        for q, o in zip(rows, out):
            w, p = gaussianize(get(q), data) if data else ([], None)
            g = np.asarray(o[name], float).ravel()
            E.check(f"output {name}", g.shape == (len(w),) and np.allclose(g, w, atol=5e-3, rtol=5e-3), (name, g, w, p))
    for j in range(2):
        for q, o in zip(rows, out):
            w, p = gaussianize([q["x"][j]], [t["x"][j] for t in rows])
            E.check("elementwise", abs(float(o["b"][j]) - w[0]) < 5e-3 * max(1, abs(w[0])), (o["b"], w, p))


@unit(P, "partial L-moments of different shapes merge position by position", T, sym=False,
      bounded="generated parts of rank 1 and 2 and sizes up to 4, random merge trees", conc=100, conc_s=5)
def shapes(E):
    r = E.rng
    rank = r.randint(1, 2)
    c = Comb(np.float64, (None,) * rank)
    total = {}
    accs = []
    for _ in range(r.randint(2, 5)):
        sh = tuple(r.randint(1, 4) for _ in range(rank))
        cs, ls = [np.zeros(sh) for _ in range(4)], [np.zeros(sh) for _ in range(4)]
        for ix in np.ndindex(*sh):
            n = r.choice([0, 1, 2, 3, 4, 7])
            for k in range(4):
                cs[k][ix] = math.comb(n, k + 1)
                ls[k][ix] = r.randint(-9, 9) / 2 if cs[k][ix] else 0.0
                t = total.setdefault((k,) + ix, [0, 0.0])
                t[0] += cs[k][ix]
                t[1] += cs[k][ix] * ls[k][ix]
        accs.append((*cs, *ls))
    E.note(accs)
    pool = [c.add_input(c.create_accumulator(), a) if r.random() < 0.5 else Acc(*a) for a in accs]
    while len(pool) > 1:
        i = r.randrange(len(pool) - 1)
        pool[i:i + 2] = [c.merge_accumulators([pool[i], pool[i + 1]])]
    out = pool[0]
    for (k, *ix), (cnt, s) in total.items():
        if not cnt:
            continue
        E.check("inside the result", all(i < d for i, d in zip(ix, np.shape(out[k]))), (ix, np.shape(out[k])))
        E.check(f"count of order {k + 1}", float(out[k][tuple(ix)]) == cnt, (ix, out[k][tuple(ix)], cnt))
        E.check(f"L-moment of order {k + 1}", abs(float(out[4 + k][tuple(ix)]) - s / cnt) <= 1e-6, (ix, out[4 + k], s / cnt))
