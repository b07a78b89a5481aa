"""Q01-Q02: scalar quantizers."""
import bisect
import math

import numpy as np

import komm

from .core import rule, section
from .p_pulses import integ

rule("Q01", "Random level/threshold sets, uniform quantizers with any step and offset, inputs including thresholds, levels and infinities in every "
     "shape; oracles: bisection, exhaustive nearest level, Gauss-Legendre integration of the squared error.")
rule("Q02", "Random positive densities (symmetric, skewed, kinked, mixtures), input ranges of any scale and position, up to 16 levels; oracle: "
     "midpoint and centroid conditions by independent quadrature, error of the uniform starting point.")


def inputs(r, levels, th):
    lo, hi = levels[0], levels[-1]
    w = (hi - lo) or 1.0
    x = r.uniform(lo - w, hi + w, size=int(r.integers(1, 13)))
    for k in range(x.size):
        t = int(r.integers(0, 9))
        if t == 0 and len(th):
            x[k] = th[int(r.integers(0, len(th)))]
        elif t == 1:
            x[k] = levels[int(r.integers(0, len(levels)))]
        elif t == 2:
            x[k] = [np.inf, -np.inf, 1e300, -1e300, 0.0, -0.0][int(r.integers(0, 6))]
        elif t == 3 and len(th):
            x[k] = np.nextafter(th[int(r.integers(0, len(th)))], r.choice([-np.inf, np.inf]))
        elif t == 4:
            x[k] = round(x[k])
    return x


def check_quantizer(m, r, q, levels, th):
    """levels, th: plain lists of the reference; q the quantizer under observation."""
    x = inputs(r, levels, th)
    want = np.array([bisect.bisect_right(th, float(v)) for v in x], dtype=int)
    k = int(r.integers(0, 5))
    if k == 0:
        arg, sh = x.tolist(), x.shape
    elif k == 1:
        arg, sh = x.reshape(1, -1), (1, x.size)
    elif k == 2:
        arg, sh = x.reshape(-1, 1, 1), (x.size, 1, 1)
    elif k == 3:
        x, want = x[:1], want[:1]
        arg, sh = float(x[0]), ()
    else:
        arg, sh = x, x.shape
    d = q.digitize(arg)
    m.shape(d, sh, "digitize shape")
    m.arr(np.asarray(d).ravel(), want, "digitize")
    y = q.quantize(arg)
    m.shape(y, sh, "quantize shape")
    m.arr(np.asarray(y).ravel(), np.array([levels[j] for j in want]), "quantize")
    m.arr(q.quantize(y), np.asarray(y), "idempotence")
    m.arr(q.digitize(levels), np.arange(len(levels)), "indices of the levels")
    if th:
        m.arr(q.digitize(th), np.arange(1, len(levels)), "indices of the thresholds")
    s = np.sort(x)
    m.ok(bool(np.all(np.diff(q.quantize(s)) >= 0)), "not monotone")
    z = np.array([v for v in x if np.isfinite(v) and abs(v) < 1e15 and v == int(v)])
    if z.size:
        m.arr(q.digitize(z.astype(int)), q.digitize(z), "integer input")
        if np.all(np.abs(z) < 128):
            m.arr(q.digitize(z.astype(np.int8)), q.digitize(z), "int8 input")


def interleaved(r, L):
    t = int(r.integers(0, 3))
    n = 2 * L - 1
    if t == 0:
        v = np.sort(r.choice(np.arange(-3 * n, 3 * n), size=n, replace=False)).astype(float)
    elif t == 1:
        v = np.cumsum(10.0 ** r.uniform(-3, 3, size=n)) - 10.0 ** r.uniform(-2, 3)
    else:
        v = np.sort(r.normal(size=n)) * 10.0 ** r.uniform(-5, 5)
    return v


@section("Q01", 500, 12000)
def general(m, r, i):
    L = int(r.integers(1, 12))
    v = interleaved(r, L)
    if len(set(v.tolist())) != len(v) or np.any(np.diff(v) <= 0):
        m.trivial()
        return
    levels, th = v[0::2].tolist(), v[1::2].tolist()
    m.note(levels=levels, thresholds=th)
    as_is = [list, tuple, np.array][int(r.integers(0, 3))]
    q = komm.ScalarQuantizer(levels=as_is(levels), thresholds=as_is(th))
    m.arr(q.levels, np.array(levels), "levels")
    m.arr(q.thresholds, np.array(th), "thresholds")
    check_quantizer(m, r, q, levels, th)
    # broken orders
    n = 2 * L - 1
    if n > 1:
        w = v.copy()
        a = int(r.integers(0, n - 1))
        w[a], w[a + 1] = w[a + 1], w[a]
        m.refuses(lambda: komm.ScalarQuantizer(w[0::2], w[1::2]), "swapped level and threshold")
        w = v.copy()
        w[a] = w[a + 1]
        m.refuses(lambda: komm.ScalarQuantizer(w[0::2], w[1::2]), "threshold equal to a level")
        m.refuses(lambda: komm.ScalarQuantizer(levels, th[:-1]), "one threshold missing")
    m.refuses(lambda: komm.ScalarQuantizer(levels, th + [v[-1] + 1]), "one threshold too many")


@section("Q01", 500, 12000)
def uniform(m, r, i):
    L = int(r.integers(2, 18)) if r.integers(0, 8) else int(r.integers(18, 300))
    t = int(r.integers(0, 3))
    step = [float(2.0 ** r.integers(-4, 5)), float(10.0 ** r.uniform(-4, 4)), int(r.integers(1, 9))][t]
    kind = int(r.integers(0, 4))
    if kind == 0:
        th0 = float(r.choice([0.0, 0.5, -0.5, 1.0, 0.25, r.normal(), 5 * r.normal()]))
        q = komm.UniformQuantizer(L, step, th0) if r.integers(0, 2) else komm.UniformQuantizer(num_levels=L, step=step, offset=th0)
    elif kind == 1:
        th0 = 0.0
        q = komm.UniformQuantizer(L, step)
    elif kind == 2:
        q, th0 = komm.UniformQuantizer.mid_riser(L, step), 0.0 if L % 2 == 0 else -0.5
        m.ok(0.0 in q.thresholds.tolist(), "zero is not a threshold of a mid-riser quantizer")
    else:
        q, th0 = komm.UniformQuantizer.mid_tread(L, step), 0.0 if L % 2 else -0.5
        m.ok(0.0 in q.levels.tolist(), "zero is not a level of a mid-tread quantizer")
    m.note(L=L, step=step, offset=th0, kind=kind)
    sc = step * (L + abs(th0))
    m.close(q.levels, np.array([(k - (L - 1) / 2 + th0) * step for k in range(L)]), "levels", rtol=1e-13, atol=1e-14 * sc)
    m.close(q.thresholds, np.array([(k + 0.5 - (L - 1) / 2 + th0) * step for k in range(L - 1)]), "thresholds", rtol=1e-13, atol=1e-14 * sc)
    if (kind == 2 and L % 2 == 0) or (kind == 3 and L % 2 == 1):
        m.arr(q.levels, -q.levels[::-1] + 0.0, "symmetric")
    m.eq((q.num_levels, q.step, q.offset), (L, step, th0), "parameters")
    lev, th = q.levels.tolist(), q.thresholds.tolist()
    check_quantizer(m, r, q, lev, th)
    x = r.uniform(lev[0] - 2 * step, lev[-1] + 2 * step, size=10)
    y = np.asarray(q.quantize(x))
    d = np.min(np.abs(x[:, None] - np.array(lev)), axis=1)
    m.close(np.abs(y - x), d, "distance to the nearest level", rtol=1e-9, atol=1e-12 * sc)
    inside = np.abs(x - np.clip(x, lev[0], lev[-1])) == 0
    m.ok(bool(np.all(np.abs(y - x)[inside] <= step / 2 * (1 + 1e-9) + 1e-12 * sc)), "error above half a step inside the range")
    m.arr(q.quantize([np.inf, -np.inf]), np.array([lev[-1], lev[0]]), "saturation")


@section("Q01", 30, 60)
def uniform_refusals(m, r, i):
    m.note(i=i % 3)
    for args in ((1, 1.0), (0, 1.0), (-3, 1.0), (4, 0.0), (4, -0.5), (4, math.nan)):
        m.refuses(lambda: komm.UniformQuantizer(*args), f"UniformQuantizer{args}")
        m.refuses(lambda: komm.UniformQuantizer.mid_riser(*args), f"mid_riser{args}")
        m.refuses(lambda: komm.UniformQuantizer.mid_tread(*args), f"mid_tread{args}")


def density(r, lo, hi):
    """(pdf, breakpoints, name) positive on [lo, hi]; not necessarily normalised to one."""
    c, w = (lo + hi) / 2, hi - lo
    t = int(r.integers(0, 7))
    mu = c + w * float(r.uniform(-0.2, 0.2)) if r.integers(0, 2) else c
    s = w * float(r.uniform(0.1, 0.4))
    if t == 0:
        return (lambda x: np.ones_like(x) / w), [], "uniform"
    if t == 1:
        return (lambda x: np.exp(-((x - mu) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))), [], "gaussian"
    if t == 2:
        return (lambda x: np.exp(-np.abs(x - mu) / s) / (2 * s)), [mu], "laplacian"
    if t == 3:
        return (lambda x: np.exp(-(x - lo) / s) / s), [], "exponential"
    if t == 4:
        return (lambda x: (0.3 + 2 * (x - lo) / w) / w / 1.3), [], "ramp"
    if t == 5:
        a, b = lo + 0.25 * w, lo + 0.7 * w
        return (lambda x: (np.exp(-((x - a) / (0.1 * w)) ** 2) + 0.6 * np.exp(-((x - b) / (0.15 * w)) ** 2) + 0.05) / w), [], "mixture"
    k = lo + 0.4 * w
    return (lambda x: np.where(x < k, 0.3 + (x - lo) / w, 0.3 + 0.4 - 0.5 * (x - k) / w) / w), [k], "tent"


def span(r):
    t = int(r.integers(0, 5))
    if t == 0:
        return -5.0, 5.0
    w = float(10.0 ** r.uniform(-6, 5)) if t == 1 else float(r.uniform(0.5, 20))
    c = 0.0 if t == 2 else float(r.normal()) * w * (50 if t == 4 else 1)
    return c - w / 2, c + w / 2


def cuts(pts, lo, hi):
    p = sorted({lo, hi, *[x for x in pts if lo < x < hi]})
    return list(zip(p[:-1], p[1:]))


def moment(g, br, lo, hi):
    if hi <= lo:
        return 0.0
    n = 4
    return sum(integ(g, a, b, n) for a, b in cuts(br, lo, hi))


@section("Q01", 200, 5000)
def squared_error(m, r, i):
    lo, hi = span(r)
    pdf, br, name = density(r, lo, hi)
    w = hi - lo
    t = int(r.integers(0, 4))
    if t == 0:  # levels and thresholds spread over (and partly outside) the range
        v = np.sort(r.uniform(lo - w * 0.3, hi + w * 0.3, size=2 * int(r.integers(1, 8)) - 1))
        if np.any(np.diff(v) <= 0):
            return m.trivial()
        q = komm.ScalarQuantizer(v[0::2], v[1::2])
    elif t == 1:
        L = int(r.integers(2, 17))
        q = komm.UniformQuantizer(L, w / L * float(r.uniform(0.5, 1.5)), offset=(lo + hi) / 2 / (w / L))
    elif t == 2:
        v = np.sort(r.uniform(lo, hi, size=2 * int(r.integers(1, 8)) - 1))
        if np.any(np.diff(v) <= 0):
            return m.trivial()
        q = komm.ScalarQuantizer(v[0::2], v[1::2])
    else:
        L = int(r.integers(2, 17))
        q = komm.UniformQuantizer(L, w / L, offset=(lo + hi) / 2 / (w / L))
    n = 4096 if r.integers(0, 2) else int(r.integers(200, 3000))
    m.note(lo=lo, hi=hi, pdf=name, levels=q.levels, thresholds=q.thresholds, points=n)
    lev, th = q.levels.tolist(), [-np.inf, *q.thresholds.tolist(), np.inf]
    want = bound = 0.0
    for k, y in enumerate(lev):
        a, b = max(lo, th[k]), min(hi, th[k + 1])
        want += moment(lambda x: (x - y) ** 2 * pdf(x), br, a, b)
        if b > a:  # trapezoid error: slope variation, one kink allowed
            h = (b - a) / (n - 1)
            f = ((np.linspace(a, b, 2001) - y) ** 2) * pdf(np.linspace(a, b, 2001))
            bound += h * h / 12 * np.sum(np.abs(np.diff(f, 2))) / ((b - a) / 2000) * 3
    args = dict(input_pdf=pdf, input_range=(lo, hi))
    got = q.mean_squared_error(**args) if n == 4096 else q.mean_squared_error(**args, points_per_interval=n)
    m.ok(isinstance(got, float), "mean squared error is not a float")
    m.close(got, want, "mean squared error", rtol=1e-9, atol=bound + 1e-12 * w * w)


@section("Q02", 60, 1200)
def lloyd_max(m, r, i):
    lo, hi = span(r)
    pdf, br, name = density(r, lo, hi)
    w = hi - lo
    L = int(r.integers(2, 9)) if r.integers(0, 4) else int(r.integers(9, 17))
    m.note(lo=lo, hi=hi, pdf=name, L=L)
    m.tag(name)
    q = komm.LloydMaxQuantizer(pdf, (lo, hi), L) if r.integers(0, 2) else komm.LloydMaxQuantizer(input_pdf=pdf, input_range=(lo, hi), num_levels=L)
    y, th = np.asarray(q.levels), np.asarray(q.thresholds)
    m.shape(y, (L,), "levels")
    m.shape(th, (L - 1,), "thresholds")
    m.ok(bool(np.all(np.diff(y) > 0)) and lo < y[0] and y[-1] < hi, lambda: f"levels {y.tolist()} not increasing inside the range")
    tol = 2e-6 * w
    m.close(th, (y[:-1] + y[1:]) / 2, "thresholds are midpoints of the levels", rtol=0, atol=tol)
    edges = [lo, *th.tolist(), hi]
    for k in range(L):
        a, b = edges[k], edges[k + 1]
        c = moment(lambda x: (x - lo) * pdf(x), br, a, b) / moment(pdf, br, a, b) + lo
        m.close(y[k], c, f"level {k} is the centroid of its interval", rtol=0, atol=tol + 1e-13 * abs(lo))
    u = komm.UniformQuantizer(L, w / L, offset=(lo + hi) / 2 / (w / L))
    e, e0 = q.mean_squared_error(pdf, (lo, hi)), u.mean_squared_error(pdf, (lo, hi))
    m.ok(e <= e0 * (1 + 1e-6), lambda: f"mean squared error {e} above that of the uniform quantizer {e0}")
    want = sum(moment(lambda x: (x - y[k]) ** 2 * pdf(x), br, edges[k], edges[k + 1]) for k in range(L))
    m.close(e, want, "mean squared error", rtol=1e-4)
    check_quantizer(m, r, q, y.tolist(), th.tolist())
    # scale and shift covariance of the design
    if r.integers(0, 2):
        s, d = float(10.0 ** r.uniform(-4, 4)), w * float(r.normal())
        q2 = komm.LloydMaxQuantizer(lambda x: pdf(x / s - d) / s, ((lo + d) * s, (hi + d) * s), L)
        m.close(np.asarray(q2.levels) / s - d, y, "levels after scaling and shifting the input", rtol=0, atol=2e-4 * w)


@section("Q02", 40, 400, scaled=False)
def lloyd_max_light_cells(m, r, i):
    """Ranges reaching far into the tails: the outer cells start with next to no mass."""
    a, b = float(r.uniform(6, 35)), float(r.uniform(6, 35))
    if i % 3 == 0:
        b = a
    s, d = float(10.0 ** r.uniform(-3, 3)), float(r.normal()) * (i % 2)
    lo, hi = (d - a) * s, (d + b) * s
    w = hi - lo
    shape = ("gaussian", "laplacian", "logistic")[int(r.integers(0, 3))]
    g = {
        "gaussian": lambda z: np.exp(-z * z / 2) / math.sqrt(2 * math.pi),
        "laplacian": lambda z: 0.5 * np.exp(-np.abs(z)),
        "logistic": lambda z: np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))) ** 2,
    }[shape]
    pdf = lambda x: g(np.asarray(x) / s - d) / s
    L = int(r.integers(2, 10))
    m.note(lo=lo, hi=hi, pdf=shape, L=L, scale=s, shift=d)
    m.tag(shape)
    q = komm.LloydMaxQuantizer(pdf, (lo, hi), L)
    y, th = np.asarray(q.levels), np.asarray(q.thresholds)
    m.ok(bool(np.all(np.diff(y) > 0)) and lo < y[0] and y[-1] < hi, lambda: f"levels {y.tolist()} not increasing inside the range")
    tol = 3e-6 * w
    m.close(th, (y[:-1] + y[1:]) / 2, "thresholds are midpoints of the levels", rtol=0, atol=tol)
    e = [lo, *th.tolist(), hi]
    for k in range(L):
        # the moments of the cell, with its densest point as the origin of the substitution
        x = np.linspace(e[k], e[k + 1], 60001)
        p = pdf(x)
        mass = float(np.trapezoid(p, x))
        if mass < 1e-290:
            continue
        c = float(np.trapezoid((x - e[k]) * p, x)) / mass + e[k]
        m.close(y[k], c, f"level {k} is the centroid of its interval", rtol=0, atol=tol)
