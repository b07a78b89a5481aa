"""U01-U03: bit operations, signal-processing wrappers, special functions."""
import decimal
import math

import numpy as np

import komm

from .core import rule, section

D = decimal.Decimal
CTX = decimal.Context(prec=50, Emin=-999999, Emax=999999)

rule("U01", "Random integers up to 300 bits, widths, orders, shapes (scalars, empty, up to three dimensions) and input types; oracle: positional sums "
     "of Python integers.")
rule("U02", "Random arrays of up to four dimensions and every type, all axes, factors, offsets, modes; oracles: index loops and direct DFT sums; "
     "invalid factors and offsets must be refused.")
rule("U03", "Arguments over the whole range (tails, infinities, huge orders); oracles: 50-digit series and continued fractions, Bessel identities by "
     "spectral quadrature, algebraic laws.")

ORDERS = ["LSB-first", "MSB-first"]
SHAPES = [(), (), (3,), (1,), (0,), (2, 3), (2, 2, 2), (0, 2)]
ITYPES = [int, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64, object, "list"]


def bits_of(x, w, order):
    b = [(x >> i) & 1 for i in range(w)]
    return b if order == "LSB-first" else b[::-1]


def fits(t, hi):
    return t in ("list", object) or hi <= np.iinfo(t).max


def build(vals, shape, t):
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = vals if a.size else []
    if t == "list":
        return a.tolist()
    return a if t is object else a.astype(t)


@section("U01", 1500, 50000)
def to_bits(m, r, i):
    w = int(r.integers(0, 20)) if r.integers(0, 3) else int(r.integers(20, 300))
    sh = SHAPES[int(r.integers(0, len(SHAPES)))]
    n = int(np.prod(sh, dtype=int))
    big = r.integers(0, 4) == 0  # more bits than the width: truncated modulo 2^w
    vals = [int.from_bytes(r.bytes(40), "little") >> (320 - w - (5 if big else 0)) for _ in range(n)]
    if r.integers(0, 3) == 0 and n:
        vals[0] = [0, (1 << w) - 1, 1 << max(w - 1, 0)][int(r.integers(0, 3))]
    order = ORDERS[int(r.integers(0, 2))]
    t = ITYPES[int(r.integers(0, len(ITYPES)))]
    if not fits(t, max(vals, default=0)):
        vals = [v & int(np.iinfo(t).max) for v in vals]  # narrow type, possibly much wider representation
    if t == "list" and 0 in sh:
        t = object
    x = build(vals, sh, t)
    if sh == ():
        x = vals[0] if t in (object, "list") else (x if r.integers(0, 2) else x[()])
    m.note(values=vals, width=w, order=order, shape=sh, type=str(t))
    got = np.asarray(komm.int_to_bits(x, w, order) if order == "MSB-first" or r.integers(0, 2) else komm.int_to_bits(x, w))
    m.shape(got, sh + (w,), "int_to_bits shape")
    if w:
        m.arr(got.astype(int).reshape(-1, w), np.array([bits_of(v, w, order) for v in vals], int).reshape(-1, w), "int_to_bits")
    m.arr(np.asarray(komm.int_to_bits(x, w, ORDERS[1 - ORDERS.index(order)])).astype(int), got.astype(int)[..., ::-1], "orders are mirror images")
    back = komm.bits_to_int(got, order)
    m.shape(back, sh, "bits_to_int shape")
    m.eq(np.asarray(back, dtype=object).reshape(-1).tolist(), [v % (1 << w) for v in vals], "bits_to_int inverts int_to_bits")


@section("U01", 1500, 50000)
def from_bits(m, r, i):
    w = int(r.integers(0, 20)) if r.integers(0, 3) else int(r.integers(20, 200))
    sh = SHAPES[int(r.integers(0, len(SHAPES)))]
    b = r.integers(0, 2, size=sh + (w,))
    if r.integers(0, 4) == 0 and w:
        b[..., int(r.integers(0, w)):] = 0
    order = ORDERS[int(r.integers(0, 2))]
    t = (ITYPES + [bool, float])[int(r.integers(0, len(ITYPES) + 2))]
    if t == "list" and 0 in sh + (w,):
        t = int
    x = b.tolist() if t == "list" else (tuple(b.tolist()) if t is object and sh == () else b.astype(t))
    m.note(bits=b, order=order, type=str(t))
    got = komm.bits_to_int(x, order) if order == "MSB-first" or r.integers(0, 2) else komm.bits_to_int(x)
    m.shape(got, sh, "shape")
    want = [sum(int(v) << (k if order == "LSB-first" else w - 1 - k) for k, v in enumerate(row)) for row in (b.reshape(-1, w).tolist() if b.size else [[]] * int(np.prod(sh, dtype=int)))]
    m.eq(np.asarray(got, dtype=object).reshape(-1).tolist(), want, "bits_to_int")
    if sh == ():
        m.ok(int(got) == want[0] and (got == want[0]) is not None, "scalar result")
    if w:
        m.arr(np.asarray(komm.int_to_bits(got, w, order)).astype(int), b, "int_to_bits inverts bits_to_int")
    m.eq(np.asarray(komm.bits_to_int(b[..., ::-1].copy(), ORDERS[1 - ORDERS.index(order)]), dtype=object).reshape(-1).tolist(), want, "orders are mirror images")


@section("U01", 20, 100)
def refuse_order(m, r, i):
    for o in ("lsb-first", "", "little", None):
        m.note(order=o)
        m.refuses(lambda: komm.bits_to_int([1, 0], o), f"bit order {o!r}")
        m.refuses(lambda: komm.int_to_bits(2, 2, o), f"bit order {o!r}")
        m.refuses(lambda: komm.bits_to_int([[1, 0]], o), f"bit order {o!r}")


# ---------------------------------------------------------------- signal processing
def rand_array(r, maxdim=4, minlen=1):
    nd = int(r.integers(1, maxdim + 1))
    sh = tuple(int(r.integers(minlen, 6)) for _ in range(nd))
    t = r.choice(["int", "float", "complex", "int8", "uint8", "bool", "object"], p=[.25, .25, .2, .1, .1, .05, .05])
    if t == "float":
        return r.normal(size=sh)
    if t == "complex":
        return r.normal(size=sh) + 1j * r.normal(size=sh)
    a = r.integers(0, 2 if t == "bool" else 9, size=sh)
    return a.astype(t) if t != "object" else a.astype(object)


def slices(a, axis):
    b = np.moveaxis(a, axis, -1)
    return b.reshape(int(np.prod(b.shape[:-1], dtype=int)), b.shape[-1]), b.shape[:-1]


def unslice(rows, lead, axis, dtype=None):
    a = np.array(rows, dtype=dtype)
    return np.moveaxis(a.reshape(lead + (a.shape[-1],)), -1, axis)


@section("U02", 1200, 30000)
def rates(m, r, i):
    a = rand_array(r, minlen=0 if r.integers(0, 8) == 0 else 1)
    ax = int(r.integers(-a.ndim, a.ndim))
    f = int(r.integers(1, 7))
    off = int(r.integers(0, f))
    arg = a.tolist() if (r.integers(0, 4) == 0 and a.size) else a
    m.note(shape=a.shape, dtype=str(a.dtype), axis=ax, factor=f, offset=off, head=np.ravel(a)[:6])
    kw = {} if (ax == -1 or ax == a.ndim - 1) and r.integers(0, 2) else {"axis": ax}
    if off or r.integers(0, 2):
        kw["offset"] = off
    rows, lead = slices(a, ax)
    n = a.shape[ax]
    want_c = [[row[k] for k in range(off, n, f)] for row in rows]
    c = np.asarray(komm.sampling_rate_compress(arg, f, **kw))
    ln = len(range(off, n, f))
    sh = list(a.shape)
    sh[ax] = ln
    m.shape(c, tuple(sh), "compressed shape")
    if c.size:
        m.arr(c, unslice(want_c, lead, ax), "compression keeps x[nM + offset]")
    e = np.asarray(komm.sampling_rate_expand(arg, f, **kw))
    sh[ax] = n * f
    m.shape(e, tuple(sh), "expanded shape")
    if e.size:
        want_e = [[row[k // f] if k % f == off else 0 for k in range(n * f)] for row in rows]
        m.arr(e, unslice(want_e, lead, ax), "expansion places x[n] at nL + offset among zeros")
    m.arr(komm.sampling_rate_compress(e, f, **kw), a, "compressing an expansion")
    if arg is a:
        m.eq(e.dtype, a.dtype, "expansion keeps the element type")
    for bad in ((0, 0), (-2, 0), (f, f), (f, -1), (f, f + 3)):
        m.refuses(lambda: komm.sampling_rate_compress(a, *bad), f"compress with factor, offset {bad}")
        m.refuses(lambda: komm.sampling_rate_expand(a, *bad), f"expand with factor, offset {bad}")


@section("U02", 1000, 25000)
def convolution(m, r, i):
    a = rand_array(r)
    while a.dtype == object:
        a = rand_array(r)
    h = r.normal(size=int(r.integers(1, 7)))
    if r.integers(0, 3) == 0:
        h = r.integers(-3, 4, size=len(h))
    elif r.integers(0, 3) == 0:
        h = h + 1j * r.normal(size=len(h))
    ax = int(r.integers(-a.ndim, a.ndim))
    mode = ["full", "valid", "same"][int(r.integers(0, 3))]
    m.note(shape=a.shape, dtype=str(a.dtype), taps=h, axis=ax, mode=mode, head=np.ravel(a)[:6])
    kw = {}
    if ax not in (-1, a.ndim - 1) or r.integers(0, 2):
        kw["axis"] = ax
    if mode != "full" or r.integers(0, 2):
        kw["mode"] = mode
    rows, lead = slices(a, ax)
    n, k = a.shape[ax], len(h)

    def full(row):
        return [sum((complex(row[j]) * complex(h[t - j]) for j in range(n) if 0 <= t - j < k), 0j) for t in range(n + k - 1)]

    lo, hi = min(n, k), max(n, k)
    cut = {"full": (0, n + k - 1), "valid": (lo - 1, hi), "same": ((lo - 1) // 2, (lo - 1) // 2 + hi)}[mode]
    want = unslice([full(row)[cut[0]:cut[1]] for row in rows], lead, ax)
    args = (a, h) if r.integers(0, 2) else (h, a)
    if r.integers(0, 4) == 0:
        args = tuple(x.tolist() for x in args)
    got = np.asarray(komm.convolve(*args, **kw))
    m.close(got.astype(complex), want, "convolution of every slice", rtol=1e-9, atol=1e-9)
    m.eq(bool(np.iscomplexobj(got)), bool(np.iscomplexobj(a) or np.iscomplexobj(h)), "complex result exactly for complex operands")
    if a.ndim > 1:
        m.refuses(lambda: komm.convolve(a, a), "two multidimensional operands")


@section("U02", 800, 20000)
def fourier(m, r, i):
    a = rand_array(r, 3)
    while a.dtype == object:
        a = rand_array(r, 3)
    ax = int(r.integers(-a.ndim, a.ndim))
    n = a.shape[ax]
    N = [None, n, int(r.integers(1, 13)), 2 * n][int(r.integers(0, 4))]
    dt = float([1.0, 0.5, 10.0 ** r.uniform(-9, 6)][int(r.integers(0, 3))])
    m.note(shape=a.shape, dtype=str(a.dtype), axis=ax, nfft=N, time_step=dt, head=np.ravel(a)[:6])
    kw = {}
    if N is not None:
        kw["nfft"] = N
    if ax not in (-1, a.ndim - 1) or r.integers(0, 2):
        kw["axis"] = ax
    S, F = komm.fourier_transform(a if r.integers(0, 3) else a.tolist(), dt, **kw)
    N = N or n
    ks = np.arange(-(N // 2), N - N // 2)
    m.close(F, ks / (N * dt), "frequency bins", rtol=1e-12)
    rows, lead = slices(a.astype(complex), ax)
    L = min(n, N)
    W = np.exp(-2j * np.pi * ((np.outer(ks, np.arange(L)) % N) / N))
    want = unslice([dt * (W @ row[:L]) for row in rows], lead, ax)
    m.close(S, want, "spectrum", rtol=1e-9, atol=1e-10 * dt * (1 + np.abs(a).max()))


# ---------------------------------------------------------------- special functions
def dec_q(x):
    """Gaussian tail probability to ~45 digits (Decimal)."""
    with decimal.localcontext(CTX):
        x = D(x)
        if x < 0:
            return 1 - dec_q_pos(-x)
        return dec_q_pos(x)


PI = D("3.14159265358979323846264338327950288419716939937510582097")


def dec_q_pos(x):
    phi = (-x * x / 2).exp() / (2 * PI).sqrt()
    if x < 7:
        s = t = x  # Q = 1/2 - phi * (x + x^3/3 + x^5/(3 5) + ...)
        k = 1
        while t > D("1e-60"):
            k += 2
            t = t * x * x / k
            s += t
        return D("0.5") - phi * s
    f = D(0)  # Q = phi / (x + 1/(x + 2/(x + 3/...)))
    for k in range(200, 0, -1):
        f = k / (x + f)
    return phi / (x + f)


def shaped(r, x):
    """Scalar, list and array presentations of a vector of arguments."""
    k = int(r.integers(0, 4))
    if k == 0:
        return float(x[0]), x[:1], ()
    if k == 1:
        return x.tolist(), x, (len(x),)
    if k == 2:
        return x.reshape(1, -1), x, (1, len(x))
    return x, x, (len(x),)


@section("U03", 800, 20000)
def gaussian(m, r, i):
    t = int(r.integers(0, 4))
    n = int(r.integers(1, 5))
    x = [r.normal(size=n) * 3, r.uniform(-40, 40, size=n), r.uniform(-1, 1, size=n) * 10.0 ** -r.uniform(0, 12), np.round(r.normal(size=n) * 4)][t]
    a, flat, sh = shaped(r, x)
    m.note(x=x)
    got = komm.gaussian_q(a)
    m.shape(got, sh, "shape")
    want = np.array([float(dec_q(v)) for v in flat]).reshape(sh)
    m.close(got, want, "Q function", rtol=1e-12, atol=1e-307)
    m.close(np.asarray(komm.gaussian_q(flat)) + np.asarray(komm.gaussian_q(-flat)), np.ones(len(flat)), "Q(x) + Q(-x)", rtol=1e-13)
    # inverse
    k = int(r.integers(0, 5))
    y = [r.random(n), 10.0 ** -r.uniform(0, 300, size=n), 1 - 10.0 ** -r.uniform(0, 15, size=n), 0.5 + r.normal(size=n) * 1e-6, np.asarray(komm.gaussian_q(flat)).ravel()][k]
    y = np.clip(y, 5e-308, 1.0)
    a, flat, sh = shaped(r, y)
    m.note(y=y)
    z = komm.gaussian_q_inv(a)
    m.shape(z, sh, "shape of the inverse")
    for v, w in zip(flat, np.ravel(z)):
        if v == 1.0:
            m.eq(float(w), -math.inf, "inverse at 1")
            continue
        d = 1e-9 * max(1.0, abs(w))
        lo, hi = float(dec_q(w + d)), float(dec_q(w - d))
        m.ok(lo <= v <= hi, lambda: f"gaussian_q_inv({v!r}) = {w!r}, where Q is {float(dec_q(w))!r}")


@section("U03", 40, 200)
def gaussian_edges(m, r, i):
    m.note(edge=i % 4)
    m.eq([komm.gaussian_q(math.inf), komm.gaussian_q(-math.inf), komm.gaussian_q(0.0)], [0.0, 1.0, 0.5], "Q at infinities and zero")
    m.eq([komm.gaussian_q_inv(0.0), komm.gaussian_q_inv(1.0), komm.gaussian_q_inv(0.5), komm.gaussian_q_inv(0), komm.gaussian_q_inv(1)],
         [math.inf, -math.inf, 0.0, math.inf, -math.inf], "inverse at 0, 1 and 1/2")
    for b in (-1e-9, 1.0000001, -math.inf, math.inf, [0.5, 2.0]):
        m.refuses(lambda: komm.gaussian_q_inv(b), f"inverse of {b}")
    xs = np.sort(r.uniform(-30, 37, size=50))
    q = np.asarray(komm.gaussian_q(xs))
    m.ok(bool(np.all(np.diff(q) <= 0)), "Q is decreasing")


def bessel_scaled(n, z):
    """exp(-z) I_n(z), spectral quadrature."""
    N = 64 + 4 * n + int(12 * math.sqrt(z) + 2)
    N = max(N, 256)
    th = np.pi * (np.arange(N) + 0.5) / N
    return float(np.mean(np.exp(z * (np.cos(th) - 1)) * np.cos(n * th)))


def dec_marcum(mm, a, x):
    with decimal.localcontext(CTX):
        lam, mu = D(a) * D(a) / 2, D(x) * D(x) / 2
        tail = (-mu).exp()
        cdf = tail
        for k in range(1, mm):
            tail = tail * mu / k
            cdf += tail
        w = (-lam).exp()
        s, cum, j = w * cdf, w, 0
        while (1 - cum > D("1e-40") or j < lam) and j < 100000:
            j += 1
            w = w * lam / j
            cum += w
            k = mm + j - 1
            tail = tail * mu / k
            cdf += tail
            s += w * cdf
            if j > lam and w * 10 < s * D("1e-30") and w < D("1e-45"):
                break
        return float(s)


@section("U03", 500, 8000)
def marcum(m, r, i):
    mm = int(r.integers(1, 6)) if r.integers(0, 3) else int(r.integers(6, 40))
    top = [3.0, 10.0, 30.0][int(r.integers(0, 3))]
    a, x = float(r.uniform(0, top)), float(r.uniform(0, top))
    t = int(r.integers(0, 8))
    if t == 0:
        a = 0.0
    elif t == 1:
        x = 0.0
    elif t == 2:
        a = float(10.0 ** -r.uniform(0, 10))
    elif t == 3:
        x = max(0.0, a + float(r.normal()))
    m.note(order=mm, a=a, x=x)
    q = komm.marcum_q(mm, a, x)
    want = dec_marcum(mm, a, x)
    m.close(float(q), want, "Marcum Q", rtol=1e-9, atol=1e-14)
    m.ok(-1e-15 <= q <= 1 + 1e-12, lambda: f"Marcum Q {q} is not a probability")
    if r.integers(0, 3) == 0:
        xs = np.sort(r.uniform(0, top, size=4))
        v = np.asarray(komm.marcum_q(mm, a, xs))
        m.shape(v, (4,), "array shape")
        m.ok(bool(np.all(np.diff(v) <= 2e-12)), lambda: f"not decreasing in x: {v.tolist()}")
        v = np.asarray(komm.marcum_q(mm, xs, np.full(4, x)))
        m.ok(bool(np.all(np.diff(v) >= -2e-12)), lambda: f"not increasing in a: {v.tolist()}")
        m.ok(komm.marcum_q(mm + 1, a, x) >= q - 2e-12, "not increasing in the order")
        m.arr(komm.marcum_q(mm, [[a], [a]], [x, x]), np.full((2, 2), q), "broadcast")


@section("U03", 200, 3000)
def marcum_large(m, r, i):
    a = float(10.0 ** r.uniform(0, 2.3))
    x = max(0.01, a + float(r.normal()) * 3)
    mm = int(r.integers(1, 60))
    m.note(order=mm, a=a, x=x)
    tol = 1e-9 + 1e-14 * (a * a + x * x + mm) * 10
    e = math.exp(-(a - x) ** 2 / 2)
    m.close(komm.marcum_q(1, a, x) + komm.marcum_q(1, x, a), 1 + e * bessel_scaled(0, a * x), "Q1(a,x) + Q1(x,a)", rtol=tol)
    if mm * abs(math.log(x / a)) < 300 and mm * mm < 40 * a * x:
        m.close(komm.marcum_q(mm + 1, a, x) - komm.marcum_q(mm, a, x), math.exp(mm * math.log(x / a)) * e * bessel_scaled(mm, a * x),
                "recurrence in the order", rtol=1e-6, atol=tol)
    m.close(komm.marcum_q(mm, a, 0.0), 1.0, "Q at x = 0", rtol=1e-9)
    s = math.exp(-x * x / 2)
    m.close(komm.marcum_q(1, 0.0, x), s, "Q1(0, x) = exp(-x^2/2)", rtol=tol, atol=1e-300)


@section("U03", 30, 100)
def marcum_refusals(m, r, i):
    m.note(case=i % 3)
    for args in ((0, 1.0, 1.0), (-1, 1.0, 1.0), (1, -0.1, 1.0), (1, 1.0, -0.1), (1, [1.0, -1.0], 1.0), (1, 1.0, math.nan)):
        m.refuses(lambda: komm.marcum_q(*args), f"marcum_q{args}")


def dec_boxplus(a, b):
    """log((1 + e^(a+b)) / (e^a + e^b)) in 50 digits."""
    if math.isinf(a) or math.isinf(b):
        s = math.copysign(1, a) * math.copysign(1, b)
        if a == 0 or b == 0:
            return 0.0
        return s * min(abs(a), abs(b))
    with decimal.localcontext(CTX):
        a, b = D(a), D(b)
        return float((1 + (a + b).exp()).ln() - (a.exp() + b.exp()).ln())


def lval(r, n):
    t = int(r.integers(0, 6))
    x = [r.normal(size=n) * 3, r.normal(size=n) * 10.0 ** r.uniform(-6, 3), r.integers(-5, 6, size=n).astype(float), r.uniform(-800, 800, size=n),
         r.choice([np.inf, -np.inf, 0.0, 1.0, -2.5], size=n), r.normal(size=n) * 0.1][t]
    return x


@section("U03", 1200, 30000)
def box(m, r, i):
    n = int(r.integers(1, 5))
    a, b, c = lval(r, n), lval(r, n), lval(r, n)
    if r.integers(0, 5) == 0:
        b = a * r.choice([1, -1])
    m.note(a=a, b=b, c=c)
    want = np.array([dec_boxplus(float(p), float(q)) for p, q in zip(a, b)])
    k = int(r.integers(0, 4))
    if k == 0:
        got = np.array([komm.boxplus(float(p), float(q)) for p, q in zip(a, b)])
    elif k == 1:
        got = komm.boxplus(a.tolist(), b.tolist())
    elif k == 2:
        got = np.asarray(komm.boxplus(a.reshape(-1, 1), b.reshape(-1, 1)))
        m.shape(got, (n, 1), "shape")
        got = got.ravel()
    else:
        got = komm.boxplus(a, b)
    tol = 1e-13
    m.close(got, want, "box-plus", rtol=tol, atol=tol)
    m.ok(bool(np.all(np.abs(got) <= np.minimum(np.abs(a), np.abs(b)) * (1 + 1e-15) + 1e-15)), "magnitude above an argument")
    m.close(komm.boxplus(b, a), got, "commutative", rtol=tol, atol=tol)
    l, rr = komm.boxplus(komm.boxplus(a, b), c), komm.boxplus(a, komm.boxplus(b, c))
    m.close(l, rr, "associative", rtol=1e-12, atol=1e-12)
    if np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 100) and np.all(np.isfinite(b)):
        bi = np.clip(np.round(b), -100, 100)
        w2 = np.array([dec_boxplus(float(p), float(q)) for p, q in zip(a, bi)])
        for t in (int, np.int8):
            m.close(komm.boxplus(a.astype(t), bi.astype(t)), w2, f"box-plus of {np.dtype(t).name}", rtol=tol, atol=tol)
        u = [dec_boxplus(float(abs(p)), float(abs(q))) for p, q in zip(a, bi)]
        m.close(komm.boxplus(np.abs(a).astype(np.uint8), np.abs(bi).astype(np.uint8)), np.array(u), "box-plus of uint8", rtol=tol, atol=tol)
    if n > 1:
        m.refuses(lambda: komm.boxplus(a, b[:-1]), "operands of different shapes")
