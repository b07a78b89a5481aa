"""C01-C02: channels.  I01: information measures."""
import math

import numpy as np

import komm

from .core import rule, section

rule("C01", "Random and degenerate parameters of every channel, random stochastic matrices (zeros, repeated and useless rows), random pmfs and "
     "bases; oracles: joint-distribution sums (fsum), closed forms recomputed, Karush-Kuhn-Tucker duality bounds around the reported capacity.")
rule("C02", "Random channels and input arrays of many shapes and types; oracles: support of the transition law on every sample, exact "
     "behaviour at probabilities 0 and 1, frequency / independence tests at 6 standard deviations.")
rule("I01", "Random pmfs spanning 300 decades with zeros, bases above and below one, bisection inverse bracketed by a reference entropy; "
     "invalid arguments must be refused.")

BASES = [2.0, 2, "e", math.e, 3.0, 10, 0.5, 1.0000001, 1e6]


def lb(base):
    return 1.0 if base == "e" else math.log(base)


def rand_pmf(r, n, zeros=True, decades=None):
    """A pmf of exactly-representable-enough probabilities: sums to 1 up to rounding."""
    t = int(r.integers(0, 6))
    if t == 0:
        w = np.ones(n)
    elif t == 1:
        w = np.zeros(n)
        w[int(r.integers(0, n))] = 1.0
        if not zeros:
            w += 1e-9
    elif t == 2:
        w = 10.0 ** -r.uniform(0, decades or 12, size=n)
    elif t == 3:
        w = r.integers(0 if zeros else 1, 5, size=n).astype(float)
        if w.sum() == 0:
            w[0] = 1
    else:
        w = r.random(n)
        if zeros and r.integers(0, 2):
            w = w * (r.random(n) < 0.6)
            if w.sum() == 0:
                w[0] = 1
    p = w / w.sum()
    return p


def rand_base(r):
    return BASES[int(r.integers(0, len(BASES)))]


def xlogy(x, y):
    return 0.0 if x == 0 else x * math.log(y)


def H(p):
    return -math.fsum(xlogy(x, x) for x in p)


def hb(p):
    """Binary entropy in nats, accurate for tiny p."""
    if p <= 0 or p >= 1:
        return 0.0
    return -(p * math.log(p) + (1 - p) * math.log1p(-p))


def mi(px, W):
    """Mutual information in nats from the joint distribution."""
    py = [math.fsum(px[x] * W[x][y] for x in range(len(px))) for y in range(len(W[0]))]
    return math.fsum(px[x] * W[x][y] * (math.log(W[x][y]) - math.log(py[y]))
                     for x in range(len(px)) for y in range(len(py)) if px[x] > 0 and W[x][y] > 0 and py[y] > 0)


def rand_prob(r):
    t = int(r.integers(0, 9))
    if t == 0:
        return 0.0
    if t == 1:
        return 1.0
    if t == 2:
        return 0.5
    if t == 3:
        return float(10.0 ** -r.uniform(0, 18))
    if t == 4:
        return float(1 - 10.0 ** -r.uniform(0, 16))
    if t == 5:
        return float(np.nextafter(1.0, 0.0))
    if t == 6:
        return float(0.5 + (r.random() - 0.5) * 1e-7)
    return float(r.random())


def binary_channel(r):
    p = rand_prob(r)
    t = int(r.integers(0, 3))
    if t == 0:
        return komm.BinarySymmetricChannel(p), [[1 - p, p], [p, 1 - p]], f"BSC({p!r})", (math.log(2) - hb(p))
    if t == 1:
        return komm.BinaryErasureChannel(p), [[1 - p, 0, p], [0, 1 - p, p]], f"BEC({p!r})", (1 - p) * math.log(2)
    q = 1 - p
    c = 0.0 if p == 1 else (math.log(2) if p == 0 else math.log1p(q * math.exp(p / q * math.log(p))))
    return komm.ZChannel(p), [[1, 0], [p, 1 - p]], f"Z({p!r})", c


def rand_matrix(r):
    nx, ny = int(r.integers(1, 6)), int(r.integers(1, 6))
    t = int(r.integers(0, 6))
    if t == 0:  # deterministic
        W = np.eye(ny)[r.integers(0, ny, size=nx)]
    elif t == 1:  # symmetric-ish
        n = max(nx, 2)
        row = rand_pmf(r, n)
        W = np.array([np.roll(row, k) for k in range(n)])
    elif t == 2:  # repeated rows
        W = np.array([rand_pmf(r, ny)] * nx)
        W[int(r.integers(0, nx))] = rand_pmf(r, ny)
    elif t == 3:  # a useless mixture row: never used by the optimum
        nx = max(nx, 3)
        W = np.array([rand_pmf(r, ny) for _ in range(nx)])
        W[-1] = 0.5 * W[0] + 0.5 * W[1]
    else:
        W = np.array([rand_pmf(r, ny) for _ in range(nx)])
    return W / W.sum(axis=1, keepdims=True)


@section("C01", 1500, 40000)
def closed_forms(m, r, i):
    ch, W, desc, cap = binary_channel(r)
    px = rand_pmf(r, 2)
    base = rand_base(r)
    m.note(channel=desc, input_pmf=px, base=base)
    T = np.asarray(ch.transition_matrix)
    m.close(T, np.array(W, dtype=float), "transition matrix", rtol=1e-15, atol=0)
    m.eq((ch.input_cardinality, ch.output_cardinality), (2, len(W[0])), "alphabet sizes")
    m.close(T.sum(axis=1), np.ones(2), "rows of the transition matrix sum to one", rtol=1e-15)
    s = abs(lb(base))
    I = mi(px, W) / lb(base)
    m.close(float(ch.mutual_information(px if r.integers(0, 2) else px.tolist(), base)), I, "mutual information", rtol=1e-9, atol=3e-14 / s)
    C = float(ch.capacity(base))
    m.close(C, cap / lb(base), "capacity closed form", rtol=1e-9, atol=1e-14 / s)
    m.ok(lb(base) * C >= lb(base) * I - 1e-13, lambda: f"capacity {C} below the mutual information {I} of an input pmf")
    if base == 2:
        m.close(float(ch.capacity()), C, "default base is 2")
        m.close(float(ch.mutual_information(px)), I, "default base is 2", rtol=1e-9, atol=3e-14)


@section("C01", 500, 12000)
def maximum(m, r, i):
    """The reported capacity of the binary channels is the maximum over a grid of input pmfs."""
    ch, W, desc, cap = binary_channel(r)
    m.note(channel=desc)
    C = float(ch.capacity())
    best = max(mi((1 - q, q), W) for q in np.linspace(0, 1, 41)) / math.log(2)
    m.ok(best - 1e-12 <= C <= best + 2e-3 + 1e-12, lambda: f"capacity {C}, largest mutual information on the grid {best}")
    q = float(r.random())
    D = komm.DiscreteMemorylessChannel(W)
    m.close(float(D.mutual_information([1 - q, q])), float(ch.mutual_information([1 - q, q])),
            "general channel with the same matrix: mutual information", rtol=1e-9, atol=1e-14)
    m.close(float(D.capacity()), C, "general channel with the same matrix: capacity", rtol=0, atol=2e-3 if C < 0.02 else 2e-6)


@section("C01", 500, 12000)
def general(m, r, i):
    W = rand_matrix(r)
    D = komm.DiscreteMemorylessChannel(W if r.integers(0, 2) else W.tolist())
    nx, ny = W.shape
    px = rand_pmf(r, nx)
    base = rand_base(r)
    m.note(matrix=W, input_pmf=px, base=base)
    m.arr(D.transition_matrix, W, "transition matrix is the given one")
    m.eq((D.input_cardinality, D.output_cardinality), (nx, ny), "alphabet sizes")
    s = abs(lb(base))
    Wl = W.tolist()
    m.close(float(D.mutual_information(px, base)), mi(px, Wl) / lb(base), "mutual information", rtol=1e-9, atol=1e-14 / s)
    C = float(D.capacity(base)) * lb(base)
    lo, hi, k = capacity_bounds(W)
    m.ok(C <= hi + 1e-12, lambda: f"capacity {C} nats exceeds the dual bound {hi}")
    # alternating maximisation is only sublinear when an optimal input probability sits on the boundary
    tol = 1e-8 if k < 300 else 2e-3
    m.tag("capacity required to 1e-8 nats" if k < 300 else "capacity required to 2e-3 nats")
    m.ok(C >= lo - tol, lambda: f"capacity {C} nats is below the achievable {lo}")


def capacity_bounds(W, iters=4000):
    """(achievable, dual bound) in nats by alternating maximisation from a random-free start."""
    nx, ny = W.shape
    logW = np.where(W > 0, np.log(np.where(W > 0, W, 1)), 0)
    p = np.ones(nx) / nx
    lo = hi = 0.0
    for k in range(iters):
        q = p @ W
        d = np.sum(np.where(W > 0, W * (logW - np.log(np.where(q > 0, q, 1))), 0), axis=1)
        lo, hi = float(p @ d), float(d.max())
        if hi - lo < 1e-11:
            break
        step = 1.0 if k % 2 else 2.0  # over-relaxation; lo and hi are valid bounds for any p
        p = p * np.exp(step * (d - hi))
        p /= p.sum()
    return lo, hi, k


@section("C01", 300, 3000)
def refusals(m, r, i):
    bad = float(r.choice([-1e-9, -1.0, 1.0000001, 2.0, math.nan, math.inf, -math.inf]))
    m.note(p=bad)
    for cls in (komm.BinarySymmetricChannel, komm.BinaryErasureChannel, komm.ZChannel):
        m.refuses(lambda: cls(bad), f"{cls.__name__} parameter {bad}")
    W = rand_matrix(r)
    B = W.copy()
    k = int(r.integers(0, 4))
    if k == 0:
        B[int(r.integers(0, W.shape[0]))] *= 0.9
    elif k == 1:
        B[0] = 0
    elif k == 2 and W.shape[1] > 1:
        B[0, 0] -= 2
        B[0, 1] += 2
        B[0, 0] = min(B[0, 0], -0.5)
    else:
        B[0, 0] = math.nan
    m.refuses(lambda: komm.DiscreteMemorylessChannel(B), "matrix that is not stochastic")
    m.refuses(lambda: komm.DiscreteMemorylessChannel(W[0]), "one-dimensional matrix")
    ch = [komm.BinarySymmetricChannel(0.1), komm.BinaryErasureChannel(0.1), komm.ZChannel(0.1),
          komm.DiscreteMemorylessChannel([[0.9, 0.1], [0.2, 0.8]])][int(r.integers(0, 4))]
    for b in (0, -1.0, 1.0, 1, "2", "f"):
        m.refuses(lambda: ch.capacity(b), f"{ch}: capacity in base {b!r}")
        m.refuses(lambda: ch.mutual_information([0.5, 0.5], b), f"{ch}: mutual information in base {b!r}")
    for p in ([0.5, 0.6], [-0.1, 1.1], [[0.5, 0.5]]):
        m.refuses(lambda: ch.mutual_information(p), f"{ch}: invalid pmf {p}")


# ---------------------------------------------------------------- simulation
SHAPES = [(), (1,), (7,), (64,), (3, 5), (2, 3, 4), (0,), (2, 0)]
TYPES = [int, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64, bool, "list"]


def any_channel(r):
    if r.integers(0, 3):
        ch, W, desc, _ = binary_channel(r)
        return ch, np.array(W, dtype=float), desc
    W = rand_matrix(r)
    return komm.DiscreteMemorylessChannel(W), W, f"DMC({W.tolist()})"


def as_input(r, x, card):
    t = TYPES[int(r.integers(0, len(TYPES)))]
    if t == "list":
        return x.tolist(), "list"
    if t is bool and card > 2:
        t = int
    return x.astype(t), np.dtype(t).name


@section("C02", 1200, 25000)
def support(m, r, i):
    ch, W, desc = any_channel(r)
    sh = SHAPES[int(r.integers(0, len(SHAPES)))]
    x = np.asarray(r.integers(0, W.shape[0], size=sh))
    a, t = as_input(r, x, W.shape[0])
    m.note(channel=desc, input=x, type=t)
    y = np.asarray(ch.transmit(a))
    m.shape(y, sh, "output shape")
    yi = y.astype(int)
    m.ok(bool(np.all(yi == y)) and bool(np.all((yi >= 0) & (yi < W.shape[1]))), lambda: f"output {y} outside the output alphabet")
    P = W[x, yi]
    m.ok(bool(np.all(P > 0)), lambda: f"impossible output: {yi.tolist()} for {x.tolist()}")
    sure = W.max(axis=1)[x] == 1
    m.arr(np.where(sure, yi, -1), np.where(sure, W.argmax(axis=1)[x], -1), "certain outputs")


def zscores(m, got, n, p, what, lim=6.0):
    """|count - np| within lim standard deviations (plus continuity slack), elementwise."""
    got, p = np.asarray(got, float), np.asarray(p, float)
    sd = np.sqrt(n * p * (1 - p))
    bad = np.abs(got - n * p) > lim * sd + 3
    m.ok(not np.any(bad), lambda: f"{what}: observed {got.tolist()} expected {(n * p).tolist()} of {n}")


@section("C02", 64, 800)
def frequencies(m, r, i):
    ch, W, desc = any_channel(r)
    nx, ny = W.shape
    n = 1500 if isinstance(ch, komm.DiscreteMemorylessChannel) else 6000
    x = r.permutation(np.repeat(np.arange(nx), n))
    shaped = x.reshape(nx, n) if r.integers(0, 2) else x
    a, t = as_input(r, shaped, nx)
    m.note(channel=desc, samples=nx * n, type=t)
    y = np.asarray(ch.transmit(a)).astype(int).ravel()
    for s in range(nx):
        c = np.bincount(y[x == s], minlength=ny)
        zscores(m, c, n, W[s], f"output frequencies for input {s}")
    # memorylessness: the same law after any previous (input, output) pair, and along both axes
    for lag in (1, 2, n):
        x0, x1, y0, y1 = x[:-lag], x[lag:], y[:-lag], y[lag:]
        for s in range(nx):
            for t0 in range(min(ny, 3)):
                sel = (x1 == s) & (y0 == t0)
                k = int(sel.sum())
                if k >= 200:
                    zscores(m, np.bincount(y1[sel], minlength=ny), k, W[s], f"law of input {s} given output {t0} {lag} steps before")


@section("C02", 300, 5000)
def gaussian(m, r, i):
    power = float([0.0, 1.0, 10.0 ** r.uniform(-12, 8), r.random()][int(r.integers(0, 4))])
    ch = komm.GaussianChannel(power)
    cplx = bool(r.integers(0, 2))
    big = i % 6 == 0
    sh = (40000,) if big else SHAPES[int(r.integers(0, len(SHAPES)))]
    x = np.asarray(r.normal(size=sh) * 3)
    if cplx:
        x = np.asarray(x + 1j * r.normal(size=sh))
    elif r.integers(0, 4) == 0:
        x = np.asarray(np.round(x)).astype(r.choice([int, np.int8, np.int32]))
    m.note(power=power, complex=cplx, dtype=str(x.dtype), shape=sh, head=np.ravel(x)[:4])
    y = np.asarray(ch.transmit(x if r.integers(0, 3) or not sh else x.tolist()))
    if not cplx or 0 not in sh:
        m.eq(np.iscomplexobj(y), cplx, "complex output exactly for complex input")
    m.shape(y, sh, "output shape")
    z = np.asarray(y - x).ravel()
    if power == 0:
        m.arr(y.astype(complex), x.astype(complex), "noiseless at zero power")
        return
    comps = [(z.real, power / 2), (z.imag, power / 2)] if cplx else [(z.real, power)]
    for c, v in comps:
        lim = 8 * math.sqrt(v) + 1e-14 * (1 + np.abs(np.asarray(x)).max() if x.size else 0)
        m.ok(bool(np.all(np.abs(c) <= lim)), lambda: "noise sample beyond 8 standard deviations")
    if not big:
        return
    n = z.size
    for c, v in comps:
        u = c / math.sqrt(v)
        if v < 1e-20:
            continue
        m.ok(abs(u.mean()) < 6 / math.sqrt(n), lambda: f"noise mean {u.mean()} standard deviations")
        m.ok(abs((u ** 2).mean() - 1) < 6 * math.sqrt(2 / n), lambda: f"noise power ratio {(u ** 2).mean()}")
        m.ok(abs((u ** 4).mean() - 3) < 6 * math.sqrt(96 / n), lambda: f"noise kurtosis {(u ** 4).mean()}")
        m.ok(abs((u[1:] * u[:-1]).mean()) < 6 / math.sqrt(n), "noise correlated in time")
        ks = np.sort(u)
        cdf = np.array([0.5 * math.erfc(-t / math.sqrt(2)) for t in ks[::50]])
        m.ok(np.abs(cdf - (np.arange(n)[::50] + 0.5) / n).max() < 3.0 / math.sqrt(n), "noise distribution is not Gaussian")
        xr = np.real(x) / max(np.std(np.real(x)), 1e-9)
        m.ok(abs((u * xr).mean()) < 7 / math.sqrt(n), "noise correlated with the signal")
    if cplx and power >= 1e-20:
        rho = (z.real * z.imag).mean() / (power / 2)
        m.ok(abs(rho) < 6 / math.sqrt(n), lambda: f"real and imaginary noise correlated: {rho}")


@section("C02", 60, 600)
def gaussian_refusals(m, r, i):
    bad = float(r.choice([-1e-12, -1.0, math.nan, -math.inf]))
    m.note(power=bad)
    m.refuses(lambda: komm.GaussianChannel(bad), f"noise power {bad}")


# ---------------------------------------------------------------- information measures
@section("I01", 2500, 80000)
def entropy(m, r, i):
    n = int(r.integers(1, 9)) if r.integers(0, 20) else 2000
    p = rand_pmf(r, n, decades=float(r.choice([12, 300])))
    if r.integers(0, 12) == 0 and n > 1:
        p = np.zeros(n)
        p[0], p[1] = 1.0, float(r.choice([5e-324, 1e-310, 1e-300, 2.3e-308]))
    base = rand_base(r)
    m.note(pmf=p if n < 20 else n, base=base)
    L = lb(base)
    want = H(p.tolist()) / L
    got = komm.entropy(p if r.integers(0, 2) else p.tolist(), base)
    m.close(float(got), want, "entropy", rtol=1e-9, atol=1e-14 / abs(L))
    g = float(got) * L
    m.ok(-1e-12 <= g <= math.log(n) + 1e-9, lambda: f"entropy {g} nats outside [0, log {n}]")
    if base == 2:
        m.close(float(komm.entropy(p)), want, "default base is 2", rtol=1e-9, atol=1e-14)
    q = r.permutation(np.concatenate((p, np.zeros(int(r.integers(0, 3))))))
    m.close(float(komm.entropy(q, base)), want, "entropy ignores order and zero terms", rtol=1e-9, atol=1e-14 / abs(L))


@section("I01", 2500, 80000)
def divergence(m, r, i):
    n = int(r.integers(1, 9))
    p = rand_pmf(r, n, decades=float(r.choice([12, 300])))
    q = rand_pmf(r, n, zeros=bool(r.integers(0, 3) == 0), decades=float(r.choice([12, 300])))
    k = int(r.integers(0, 8))
    if k == 0:
        q = p.copy()
    elif k == 1 and n > 1:
        q = np.zeros(n)
        q[0], q[1] = 1.0, float(r.choice([5e-324, 1e-310, 1e-300]))
    elif k == 2 and n > 1:
        p = np.zeros(n)
        p[0], p[1] = 1.0, float(r.choice([5e-324, 1e-310, 1e-300]))
    base = rand_base(r)
    m.note(pmf=p, qmf=q, base=base)
    L = lb(base)
    if any(a > 0 and b == 0 for a, b in zip(p, q)):
        want = math.inf if L > 0 else -math.inf
        m.tag("support not covered")
    else:
        want = math.fsum(a * (math.log(a) - math.log(b)) for a, b in zip(p.tolist(), q.tolist()) if a > 0) / L
    got = float(komm.relative_entropy(p if r.integers(0, 2) else p.tolist(), q, base))
    m.close(got, want, "relative entropy", rtol=1e-9, atol=1e-13 / abs(L))
    m.ok(got * L >= -1e-12, lambda: f"relative entropy {got} is negative")
    if k == 0:
        m.close(got, 0.0, "relative entropy of a pmf to itself", atol=1e-13 / abs(L))
    u = np.ones(n) / n
    m.close(float(komm.relative_entropy(p, u, base)) + float(komm.entropy(p, base)), math.log(n) / L,
            "D(p || uniform) + H(p) = log n", rtol=1e-9, atol=1e-12 / abs(L))


@section("I01", 3000, 100000)
def binary(m, r, i):
    p = rand_prob(r)
    m.note(p=p)
    h = komm.binary_entropy(p)
    want = hb(p) / math.log(2)
    m.close(float(h), want, "binary entropy", rtol=1e-9, atol=3e-16)
    m.close(float(komm.binary_entropy(1 - p)), hb(1 - p) / math.log(2), "binary entropy at 1 - p", rtol=1e-9, atol=3e-16)
    m.close(float(komm.entropy([p, 1 - p])), float(h), "binary entropy agrees with entropy", rtol=1e-9, atol=1e-15)
    t = int(r.integers(0, 6))
    y = [0.0, 1.0, float(r.random()), float(10.0 ** -r.uniform(0, 10)), float(1 - 10.0 ** -r.uniform(0, 15)), min(float(h), 1.0)][t]
    m.note(h=y)
    x = float(komm.binary_entropy_inv(y))
    m.ok(0 <= x <= 0.5, lambda: f"inverse {x} outside [0, 1/2]")
    e = 2e-12
    lo, hi = hb(max(x - e, 0)) / math.log(2), hb(min(x + e, 0.5)) / math.log(2)
    m.ok(lo - 1e-15 <= y <= hi + 1e-15, lambda: f"inverse {x} of {y}: entropy there is within [{lo}, {hi}]")
    if y in (0.0, 1.0):
        m.eq(x, y / 2, "inverse at the end points")


@section("I01", 200, 2000)
def refusals_i(m, r, i):
    n = int(r.integers(1, 6))
    p = rand_pmf(r, n)
    k = i % 6
    m.note(kind=k, pmf=p)
    if k == 0:
        b = p.copy()
        b[int(r.integers(0, n))] += float(r.choice([0.01, 0.5, math.nan, math.inf]))
        bad = b
    elif k == 1:
        bad = np.concatenate((p, [-0.25, 0.25]))
    elif k == 2:
        bad = p[np.newaxis]
    elif k == 3:
        bad = p * 0.9
    elif k == 4:
        bad = 1.0
    else:
        bad = []
    m.refuses(lambda: komm.entropy(bad), f"invalid pmf {bad}")
    m.refuses(lambda: komm.relative_entropy(bad, bad), f"invalid pmf {bad}")
    m.refuses(lambda: komm.relative_entropy(p, bad), f"invalid pmf {bad}")
    m.refuses(lambda: komm.relative_entropy(p, np.ones(n + 1) / (n + 1)), "pmfs over different alphabets")
    for b in (0, 0.0, -2.0, 1.0, 1, "x", ""):
        m.refuses(lambda: komm.entropy(p, b), f"base {b!r}")
        m.refuses(lambda: komm.relative_entropy(p, p, b), f"base {b!r}")
    for v in (-1e-9, 1.0000001, 2, math.nan, math.inf):
        m.refuses(lambda: komm.binary_entropy(v), f"probability {v}")
        m.refuses(lambda: komm.binary_entropy_inv(v), f"entropy value {v}")
