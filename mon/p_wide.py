"""Workloads chosen from an audit of the largest arguments each operation had been given: one long call where only short
ones had been made (elementwise functions over tens of thousands of points, thousands of trellis stages, wide alphabets,
deep polar and BCH codes, far rows of standard arrays)."""
import math

import komm
import numpy as np

from . import ref
from .core import section
from .p_large2 import logint


def longer(r):
    return int(r.choice([4095, 4096, 4097, 5000, 8192, 8193, 16384, 16411, 20011, 32769]))


def pointwise(m, r, f, args, what, width=1, rtol=1e-11, atol=1e-13, extra=14):
    """One call over long arrays equals calls on single elements, and equals two calls on the two halves."""
    n = len(args[0])
    y = np.asarray(f(*args))
    m.shape(y, (n,) if width == 1 else (n, width), f"{what}: shape of the long call")
    if y.shape[0] != n:
        return
    h = int(r.integers(1, min(n, 4096)))
    m.close(np.asarray(f(*(a[-h:] for a in args))), y[-h:], f"{what}: a tail on its own", rtol, atol)
    for j in [0, n - 1, n // 2] + r.integers(0, n, size=extra).tolist():
        m.close(np.asarray(f(*(a[j:j + 1] for a in args))).reshape(-1), y[j].reshape(-1), f"{what}: element {j} of {n}", rtol, atol)
    m.tag("points", n)


# ---------------------------------------------------------------- U03
@section("U03", 16, 120, scaled=False)
def special_long(m, r, i):
    n = longer(r)
    t = i % 4
    m.note(n=n, t=t)
    if t == 0:
        a, b = r.normal(size=n) * float(10 ** r.uniform(-2, 2)), r.normal(size=n) * float(10 ** r.uniform(-2, 2))
        a[int(r.integers(0, n))] = np.inf
        pointwise(m, r, komm.boxplus, (a, b), "boxplus")
        j = r.integers(0, n, size=40)
        j = j[np.isfinite(a[j])]
        with np.errstate(over="ignore", invalid="ignore"):
            want = np.logaddexp(0, a[j] + b[j]) - np.logaddexp(a[j], b[j])
        m.close(komm.boxplus(a, b)[j], want, "boxplus by its definition", 1e-7, 1e-9 * (1 + float(np.max(np.abs(b[j])) + np.max(np.abs(a[j])))))
    elif t == 1:
        n = min(n, 6000)
        order = int(r.integers(1, 8))
        a, x = r.uniform(0, 8, size=n), r.uniform(0, 12, size=n)
        pointwise(m, r, lambda *z: komm.marcum_q(order, *z), (a, x), "marcum_q")
    elif t == 2:
        x = r.normal(size=n) * 6
        y = komm.gaussian_q(x)
        m.close(y, np.array([0.5 * math.erfc(v / math.sqrt(2)) for v in x.tolist()]), "gaussian_q", 1e-10, 1e-300)
    else:
        p = r.random(n)
        m.close(komm.gaussian_q(komm.gaussian_q_inv(p)), p, "gaussian_q(gaussian_q_inv(p)) = p", 1e-8, 1e-12)


# ---------------------------------------------------------------- P01, P02
def pulse(r, t):
    a = float(r.choice([0.0, 0.05, 0.25, 0.3, 0.5, 0.75, 1.0, r.random()]))
    return [lambda: komm.RectangularPulse(float(r.uniform(0.2, 1))), lambda: komm.ManchesterPulse(), lambda: komm.SincPulse(),
            lambda: komm.RaisedCosinePulse(a), lambda: komm.BeaulieuPulse(a), lambda: komm.GaussianPulse(float(r.uniform(0.1, 2))),
            lambda: komm.RaisedCosinePulse(a).root(), lambda: komm.BeaulieuPulse(a).root()][t]()


@section("P01", 40, 400, scaled=False)
def pulse_long(m, r, i):
    p = pulse(r, i % 8)
    n = longer(r)
    if i % 8 == 7:
        n = min(n, 9000)
    grid = r.integers(0, 2)
    x = np.linspace(-8, 8, n) if grid else r.uniform(-6, 6, size=n)
    m.note(pulse=p, n=n)
    for name in ("waveform", "spectrum", "autocorrelation", "energy_spectral_density"):
        f = getattr(p, name)
        pointwise(m, r, f, (x,), name, rtol=1e-6, atol=1e-9, extra=8)
    m.close(np.abs(np.asarray(p.spectrum(x))) ** 2, p.energy_spectral_density(x), "|spectrum|^2 = energy spectral density", 1e-8, 1e-12)
    m.close(np.asarray(p.autocorrelation(-x)), p.autocorrelation(x), "even autocorrelation", 1e-8, 1e-11)


@section("P02", 64, 600, scaled=False)
def taps_long(m, r, i):
    """Taps over wide spans and many samples per symbol are the samples of the waveform."""
    p = pulse(r, i % 8)
    sps = int(r.choice([1, 2, 3, 5, 7, 10, 16, 32, 33, 60, 64, 100, 128, 257]))
    most = max(2, (3000 if i % 8 == 7 else 12000) // sps)
    lo, hi = -int(r.integers(0, min(most, 400))), int(r.integers(1, min(most, 400)))
    m.note(pulse=p, sps=sps, span=(lo, hi))
    y = np.asarray(p.taps(samples_per_symbol=sps, span=(lo, hi)))
    m.shape(y, ((hi - lo) * sps + 1,), "number of taps")
    t = [lo + k / sps for k in range((hi - lo) * sps + 1)]
    if len(y) == len(t):
        j = r.integers(0, len(t), size=24)
        # sampling instants a rounding away from a jump of the waveform may fall on either side
        for k in j.tolist():
            if i % 8 < 2 and any(abs(t[k] - e) < 1e-9 for e in (0, 0.5, 1, getattr(p, "width", 1.0))):
                continue
            m.close(float(y[k]), float(p.waveform(t[k])), f"tap {k} at t = {t[k]}", 1e-6, 1e-8)
        if i % 8 in (2, 3, 4):
            c = y[::sps]
            z = np.zeros(hi - lo + 1)
            z[-lo] = 1.0
            m.close(c, z, "zero at the other symbol instants", 0, 1e-9)
    m.tag("taps", len(y))


# ---------------------------------------------------------------- K01, K03: thousands of observations
def constellation(r, t):
    a, ph = float(r.uniform(0.5, 2)), float(r.choice([0.0, 0.125, 0.3]))
    K = komm
    return [lambda: K.PAMConstellation(int(r.integers(2, 9)), a), lambda: K.ASKConstellation(int(r.integers(2, 9)), a, ph),
            lambda: K.PSKConstellation(int(r.integers(2, 17)), a, ph),
            lambda: apsk(r, a, ph),
            lambda: K.QAMConstellation((int(r.integers(2, 5)), int(r.integers(2, 5))), (a, 1.5 * a), ph),
            lambda: K.CrossQAMConstellation(32, a, ph), lambda: K.OrthogonalConstellation(int(r.integers(2, 6)), a),
            lambda: K.BiorthogonalConstellation(2 * int(r.integers(1, 4)), a), lambda: K.SimplexConstellation(int(r.integers(2, 6)), a),
            lambda: K.Constellation(r.normal(size=(int(r.integers(2, 7)), 2)) + 1j * r.normal(size=(1, 2)))][t]()


def apsk(r, a, ph, parts=False):
    rings = int(r.integers(1, 8))
    orders = tuple(int(q) for q in r.integers(2, 9, size=rings))
    amps = tuple((a * np.cumsum(r.uniform(0.5, 1.5, size=rings))).tolist())
    ph = ph if r.integers(0, 2) else tuple(r.random(rings).tolist())
    c = komm.APSKConstellation(orders, amps, ph)
    f = np.broadcast_to(ph, rings)
    pts = np.concatenate([A * np.exp(2j * np.pi * (np.arange(k) / k + q)) for k, A, q in zip(orders, amps, f.tolist())])
    return (c, pts) if parts else c


@section("K01", 60, 600, scaled=False)
def detect_long(m, r, i):
    pts = None
    if i % 10 == 3:
        c, pts = apsk(r, 1.0, 0.125, parts=True)
    else:
        c = constellation(r, i % 10)
    X = np.asarray(c.matrix)
    M, N = X.shape
    n = longer(r)
    m.note(constellation=c, n=n)
    s = r.integers(0, M, size=n)
    y = np.asarray(c.indices_to_symbols(s)).reshape(n, N)
    m.close(y, X[s], "symbols of a long index array", 1e-12, 1e-12)
    if pts is not None:
        m.close(X[:, 0], pts, "points of the rings", 1e-10, 1e-10)
    z = y + 0.6 * np.abs(X).mean() * (r.normal(size=y.shape) + (1j * r.normal(size=y.shape) if np.iscomplexobj(X) else 0))
    got = np.asarray(c.closest_indices(z.reshape(-1)))
    m.shape(got, (n,), "one index per symbol")
    d = np.empty((n, M))
    for k in range(M):
        d[:, k] = np.sum(np.abs(z - X[k]) ** 2, axis=1)
    slack = d[np.arange(n), got] - d.min(axis=1) if got.shape == (n,) else np.array([1.0])
    m.ok(float(slack.max()) <= 1e-9 * (1 + float(d.max())), lambda: f"observation {int(slack.argmax())} of {n} detected {slack.max()} farther than the nearest point")
    m.close(np.asarray(c.closest_symbols(z.reshape(-1))).reshape(-1), X[got].reshape(-1), "closest symbols", 1e-12, 1e-12)
    m.tag("symbols", n)


@section("K03", 60, 600, scaled=False)
def posterior_long(m, r, i):
    c = constellation(r, i % 10)
    X = np.asarray(c.matrix)
    M, N = X.shape
    n = longer(r)
    snr = float(10 ** r.uniform(-1, 2))
    pri = r.dirichlet(np.ones(M)) if r.integers(0, 2) else None
    m.note(constellation=c, n=n, snr=snr, priors=pri)
    z = X[r.integers(0, M, size=n)]
    z = z + np.abs(X).mean() * snr ** -0.5 * (r.normal(size=z.shape) + (1j * r.normal(size=z.shape) if np.iscomplexobj(X) else 0))
    got = np.asarray(c.posteriors(z.reshape(-1), snr, priors=pri))
    m.shape(got, (n * M,), "M posteriors per symbol")
    if got.shape != (n * M,):
        return
    q = np.full(M, 1 / M) if pri is None else pri
    E = float(np.sum(q * np.sum(np.abs(X) ** 2, axis=1)))
    got = got.reshape(n, M)
    m.close(got.sum(axis=1), np.ones(n), "posteriors sum to one", 1e-9, 1e-9)
    h = int(r.integers(1, 60))
    m.close(np.asarray(c.posteriors(z[-h:].reshape(-1), snr, priors=pri)).reshape(h, M), got[-h:], "a tail on its own", 1e-9, 1e-12)
    for j in r.integers(0, n, size=10).tolist():
        m.close(np.asarray(c.posteriors(z[j], snr, priors=pri)).reshape(-1), got[j], f"observation {j} on its own", 1e-9, 1e-12)
    # log-odds against the first symbol are affine in the squared distances with one common factor
    d = np.sum(np.abs(z[:, None, :] - X[None]) ** 2, axis=2)
    with np.errstate(divide="ignore"):
        lo = np.log(got) - np.log(q)
    lo, dd = lo[:, 1:] - lo[:, :1], d[:, 1:] - d[:, :1]
    ok = np.isfinite(lo) & (np.abs(dd) > 1e-3 * E) & (got[:, 1:] > 1e-200) & (got[:, :1] > 1e-200)
    if ok.sum() > 2:
        rho = -lo[ok] / dd[ok]
        m.close(rho, np.full(rho.shape, np.median(rho)), "one noise power for all observations", 1e-5, 0)
    m.tag("symbols", n)


# ---------------------------------------------------------------- G03
@section("G03", 45, 400, scaled=False)
def marginalize_long(m, r, i):
    nb = int(r.integers(1, 6))
    t = i % 5
    if t == 0:
        L = komm.Labeling(((np.arange(1 << nb)[:, None] >> np.arange(nb)) & 1)[r.permutation(1 << nb)])
    elif t == 1:
        L = komm.NaturalLabeling(nb)
    elif t == 2:
        L = komm.ReflectedLabeling(nb)
    elif t == 3:
        L = komm.ReflectedRectangularLabeling((int(r.integers(1, 4)), int(r.integers(1, 4))))
    else:
        L = komm.ProductLabeling(*[komm.ReflectedLabeling(int(r.integers(1, 3))) for _ in range(int(r.integers(2, 6)))])
        if L.num_bits > 6:
            L = komm.ProductLabeling(komm.NaturalLabeling(1), komm.ReflectedLabeling(2), repeat=1)
    W = np.asarray(L.matrix)
    M, nb = W.shape
    n = min(longer(r), 400_000 // M)
    P = r.random((n, M)) ** float(r.choice([1, 8]))
    m.note(labeling=L, n=n)
    got = np.asarray(L.marginalize(P.reshape(-1)))
    m.shape(got, (n * nb,), "one L-value per bit")
    want = np.log(P @ (W == 0)) - np.log(P @ (W == 1))
    m.close(got.reshape(-1), want.reshape(-1), "L-values", 1e-9, 1e-9)
    m.tag("blocks", n)


# ---------------------------------------------------------------- F02, F03: thousands of stages
def machine(r, smax=5):
    S, X, Y = int(r.integers(1, smax)), int(r.integers(1, 4)), int(r.integers(2, 5))
    return komm.MealyMachine(r.integers(0, S, size=(S, X)), r.integers(0, Y, size=(S, X))), S, X, Y


@section("F02", 12, 100, scaled=False)
def viterbi_long(m, r, i):
    f, S, X, Y = machine(r)
    T, O = np.asarray(f.transitions), np.asarray(f.outputs)
    L = int(r.choice([1023, 1025, 2048, 3001, 4097]))
    cost = r.random((L, Y)) if i % 2 else r.integers(0, 3, size=(L, Y)).astype(float)
    init = np.full(S, np.inf)
    init[int(r.integers(0, S))] = 0.0
    if r.integers(0, 2):
        init = r.random(S) * 3
    m.note(machine=f, L=L, init=init)
    xs, fm = f.viterbi(np.arange(L), lambda y, z: float(cost[z, y]), init)
    best = np.array(init, float)
    for t in range(L):
        new = np.full(S, np.inf)
        np.minimum.at(new, T.reshape(-1), (best[:, None] + cost[t][O]).reshape(-1))
        best = new
    m.close(np.asarray(fm), best, "final metrics", 1e-9, 1e-9)
    xs = np.asarray(xs)
    m.shape(xs, (L, S), "one path per final state")
    for s1 in range(S):
        if not np.isfinite(best[s1]):
            continue
        cand = np.array(init, float)  # run the claimed inputs from every start at once
        st = np.arange(S)
        for t in range(L):
            a = int(xs[t, s1])
            cand = cand + cost[t][O[st, a]]
            st = T[st, a]
        ok = np.where(st == s1, cand, np.inf)
        m.close(float(ok.min()), float(best[s1]), f"metric of the path claimed for final state {s1}", 1e-9, 1e-9)
    m.tag("stages", L)


@section("F03", 12, 100, scaled=False)
def posterior_stages(m, r, i):
    f, S, X, Y = machine(r, 4)
    T, O = np.asarray(f.transitions), np.asarray(f.outputs)
    L = int(r.choice([400, 700, 1025, 1500]))
    ll = np.log(r.dirichlet(np.ones(Y), size=L)) * float(r.choice([1.0, 5.0]))
    pri = r.dirichlet(np.ones(X), size=L)
    a0, bL = r.dirichlet(np.ones(S)), r.dirichlet(np.ones(S))
    m.note(machine=f, L=L)
    got = np.asarray(f.forward_backward(np.arange(L), lambda y, z: float(ll[z, y]), pri, a0, bL))
    al, be = np.empty((L + 1, S)), np.empty((L + 1, S))
    al[0], be[L] = a0, bL
    g = np.exp(ll - ll.max(axis=1, keepdims=True))
    for t in range(L):
        new = np.zeros(S)
        np.add.at(new, T.reshape(-1), (al[t][:, None] * pri[t] * g[t][O]).reshape(-1))
        al[t + 1] = new / new.sum()
    for t in range(L - 1, -1, -1):
        new = (pri[t] * g[t][O] * be[t + 1][T]).sum(axis=1)
        be[t] = new / new.sum()
    want = np.array([(al[t][:, None] * pri[t] * g[t][O] * be[t + 1][T]).sum(axis=0) for t in range(L)])
    want /= want.sum(axis=1, keepdims=True)
    m.close(got, want, "posteriors of every stage", 1e-7, 1e-10)
    m.tag("stages", L)


# ---------------------------------------------------------------- D04, B07: deep polar codes
def polar_words(U):
    """Rows times the Kronecker power of [[1,0],[1,1]], by the recursion on halves."""
    n = U.shape[-1]
    if n == 1:
        return U
    a, b = polar_words(U[..., :n // 2]), polar_words(U[..., n // 2:])
    return np.concatenate([a ^ b, b], axis=-1)


def sc_reference(L, frozen):
    n = len(L)
    if n == 1:
        b = 0 if 0 in frozen else int(L[0] < 0)
        return [L[0]], [b], np.array([b])
    p, q = L[:n // 2], L[n // 2:]
    h = n // 2
    f = np.sign(p) * np.sign(q) * np.minimum(np.abs(p), np.abs(q)) + np.log1p(np.exp(-np.abs(p + q))) - np.log1p(np.exp(-np.abs(p - q)))
    l1, u1, x1 = sc_reference(f, {t for t in frozen if t < h})
    l2, u2, x2 = sc_reference(q + (1 - 2 * x1) * p, {t - h for t in frozen if t >= h})
    return l1 + l2, u1 + u2, np.concatenate([x1 ^ x2, x2])


@section("D04", 12, 100, scaled=False)
def sc_deep(m, r, i):
    mu = int(r.choice([9, 10, 11])) if i % 2 else int(r.choice([9, 10]))
    n = 1 << mu
    k = int(r.choice([1, n // 8, n // 4, 2 * n // 5]))
    z = np.array([0.3])
    for _ in range(mu):  # the k best synthetic channels are used
        z = np.stack([2 * z - z * z, z * z], axis=1).reshape(-1)
    frozen = np.sort(np.argsort(-z, kind="stable")[:n - k])
    c = komm.PolarCode(mu, frozen)
    act = np.setdiff1d(np.arange(n), frozen)
    U = np.zeros((1, n), int)
    U[0, act] = r.integers(0, 2, size=k)
    x = polar_words(U)[0]
    L = (1 - 2 * x) * 2.0 + r.normal(size=n) * float(r.choice([0.1, 0.7, 1.0]))
    m.note(mu=mu, k=k, L=L)
    lo, u, _ = sc_reference(L, set(frozen.tolist()))
    got = np.asarray(komm.SCDecoder(c).decode(L), float)
    want = np.array(lo)[act]
    if np.min(np.abs(want)) > 1e-4:
        m.close(got, want, "soft decisions", 1e-6, 1e-7)
        m.arr(np.asarray(komm.SCDecoder(c, output_type="hard").decode(L)), np.array(u)[act], "hard decisions")
    else:
        m.trivial()
    m.tag("depth", mu)


@section("B07", 12, 100, scaled=False)
def polar_deep(m, r, i):
    mu = int(r.choice([9, 10, 11, 12])) if i % 3 else 9
    n = 1 << mu
    k = int(r.choice([1, 5, 60, 200]))
    act = np.sort(r.permutation(n)[:k])
    c = komm.PolarCode(mu, np.setdiff1d(np.arange(n), act))
    U = np.zeros((int(r.integers(1, 5)), n), int)
    U[:, act] = r.integers(0, 2, size=(len(U), k))
    m.note(mu=mu, k=k)
    m.arr(c.encode(U[:, act]), polar_words(U), "encoding")
    j = r.integers(0, k, size=3)
    E = np.zeros((3, n), int)
    E[np.arange(3), act[j]] = 1
    m.arr(np.asarray(c.generator_matrix)[j], polar_words(E), "rows of the generator matrix")
    m.arr(c.active, act, "active positions")


# ---------------------------------------------------------------- B05, B06: long cyclic and BCH codes
def minimal_poly(e, mod, n):
    """Minimal polynomial of alpha^e in GF(2)[X]/mod, by conjugates, as an integer."""
    conj, x = [], e % n
    while x not in conj:
        conj.append(x)
        x = 2 * x % n
    p = [1]  # coefficients in the field, lowest first
    for c in conj:
        root = ref.ppowmod(2, c, mod)
        q = [0] * (len(p) + 1)
        for a, co in enumerate(p):
            q[a + 1] ^= co
            q[a] ^= ref.pmulmod(co, root, mod)
        p = q
    assert all(v in (0, 1) for v in p)
    return sum(v << a for a, v in enumerate(p))


PRIM = {8: 0b100011101, 9: 0b1000010001, 10: 0b10000001001, 11: 0b100000000101, 12: 0b1000001010011}


@section("B05", 24, 240, scaled=False)
def cyclic_long(m, r, i):
    mu = int(r.choice([8, 9, 10, 11]))
    n, mod = (1 << mu) - 1, PRIM[mu]
    reps = []
    g = 1
    for _ in range(int(r.integers(1, 6))):
        e = int(r.integers(0, n))
        if any(e in q for q in reps):
            continue
        q, x = [], e
        while x not in q:
            q.append(x)
            x = 2 * x % n
        reps.append(q)
        g = ref.pmul(g, minimal_poly(e, mod, n))
    h, rem = ref.pdivmod(1 << n | 1, g)
    assert rem == 0
    sysm = bool(r.integers(0, 2))
    c = komm.CyclicCode(n, generator_polynomial=g, systematic=sysm) if r.integers(0, 2) else komm.CyclicCode(n, check_polynomial=h, systematic=sysm)
    k, mm = n - ref.deg(g), ref.deg(g)
    m.note(n=n, g=g, systematic=sysm)
    m.eq((c.length, c.dimension, c.redundancy), (n, k, mm), "parameters")
    m.eq((int(c.generator_polynomial), int(c.check_polynomial)), (g, h), "polynomials")
    u = r.integers(0, 2, size=(2, k))
    v = np.asarray(c.encode(u), int)
    for a, b in zip(u, v):
        ui, vi = ref.v2i(a), ref.v2i(b)
        want = ref.pmul(ui, g) if not sysm else (ui << mm) ^ ref.pmod(ui << mm, g)
        m.eq(vi, want, "codeword")
    m.arr(np.asarray(c.inverse_encode(v)), u, "inverse encoding")
    s = int(r.integers(1, n))
    m.ok(not np.any(c.check(np.roll(v, s, axis=1))), f"the cyclic shift by {s} is not a codeword")
    e = np.zeros(n, int)
    e[int(r.integers(0, n))] = 1
    m.ok(bool(np.any(c.check(v[0] ^ e))) or mm == 0, "a single error is not noticed")
    w = v[0] ^ e
    if sysm:
        m.eq(ref.v2i(np.asarray(c.check(w))), ref.pmod(ref.v2i(w), g), "syndrome")
    m.tag("length", n)


@section("B06", 15, 120, scaled=False)
def bch_long(m, r, i):
    mu = int(r.choice([8, 9, 10]))
    n = (1 << mu) - 1
    K = komm.FiniteBifield(mu)
    mod = int(K.modulus)
    bose = []
    covered = set()
    for d in range(2, 40):
        for e in (d - 1,):
            x = e
            while x % n not in covered:
                covered.add(x % n)
                x = 2 * x % n
        if d % n not in covered:
            bose.append(d)
    delta = int(r.choice([d for d in bose if d <= (33 if mu < 10 else 15)]))
    c = komm.BCHCode(mu, delta)
    g, seen = 1, set()
    for e in range(1, delta):
        if e in seen:
            continue
        x = e
        while x not in seen:
            seen.add(x)
            x = 2 * x % n
        g = ref.pmul(g, minimal_poly(e, mod, n))
    m.note(mu=mu, delta=delta)
    m.eq(int(c.generator_polynomial), g, "generator polynomial")
    m.eq((c.length, c.redundancy), (n, ref.deg(g)), "length and redundancy")
    v = np.asarray(c.encode(r.integers(0, 2, size=c.dimension)), int)
    t = (delta - 1) // 2
    p = r.permutation(n)[:int(r.integers(1, t + 1)) if t else 0]
    w = v.copy()
    w[p] ^= 1
    S = c.bch_syndrome(komm.BinaryPolynomial(ref.v2i(w)))
    want = []
    for j in range(1, delta):
        s = 0
        for q in p.tolist():
            s ^= ref.ppowmod(2, q * j % n, mod)
        want.append(s)
    m.eq([int(s.value) if hasattr(s, "value") else int(s) for s in S], want, "syndromes at the designed roots")
    m.tag("mu", mu)


@section("D02", 8, 60, scaled=False)
def berlekamp_long(m, r, i):
    mu = int(r.choice([8, 9]))
    delta = int(r.choice([3, 5, 7, 9, 11]))
    c = komm.BCHCode(mu, delta)
    t = (delta - 1) // 2
    u = r.integers(0, 2, size=c.dimension)
    w = np.asarray(c.encode(u), int)
    p = r.permutation(c.length)[:int(r.integers(1, t + 1))]
    w[p] ^= 1
    m.note(mu=mu, delta=delta, errors=p, u=u)
    m.arr(np.asarray(komm.BerlekampDecoder(c).decode(w)), u, "corrected message")
    m.tag("mu", mu)


# ---------------------------------------------------------------- B03: far rows and columns of the standard array
@section("B03", 30, 300, scaled=False)
def slepian_far(m, r, i):
    k, mm = int(r.integers(1, 13)), int(r.integers(6, 13))
    P = r.integers(0, 2, size=(k, mm))
    c = komm.SystematicBlockCode(P)
    s = komm.SlepianArray(c)
    G, H, L = np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int), np.asarray(c.coset_leaders(), int)
    m.note(k=k, m=mm, P=P)
    rows = [int(q) for q in r.integers(0, 1 << mm, size=24)] + [(1 << mm) - 1]
    for a in rows:
        j = int(r.integers(0, 1 << k))
        w = (L[a] + (j >> np.arange(k) & 1) @ G) % 2
        m.arr(s.entry(a, j), w, f"entry ({a}, {j})")
        m.eq(ref.v2i(w @ H.T % 2), a, "syndrome of the row")
    j = int(r.integers(0, 1 << k))
    if mm <= 10:
        m.arr(s.col(j), (L + (j >> np.arange(k) & 1) @ G) % 2, "column of the standard array")


# ---------------------------------------------------------------- C02: wide alphabets
@section("C02", 6, 40, scaled=False)
def wide_alphabet(m, r, i):
    t = i % 3
    a, b = [(300, 300), (3, 70000), (40000, 2)][t] if i < 6 else (logint(r, 2, 900), logint(r, 2, 900))
    t = t if i < 6 else 0
    W = np.zeros((a, b))
    sup = r.integers(0, b, size=(a, 2)) if b > 2 else np.tile([0, 1], (a, 1))
    if i < 6 and t == 1:
        sup = np.array([[65535, 65536], [255, 69999], [0, 256]])
    p = r.uniform(0.2, 0.8, size=a)
    W[np.arange(a), sup[:, 0]] += p
    W[np.arange(a), sup[:, 1]] += 1 - p
    ch = komm.DiscreteMemorylessChannel(W, rng=np.random.default_rng(int(r.integers(0, 2**31))))
    x = r.integers(0, a, size=2000)
    m.note(alphabets=(a, b))
    y = np.asarray(ch.transmit(x))
    m.shape(y, x.shape, "shape")
    hit0, hit1 = y == sup[x, 0], y == sup[x, 1]
    m.ok(bool(np.all(hit0 | hit1)), lambda: f"output {y[~(hit0 | hit1)][0]} is impossible for input {x[~(hit0 | hit1)][0]}")
    e = np.where(sup[x, 0] == sup[x, 1], 0, hit0 - p[x])
    m.ok(abs(float(e.sum())) < 6 * math.sqrt(0.25 * len(x)), lambda: f"first branch taken {e.sum()} times too often in {len(x)}")
    m.tag("outputs", b)


# ---------------------------------------------------------------- M02: more states
@section("M02", 6, 60, scaled=False)
def many_states(m, r, i):
    n = int(r.choice([150, 200, 257, 300]))
    if i % 2:
        P = r.dirichlet(np.full(n, 0.3), size=n)
        c = komm.MarkovChain(P)
        m.note(n=n, kind="irreducible")
        pi = np.asarray(c.stationary_distribution())
        m.close(pi @ P, pi, "pi P = pi", 1e-9, 1e-12)
        m.close(float(pi.sum()), 1.0, "sum", 1e-9, 1e-9)
        m.ok(bool(np.all(pi >= -1e-15)), "negative stationary probability")
        return
    ab = np.sort(r.permutation(n)[:int(r.integers(1, 5))])
    P = r.dirichlet(np.full(n, 0.3), size=n)
    P[ab] = 0
    P[ab, ab] = 1
    tr = np.setdiff1d(np.arange(n), ab)
    c = komm.MarkovChain(P)
    m.note(n=n, absorbing=ab)
    Q, R = P[np.ix_(tr, tr)], P[np.ix_(tr, ab)]
    Nv, t, B = np.asarray(c.mean_number_of_visits()), np.asarray(c.mean_time_to_absorption()), np.asarray(c.absorption_probabilities())
    m.close(Nv, np.eye(len(tr)) + Q @ Nv, "mean visits", 1e-7, 1e-8)
    m.close(t, 1 + Q @ t, "mean times", 1e-7, 1e-8)
    m.close(B, R + Q @ B, "absorption probabilities", 1e-7, 1e-9)


# ---------------------------------------------------------------- L06, U02
@section("L06", 4, 24, scaled=False)
def unary_tall(m, r, i):
    x = np.array([int(r.choice([255, 256, 65535, 65536, 70001, 131073])) for _ in range(int(r.integers(1, 5)))] + [int(r.integers(0, 5))])
    r.shuffle(x)
    m.note(x=x)
    c = komm.UnaryCode()
    y = np.asarray(c.encode(x))
    want = np.ones(int(x.sum()) + len(x), int)
    want[np.cumsum(x + 1) - 1] = 0
    m.arr(y, want, "unary codewords")
    m.arr(c.decode(y), x, "round trip")


@section("U02", 12, 100, scaled=False)
def fourier_long(m, r, i):
    n = longer(r)
    nfft = None if r.integers(0, 2) else int(n + r.choice([-1000, -1, 1, 3000]))
    dt = float(10 ** r.uniform(-4, 2))
    ax = int(r.integers(0, 2))
    w = r.normal(size=(2, n)) + (1j * r.normal(size=(2, n)) if r.integers(0, 2) else 0)
    m.note(n=n, nfft=nfft, dt=dt)
    S, f = komm.fourier_transform(w.T if ax == 0 else w, dt, nfft, axis=ax if ax == 0 else -1)
    S = np.asarray(S).T if ax == 0 else np.asarray(S)
    N = nfft or n
    m.shape(S, (2, N), "shape")
    want = (np.arange(N) - N // 2) / (N * dt)
    m.close(np.asarray(f), want, "frequencies", 1e-9, 1e-12 / dt)
    t = np.arange(min(n, N))
    scale = float(np.sqrt(n) * dt)
    for k in r.integers(0, N, size=6).tolist():
        z = np.exp(-2j * np.pi * ((k - N // 2) * t % N) / N)
        m.close(S[:, k], (w[:, :len(t)] @ z) * dt, f"bin {k}", 1e-7, 1e-7 * scale)


# ---------------------------------------------------------------- decoders: hundreds of blocks at once
@section("D05", 9, 60, scaled=False)
def viterbi_many_blocks(m, r, i):
    c = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o3, 0o1]] if i % 2 else [[0o7, 0o5]]), int(r.integers(2, 5)),
                                         ["zero-termination", "direct-truncation"][int(r.integers(0, 2))])
    n = int(r.choice([257, 300, 520]))
    u = r.integers(0, 2, size=(n, c.dimension))
    v = np.asarray(c.encode(u), int)
    soft = bool(i % 3)
    y = 1 - 2.0 * v + 0.7 * r.normal(size=v.shape) if soft else v ^ (r.random(v.shape) < 0.1)
    d = komm.ViterbiDecoder(c, input_type="soft" if soft else "hard")
    m.note(code=c, blocks=n, soft=soft)
    got = np.asarray(d.decode(y.reshape(-1)), int)
    m.shape(got, (n * c.dimension,), "all messages")
    A = np.asarray(c.codewords(), int)
    cost = (y @ A.T * -1.0) if soft else (y[:, None, :] != A[None]).sum(axis=2).astype(float)
    enc = np.asarray(c.encode(got.reshape(n, -1)), int)
    mine = -(y * enc).sum(axis=1) if soft else (y != enc).sum(axis=1)
    if soft:  # correlation with 1 - 2v: minimising it means minimising sum of y over the ones
        mine, cost = (y * enc).sum(axis=1), y @ A.T
    m.close(mine.astype(float), cost.min(axis=1), "maximum likelihood in every block", 1e-9, 1e-9)
    m.tag("blocks", n)


@section("D06", 9, 60, scaled=False)
def bcjr_many_blocks(m, r, i):
    c = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o3, 0o1]] if i % 2 else [[0o7, 0o5]]), int(r.integers(2, 4)), "zero-termination")
    n = int(r.choice([257, 300]))
    A, k = np.asarray(c.codewords(), int), c.dimension
    U = np.arange(1 << k)[:, None] >> np.arange(k) & 1
    v = A[r.integers(0, 1 << k, size=n)]
    L = (1 - 2.0 * v) * 2 + 2 * r.normal(size=v.shape)
    m.note(code=c, blocks=n)
    got = np.asarray(komm.BCJRDecoder(c).decode(L.reshape(-1)), float)
    m.shape(got, (n * k,), "all L-values")
    E = np.exp(-(L @ A.T) + np.minimum(L, 0).sum(axis=1, keepdims=True))
    want = np.log(E @ (U == 0)) - np.log(E @ (U == 1))
    m.close(got.reshape(n, k), want, "bitwise posteriors in every block", 1e-7, 1e-8)
    m.tag("blocks", n)
