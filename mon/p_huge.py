"""Sizes far beyond the ordinary: polynomials of tens of thousands of coefficients, chains of hundreds of states."""

import numpy as np

import komm
from komm import BinaryPolynomial as BP

from . import ref
from .core import section
from .p_large import logint


def spread(a):
    """The square of a binary polynomial: its bits spread apart."""
    return int("0".join(bin(a)[2:]), 2)


@section("A01", 6, 40, scaled=False)
def ring_huge(m, r, i):
    d, e = logint(r, 6000, 30000), logint(r, 6000, 30000)
    a = (1 << d) | int.from_bytes(r.bytes(d // 8), "little")
    b = (1 << e) | int.from_bytes(r.bytes(e // 8), "little")
    s = 1 | sum(1 << int(x) for x in r.integers(0, d, size=12)) | 1 << d  # sparse
    m.note(degrees=(d, e))
    A, B, S = BP(a), BP(b), BP(s)
    m.eq((A.degree, B.degree), (d, e), "degrees")
    m.eq(int(A + B), a ^ b, "sum")
    want = 0
    for k in range(s.bit_length()):
        if s >> k & 1:
            want ^= b << k
    m.eq(int(S * B), want, "product, sparse first")
    m.eq(int(B * S), want, "product, sparse second")
    m.eq(int(A * A), spread(a), "square")
    m.eq(int(A ** 2), spread(a), "second power")
    rem = int.from_bytes(r.bytes(e // 8), "little") & ((1 << (e - 1)) - 1)
    q, t = divmod(BP(want ^ rem), B)
    m.eq((int(q), int(t)), (s, rem), "quotient and remainder")
    m.eq((int(BP(want ^ rem) // B), int(BP(want ^ rem) % B)), (s, rem), "operators")
    w = d + int(r.integers(1, 5000))
    c = np.asarray(A.coefficients(w), int)
    m.eq("".join(map(str, c[::-1].tolist())), bin(a)[2:].zfill(w), "coefficients")
    m.eq(int(BP.from_coefficients(c)), a, "coefficients round trip")
    m.eq(np.asarray(S.exponents()).tolist(), [k for k in range(d + 1) if s >> k & 1], "exponents")
    m.eq(int(BP.from_exponents(np.asarray(S.exponents())[::-1])), s, "exponents round trip")
    m.eq(int(A.reciprocal()), int(bin(a)[2:][::-1], 2), "reciprocal")
    n = logint(r, 1000, 80000)
    m.eq((int(A << n), int(A >> (n % d))), (a << n, a >> (n % d)), "shifts")
    m.tag("degree", d)


@section("M03", 4, 30, scaled=False)
def many_states(m, r, i):
    """Chains of more than 256 states: a permutation is followed exactly, a sparse chain only along its arrows."""
    rng = np.random.default_rng(int(r.integers(0, 2**31)))
    S = [257, 300, 512, 1000][i % 4]
    pi = r.permutation(S)
    P = np.zeros((S, S))
    P[np.arange(S), pi] = 1.0
    if i // 4 % 2:
        for s in range(S):
            P[s, pi[s]] = 0.5
            P[s, (s + 1) % S] += 0.5
    m.note(S=S, split=i // 4 % 2)
    c = komm.MarkovChain(P, rng=rng)
    s0 = int(r.integers(0, S))
    x = np.asarray(c.simulate(s0, 3000))
    m.shape(x, (3000,), "steps")
    m.eq(int(x[0]), s0, "initial state")
    m.ok(bool(np.all((x >= 0) & (x < S)) and np.all(P[x[:-1], x[1:]] > 0)), "only arrows of the chain are followed")
    T = np.zeros((S, S))  # a ladder into one absorbing state, chosen high
    order = r.permutation(S)
    for k in range(S - 1):
        T[order[k], order[k + 1]] = 1.0
    T[order[-1], order[-1]] = 1.0
    c = komm.MarkovChain(T, rng=rng)
    k = int(r.integers(0, S))
    m.arr(np.asarray(c.simulate_until_absorption(int(order[k]))), order[k:], "walk into the absorbing state")
    m.tag("states", S)


def bch_roots(mu):
    """Smallest non-root after each designed distance, by cyclotomic cosets."""
    n = (1 << mu) - 1
    roots, out = set(), {}
    for d in range(2, n + 1):
        x = d - 1
        while x not in roots:
            roots.add(x)
            x = 2 * x % n
        out[d] = (d % n not in roots, len(roots))
    return out


@section("B06", 45, 600, scaled=False)
def all_distances(m, r, i):
    """Any designed distance of codes of length 31 to 1023: construction with the right dimension, or the refusal that names the next one."""
    mu = [5, 6, 7, 7, 8, 8, 9, 9, 10, 10][i % 10]
    n = (1 << mu) - 1
    table = bch_roots(mu)
    bose = [d for d in table if table[d][0]]
    k = i // 10 % 3
    if k == 0:
        d = int(r.choice(bose))
    elif k == 1:  # just after a Bose distance: the whole gap is skipped
        j = int(r.integers(max(0, len(bose) - 12), len(bose) - 1))
        d = bose[j] + 1
    else:
        d = int(r.integers(2, n + 1))
    m.note(mu=mu, delta=d)
    if not table[d][0]:
        nxt = next(b for b in bose if b > d)
        m.refuses(lambda: komm.BCHCode(mu, d), f"BCHCode({mu}, {d})")
        try:
            komm.BCHCode(mu, d)
        except ValueError as e:
            m.ok(str(nxt) in str(e).replace(",", " ").replace(")", " ").split(), lambda: f"refusal names {nxt}: {e}")
        m.tag("refused, gap", nxt - d)
        d = nxt
    c = komm.BCHCode(mu, d)
    m.eq((c.length, c.dimension, c.redundancy, c.delta), (n, n - table[d][1], table[d][1], d), "parameters")
    mod = int(komm.FiniteBifield(mu).modulus)
    a = [1]
    for _ in range(n - 1):
        a.append(ref.pmulmod(a[-1], 2, mod))
    pos = r.choice(n, size=int(r.integers(1, 4)), replace=False).tolist()
    s = c.bch_syndrome(BP.from_exponents(pos))
    m.eq(len(s), d - 1, "number of syndromes")
    for e in sorted({1, 2, d - 1, *r.integers(1, d, size=12).tolist()}):
        if e < d:
            want = 0
            for p in pos:
                want ^= a[p * e % n]
            m.eq(int(s[e - 1].value), want, f"syndrome {e} of the word with ones at {pos}")
    if mu < 10:
        s = c.bch_syndrome(c.generator_polynomial * BP(int(r.integers(1, 1 << min(c.dimension, 20)))))
        m.ok(all(int(x.value) == 0 for x in s), "syndromes of a codeword are zero")
    m.tag("built, distance", d)


@section("L05", 3, 20, scaled=False)
def wide_windows(m, r, i):
    """Search windows of tens of thousands of symbols with a repetition from their far end."""
    S = int(r.integers(40000, 70000))
    C = int(r.choice([4, 10, 300]))
    gap = int(r.integers(33000, S - 100))
    w = r.integers(0, 2, size=int(r.integers(30, 60)))
    x = np.concatenate([w, np.resize(r.integers(2, C, size=int(r.integers(1, 40))), gap), w, [C - 1]])
    kw = dict(search_size=S, lookahead_size=64, source_cardinality=C)
    m.note(gap=gap, **kw)
    for cls in (komm.LempelZiv77Code, komm.LempelZivSSCode):
        c = cls(**kw)
        t = c.source_to_tokens(x)
        m.arr(c.tokens_to_source(t), x, f"{cls.__name__}: tokens round trip")
        m.arr(c.decode(c.encode(x)), x, f"{cls.__name__}: round trip")
        if cls is komm.LempelZiv77Code:
            far = [k for k in t if k[1] >= len(w) - 1 and S - k[0] > gap]
        else:
            far = [k for k in t if k[0] == 1 and k[2] >= len(w) - 1 and k[1] > gap]
        m.ok(len(far) >= 1, lambda: f"{cls.__name__}: the repetition {gap} symbols back is found; last tokens {t[-4:]}")
    m.tag("distance", gap)


@section("D07", 10, 60, scaled=False)
def stream_many_states(m, r, i):
    """Codes of 256 to 1024 states, decoded as a stream in random pieces."""
    nu = [8, 9, 9, 10][i % 4]
    g = [(1 << nu) | 1 | int(r.integers(0, 1 << nu)) for _ in range(2)]
    while ref.pgcd(*g) != 1:
        g = [(1 << nu) | 1 | int(r.integers(0, 1 << nu)) for _ in range(2)]
    c = komm.ConvolutionalCode([g])
    T = 6 * nu
    L = T + int(r.integers(20, 60))
    u = r.integers(0, 2, size=L)
    soft = bool(i // 2 % 2)
    m.note(generators=g, traceback=T, u=u, soft=soft)
    v = np.asarray(c.encode(u), int)
    y = (1 - 2 * v) * r.uniform(0.5, 2.0, size=v.size) if soft else v
    d = komm.ViterbiStreamDecoder(c, T, input_type="soft" if soft else "hard")
    cuts = np.sort(r.integers(0, L + 1, size=3)) * 2
    out = np.concatenate([np.asarray(d.decode(p), int) for p in np.split(y, cuts)])
    m.arr(out[T:], u[:-T], "the message comes out after the traceback delay")
    m.tag("states", 1 << nu)


def leader_weights(H):
    """Weight of the lightest pattern of every syndrome, level by level over the whole space."""
    mm, n = H.shape
    cols = (np.asarray(H, dtype=np.int64).T << np.arange(mm)).sum(axis=1)
    w = np.full(1 << mm, -1, dtype=np.int64)
    w[0] = 0
    front, d = np.array([0]), 0
    while front.size:
        d += 1
        nxt = np.unique((front[:, None] ^ cols[None, :]).ravel())
        front = nxt[w[nxt] < 0]
        w[front] = d
    return w


@section("D01", 2, 12, scaled=False)
def many_cosets(m, r, i):
    """Codes with 2^17 or 2^18 cosets: the table still answers with a nearest codeword."""
    mm = 17 if i % 3 else 18
    k = int(r.integers(1, 4))
    n = mm + k
    H = np.hstack([np.eye(mm, dtype=int), r.integers(0, 2, size=(mm, k))])[:, r.permutation(n)]
    c = komm.BlockCode(check_matrix=H)
    G = np.asarray(c.generator_matrix, int)
    C = ref.all_words(k) @ G % 2
    m.note(H=H)
    y = r.integers(0, 2, size=(40, n))
    best = np.array([(C != v).sum(axis=1).min() for v in y])
    for d in (komm.SyndromeTableDecoder(c), komm.ExhaustiveSearchDecoder(c)):
        v = np.asarray(c.encode(np.asarray(d.decode(y.reshape(-1)), int)), int).reshape(y.shape)
        m.arr((v != y).sum(axis=1), best, f"{type(d).__name__}: distance to the word sent on")
    m.tag("cosets", 1 << mm)


@section("B03", 2, 12, scaled=False)
def million_cosets(m, r, i):
    """Coset weights of codes with hundreds of thousands of cosets."""
    mm = 18
    k = 1 + i // 2 % 2
    P = np.ones((mm, k), dtype=int) if i % 2 == 0 else r.integers(0, 2, size=(mm, k))
    H = np.hstack([np.eye(mm, dtype=int), P])
    m.note(H=H)
    c = komm.BlockCode(check_matrix=H)
    w = leader_weights(np.asarray(c.check_matrix, int))
    m.arr(np.asarray(c.coset_leader_weight_distribution(), int), np.bincount(w, minlength=mm + k + 1), "number of leaders of each weight")
    m.eq(int(c.covering_radius()), int(w.max()), "covering radius")
    m.tag("cosets", 1 << mm)


@section("G01", 3, 12, scaled=False)
def labels_17_bits(m, r, i):
    nb = 17
    L = [lambda: komm.ReflectedRectangularLabeling((9, 8)), lambda: komm.NaturalLabeling(nb), lambda: komm.ReflectedLabeling(nb),
         lambda: komm.ProductLabeling(komm.ReflectedLabeling(9), komm.NaturalLabeling(8))][i % 4]()
    g = lambda x: x ^ x >> 1
    word = [lambda x: g(x >> 8) << 8 | g(x & 255), lambda x: x, g, lambda x: g(x >> 8) << 8 | x & 255][i % 4]
    m.note(labeling=L)
    m.eq((int(L.num_bits), int(L.cardinality)), (nb, 1 << nb), "size")
    x = np.append(r.integers(0, 1 << nb, size=59), (1 << nb) - 1)
    want = np.array([[word(int(v)) >> (nb - 1 - j) & 1 for j in range(nb)] for v in x]).reshape(-1)
    m.arr(np.asarray(L.indices_to_bits(x), int), want, "bits of the indices")
    m.arr(np.asarray(L.bits_to_indices(want), int), x, "indices of the bits")
    m.refuses(lambda: L.indices_to_bits([1 << nb]), "index beyond the last")
    m.tag("bits", nb)


@section("S03", 3, 20, scaled=False)
def default_shifts(m, r, i):
    """Thousands of elements and no shifts given: one value for each shift."""
    n = logint(r, 4100, 9000)
    x = r.normal(size=n) if i % 3 else r.integers(-9, 10, size=n)
    if i % 3 == 2:
        x = x + 1j * r.normal(size=n)
    m.note(n=n)
    a, c = np.asarray(komm.autocorrelation(x)), np.asarray(komm.cyclic_autocorrelation(x))
    m.shape(a, (n,), "autocorrelation")
    m.shape(c, (n,), "cyclic autocorrelation")
    if a.shape == c.shape == (n,):
        X = np.fft.fft(x, 2 * n)
        e = float((np.abs(x) ** 2).sum())
        m.close(a, np.fft.ifft(np.abs(X) ** 2)[:n] if np.iscomplexobj(x) else np.real(np.fft.ifft(np.abs(X) ** 2))[:n], "autocorrelation", 1e-9, 1e-9 * e)
        Y = np.fft.ifft(np.abs(np.fft.fft(x)) ** 2)
        m.close(c, Y if np.iscomplexobj(x) else np.real(Y), "cyclic autocorrelation", 1e-9, 1e-9 * e)
        m.close(np.asarray(komm.autocorrelation(x, normalized=True)), a / e, "normalised", 1e-12, 1e-15)
    m.tag("elements", n)


@section("F01", 40, 400, scaled=False)
def wide_symbols(m, r, i):
    """Output symbols that need up to 62 bits pass through unchanged."""
    S, X = int(r.integers(1, 6)), int(r.integers(1, 5))
    T = r.integers(0, S, size=(S, X))
    hi = 1 << int(r.integers(8, 63))
    moore = i % 2
    O = r.integers(0, hi, size=S if moore else (S, X))
    M = (komm.MooreMachine if moore else komm.MealyMachine)(T, O)
    u = r.integers(0, X, size=50)
    s0 = int(r.integers(0, S))
    m.note(machine=M, input=u, initial=s0)
    s, want = s0, []
    for x in u:
        if moore:
            s = int(T[s, x])
            want.append(int(O[s]))
        else:
            want.append(int(O[s, x]))
            s = int(T[s, x])
    y, f = M.process(u, s0)
    m.arr(y, want, "outputs")
    m.eq(int(f), s, "final state")
    m.eq(M.num_output_symbols, int(O.max()) + 1, "number of output symbols")


@section("Q01", 4, 40, scaled=False)
def many_levels(m, r, i):
    """Tens of thousands of levels: every index in range, every sample to the nearest side of its thresholds."""
    L = logint(r, 5000, 100000)
    step = float(2.0 ** r.integers(-12, 8))
    m.note(L=L, step=step, kind=i % 2)
    if i % 2:
        q = komm.UniformQuantizer(L, step)
        lev = (np.arange(L) - (L - 1) / 2) * step
    else:
        lev = np.cumsum(r.integers(1, 9, size=L)) * step
        q = komm.ScalarQuantizer(lev, (lev[:-1] + lev[1:]) / 2)
    m.arr(np.asarray(q.levels), lev, "levels")
    th = (lev[:-1] + lev[1:]) / 2
    m.arr(np.asarray(q.thresholds), th, "thresholds")
    k = np.append(r.integers(0, L, size=500), [0, L - 1])
    x = lev[k] + r.uniform(-0.45, 0.45, size=502) * step
    m.arr(np.asarray(q.digitize(x), int), k, "indices")
    m.arr(np.asarray(q.quantize(x)), lev[k], "quantized")
    j = r.integers(0, L - 1, size=200)
    m.arr(np.asarray(q.digitize(th[j]), int), j + 1, "a threshold belongs to the upper interval")
    m.arr(np.asarray(q.digitize([-np.inf, np.inf]), int), [0, L - 1], "infinities")
    m.tag("levels", L)


@section("D02", 60, 800, scaled=False)
def reed_near_ties(m, r, i):
    """Reliabilities that differ past the tenth digit, chosen so that every sum is exact: the decision follows the exact sum."""
    mu = int(r.integers(2, 6))
    rho = int(r.integers(0, mu))
    c = komm.ReedMullerCode(rho, mu)
    n = c.length
    e = int(r.integers(24, 44))  # bits after the point
    amp = float(2.0 ** r.integers(-60, 60))
    whole = ((1 << e) + r.integers(0, 5, size=n)) * (1 - 2 * r.integers(0, 2, size=n))
    u, bits, ties = [], [int(x < 0) for x in whole], False
    for row, part in zip(np.asarray(c.generator_matrix, int), c.reed_partitions()):
        dv = 0
        for s in np.asarray(part).tolist():
            dv += (1 - 2 * (sum(bits[p] for p in s) & 1)) * min(abs(int(whole[p])) for p in s)
        if dv == 0:
            ties = True
            break
        u.append(int(dv < 0))
        if u[-1]:
            bits = [x ^ int(y) for x, y in zip(bits, row)]
    l = whole * (amp / (1 << e))
    m.note(code=c, lvalues=l)
    got = np.asarray(komm.ReedDecoder(c, input_type="soft").decode(l), int)
    m.shape(got, (c.dimension,), "message")
    m.arr(got[: len(u)], np.array(u, int), "weighted majority in exact arithmetic")
    m.tag("tie" if ties else "complete")


@section("U02", 4, 40, scaled=False)
def long_kernels(m, r, i):
    """Two long operands, in either order and every mode; integers stay exact."""
    n, k = logint(r, 2100, 12000), logint(r, 2100, 6000)
    a, b = r.integers(-(2**20), 2**20, size=n), r.integers(-(2**20), 2**20, size=k)
    if i % 2:
        a = a + 1j * r.integers(-(2**20), 2**20, size=n)
    m.note(sizes=(n, k))
    full = np.convolve(a, b)
    lo = min(n, k) - 1
    m.arr(np.asarray(komm.convolve(a, b)), full, "full, integers exact")
    m.arr(np.asarray(komm.convolve(b, a)), full, "commutes")
    m.arr(np.asarray(komm.convolve(a, b, mode="valid")), full[lo: len(full) - lo], "valid")
    m.arr(np.asarray(komm.convolve(a, b, mode="same")), np.convolve(a, b, "same"), "same")
    m.arr(np.asarray(komm.convolve(b, np.stack([a, 2 * a], axis=1), axis=0)), np.stack([full, 2 * full], axis=1), "along the first axis")
    big = r.integers(2**60, 2**62, size=3000)
    f = int(r.integers(2, 9))
    z = np.asarray(komm.sampling_rate_expand(big, f))
    m.arr(z[::f], big, "expansion keeps large integers")
    m.arr(np.asarray(komm.sampling_rate_compress(z, f)), big, "compression keeps large integers")
    x = np.asarray(a, complex)
    t = float(10.0 ** r.uniform(-6, 3))
    N = len(x) if i % 3 else 2 * len(x) + 1
    s, fr = komm.fourier_transform(x, t, nfft=None if N == len(x) else N)
    j = np.append(r.integers(0, N, size=6), [0, N - 1])
    m.shape(s, (N,), "spectrum")
    kk = j - N // 2
    m.close(np.asarray(fr)[j], kk / (N * t), "frequencies", 1e-12, 1e-12 / t)
    ph = (kk[:, None] * np.arange(len(x))[None, :]) % N
    want = t * (x * np.exp(-2j * np.pi * ph / N)).sum(axis=1)
    m.close(np.asarray(s)[j], want, "spectrum", 1e-9, 1e-12 * t * float(np.abs(x).sum()))
    m.tag("samples", n)


@section("P02", 8, 80, scaled=False)
def many_taps(m, r, i):
    """Sampling grids of tens of thousands of points, far from the origin too."""
    a = float(r.uniform(0.05, 0.95))
    p = [lambda: komm.SincPulse(), lambda: komm.RaisedCosinePulse(a), lambda: komm.BeaulieuPulse(a), lambda: komm.RaisedCosinePulse(a).root(),
         lambda: komm.GaussianPulse(a), lambda: komm.RectangularPulse(a), lambda: komm.ManchesterPulse()][i % 7]()
    sps, T = logint(r, 100, 2000), logint(r, 30, 300)
    if sps * T > 120000:
        T = 120000 // sps
    lo, hi = -T, int(r.integers(0, T + 1))
    m.note(pulse=p, sps=sps, span=(lo, hi))
    h = np.asarray(p.taps(sps, (lo, hi)))
    m.shape(h, ((hi - lo) * sps + 1,), "taps")
    j = np.append(r.integers(0, len(h), size=400), [0, len(h) - 1])
    t = [(lo * sps + int(x)) / sps for x in j]
    m.close(h[j] if h.shape == ((hi - lo) * sps + 1,) else h, np.asarray(p.waveform(t)), "taps are samples of the waveform", 1e-11, 1e-13)
    if lo <= 0 <= hi and i % 7 < 3:
        m.close(h[::sps], (np.arange(lo, hi + 1) == 0).astype(float), "no intersymbol interference anywhere on the grid", 0, 1e-12)
    m.tag("taps", len(h))


@section("A01", 10, 100, scaled=False)
def sparse_huge(m, r, i):
    """A few terms of very large degree."""
    e = np.unique(np.append(r.integers(0, 1 << int(r.integers(14, 19)), size=int(r.integers(1, 12))), logint(r, 10000, 300000)))
    m.note(exponents=e)
    A = BP.from_exponents(e.tolist() if i % 2 else e)
    v = sum(1 << int(x) for x in e)
    m.eq(int(A), v, "value")
    m.eq(np.asarray(A.exponents()).tolist(), e.tolist(), "exponents")
    m.eq(A.degree, int(e[-1]), "degree")
    m.eq(np.flatnonzero(np.asarray(A.coefficients())).tolist(), e.tolist(), "coefficients")
    m.eq(int(A * A), sum(1 << 2 * int(x) for x in e), "square")
    if e[-1] < 1 << 15:
        m.eq([int(A.evaluate(BP(1))), int(A.evaluate(BP(0)))], [len(e) % 2, int(e[0] == 0)], "value at one and at zero")
    m.tag("degree", int(e[-1]))


@section("C01", 40, 600, scaled=False)
def tiny_inputs(m, r, i):
    """Input symbols, or output symbols, of very small probability: each still counts."""
    nx, ny = int(r.integers(2, 60)), int(r.integers(2, 60))
    w = 10.0 ** -r.uniform(9, [15, 30, 300][i % 3], size=nx)
    w[int(r.integers(0, nx))] = 1.0
    w /= w.sum()
    W = np.zeros((nx, ny))
    if i % 2:  # noiseless
        W[np.arange(nx), r.integers(0, ny, size=nx)] = 1.0
    else:
        W = 10.0 ** -r.uniform(0, 14, size=(nx, ny))
        W /= W.sum(axis=1, keepdims=True)
    m.note(input_pmf=w, matrix=W)
    D = komm.DiscreteMemorylessChannel(W)
    got = float(D.mutual_information(w))
    q = w @ W
    if i % 2:
        want = -sum(float(x) * np.log2(float(x)) for x in q if 0 < x < 1)
        big = int(np.argmax(q))
        rest = float(sum(x for j, x in enumerate(q) if j != big))
        want = -sum(float(x) * np.log2(float(x)) for j, x in enumerate(q) if x > 0 and j != big) - (1 - rest) * np.log1p(-rest) / np.log(2)
    else:
        H = lambda p: -sum(float(x) * np.log2(float(x)) for x in p if x > 0)
        want = H(q) - sum(float(a) * H(row) for a, row in zip(w, W))
    m.close(got, want, "mutual information", 1e-9, 3e-15 * (1 + nx + ny) ** 0.5)
    m.tag("noiseless" if i % 2 else "noisy")
