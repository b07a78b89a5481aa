"""G01-G03: labelings.  K01-K03: constellations."""
import itertools
import math

import numpy as np

import komm

from .core import rule, section

rule("G01", "Random labelings of every class (also nested products and random user matrices), random index and bit arrays of random "
     "shapes and types; oracle is the word list; out-of-domain arrays must be refused.")
rule("G02", "Every bit count 1..12, all rectangular sizes up to 6+6 bits, random factor lists and repeats; oracles: binary expansion, the "
     "recursive reflect-and-prefix construction, explicit Cartesian product, adjacency on the line and on the grid.")
rule("G03", "Random labelings and positive metrics over many decades, random shapes; oracle: exactly summed logarithms per label bit.")
rule("K01", "Random constellations of every family and received arrays (on-grid, near boundaries, far outside, random shapes and types); "
     "oracle: exhaustive distances to the constellation matrix.")
rule("K02", "Random parameters of every family; oracles: documented point formulas and sums/minima over the points, uniform and random priors.")
rule("K03", "Random constellations, noise powers over 10 decades, priors with zeros; oracle: log-domain Bayes computation in extended precision.")


# ---------------------------------------------------------------- labelings
def gray(m):
    if m == 0:
        return [()]
    g = gray(m - 1)
    return [(0,) + w for w in g] + [(1,) + w for w in reversed(g)]


def nat(m):
    return list(itertools.product((0, 1), repeat=m))


def rand_labeling(r, depth=0, mmax=6):
    """(labeling, list of words, description)."""
    t = int(r.integers(0, 6 if depth == 0 else 4))
    m = int(r.integers(1, mmax + 1))
    if t == 0:
        return komm.NaturalLabeling(m), nat(m), f"Natural({m})"
    if t == 1:
        return komm.ReflectedLabeling(m), gray(m), f"Reflected({m})"
    if t == 2:
        m = min(m, 5)
        W = nat(m)
        p = r.permutation(len(W))
        W = [W[int(j)] for j in p]
        dt = r.choice([int, np.uint8, np.int8, bool])
        return komm.Labeling(np.array(W, dtype=dt) if r.integers(0, 2) else [list(w) for w in W]), W, f"Labeling({W})"
    if t == 3:
        a, b = int(r.integers(1, 4)), int(r.integers(1, 4))
        if a == b and r.integers(0, 2):
            L = komm.ReflectedRectangularLabeling(2 * a)
        else:
            L = komm.ReflectedRectangularLabeling((a, b))
        return L, [x + y for x in gray(a) for y in gray(b)], f"Rect({a},{b})"
    k = int(r.integers(1, 4))
    parts = [rand_labeling(r, 1, 3) for _ in range(k)]
    tot = sum(len(p[1][0]) for p in parts)
    rep = int(r.integers(1, 4))
    while rep > 1 and tot * rep > 8:
        rep -= 1
    while tot > 8:
        parts.pop()
        tot = sum(len(p[1][0]) for p in parts)
        if not parts:
            return rand_labeling(r, 1, 3)
    W = [sum(c, ()) for c in itertools.product(*[p[1] for p in parts], repeat=rep)]
    if t == 5:
        L = komm.ProductLabeling.from_matrices(*[np.array(p[1]) for p in parts], repeat=rep)
    else:
        L = komm.ProductLabeling(*[p[0] for p in parts], repeat=rep)
    return L, W, f"Product({[p[2] for p in parts]},repeat={rep})"


SHAPES = [(), (), (2,), (3,), (1,), (2, 3), (1, 4), (2, 1, 2)]


def lead(r):
    return SHAPES[int(r.integers(0, len(SHAPES)))]


ITYPES = [int, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64]


def as_type(r, a, hi):
    if r.integers(0, 3) == 0:
        return a.tolist()
    dt = ITYPES[int(r.integers(0, len(ITYPES)))]
    if hi > np.iinfo(dt).max:
        dt = int
    return a.astype(dt)


@section("G01", 900, 12000)
def bijection(m, r, i):
    L, W, desc = rand_labeling(r)
    m.note(labeling=desc)
    nb, M = len(W[0]), len(W)
    m.eq((L.num_bits, L.cardinality), (nb, M), "num_bits and cardinality")
    m.arr(np.asarray(L.matrix).astype(int), np.array(W), "matrix rows")
    m.eq(len(set(map(tuple, np.asarray(L.matrix).astype(int).tolist()))), 2 ** nb, "every word exactly once")
    m.eq(dict(L.inverse_mapping), {w: j for j, w in enumerate(W)}, "inverse mapping")
    sh = lead(r) + (int(r.integers(1, 6)),)
    idx = r.integers(0, M, size=sh)
    m.note(indices=idx)
    want = np.array(W)[idx].reshape(sh[:-1] + (sh[-1] * nb,))
    bits = np.asarray(L.indices_to_bits(as_type(r, idx, M)))
    m.arr(bits.astype(int), want, "indices_to_bits concatenates the rows")
    back = L.bits_to_indices(bits)
    m.arr(back, idx, "bits_to_indices inverts indices_to_bits")
    wb = r.integers(0, 2, size=sh[:-1] + (sh[-1] * nb,))
    tab = {w: j for j, w in enumerate(W)}
    ref = np.array([tab[tuple(w)] for w in wb.reshape(-1, nb).tolist()]).reshape(sh)
    m.arr(L.bits_to_indices(as_type(r, wb, 1)), ref, "bits_to_indices")
    m.arr(np.asarray(L.bits_to_indices(wb.astype(bool))), ref, "bits_to_indices of boolean bits")
    j = int(r.integers(0, 4))
    if j == 0:
        bad = idx.copy()
        bad.flat[int(r.integers(0, bad.size))] = M + int(r.integers(0, 3))
        m.refuses(lambda: L.indices_to_bits(bad), "index beyond the cardinality")
    elif j == 1:
        bad = idx.copy()
        bad.flat[int(r.integers(0, bad.size))] = -1 - int(r.integers(0, 3))
        m.refuses(lambda: L.indices_to_bits(bad), "negative index")
    elif j == 2:
        bad = wb.copy()
        bad.flat[int(r.integers(0, bad.size))] = int(r.choice([2, 3, -1]))
        m.refuses(lambda: L.bits_to_indices(bad), "non-binary bits")
    elif nb > 1:
        bad = r.integers(0, 2, size=sh[:-1] + (sh[-1] * nb + int(r.integers(1, nb)),))
        m.refuses(lambda: L.bits_to_indices(bad), "length not a multiple of the number of bits")


@section("G01", 200, 2000)
def bad_matrices(m, r, i):
    nb = int(r.integers(1, 5))
    W = np.array(nat(nb))
    r.shuffle(W)
    t = i % 5
    m.note(t=t, W=W.tolist())
    if t == 0:
        W[0] = W[-1]
    elif t == 1:
        W = W[:-1]
    elif t == 2:
        W[int(r.integers(0, len(W))), int(r.integers(0, nb))] = int(r.choice([2, -1]))
    elif t == 3:
        W = np.vstack([W, W[:1]])
    else:
        W = W[:, :-1] if nb > 1 else W.ravel()
    m.refuses(lambda: komm.Labeling(W), "matrix that is not a bijection onto the m-bit words")


@section("G01", 60, 600)
def wide(m, r, i):
    """Closed-form conversions at large widths, without building the matrix."""
    nb = int(r.integers(13, 61))
    t = i % 2
    L = (komm.NaturalLabeling if t else komm.ReflectedLabeling)(nb, _pre_cache=False)
    idx = r.integers(0, 1 << nb, size=(2, 3))
    m.note(nb=nb, t=t, idx=idx)
    want = []
    for v in idx.ravel().tolist():
        g = v if t else v ^ (v >> 1)
        want.append([(g >> (nb - 1 - b)) & 1 for b in range(nb)])
    b = np.asarray(L.indices_to_bits(idx))
    m.arr(b, np.array(want).reshape(2, 3 * nb), "indices_to_bits")
    m.arr(L.bits_to_indices(b), idx, "round trip")
    m.eq((L.num_bits, L.cardinality), (nb, 2 ** nb), "sizes")


@section("G02", 12, 13, exhaustive=True)
def line(m, r, i):
    nb = i + 1
    m.note(m=nb)
    N = np.asarray(komm.NaturalLabeling(nb).matrix)
    m.arr(N, [[(x >> (nb - 1 - b)) & 1 for b in range(nb)] for x in range(2 ** nb)], "natural labeling is the MSB-first expansion")
    R = np.asarray(komm.ReflectedLabeling(nb).matrix)
    m.arr(R, np.array(gray(nb)), "reflected labeling is the standard reflected Gray code")
    m.arr((R != np.roll(R, 1, axis=0)).sum(axis=1), np.ones(2 ** nb, int) if nb > 0 else 0, "consecutive and wrap-around words differ in one bit")


@section("G02", 36, 36, exhaustive=True)
def grid(m, r, i):
    a, b = i // 6 + 1, i % 6 + 1
    m.note(a=a, b=b)
    Q = np.asarray(komm.ReflectedRectangularLabeling((a, b)).matrix)
    A, B = 2 ** a, 2 ** b
    m.arr(Q, np.array([x + y for x in gray(a) for y in gray(b)]), "rectangular labeling is the product of two reflected labelings")
    g = Q.reshape(A, B, a + b)
    m.ok(np.all((g[1:] != g[:-1]).sum(-1) == 1) and np.all((g[:, 1:] != g[:, :-1]).sum(-1) == 1), "Gray on the grid")
    if a == b:
        m.arr(komm.ReflectedRectangularLabeling(2 * a).matrix, Q, "single-integer form")
    else:
        m.refuses(lambda: komm.ReflectedRectangularLabeling(2 * a - 1), "odd total")


@section("G02", 300, 3000)
def products(m, r, i):
    parts = [rand_labeling(r, 1, 3) for _ in range(int(r.integers(1, 4)))]
    rep = int(r.integers(1, 4))
    while sum(len(p[1][0]) for p in parts) * rep > 9 and rep > 1:
        rep -= 1
    if sum(len(p[1][0]) for p in parts) > 10:
        parts = parts[:1]
    m.note(parts=[p[2] for p in parts], repeat=rep)
    W = [sum(c, ()) for c in itertools.product(*[p[1] for p in parts], repeat=rep)]
    m.arr(np.asarray(komm.ProductLabeling(*[p[0] for p in parts], repeat=rep).matrix).astype(int), np.array(W), "row-major Cartesian product")
    m.arr(np.asarray(komm.ProductLabeling.from_matrices(*[p[1] for p in parts], repeat=rep).matrix).astype(int), np.array(W), "from_matrices")
    m.refuses(lambda: komm.ProductLabeling(), "no factor")
    m.refuses(lambda: komm.ProductLabeling(parts[0][0], repeat=0), "repeat 0")


@section("G03", 900, 12000)
def marginal(m, r, i):
    L, W, desc = rand_labeling(r, mmax=5)
    nb, M = len(W[0]), len(W)
    sh = lead(r)
    nblk = int(r.integers(1, 4))
    t = i % 6
    if t == 0:
        P = r.dirichlet(np.ones(M), size=sh + (nblk,))
        P = np.maximum(P, 1e-9)
    elif t == 1:
        P = 10.0 ** r.uniform(-12, 12, size=sh + (nblk, M))
    elif t == 2:
        P = r.integers(1, 200, size=sh + (nblk, M)).astype(r.choice([int, np.uint8, np.int64, np.int16]))
    elif t == 3:
        P = np.zeros(sh + (nblk, M))
        idx = r.integers(0, M, size=sh + (nblk,))
        np.put_along_axis(P, idx[..., None], 1.0, axis=-1)
    elif t == 5:  # the two values of a bit can be further apart than a float's range
        P = 10.0 ** r.uniform(-305, 305, size=sh + (nblk, M))
    else:
        P = 10.0 ** r.uniform(-3, 3, size=sh + (nblk, M))
        P[..., int(r.integers(0, M))] = 0
    m.note(labeling=desc, metrics=P, t=t)
    got = np.asarray(L.marginalize(P.reshape(sh + (nblk * M,))))
    m.shape(got, sh + (nblk * nb,), "marginalize")
    flat, g = P.reshape(-1, M), got.reshape(-1, nb)
    for row, out in zip(flat.tolist(), g):
        for b in range(nb):
            s0 = math.fsum(x for x, w in zip(row, W) if w[b] == 0)
            s1 = math.fsum(x for x, w in zip(row, W) if w[b] == 1)
            want = math.inf if s1 == 0 else -math.inf if s0 == 0 else math.log(s0) - math.log(s1)
            m.close(out[b], want, f"L-value of label bit {b}", 1e-9, 1e-9)
    if t == 3:
        hard = (got < 0).astype(int)
        m.arr(L.bits_to_indices(hard), idx, "hard decisions of one-hot metrics reproduce the label")
        m.ok(np.all(np.isinf(got)), "one-hot metrics give infinite L-values")
    if M > 1:
        m.refuses(lambda: L.marginalize(np.ones(nblk * M + 1)), "length not a multiple of the cardinality")


# ---------------------------------------------------------------- constellations
def scale(r):
    return float(r.choice([1.0, 2.0, 0.5, float(10 ** r.uniform(-3, 3)), float(r.uniform(0.1, 5))]))


def offs(r):
    return float(r.choice([0.0, 0.0, 0.125, 0.25, 0.5, -0.3, 1.7, float(r.uniform(-2, 2))]))


def rot(phi):
    return complex(math.cos(2 * math.pi * phi), math.sin(2 * math.pi * phi))


FAMS = ["pam", "ask", "psk", "apsk", "qam", "cross", "orth", "biorth", "simplex", "user", "userc"]


def rand_con(r, fam=None, big=True):
    """(constellation, matrix from the documented formula, stats dict, description)."""
    fam = fam or str(r.choice(FAMS))
    st = {}
    if fam == "pam":
        M, d = int(r.integers(2, 20)), scale(r)
        X = np.array([[(2 * j - (M - 1)) * d / 2] for j in range(M)])
        C = komm.PAMConstellation(M, d) if r.integers(0, 4) else komm.PAMConstellation(order=M, delta=d)
        return C, X, f"PAM({M},{d})"
    if fam == "ask":
        M, A, p = int(r.integers(2, 20)), scale(r), offs(r)
        return komm.ASKConstellation(M, A, p), np.array([[j * A * rot(p)] for j in range(M)]), f"ASK({M},{A},{p})"
    if fam == "psk":
        M, A, p = int(r.integers(2, 20)), scale(r), offs(r)
        X = np.array([[A * rot(j / M) * rot(p)] for j in range(M)])
        return komm.PSKConstellation(M, A, p), X, f"PSK({M},{A},{p})"
    if fam == "apsk":
        K = int(r.integers(1, 4))
        Ms = tuple(int(v) for v in r.integers(2, 9, size=K))
        As = tuple(float(v) for v in np.cumsum(r.uniform(0.3, 2, size=K)) * scale(r))
        if r.integers(0, 2):  # rings in any order, nested orders, gaps of any size
            As = tuple(float(v) for v in r.permutation(np.cumsum(r.uniform(0.05, 2, size=K)) * scale(r)))
            if r.integers(0, 2):
                Ms = tuple(int(v) for v in r.choice([2, 4, 8], size=K))
        if r.integers(0, 2):
            ph = tuple(offs(r) for _ in range(K))
            C = komm.APSKConstellation(Ms, As, ph)
        else:
            p = offs(r)
            ph = (p,) * K
            C = komm.APSKConstellation(Ms, As, p)
        X = np.array([[A * rot(j / M) * rot(p)] for M, A, p in zip(Ms, As, ph) for j in range(M)])
        return C, X, f"APSK({Ms},{As},{ph})"
    if fam == "qam":
        p = offs(r)
        if r.integers(0, 2):
            s = int(r.integers(2, 9 if big else 5))
            o, (Mi, Mq) = s * s, (s, s)
        else:
            Mi, Mq = (int(v) for v in r.integers(2, 9 if big else 5, size=2))
            o = (Mi, Mq)
        if r.integers(0, 2):
            d = di = dq = scale(r)
        else:
            di = scale(r)
            dq = di * float(r.choice([1.0, 0.5, 1.7, 2.0]))
            d = (di, dq)
        C = komm.QAMConstellation(o, d, p) if r.integers(0, 2) else komm.QAMConstellation(orders=o, deltas=d, phase_offset=p)
        X = np.array([[complex((2 * a - (Mi - 1)) * di / 2, (2 * b - (Mq - 1)) * dq / 2) * rot(p)] for a in range(Mi) for b in range(Mq)])
        return C, X, f"QAM({o},{d},{p})"
    if fam == "cross":
        M, d, p = int(r.choice([32, 32, 128, 512] if big else [32])), scale(r), offs(r)
        k = M.bit_length() - 1
        Lg = 3 * 2 ** ((k - 3) // 2)
        ext = 2 ** ((k - 5) // 2)  # rows/columns added on each side
        pts = []
        for a in range(Lg):
            for b in range(Lg):
                ca = a < ext or a >= Lg - ext
                cb = b < ext or b >= Lg - ext
                if not (ca and cb):
                    pts.append([complex((2 * a - (Lg - 1)) * d / 2, (2 * b - (Lg - 1)) * d / 2) * rot(p)])
        return komm.CrossQAMConstellation(M, d, p), np.array(pts), f"CrossQAM({M},{d},{p})"
    if fam == "orth":
        M, A = int(r.integers(2, 9)), scale(r)
        return komm.OrthogonalConstellation(M, A), A * np.eye(M), f"Orthogonal({M},{A})"
    if fam == "biorth":
        N, A = int(r.integers(1, 7)), scale(r)
        return komm.BiorthogonalConstellation(2 * N, A), np.vstack([A * np.eye(N), -A * np.eye(N)]), f"Biorthogonal({2 * N},{A})"
    if fam == "simplex":
        M, A = int(r.integers(2, 9)), scale(r)
        return komm.SimplexConstellation(M, A), A * (np.eye(M) - 1.0 / M), f"Simplex({M},{A})"
    M, N = int(r.integers(2, 12)), int(r.integers(1, 4))
    while True:
        X = r.integers(-4, 5, size=(M, N)).astype(float) if r.integers(0, 2) else r.normal(size=(M, N)) * scale(r)
        if fam == "userc":
            X = X + 1j * (r.integers(-4, 5, size=(M, N)) if r.integers(0, 2) else r.normal(size=(M, N)))
        if len({tuple(x) for x in X.tolist()}) == M:
            break
    arg = X[:, 0] if N == 1 and r.integers(0, 2) else X if r.integers(0, 2) else X.tolist()
    if fam == "user" and np.all(X == np.round(X)) and r.integers(0, 2):
        arg = X.astype(int)
    return komm.Constellation(arg), X, f"Constellation({X.tolist()})"


@section("K02", 1200, 15000)
def statistics(m, r, i):
    C, X, desc = rand_con(r, FAMS[i % len(FAMS)])
    m.note(con=desc)
    M, N = X.shape
    amp = np.abs(X).max()
    m.eq((C.order, C.dimension), (M, N), "order and dimension")
    m.close(C.matrix, X, "constellation points", 1e-12, 1e-13 * amp + 2e-15)
    m.eq(np.iscomplexobj(C.matrix), np.iscomplexobj(X), "real or complex entries")
    E = lambda p: math.fsum(float(q) * math.fsum(np.abs(x) ** 2) for q, x in zip(p, X))
    D = [float(np.linalg.norm(X[a] - X[b])) for a in range(M) for b in range(a)] if M <= 130 else None
    m.close(C.minimum_distance(), min(D) if D is not None else float(np.min([np.min(np.linalg.norm(X[:a] - X[a], axis=1)) for a in range(1, M)])),
            "minimum distance", 1e-9, 1e-13 * amp + 4e-15)
    u = np.full(M, 1 / M)
    m.close(C.mean(), (u[:, None] * X).sum(axis=0), "mean, uniform priors", 1e-9, 1e-11 * amp + 1e-15)
    m.close(C.mean_energy(), E(u), "mean energy, uniform priors", 1e-9, 1e-13 * amp**2 + 1e-18)
    t = int(r.integers(0, 3))
    p = r.dirichlet(np.full(M, 0.4)) if t == 0 else u if t == 1 else np.eye(M)[int(r.integers(0, M))]
    p = p / p.sum()
    m.note(priors=p)
    arg = p.tolist() if r.integers(0, 2) else p
    m.close(C.mean(arg), (p[:, None] * X).sum(axis=0), "mean, given priors", 1e-9, 1e-11 * amp + 1e-15)
    m.close(C.mean_energy(arg), E(p), "mean energy, given priors", 1e-9, 1e-13 * amp**2 + 1e-18)
    j = int(r.integers(0, 8))
    if j == 0:
        m.refuses(lambda: C.mean(np.full(M + 1, 1 / (M + 1))), "priors of the wrong length")
        m.refuses(lambda: C.mean_energy(np.full(M + 1, 1 / (M + 1))), "priors of the wrong length")
    if j == 1:
        m.refuses(lambda: C.mean_energy(np.full(M, 2 / M)), "priors that do not sum to one")


@section("K02", 40, 200)
def bad_parameters(m, r, i):
    t = i % 4
    m.note(t=t)
    if t == 0:
        n = int(r.choice([2, 3, 5, 6, 7, 8, 15, 24, 32, 48]))
        m.refuses(lambda: komm.QAMConstellation(n), f"QAM order {n} not a perfect square")
    elif t == 1:
        n = int(r.choice([2, 8, 16, 64, 31, 33, 256, 1024, 96]))
        m.refuses(lambda: komm.CrossQAMConstellation(n), f"cross QAM order {n}")
    elif t == 2:
        n = 2 * int(r.integers(0, 9)) + 1
        m.refuses(lambda: komm.BiorthogonalConstellation(n), f"odd order {n}")
    else:
        m.refuses(lambda: komm.Constellation(np.zeros((2, 2, 2))), "three-dimensional matrix")


def received_points(r, X, kind, cnt):
    M, N = X.shape
    cx = np.iscomplexobj(X)
    amp = np.abs(X).max() + 1e-300
    rnd = lambda: r.normal(size=(cnt, N)) + (1j * r.normal(size=(cnt, N)) if cx else 0)
    if kind == 0:  # on the grid plus small noise
        return X[r.integers(0, M, size=cnt)] + 1e-3 * amp * rnd()
    if kind == 1:
        return amp * rnd()
    if kind == 2:  # near midpoints
        a, b = X[r.integers(0, M, size=cnt)], X[r.integers(0, M, size=cnt)]
        return (a + b) / 2 + amp * 10.0 ** -r.uniform(1, 9) * rnd()
    if kind == 3:  # far away
        return amp * 10.0 ** r.uniform(0, 25, size=(cnt, 1)) * rnd()
    if kind == 4:
        z = np.round(4 * rnd().real) + (1j * np.round(4 * rnd().real) if cx else 0)
        return z
    return X[r.integers(0, M, size=cnt)].copy()


@section("K01", 1200, 15000)
def nearest(m, r, i):
    C, X, desc = rand_con(r, FAMS[i % len(FAMS)])
    M, N = X.shape
    Xk = np.asarray(C.matrix)
    sh = lead(r)
    nb = int(r.integers(1, 6))
    idx = r.integers(0, M, size=sh + (nb,))
    m.note(con=desc, idx=idx)
    s = np.asarray(C.indices_to_symbols(as_type(r, idx, M)))
    m.arr(s, Xk[idx].reshape(sh + (nb * N,)), "indices_to_symbols concatenates the rows")
    m.arr(C.closest_indices(s), idx, "detection inverts mapping")
    m.close(C.closest_symbols(s), s, "closest_symbols of a noiseless sequence", 0, 0)
    kind = int(r.integers(0, 6))
    cnt = int(np.prod(sh, dtype=int)) * nb
    Y = received_points(r, X, kind, cnt)
    m.note(Y=Y, kind=kind)
    y = Y.reshape(sh + (nb * N,))
    if kind == 4 and not np.iscomplexobj(y):
        t = int(r.integers(0, 3))
        y = y.astype(int) if t == 0 else np.abs(y).astype(np.uint8) if t == 1 else y.astype(np.int8)
        Y = np.asarray(y, float).reshape(-1, N)
    j = np.asarray(C.closest_indices(y if r.integers(0, 3) else y.tolist()))
    m.shape(j, sh + (nb,), "closest_indices")
    m.ok(np.all((j >= 0) & (j < M)), "closest indices in range")
    amp = np.abs(X).max()
    for a, y1 in zip(j.ravel().tolist(), Y):
        d = np.abs(y1[None, :] - X)
        d2 = (d ** 2).sum(axis=1)
        # compare |x|^2 - 2 Re<y,x>, free of the common |y|^2
        e = (np.abs(X) ** 2).sum(axis=1) - 2 * np.real(X @ np.conj(y1))
        tol = 1e-13 * (amp ** 2 + amp * np.abs(y1).sum()) * N + 1e-15 * amp
        if FAMS[i % len(FAMS)] in ("apsk", "cross", "user", "userc"):
            tol += 8e-16 * d2.min()  # the exhaustive rule compares distances in double precision
        m.ok(e[a] <= e.min() + tol, lambda: f"closest index {a} of {y1.tolist()}: excess squared distance {e[a] - e.min()}")
    cs = np.asarray(C.closest_symbols(y))
    m.arr(cs, Xk[j].reshape(np.shape(y)), "closest_symbols = symbols of closest_indices")
    if N > 1:
        m.refuses(lambda: C.closest_indices(np.zeros(nb * N + 1)), "length not a multiple of the dimension")
    m.tag(FAMS[i % len(FAMS)])


@section("K03", 900, 12000)
def bayes(m, r, i):
    C, X, desc = rand_con(r, FAMS[i % len(FAMS)], big=False)
    M, N = X.shape
    cx = np.iscomplexobj(X)
    sh = lead(r)
    nb = int(r.integers(1, 4))
    cnt = int(np.prod(sh, dtype=int)) * nb
    kind = int(r.integers(0, 4))
    Y = received_points(r, X, kind if kind < 3 else 1, cnt)
    amp = np.abs(X).max()
    if kind == 3:
        Y = Y * 10.0 ** r.uniform(0, 4)
    npow = float(10.0 ** r.uniform(-7, 3)) * amp ** 2
    t = int(r.integers(0, 4))
    pri = None if t == 0 else np.full(M, 1 / M) if t == 1 else r.dirichlet(np.full(M, 0.5))
    if t == 3:
        pri[: M // 2] = 0
        pri = pri / pri.sum()
    m.note(con=desc, Y=Y, noise=npow, priors=pri)
    got = np.asarray(C.posteriors(Y.reshape(sh + (nb * N,)), npow, pri))
    m.shape(got, sh + (nb * M,), "posteriors")
    g = got.reshape(-1, M)
    m.ok(np.all(np.isfinite(g)) and np.all(g >= 0), "posteriors finite and non-negative")
    m.close(g.sum(axis=1), np.ones(len(g)), "posteriors sum to one", 1e-9)
    ld = np.longdouble
    var = ld(npow) if cx else ld(2) * ld(npow)
    Xr, Xi = np.real(X).astype(ld), np.imag(X).astype(ld)
    with np.errstate(divide="ignore"):
        lp = np.zeros(M, dtype=ld) if pri is None else np.log(np.asarray(pri, dtype=ld))
    for out, y1 in zip(g, Y):
        d2 = ((np.real(y1).astype(ld) - Xr) ** 2 + (np.imag(y1).astype(ld) - Xi) ** 2).sum(axis=1)
        e = -d2 / var + lp
        e = e - e.max()
        w = np.exp(e)
        w = w / w.sum()
        tol = float(3e-14 * (d2.max() + amp ** 2) / var) * 4 + 1e-10  # rounding of the exponents
        if tol > 1:
            m.tag("beyond double precision")
            continue
        m.close(out, w.astype(float), "posteriors = normalised prior x likelihood", tol, tol)
        if pri is None or t == 1:
            best = d2.min()
            m.ok(d2[int(np.argmax(out))] <= best * (1 + 1e-9) + tol * float(var) * 2, "largest posterior at equal priors is the closest symbol")


@section("K03", 150, 1500)
def far_and_sharp(m, r, i):
    """Distant points and tiny noise: finite, normalised, on the right symbol."""
    C, X, desc = rand_con(r, FAMS[i % len(FAMS)], big=False)
    M, N = X.shape
    amp = np.abs(X).max()
    if i % 2:
        Y = received_points(r, X, 1, 4) * 10.0 ** r.uniform(2, 60)
        npow = float(10.0 ** r.uniform(-6, 3)) * amp ** 2
    else:
        Y = received_points(r, X, 0, 4)
        npow = float(10.0 ** r.uniform(-60, -12)) * amp ** 2
    m.note(con=desc, Y=Y, noise=npow)
    g = np.asarray(C.posteriors(Y.reshape(-1), npow)).reshape(-1, M)
    m.ok(np.all(np.isfinite(g)) and np.all(g >= 0), lambda: f"posteriors finite: {g}")
    m.close(g.sum(axis=1), np.ones(len(g)), "posteriors sum to one", 1e-9)
    if i % 2 == 0:
        m.arr(np.argmax(g, axis=1), np.asarray(C.closest_indices(Y.reshape(-1))), "largest posterior is the closest symbol")
