"""B01-B07: block codes."""
import itertools
import re

import numpy as np

import komm

from . import gen, ref
from .core import rule, section

rule("B01", "Random codes of every constructor (generator/check matrix with degenerate columns, parity submatrix with any "
     "information set in any order, cyclic systematic and not, named families, polar; all matrix dtypes) with all or random "
     "messages/words in random batch shapes; oracle is GF(2) bitmask algebra on the constructor arguments.")
rule("B02", "Random enumerable codes; codewords, weights and distances recomputed by enumeration from the constructor "
     "arguments; the query methods are invoked in a random order, twice.")
rule("B03", "Random codes with enumerable cosets; a syndrome-graph search gives the minimum weight of every coset; query "
     "methods in a random order; the whole Slepian array is checked as a partition of all words.")
rule("B04", "Every family parameter up to an enumeration bound; the defining structure recomputed from scratch.")
rule("B05", "Every length up to a bound with every divisor of X^n+1 (independent factorisation), both encodings, both "
     "constructor forms, random messages; polynomial-model oracle.")
rule("B06", "Every (mu, delta) with mu up to 6 (7 in thorough); roots evaluated in an independent field model; random words.")
rule("B07", "All (rho, mu) and random frozen sets; Kronecker power and monomial evaluation models; Reed check sums "
     "evaluated on random messages.")


def words(r, n, count):
    return r.integers(0, 2, size=(count, n))


# ---------------------------------------------------------------- B01
@section("B01", 900, 12000)
def matrices_and_maps(m, r, i):
    s = gen.rand_spec(r, kmax=9, mmax=9)
    m.note(code=s)
    c = s.code
    m.eq((c.length, c.dimension, c.redundancy), (s.n, s.k, s.m), "length, dimension, redundancy")
    m.close(c.rate, s.k / s.n, "rate")
    first = int(r.integers(0, 3))
    if first == 0:
        c.check_matrix
    G, H = np.asarray(c.generator_matrix), np.asarray(c.check_matrix)
    m.shape(G, (s.k, s.n), "generator matrix")
    m.shape(H, (s.m, s.n), "check matrix")
    m.ok(set(np.unique(G)) <= {0, 1} and set(np.unique(H)) <= {0, 1}, "matrices are binary")
    m.eq(ref.rank(ref.rows2i(G)), s.k, "rank of G")
    m.eq(ref.rank(ref.rows2i(H)) if s.m else 0, s.m, "rank of H")
    m.ok(not (G.astype(int) @ H.astype(int).T % 2).any(), "G H^T = 0")
    if s.G is not None:
        m.arr(G.astype(int), s.G, "generator matrix against the constructor arguments")
    else:
        m.arr(H.astype(int), s.H, "check matrix against the constructor arguments")
    G, H = G.astype(int), H.astype(int)
    lead, b = gen.batch_shape(r)
    u = r.integers(0, 2, size=lead + (b * s.k,))
    m.note(u=u)
    v = c.encode(gen.cast(r, u))
    want = (u.reshape(lead + (b, s.k)) @ G % 2).reshape(lead + (b * s.n,))
    m.arr(np.asarray(v, dtype=int), want, "encode = u G")
    syn = c.check(gen.cast(r, want))
    m.arr(np.asarray(syn, int), np.zeros(lead + (b * s.m,), int), "syndrome of codewords")
    m.arr(np.asarray(c.inverse_encode(gen.cast(r, want)), int), u, "inverse_encode o encode")
    w = r.integers(0, 2, size=lead + (b * s.n,))
    m.note(w=w)
    sw = (w.reshape(lead + (b, s.n)) @ H.T % 2).reshape(lead + (b * s.m,))
    m.arr(np.asarray(c.check(gen.cast(r, w)), int), sw, "check = r H^T")
    space = ref.span(ref.rows2i(s.space()))
    inside = all(ref.v2i(x) in space for x in w.reshape(-1, s.n))
    if inside:
        m.arr(c.encode(c.inverse_encode(w)), w, "encode o inverse_encode on codewords")
    else:
        m.refuses(lambda: c.inverse_encode(w), "inverse_encode of a non-codeword")


@section("B01", 250, 3000)
def all_words_small(m, r, i):
    s = gen.rand_spec(r, kmax=5, mmax=5, nmax=10)
    m.note(code=s)
    c = s.code
    U = ref.all_words(s.k)
    V = np.asarray(c.encode(U), int)
    space = ref.span(ref.rows2i(s.space()))
    ints = [ref.v2i(v) for v in V]
    m.ok(len(set(ints)) == 1 << s.k and set(ints) == space, "encode is a bijection onto the code")
    W = ref.all_words(s.n)
    S = np.asarray(c.check(W), int)
    m.ok([not x.any() for x in S] == [ref.v2i(x) in space for x in W], "zero syndrome exactly on the code")
    m.arr(S, W @ np.asarray(c.check_matrix).astype(int).T % 2, "check of every word")
    m.arr(np.asarray(c.inverse_encode(V), int), U, "inverse_encode of all codewords")
    bad = [x for x in W if ref.v2i(x) not in space]
    if bad:
        x = bad[int(r.integers(0, len(bad)))]
        m.refuses(lambda: c.inverse_encode(x), "inverse_encode of a non-codeword")
        m.refuses(lambda: c.inverse_encode(np.concatenate([V[0], x])), "second block a non-codeword")
        m.refuses(lambda: c.inverse_encode(np.stack([x, V[-1]])), "first row a non-codeword")


@section("B01", 150, 1500)
def systematic_positions(m, r, i):
    s = gen.rand_spec(r, kmax=8, mmax=8, kinds=["sys", "sysK"])
    m.note(code=s)
    c = s.code
    u = words(r, s.k, 4)
    v = np.asarray(c.encode(u), int)
    m.arr(v[:, s.K], u, "information bits verbatim at the information set")
    m.arr(v[:, s.M], u @ s.P % 2, "parity bits at the parity set")
    m.arr(c.information_set, s.K, "information_set")
    m.arr(c.parity_set, s.M, "parity_set")
    k, n = s.k, s.n
    if k >= 1:
        bad = s.K.copy()
        how = int(r.integers(0, 4))
        j = int(r.integers(0, k))
        if how == 0:
            bad[j] = n
        elif how == 1:
            bad[j] = -1
        elif how == 2 and k > 1:
            bad[j] = bad[(j + 1) % k]
        else:
            bad = np.concatenate([bad, [0]])
        m.note(bad=bad)
        m.refuses(lambda: komm.SystematicBlockCode(s.P, bad), "information set that is not a k-sublist of range(n)")


@section("B01", 8, 60)
def big_codes(m, r, i):
    """Long codes: encode/check/inverse on random blocks (batches beyond 1024 words included)."""
    t = i % 8
    if t == 0:
        mu = int(r.integers(5, 9))
        c = komm.HammingCode(mu, extended=bool(r.integers(0, 2)))
    elif t == 1:
        c = komm.GolayCode(extended=bool(r.integers(0, 2)))
    elif t == 2:
        k, mm = int(r.integers(20, 150)), int(r.integers(20, 150))
        M = ref.rand_full_rank(r, k, k + mm)
        c = komm.BlockCode(generator_matrix=M) if r.integers(0, 2) else komm.BlockCode(check_matrix=M)
    elif t == 3:
        mu = int(r.integers(5, 9))
        fro = np.sort(r.choice(1 << mu, size=int(r.integers(1, (1 << mu) - 1)), replace=False))
        c = komm.PolarCode(mu, fro)
    elif t == 4:
        rho, mu = [(1, 5), (2, 5), (3, 5), (2, 6), (3, 6), (1, 7), (4, 6), (4, 5), (1, 8), (2, 8)][int(r.integers(0, 10))]
        c = komm.ReedMullerCode(rho, mu)
    elif t == 5:
        k, mm = int(r.integers(1, 300)), int(r.integers(1, 300))
        P = r.integers(0, 2, size=(k, mm))
        K = r.choice(k + mm, size=k, replace=False)
        c = komm.SystematicBlockCode(P, K) if r.integers(0, 3) else komm.SystematicBlockCode(P, ["left", "right"][int(r.integers(0, 2))])
        K = np.asarray(c.information_set)
        G = np.zeros((k, k + mm), int)
        G[:, K] = np.eye(k, dtype=int)
        G[:, np.setdiff1d(np.arange(k + mm), K)] = P
        m.arr(np.asarray(c.generator_matrix, int), G, "generator matrix of a long systematic code")
    elif t == 6:
        n = int(r.choice([31, 63, 127, 51, 85, 93, 73, 64, 96, 130]))
        fs = [g for g, _ in ref.pfactor((1 << n) | 1)]
        g = 1
        for f in fs:
            if r.integers(0, 2) and ref.deg(g) + ref.deg(f) < n:
                g = ref.pmul(g, f)
        c = komm.CyclicCode(n, generator_polynomial=g, systematic=bool(r.integers(0, 2)))
    else:
        n = int(r.integers(200, 1200))
        c = [komm.RepetitionCode, komm.SingleParityCheckCode, komm.CordaroWagnerCode][int(r.integers(0, 3))](min(n, 400))
    k, n = c.dimension, c.length
    m.note(code=repr(c)[:200])
    G, H = np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int)
    m.ok(ref.rank(ref.rows2i(G)) == k and (not H.size or ref.rank(ref.rows2i(H)) == n - k) and not (G @ H.T % 2).any(), "G, H ranks and orthogonality")
    cnt = int(r.choice([1, 7, 60, 1500 if t in (0, 1, 2, 4) and k < 60 else 40]))
    u = words(r, k, cnt)
    if r.integers(0, 4) == 0:
        u[:] = 1
    lead = (cnt, k) if r.integers(0, 2) else (cnt * k,)
    v = np.asarray(c.encode(gen.cast(r, u.reshape(lead))), int)
    m.arr(v, (u @ G % 2).reshape(lead[:-1] + (-1,)), "encode")
    v = v.reshape(cnt, n)
    if not isinstance(c, komm.PolarCode) or n <= 256:
        m.arr(np.asarray(c.inverse_encode(gen.cast(r, v)), int), u, "inverse_encode")
    w = words(r, n, cnt)
    if r.integers(0, 4) == 0:
        w[:] = 1
    m.arr(np.asarray(c.check(gen.cast(r, w)), int), w @ H.T % 2, "check")
    e = v.copy()
    e[int(r.integers(0, cnt)), int(r.integers(0, n))] ^= 1
    if t in (0, 1, 4) or (t == 7 and n - k > 0):
        m.refuses(lambda: c.inverse_encode(e), "one flipped bit in a batch")


# ---------------------------------------------------------------- B02
@section("B02", 450, 6000)
def enumerations(m, r, i):
    s = gen.rand_spec(r, kmax=9, mmax=9)
    m.note(code=s)
    c = s.code
    G = np.asarray(c.generator_matrix, int)
    cw = ref.codebook(G)
    m.ok({ref.v2i(x) for x in cw} == ref.span(ref.rows2i(s.space())), "generator matrix spans the specified code")
    dist = ref.weight_distribution(cw, s.n)
    d = min(w for w in range(1, s.n + 1) if dist[w])
    q = {
        "codewords": lambda: m.arr(c.codewords(), cw, "codewords"),
        "codeword_weight_distribution": lambda: m.eq(c.codeword_weight_distribution(), dist, "codeword weight distribution"),
        "minimum_distance": lambda: m.eq(c.minimum_distance(), d, "minimum distance"),
        "packing_radius": lambda: m.eq(c.packing_radius(), (d - 1) // 2, "packing radius"),
    }
    names = list(q) * 2
    order = [names[j] for j in r.permutation(len(names))]
    m.note(order=order)
    m.tag("first:" + order[0])
    for o in order:
        q[o]()


@section("B02", 8, 60)
def large_enumerations(m, r, i):
    """More than one 1024-word batch, non-multiples of it, and k around byte boundaries."""
    k = int(r.choice([10, 11, 12, 13]))
    n = k + int(r.integers(1, 9))
    if i % 3 == 2:
        n = int(r.choice([15, 17, 21, 23]))
        ds = [g for g in ref.divisors_xn1(n) if 9 <= n - ref.deg(g) <= 12] if n != 23 else [0b101011100011]
        if not ds:
            n, ds = 15, [0b10011]
        c = komm.CyclicCode(n, generator_polynomial=int(r.choice(ds)), systematic=bool(r.integers(0, 2)))
        k = c.dimension
    elif i % 3 == 1:
        c = komm.SystematicBlockCode(r.integers(0, 2, size=(k, n - k)))
    else:
        c = komm.BlockCode(generator_matrix=ref.rand_full_rank(r, k, n))
    m.note(code=repr(c)[:300])
    cw = ref.codebook(np.asarray(c.generator_matrix, int))
    if r.integers(0, 2):
        m.arr(c.codewords(), cw, "codewords")
    dist = ref.weight_distribution(cw, n)
    m.eq(c.codeword_weight_distribution(), dist, "weight distribution")
    m.eq(c.minimum_distance(), min(w for w in range(1, n + 1) if dist[w]), "minimum distance")
    m.arr(c.codewords(), cw, "codewords")


@section("B02", 12, 100)
def long_codes(m, r, i):
    """Few words, but longer than a byte can count."""
    k, n = int(r.integers(1, 8)), int(r.choice([255, 256, 257, 300, 512, 700, 1025]))
    if i % 4 == 3:
        c = [komm.RepetitionCode(n), komm.CordaroWagnerCode(n), komm.SimplexCode(8, extended=bool(r.integers(0, 2))),
             komm.ReedMullerCode(1, 8)][int(r.integers(0, 4))]
        k, n = c.dimension, c.length
    else:
        G = ref.rand_full_rank(r, k, n)
        if r.integers(0, 2):
            G[0] = 1
        if ref.rank(ref.rows2i(G)) < k:
            return m.trivial()
        c = komm.BlockCode(G) if i % 4 < 2 else komm.SystematicBlockCode(G[:, k:])
    m.note(code=repr(c)[:120], n=n, k=k)
    cw = ref.codebook(np.asarray(c.generator_matrix, int))
    dist = ref.weight_distribution(cw, n)
    if r.integers(0, 2):
        m.arr(c.codewords(), cw, "codewords")
    m.eq(c.codeword_weight_distribution(), dist, "weight distribution")
    d = min(w for w in range(1, n + 1) if dist[w])
    m.eq(c.minimum_distance(), d, "minimum distance")
    m.eq(c.packing_radius(), (d - 1) // 2, "packing radius")
    m.arr(c.codewords(), cw, "codewords")
    m.eq(c.codeword_weight_distribution(), dist, "weight distribution")


@section("B02", lambda: 24, lambda: 60)
def families(m, r, i):
    """Closed-form overrides (weights, distances) of the named families against enumeration."""
    t = gen.named(r, 12) if i >= 24 else [("rep", n) for n in (1, 2, 3, 6, 9)] \
        + [("spc", n) for n in (2, 3, 5, 8, 11)] and ([("rep", n) for n in (1, 2, 3, 6, 9)] + [("spc", n) for n in (2, 3, 5, 8, 11)]
        + [("cw", n) for n in (2, 3, 4, 5, 6, 7, 11, 12)] + [("simplex", 3, False), ("simplex", 3, True),
        ("hamming", 3, True), ("lexi", 8, 3), ("rm", 1, 4), ("rm", 2, 3)])[i]
    s = gen.named_spec(t, r)
    m.note(code=s)
    if s.k > 12 or s.k < 1:
        m.trivial()
        m.ok(True, "skipped")
        return
    c = s.code
    cw = ref.codebook(np.asarray(c.generator_matrix, int))
    dist = ref.weight_distribution(cw, s.n)
    d = min(w for w in range(1, s.n + 1) if dist[w])
    m.eq(c.minimum_distance(), d, "minimum distance")
    m.eq(c.codeword_weight_distribution(), dist, "codeword weight distribution")
    m.eq(c.packing_radius(), (d - 1) // 2, "packing radius")
    m.arr(c.codewords(), cw, "codewords")


# ---------------------------------------------------------------- B03
@section("B03", 450, 6000)
def cosets(m, r, i):
    s = gen.rand_spec(r, kmax=8, mmax=9)
    m.note(code=s)
    c = s.code
    H = np.asarray(c.check_matrix, int)
    best = ref.coset_min_weights(H) if s.m else {0: 0}
    dist = [0] * (s.n + 1)
    for w in best.values():
        dist[w] += 1

    def leaders():
        L = np.asarray(c.coset_leaders())
        m.shape(L, (1 << s.m, s.n), "coset leader table")
        syn = L @ H.T % 2
        m.eq([ref.v2i(x) for x in syn], list(range(1 << s.m)), "syndrome of leader i is i")
        m.arr(np.asarray(c.check(L), int), syn, "check() of the leaders")
        m.eq(L.sum(axis=1), [best[x] for x in range(1 << s.m)], "leaders have minimum weight in their coset")

    q = {
        "leaders": leaders,
        "dist": lambda: m.eq(c.coset_leader_weight_distribution(), dist, "coset leader weight distribution"),
        "radius": lambda: m.eq(c.covering_radius(), max(best.values()), "covering radius"),
    }
    names = list(q) * 2
    order = [names[j] for j in r.permutation(len(names))]
    m.note(order=order)
    m.tag("first:" + order[0])
    for o in order:
        q[o]()


@section("B03", 10, 80)
def long_codes_cosets(m, r, i):
    """Redundancy up to 13, or long words with few cosets."""
    if i % 2:
        mm, k = int(r.integers(9, 14)), int(r.integers(1, 9))
    else:
        mm, k = int(r.integers(1, 8)), int(r.integers(60, 300))
    M = r.integers(0, 2, size=(k, mm))
    c = [lambda: komm.SystematicBlockCode(M), lambda: komm.BlockCode(check_matrix=np.hstack([M.T, np.eye(mm, dtype=int)])),
         lambda: komm.BlockCode(generator_matrix=np.hstack([M, np.eye(k, dtype=int)]))][int(r.integers(0, 3))]()
    m.note(code=repr(c)[:150], k=k, m=mm)
    H = np.asarray(c.check_matrix, int)
    best = ref.coset_min_weights(H)
    dist = np.bincount(list(best.values()), minlength=k + mm + 1)

    def leaders():
        L = np.asarray(c.coset_leaders())
        m.arr(L @ H.T % 2 @ (1 << np.arange(mm)), np.arange(1 << mm), "syndrome of leader i is i")
        m.eq(L.sum(axis=1), [best[x] for x in range(1 << mm)], "leaders have minimum weight in their coset")

    todo = [leaders, lambda: m.eq(c.coset_leader_weight_distribution(), dist, "coset leader weight distribution"),
            lambda: m.eq(c.covering_radius(), max(best.values()), "covering radius")]
    for j in r.permutation(3):
        todo[j]()


@section("B03", 120, 1200)
def slepian(m, r, i):
    s = gen.rand_spec(r, kmax=4, mmax=5, nmax=8)
    m.note(code=s)
    c = s.code
    A = komm.SlepianArray(c)
    G, H = np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int)
    best = ref.coset_min_weights(H) if s.m else {0: 0}
    U = ref.all_words(s.k)
    seen = set()
    lead = np.asarray(c.coset_leaders())
    for a in range(1 << s.m):
        row = np.asarray(A.row(a))
        m.arr(row, (lead[a] + U @ G) % 2, f"row {a}")
        m.eq(int(row[0].sum()), best[a], "first column is a minimum-weight word")
        seen |= {ref.v2i(x) for x in row}
    m.eq(len(seen), 1 << s.n, "array holds every word exactly once")
    j = int(r.integers(0, 1 << s.k))
    m.arr(A.col(j), (lead + U[j] @ G) % 2, f"column {j}")
    a = int(r.integers(0, 1 << s.m))
    m.arr(A.entry(a, j), (lead[a] + U[j] @ G) % 2, f"entry ({a},{j})")


# ---------------------------------------------------------------- B04
def _space(c):
    return ref.span(ref.rows2i(np.asarray(c.generator_matrix, int)))


def _params(m, c, n, k, d, what):
    m.eq((c.length, c.dimension, c.redundancy), (n, k, n - k), f"{what}: (n, k, m)")
    m.close(c.rate, k / n, "rate")
    m.eq(c.minimum_distance(), d, f"{what}: stated minimum distance")
    G = np.asarray(c.generator_matrix, int)
    m.shape(G, (k, n), f"{what}: G")
    m.eq(ref.rank(ref.rows2i(G)), k, f"{what}: rank")


def _dmin_syndrome(H, bound):
    """Smallest number of columns of H that sum to zero, up to bound (else bound + 1)."""
    cols = [ref.v2i(H[:, j]) for j in range(H.shape[1])]
    n = len(cols)
    if 0 in cols:
        return 1
    for w in range(2, bound + 1):
        h = w // 2
        A = set()
        for S in itertools.combinations(range(n), w):
            x = 0
            for j in S:
                x ^= cols[j]
            if x == 0:
                return w
    return bound + 1


@section("B04", 6, 9, exhaustive=True)
def hamming_simplex(m, r, i):
    mu = i + 2
    m.note(mu=mu)
    n = 2 ** mu - 1
    h, he = komm.HammingCode(mu), komm.HammingCode(mu, extended=True)
    _params(m, h, n, n - mu, 3, "Hamming")
    _params(m, he, n + 1, n - mu, 4, "extended Hamming")
    H = np.asarray(h.check_matrix, int)
    m.eq(sorted(ref.v2i(H[:, j]) for j in range(n)), list(range(1, n + 1)), "columns of H are all non-zero tuples")
    s, se = komm.SimplexCode(mu), komm.SimplexCode(mu, extended=True)
    _params(m, s, n, mu, 2 ** (mu - 1), "simplex")
    _params(m, se, n + 1, mu + 1, 2 ** (mu - 1), "extended simplex")
    S = np.asarray(s.generator_matrix, int)
    m.ok(sorted(ref.v2i(S[:, j]) for j in range(n)) == list(range(1, n + 1)), "simplex columns are all non-zero tuples")
    # duality is between equivalent codes; codeword weights of the simplex code are all 2^(mu-1)
    if mu <= 8:
        w = (ref.all_words(mu) @ S % 2).sum(axis=1)
        m.eq(set(w.tolist()), {0, 2 ** (mu - 1)}, "simplex weights")
    hd = komm.BlockCode(check_matrix=np.asarray(he.check_matrix, int))
    Ge = np.asarray(he.generator_matrix, int)
    m.ok(not (Ge.sum(axis=1) % 2).any(), "extended Hamming has even weights")
    keep = np.asarray(he.generator_matrix, int)[:, :n]
    m.ok({ref.v2i(x) for x in keep} == {ref.v2i(x) for x in np.asarray(h.generator_matrix, int)}, "puncturing the extension gives the Hamming code")
    Gse = np.asarray(se.generator_matrix, int)
    we = (ref.all_words(mu + 1) @ Gse % 2).sum(axis=1) if mu <= 8 else np.array([0, 2 ** (mu - 1), 2 ** mu])
    m.ok(set(we.tolist()) == {0, 2 ** (mu - 1), 2 ** mu}, "extended simplex (first-order Reed-Muller) weights")
    # dual pairs: G_simplex generates the null space of a matrix whose columns permute those of H
    if mu <= 5:
        dualH = ref.weight_distribution(ref.codebook(H), n)
        m.eq(dualH, ref.weight_distribution(ref.codebook(S), n), "row space of H is a simplex code")
        dualHe = ref.weight_distribution(ref.codebook(np.asarray(he.check_matrix, int)), n + 1)
        m.eq(dualHe, ref.weight_distribution(ref.codebook(Gse), n + 1), "row space of the extended H")


@section("B04", 2, 2, exhaustive=True)
def golay(m, r, i):
    c = komm.GolayCode(extended=bool(i))
    m.note(extended=bool(i))
    n = 24 if i else 23
    _params(m, c, n, 12, 8 if i else 7, "Golay")
    cw = ref.codebook(np.asarray(c.generator_matrix, int))
    dist = ref.weight_distribution(cw, n)
    want = {0: 1, 8: 759, 12: 2576, 16: 759, 24: 1} if i else {0: 1, 7: 253, 8: 506, 11: 1288, 12: 1288, 15: 506, 16: 253, 23: 1}
    m.eq({w: x for w, x in enumerate(dist) if x}, want, "Golay weight enumerator")
    H = np.asarray(c.check_matrix, int)
    m.ok(not (cw[:200] @ H.T % 2).any(), "check matrix annihilates the code")
    if i:
        G = np.asarray(c.generator_matrix, int)
        m.ok(not (G @ G.T % 2).any(), "extended Golay code is self-dual")
        g = komm.GolayCode()
        m.arr(G[:, :23], np.asarray(g.generator_matrix, int), "puncturing gives the Golay code")
    else:
        best = ref.coset_min_weights(H)
        m.eq(max(best.values()), 3, "Golay code is perfect (covering radius 3)")


@section("B04", lambda: 21, lambda: 28, exhaustive=True)
def reed_muller(m, r, i):
    pairs = [(rho, mu) for mu in range(1, 8) for rho in range(mu)]
    rho, mu = pairs[i]
    m.note(rho=rho, mu=mu)
    from math import comb
    c = komm.ReedMullerCode(rho, mu)
    n = 1 << mu
    k = sum(comb(mu, j) for j in range(rho + 1))
    _params(m, c, n, k, 2 ** (mu - rho), "Reed-Muller")
    G = np.asarray(c.generator_matrix, int)
    rows = ref.rows2i(G)
    m.eq(ref.rank(rows + ref.rows2i(gen.monomials(rho, mu))), k, "spanned by monomials of degree <= rho")
    if rho > 0:
        low = ref.rows2i(np.asarray(komm.ReedMullerCode(rho - 1, mu).generator_matrix, int))
        m.eq(ref.rank(rows + low), k, "nested")
        m.ok(ref.rank(low) < k, "strictly nested")
    if rho < mu - 1:
        dual = np.asarray(komm.ReedMullerCode(mu - rho - 1, mu).generator_matrix, int)
    if mu - rho - 1 >= 0 and mu - rho - 1 < mu and rho <= mu - 1:
        dr = mu - rho - 1
        if rho == mu - 1:
            D = np.ones((1, n), int)
        else:
            D = np.asarray(komm.ReedMullerCode(dr, mu).generator_matrix, int)
        m.ok(not (G @ D.T % 2).any(), "dual of RM(rho, mu) is RM(mu - rho - 1, mu)")
        m.eq(len(D) + k, n, "dual dimension")
    if k <= 16:
        cw = ref.codebook(G)
        m.eq(int(cw.sum(axis=1)[1:].min()), 2 ** (mu - rho), "true minimum distance")
    m.refuses(lambda: komm.ReedMullerCode(mu, mu), "rho = mu")


@section("B04", 16, 24, exhaustive=True)
def rep_spc(m, r, i):
    n = i + 1
    m.note(n=n)
    a = komm.RepetitionCode(n)
    _params(m, a, n, 1, n, "repetition")
    m.eq(_space(a), {0, (1 << n) - 1}, "repetition codewords")
    from math import comb
    want = [comb(n, w) if 2 * w < n else (comb(n, w) // 2 if 2 * w == n else 0) for w in range(n + 1)]
    m.eq(a.coset_leader_weight_distribution(), want, "repetition coset leader weights")
    if n >= 2:
        b = komm.SingleParityCheckCode(n)
        _params(m, b, n, n - 1, 2, "single parity check")
        m.ok(not (np.asarray(b.generator_matrix, int).sum(axis=1) % 2).any(), "even weights")
        m.eq(b.codeword_weight_distribution(), [comb(n, w) if w % 2 == 0 else 0 for w in range(n + 1)], "SPC weights")
        m.ok(not (np.asarray(a.generator_matrix, int) @ np.asarray(b.generator_matrix, int).T % 2).any(), "dual of repetition")
        m.ok(not (np.asarray(b.check_matrix, int) @ np.asarray(b.generator_matrix, int).T % 2).any(), "G H^T")
    if n == 1:
        m.refuses(lambda: komm.RepetitionCode(0), "repetition n = 0")
        m.refuses(lambda: komm.SingleParityCheckCode(0), "SPC n = 0")
        m.refuses(lambda: komm.HammingCode(1), "Hamming mu = 1")
        m.refuses(lambda: komm.SimplexCode(1), "simplex kappa = 1")
        m.refuses(lambda: komm.CordaroWagnerCode(1), "Cordaro-Wagner n = 1")


@section("B04", 20, 60, exhaustive=True)
def cordaro_wagner(m, r, i):
    n = i + 2
    m.note(n=n)
    c = komm.CordaroWagnerCode(n)
    d = -(-2 * n // 3) - 1
    _params(m, c, n, 2, d, "Cordaro-Wagner")
    w = sorted(bin(x).count("1") for x in _space(c))
    m.eq(w[1], d, "true minimum distance")
    if n <= (9 if m.tier == "quick" else 12):
        # documented: optimum on the BSC with small crossover probability, that is, the leader weight
        # distribution is lexicographically the largest over all (n, 2) codes (column multiplicities a, b, e)
        def leaders(a, b, e):
            G = np.array([[1] * a + [0] * b + [1] * e, [0] * a + [1] * b + [1] * e])
            best = ref.coset_min_weights(ref.nullspace(G, n)) if n > 2 else {0: 0}
            return [sum(w == x for x in best.values()) for w in range(n + 1)]
        opt = max(leaders(a, b, n - a - b) for a in range(1, n) for b in range(1, n - a + 1))
        m.eq(c.coset_leader_weight_distribution(), opt, "optimum coset leader weight distribution")


@section("B04", 24, 200)
def large_parameters(m, r, i):
    """Family members far beyond the enumerated range, judged by their defining structure."""
    t = i % 6
    if t == 0:
        n = int(10 ** r.uniform(1.5, 5))
        m.note(cordaro_wagner=n)
        c = komm.CordaroWagnerCode(n)
        G = np.asarray(c.generator_matrix, int)
        w = sorted([int(G[0].sum()), int(G[1].sum()), int((G[0] ^ G[1]).sum())])
        m.shape(G, (2, n), "Cordaro-Wagner generator")
        m.ok(G.any(axis=0).all() and w[0] == -(-2 * n // 3) - 1, lambda: f"weights {w} for n={n}")
        m.eq(c.minimum_distance(), w[0], "minimum distance")
    elif t == 1:
        n = int(r.integers(17, 3000))
        m.note(repetition=n)
        c = komm.RepetitionCode(n)
        m.eq((c.length, c.dimension, c.minimum_distance(), c.packing_radius()), (n, 1, n, (n - 1) // 2), "repetition")
        m.arr(c.generator_matrix, np.ones((1, n), int), "repetition generator")
        if n <= 62:
            from math import comb
            m.eq(c.coset_leader_weight_distribution(),
                 [comb(n, w) if 2 * w < n else (comb(n, w) // 2 if 2 * w == n else 0) for w in range(n + 1)], "leader weights")
    elif t == 2:
        n = int(r.integers(17, 400))
        m.note(spc=n)
        c = komm.SingleParityCheckCode(n)
        m.eq((c.length, c.dimension, c.minimum_distance()), (n, n - 1, 2), "single parity check")
        m.arr(np.asarray(c.check_matrix), np.ones((1, n), int), "check matrix")
        if n <= 62:
            from math import comb
            m.eq(c.codeword_weight_distribution(), [comb(n, w) if w % 2 == 0 else 0 for w in range(n + 1)], "weights")
    elif t == 3:
        mu, e = int(r.integers(7, 11)), bool(r.integers(0, 2))
        m.note(hamming=mu, extended=e)
        c = komm.HammingCode(mu, extended=e)
        H = np.asarray(c.check_matrix, int)
        n = 2 ** mu - 1 + e
        m.eq((c.length, c.dimension, c.redundancy, c.minimum_distance()), (n, n - mu - e, mu + e, 3 + e), "Hamming")
        cols = H.T @ (1 << np.arange(mu + e))
        if not e:
            m.eq(sorted(cols), list(range(1, n + 1)), "columns of H are all non-zero tuples")
        else:
            m.eq(len(set(cols.tolist())), n, "columns of H are distinct")
            m.ok(not (np.asarray(c.generator_matrix, int).sum(axis=1) % 2).any(), "even weights")
    elif t == 4:
        mu, e = int(r.integers(7, 11)), bool(r.integers(0, 2))
        m.note(simplex=mu, extended=e)
        c = komm.SimplexCode(mu, extended=e)
        G = np.asarray(c.generator_matrix, int)
        n = 2 ** mu - 1 + e
        m.eq((c.length, c.dimension, c.minimum_distance()), (n, mu + e, 2 ** (mu - 1)), "simplex")
        U = r.integers(0, 2, size=(200, mu + e))
        w = (U[U.any(axis=1)] @ G % 2).sum(axis=1)
        m.ok(set(w.tolist()) <= ({2 ** (mu - 1), 2 ** mu} if e else {2 ** (mu - 1)}), lambda: f"weights {sorted(set(w.tolist()))}")
    else:
        mu = int(r.integers(7, 10))
        rho = int(r.integers(0, mu))
        from math import comb
        k = sum(comb(mu, j) for j in range(rho + 1))
        if k > 200:
            rho = int(r.integers(0, 3))
            k = sum(comb(mu, j) for j in range(rho + 1))
        m.note(rho=rho, mu=mu)
        c = komm.ReedMullerCode(rho, mu)
        m.eq((c.length, c.dimension, c.minimum_distance()), (1 << mu, k, 2 ** (mu - rho)), "Reed-Muller")
        m.arr(np.asarray(c.generator_matrix, int), gen.monomials(rho, mu), "monomial rows")


@section("B04", lambda: 68, lambda: 86, exhaustive=True)
def lexicode(m, r, i):
    pairs = [(13, 3), (13, 4), (14, 5)] + [(n, d) for n in range(1, 12) for d in range(1, n + 1)] \
        + [(12, d) for d in range(3, 13)] + [(13, d) for d in range(5, 9)] + [(14, 4), (14, 6), (15, 5)]
    n, d = pairs[i]
    m.note(n=n, d=d)
    # greedy set, by striking out the ball around every chosen word
    ball = [sum(1 << b for b in S) for w in range(d) for S in itertools.combinations(range(n), w)]
    free, words_ = bytearray(b"\1") * (1 << n), []
    for x in range(1 << n):
        if free[x]:
            words_.append(x)
            for e in ball:
                free[x ^ e] = 0
    c = komm.Lexicode(n, d)
    k = len(words_).bit_length() - 1
    m.eq((c.length, c.dimension), (n, k), "(n, k)")
    G = np.asarray(c.generator_matrix, int)
    got = {int("".join(map(str, w)), 2) for w in ref.codebook(G).tolist()}
    m.eq(got, set(words_), "greedy lexicographic set (MSB first)")
    m.eq(c.minimum_distance(), d, "stated minimum distance")
    m.eq(min(bin(x).count("1") for x in words_ if x), d, "true minimum distance")
    m.refuses(lambda: komm.Lexicode(n, n + 1), "d > n")
    m.refuses(lambda: komm.Lexicode(n, 0), "d = 0")


# ---------------------------------------------------------------- B05
@section("B05", 34, 63, exhaustive=True)
def every_divisor(m, r, i):
    n = i + 1
    if n > 31 and m.tier == "quick":
        n = int(r.choice([33, 35, 45, 51, 63]))
    mod = (1 << n) | 1
    ds = ref.divisors_xn1(n)
    if len(ds) > 40:
        ds = [ds[j] for j in sorted(r.choice(len(ds), size=40, replace=False))]
    m.note(n=n, divisors=len(ds))
    for g in ds:
        h = ref.pdivmod(mod, g)[0]
        k = ref.deg(h)
        if k == 0:
            continue
        systematic = bool(r.integers(0, 2))
        c = komm.CyclicCode(n, generator_polynomial=g, systematic=systematic) if r.integers(0, 2) \
            else komm.CyclicCode(n, check_polynomial=h, systematic=systematic)
        m.note(n=n, g=bin(g), systematic=systematic)
        m.eq((int(c.generator_polynomial), int(c.check_polynomial)), (g, h), "generator and check polynomials")
        m.eq((c.length, c.dimension, c.redundancy), (n, k, n - k), "parameters")
        U = r.integers(0, 2, size=(3, k))
        V = np.asarray(c.encode(U), int)
        for u, v in zip(U, V):
            x, ui = ref.v2i(v), ref.v2i(u)
            m.eq(len(v), n, "codeword length")
            m.ok(ref.pmod(x, g) == 0, "codeword is a multiple of g")
            if systematic:
                m.arr(v[n - k:], u, "systematic: message in the last k positions")
            else:
                m.eq(x, ref.pmul(ui, g), "non-systematic: u(X) g(X)")
            sh = np.roll(v, int(r.integers(1, n + 1)))
            m.ok(not np.any(c.check(sh)), "cyclic shift is a codeword")
        m.arr(np.asarray(c.inverse_encode(V), int), U, "inverse encode")
        w = r.integers(0, 2, size=n)
        m.eq(not np.any(c.check(w)), ref.pmod(ref.v2i(w), g) == 0, "zero syndrome exactly for multiples of g")
        G, H = np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int)
        m.arr(G, gen.cyclic_G(n, g, systematic), "generator matrix rows are the encodings of unit messages")
        m.arr(np.asarray(c.check(w), int), w @ H.T % 2, "check = r H^T")
        m.ok(not (G @ H.T % 2).any(), "G H^T = 0")
        if systematic:
            m.eq(ref.v2i(np.asarray(c.check(w), int)), ref.pmod(ref.v2i(w), g), "systematic syndrome is r mod g")


@section("B05", 120, 1500)
def codeword_sets(m, r, i):
    n, g = gen.cyclic_params(r, 15, 9, 15)
    systematic = bool(r.integers(0, 2))
    m.note(n=n, g=bin(g), systematic=systematic)
    c = komm.CyclicCode(n, generator_polynomial=g, systematic=systematic)
    got = {ref.v2i(v) for v in c.codewords()}
    k = n - ref.deg(g)
    m.eq(got, {ref.pmul(u, g) for u in range(1 << k)}, "codewords are the multiples of g of degree < n")
    m.ok(all(ref.v2i(np.roll(v, 1)) in got for v in c.codewords()), "closed under cyclic shift")


@section("B05", 200, 2000)
def refusals(m, r, i):
    n = int(r.integers(1, 31))
    ds = set(ref.divisors_xn1(n))
    g = int(r.integers(1, 1 << min(n + 2, 12)))
    m.note(n=n, g=bin(g))
    if g in ds:
        m.eq(int(komm.CyclicCode(n, generator_polynomial=g).generator_polynomial), g, "divisor accepted")
        m.eq(int(komm.CyclicCode(n, check_polynomial=g).check_polynomial), g, "divisor accepted as check polynomial")
    else:
        m.refuses(lambda: komm.CyclicCode(n, generator_polynomial=g), "non-divisor generator polynomial")
        m.refuses(lambda: komm.CyclicCode(n, check_polynomial=g), "non-divisor check polynomial")
    m.refuses(lambda: komm.CyclicCode(n), "neither polynomial given")


# ---------------------------------------------------------------- B06
def _minpoly_model(mod, mu, e):
    """Minimal polynomial of alpha^e: least-degree binary polynomial vanishing there (linear algebra)."""
    x = ref.ppowmod(2, e, mod)
    basis, acc = [], 1
    for d in range(mu + 1):
        # try to express acc as a combination of previous powers
        v, mask = acc, 1 << d
        for bv, bm in basis:
            if v ^ bv < v:
                v, mask = v ^ bv, mask ^ bm
        if v == 0:
            return mask
        basis.append((v, mask))
        basis.sort(reverse=True)
        acc = ref.pmulmod(acc, x, mod)
    raise AssertionError


@section("B06", lambda: sum(2 ** mu - 2 for mu in range(2, 7)), lambda: sum(2 ** mu - 2 for mu in range(2, 9)), exhaustive=True)
def all_parameters(m, r, i):
    pairs = [(mu, d) for mu in range(2, 9) for d in range(2, 2 ** mu)]
    mu, delta = pairs[i]
    m.note(mu=mu, delta=delta)
    mod = int(komm.FiniteBifield(mu).modulus)
    n = 2 ** mu - 1

    def coset(e):
        s, x = set(), e % n
        while x not in s:
            s.add(x)
            x = 2 * x % n
        return frozenset(s)
    roots = frozenset().union(*(coset(e) for e in range(1, delta)))
    if coset(delta) <= roots:
        nxt = next(d for d in range(delta + 1, 2 ** mu) if not coset(d) <= roots)
        try:
            komm.BCHCode(mu, delta)
        except ValueError as e:
            m.eq([int(t) for t in re.findall(r"\d+", str(e))][-1:], [nxt], "next Bose distance named in the refusal")
        else:
            m.ok(False, "delta that is not a Bose distance was accepted")
        return
    c = komm.BCHCode(mu, delta)
    g = int(c.generator_polynomial)
    m.eq(c.length, n, "length")
    m.eq(ref.deg(g), len(roots), "deg g = number of roots")
    m.eq(c.dimension, n - len(roots), "dimension")
    want = 1
    for cs in {coset(e) for e in range(1, delta)}:
        want = ref.pmul(want, _minpoly_model(mod, mu, min(cs)))
    m.eq(g, want, "g is the product of the distinct minimal polynomials")
    for e in range(1, delta):
        x = ref.ppowmod(2, e, mod)
        acc = 0
        for b in bin(g)[2:]:
            acc = ref.pmulmod(acc, x, mod) ^ int(b)
        m.ok(acc == 0, f"g(alpha^{e}) = 0")
    k = n - len(roots)
    if k <= 11:
        cw = ref.codebook(gen.cyclic_G(n, g, True))
        dmin = int(cw.sum(axis=1)[1:].min())
        m.ok(dmin >= delta, f"minimum distance {dmin} >= delta {delta}")
        if k <= 8:
            m.eq(c.minimum_distance(), dmin, "reported minimum distance")
    # syndromes
    for _ in range(3):
        r_ = int.from_bytes(r.bytes(n // 8 + 1), "little") & ((1 << n) - 1)
        if r.integers(0, 2) and k:
            r_ = ref.pmul(r_ & ((1 << k) - 1), g)
        s = [int(e.value) for e in c.bch_syndrome(komm.BinaryPolynomial(r_))]
        exp = []
        for e in range(1, delta):
            x = ref.ppowmod(2, e, mod)
            acc = 0
            for b in bin(r_)[2:]:
                acc = ref.pmulmod(acc, x, mod) ^ int(b)
            exp.append(acc)
        m.eq(s, exp, f"BCH syndrome of {r_:#x}")
        m.eq(not any(s), ref.pmod(r_, g) == 0, "zero syndrome exactly for codewords")
    m.refuses(lambda: komm.BCHCode(mu, 2 ** mu), "delta too large")
    m.refuses(lambda: komm.BCHCode(mu, 1), "delta too small")


# ---------------------------------------------------------------- B07
@section("B07", 300, 4000)
def polar(m, r, i):
    mu = int(r.integers(1, 7)) if r.integers(0, 6) else int(r.integers(7, 10))
    n = 1 << mu
    k = int(r.integers(1, n + 1))
    act = np.sort(r.choice(n, size=k, replace=False))
    fro = np.setdiff1d(np.arange(n), act)
    arg = r.permutation(fro)
    m.note(mu=mu, frozen=arg)
    c = komm.PolarCode(mu, arg.tolist() if r.integers(0, 2) else arg)
    K = ref.kron_pow(np.array([[1, 0], [1, 1]]), mu)
    m.arr(np.asarray(c.active), act, "active positions")
    m.arr(np.asarray(c.frozen), fro, "frozen positions")
    m.eq((c.length, c.dimension), (n, k), "(n, k)")
    m.arr(np.asarray(c.generator_matrix, int), K[act], "generator rows are active rows of the Kronecker power")
    lead, b = gen.batch_shape(r)
    u = r.integers(0, 2, size=lead + (b * k,))
    full = np.zeros(lead + (b, n), int)
    full[..., act] = u.reshape(lead + (b, k))
    m.arr(np.asarray(c.encode(u), int), (full @ K % 2).reshape(lead + (b * n,)), "encode = padded u times Kronecker power")
    if mu <= 7:
        m.arr(np.asarray(c.inverse_encode(c.encode(u)), int), u, "inverse encode")
    if len(fro):
        m.refuses(lambda: komm.PolarCode(mu, np.append(fro, fro[0])), "repeated frozen position")
    m.refuses(lambda: komm.PolarCode(mu, np.append(fro, n)), "frozen position out of range")
    m.refuses(lambda: komm.PolarCode(mu, np.append(fro, -1)), "negative frozen position")


@section("B07", 32, 52, exhaustive=True)
def reed_muller_reed(m, r, i):
    pairs = [(rho, mu) for mu in range(1, 8) for rho in range(mu)] + [(1, 9), (1, 10), (0, 9), (2, 9)]  # 2^9 positions: beyond one byte
    pairs += [(rho, 8) for rho in range(8)] + [(rho, mu) for mu in (9, 10) for rho in range(1 if mu == 10 else 3, 7 if mu == 9 else 4)] + [(1, 11), (2, 11), (1, 12), (0, 12), (0, 11)]
    rho, mu = pairs[i]
    m.note(rho=rho, mu=mu)
    c = komm.ReedMullerCode(rho, mu)
    G = np.asarray(c.generator_matrix, int)
    k, n = G.shape
    m.arr(G, gen.monomials(rho, mu), "rows are the monomials in the documented order")
    parts = c.reed_partitions()
    m.eq(len(parts), k, "one partition per message bit")
    U = r.integers(0, 2, size=(4, k))
    V = U @ G % 2
    # degree of monomial j
    degs = [int(round(np.log2(n / row.sum()))) for row in G]
    resid = V.copy()
    for j in range(k):
        P = np.asarray(parts[j])
        m.eq(P.ndim, 2, "partition is a 2-D array")
        m.eq(sorted(P.ravel().tolist()), list(range(n)), "partition covers every position once")
        m.eq(P.shape[1], 2 ** degs[j], "size of each check set")
        # with all monomials of higher degree removed, every check sum yields message bit j
        hi = [t for t in range(k) if degs[t] > degs[j]]
        R = (V + U[:, hi] @ G[hi]) % 2 if hi else V
        sums = R[:, P].sum(axis=2) % 2
        m.arr(sums, np.repeat(U[:, [j]], P.shape[0], axis=1), f"every check sum of partition {j} gives message bit {j}")
