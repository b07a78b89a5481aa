"""Whole communication chains with large parts: long messages, dense constellations, long codes, shaped arrays."""

import numpy as np

import komm

from . import ref
from .core import section


def dense(r, i):
    """A constellation of 64 to 1024 points with a labeling, in turn over the families."""
    m = int(r.choice([6, 8, 9, 9, 10]))
    t = i % 7
    A = float(r.choice([0.01, 1.0, 250.0]))
    if t == 0:
        con = komm.PSKConstellation(1 << m, A, float(r.choice([0.0, 0.001, 0.37])))
    elif t == 1:
        con = komm.PAMConstellation(1 << m, A)
    elif t == 2:
        m += m % 2
        con = komm.QAMConstellation(1 << m, A, float(r.choice([0.0, 0.125])))
    elif t == 3:
        con = komm.QAMConstellation((1 << (m - 2), 4), (A, 1.5 * A))
    elif t == 4:
        h = 1 << (m - 1)
        con = komm.APSKConstellation((h // 2, h // 2, h), (A, 1.5 * A, 3 * A), (0.0, 0.002, 0.001))
    elif t == 5:
        con = komm.ASKConstellation(1 << m, A)
    else:
        m = min(m, 8)
        con = komm.BiorthogonalConstellation(1 << m, A)
    X = np.asarray(con.matrix)
    kind = int(r.integers(0, 3))
    if kind == 0:
        L = komm.NaturalLabeling(m)
    elif kind == 1:
        L = komm.ReflectedLabeling(m)
    else:
        L = komm.Labeling(ref.all_words(m)[r.permutation(1 << m)])
    D = min(float(np.linalg.norm(X[j + 1:] - X[j], axis=1).min()) for j in range(len(X) - 1))
    return L, con, X, D


def long_source(r, i):
    """A compressor and a sequence of thousands of symbols for it."""
    k = i % 6
    n = int(r.integers(2000, 6000))
    if k == 0:
        S = int(r.integers(2, 300))
        return komm.LempelZiv78Code(S), r.choice(S, size=n, p=r.dirichlet(np.full(S, 0.2)))
    if k == 1:
        S = int(r.integers(2, 300))
        return komm.LempelZivWelchCode(S), r.choice(S, size=n, p=r.dirichlet(np.full(S, 0.2)))
    if k == 2:
        S = int(r.integers(2, 20))
        return komm.LempelZivSSCode(search_size=64, lookahead_size=16, source_cardinality=S), r.integers(0, S, size=n) // 2 % S
    if k == 3:
        S = int(r.integers(2, 300))
        pmf = r.dirichlet(np.full(S, 0.5))
        return komm.HuffmanCode(pmf), r.choice(S, size=n, p=pmf)
    if k == 4:
        return komm.FibonacciCode(), np.floor(np.exp(r.uniform(0, 40, size=300))).astype(int)
    S = int(r.integers(2, 10))
    pmf = r.dirichlet(np.ones(S))
    return komm.TunstallCode(pmf, 9), r.choice(S, size=n, p=pmf)


HARD = [
    lambda: (komm.GolayCode(), komm.SyndromeTableDecoder, 3),
    lambda: (komm.HammingCode(8), komm.SyndromeTableDecoder, 1),
    lambda: (komm.BCHCode(5, 7), komm.SyndromeTableDecoder, 3),
    lambda: (komm.BCHCode(6, 11), komm.BerlekampDecoder, 5),
    lambda: (komm.BCHCode(7, 9), komm.BerlekampDecoder, 4),
    lambda: (komm.ReedMullerCode(2, 6), komm.ReedDecoder, 7),
    lambda: (komm.ReedMullerCode(1, 8), komm.ExhaustiveSearchDecoder, 63),
    lambda: (komm.RepetitionCode(301), komm.ExhaustiveSearchDecoder, 150),
]


@section("X07", 28, 400, scaled=False)
def large_hard_chain(m, r, i):
    """Thousands of source symbols -> long code -> dense constellation -> bounded noise and t errors per block -> source symbols."""
    sc, X0 = long_source(r, int(r.integers(0, 6)))
    bits = np.asarray(sc.encode(X0), int)
    code, dec, t = HARD[i % len(HARD)]()
    k, n = code.dimension, code.length
    limit = k * max(1, min(400, 60000 // n, 4000 // n if dec is komm.BerlekampDecoder else 400))
    bits = bits[:limit]
    u = np.concatenate([bits, np.zeros((-len(bits)) % k, int)])
    if len(u) // k % 2 and len(u) < limit:
        u = np.concatenate([u, np.zeros(k, int)])
    rows = 2 if len(u) // k % 2 == 0 and i % 2 else 1
    L, con, X, D = dense(r, i)
    m.note(source=sc, code=code, labeling=type(L).__name__, constellation=con, blocks=len(u) // k, rows=rows)
    v = np.asarray(code.encode(u.reshape(rows, -1)), int)
    m.shape(v, (rows, len(u) // k * n // rows), "codewords")
    w = np.concatenate([v, np.zeros((rows, (-v.shape[1]) % L.num_bits), int)], axis=1)
    y = np.asarray(con.indices_to_symbols(L.bits_to_indices(w)))
    z = r.normal(size=y.shape) + (1j * r.normal(size=y.shape) if np.iscomplexobj(X) else 0)
    z = z.reshape(-1, con.dimension)
    z = z / np.linalg.norm(z, axis=1, keepdims=True) * 0.49 * D * r.random((len(z), 1))
    hat = np.asarray(L.indices_to_bits(con.closest_indices(y + z.reshape(y.shape))), int)
    m.arr(hat, w, "bits after noise shorter than half the minimum distance")
    e = np.zeros((v.size // n, n), int)
    for row in e:
        row[r.choice(n, size=int(r.integers(0, t + 1)), replace=False)] = 1
    rx = v ^ e.reshape(v.shape)
    b = np.asarray(dec(code).decode(rx), int)
    m.arr(b.reshape(-1), u, f"message after at most {t} errors per block ({dec.__name__})")
    if len(bits) < limit:
        m.arr(np.asarray(sc.decode(b.reshape(-1)[:len(bits)]), int)[:len(X0)], X0, "source symbols")
        m.tag("decompressed")
    m.tag(f"{type(con).__name__} {con.order}")
    m.tag("symbols", int(y.size))


@section("X07", 28, 400, scaled=False)
def large_soft_chain(m, r, i):
    """Dense constellations at a sharp signal-to-noise ratio through the soft decoders of long codes."""
    k = i % 5
    if k == 0:
        mu = int(r.integers(7, 10))
        frozen = np.sort(r.choice(1 << mu, size=int(r.integers(1, 1 << mu)), replace=False))
        code = komm.PolarCode(mu, frozen)
        dec = komm.SCDecoder(code, output_type="hard")
        blocks = 2
    elif k == 1:
        code = komm.SingleParityCheckCode(int(r.integers(60, 400)))
        dec = komm.WagnerDecoder(code)
        blocks = 20
    elif k == 2:
        code = komm.ReedMullerCode(2, int(r.integers(5, 8)))
        dec = komm.ReedDecoder(code, input_type="soft")
        blocks = 6
    elif k == 3:
        code = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o133, 0o171]]), int(r.integers(40, 90)), "zero-termination")
        dec = komm.ViterbiDecoder(code, input_type="soft")
        blocks = 1
    else:
        code = komm.SimplexCode(int(r.integers(6, 9)))
        dec = komm.ExhaustiveSearchDecoder(code, input_type="soft")
        blocks = 10
    u = r.integers(0, 2, size=code.dimension * blocks)
    L, con, X, D = dense(r, i + i // 5)
    v = np.asarray(code.encode(u), int)
    w = np.concatenate([v, np.zeros((-len(v)) % L.num_bits, int)])
    y = np.asarray(con.indices_to_symbols(L.bits_to_indices(w)))
    sig2 = D * D * (0.004 if i % 2 else 10.0 ** r.uniform(-9, -4))
    m.note(code=code, labeling=type(L).__name__, constellation=con, noise=sig2, u=u)
    p = np.asarray(con.posteriors(y, sig2))
    lv = np.asarray(L.marginalize(p), float)[:len(v)]
    m.ok(not np.isnan(lv).any(), "bit L-values are numbers")
    m.arr((lv < 0).astype(int), v, "signs of the L-values are the transmitted bits")
    m.arr(np.asarray(dec.decode(lv), int), u, f"message of a noiseless chain ({type(dec).__name__})")
    m.tag(f"{type(con).__name__} {con.order} {type(dec).__name__}")
