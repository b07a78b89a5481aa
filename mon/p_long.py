"""Long sequences: single calls on 65 to 200 thousand symbols, where block counters, chunked buffers and random patterns wrap.

The oracles are vectorised or table-driven and cheap; the events observed are the individual output symbols."""
import itertools
import math
from fractions import Fraction

import komm
import numpy as np
from komm import BinaryPolynomial as BP

from . import gconv, ref
from .core import section
from .p_large2 import logint


def many(r, lo=65600, hi=90000):
    """A length just beyond 2^16 (and sometimes beyond 2^17)."""
    return int(r.integers(131100, 140000)) if r.integers(0, 4) == 0 else int(r.integers(lo, hi))


# ---------------------------------------------------------------- V01
def shift_register(c, u):
    """The encoder with transfer matrix P/q, by registers for 1/q and convolution for P."""
    u = u.reshape(-1, c.k)
    T = len(u)
    v = np.zeros((T, c.n), int)
    for i in range(c.k):
        taps, reg, w = c.q[i] & ~1, 0, []
        full = (1 << ref.deg(c.q[i]) + 1) - 1
        for x in u[:, i].tolist():
            b = x ^ ((reg << 1) & taps).bit_count() & 1
            reg = (reg << 1 | b) & full
            w.append(b)
        w = np.array(w)
        for j in range(c.n):
            p = c.P[i][j]
            for l in range(p.bit_length()):
                if p >> l & 1:
                    v[l:, j] ^= w[:T - l] if l else w
    return v.reshape(-1)


@section("V01", 5, 24, scaled=False)
def encode_very_long(m, r, i):
    c = gconv.any_conv(r, max_nu=5, max_states=64)
    T = many(r)
    u = r.integers(0, 2, size=T * c.k)
    m.note(code=c, T=T)
    want = shift_register(c, u)
    m.arr(shift_register(c, u[:60 * c.k]), c.encode(u[:60 * c.k]), "the oracle agrees with the series")
    m.arr(np.asarray(c.code.encode(u.astype(r.choice([np.int64, np.uint8, np.int8]))), int), want, "very long message")
    a, s = c.code.encode_with_state(u[:(T - 7) * c.k], np.zeros(c.sigma, int))
    b, _ = c.code.encode_with_state(u[(T - 7) * c.k:], s)
    m.arr(np.concatenate([np.asarray(a, int), np.asarray(b, int)]), want, "resumed after more than 65536 blocks")
    m.tag("blocks", T)


# ---------------------------------------------------------------- F01
@section("F01", 4, 30, scaled=False)
def process_very_long(m, r, i):
    S, X, Y = logint(r, 2, 300), logint(r, 2, 300), logint(r, 2, 1000)
    T, O = r.integers(0, S, size=(S, X)), r.integers(0, Y, size=(S, X))
    L, s = many(r), int(r.integers(0, S))
    x = r.integers(0, X, size=L)
    m.note(S=S, X=X, L=L)
    moore = bool(i % 2)
    f = komm.MooreMachine(T, O[:, 0]) if moore else komm.MealyMachine(T, O)
    t, o, st, y = T.tolist(), O.tolist(), s, []
    for a in x.tolist():
        if moore:
            st = t[st][a]
            y.append(o[st][0])
        else:
            y.append(o[st][a])
            st = t[st][a]
    got, end = f.process(x, s)
    m.arr(np.asarray(got, int), np.array(y), "outputs")
    m.eq(int(end), st, "final state")
    m.tag("symbols", L)


# ---------------------------------------------------------------- randomness over long inputs
def white(m, e, what, mech=None):
    """No lag at which a sequence of independent values repeats itself: its circular autocorrelation stays within 8 sigma."""
    e = np.asarray(e, complex if np.iscomplexobj(e) else float).reshape(-1)
    n = len(e)
    z = e - e.mean()
    v = float(np.mean(np.abs(z) ** 2))
    if v == 0:
        return
    size = 1 << (2 * n - 1).bit_length()
    F = np.fft.fft(z, size)
    a = np.abs(np.fft.ifft(np.abs(F) ** 2))[1:n]
    lim = 8.5 * v * np.sqrt(n - np.arange(1, n)) + 60 * float(np.max(np.abs(z))) ** 2
    k = int(np.argmax(a - lim))
    m.ok(a[k] <= lim[k], lambda: f"{what}: repeats itself at lag {k + 1} (correlation {a[k]:.1f}, limit {lim[k]:.1f}, length {n})")


@section("C02", 10, 80, scaled=False)
def transmissions_very_long(m, r, i):
    """Errors at different positions are independent of each other, however long the input."""
    t = i % 5
    rng = np.random.default_rng(int(r.integers(0, 2**31)))
    p = float(r.uniform(0.05, 0.5))
    n = many(r) if t < 4 else logint(r, 20000, 40000)
    shape = [(n,), (2, n // 2), (n // 256, 256)][int(r.integers(0, 3))]
    b = r.integers(0, 2, size=shape)
    m.note(channel=t, p=p, shape=shape)
    if t == 0:
        e = np.asarray(komm.BinarySymmetricChannel(p, rng=rng).transmit(b)) ^ b
    elif t == 1:
        e = np.asarray(komm.BinaryErasureChannel(p, rng=rng).transmit(b)) == 2
    elif t == 2:
        e = np.asarray(komm.ZChannel(p, rng=rng).transmit(np.ones(shape, int))) == 0
    elif t == 3:
        g = komm.GaussianChannel(p, rng=rng)
        x = np.zeros(shape) if r.integers(0, 2) else np.zeros(shape, complex)
        e = np.asarray(g.transmit(x))
        q = np.mean(np.abs(e) ** 2)
        m.ok(abs(q - p) <= 12 * p / math.sqrt(n), lambda: f"noise power {q} for {p}")
        if np.iscomplexobj(x):
            c = np.mean(e.real * e.imag)
            m.ok(abs(c) <= 8 * p / 2 / math.sqrt(n), lambda: f"real and imaginary noise correlated: {c}")
        white(m, e.real, "noise")
    else:
        W = r.dirichlet(np.ones(4), size=3)
        e = np.asarray(komm.DiscreteMemorylessChannel(W, rng=rng).transmit(np.ones(shape, int)))
    m.shape(e, shape, "shape")
    if t < 3:
        k = e.sum()
        m.ok(abs(k - e.size * p) <= 7 * math.sqrt(e.size * p * (1 - p)) + 1, lambda: f"{k} events of {e.size}, probability {p}")
    white(m, e, "channel errors")
    m.tag("symbols", int(e.size))


@section("M03", 8, 60, scaled=False)
def emissions_very_long(m, r, i):
    rng = np.random.default_rng(int(r.integers(0, 2**31)))
    S = logint(r, 2, 40)
    p = r.dirichlet(np.full(S, 2.0))
    if i % 4 < 3:
        n = many(r)
        shape = [n, (n,), (2, n // 2), (n // 256, 256)][int(r.integers(0, 4))]
        m.note(pmf=p, shape=shape)
        x = np.asarray(komm.DiscreteMemorylessSource(p, rng=rng).emit(shape))
        m.shape(x, (shape,) if isinstance(shape, int) else shape, "shape")
        N = np.bincount(x.reshape(-1), minlength=S)
        m.ok(np.all(np.abs(N - x.size * p) <= 7 * np.sqrt(x.size * p * (1 - p)) + 3), "frequencies")
    else:
        n = logint(r, 20000, 30000)
        m.note(pmf=p, n=n)
        x = np.asarray(komm.MarkovChain(np.tile(p, (S, 1)), rng=rng).simulate(0, n))[1:]
        N = np.bincount(x, minlength=S)
        m.ok(np.all(np.abs(N - x.size * p) <= 7 * np.sqrt(x.size * p * (1 - p)) + 3), "a chain with equal rows emits independent states")
    white(m, x, "emissions")
    white(m, x == int(np.argmax(p)), "occurrences of the likeliest symbol")
    m.tag("symbols", int(x.size))


# ---------------------------------------------------------------- M02
def gth(P):
    """Stationary distribution by state reduction without subtractions: accurate to rounding however weak the coupling."""
    A = np.array(P, dtype=float)
    n = len(A)
    for k in range(n - 1, 0, -1):
        s = A[k, :k].sum()
        A[:k, k] /= s
        A[:k, :k] += np.outer(A[:k, k], A[k, :k])
    pi = np.zeros(n)
    pi[0] = 1
    for k in range(1, n):
        pi[k] = pi[:k] @ A[:k, k]
    return pi / pi.sum()


@section("M02", 300, 4000, scaled=False)
def nearly_decoupled(m, r, i):
    """Groups of states joined by probabilities down to 1e-10: the weights of the groups hang on those small numbers."""
    g = int(r.integers(2, 4))
    sizes = [int(r.integers(1, 4)) for _ in range(g)]
    n = sum(sizes)
    e = 10.0 ** -float(r.uniform(4, 10))
    P = np.zeros((n, n))
    at = np.concatenate([[0], np.cumsum(sizes)])
    for a, b in zip(at[:-1], at[1:]):
        P[a:b, a:b] = r.dirichlet(np.full(b - a, 2.0), size=b - a)
    for k in range(g):
        P[at[k]:at[k + 1], at[(k + 1) % g]] += e * r.uniform(0.3, 3, size=sizes[k])
    q = r.permutation(n)
    P = P[np.ix_(q, q)]
    P /= P.sum(axis=1, keepdims=True)
    m.note(matrix=P, coupling=e)
    want = gth(P)
    c = komm.MarkovChain(P)
    m.eq(c.is_irreducible(), True, "irreducible")
    got = np.asarray(c.stationary_distribution())
    m.close(got, want, "stationary distribution", 0, 1e-13 / e + 1e-10)
    m.tag(f"coupling 1e{math.floor(math.log10(e))}")


# ---------------------------------------------------------------- A02
@section("A02", 60, 600, scaled=False)
def equal_degree_products(m, r, i):
    """Products of irreducibles of one degree d | n: for n with two, three prime factors each proper divisor is its own case."""
    n = [6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 42, 60, 66, 70, 30, 42, 66, 70, 30][i % 20]
    ds = [d for d in range(1, n) if n % d == 0]
    d = ds[(i // 20) % len(ds)] if r.integers(0, 2) else int(r.choice(ds))
    d = d if d <= 24 else int(r.choice([x for x in ds if x <= 24]))
    fs = []
    for _ in range(n // d):
        if d == 1:
            f = 2 | int(r.integers(0, 2))
        else:
            while True:
                f = 1 << d | int(r.integers(0, 1 << (d - 1))) << 1 | 1
                if ref.pirreducible(f) and (f not in fs or r.integers(0, 60) == 0):
                    break
        fs.append(f)
    a = 1
    for f in fs:
        a = ref.pmul(a, f)
    m.note(a=bin(a), d=d, n=n)
    m.eq(BP(a).degree, n, "degree of the product")
    m.eq(BP(a).is_irreducible(), False, f"product of {n // d} irreducibles of degree {d}")
    m.eq(BP(a).is_primitive(), False, "is_primitive of a product")
    m.tag(f"{n}={n // d}x{d}")


# ---------------------------------------------------------------- L04
def _power_sizes():
    return [(Y, k, Y**k + o) for Y in range(2, 12) for k in range(1, 13) if Y**k <= (260 if k < 3 else 1400) for o in (-1, 0, 1) if Y**k + o >= 2]


@section("L04", lambda: len(_power_sizes()), lambda: len(_power_sizes()), exhaustive=True)
def block_sizes(m, r, i):
    """As many sourcewords as there are target blocks of some size, one fewer, one more."""
    Y, k, N = _power_sizes()[i]
    m.note(target_cardinality=Y, words=N)
    c = komm.VariableToFixedCode.from_sourcewords([(x,) for x in range(N)], target_cardinality=Y)
    n = next(n for n in itertools.count(1) if Y**n >= N)
    m.eq((c.target_block_size, c.size, c.source_cardinality, c.target_cardinality), (n, N, N, Y), "parameters")
    x = list(map(int, r.integers(0, N, size=30))) + [0, N - 1]
    y = np.asarray(c.encode(x), int)
    want = [a // Y**j % Y for a in x for j in range(n - 1, -1, -1)]
    m.arr(y, np.array(want), "words are numbered in lexicographic order")
    m.arr(np.asarray(c.decode(y), int), np.array(x), "decode(encode(x)) = x")


# ---------------------------------------------------------------- D03
@section("D03", 120, 1500)
def hairline(m, r, i):
    """Soft values that differ by one part in 10^12: the smallest one still decides."""
    n = int(r.integers(2, 10))
    b = float(10.0 ** r.uniform(-6, 6))
    mag = b * (1 + 1e-12 * r.permutation(np.arange(n)))
    sg = 1 - 2 * r.integers(0, 2, size=n)
    if np.prod(sg) > 0:
        sg[int(r.integers(0, n))] *= -1
    L = mag * sg
    m.note(L=L)
    c = komm.SingleParityCheckCode(n)
    v = (sg < 0).astype(int)
    v[int(np.argmin(mag))] ^= 1
    m.arr(np.asarray(komm.WagnerDecoder(c).decode(L), int), v[:-1], "Wagner flips the least reliable bit") if n > 1 else None
    m.tag(f"n={n}")


# ---------------------------------------------------------------- X02: block counts beyond 2^16
@section("X02", 6, 36, scaled=False)
def vast_blocks(m, r, i):
    """More than 65536 blocks in one call equal the same blocks in other cuts."""
    t = i % 12
    n = many(r, 65600, 70000)
    soft = None
    if t == 0:
        c = komm.HammingCode(int(r.integers(2, 4)), bool(r.integers(0, 2)))
        f, k = c.encode, c.dimension
    elif t == 1:
        c = komm.SystematicBlockCode(r.integers(0, 2, size=(3, 3)))
        f, k = c.check, c.length
    elif t == 2:
        c = komm.HammingCode(3)
        f, k = komm.SyndromeTableDecoder(c).decode, 7
    elif t == 3:
        c = komm.HammingCode(3)
        f, k = komm.ExhaustiveSearchDecoder(c, input_type="soft").decode, 7
        soft = True
    elif t == 4:
        c = komm.SingleParityCheckCode(3)
        f, k = komm.WagnerDecoder(c).decode, 3
        soft = True
    elif t == 5:
        c = komm.CyclicCode(7, generator_polynomial=0b1011, systematic=bool(r.integers(0, 2)))
        f, k = c.encode, 4
    elif t == 6:
        c = komm.ReflectedLabeling(int(r.integers(1, 6)))
        f, k = c.bits_to_indices, c.num_bits
    elif t == 7:
        c = komm.PolarCode(2, [0])
        f, k = c.encode, 3
    elif t == 8:
        c = komm.ReedMullerCode(1, 3)
        f, k = komm.ReedDecoder(c).decode, 8
        n = int(r.integers(65540, 66000))
    elif t == 9:
        c = komm.NaturalLabeling(int(r.integers(1, 4)))
        f, k = c.marginalize, c.cardinality
        soft = "pmf"
    elif t == 10:
        c = komm.PolarCode(1, [])
        f, k = komm.SCDecoder(c).decode, 2
        soft = True
    else:
        c = komm.HammingCode(2)
        f, k = c.project_word, 3
    x = r.integers(0, 2, size=(n, k)) if soft is None else r.normal(size=(n, k))
    if soft == "pmf":
        x = np.exp(x)
        x /= x.sum(axis=1, keepdims=True)
    m.note(object=repr(c)[:80], op=getattr(f, "__qualname__", "?"), n=n)
    y = np.asarray(f(x.reshape(-1)))
    h = 65521
    a, b = np.asarray(f(x[:h].reshape(-1))), np.asarray(f(x[h:].reshape(-1)))
    m.eq(y.size % n, 0, "whole blocks out")
    m.close(np.concatenate([a, b]).astype(float), y.astype(float), "two cuts = one call", 1e-9, 1e-12)
    o = y.size // n
    for j in list(map(int, r.integers(0, n, size=20))) + [0, 65535, 65536, n - 1]:
        m.close(np.asarray(f(x[j]), float).reshape(-1), y[j * o:(j + 1) * o].astype(float), f"block {j}", 1e-9, 1e-12)
    m.tag("blocks", n)


# ---------------------------------------------------------------- lossless coders
@section("L01", 4, 30, scaled=False)
def fv_very_long(m, r, i):
    X = logint(r, 2, 30)
    p = r.dirichlet(np.full(X, 0.7))
    c = [komm.HuffmanCode, komm.FanoCode, komm.ShannonCode, komm.HuffmanCode][i % 4](np.maximum(p, 1e-4) / np.maximum(p, 1e-4).sum())
    n = many(r)
    x = r.choice(X, p=p, size=n)
    m.note(code=repr(c)[:200], n=n)
    em = {k[0]: v for k, v in c.enc_mapping.items()}
    y = np.asarray(c.encode(x))
    m.arr(y.astype(int), np.array([b for a in x.tolist() for b in em[a]]), "concatenated codewords")
    m.arr(np.asarray(c.decode(y)).astype(int), x, "decode(encode(x)) = x")
    m.tag("symbols", n)


@section("L04", 3, 20, scaled=False)
def vf_very_long(m, r, i):
    c = komm.TunstallCode(r.dirichlet(np.ones(int(r.integers(2, 4)))), int(r.integers(2, 7)))
    n = many(r)
    x = r.integers(0, c.source_cardinality, size=n)
    m.note(code=repr(c)[:200], n=n)
    y = np.asarray(c.encode(x), int)
    z = np.asarray(c.decode(y), int)
    m.arr(z[:n], x, "decode(encode(x)) starts with x")
    m.ok(len(z) - n < max(c.lengths), "less than one word is appended")
    m.eq(len(y) % c.target_block_size, 0, "whole blocks")


@section("L05", 6, 30, scaled=False)
def lz_very_long(m, r, i):
    X = int(r.integers(2, 5))
    n = many(r)
    x = (r.random(n) < 0.1).astype(int) if i % 2 else r.integers(0, X, size=n) * (r.random(n) < 0.3)
    t = i % 4
    if t == 0:
        c = komm.LempelZiv78Code(X)
    elif t == 1:
        c = komm.LempelZivWelchCode(X)
    else:
        k = [komm.LempelZiv77Code, komm.LempelZivSSCode][t - 2]
        x = x[:65600]
        c = k(search_size=logint(r, 60, 600), lookahead_size=logint(r, 10, 100), source_cardinality=X)
    m.note(code=repr(c), n=n)
    tok = c.source_to_tokens(x) if t != 1 else []
    m.arr(np.asarray(c.tokens_to_source(tok), int), x, "tokens to source") if t != 1 else None
    y = np.asarray(c.encode(x), int)
    m.arr(np.asarray(c.decode(y), int), x, "decode(encode(x)) = x")
    m.tag("tokens", len(tok))


# ---------------------------------------------------------------- mapping, quantizing, conversions, sequences
@section("K01", 12, 80, scaled=False)
def symbols_very_long(m, r, i):
    t = i % 6
    M = int(r.choice([4, 16]))
    C = [lambda: komm.PAMConstellation(M), lambda: komm.PSKConstellation(M), lambda: komm.QAMConstellation(M), lambda: komm.ASKConstellation(M),
         lambda: komm.CrossQAMConstellation(32), lambda: komm.OrthogonalConstellation(4)][t]()
    M = C.order
    n = many(r)
    j = r.integers(0, M, size=n)
    m.note(con=repr(C), n=n)
    X = np.asarray(C.matrix)
    y = np.asarray(C.indices_to_symbols(j))
    m.arr(y, X[j].reshape(-1), "mapping")
    z = y + r.normal(size=y.shape) * 0.3 + (1j * r.normal(size=y.shape) * 0.3 if np.iscomplexobj(X) else 0)
    d = np.zeros((n, M))
    for a in range(M):
        d[:, a] = np.sum(np.abs(z.reshape(n, -1) - X[a]) ** 2, axis=1)
    g = np.asarray(C.closest_indices(z), int)
    m.shape(g, (n,), "one index per symbol")
    m.ok(bool(np.all((g >= 0) & (g < M))), "indices in range")
    m.ok(bool(np.all(d[np.arange(n), g] <= d.min(axis=1) + 1e-9)), "nearest symbols")
    m.arr(np.asarray(C.closest_symbols(z)), X[g].reshape(-1), "closest symbols")


@section("Q01", 6, 40, scaled=False)
def samples_very_long(m, r, i):
    L = logint(r, 2, 400)
    v = np.sort(r.normal(size=2 * L - 1))
    q = komm.ScalarQuantizer(v[0::2], v[1::2]) if i % 2 else komm.UniformQuantizer(L, 0.1)
    lev, th = np.asarray(q.levels, float), np.asarray(q.thresholds, float)
    n = many(r)
    x = r.normal(size=n)
    m.note(L=L, n=n)
    k = np.searchsorted(th, x, side="right")
    clear = np.min(np.abs(x[:, None] - th[np.clip(np.stack([k - 1, k], axis=1), 0, max(L - 2, 0))]), axis=1) > 1e-9 if L > 1 else np.ones(n, bool)
    y = np.asarray(q.quantize(x), float)
    m.shape(y, (n,), "shape")
    m.close(y[clear], lev[k][clear], "every sample goes to the level of its interval", 1e-12, 1e-12)
    d = np.asarray(q.digitize(x), int)
    m.arr(d[clear], k[clear], "indices")


@section("G01", 3, 24, scaled=False)
def words_very_long(m, r, i):
    k = int(r.integers(1, 5 if i % 3 == 2 else 9))
    lab = [komm.NaturalLabeling(k), komm.ReflectedLabeling(k), komm.Labeling(((r.permutation(2**k)[:, None] >> np.arange(k)) & 1))][i % 3]
    n = many(r)
    j = r.integers(0, 2**k, size=n)
    m.note(labeling=repr(lab)[:80], n=n)
    M = np.asarray(lab.matrix, int)
    b = np.asarray(lab.indices_to_bits(j), int)
    m.arr(b, M[j].reshape(-1), "indices to bits")
    m.arr(np.asarray(lab.bits_to_indices(b), int), j, "bits to indices")


@section("U01", 6, 40, scaled=False)
def conversions_very_long(m, r, i):
    n, w = many(r), int(r.integers(1, 40))
    j = r.integers(0, 2**w, size=n)
    o = ["LSB-first", "MSB-first"][i % 2]
    m.note(n=n, width=w, order=o)
    b = np.asarray(komm.int_to_bits(j, w, bit_order=o))
    s = np.arange(w) if i % 2 == 0 else np.arange(w)[::-1]
    m.arr(b.astype(int), (j[:, None] >> s) & 1, "int_to_bits of a vector")
    m.arr(np.asarray(komm.bits_to_int(b, bit_order=o)), j, "bits_to_int of a vector")
    x = int.from_bytes(r.bytes(n // 8), "little") | 1 << n
    a = np.asarray(komm.int_to_bits(x, n + 1, bit_order=o)).astype(int)
    want = np.frombuffer(bin(x)[2:].encode(), np.uint8).astype(int) - 48
    m.arr(a, want[::-1] if i % 2 == 0 else want, "a single very wide integer")
    m.eq(int(komm.bits_to_int(a, bit_order=o)), x, "back")


@section("S03", 6, 40, scaled=False)
def autocorrelation_very_long(m, r, i):
    n = many(r)
    x = r.integers(0, 2, size=n) * 2 - 1 if i % 2 else r.integers(-3, 4, size=n) + 1j * r.integers(-3, 4, size=n)
    sh = np.concatenate([r.integers(-n, n, size=8), [0, 1, -1, 32768, 65535, 65536, n - 1, 1 - n]])
    m.note(n=n, shifts=sh)
    want, cyc = [], []
    for l in sh.tolist():
        a = abs(l)
        w = np.sum(x[a:] * np.conj(x[:n - a]))
        want.append(w if l >= 0 else np.conj(w))
        cyc.append(np.sum(x * np.conj(np.roll(x, l))))
    E = np.sum(np.abs(x) ** 2)
    m.close(komm.autocorrelation(x, sh), np.array(want), "autocorrelation", 1e-12, 1e-7)
    m.close(komm.cyclic_autocorrelation(x, sh), np.array(cyc), "cyclic autocorrelation", 1e-12, 1e-7)
    m.close(komm.autocorrelation(x, sh, normalized=True), np.array(want) / E, "normalised", 1e-12, 1e-12)
    m.close(komm.cyclic_autocorrelation(x, sh, normalized=True), np.array(cyc) / E, "normalised cyclic", 1e-12, 1e-12)


@section("D07", 1, 6, scaled=False)
def stream_very_long(m, r, i):
    """A clean (then sparsely corrupted) stream of more than 65536 blocks comes back, delayed by the traceback length."""
    c = gconv.named_conv([("ff", [[7, 5]]), ("low", [7, 5])][i % 2])
    T, tau = int(r.integers(65600, 67000)), int(r.integers(20, 40))
    u = r.integers(0, 2, size=T)
    v = shift_register(c, u)
    bad = np.arange(int(r.integers(0, 40)), len(v), 60)
    v = v.copy()
    v[bad] ^= 1
    m.note(code=c, T=T, tau=tau)
    d = komm.ViterbiStreamDecoder(c.code, traceback_length=tau)
    cut = (T // 2) * 2
    y = np.concatenate([np.asarray(d.decode(v[:cut]), int), np.asarray(d.decode(v[cut:]), int)])
    m.arr(y[tau:], u[:T - tau], "the stream, delayed")
    m.tag("blocks", T)


# ---------------------------------------------------------------- F02
@section("F02", 4, 30, scaled=False)
def very_wide_alphabet(m, r, i):
    """Machines with more than 32768 input symbols: the likeliest input is found whatever its number."""
    S, X, L = int(r.integers(1, 3)), int(r.integers(33000, 70000)), 3
    T = r.integers(0, S, size=(S, X))
    T[:, 0] = S - 1
    O = np.stack([r.permutation(X) for _ in range(S)])
    x = np.concatenate([r.integers(32768, X, size=2), r.integers(0, X, size=1)])[r.permutation(3)]
    f = komm.MealyMachine(T, O)
    s = int(r.integers(0, S))
    y, end = f.process(x, s)
    m.note(S=S, X=X, x=x, s=s)
    z = np.asarray(y, float) + r.uniform(-0.3, 0.3, size=L)
    m0 = np.full(S, np.inf)
    m0[s] = 0.0
    cost = lambda a, b: abs(a - b)
    got, met = f.viterbi(z, cost, m0)
    m.arr(np.asarray(got)[:, end], x, "viterbi")
    m.close(np.asarray(met)[end], np.abs(np.asarray(y) - z).sum(), "metric", 1e-9, 1e-9)
    mem = {"paths": np.zeros((S, 2), int), "metrics": np.full((S, 2), np.inf)}
    mem["metrics"][s, -1] = 0.0
    out = np.asarray(f.viterbi_streaming(z, cost, mem))
    m.arr(out[1:], x[:-1], "streaming viterbi, delayed by one")
    m.tag(f"inputs>{X // 10000}0000")
