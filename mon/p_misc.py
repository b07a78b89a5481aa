"""Smaller facts: partial dictionaries, arrays in which only one entry is invalid."""

import numpy as np

import komm
from komm import BinaryPolynomial as BP

from . import ref
from .core import section


def words(r, size, top, lengths):
    """Distinct words over {0, ..., top}, at least one using the largest symbol."""
    out = [tuple(int(x) for x in r.integers(0, top + 1, size=int(r.integers(*lengths)))) for _ in range(4 * size)]
    out = list(dict.fromkeys(out))[:size]
    j = int(r.integers(0, len(out)))
    w = list(out[j])
    w[int(r.integers(0, len(w)))] = top
    out[j] = tuple(w)
    return list(dict.fromkeys(out))


@section("L04", 200, 3000)
def partial_dictionaries(m, r, i):
    """Mappings over a few words only: the alphabets reach up to the largest symbol used."""
    X, Y = int(r.integers(2, 14)), int(r.integers(2, 14))
    n = int(r.integers(1, 4))
    src = words(r, int(r.integers(2, 9)), X - 1, (1, 4))
    tgt = words(r, len(src) + 3, Y - 1, (n, n + 1))[: len(src)]
    src = src[: len(tgt)]
    Xs, Ys = 1 + max(max(w) for w in src), 1 + max(max(w) for w in tgt)
    dm = dict(zip(tgt, src))
    m.note(mapping=dm)
    if Xs < 2 or Ys < 2:
        return m.trivial()
    c = komm.VariableToFixedCode.from_dec_mapping(dm)
    m.eq((int(c.source_cardinality), int(c.target_cardinality), int(c.target_block_size), int(c.size)), (Xs, Ys, n, len(src)), "parameters")
    m.eq(c.dec_mapping, dm, "mapping")
    c = komm.VariableToFixedCode.from_sourcewords(src, target_cardinality=Ys)
    k = 1
    while Ys ** k < len(src):
        k += 1
    m.eq((int(c.source_cardinality), int(c.target_cardinality), int(c.target_block_size)), (Xs, Ys, k), "parameters from the words")
    m.eq([tuple(w) for w in c.sourcewords], src, "words in the given order")
    m.tag("symbols", Xs)


@section("U03", 60, 600)
def one_invalid(m, r, i):
    """One invalid entry among valid ones is enough."""
    n = int(r.integers(2, 9))
    x = np.abs(r.normal(size=n)) + 0.1
    bad = x.copy()
    bad[int(r.integers(0, n))] *= -1
    a = float(r.uniform(0, 2))
    m.note(x=x, bad=bad, a=a)
    m.refuses(lambda: komm.marcum_q(1, a, bad), "one negative x")
    m.refuses(lambda: komm.marcum_q(1, bad, a), "one negative a")
    m.refuses(lambda: komm.marcum_q(2, x, bad), "arrays, one negative x")
    m.refuses(lambda: komm.marcum_q(2, bad, x), "arrays, one negative a")
    m.shape(np.asarray(komm.marcum_q(1, x, x[::-1])), (n,), "valid")


def minimal_poly(b, mod):
    """The minimal polynomial over GF(2) of an element of GF(2)[X]/(mod)."""
    conj = [b]
    while True:
        c = ref.pmulmod(conj[-1], conj[-1], mod)
        if c == b:
            break
        conj.append(c)
    P = [1]  # Highest power first
    for c in conj:
        Q = P + [0]
        for j, x in enumerate(P):
            Q[j + 1] ^= ref.pmulmod(x, c, mod)
        P = Q
    return int("".join(map(str, P)), 2)


@section("A02", 60, 900, scaled=False)
def one_prime_short(m, r, i):
    """Irreducible polynomials whose order misses just one prime factor of 2^n - 1, small or large: not primitive."""
    n = [59, 53, 47, 41, 43, 37, 35, 29, 25, 23, 57, 51, 49, 55, 39, 33, 60, 48, 36, 28][i % 20] if i % 3 else int(r.integers(3, 25))
    N = (1 << n) - 1
    qs = sorted(set(ref.factor_int(N)))
    while True:
        mod = 1 << n | int.from_bytes(r.bytes(8), "little") & N | 1
        if ref.pirreducible(mod):
            break
    q = qs[-1 - (i // 20) % len(qs)] if r.integers(0, 2) else int(r.choice(qs))
    if q == N:
        q = 1
    while True:
        g = ref.ppowmod(1 + int.from_bytes(r.bytes(8), "little") % N, 1, mod)
        b = ref.ppowmod(g, q, mod)
        a = minimal_poly(b, mod)
        if a.bit_length() - 1 == n:
            break
        if q > 1 and N // q < 4 * n:
            return m.trivial()
    m.note(a=bin(a), n=n, missing=q)
    m.eq(BP(a).is_irreducible(), True, "minimal polynomial of full degree")
    if q > 1:
        m.eq(BP(a).is_primitive(), False, f"order divides (2^{n} - 1) / {q}")
    else:
        m.eq(BP(a).is_primitive(), all(ref.ppowmod(2, N // p, a) != 1 for p in qs if p > 1 and p < N) and n > 0, "is_primitive")
    m.tag(f"missing {'largest' if q == qs[-1] else 'another'}")


@section("L05", 8, 60, scaled=False)
def runs_of_phrases(m, r, i):
    """Constant and periodic sources of hundreds of thousands of symbols: phrases of hundreds of symbols."""
    n = int(r.integers(140_000, 220_000))
    period = [1, 1, 2, 3][i // 2 % 4] if i % 2 == 0 else [2, 1, 1, 5][i // 2 % 4]
    calX = int(r.integers(2, 5))
    pat = r.integers(0, calX, size=period)
    x = np.tile(pat, n // period + 1)[:n]
    tail = r.integers(0, calX, size=200)
    x = np.concatenate([x, tail, x[: n // 8]])
    m.note(n=n, period=period, pattern=pat, calX=calX)
    if i % 2 == 0:
        c = komm.LempelZivWelchCode(calX, int(r.integers(2, 4)))
    else:
        c = komm.LempelZiv78Code(calX, int(r.integers(2, 4)))
    y = c.encode(x)
    m.arr(np.asarray(c.decode(y)), x, "long phrases, decoded")
    if i % 2:
        m.eq(max(len(ref_phrases(x)), 0), len(c.source_to_tokens(x)), "number of phrases")
    m.tag(type(c).__name__)


def ref_phrases(x):
    """Phrases of the LZ78 parsing (as trie nodes)."""
    kids, out, node = {}, [], 0
    for s in x.tolist():
        nxt = kids.get((node, s))
        if nxt is None:
            kids[node, s] = len(kids) + 1
            out.append((node, s))
            node = 0
        else:
            node = nxt
    if node:
        out.append(node)
    return out


@section("L05", 6, 40, scaled=False)
def long_matches(m, r, i):
    """Matches longer than 255, 4095 and 65535 symbols."""
    top = [300, 5000, 70_000][i % 3]
    cls = [komm.LempelZiv77Code, komm.LempelZivSSCode][i // 3 % 2]
    calX = int(r.integers(2, 5))
    S, Lk = int(r.integers(2, 60)), top + int(r.integers(0, 50))
    period = 1 if top > 65535 else int(r.integers(1, min(S, 7) + 1))
    pat = r.integers(0, calX, size=period)
    x = np.concatenate([r.integers(0, calX, size=1), np.tile(pat, 2 * top // period + 9), r.integers(0, calX, size=20)])
    m.note(S=S, L=Lk, period=period, pattern=pat, calX=calX)
    c = cls(search_size=S, lookahead_size=Lk, source_cardinality=calX, target_cardinality=int(r.integers(2, 4)))
    t = c.source_to_tokens(x)
    y = c.encode(x)
    m.arr(np.asarray(c.decode(y)), x, "long matches, decoded")
    m.arr(np.asarray(c.tokens_to_source(t)), x, "long matches, from the tokens")
    m.eq(len(t) < 60, True, "a run is covered by few tokens")
    m.eq([tuple(int(z) for z in w) for w in c.target_to_tokens(y)], [tuple(int(z) for z in w) for w in t], "tokens back from the target")
    m.tag(cls.__name__, top)


@section("A01", 12, 80, scaled=False)
def long_euclid(m, r, i):
    """Consecutive continuants: the Euclidean algorithm takes thousands of divisions by small quotients."""
    steps = [300, 1100, 2100, 4300, 8300, 600][i % 6]
    a, b = 1, 0
    for _ in range(steps):
        a, b = (a << 1) ^ (a if r.integers(0, 2) else 0) ^ b, a
    g = 1 if i < 6 else int(r.integers(2, 1 << 20))
    x, y = ref.pmul(a, g), ref.pmul(b, g)
    m.note(steps=steps, g=g, x=hex(x)[:80])
    A, B = BP(x), BP(y)
    m.eq(int(BP.gcd(A, B)), g, "gcd")
    if steps <= 2100 or i % 6 == 3:
        d, s, t = BP.xgcd(A, B)
        m.eq(int(d), g, "extended gcd")
        m.eq(ref.pmul(int(s), x) ^ ref.pmul(int(t), y), g, "Bezout identity")
    m.tag("steps", steps)


@section("S03", 6, 30, scaled=False)
def polar_long(m, r, i):
    """Formats of binary sequences far longer than 65536."""
    n = int(r.integers(66_000, 300_000))
    b = r.integers(0, 2, size=n)
    p = 1 - 2 * b
    s, q = komm.BinarySequence(bit_sequence=b), komm.BinarySequence(polar_sequence=p)
    m.note(n=n)
    m.eq((int(s.length), int(q.length)), (n, n), "length")
    m.arr(np.asarray(s.polar_sequence), p, "polar form")
    m.arr(np.asarray(q.bit_sequence), b, "bit form")
    k = [0, 1, -1, n - 1, int(r.integers(-n, n)), 65536]
    want = [int(np.dot(p[max(z, 0):n + min(z, 0)], p[max(-z, 0):n - max(z, 0)])) for z in k]
    m.arr(np.asarray(s.autocorrelation(shifts=k)), np.array(want), "autocorrelation")
    m.arr(np.asarray(q.cyclic_autocorrelation(shifts=k)), np.array([int(np.dot(p, np.roll(p, z))) for z in k]), "cyclic autocorrelation")
    c = komm.ComplexSequence(p * 1j)
    m.close(np.asarray(c.autocorrelation(shifts=k)), np.array(want), "complex autocorrelation", rtol=1e-12, atol=1e-6)
    m.tag("n", n)


@section("G02", 8, 40, scaled=False)
def many_bits(m, r, i):
    """Words of 14 to 20 bits: order, Gray property and both mappings."""
    nb = [18, 17, 19, 20, 18, 17, 16, 14][i % 8]
    m.note(m=nb, i=i)
    ints = np.arange(1 << nb)
    shifts = np.arange(nb)[::-1]
    kind = i % 3
    if kind == 0:
        lab, codes = komm.ReflectedLabeling(nb), ints ^ (ints >> 1)
    elif kind == 1:
        lab, codes = komm.NaturalLabeling(nb), ints
    else:
        a = int(r.integers(4, nb - 3))
        lab = komm.ReflectedRectangularLabeling((a, nb - a))
        x, y = ints >> (nb - a), ints & ((1 << (nb - a)) - 1)
        codes = ((x ^ (x >> 1)) << (nb - a)) | (y ^ (y >> 1))
    want = ((codes[:, None] >> shifts) & 1).astype(np.uint8)
    m.ok(np.array_equal(np.asarray(lab.matrix), want), "matrix")
    m.eq((int(lab.num_bits), int(lab.cardinality)), (nb, 1 << nb), "sizes")
    idx = np.concatenate([r.integers(0, 1 << nb, size=300), np.array([0, -1, 65535, 65536, 32767, 32768]) % (1 << nb), 1 << np.arange(nb)])
    bits = np.asarray(lab.indices_to_bits(idx))
    m.arr(bits, want[idx].ravel().astype(int), "indices to bits")
    m.arr(np.asarray(lab.bits_to_indices(bits)), idx, "bits back to indices")
    two = idx[: 2 * (idx.size // 2)].reshape(2, -1)
    m.arr(np.asarray(lab.bits_to_indices(np.asarray(lab.indices_to_bits(two)))), two, "bits back to indices, 2-D")
    m.tag(type(lab).__name__, nb)


@section("F02", 120, 1500)
def exact_offsets(m, r, i):
    """Metrics that are large compared with their differences, exact in floating point: no tie-breaking slack is allowed."""
    S, X, Y = int(r.integers(1, 5)), int(r.integers(1, 4)), int(r.integers(2, 6))
    L = int(r.integers(1, 6 if X < 3 else 5))
    T, O = r.integers(0, S, size=(S, X)), r.integers(0, Y, size=(S, X))
    base, step = 2 ** int(r.integers(10, 24)), 2.0 ** -int(r.integers(18, 25))
    if i % 4 == 3:
        base = -base
    K = r.integers(0, 6, size=(Y, L))
    M = base + K * step
    m.note(T=T, O=O, base=base, step=step, K=K)
    f = komm.MealyMachine(T, O)
    xs, fm = f.viterbi(np.arange(L), lambda y, z: float(M[y, z]))
    xs, fm = np.asarray(xs), np.asarray(fm)
    best = {}
    stack = [(s, 0, 0) for s in range(S)]
    while stack:
        s, t, c = stack.pop()
        if t == L:
            best[s] = min(best.get(s, 1 << 60), c)
            continue
        for x in range(X):
            stack.append((int(T[s, x]), t + 1, c + int(K[int(O[s, x]), t])))
    for s in range(S):
        if s not in best:
            m.ok(np.isinf(fm[s]), "unreachable")
            continue
        m.eq(float(fm[s]), L * float(base) + best[s] * step, f"final metric of state {s}")
        costs = []
        for s0 in range(S):
            q, c = s0, 0
            for t in range(L):
                x = int(xs[t, s])
                c += int(K[int(O[q, x]), t])
                q = int(T[q, x])
            if q == s:
                costs.append(c)
        m.eq(min(costs, default=None), best[s], f"inputs returned for state {s}")
    m.tag("offset", abs(base))


@section("V04", 6, 40, scaled=False)
def very_long_frames(m, r, i):
    """Frames of thousands of blocks, recursive and not: every message bit counts in the tail and in the initial state."""
    mode = ["zero-termination", "tail-biting", "zero-termination"][i % 3]
    h = int(r.integers(1030, 1500)) if i % 2 == 0 else int(r.integers(300, 700))
    k = 1
    fb = [0b111, 0b1101, 0b11, 0b10011, 1][int(r.integers(0, 5))] if mode == "zero-termination" else 1
    deg = max(2, fb.bit_length() - 1)
    ff = [int(r.integers(1, 1 << (deg + 1))) | 1 << deg, int(r.integers(1, 1 << (deg + 1)))]
    code = komm.ConvolutionalCode([ff], [fb])
    m.note(ff=ff, fb=fb, h=h, mode=mode)
    t = komm.TerminatedConvolutionalCode(code, h, mode)
    A, B, C, D = (np.asarray(z, int) for z in code.state_space_representation())
    for case in range(3):
        u = r.integers(0, 2, size=h * k)
        if case == 1:
            u[:] = 0
            u[int(r.integers(0, 40))] = 1
        v = np.asarray(t.encode(u), int)
        w = v.reshape(-1, 2)
        # The codeword satisfies the parity check of the rate-1/2 code: v1(D) g2(D) = v2(D) g1(D).
        p, q = (np.convolve(w[:, 0], [ff[1] >> d & 1 for d in range(deg + 1)]), np.convolve(w[:, 1], [ff[0] >> d & 1 for d in range(deg + 1)]))
        e = (p + q) % 2
        if mode == "tail-biting":
            e = np.concatenate([(e[:deg] + e[len(w):]) % 2, e[deg:len(w)]])
        m.ok(not e.any(), lambda: f"{mode}: parity check fails at {np.flatnonzero(e)[:5].tolist()}")
        if mode == "zero-termination":
            m.arr(v[: 2 * h], np.asarray(code.encode(u), int), "codeword begins with the encoder's outputs")
        else:
            m.arr(v, [int(b) for b in np.stack([sum(np.roll(u, d) * (g >> d & 1) for d in range(deg + 1)) % 2 for g in ff], axis=1).ravel()], "circular convolution")
    m.tag(mode, h)


@section("X06", 300, 4000)
def corrupted_lists(m, r, i):
    """A valid list with one entry spoiled, wherever it stands, is refused; the valid list is accepted."""
    what = i % 14
    j = lambda n: int(r.integers(0, n))
    if what == 0:
        k, mm = int(r.integers(1, 12)), int(r.integers(1, 12))
        P = r.integers(0, 2, size=(k, mm))
        K = r.permutation(k + mm)[:k]
        bad = K.copy()
        t = j(k)
        bad[t] = [-1, k + mm, -(k + mm), k + mm + 5, int(K[t - 1]) if k > 1 else -2][j(5)]
        good, f = (P, K.tolist()), komm.SystematicBlockCode
        bad = (P, bad.tolist())
    elif what == 1:
        mu = int(r.integers(1, 8))
        F = r.permutation(1 << mu)[:max(1, j(1 << mu))]
        bad, t = F.copy(), j(len(F))
        bad[t] = [-1, 1 << mu, -(1 << mu), int(F[t - 1]) if len(F) > 1 else -3][j(4)]
        good, bad, f = (mu, F.tolist()), (mu, bad.tolist()), komm.PolarCode
    elif what in (2, 3, 4):
        n = int(r.integers(3, 40))
        p = r.dirichlet(np.ones(n))
        bad, s, t = p.copy(), *r.permutation(n)[:2]
        bad[t] += bad[s] + 1e-3
        bad[s] = -1e-3
        if what == 3:
            bad = p.copy()
            bad[t] += 0.01
        good, bad = (p,), (bad,)
        f = [komm.FanoCode, komm.HuffmanCode, komm.ShannonCode, lambda q: komm.TunstallCode(q, 6), komm.DiscreteMemorylessSource, komm.entropy,
             lambda q: komm.DiscreteMemorylessChannel(np.eye(n)).mutual_information(q), lambda q: komm.PAMConstellation(n).mean(q),
             lambda q: komm.PAMConstellation(n).posteriors([0.1], 1.0, q), lambda q: komm.relative_entropy(q, np.ones(n) / n), lambda q: komm.relative_entropy(np.ones(n) / n, q)][j(11)]
    elif what in (5, 6):
        a, n = int(r.integers(2, 20)), int(r.integers(2, 20))
        sq = bool(r.integers(0, 2))
        n = a if sq else n
        W = r.dirichlet(np.ones(n), size=a)
        bad, t = W.copy(), j(a)
        s, u = r.permutation(n)[:2]
        if what == 5:
            bad[t, u] += bad[t, s] + 1e-3
            bad[t, s] = -1e-3
        else:
            bad[t, u] += [0.01, 1e-3][j(2)]
        good, bad, f = (W,), (bad,), komm.MarkovChain if sq else komm.DiscreteMemorylessChannel
    elif what == 7:
        n = int(r.integers(2, 20))
        z = np.sort(r.normal(size=2 * n - 1))
        bad, t = z.copy(), j(2 * n - 2)
        if r.integers(0, 2):
            bad[t], bad[t + 1] = z[t + 1], z[t]
        else:
            bad[t] = bad[t + 1]
        good, bad, f = (z[::2], z[1::2]), (bad[::2], bad[1::2]), komm.ScalarQuantizer
    elif what == 8:
        nb = int(r.integers(1, 8))
        Lb = (np.arange(1 << nb)[:, None] >> np.arange(nb) & 1)[r.permutation(1 << nb)]
        bad, t = Lb.copy(), j(1 << nb)
        if r.integers(0, 2):
            bad[t, j(nb)] = [2, -1, 3][j(3)]
        else:
            bad[t] = bad[t - 1]
        good, bad, f = (Lb,), (bad,), [komm.Labeling, komm.ProductLabeling.from_matrices][j(2)]
    elif what == 9:
        X, k, Y = int(r.integers(2, 5)), int(r.integers(1, 4)), int(r.integers(2, 5))
        dom = list(np.ndindex(*[X] * k))
        enc = {tuple(map(int, w)): tuple(map(int, r.integers(0, Y, size=int(r.integers(1, 6))))) for w in dom}
        bad, w = dict(enc), list(enc)[j(len(enc))]
        kind = j(3)
        if kind == 0:
            del bad[w]
        elif kind == 1:
            c = list(enc[w])
            c[j(len(c))] = [Y, -1][j(2)]
            bad[w] = tuple(c)
        else:
            bad[tuple([X] * k)] = bad.pop(w)
        good, bad, f = (X, Y, k, enc), (X, Y, k, bad), komm.FixedToVariableCode
    elif what == 10:
        Y, n, X = int(r.integers(2, 5)), int(r.integers(1, 4)), int(r.integers(2, 5))
        dec = {tuple(map(int, w)): tuple(map(int, r.integers(0, X, size=int(r.integers(1, 6))))) for w in np.ndindex(*[Y] * n)}
        bad, w = dict(dec), list(dec)[j(len(dec))]
        kind = j(3)
        c = list(dec[w])
        if kind == 0:
            bad[w] = ()
        elif kind == 1:
            c[j(len(c))] = [X, -1][j(2)]
            bad[w] = tuple(c)
        else:
            q = list(w)
            q[j(n)] = [Y, -1][j(2)]
            bad[tuple(q)] = bad.pop(w)
        good, bad, f = (X, Y, n, dec), (X, Y, n, bad), lambda x, y, b, d: komm.VariableToFixedCode(source_cardinality=x, target_cardinality=y, target_block_size=b, dec_mapping=d)
    elif what == 11:
        n = int(r.integers(2, 30))
        lens = list(range(1, n)) + [n - 1]
        t = j(n)
        bad = list(lens)
        bad[t] = [0, -1, max(1, lens[t] - 1)][j(3)] if lens[t] > 1 else [0, -1][j(2)]
        q = r.permutation(n)
        good, bad, f = ([lens[x] for x in q],), ([bad[x] for x in q],), komm.FixedToVariableCode.from_lengths
    elif what == 12:
        n = int(r.integers(2, 12))
        words = [tuple([1] * t + [0]) for t in range(n)]
        bad = list(words)
        bad[j(n)] = ()
        good, bad, f = (words,), (bad,), [komm.FixedToVariableCode.from_codewords, komm.VariableToFixedCode.from_sourcewords][j(2)]
    else:
        n = int(r.integers(3, 400))
        cases = [
            (komm.WalshHadamardSequence, (1 << j(9),), (n,), n & (n - 1) == 0),
            (komm.ZadoffChuSequence, (2 * j(200) + 3,), (2 * n,), False),
            (komm.QAMConstellation, ((j(20) + 1) * 2 and (2 * (j(10) + 1)) ** 2,), (n * n + 1 + j(2 * n - 1),), False),
            (komm.BiorthogonalConstellation, (2 * n,), (2 * n + 1,), False),
            (komm.CrossQAMConstellation, (2 ** (2 * j(4) + 5),), (n,), n >= 32 and n & (n - 1) == 0 and n.bit_length() % 2 == 0),
            (komm.BarkerSequence, (13,), (n,), n in (2, 3, 4, 5, 7, 11, 13)),
            (komm.Lexicode, (5, 3), (5, 5 + n), False),
            (komm.ReedMullerCode, (1, 4), (n, int(r.integers(1, n + 1))), False),
            (komm.ReflectedRectangularLabeling, (4,), (2 * n + 1,), False),
        ]
        f, good, bad, valid = cases[j(len(cases))]
        if valid:
            return m.trivial()
    m.note(what=what, f=getattr(f, "__name__", str(f)), good=good, bad=bad)
    f(*good)
    m.refuses(lambda: f(*bad), "one spoiled entry")
    m.tag(f"kind {what}")


@section("B05", 24, 240, scaled=False)
def check_matrices_long(m, r, i):
    """Codes of length 63 to 255: generator and check matrices have full rank and are orthogonal, and the check map agrees with the check matrix."""
    n = int(r.choice([63, 73, 85, 93, 105, 127, 151, 195, 200, 217, 255]))
    fs = [a for a, e in ref.pfactor(1 << n | 1) for _ in range(e)]
    g = 1
    for a in fs:
        if r.integers(0, 2):
            g = ref.pmul(g, a)
    if i % 4 == 0:
        g = ref.pdivmod(1 << n | 1, fs[j_small(r, fs)])[0]
    k = n - ref.deg(g)
    if k in (0, n):
        return m.trivial()
    sy = i % 2 == 1
    m.note(n=n, k=k, g=bin(g), systematic=sy)
    c = komm.CyclicCode(n, generator_polynomial=g, systematic=sy)
    G, H = np.asarray(c.generator_matrix).astype(int), np.asarray(c.check_matrix).astype(int)
    m.shape(G, (k, n), "generator matrix")
    m.shape(H, (n - k, n), "check matrix")
    m.ok(not (G @ H.T % 2).any(), "the matrices are orthogonal")
    m.eq((ref.rank(G), ref.rank(H)), (k, n - k), "full rank")
    m.ok(all(ref.pmod(ref.v2i(row), g) == 0 for row in G), "rows are multiples of the generator polynomial")
    w = r.integers(0, 2, size=(3, n))
    m.arr(np.asarray(c.check(w)).astype(int), w @ H.T % 2, "check map")
    m.tag("systematic" if sy else "non-systematic", n)


def j_small(r, fs):
    """Index of a factor of small degree."""
    return int(np.argsort([a.bit_length() for a in fs], kind="stable")[int(r.integers(0, min(3, len(fs))))])


@section("M01", 12, 80, scaled=False)
def slow_primitivity(m, r, i):
    """Chains with the largest possible index of primitivity (Wielandt) and close to it, in any order of the states."""
    n = [3, 8, 20, 33, 36, 40, 45, 50, 60, 34, 35, 48][i % 12]
    P = np.zeros((n, n))
    P[np.arange(n - 1), np.arange(1, n)] = 1
    P[n - 1, 0] = 1
    extra = 1 if i % 2 == 0 else int(r.integers(1, n))
    P[n - 1, extra] = 1
    q = r.permutation(n)
    A = P[np.ix_(q, q)] > 0
    W = A * r.uniform(0.1, 1, size=(n, n))
    W /= W.sum(axis=1, keepdims=True)
    m.note(n=n, extra=extra, order=q)
    c = komm.MarkovChain(W)
    g = int(np.gcd(n, n - extra))
    m.eq(c.is_regular(), g == 1, "regular")
    m.eq(c.is_irreducible(), True, "irreducible")
    m.eq(int(c.period(int(r.integers(0, n)))), g, "period")
    if g > 1:
        m.refuses(lambda: c.index_of_primitivity(), "index of a periodic chain")
        return
    rows = [sum(1 << int(b) for b in np.flatnonzero(a)) for a in A]
    cur, k, full = list(rows), 1, (1 << n) - 1
    while any(x != full for x in cur):
        k += 1
        nxt = []
        for x in cur:
            y = 0
            while x:
                b = x & -x
                y |= rows[b.bit_length() - 1]
                x ^= b
            nxt.append(y)
        cur = nxt
    m.eq(int(c.index_of_primitivity()), k, "index of primitivity")
    if extra == 1:
        m.eq(k, (n - 1) ** 2 + 1, "Wielandt bound attained")
    m.tag("index", k)


@section("F01", 10, 80, scaled=False)
def long_narrow_inputs(m, r, i):
    """Inputs of up to hundreds of thousands of symbols in every integer type, with outputs that do not fit the input type."""
    S, X = int(r.integers(1, 6)), int(r.integers(1, 5))
    n = int(r.integers(66_000, 140_000))
    T = r.integers(0, S, size=(S, X))
    top = [300, 40_000, 70_000, 1 << 33][i % 4]
    dt = [np.uint8, np.int8, np.int16, np.uint16, np.int32][i % 5]
    x = r.integers(0, X, size=n).astype(dt)
    s0 = int(r.integers(0, S))
    m.note(S=S, X=X, n=n, dtype=str(np.dtype(dt)), T=T, top=top)
    seq, s = [], s0
    moore = i % 2 == 0
    O = r.integers(0, top, size=S if moore else (S, X))
    O.flat[int(r.integers(0, O.size))] = top
    Tl, Ol, xl = T.tolist(), O.tolist(), x.tolist()
    for u in xl:
        s, s_old = Tl[s][u], s
        seq.append(Ol[s] if moore else Ol[s_old][u])
    f = komm.MooreMachine(T, O) if moore else komm.MealyMachine(T, O)
    y, fin = f.process(x, s0)
    m.arr(np.asarray(y), np.array(seq), "outputs")
    m.eq(int(fin), s, "final state")
    m.tag(type(f).__name__, n)


def scaled_soft(r, shape):
    """Small odd integers times a power of two (exact in double precision), and the integers themselves."""
    n = r.integers(-6, 6, size=shape)
    n = np.where(n >= 0, n + 1, n)
    e = int(r.integers(-900, 900)) if r.integers(0, 3) else int(r.integers(-60, 60))
    return n, n * 2.0**e, e


def exact_choice(m, v, C, n, what):
    S = 1 - 2 * C
    got = np.sum((1 - 2 * v) * n, axis=1)
    best = (n @ S.T).max(axis=1)
    m.arr(got, best, what)


@section("D03", 80, 1200, scaled=False)
def scaled_by_powers_of_two(m, r, i):
    """The decision does not depend on the scale of the received values, however small or large."""
    cnt = 12
    if i % 2:
        k, n = int(r.integers(1, 5)), int(r.integers(5, 9))
        G = np.hstack([np.eye(k, dtype=int), r.integers(0, 2, size=(k, n - k))])
        c = komm.BlockCode(G)
        dec = komm.ExhaustiveSearchDecoder(c, input_type="soft")
    else:
        n = int(r.integers(2, 11))
        k = n - 1
        c = komm.SingleParityCheckCode(n)
        G = np.asarray(c.generator_matrix, int)
        dec = komm.WagnerDecoder(c)
    L, x, e = scaled_soft(r, (cnt, n))
    m.note(code=c, L=L, exponent=e)
    C = ref.all_words(k) @ G % 2
    v = np.asarray(dec.decode(x), int) @ G % 2
    exact_choice(m, v, C, L, "correlation of the decision")
    m.tag("exponent", e)


@section("D05", 60, 800, scaled=False)
def scaled_soft_values(m, r, i):
    """As above, for the Viterbi algorithm."""
    nu, n, h = int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(2, 6))
    g = [int(r.integers(1, 1 << (nu + 1))) for _ in range(n)]
    g[0] |= 1 << nu
    t = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([g]), h, ["zero-termination", "direct-truncation"][i % 2])
    G = np.asarray(t.generator_matrix, int)
    if len(np.unique(ref.all_words(h) @ G % 2, axis=0)) < 1 << h:
        return m.trivial()
    L, x, e = scaled_soft(r, (6, G.shape[1]))
    m.note(g=g, h=h, L=L, exponent=e)
    v = np.asarray(komm.ViterbiDecoder(t, input_type="soft").decode(x), int) @ G % 2
    exact_choice(m, v, ref.all_words(h) @ G % 2, L, "correlation of the decision")
    m.tag("exponent", e)


@section("D02", 60, 800, scaled=False)
def scaled_reed(m, r, i):
    """The soft decisions of the Reed decoder for values times a power of two are those for the values themselves."""
    mu = int(r.integers(2, 6))
    c = komm.ReedMullerCode(int(r.integers(0, mu)), mu)
    d = komm.ReedDecoder(c, input_type="soft")
    L, x, e = scaled_soft(r, (6, c.length))
    m.note(code=c, L=L, exponent=e)
    m.arr(np.asarray(d.decode(x), int), np.asarray(d.decode(L.astype(float)), int), "decisions")
    v = np.asarray(c.encode(r.integers(0, 2, size=(6, c.dimension))), int)
    w = np.abs(x) * (1 - 2 * v)
    m.arr(np.asarray(c.encode(np.asarray(d.decode(w), int)), int), v, "noiseless word")
    m.tag("exponent", e)


@section("B04", 16, 60, scaled=False)
def long_repetition(m, r, i):
    """Coset leaders of long repetition codes: one of each pair of complementary words, counted exactly."""
    from math import comb

    n = [66, 67, 61, 53, 64, 63, 57, 58][i % 8] if i < 8 else int(r.integers(20, 90))
    m.note(n=n)
    got = [int(x) for x in komm.RepetitionCode(n).coset_leader_weight_distribution()]
    m.eq(got, [comb(n, w) if 2 * w < n else comb(n, w) // 2 if 2 * w == n else 0 for w in range(n + 1)], "number of leaders of each weight")
    m.tag("length", n)


@section("L03", 24, 200, scaled=False)
def big_dictionaries(m, r, i):
    """Thousands of words, at most one of which spoils the property."""
    from itertools import product

    kind = i % 4
    nb = int(r.integers(9, 12)) if kind != 3 else 0
    full = list(product((0, 1), repeat=nb))
    if kind == 0:  # one short word, a long one behind it, everything else between
        short = (0,) * int(r.integers(1, 5))
        w = [short] + [(1,) + p for p in full] + [(0,) * (len(short) - 1) + (1,) + tuple(int(x) for x in r.integers(0, 2, size=nb + 5))] * (len(short) > 1)
        good = [w[j] for j in r.permutation(len(w))]
        bad = good + [short + tuple(int(x) for x in r.integers(0, 2, size=nb + 9))]
        bad = [bad[j] for j in r.permutation(len(bad))]
        m.note(words=len(w), short=short)
        for ws, want in ((good, True), (bad, False)):
            c = komm.FixedToVariableCode.from_codewords(ws)
            m.eq(bool(c.is_prefix_free()), want, "prefix-free")
            c = komm.VariableToFixedCode.from_sourcewords(ws)
            m.eq(bool(c.is_prefix_free()), want, "prefix-free, source words")
    elif kind in (1, 2):  # the complete tree, and the tree without one of its leaves
        j = int(r.integers(0, len(full))) if kind == 1 else [0, len(full) - 1][i // 4 % 2]
        m.note(depth=nb, missing=j)
        m.ok(komm.VariableToFixedCode.from_sourcewords(full).is_fully_covering(), "complete tree is fully covering")
        m.ok(not komm.VariableToFixedCode.from_sourcewords(full[:j] + full[j + 1 :]).is_fully_covering(), lambda: f"tree without leaf {j} is not fully covering")
    else:  # canonical codes with several codewords far longer than a machine word
        a = int(r.integers(62, 90))
        l = list(range(1, a)) + [a + 2] * 3 + [a + 4] * 4
        c = komm.FixedToVariableCode.from_lengths([l[j] for j in r.permutation(len(l))])
        m.note(lengths=l)
        W = sorted(c.codewords)
        m.ok(all(x != y[: len(x)] for x, y in zip(W, W[1:])), "no codeword is a prefix of the next")
        m.eq(bool(c.is_prefix_free()), True, "prefix-free")
        m.ok(sorted(map(len, W)) == sorted(l), "lengths")
    m.tag(f"kind {kind}", nb)


def two_scales(r):
    """The same constellation at unit scale and at 2^e."""
    e = int(r.integers(-400, 400)) if r.integers(0, 3) else int(r.integers(-60, 60))
    s = 2.0**e
    ph = float(r.uniform(-1, 1))
    M = int(r.integers(2, 17))
    kind = int(r.integers(0, 9))
    base = r.normal(size=(M, 2)) if kind == 8 else r.normal(size=M) + 1j * r.normal(size=M)
    o, a = (int(r.integers(2, 6)), int(r.integers(2, 9))), (float(r.uniform(0.5, 1)), float(r.uniform(1.5, 3)))
    d = (float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2)))
    make = [
        lambda s: komm.PAMConstellation(M, 2 * s),
        lambda s: komm.ASKConstellation(M, s, ph),
        lambda s: komm.PSKConstellation(M, s, ph),
        lambda s: komm.QAMConstellation(o, (d[0] * s, d[1] * s), ph),
        lambda s: komm.CrossQAMConstellation([32, 128][M % 2], 2 * s, ph),
        lambda s: komm.APSKConstellation(o, (a[0] * s, a[1] * s), (ph, 0.1)),
        lambda s: [komm.BiorthogonalConstellation(2 * (M % 8 + 1), s), komm.OrthogonalConstellation(M, s), komm.SimplexConstellation(M, s)][e % 3],
        lambda s: komm.Constellation(base * s),
        lambda s: komm.Constellation(base * s),
    ][kind]
    return make(1.0), make(s), e, s


@section("K01", 90, 1500, scaled=False)
def constellation_scales(m, r, i):
    """The nearest symbol does not depend on the units: amplitudes and received points times any power of two."""
    c, cs, e, s = two_scales(r)
    m.note(constellation=c, scaled=cs, exponent=e)
    M, N = np.asarray(c.matrix), int(c.dimension)
    m.close(np.asarray(cs.matrix) / s, M, "symbols", 1e-12, 1e-15)
    x = M[r.integers(0, len(M), size=20)] + r.normal(0, 0.6, size=(20, N)) * np.abs(M).max() + (1j * r.normal(0, 0.6, size=(20, N)) if np.iscomplexobj(M) else 0)
    D = np.sum(np.abs(x[:, None, :] - M[None]) ** 2, axis=-1)
    o = np.sort(D, axis=1)
    clear = o[:, 1] - o[:, 0] > 1e-9 * (1 + o[:, 1])
    want = np.argmin(D, axis=1)
    for name, con, z in (("unit", c, x), ("scaled", cs, x * s)):
        got = np.asarray(con.closest_indices(z.reshape(-1)), int)
        m.arr(np.where(clear, got, -1), np.where(clear, want, -1), f"nearest symbols, {name}")
    y = np.asarray(cs.closest_symbols((x * s).reshape(-1))).reshape(20, N)
    m.close(y[clear] / s, M[want][clear], "nearest points", 1e-12, 1e-15)
    m.tag("exponent", e)


@section("K02", 60, 900, scaled=False)
def statistics_scales(m, r, i):
    c, cs, e, s = two_scales(r)
    m.note(constellation=c, scaled=cs, exponent=e)
    p = r.dirichlet(np.ones(int(c.order)))
    M = np.asarray(c.matrix)
    for pri in (None, p):
        w = np.full(len(M), 1 / len(M)) if pri is None else pri
        m.close(np.asarray(cs.mean(pri)) / s, w @ M, "mean", 1e-11, 1e-13)
        m.close(float(cs.mean_energy(pri)) / s / s, float(w @ np.sum(np.abs(M) ** 2, axis=1)), "mean energy", 1e-11, 1e-14)
    D = np.linalg.norm(M[:, None] - M[None], axis=2)[~np.eye(len(M), dtype=bool)]
    m.close(float(cs.minimum_distance()) / s, float(D.min()), "minimum distance", 1e-9, 1e-13)
    m.tag("exponent", e)


@section("K03", 60, 900, scaled=False)
def posteriors_scales(m, r, i):
    c, cs, e, s = two_scales(r)
    M, N = np.asarray(c.matrix), int(c.dimension)
    n0 = float(r.choice([0.1, 1.0, 10.0])) * float(np.sum(np.abs(M) ** 2, axis=1).mean())
    p = r.dirichlet(np.ones(int(c.order)))
    m.note(constellation=c, scaled=cs, exponent=e, noise=n0, priors=p)
    x = M[r.integers(0, len(M), size=6)] + np.sqrt(n0 / 2) * (r.normal(size=(6, N)) + (1j * r.normal(size=(6, N)) if np.iscomplexobj(M) else 0))
    D = np.sum(np.abs(x[:, None, :] - M[None]) ** 2, axis=-1) / (n0 if np.iscomplexobj(M) else 2 * n0)
    for pri in (None, p):
        w = np.full(len(M), 1 / len(M)) if pri is None else pri
        L = np.log(w) - D
        q = np.exp(L - L.max(axis=1, keepdims=True))
        q /= q.sum(axis=1, keepdims=True)
        m.close(np.asarray(cs.posteriors((x * s).reshape(-1), n0 * s * s, pri)).reshape(6, -1), q, "posteriors", 1e-9, 1e-12)
    m.tag("exponent", e)


@section("Q01", 60, 900, scaled=False)
def quantizer_scales(m, r, i):
    e = int(r.integers(-900, 900)) if r.integers(0, 3) else int(r.integers(-60, 60))
    s = 2.0**e
    L = int(r.integers(2, 9))
    if i % 2:
        v = np.sort(r.choice(40, size=2 * L - 1, replace=False)) - 17.0
        lv, th = v[0::2], v[1::2]
        q = komm.ScalarQuantizer(lv * s, th * s)
    else:
        off = float(r.choice([0.0, -0.5, 0.5, 0.25]))
        q = komm.UniformQuantizer(L, s, off)
        lv = np.arange(L) - (L - 1) / 2 + off
        th = (lv[1:] + lv[:-1]) / 2
    m.note(quantizer=q, exponent=e)
    m.arr(np.asarray(q.levels) / s, lv, "levels")
    m.arr(np.asarray(q.thresholds) / s, th, "thresholds")
    x = np.concatenate([r.normal(0, 10, size=20), th, th - 0.125, lv])
    want = np.sum(x[:, None] >= th[None], axis=1)
    m.arr(np.asarray(q.digitize(x * s), int), want, "indices")
    m.arr(np.asarray(q.quantize(x * s)) / s, lv[want], "levels of the inputs")
    m.tag("exponent", e)


@section("Q02", 6, 60, scaled=False)
def lloyd_max_scales(m, r, i):
    """The optimal quantizer of a scaled density is the scaled quantizer."""
    e = int(r.integers(-60, 60))
    s = 2.0**e
    L = int(r.integers(2, 6))
    mu, sd = float(r.uniform(-0.5, 0.5)), float(r.uniform(0.3, 1.0))
    f = lambda x: np.exp(-0.5 * ((x - mu) / sd) ** 2) / sd / np.sqrt(2 * np.pi)
    g = lambda x: f(x / s) / s
    q, qs = komm.LloydMaxQuantizer(f, (-3.0, 3.0), L), komm.LloydMaxQuantizer(g, (-3.0 * s, 3.0 * s), L)
    m.note(levels=L, mean=mu, deviation=sd, exponent=e)
    m.close(np.asarray(qs.levels) / s, np.asarray(q.levels), "levels", 0, 1e-6)
    m.close(np.asarray(qs.thresholds) / s, np.asarray(q.thresholds), "thresholds", 0, 1e-6)
    m.close(qs.mean_squared_error(g, (-3.0 * s, 3.0 * s)) / s / s, q.mean_squared_error(f, (-3.0, 3.0)), "mean squared error", 1e-5, 1e-12)
    m.tag("exponent", e)


@section("S03", 40, 600, scaled=False)
def sequence_scales(m, r, i):
    e = int(r.integers(-400, 400)) if r.integers(0, 3) else int(r.integers(-60, 60))
    n = int(r.integers(1, 12))
    x = r.integers(-9, 10, size=n).astype(float)
    x[0] += 20
    if i % 2:
        x = x + 1j * r.integers(-9, 10, size=n)
    sh = r.integers(-n - 2, n + 3, size=6)
    s = 2.0**e
    m.note(x=x, exponent=e, shifts=sh)
    at = lambda k: x[k] if 0 <= k < n else 0
    a = np.array([sum(x[k] * np.conj(at(k - t)) for k in range(n)) for t in sh])
    c = np.array([sum(x[k] * np.conj(x[(k - t) % n]) for k in range(n)) for t in sh])
    E = float(np.sum(np.abs(x) ** 2))
    m.close(np.asarray(komm.autocorrelation(x * s, sh)) / s / s, a, "autocorrelation", 1e-12, 1e-12)
    m.close(np.asarray(komm.cyclic_autocorrelation(x * s, sh)) / s / s, c, "cyclic autocorrelation", 1e-12, 1e-12)
    m.close(np.asarray(komm.autocorrelation(x * s, sh, normalized=True)), a / E, "normalised", 1e-12, 1e-13)
    m.close(np.asarray(komm.cyclic_autocorrelation(x * s, sh, normalized=True)), c / E, "normalised, cyclic", 1e-12, 1e-13)
    m.tag("exponent", e)


@section("C02", 24, 300, scaled=False)
def noise_scales(m, r, i):
    """Noise of any power, however small or large, scales with its square root."""
    e = int(r.integers(-300, 300)) if i % 3 else int(r.integers(-60, 60))
    n = 4000
    s = 2.0**e
    ch = komm.GaussianChannel(s * s, rng=np.random.default_rng(int(r.integers(0, 2**31))))
    m.note(exponent=e)
    if i % 2:
        z = np.asarray(ch.transmit(np.zeros(n, complex))) / s
        v = [2 * np.mean(z.real**2), 2 * np.mean(z.imag**2)]
    else:
        z = np.asarray(ch.transmit(np.zeros(n))) / s
        v = [np.mean(z**2)]
    m.ok(all(abs(t - 1) < 8 * np.sqrt(2 / n) for t in v), lambda: f"relative power {v}")
    m.ok(abs(np.mean(z)) < 8 / np.sqrt(n), lambda: f"relative mean {np.mean(z)}")
    m.tag("exponent", e)


@section("A01", 150, 2000, scaled=False)
def equal_means_equal_hash(m, r, i):
    """Polynomials serve as dictionary keys and set members as the integers they equal, whatever their size."""
    d = int(r.integers(56, 70)) if i % 2 else int(r.integers(0, 140))
    a = (1 << d) | int.from_bytes(r.bytes(20), "little") & ((1 << d) - 1) if i % 3 else (1 << d) - (i % 2)
    b = a ^ (1 << int(r.integers(0, d + 1)))
    m.note(a=bin(a))
    A, B = BP(a), BP(b)
    m.ok(A == a and A == BP(a) and A != b and A != B, "equality")
    m.eq(hash(A), hash(a), "hash is that of the integer")
    m.ok(A in {a} and BP(a) in {A} and a in {A} and B not in {A, a}, "membership in sets")
    m.eq({A: 1, B: 2}.get(a), 1, "looking up the integer")
    m.eq({a: 1, b: 2}.get(B), 2, "looking up the polynomial")
    m.eq(len({A, BP(a), a, B, b}), 2, "distinct members")
    m.tag("degree", d)


@section("P01", 40, 400, scaled=False)
def narrow_arguments(m, r, i):
    """Times and frequencies given as integers of any type, the extremes of the type included."""
    a = float(r.choice([0.0, 1.0, float(r.uniform(0.05, 1))]))
    P = [
        lambda: komm.SincPulse(), lambda: komm.ManchesterPulse(), lambda: komm.RectangularPulse(float(r.integers(1, 5))),
        lambda: komm.GaussianPulse(float(r.uniform(0.002, 1))), lambda: komm.RaisedCosinePulse(a), lambda: komm.BeaulieuPulse(a),
        lambda: komm.RaisedCosinePulse(a).root(), lambda: komm.BeaulieuPulse(a).root(),
    ][i % 8]()
    m.note(pulse=P)
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32):
        q = np.iinfo(dt)
        x = np.unique(np.concatenate([[q.min, q.min + 1, q.min // 2, q.max // 2 + 1, q.max], r.integers(q.min, q.max + 1, size=4), np.arange(4)]))
        if i % 8 == 7:
            x = x[np.abs(x) < 40000]
        for name in ("waveform", "spectrum", "autocorrelation", "energy_spectral_density"):
            f = getattr(P, name)
            m.close(np.asarray(f(x.astype(dt))), np.asarray(f(x.astype(float))), f"{name} at integers of type {np.dtype(dt).name}", 1e-9, 1e-9)
    m.close(np.asarray(P.spectrum(np.array([False, True]))), np.asarray(P.spectrum(np.array([0.0, 1.0]))), "spectrum at booleans", 1e-9, 1e-12)
    m.tag(type(P).__name__)


@section("A01", 100, 1200, scaled=False)
def rebuilt_from_exponents(m, r, i):
    """A polynomial is the sum of X^e over its own exponents, as reported (NumPy integers)."""
    d = int(r.integers(0, 200))
    a = (1 << d) | int.from_bytes(r.bytes(25), "little") & ((1 << d) - 1)
    m.note(a=bin(a))
    A = BP(a)
    es = A.exponents()
    s, t = BP(0), BP(0)
    for e in es:
        s = s + (BP(1) << e)
        t = t + BP(2) ** e
    m.eq(int(s), a, "sum of shifts")
    m.eq(int(t), a, "sum of powers")
    for e in es[-3:]:
        m.eq((int(A << e), int(A >> e), int(A >> int(e)), int((A << e) >> e)), (a << int(e), a >> int(e), a >> int(e), a), "shifts")
    m.refuses(lambda: A << -1, "negative shift")
    m.tag("degree", d)
