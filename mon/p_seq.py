"""S01-S03: binary and complex sequences."""
import cmath
import math

import numpy as np

import komm

from .core import rule, section

rule("S01", "Random feedback polynomials with non-zero constant term (degree up to 10, primitive or not) and start states, and all default "
     "maximum-length sequences up to degree 18; oracle: the linear recurrence on Python lists, exhaustive period and autocorrelation.")
rule("S02", "Every length and index up to 128 (Walsh-Hadamard), every Barker length, odd Zadoff-Chu lengths up to some thousands with every root; "
     "oracle: popcount parity, sign changes, exact integer phases, full correlation tables.")
rule("S03", "Random real, integer, boolean and complex sequences of every type, shifts of every sign and type; oracle: Python sums of products.")


def taps_of(p):
    return [k for k in range(1, p.bit_length()) if (p >> k) & 1]


def prime_factors(n):
    f, d = [], 2
    while d * d <= n:
        while n % d == 0:
            f.append(d)
            n //= d
        d += 1
    return f + ([n] if n > 1 else [])


def is_primitive(p):
    """X has order 2^n - 1 modulo p, over F2."""
    n = p.bit_length() - 1
    if not p & 1 or n < 1:
        return False
    if n == 1:
        return True
    mul = lambda a, b: reduce_(clmul(a, b), p, n)

    def power(e):
        x, b = 1, 2
        while e:
            if e & 1:
                x = mul(x, b)
            b = mul(b, b)
            e >>= 1
        return x
    N = (1 << n) - 1
    return power(N) == 1 and all(power(N // q) != 1 for q in set(prime_factors(N)))


def clmul(a, b):
    x = 0
    while b:
        if b & 1:
            x ^= a
        a <<= 1
        b >>= 1
    return x


def reduce_(a, p, n):
    while a.bit_length() > n:
        a ^= p << (a.bit_length() - 1 - n)
    return a


def check_lfsr(m, s, p, start):
    n = p.bit_length() - 1
    L = 2 ** n - 1
    b = s.bit_sequence.tolist()
    m.eq(len(b), L, "length")
    m.eq(s.length, L, "length property")
    m.eq(set(b) <= {0, 1}, True, "bits")
    first = [(start >> (n - 1 - k)) & 1 for k in range(n)]
    m.eq(b[:n], first[:L], "first bits are the start state from the high end")
    t = taps_of(p)
    bad = [k for k in range(n, L) if b[k] != sum(b[k - j] for j in t) % 2]
    m.eq(bad, [], "positions violating the recurrence")
    m.eq(s.polar_sequence.tolist(), [1 - 2 * x for x in b], "polar format")
    return b


@section("S01", 250, 5000)
def lfsr(m, r, i):
    n = int(r.integers(1, 11))
    p = (1 << n) | 1 | (int(r.integers(0, 1 << n)) & ~1 if n > 1 else 0)
    start = int(r.integers(1, 1 << n))
    m.note(feedback=bin(p), start=bin(start))
    B = komm.BinaryPolynomial
    s = komm.LFSRSequence(B(p) if r.integers(0, 2) else p, B(start) if r.integers(0, 2) else start)
    m.eq((int(s.feedback_polynomial), int(s.start_state_polynomial)), (p, start), "parameters")
    b = check_lfsr(m, s, p, start)
    if start == 1:
        m.eq(komm.LFSRSequence(feedback_polynomial=p).bit_sequence.tolist(), b, "default start state")
    if is_primitive(p):
        m.tag("primitive")
        maximal(m, s, b, n)


def maximal(m, s, b, n):
    L = 2 ** n - 1
    m.eq(sum(b), 2 ** (n - 1), "ones in a period")
    for q in set(prime_factors(L)):
        d = L // q
        m.ok(b != b[d:] + b[:d], lambda: f"period divides {d}")
    m.eq(len({tuple((b + b)[k:k + n]) for k in range(L)}), L, "distinct states in a period")
    if n <= 9:
        m.eq(np.asarray(s.cyclic_autocorrelation()).tolist(), [L] + [-1] * (L - 1), "cyclic autocorrelation")
    sh = [0, L, -L, 1, -1, L + 1, 3 * L]
    m.eq(np.asarray(s.cyclic_autocorrelation(sh)).tolist(), [L if k % L == 0 else -1 for k in sh], "cyclic autocorrelation at chosen shifts")


@section("S01", 16, 60)
def default_sequences(m, r, i):
    n = i % 16 + 1
    if n > 12 and (i >= 16 or m.tier == "quick"):
        n = n - 4
    start = 1 if i < 16 else int(r.integers(1, 1 << n))
    m.note(degree=n, start=start)
    s = komm.LFSRSequence.maximum_length_sequence(n) if start == 1 else komm.LFSRSequence.maximum_length_sequence(n, start)
    p = int(s.feedback_polynomial)
    m.ok(is_primitive(p) and p.bit_length() == n + 1, lambda: f"default polynomial {bin(p)} of degree {n} is not primitive")
    b = check_lfsr(m, s, p, start)
    maximal(m, s, b, n)


@section("S01", 24, 24, exhaustive=True)
def default_degrees(m, r, i):
    n = i % 24 + 1
    m.note(degree=n)
    if n <= (13 if m.tier == "quick" else 18):
        p = int(komm.LFSRSequence.maximum_length_sequence(n).feedback_polynomial)
        m.ok(is_primitive(p) and p.bit_length() == n + 1, lambda: f"default polynomial {bin(p)} of degree {n} is not primitive")
    if i == 0:
        for bad in (0, -1, 25):
            m.refuses(lambda: komm.LFSRSequence.maximum_length_sequence(bad), f"degree {bad}")


@section("S02", 511, 1023, exhaustive=True)
def walsh(m, r, i):
    k = (i + 1).bit_length() - 1
    L, idx = 1 << k, i + 1 - (1 << k)
    m.note(length=L, index=idx)
    s = komm.WalshHadamardSequence(length=L, index=idx) if i % 2 else komm.WalshHadamardSequence(L, "natural", idx)
    want = [(-1) ** bin(idx & j).count("1") for j in range(L)]
    m.eq(np.asarray(s.polar_sequence).tolist(), want, "row of the Sylvester matrix")
    m.eq(np.asarray(s.bit_sequence).tolist(), [(1 - x) // 2 for x in want], "bit format")
    m.eq((s.length, s.index, s.ordering), (L, idx, "natural"), "parameters")
    q = komm.WalshHadamardSequence(L, ordering="sequency", index=idx)
    x = np.asarray(q.polar_sequence)
    m.eq(int(np.sum(x[1:] != x[:-1])), idx, "sign changes in sequency order")
    m.eq((q.length, q.index, q.ordering), (L, idx, "sequency"), "parameters")
    # a row of the Sylvester matrix is a character: x[a ^ b] = x[a] x[b]
    a, b = r.integers(0, L, size=20), r.integers(0, L, size=20)
    m.ok(x[0] == 1 and bool(np.all(x[a ^ b] == x[a] * x[b])) and set(x.tolist()) <= {1, -1}, "not a row of the Sylvester matrix")
    o = int(r.integers(0, L))
    for od in ("natural", "sequency"):
        y = np.asarray(komm.WalshHadamardSequence(L, od, o).polar_sequence)
        me = np.asarray(s.polar_sequence) if od == "natural" else x
        m.eq(int(np.dot(me, y)), L if o == idx else 0, f"inner product with row {o} ({od})")


@section("S02", 20, 40)
def walsh_refusals(m, r, i):
    m.note(i=i % 2)
    for L in (3, 5, 6, 12, 0):
        m.refuses(lambda: komm.WalshHadamardSequence(L), f"length {L}")
    for idx in (-1, 8, 9):
        for od in ("natural", "sequency"):
            m.refuses(lambda: komm.WalshHadamardSequence(8, od, idx), f"index {idx}")
    m.refuses(lambda: komm.WalshHadamardSequence(8, "gray"), "unknown ordering")
    for L in (1, 6, 8, 9, 10, 12, 14, 0, -2):
        m.refuses(lambda: komm.BarkerSequence(L), f"Barker length {L}")
    for L, q in ((4, 1), (6, 5), (5, 0), (5, 5), (5, -1), (7, 9)):
        m.refuses(lambda: komm.ZadoffChuSequence(L, q), f"Zadoff-Chu {L}, {q}")


@section("S02", 7, 7, exhaustive=True)
def barker(m, r, i):
    L = [2, 3, 4, 5, 7, 11, 13][i % 7]
    m.note(length=L)
    s = komm.BarkerSequence(L)
    x = np.asarray(s.polar_sequence).tolist()
    m.eq((len(x), s.length, set(x) <= {1, -1}), (L, L, True), "length")
    R = [sum(x[n] * x[n - k] for n in range(k, L)) for k in range(L)]
    m.ok(R[0] == L and all(abs(v) <= 1 for v in R[1:]), lambda: f"autocorrelation {R}")
    m.eq(np.asarray(s.autocorrelation()).tolist(), R, "autocorrelation")


@section("S02", 200, 4000)
def zadoff_chu(m, r, i):
    t = int(r.integers(0, 4))
    L = 2 * int(r.integers(1, 60)) + 1 if t else int([139, 353, 839, 1151, 2047, 4095, 99999, 2 ** 20 + 1][int(r.integers(0, 8))])
    q = int(r.integers(1, L))
    m.note(length=L, root=q)
    s = komm.ZadoffChuSequence(L, q) if q > 1 or r.integers(0, 2) else komm.ZadoffChuSequence(L)
    x = np.asarray(s.sequence)
    m.shape(x, (L,), "sequence")
    m.eq(s.length, L, "length")
    ks = range(L) if L < 200 else [int(v) for v in r.integers(0, L, size=60)] + [0, 1, L - 1]
    want = np.array([cmath.exp(-2j * cmath.pi * ((q * k * (k + 1) // 2) % L) / L) for k in ks])
    m.close(x[list(ks)], want, "samples", rtol=0, atol=1e-12)
    m.close(np.abs(x), np.ones(L), "modulus", rtol=0, atol=1e-12)
    if L < 5000:
        sh = np.arange(L) if L < 200 else r.integers(-3 * L, 3 * L, size=20)
        if math.gcd(q, L) == 1:
            R = np.asarray(s.cyclic_autocorrelation(sh))
            m.close(R, np.where(sh % L == 0, L, 0).astype(complex), "cyclic autocorrelation", rtol=0, atol=1e-10 * L)
        q2 = int(r.integers(1, L))
        if math.gcd(abs(q2 - q), L) == 1:
            y = np.asarray(komm.ZadoffChuSequence(length=L, root_index=q2).sequence)
            c = np.fft.ifft(np.fft.fft(x) * np.conj(np.fft.fft(y)))
            m.close(np.abs(c), np.full(L, math.sqrt(L)), "cyclic cross-correlation", rtol=1e-9)


def any_sequence(r, L):
    t = int(r.integers(0, 9))
    if t == 0:
        return r.normal(size=L), False
    if t == 1:
        return r.normal(size=L) + 1j * r.normal(size=L), False
    if t == 2:
        return r.choice([1, -1], size=L).astype([int, np.int8, np.int16, float][int(r.integers(0, 4))]), True
    if t == 3:
        return r.integers(0, 2, size=L).astype([bool, np.uint8, int][int(r.integers(0, 3))]), True
    if t == 4:
        ty = [np.int8, np.int16, np.int32, np.uint8, np.uint16, np.int64][int(r.integers(0, 6))]
        hi = min(int(np.iinfo(ty).max), 10 ** 6)
        lo = max(int(np.iinfo(ty).min), -10 ** 6)
        return r.integers(lo, hi + 1, size=L).astype(ty), True
    if t == 5:
        return (r.integers(-9, 10, size=L) + 1j * r.integers(-9, 10, size=L)).astype([complex, np.complex64][int(r.integers(0, 2))]), True
    if t == 6:
        return np.exp(2j * np.pi * r.uniform(size=L)), False
    return r.integers(-9, 10, size=L), True


def any_shifts(r, L):
    t = int(r.integers(0, 6))
    if t == 0:
        return None
    k = int(r.integers(1, 9))
    sh = r.integers(-3 * L - 3, 3 * L + 4, size=k) if t < 4 else r.integers(-L, L + 1, size=k)
    if t == 5:
        return np.abs(sh).astype([np.uint8, np.uint16, np.uint32, np.int8][int(r.integers(0, 4))] if np.max(np.abs(sh)) < 128 else np.uint32)
    return [sh, sh.tolist(), tuple(sh.tolist())][int(r.integers(0, 3))]


def sums(x, shifts, cyclic):
    x = [complex(v) for v in x]
    L = len(x)
    out = []
    for s in shifts:
        s = int(s)
        if cyclic:
            out.append(sum(x[n] * x[(n - s) % L].conjugate() for n in range(L)))
        else:
            out.append(sum(x[n] * x[n - s].conjugate() for n in range(L) if 0 <= n - s < L))
    return np.array(out)


def check_corr(m, fn, x, shifts, exact, cyclic, what, prefix=()):
    want = sums(x, range(len(x)) if shifts is None else shifts, cyclic)
    E = sum(abs(complex(v)) ** 2 for v in x)
    nt = 1e-5 if x.dtype == np.complex64 else 1e-12
    got = np.asarray(fn(*prefix, shifts=shifts) if shifts is not None else fn(*prefix))
    m.shape(got, want.shape, what)
    m.close(got.astype(complex), want, what, rtol=nt, atol=0 if exact else 1e-12 * E)
    if E > 0:
        g = np.asarray(fn(*prefix, shifts, True))
        m.close(g.astype(complex), want / E, what + ", normalized", rtol=nt, atol=nt)
        g = np.asarray(fn(*prefix, shifts=shifts, normalized=False))
        m.close(g.astype(complex), want, what + ", not normalized", rtol=nt, atol=0 if exact else 1e-12 * E)


@section("S03", 600, 15000)
def correlations(m, r, i):
    L = int(r.integers(1, 20)) if r.integers(0, 6) else int(r.integers(100, 300))
    x, exact = any_sequence(r, L)
    sh = any_shifts(r, L)
    m.note(x=x, dtype=str(x.dtype), shifts=sh)
    arg = x.tolist() if r.integers(0, 3) == 0 else x
    check_corr(m, komm.autocorrelation, x, sh, exact and x.dtype != np.complex64, False, "autocorrelation", (arg,))
    check_corr(m, komm.cyclic_autocorrelation, x, sh, exact and x.dtype != np.complex64, True, "cyclic autocorrelation", (arg,))
    # symmetry
    k = np.arange(-L - 1, L + 2)
    for fn in (komm.autocorrelation, komm.cyclic_autocorrelation):
        R = np.asarray(fn(x, k))
        m.close(R, np.conj(R[::-1]), "conjugate symmetry", rtol=1e-9, atol=(1e-5 if x.dtype == np.complex64 else 1e-9) * float(np.sum(np.abs(x.astype(complex)) ** 2)))


@section("S03", 300, 8000)
def binary_objects(m, r, i):
    L = int(r.integers(1, 40)) if r.integers(0, 8) else int(r.integers(128, 400))
    b = r.integers(0, 2, size=L)
    x = 1 - 2 * b
    t = [int, np.int8, np.uint8, bool, list][int(r.integers(0, 5))]
    m.note(bits=b, dtype=str(t))
    if r.integers(0, 2):
        s = komm.BinarySequence(bit_sequence=b.tolist() if t is list else b.astype(t))
    else:
        t = int if t in (np.uint8, bool) else t
        s = komm.BinarySequence(polar_sequence=x.tolist() if t is list else x.astype(t))
    m.arr(s.bit_sequence, b, "bit format")
    m.arr(s.polar_sequence, x, "polar format")
    m.eq(s.length, L, "length")
    sh = any_shifts(r, L)
    m.note(shifts=sh)
    check_corr(m, s.autocorrelation, x, sh, True, False, "autocorrelation of the polar form")
    check_corr(m, s.cyclic_autocorrelation, x, sh, True, True, "cyclic autocorrelation of the polar form")
    m.refuses(lambda: komm.BinarySequence(bit_sequence=b, polar_sequence=x), "both formats given")
    m.refuses(lambda: komm.BinarySequence(), "no format given")


@section("S03", 200, 5000)
def complex_objects(m, r, i):
    L = int(r.integers(1, 30))
    x, exact = any_sequence(r, L)
    m.note(x=x, dtype=str(x.dtype))
    s = komm.ComplexSequence(x.tolist() if r.integers(0, 2) else x)
    m.arr(s.sequence, x.astype(complex), "sequence")
    m.eq(s.length, L, "length")
    sh = any_shifts(r, L)
    m.note(shifts=sh)
    check_corr(m, s.autocorrelation, x, sh, exact, False, "autocorrelation")
    check_corr(m, s.cyclic_autocorrelation, x, sh, exact, True, "cyclic autocorrelation")
