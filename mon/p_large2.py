"""Large parameters for the algebra, block codes, source codes, labelings, constellations, channels, sources, quantizers,
sequences and utilities: the sizes an application uses, with oracles that scale."""
import bisect
import collections
import functools
import heapq
import itertools
import math
from fractions import Fraction

import numpy as np

import komm

from . import gen, ref
from .core import section
from .p_algebra import BF, BP, FiniteBifield, chk, internal, rint, world
from .p_large import logint
from .p_lossless import exact_shannon, prefix_free, rand_seq, rand_tree, zeck
from .p_mapping import rand_con, rot
from .p_sources import closure, rand_graph, tiny, weights


def bigpoly(r, lo, hi):
    d = logint(r, lo, hi)
    return int.from_bytes(r.bytes(d // 8 + 1), "little") >> (7 - d % 8) | 1 << d


def sparse(r, lo, hi):
    d = logint(r, lo, hi)
    a = 1 << d | 1
    for k in r.integers(1, max(d, 2), size=int(r.integers(0, 4))):
        a ^= 1 << int(k)
    return a


def fastpow(a, e):
    """a^e over GF(2)[X] through squarings spread bit by bit."""
    out = 1
    for b in bin(e)[2:]:
        out = int("0".join(bin(out)[2:]), 2)
        out = ref.pmul(out, a) if b == "1" else out
    return out


# ---------------------------------------------------------------- A01-A05
@section("A01", 200, 2000, scaled=False)
def ring_large(m, r, i):
    f = sparse if i % 3 == 0 else bigpoly
    a, b = f(r, 60, 1200), bigpoly(r, 20, 900)
    if i % 4 == 0:
        a = ref.pmul(a, b)
    m.note(a=a, b=b)
    A, B = BP(a), BP(b)
    m.eq((int(A + B), int(A * B)), (a ^ b, ref.pmul(a, b)), "sum and product")
    m.eq((int(divmod(A, B)[0]), int(divmod(A, B)[1])), ref.pdivmod(a, b), "divmod")
    m.eq((int(divmod(B, A)[0]), int(divmod(B, A)[1])), ref.pdivmod(b, a), "divmod")
    g = ref.pgcd(a, b)
    m.eq((int(BP.gcd(A, B)), int(BP.lcm(A, B))), (g, ref.plcm(a, b)), "gcd and lcm")
    d, s, t = BP.xgcd(A, B)
    m.eq((int(d), ref.pmul(a, int(s)) ^ ref.pmul(b, int(t))), (g, g), "extended gcd")
    w = a.bit_length() + int(r.integers(0, 300))
    m.eq(int(BP.from_coefficients(A.coefficients(w))), a, "coefficients round trip")
    m.eq(int(BP.from_exponents(r.permutation(np.asarray(A.exponents())))), a, "exponents round trip")
    m.eq(int(A.reciprocal(w)), int(bin(a)[2:].zfill(w)[::-1], 2), "reciprocal")
    n = int(r.integers(100, 3000))
    m.eq((int(A << n), int(A >> (n // 2))), (a << n, a >> (n // 2)), "shifts")
    e = int(r.integers(9, 80))
    m.eq(int(BP(b & 0x3FF) ** e), ref.ppow(b & 0x3FF, e), f"power {e}")
    c, e = int(r.integers(1, 16)), logint(r, 60, 3000)
    m.eq(int(BP(c) ** e), fastpow(c, e), f"power {e}")
    m.eq((int(BP(1) ** (1 << 70 | e)), int(BP(0) ** e), int(BP(c) ** 0)), (1, 0, 1), "powers of one and zero")
    k = int(r.integers(1, 21))
    F = FiniteBifield(k)
    x = int(r.integers(0, 1 << k))
    mod, s = int(F.modulus), 0
    for c in bin(a)[2:]:
        s = ref.pmulmod(s, x, mod) ^ int(c)
    m.eq(int(A.evaluate(F(x)).value), s, "evaluation at a field element")


@section("A02", 24, 200, scaled=False)
def irreducible_very_large(m, r, i):
    d = int(r.choice([24, 28, 30, 32, 36, 40, 48, 60])) if i % 2 else logint(r, 20, 110)
    while True:
        a = 1 << d | 1
        if r.integers(0, 2):
            for k in r.choice(np.arange(1, d), size=int(r.choice([1, 3])), replace=False):
                a |= 1 << int(k)
        else:
            a |= int.from_bytes(r.bytes(16), "little") & ((1 << d) - 1)
        if r.integers(0, 4) == 0 or bin(a).count("1") % 2 and ref.pirreducible(a):
            break
    m.note(a=bin(a))
    irr = ref.pirreducible(a)
    m.eq(BP(a).is_irreducible(), irr, "is_irreducible")
    if i % 2 or d <= 40:
        m.eq(BP(a).is_primitive(), irr and ref.pprimitive(a), "is_primitive")
    m.tag(f"irreducible={irr}")


@section("A03", 150, 1500, scaled=False)
def fractions_large(m, r, i):
    an, ad, bn, bd = (bigpoly(r, 20, 300) for _ in range(4))
    c = bigpoly(r, 10, 150)
    if i % 2:
        an, ad = ref.pmul(an, c), ref.pmul(ad, c)
    if i % 3 == 0:
        bn, ad = ref.pmul(bn, c), ref.pmul(ad, c)
    m.note(a=(an, ad), b=(bn, bd))
    A, B = BF(an, ad), BF(bn, bd)
    mul = ref.pmul
    chk(m, A, an, ad, "construction")
    chk(m, A + B, mul(an, bd) ^ mul(bn, ad), mul(ad, bd), "sum")
    chk(m, A * B, mul(an, bn), mul(ad, bd), "product")
    chk(m, A / B, mul(an, bd), mul(ad, bn), "quotient")
    chk(m, B.inverse(), bd, bn, "inverse")
    e = int(r.integers(8, 25))
    n, d = bn & 0xFF | 1, bd & 0x7F | 2
    chk(m, BF(n, d) ** e, ref.ppow(n, e), ref.ppow(d, e), f"power {e}")
    chk(m, BF(n, d) ** -e, ref.ppow(d, e), ref.ppow(n, e), f"power {-e}")
    m.ok((BF(n, d) * A) == (A * BF(n, d)) and A - A == BF(0), "laws")
    n, d, e = int(r.integers(1, 8)), int(r.integers(1, 8)), logint(r, 20, 1500)
    chk(m, BF(n, d) ** e, fastpow(n, e), fastpow(d, e), f"power {e}")
    chk(m, BF(n, d) ** -e, fastpow(d, e), fastpow(n, e), f"power {-e}")
    chk(m, BF(1) ** (e << 80), 1, 1, "power of one")
    chk(m, BF(1) ** -(e << 80), 1, 1, "power of one")


BIG_MODULI = {32: 0b100000000010000000000000000000111, 61: 1 << 61 | 0b100111, 64: 1 << 64 | 0b11011, 89: 1 << 89 | 1 << 38 | 1,
              113: 1 << 113 | 1 << 9 | 1, 127: 1 << 127 | 3, 163: 1 << 163 | 0b11001001}


@section("A04", 200, 2000, scaled=False)
def field_large(m, r, i):
    t = i % 4
    if t == 0:
        d = int(r.choice(list(BIG_MODULI)))
        f, mod = FiniteBifield(d, BIG_MODULI[d]), BIG_MODULI[d]
        if not ref.pirreducible(mod):
            return m.trivial()
    else:
        d = int(r.integers(11, 25))
        f = FiniteBifield(d)
        mod = int(f.modulus)
    x, y = (int.from_bytes(r.bytes(24), "little") & ((1 << d) - 1) or 1 for _ in range(2))
    m.note(d=d, mod=bin(mod), x=x, y=y)
    X, Y = f(x), f(y)
    V = lambda e: int(e.value)
    mul = lambda a, b: ref.pmulmod(a, b, mod)
    m.eq((V(X + Y), V(X - Y), V(X * Y)), (x ^ y, x ^ y, mul(x, y)), "sum, difference, product")
    iv = V(Y.inverse())
    m.eq((mul(iv, y), iv < 1 << d, V(X / Y)), (1, True, mul(x, iv)), "inverse and quotient")
    for e in (int(r.integers(100, 10**6)), (1 << d) - 2, (1 << d) - 1, 1 << d, int.from_bytes(r.bytes(20), "little")):
        m.eq(V(X ** e), ref.ppowmod(x, e, mod), f"power {e}")
    e = int(r.integers(100, 10**5))
    m.eq(mul(V(X ** -e), ref.ppowmod(x, e, mod)), 1, f"power {-e}")
    if d <= 64:
        orb, z = [], x
        while z not in orb:
            orb.append(z)
            z = mul(z, z)
        m.eq(sorted(int(c.value) for c in X.conjugates()), sorted(orb), "conjugates")
    if d <= 24:
        mp = int(X.minimal_polynomial())
        s = 0
        for c in bin(mp)[2:]:
            s = mul(s, x) ^ int(c)
        m.ok(s == 0 and ref.deg(mp) == len(orb) and ref.pirreducible(mp), f"minimal polynomial {mp:#b}")
    if d <= 13:
        e = int(r.integers(0, (1 << d) - 1))
        lg = int(f(ref.ppowmod(y, e, mod)).logarithm(f(y)))
        m.eq(ref.ppowmod(y, lg, mod), ref.ppowmod(y, e, mod), "base**log")


@section("A05", 120, 1200, scaled=False)
def generic_large(m, r, i):
    power, horner, bh = internal("ring", "power", 2), internal("ring", "horner", 2), internal("ring", "binary_horner", 2)
    fpower = internal("field", "power", 2)
    m.ok(True, "reached")
    w = world(r)
    x = w.rand()
    X = w.make(x)
    e = int(2 ** r.uniform(3, 9))
    if w.name.startswith("field"):
        e = int(2 ** r.uniform(3, 62)) << int(r.integers(0, 3) * 40)
    elif w.name == "integers" and i % 3 == 0:
        x = int(r.integers(-1, 2))
        X, e = w.make(x), int(2 ** r.uniform(3, 62))
    m.note(ring=w.name, x=x, e=e)
    want, sq = w.one, x
    for b in reversed(bin(e)[2:]):
        want = w.mul(want, sq) if b == "1" else want
        sq = w.mul(sq, sq)
    if w.name == "fractions":
        e, want = e & 31, w.one
        for _ in range(e):
            want = w.mul(want, x)
    if power:
        m.eq(w.val(power(X, e)), want, f"power {e}")
    if fpower and w.field and x != w.zero:
        m.eq(w.mul(w.val(fpower(X, -e)), want), w.one, f"power {-e} times power {e}")
    n = int(r.integers(1, 40))
    big = [rint(r) if r.integers(0, 2) else int(r.integers(-2**63, 2**63)) for _ in range(n)]
    if horner:
        acc = w.zero
        for c in reversed(big):
            acc = w.mul(acc, x)
            acc = w.add(acc, c if w.name == "integers" else w.one if c % 2 else w.zero)
        m.eq(w.val(horner(big, X)), acc, f"integer polynomial {big} at x")
    if bh:
        acc = w.zero
        for c in reversed(big):
            acc = w.mul(acc, x)
            acc = w.add(acc, w.one) if c % 2 else acc
        m.eq(w.val(bh([c % 2 for c in big], X)), acc, "binary polynomial at x")


@section("A05", 60, 600, scaled=False)
def determinants_large(m, r, i):
    """Matrices of order five to eight whose determinant is known by construction: permuted product of triangular factors."""
    det = internal("ring", "determinant", 1)
    m.ok(True, "reached")
    if det is None:
        return m.trivial()
    w = world(r)
    while i % 2 and w.name != "integers":  # The ring whose signs show
        w = world(r)
    n = int(r.choice([5, 5, 6, 6, 7, 7, 8])) if w.name != "fractions" else int(r.integers(5, 7))
    small = (lambda: int(r.integers(-4, 5))) if w.name == "integers" else w.rand
    diag = [small() for _ in range(n)]
    if i % 4 and w.zero in diag:
        diag = [w.one if d == w.zero else d for d in diag]
    nz = lambda v: v if r.integers(0, 2) else w.zero
    U = [[diag[a] if a == b else nz(small()) if b > a else w.zero for b in range(n)] for a in range(n)]
    for _ in range(int(r.integers(0, 5)) if w.name != "fractions" else 1):  # Row operations keep the determinant
        a, b = r.choice(n, 2, replace=False)
        c = small()
        U[a] = [w.add(x, w.mul(c, y)) for x, y in zip(U[a], U[b])]
    perm = r.permutation(n)
    M = [U[p] for p in perm]
    want = functools.reduce(w.mul, diag, w.one)
    if sum(perm[a] > perm[b] for a in range(n) for b in range(a + 1, n)) % 2:
        want = w.neg(want)
    m.note(ring=w.name, matrix=M)
    m.eq(w.val(det([[w.make(x) for x in row] for row in M])), want, f"determinant of order {n}")
    m.tag(f"order {n}")


# ---------------------------------------------------------------- B
def long_code(r, kmax=200, mmax=200):
    """Code with matrices known without komm: (code, G or None, H or None)."""
    k, mm = logint(r, 3, kmax), logint(r, 3, mmax)
    P = r.integers(0, 2, size=(k, mm))
    t = int(r.integers(0, 4))
    if t == 0:
        K = np.sort(r.choice(k + mm, size=k, replace=False)) if r.integers(0, 2) else r.permutation(k + mm)[:k]
        G = np.zeros((k, k + mm), int)
        G[:, K] = np.eye(k, dtype=int)
        G[:, np.setdiff1d(np.arange(k + mm), K)] = P
        return komm.SystematicBlockCode(P, K), G
    perm = r.permutation(k + mm)
    G = np.hstack([np.eye(k, dtype=int), P])[:, perm]
    if t == 1:
        U = np.triu(r.integers(0, 2, size=(k, k)), 1) + np.eye(k, dtype=int)
        G = U[r.permutation(k)] @ G % 2
        return komm.BlockCode(generator_matrix=G), G
    if t == 2:
        H = np.hstack([P.T, np.eye(mm, dtype=int)])[:, perm]
        return komm.BlockCode(check_matrix=H), None
    return komm.BlockCode(G), G


@section("B01", 80, 800, scaled=False)
def long_blocks(m, r, i):
    c, G = long_code(r, 300, 300)
    n, k = c.length, c.dimension
    m.note(code=repr(c)[:100], n=n, k=k)
    Gk, H = np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int)
    if G is not None:
        m.arr(Gk, G, "generator matrix")
    m.shape(H, (n - k, n), "check matrix")
    m.ok(not (Gk @ H.T % 2).any(), "G H^T = 0")
    m.eq((ref.rank(ref.rows2i(Gk)), ref.rank(ref.rows2i(H))), (k, n - k), "ranks")
    b = logint(r, 1, 60)
    u = r.integers(0, 2, size=(b, k))
    v = u @ Gk % 2
    m.arr(np.asarray(c.encode(gen.cast(r, u.reshape(-1))), int), v.reshape(-1), "encode")
    m.arr(np.asarray(c.inverse_encode(gen.cast(r, v.reshape(-1))), int), u.reshape(-1), "inverse encode")
    w = v ^ (r.random(v.shape) < 1.5 / n)
    s = w @ H.T % 2
    m.arr(np.asarray(c.check(gen.cast(r, w)), int), s, "check")
    bad = np.flatnonzero(s.any(axis=1))
    if len(bad):
        x = v.copy()
        x[-1 - int(r.integers(0, b))] = w[bad[0]]
        m.refuses(lambda: c.inverse_encode(x.reshape(-1)), "one block among many is not a codeword")
        m.refuses(lambda: c.inverse_encode(x), "one row among many is not a codeword")


@section("B02", 30, 200, scaled=False)
def enumerate_large(m, r, i):
    k = int(r.integers(8, 15 if m.thorough else 14))
    n = k + logint(r, 1, 200 if k < 12 else 60)
    G = np.hstack([np.eye(k, dtype=int), r.integers(0, 2, size=(k, n - k))])
    if i % 3 == 0:
        G = G[:, r.permutation(n)]
    if i % 3 == 1:
        G[:, -1] = G[:, :-1].sum(axis=1) % 2  # even weights
    c = komm.BlockCode(G) if i % 2 else komm.SystematicBlockCode(G[:, k:]) if i % 3 else komm.BlockCode(G)
    cw = ref.codebook(np.asarray(c.generator_matrix, int))
    dist = ref.weight_distribution(cw, n)
    m.note(n=n, k=k, G=G)
    q = [lambda: m.arr(c.codewords(), cw, "codewords"), lambda: m.eq(c.codeword_weight_distribution(), dist, "weight distribution"),
         lambda: m.eq(c.minimum_distance(), next(w for w in range(1, n + 1) if dist[w]), "minimum distance")]
    for j in r.permutation(3):
        q[int(j)]()


@section("B03", 30, 200, scaled=False)
def cosets_large(m, r, i):
    mm = int(r.integers(8, 15 if m.thorough else 14))
    k = logint(r, 1, 60 if mm < 12 else 20)
    P = r.integers(0, 2, size=(k, mm))
    if i % 3 == 1:
        P[:, :] = P[:1]  # equal columns: many cosets with heavy leaders
    c = komm.SystematicBlockCode(P) if i % 2 else komm.BlockCode(check_matrix=np.hstack([np.eye(mm, dtype=int), P.T])[:, r.permutation(k + mm)])
    H = np.asarray(c.check_matrix, int)
    best = ref.coset_min_weights(H)
    m.note(k=k, m=mm, P=P)

    def leaders():
        L = np.asarray(c.coset_leaders())
        m.arr(L @ H.T % 2 @ (1 << np.arange(mm)), np.arange(1 << mm), "syndrome of leader i is i")
        m.eq(L.sum(axis=1), [best[x] for x in range(1 << mm)], "leaders have minimum weight in their coset")

    q = [leaders, lambda: m.eq(c.coset_leader_weight_distribution(), np.bincount(list(best.values()), minlength=k + mm + 1), "weight distribution"),
         lambda: m.eq(c.covering_radius(), max(best.values()), "covering radius")]
    for j in r.permutation(3):
        q[int(j)]()


@section("B02", 6, 40, scaled=False)
def enumerate_huge(m, r, i):
    """More than 2^16 codewords: indices no longer fit in two bytes."""
    k = [17, 16, 18, 17, 19, 16][i % 6] if i < 6 or not m.thorough else int(r.integers(15, 21))
    mm = int(r.integers(2, 10))
    P = r.integers(0, 2, size=(k, mm))
    t = i % 3
    if t == 0:
        c = komm.SystematicBlockCode(P)
    elif t == 1:
        c = komm.BlockCode(np.hstack([np.eye(k, dtype=int), P])[:, r.permutation(k + mm)])
    else:
        c = komm.BlockCode(check_matrix=np.hstack([P.T, np.eye(mm, dtype=int)]))
    m.note(k=k, P=P, t=t)
    rows = ref.rows2i(np.asarray(c.generator_matrix, int))
    words = np.zeros(1, dtype=np.int64)
    for row in rows:
        words = np.concatenate([words, words ^ row])
    bits = (words[:, None] >> np.arange(k + mm)) & 1
    dist = np.bincount(bits.sum(axis=1), minlength=k + mm + 1)
    q = [lambda: m.eq(c.codeword_weight_distribution(), dist, "weight distribution"),
         lambda: m.eq(c.minimum_distance(), next(w for w in range(1, k + mm + 1) if dist[w]), "minimum distance")]
    if k <= 18:
        q.append(lambda: m.ok(np.array_equal(np.asarray(c.codewords()), bits), "codewords differ from the enumeration"))
    for j in r.permutation(len(q)):
        q[int(j)]()


@section("B03", 4, 24, scaled=False)
def cosets_huge(m, r, i):
    """More than 2^16 cosets."""
    mm = [17, 16, 17, 16][i % 4] if not m.thorough else int(r.integers(15, 19))
    k = int(r.integers(1, 8))
    P = r.integers(0, 2, size=(k, mm))
    c = komm.SystematicBlockCode(P) if i % 2 else komm.BlockCode(check_matrix=np.hstack([np.eye(mm, dtype=int), P.T]))
    H = np.asarray(c.check_matrix, int)
    best = ref.coset_min_weights(H)
    m.note(k=k, m=mm, P=P)

    def leaders():
        L = np.asarray(c.coset_leaders())
        m.ok(np.array_equal(L @ H.T % 2 @ (1 << np.arange(mm)), np.arange(1 << mm)), "syndrome of leader i is not i")
        m.ok(np.array_equal(L.sum(axis=1), [best[x] for x in range(1 << mm)]), "a leader is not of minimum weight")

    q = [lambda: m.eq(c.coset_leader_weight_distribution(), np.bincount(list(best.values()), minlength=k + mm + 1), "weight distribution"),
         lambda: m.eq(c.covering_radius(), max(best.values()), "covering radius"), leaders]
    for j in r.permutation(3):
        q[int(j)]()


@section("B03", 60, 400, scaled=False)
def slepian_high_rate(m, r, i):
    mm = int(r.integers(1, 6))
    k = int(r.integers(13, 62))
    P = r.integers(0, 2, size=(k, mm))
    c = komm.SystematicBlockCode(P) if r.integers(0, 3) else komm.SingleParityCheckCode(k + 1)
    k, G, H = c.dimension, np.asarray(c.generator_matrix, int), np.asarray(c.check_matrix, int)
    m.note(k=k, m=mm, code=repr(c)[:60])
    s = komm.SlepianArray(c)
    L = np.asarray(c.coset_leaders())
    m.arr(s.col(0), L, "column zero lists the coset leaders")
    for _ in range(12):
        j = int(2 ** r.uniform(0, k)) % 2 ** k if r.integers(0, 4) else 2 ** k - 1 - int(r.integers(0, 3))
        row = int(r.integers(0, len(L)))
        u = np.array([j >> b & 1 for b in range(k)])
        m.arr(s.entry(row, j), (u @ G + L[row]) % 2, f"entry ({row}, {j}) = leader + codeword")


@section("B04", 10, 60, scaled=False)
def families_large(m, r, i):
    t = i % 5
    if t == 0:
        n = logint(r, 40, 3000)
        c = komm.CordaroWagnerCode(n)
        m.note(cw=n)
        G = np.asarray(c.generator_matrix, int)
        d = int((ref.all_words(2)[1:] @ G % 2).sum(axis=1).min())
        m.eq((c.length, c.dimension, d, c.minimum_distance()), (n, 2, -(-2 * n // 3) - 1, d), "Cordaro-Wagner parameters")
    elif t == 1:
        n = logint(r, 40, 3000)
        m.note(n=n)
        c = komm.RepetitionCode(n)
        m.arr(np.asarray(c.generator_matrix, int), np.ones((1, n), int), "repetition generator")
        m.eq(c.minimum_distance(), n, "minimum distance")
        n = min(n, 800)
        s = komm.SingleParityCheckCode(n)
        m.arr(np.asarray(s.check_matrix, int), np.ones((1, n), int), "single parity check")
        m.eq((s.length, s.dimension, s.minimum_distance()), (n, n - 1, 2), "parameters")
        u = r.integers(0, 2, size=(5, n - 1))
        m.ok(not (np.asarray(s.encode(u), int).sum(axis=1) % 2).any(), "even weights")
    elif t == 2:
        mu = int(r.integers(7, 11))
        m.note(mu=mu)
        c = komm.HammingCode(mu)
        H = np.asarray(c.check_matrix, int)
        m.eq(np.sort(H.T @ (1 << np.arange(mu))), np.arange(1, 1 << mu), "columns of H")
        u = r.integers(0, 2, size=(3, c.dimension))
        m.ok(not (np.asarray(c.encode(u), int) @ H.T % 2).any(), "encode")
        S = komm.SimplexCode(mu, extended=bool(i & 1))
        G = np.asarray(S.generator_matrix, int)
        w = (ref.all_words(S.dimension)[1:] @ G % 2).sum(axis=1)
        m.eq(S.minimum_distance(), int(w.min()), "minimum distance")
        m.eq(int(w.min()), 1 << (mu - 1), "simplex distance")
    elif t == 3:
        mu = int(r.integers(6, 10))
        rho = int(r.integers(0, mu))
        m.note(rho=rho, mu=mu)
        c = komm.ReedMullerCode(rho, mu)
        k = sum(math.comb(mu, j) for j in range(rho + 1))
        m.eq((c.length, c.dimension, c.minimum_distance()), (1 << mu, k, 1 << (mu - rho)), "Reed-Muller parameters")
        G = np.asarray(c.generator_matrix, int)
        # every evaluation of degree <= rho: Moebius transform has no monomial of higher degree
        A = G.copy()
        for b in range(mu):
            A = A.reshape(k, -1, 2, 1 << b)
            A[:, :, 1] ^= A[:, :, 0]
            A = A.reshape(k, -1)
        high = np.array([bin(x).count("1") > rho for x in range(1 << mu)])
        m.ok(not A[:, high].any(), "rows are polynomials of degree at most rho")
        m.eq(ref.rank(ref.rows2i(G)), k, "rank")
    else:
        n, d = int(r.integers(11, 15)), int(r.integers(3, 8))
        m.note(n=n, d=d)
        c = komm.Lexicode(n, d)
        pc = np.array([bin(x).count("1") for x in range(1 << n)], np.uint8)
        X, ok = [], np.ones(1 << n, bool)
        a = np.arange(1 << n)
        while ok.any():
            x = int(np.argmax(ok))
            X.append(x)
            ok &= pc[a ^ x] >= d
        S = ref.span([ref.v2i(g[::-1]) for g in np.asarray(c.generator_matrix, int)])
        S2 = ref.span([ref.v2i(g) for g in np.asarray(c.generator_matrix, int)])
        m.ok(set(X) in (S, S2), "lexicode is the greedy set")


def cyc_factors(n):
    """Irreducible factors of X^n + 1 with multiplicity (odd part by cyclotomic cosets)."""
    return ref.pfactor(1 << n | 1)


CYC = {}


@section("B05", 120, 1000, scaled=False)
def long_cyclic(m, r, i):
    n = int(r.choice([31, 45, 51, 60, 63, 64, 73, 85, 93, 105, 127]))
    if n not in CYC:
        CYC[n] = cyc_factors(n)
    fs = CYC[n]
    fs = list(itertools.chain(*[[f] * e for f, e in fs.items()])) if isinstance(fs, dict) else list(fs)
    fs = [int(f[0]) if isinstance(f, tuple) else int(f) for f in fs]
    g = 1
    for f in fs:
        if r.integers(0, 2):
            g = ref.pmul(g, f)
    if ref.deg(g) in (0, n):
        return m.trivial()
    h = ref.pdivmod(1 << n | 1, g)[0]
    k = n - ref.deg(g)
    sy = bool(r.integers(0, 2))
    m.note(n=n, g=bin(g), systematic=sy)
    c = komm.CyclicCode(n, generator_polynomial=g, systematic=sy) if r.integers(0, 2) else komm.CyclicCode(n, check_polynomial=h, systematic=sy)
    m.eq((int(c.generator_polynomial), int(c.check_polynomial), c.dimension), (g, h, k), "polynomials and dimension")
    u = r.integers(0, 2, size=(6, k))
    v = np.asarray(c.encode(gen.cast(r, u)), int)
    for a, b in zip(u, v):
        p = ref.v2i(b)
        m.eq(ref.pmod(p, g), 0, "codeword is a multiple of the generator polynomial")
        if sy:
            m.arr(b[n - k:], a, "message in the last k positions")
        else:
            m.eq(p, ref.pmul(ref.v2i(a), g), "message polynomial times generator polynomial")
    sh = np.roll(v, int(r.integers(1, n)), axis=1)
    m.ok(not np.asarray(c.check(sh)).any(), "cyclic shifts are codewords")
    m.arr(np.asarray(c.encode(np.asarray(c.inverse_encode(sh))), int), sh, "inverse encode of shifted codewords")
    w = v.copy()
    w[:, int(r.integers(0, n))] ^= 1
    m.ok(np.asarray(c.check(w)).reshape(6, -1).any(axis=1).all(), "single errors are detected")


@section("B06", 30, 200, scaled=False)
def long_bch(m, r, i):
    mu = int(r.choice([7, 8] if not m.thorough else [7, 8, 9, 10]))
    n = (1 << mu) - 1
    f = FiniteBifield(mu)
    mod = int(f.modulus)
    a = [1]
    for _ in range(n - 1):
        a.append(ref.pmulmod(a[-1], 2, mod))
    t = logint(r, 1, 20 if mu < 9 else 8)
    cos = lambda s: frozenset(s * (1 << j) % n for j in range(mu))
    roots = set().union(*[cos(s) for s in range(1, 2 * t + 1)])
    delta = 2 * t + 1
    while delta % n in roots:
        delta += 1
    m.note(mu=mu, delta=delta)
    if delta > n:
        return m.trivial()
    c = komm.BCHCode(mu, delta)
    g = int(c.generator_polynomial)
    m.eq((c.length, ref.deg(g), c.delta), (n, len(roots), delta), "parameters")

    def at(p, e):
        s = 0
        while p:
            b = p & -p
            s ^= a[(b.bit_length() - 1) * e % n]
            p ^= b
        return s
    m.ok(all(at(g, e) == 0 for e in roots), "generator polynomial vanishes at alpha^1 .. alpha^(delta-1)")
    if delta - 1 > 2 * t:
        m.tag("Bose distance above the requested capability")
    elif 2 * t + 1 < delta:
        m.refuses(lambda: komm.BCHCode(mu, 2 * t + 1), "not a Bose distance")
    if delta > 3 and (delta - 1) not in (1,) and (delta - 1) % n in roots and delta - 1 >= 2:
        m.refuses(lambda: komm.BCHCode(mu, delta - 1), "not a Bose distance")


@section("B07", 16, 100, scaled=False)
def long_polar(m, r, i):
    mu = int(r.integers(6, 11 if m.thorough else 10))
    n = 1 << mu
    F = np.sort(r.choice(n, size=int(r.integers(0, n)), replace=False))
    m.note(mu=mu, frozen=F)
    c = komm.PolarCode(mu, F)
    A = np.setdiff1d(np.arange(n), F)
    u = r.integers(0, 2, size=(4, len(A)))
    x = np.zeros((4, n), int)
    x[:, A] = u
    for s in range(mu):  # butterflies
        x = x.reshape(4, -1, 2, 1 << s)
        x[:, :, 0] ^= x[:, :, 1]
        x = x.reshape(4, -1)
    m.arr(np.asarray(c.encode(gen.cast(r, u)), int), x, "encode")
    m.arr(np.asarray(c.inverse_encode(gen.cast(r, x)), int), u, "inverse encode")
    m.ok(not np.asarray(c.check(x)).any(), "check of codewords")
    y = x.copy()
    y[1] ^= r.random(n) < 0.3
    z = y[1].copy()
    for s in range(mu):
        z = z.reshape(-1, 2, 1 << s)
        z[:, 0] ^= z[:, 1]
        z = z.reshape(-1)
    m.eq(bool(np.asarray(c.check(y[1])).any()), bool(z[F].any()), "zero syndrome exactly on the code")


# ---------------------------------------------------------------- L
def big_pmf(r, S):
    t = int(r.integers(0, 5))
    w = [lambda: r.random(S) + 1e-3, lambda: 1.0 / (1 + r.permutation(S)), lambda: r.random(S) ** 6 + 1e-9, lambda: np.ones(S),
         lambda: np.exp(-r.exponential(3, size=S))][t]()
    return w / w.sum()


@section("L01", 150, 1500, scaled=False)
def fv_large(m, r, i):
    t = i % 3
    if t == 0:
        S, k = logint(r, 8, 600), 1
        code = komm.HuffmanCode(big_pmf(r, S), policy=str(r.choice(["high", "low"])), assignment=str(r.choice(["tree", "canonical"])))
    elif t == 1:
        S, k = [(2, 8), (3, 5), (4, 4), (7, 3), (2, 9)][int(r.integers(0, 5))]
        code = [komm.HuffmanCode, komm.FanoCode, komm.ShannonCode][int(r.integers(0, 3))](big_pmf(r, S) * 0.5 + 0.5 / S, k)
    else:
        Y, S, k = int(r.choice([3, 10, 64, 256, 300])), logint(r, 8, 400), 1
        L = rand_tree(r, Y, 10**9 if S < 500 else S, S)[:] if Y < S else [(j,) for j in range(Y)]
        while len(L) < S:
            w = L.pop(int(r.integers(0, len(L))))
            L += [w + (s,) for s in range(Y)]
        r.shuffle(L)
        L = [tuple(int(a) for a in w) for w in L][:S]
        code = komm.FixedToVariableCode(S, Y, 1, {(j,): w for j, w in enumerate(L)})
    em = {tuple(int(a) for a in x): tuple(int(b) for b in y) for x, y in code.enc_mapping.items()}
    m.eq((len(em), code.source_cardinality, code.source_block_size), (S ** k, S, k), "size of the mapping")
    m.ok(_prefix_free(em.values()), "prefix-free")
    n = logint(r, 50, 1500)
    x = r.integers(0, S, size=n * k) if r.integers(0, 2) else rand_seq(r, S, n * k)
    m.note(S=S, k=k, x=x, code=repr(code)[:200])
    want = [c for j in range(0, n * k, k) for c in em[tuple(x[j:j + k].tolist())]]
    dt = np.uint8 if S <= 256 and r.integers(0, 2) else np.uint16 if r.integers(0, 2) else int
    y = np.asarray(code.encode(x.astype(dt)))
    m.arr(y.astype(int), np.array(want), "encode")
    m.arr(np.asarray(code.decode(y if r.integers(0, 2) else want), int), x, "decode(encode(x)) = x")


def _prefix_free(ws):
    s = sorted(ws)
    return all(b[:len(a)] != a for a, b in zip(s, s[1:]))


@section("L02", 100, 1000, scaled=False)
def optimal_large(m, r, i):
    S = logint(r, 12, 500)
    p = big_pmf(r, S)
    q = [Fraction(float(x)) for x in p]
    m.note(S=S, pmf=p)
    h, tot = list(q), Fraction(0)
    heapq.heapify(h)
    while len(h) > 1:
        a = heapq.heappop(h) + heapq.heappop(h)
        tot += a
        heapq.heappush(h, a)
    for pol in ("high", "low"):
        for asg in ("tree", "canonical"):
            c = komm.HuffmanCode(p, policy=pol, assignment=asg)
            ws = [tuple(c.enc_mapping[(j,)]) for j in range(S)]
            m.ok(_prefix_free(ws), "prefix-free")
            m.close(float(sum(a * len(w) for a, w in zip(q, ws))), float(tot), f"Huffman {pol}/{asg}: expected length", 1e-9)
            m.close(c.rate(p), float(tot), "rate", 1e-9)
            if asg == "canonical":
                o = sorted(range(S), key=lambda j: (len(ws[j]), j))
                m.ok(all(ws[a] < ws[b] for a, b in zip(o, o[1:])), "canonical order")
    c = komm.ShannonCode(p)
    ws = [tuple(c.enc_mapping[(j,)]) for j in range(S)]
    m.eq([len(w) for w in ws], [exact_shannon(x) for x in p], "Shannon lengths")
    m.ok(_prefix_free(ws), "prefix-free")
    c = komm.FanoCode(p)
    ws = [tuple(c.enc_mapping[(j,)]) for j in range(S)]
    m.ok(_prefix_free(ws) and sum(Fraction(1, 2 ** len(w)) for w in ws) == 1, "Fano code is a complete prefix-free code")
    z = sorted(q, reverse=True)
    out, ambiguous, stack = [], False, [(0, S, 0)]
    while stack:
        lo, hi, t = stack.pop()
        if hi - lo == 1:
            out.append((z[lo], t))
            continue
        s = sum(z[lo:hi])
        d = sorted((abs(a - s / 2), lo + k + 1) for k, a in enumerate(itertools.accumulate(z[lo:hi - 1])))
        ambiguous |= len(d) > 1 and float(d[1][0] - d[0][0]) <= 1e-12 * float(s)
        stack += [(lo, d[0][1], t + 1), (d[0][1], hi, t + 1)]
    m.tag("Fano splits with ties" if ambiguous else "Fano splits all strict")
    if not ambiguous:
        m.ok(sorted(out) == sorted((x, len(w)) for x, w in zip(q, ws)), "Fano lengths come from the most balanced splits")
    Hs = float(komm.entropy(p))
    m.ok(Hs - 1e-9 <= float(tot) < Hs + 1, "Huffman rate within one bit of the entropy")


@section("L03", 120, 1200, scaled=False)
def predicates_large(m, r, i):
    Y = int(r.choice([2, 2, 3, 5, 10]))
    S = logint(r, 15, 250)
    L = rand_tree(r, Y, 10**9, S)
    L = [w for w in L]
    r.shuffle(L)
    L = [tuple(int(a) for a in w) for w in L][:S]
    S = len(L)
    t = i % 4
    if t == 1:
        L = [w[::-1] for w in L]
    if t == 2:  # one word extended: prefix-freeness lost at a single pair
        a, b = r.choice(S, size=2, replace=False)
        L[int(a)] = L[int(b)] + tuple(int(x) for x in r.integers(0, Y, size=int(r.integers(1, 4))))
    if t == 3:
        a, b, c = r.choice(S, size=3, replace=False)
        L[int(a)] = L[int(b)] + L[int(c)]
    if i % 5 == 1:  # symbols of several digits
        Z = int(r.choice([12, 30, 111, 1200]))
        Z = max(Z, Y)
        al = r.choice(Z, size=Y, replace=False) if r.integers(0, 2) else np.array([1, 11, 111, 0, 10, 110, 12, 21, 2, 101])[:Y] % Z
        if len(set(al.tolist())) == Y:
            L, Y = [tuple(int(al[a]) for a in w) for w in L], Z
    if i % 5 == 3:  # a comb with words longer than a machine integer has bits
        t = int(r.integers(50, 130))
        w0 = max(L, key=len)
        L.remove(w0)
        a = int(r.integers(0, Y))
        L += [w0 + (a,) * j + ((a + 1) % Y,) for j in range(0, t)] + [w0 + (a,) * t]
        S = len(L)
    m.note(words=L)
    if len(set(L)) < S:
        return m.trivial()
    code = komm.FixedToVariableCode(S, Y, 1, {(j,): w for j, w in enumerate(L)})
    pf = _prefix_free(L)
    ud = _decodable(L)
    m.eq(code.is_prefix_free(), pf, "is_prefix_free")
    m.eq(code.is_uniquely_decodable(), ud, "is_uniquely_decodable")
    m.close(code.kraft_parameter(), float(sum(Fraction(1, Y ** len(w)) for w in L)), "Kraft sum", 1e-12)
    m.tag(f"prefix-free={pf} decodable={ud}")
    n = 1
    while 2 ** n < S:
        n += 1
    d = komm.VariableToFixedCode(2, Y, n, dict(zip(itertools.product((0, 1), repeat=n), L)))
    m.eq((d.is_prefix_free(), d.is_uniquely_encodable()), (pf, ud), "as a dictionary")
    if pf:
        m.eq(d.is_fully_covering(), sum(Fraction(1, Y ** len(w)) for w in L) == 1, "is_fully_covering")


@section("L03", 160, 1600, scaled=False)
def decodability_chains(m, r, i):
    """Codes whose shortest ambiguity (or its absence) shows only after a long chain of dangling suffixes."""
    n = logint(r, 2, 120)
    t = i % 5
    if t == 0:  # 0 1^n 0 parsed from the left in pairs, or not
        L = [(0,), (0, 1), (1, 1), (1,) * n + (0,)]
    elif t == 1:
        a, b = int(r.integers(1, 40)), int(r.integers(1, 40))
        L = [(0,) * a + (1,), (0,) * b, (1,) + (0,) * int(r.integers(0, 60))]
    elif t == 2:  # steps of p in a run of length n
        p = int(r.integers(2, 6))
        L = [(1,), (1,) + (0,) * int(r.integers(1, p + 1)), (0,) * p, (0,) * n + (1,)]
    elif t == 3:
        k = int(r.integers(1, 12))
        L = [(0,) * j + (1,) * (k - j + 1) for j in range(1, k + 1)] + [(1,), (0,) * (k + int(r.integers(0, 3))) + (1,) * n]
    else:  # each word ends where the next begins: w_j = s_j s_{j+1}
        k = int(r.integers(2, 14))
        s = [tuple(int(x) for x in r.integers(0, 2, size=4)) + (j // 2 % 2,) * int(r.integers(1, 4)) for j in range(k + 1)]
        L = [s[j] + s[j + 1] for j in range(k)] + ([s[0], s[k]] if i % 2 else [s[0]])
    if r.integers(0, 2):
        L = [w[::-1] for w in L]
    Y = int(r.choice([2, 2, 3, 12, 112]))
    al = r.choice(Y, size=2, replace=False)
    L = [tuple(int(al[a]) for a in w) for w in L]
    r.shuffle(L)
    L = [tuple(int(a) for a in w) for w in L]
    L = list(dict.fromkeys(L)) if t == 4 else L
    m.note(words=L)
    S = len(L)
    pf, ud = len(set(L)) == S and _prefix_free(L), len(set(L)) == S and _decodable(L)
    code = komm.FixedToVariableCode(S, Y, 1, {(j,): w for j, w in enumerate(L)})
    m.eq(code.is_uniquely_decodable(), ud, "is_uniquely_decodable")
    m.eq(code.is_prefix_free(), pf, "is_prefix_free")
    m.tag(f"prefix-free={pf} decodable={ud}")
    if len(set(L)) == S:
        k = max(1, (S - 1).bit_length())
        d = komm.VariableToFixedCode(2, Y, k, dict(zip(itertools.product((0, 1), repeat=k), L)))
        m.eq((d.is_prefix_free(), d.is_uniquely_encodable()), (pf, ud), "as a dictionary")


def _decodable(L):
    """Sardinas-Patterson on dangling suffixes with dictionary lookups."""
    W = set(L)
    by = collections.defaultdict(set)
    for w in W:
        for t in range(1, len(w)):
            by[w[:t]].add(w[t:])
    todo = [s for w in W for s in by.get(w, ())]
    seen = set(todo)
    while todo:
        s = todo.pop()
        if s in W:
            return False
        nxt = set(by.get(s, ()))
        nxt |= {s[t:] for t in range(1, len(s)) if s[:t] in W}
        for x in nxt - seen:
            seen.add(x)
            todo.append(x)
    return True


@section("L04", 80, 800, scaled=False)
def tunstall_large(m, r, i):
    S = logint(r, 2, 40)
    n = int(r.integers(max(4, (S - 1).bit_length()), 11))
    p = big_pmf(r, S)
    m.note(pmf=p, n=n)
    c = komm.TunstallCode(p, n)
    ws = [tuple(int(a) for a in w) for w in c.sourcewords]
    m.ok(_prefix_free(ws) and sum(Fraction(1, S ** len(w)) for w in ws) == 1, "complete prefix-free dictionary")
    q = [Fraction(float(x)) for x in p]
    K = (2 ** n - 1) // (S - 1)
    heap, best = [(-1.0, 0)], 0.0
    for cnt in range(K):
        v, _d = heapq.heappop(heap)
        best -= v
        for x in p:
            heapq.heappush(heap, (v * float(x), cnt + 1))
    m.eq(len(ws), 1 + K * (S - 1), "as many words as fit")
    E = math.fsum(len(w) * math.prod(float(p[a]) for a in w) for w in ws)
    m.close(E, best, "expected sourceword length is the largest possible", 1e-12)
    m.close(c.rate(p), n / E, "rate", 1e-9)
    x = r.choice(S, size=logint(r, 200, 2000), p=p)
    inv = {tuple(int(a) for a in w): tuple(int(b) for b in k) for k, w in c.dec_mapping.items()}
    out, pos, w = [], 0, ()
    for a in x.tolist():
        w += (a,)
        if w in inv:
            out += inv[w]
            w = ()
    y = np.asarray(c.encode(x)).astype(int).tolist()
    m.eq(y[:len(out)], out, "encode")
    m.eq(len(y), len(out) + (n if w else 0), "whole blocks")
    z = np.asarray(c.decode(y), int)
    m.arr(z[:len(x)], x, "decode(encode(x)) starts with x")


@section("L04", 3, 20, scaled=False)
def tunstall_huge(m, r, i):
    """Dictionaries of thousands of words."""
    S, n = ((2, 12), (3, 13), (2, 13), (5, 12))[i % 4]
    p = r.dirichlet(np.full(S, 4.0))
    m.note(pmf=p, n=n)
    c = komm.TunstallCode(p, n)
    ws = [tuple(int(a) for a in w) for w in c.sourcewords]
    K = (2 ** n - 1) // (S - 1)
    m.eq(len(ws), 1 + K * (S - 1), "as many words as fit")
    m.ok(_prefix_free(ws) and sum(Fraction(1, S ** len(w)) for w in ws) == 1, "complete prefix-free dictionary")
    heap, best = [-1.0], 0.0
    for _ in range(K):
        v = heapq.heappop(heap)
        best -= v
        for x in p:
            heapq.heappush(heap, v * float(x))
    E = math.fsum(len(w) * math.prod(float(p[a]) for a in w) for w in ws)
    m.close(E, best, "expected sourceword length is the largest possible", 1e-12)
    m.tag("words", len(ws))


@section("L05", 20, 160, scaled=False)
def lz_large(m, r, i):
    X = int(r.choice([2, 3, 64, 256, 1000]))
    Y = int(r.choice([2, 3, 16, 256]))
    n = logint(r, 300, 3000)
    x = rand_seq(r, X, n)
    if i % 3 == 0:  # long repeats at long distances
        b = r.integers(0, X, size=int(r.integers(200, 900)))
        x = np.concatenate([b, r.integers(0, X, size=int(r.integers(0, 400))), b, b[::-1]])
    S, L = logint(r, 100, 2000), logint(r, 20, 700)
    if len(x) * S > 1_500_000:
        S = 1_500_000 // len(x)
    m.note(X=X, Y=Y, S=S, L=L, x=x)
    for c in (komm.LempelZiv77Code(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y),
              komm.LempelZivSSCode(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y),
              komm.LempelZiv78Code(X, Y), komm.LempelZivWelchCode(X, Y)):
        y = np.asarray(c.encode(x), int)
        m.ok(y.min() >= 0 and y.max() < Y, "symbols in range")
        m.arr(np.asarray(c.decode(y), int), x, f"{type(c).__name__}: decode(encode(x)) = x")
        if hasattr(c, "source_to_tokens"):
            t = c.source_to_tokens(x)
            m.arr(np.asarray(c.tokens_to_source(t), int), x, f"{type(c).__name__}: tokens round trip")
            m.eq(c.target_to_tokens(y), [list(a) for a in t], f"{type(c).__name__}: serialised tokens round trip")


@section("L05", 4, 24, scaled=False)
def long_phrases(m, r, i):
    X, Y = int(r.choice([2, 3, 256])), int(r.choice([2, 256, 1000]))
    n = int(r.integers(30000, 60000)) * (1 + m.thorough)
    t = i % 4
    x = [np.zeros(n, int), np.full(n, X - 1), np.resize(r.integers(0, X, size=2), n), np.repeat(r.integers(0, X, size=3), n // 3)][t]
    m.note(X=X, Y=Y, n=n, t=t)
    m.tag("constant" if t < 2 else "periodic")
    for c in (komm.LempelZiv78Code(X, Y), komm.LempelZivWelchCode(X, Y)):
        m.arr(np.asarray(c.decode(c.encode(x)), int), x, f"{type(c).__name__}: decode(encode(x)) = x")
    n = 6000
    L = int(r.integers(300, 6000))
    for c in (komm.LempelZiv77Code(search_size=2000, lookahead_size=L, source_cardinality=X, target_cardinality=Y),
              komm.LempelZivSSCode(search_size=2000, lookahead_size=L, source_cardinality=X, target_cardinality=Y)):
        m.arr(np.asarray(c.decode(c.encode(x[:n])), int), x[:n], f"{type(c).__name__}: decode(encode(x)) = x, match lengths up to {L}")


@section("L06", 100, 1000, scaled=False)
def integers_large(m, r, i):
    n = logint(r, 100, 3000)
    xs = [int(2 ** e) for e in r.uniform(0, [8, 20, 40, 62.9][i % 4], size=n)]
    m.note(xs=xs)
    want = [b for v in xs for b in zeck(v)]
    c = komm.FibonacciCode()
    m.arr(np.asarray(c.encode(np.array(xs)), int), np.array(want), "Fibonacci encode")
    m.arr(np.asarray(c.decode(np.array(want))), np.array(xs), "Fibonacci decode")
    ys = [int(v) for v in r.integers(0, [3, 30, 300, 60][i % 4], size=n)] + [logint(r, 100, 60000)]
    want = np.concatenate([np.append(np.ones(v, int), 0) for v in ys])
    u = komm.UnaryCode()
    m.arr(np.asarray(u.encode(ys), int), want, "unary encode")
    m.arr(np.asarray(u.decode(want), int), np.array(ys), "unary decode")


# ---------------------------------------------------------------- G, K
@section("G01", 24, 160, scaled=False)
def labels_large(m, r, i):
    nb = int(r.integers(7, 11 if not m.thorough else 13))
    t = i % 4
    if t == 0:
        L = komm.NaturalLabeling(nb)
    elif t == 1:
        L = komm.ReflectedLabeling(nb)
    elif t == 2:
        a = nb // 2
        L = komm.ReflectedRectangularLabeling((a, nb - a))
    else:
        W = np.array(list(itertools.product((0, 1), repeat=nb)))
        L = komm.Labeling(W[r.permutation(len(W))])
    W = np.asarray(L.matrix).astype(int)
    M = 1 << nb
    m.note(labeling=repr(L)[:100], t=t)
    v = W @ (1 << np.arange(nb))
    m.eq(np.sort(v), np.arange(M), "every word exactly once")
    sh = [(2000,), (3, 500), (2, 2, 300)][int(r.integers(0, 3))]
    idx = r.integers(0, M, size=sh)
    b = np.asarray(L.indices_to_bits(idx.astype(np.uint16)), int)
    m.arr(b, W[idx].reshape(sh[:-1] + (-1,)), "indices_to_bits")
    m.arr(np.asarray(L.bits_to_indices(b.astype(np.uint8))), idx, "bits_to_indices")
    e = int(r.integers(0, idx.size))
    bad = idx.copy()
    bad.flat[e] = r.choice([M, -1, M + 7])
    m.refuses(lambda: L.indices_to_bits(bad), "one index outside the range among many")
    bb = b.copy()
    bb.flat[int(r.integers(0, b.size))] = r.choice([2, -1])
    m.refuses(lambda: L.bits_to_indices(bb), "one non-bit among many")


@section("G03", 80, 800, scaled=False)
def marginals_large(m, r, i):
    nb = int(r.integers(5, 11))
    L = [komm.NaturalLabeling, komm.ReflectedLabeling][i % 2](nb) if i % 3 else komm.ReflectedRectangularLabeling((nb // 2, nb - nb // 2))
    W = np.asarray(L.matrix).astype(int)
    M, B = 1 << nb, logint(r, 1, 60)
    P = 10.0 ** r.uniform(-12, 3, size=(B, M))
    if i % 4 == 0:
        P /= P.sum(axis=1, keepdims=True)
    m.note(labeling=repr(L), metrics=P)
    got = np.asarray(L.marginalize(P.reshape(-1) if r.integers(0, 2) else P)).reshape(B, nb)
    want = np.stack([np.log(P[:, W[:, b] == 0].sum(axis=1)) - np.log(P[:, W[:, b] == 1].sum(axis=1)) for b in range(nb)], axis=1)
    m.close(got, want, "L-values", 1e-9, 1e-9)
    one = np.eye(M)[r.integers(0, M, size=B)]
    m.arr(np.asarray(L.marginalize(one)) < 0, W[one.argmax(axis=1)] == 1, "one-hot metrics")


def large_con(r):
    t = int(r.integers(0, 8))
    if t == 0:
        M = logint(r, 20, 300)
        return komm.PAMConstellation(M, 0.3), np.array([[(2 * j - (M - 1)) * 0.15] for j in range(M)])
    if t == 1:
        M = logint(r, 20, 500)
        return komm.PSKConstellation(M, 2.0, 0.1), np.array([[2 * rot(j / M) * rot(0.1)] for j in range(M)])
    if t in (2, 3):
        a, b = (32, 32) if t == 2 else (int(r.integers(9, 33)), int(r.integers(9, 33)))
        C = komm.QAMConstellation(1024, 1.5) if t == 2 else komm.QAMConstellation((a, b), 1.5)
        return C, np.array([[complex((2 * x - (a - 1)) * 0.75, (2 * y - (b - 1)) * 0.75)] for x in range(a) for y in range(b)])
    if t == 4:
        N = int(r.integers(8, 40))
        return komm.BiorthogonalConstellation(2 * N, 1.7), np.vstack([1.7 * np.eye(N), -1.7 * np.eye(N)])
    if t == 5:
        M = int(r.integers(9, 50))
        return (komm.OrthogonalConstellation(M, 2.0), 2.0 * np.eye(M)) if r.integers(0, 2) else (komm.SimplexConstellation(M, 2.0), 2.0 * (np.eye(M) - 1 / M))
    if t == 6:
        M = logint(r, 20, 300)
        return komm.ASKConstellation(M, 0.5, 0.2), np.array([[0.5 * j * rot(0.2)] for j in range(M)])
    M, N = logint(r, 20, 400), int(r.integers(1, 12))
    X = r.normal(size=(M, N)) + (1j * r.normal(size=(M, N)) if r.integers(0, 2) else 0)
    return komm.Constellation(X), X


@section("K01", 120, 1200, scaled=False)
def detect_large(m, r, i):
    C, X = large_con(r)
    M, N = X.shape
    m.note(con=repr(C)[:150])
    n = logint(r, 100, 1500)
    idx = r.integers(0, M, size=n)
    y = np.asarray(C.indices_to_symbols(idx.astype(np.uint16)))
    m.close(y, X[idx].reshape(-1), "mapping", 1e-12, 1e-12)
    m.arr(np.asarray(C.closest_indices(y)), idx, "noiseless detection")
    z = y + (r.normal(size=y.shape) + (1j * r.normal(size=y.shape) if np.iscomplexobj(X) else 0)) * 10.0 ** r.uniform(-2, 1)
    D = np.linalg.norm(z.reshape(n, 1, N) - X[None], axis=2)
    j = np.asarray(C.closest_indices(z))
    m.ok(np.all(D[np.arange(n), j] <= D.min(axis=1) * (1 + 1e-9) + 1e-12), "closest indices are at minimum distance")
    s = np.asarray(C.closest_symbols(z)).reshape(n, N)
    m.ok(np.all(np.linalg.norm(z.reshape(n, N) - s, axis=1) <= D.min(axis=1) * (1 + 1e-9) + 1e-12), "closest symbols are at minimum distance")


@section("K01", 60, 600, scaled=False)
def far_from_origin(m, r, i):
    N, M = int(r.integers(1, 4)), int(r.integers(2, 12))
    cx = bool(r.integers(0, 2))
    off = float(np.round(10.0 ** r.uniform(5, 13)))
    pts = lambda n: r.integers(-6, 7, size=(n, N)) + (1j * r.integers(-6, 7, size=(n, N)) if cx else 0)
    base = off * (np.sign(r.normal(size=N)) + (1j * np.sign(r.normal(size=N)) if cx else 0))
    K = np.unique(pts(M), axis=0)
    if len(K) < 2:
        return m.trivial()
    q = pts(int(r.integers(1, 30))) * 0.25
    m.note(offset=off, points=K, received=q)
    C = komm.Constellation(base + K)
    D = (np.abs(q[:, None, :] - K[None]) ** 2).sum(axis=2)
    j = np.asarray(C.closest_indices((base + q).reshape(-1)))
    m.ok(np.all(D[np.arange(len(q)), j] <= D.min(axis=1) + 1e-3), lambda: f"detected {j.tolist()}, distances {D.tolist()}")
    m.close(C.minimum_distance(), min(float(np.linalg.norm(K[a] - K[b])) for a in range(len(K)) for b in range(a)), "minimum distance", 1e-9)


@section("K02", 120, 1200, scaled=False)
def statistics_large(m, r, i):
    C, X = large_con(r)
    M, N = X.shape
    m.note(con=repr(C)[:150])
    m.close(C.matrix, X, "points", 1e-12, 1e-12)
    p = big_pmf(r, M)
    m.close(C.mean(), X.mean(axis=0), "mean", 1e-9, 1e-9)
    m.close(C.mean(p), p @ X, "mean, priors", 1e-9, 1e-9)
    E = (np.abs(X) ** 2).sum(axis=1)
    m.close(C.mean_energy(), E.mean(), "mean energy", 1e-9)
    m.close(C.mean_energy(p), float(p @ E), "mean energy, priors", 1e-9)
    m.close(C.minimum_distance(), min(float(np.linalg.norm(X[:a] - X[a], axis=1).min()) for a in range(1, M)), "minimum distance", 1e-9)


@section("K03", 120, 1200, scaled=False)
def posteriors_large_con(m, r, i):
    C, X = large_con(r)
    M, N = X.shape
    n = logint(r, 20, 200)
    sig2 = float(10.0 ** r.uniform(-3, 1.5))
    p = big_pmf(r, M) if r.integers(0, 2) else None
    cx = np.iscomplexobj(X)
    z = X[r.integers(0, M, size=n)] + math.sqrt(sig2) * (r.normal(size=(n, N)) + (1j * r.normal(size=(n, N)) if cx else 0))
    m.note(con=repr(C)[:150], noise=sig2, priors=p)
    got = np.asarray(C.posteriors(z.reshape(-1), sig2) if p is None else C.posteriors(z.reshape(-1), sig2, p)).reshape(n, M)
    D = (np.abs(z[:, None, :] - X[None]) ** 2).sum(axis=2)
    l = -D / (sig2 if cx else 2 * sig2) + (np.log(p) if p is not None else 0)
    l -= l.max(axis=1, keepdims=True)
    w = np.exp(l)
    m.close(got, w / w.sum(axis=1, keepdims=True), "posteriors", 1e-7, 1e-12)


# ---------------------------------------------------------------- C, I
@section("C01", 80, 800, scaled=False)
def channels_large(m, r, i):
    nx, ny = logint(r, 6, 60), logint(r, 6, 80)
    t = i % 3
    if t == 0:
        W = r.dirichlet(np.full(ny, 0.3), size=nx)
    elif t == 1:  # circulant: uniform input is optimal
        ny = nx
        row = r.dirichlet(np.full(nx, 0.3))
        W = np.array([np.roll(row, k) for k in range(nx)])
    else:  # erasures of an n-ary symbol
        ny = nx + 1
        e = float(r.random())
        W = np.hstack([np.eye(nx) * (1 - e), np.full((nx, 1), e)])
    W = W / W.sum(axis=1, keepdims=True)
    D = komm.DiscreteMemorylessChannel(W)
    px = big_pmf(r, nx)
    m.note(nx=nx, ny=ny, t=t, px=px)
    lg = lambda a: np.log(np.where(a > 0, a, 1))
    py = px @ W
    I = float((px[:, None] * W * (lg(W) - lg(py)[None])).sum())
    m.close(float(D.mutual_information(px, math.e)), I, "mutual information", 1e-9, 1e-12)
    m.eq((D.input_cardinality, D.output_cardinality), (nx, ny), "alphabets")
    if t:
        cap = math.log(nx) + float((W[0] * lg(W[0])).sum()) if t == 1 else (1 - e) * math.log(nx)
        m.close(float(D.capacity(math.e)), cap, "capacity of a symmetric channel", 1e-7, 1e-9)
    else:
        m.ok(float(D.capacity(math.e)) >= I - 1e-9, "capacity is at least any mutual information")


@section("C02", 24, 200, scaled=False)
def transmissions_large(m, r, i):
    n = int(r.integers(20000, 60000))
    nx, ny = int(r.integers(2, 30)), int(r.integers(2, 40))
    W = r.dirichlet(np.full(ny, 0.5), size=nx)
    W[r.random(W.shape) < 0.3] = 0
    W[:, 0] += W.sum(axis=1) == 0
    W /= W.sum(axis=1, keepdims=True)
    x = r.integers(0, nx, size=n)
    m.note(W=W, n=n)
    y = np.asarray(komm.DiscreteMemorylessChannel(W, rng=np.random.default_rng(int(r.integers(0, 2**31)))).transmit(x))
    m.shape(y, (n,), "shape")
    N = np.zeros((nx, ny), int)
    np.add.at(N, (x, y), 1)
    m.ok(not N[W == 0].any(), "impossible outputs never occur")
    T = N.sum(axis=1, keepdims=True)
    sd = np.sqrt(T * W * (1 - W))
    m.ok(np.all(np.abs(N - T * W) <= 7 * sd + 5), lambda: f"frequencies: worst {np.max(np.abs(N - T * W) / (sd + 1)):.2f} sigma")
    # one symbol alone, late positions too: halves agree in distribution
    h = n // 2
    A, B = np.zeros((nx, ny), int), np.zeros((nx, ny), int)
    np.add.at(A, (x[:h], y[:h]), 1)
    np.add.at(B, (x[h:], y[h:]), 1)
    for K in (A, B):
        T = K.sum(axis=1, keepdims=True)
        m.ok(np.all(np.abs(K - T * W) <= 7 * np.sqrt(T * W * (1 - W)) + 5), "frequencies in each half")
    p = float(r.uniform(0.01, 0.99))
    b = r.integers(0, 2, size=n)
    e = np.asarray(komm.BinarySymmetricChannel(p, rng=np.random.default_rng(int(r.integers(0, 2**31)))).transmit(b)) ^ b
    for K in (e, e[:h], e[h:], e[b == 0], e[b == 1]):
        m.ok(abs(K.sum() - len(K) * p) <= 7 * math.sqrt(len(K) * p * (1 - p)) + 1, "flip frequency")
    # the other channels, arguments unchanged
    rng = lambda: np.random.default_rng(int(r.integers(0, 2**31)))
    b = b.astype(r.choice([np.int64, np.int8, np.uint8, np.int32])).reshape((n,) if n % 2 else (2, n // 2))
    keep = b.copy()
    y = np.asarray(komm.BinaryErasureChannel(p, rng=rng()).transmit(b))
    m.arr(b, keep, "the erasure channel leaves its input alone")
    m.shape(y, keep.shape, "erasure channel shape")
    m.ok(np.all((y == 2) | (y == keep)), "erasure channel: the bit or an erasure")
    y, f = y.reshape(-1) == 2, keep.reshape(-1)
    for K in (y, y[:h], y[h:], y[f == 0], y[f == 1]):
        m.ok(abs(K.sum() - len(K) * p) <= 7 * math.sqrt(len(K) * p * (1 - p)) + 1, "erasure frequency")
    y = np.asarray(komm.ZChannel(p, rng=rng()).transmit(b))
    m.arr(b, keep, "the Z channel leaves its input alone")
    m.shape(y, keep.shape, "Z channel shape")
    y = y.reshape(-1)
    m.ok(not y[f == 0].any(), "the Z channel never changes a zero")
    for K in (y[f == 1] == 0, y[:h][f[:h] == 1] == 0, y[h:][f[h:] == 1] == 0):
        m.ok(abs(K.sum() - len(K) * p) <= 7 * math.sqrt(len(K) * p * (1 - p)) + 1, "decay frequency")


@section("I01", 80, 800, scaled=False)
def entropies_large(m, r, i):
    S = logint(r, 50, 20000)
    p, q = big_pmf(r, S), big_pmf(r, S)
    if i % 3 == 0:
        p = np.where(r.random(S) < 0.5, 0, p)
        p[0] += p.sum() == 0
        p /= p.sum()
    m.note(S=S)
    lg = lambda a: np.log(np.where(a > 0, a, 1))
    m.close(float(komm.entropy(p, math.e)), math.fsum((-p * lg(p)).tolist()), "entropy", 1e-10)
    m.close(float(komm.relative_entropy(p, q, math.e)), math.fsum((p * (lg(p) - lg(q))).tolist()), "relative entropy", 1e-9, 1e-11)
    m.close(float(komm.entropy(np.full(S, 1 / S))), math.log2(S), "uniform entropy", 1e-9)
    q[int(r.choice(np.flatnonzero(p > 0)))] = 0
    q /= q.sum()
    m.eq(float(komm.relative_entropy(p, q)), math.inf, "support not covered")


# ---------------------------------------------------------------- M
@section("M01", 80, 800, scaled=False)
def chains_large(m, r, i):
    n = logint(r, 15, 160)
    A = rand_graph(r, n)
    if i % 5 == 1:  # one long cycle whose only chord joins states of high (or low) index
        A = np.roll(np.eye(n, dtype=bool), 1, axis=1)
        A[n - 1 - int(r.integers(0, 4)), int(r.integers(0, n))] = True
        if r.integers(0, 2):
            A = A[::-1, ::-1]
    elif i % 3 == 0:  # sparse: long cycles, periods up to large values
        A = np.zeros((n, n), bool)
        p, pos = r.permutation(n), 0
        while pos < n:
            k = min(n - pos, int(r.integers(1, max(2, n // 2))))
            c = p[pos:pos + k]
            A[c, np.roll(c, -1)] = True
            pos += k
        for _ in range(int(r.integers(0, 3))):
            A[int(r.integers(0, n)), int(r.integers(0, n))] = True
    P = A / A.sum(axis=1, keepdims=True)
    if r.integers(0, 3) == 0:
        P = tiny(r, P)
    m.note(graph=np.argwhere(A))
    c = komm.MarkovChain(P)
    R = closure(A)
    C = R & R.T
    classes = {frozenset(np.flatnonzero(C[s]).tolist()) for s in range(n)}
    trans = {s for s in range(n) if (R[s] & ~R[:, s]).any()}
    per = [_period(A, C[s], s) for s in range(n)]
    ab = {s for s in range(n) if A[s, s] and A[s].sum() == 1}
    q = [lambda: m.eq({frozenset(x) for x in c.communicating_classes()}, classes, "communicating classes"),
         lambda: m.eq(set(c.transient_states()), trans, "transient states"),
         lambda: m.eq(set(c.recurrent_states()), set(range(n)) - trans, "recurrent states"),
         lambda: m.eq(set(c.absorbing_states()), ab, "absorbing states"),
         lambda: m.eq(c.is_irreducible(), len(classes) == 1, "is_irreducible"),
         lambda: m.eq(c.is_absorbing(), bool(ab) and all(R[s, sorted(ab)].any() for s in range(n)), "is_absorbing"),
         lambda: m.eq([c.period(s) for s in range(n)], per, "periods"),
         lambda: m.eq(c.is_aperiodic(), all(p == 1 for p in per), "is_aperiodic"),
         lambda: m.eq(c.is_regular(), len(classes) == 1 and per[0] == 1, "is_regular"),
         lambda: m.eq(set(c.accessible_states_from(n - 1)), set(np.flatnonzero(R[n - 1]).tolist()), "accessible states")]
    for j in r.permutation(len(q)):
        q[int(j)]()
    m.tag(f"period>1={max(per) > 1} irreducible={len(classes) == 1}")


def _period(A, cls, s):
    """gcd of level differences along the edges of the class (0 for a state that never returns)."""
    if not (A[s] & cls).any():
        return 0
    lev, todo, g = {s: 0}, [s], 0
    while todo:
        a = todo.pop()
        for b in np.flatnonzero(A[a] & cls).tolist():
            if b in lev:
                g = math.gcd(g, lev[a] + 1 - lev[b])
            else:
                lev[b] = lev[a] + 1
                todo.append(b)
    return abs(g)


@section("M01", 20, 150, scaled=False)
def primitivity_large(m, r, i):
    n = int(r.integers(8, 26))
    A = np.roll(np.eye(n, dtype=bool), 1, axis=1)
    A[n - 1 if i % 2 else int(r.integers(0, n)), int(r.integers(0, n))] = True  # Wielandt-like: exponents near (n-1)^2 + 1
    if i % 4 == 0:
        A[n - 1, 1] = True
    m.note(graph=np.argwhere(A))
    Q, want = A, None
    for k in range(1, (n - 1) ** 2 + 2):
        if Q.all():
            want = k
            break
        Q = (Q.astype(np.int64) @ A.astype(np.int64)) > 0
    c = komm.MarkovChain(A / A.sum(axis=1, keepdims=True))
    m.eq(c.is_regular(), want is not None, "is_regular")
    if want:
        m.eq(c.index_of_primitivity(), want, "index of primitivity")


@section("M02", 60, 600, scaled=False)
def equations_large(m, r, i):
    n = logint(r, 15, 120)
    A = r.random((n, n)) < 4 / n
    p = r.permutation(n)
    A[p, np.roll(p, 1)] = True
    P = np.where(A, 0.1 + r.random((n, n)), 0)
    P /= P.sum(axis=1, keepdims=True)
    m.note(n=n)
    if i % 2 == 0:
        pi = np.asarray(komm.MarkovChain(P).stationary_distribution())
        m.close(pi @ P, pi, "pi P = pi", 0, 1e-10)
        m.close(pi.sum(), 1.0, "sums to one", 1e-9)
        m.ok(bool(np.all(pi > 0)), "positive")
        return
    na = int(r.integers(1, n // 2))
    ab = np.sort(r.choice(n, size=na, replace=False))
    P[ab] = np.eye(n)[ab]
    P[:, ab[0]] += 0.05 * (P[:, ab[0]] != 1) * (~np.isin(np.arange(n), ab))
    P /= P.sum(axis=1, keepdims=True)
    tr = np.setdiff1d(np.arange(n), ab)
    Q, R = P[np.ix_(tr, tr)], P[np.ix_(tr, ab)]
    c = komm.MarkovChain(P)
    N = np.asarray(c.mean_number_of_visits())
    m.close(N - N @ Q, np.eye(len(tr)), "mean visits solve N (I - Q) = I", 0, 1e-8)
    t = np.asarray(c.mean_time_to_absorption())
    m.close(t, 1 + Q @ t, "mean absorption times solve t = 1 + Q t", 1e-9)
    B = np.asarray(c.absorption_probabilities())
    m.close(B, R + Q @ B, "absorption probabilities solve B = R + Q B", 0, 1e-10)
    m.close(B.sum(axis=1), np.ones(len(tr)), "absorption is certain", 1e-9)


@section("M03", 50, 500, scaled=False)
def simulate_large(m, r, i):
    S = logint(r, 20, 800)
    p = big_pmf(r, S)
    if i % 2:
        p = np.where(r.random(S) < 0.4, 0, p)
        p[0] += 0.05
        p /= p.sum()
    seed = int(r.integers(0, 2**31))
    m.note(S=S, seed=seed)
    src = komm.DiscreteMemorylessSource(p, rng=np.random.default_rng(seed))
    n = 40000
    x = np.asarray(src.emit((200, n // 200) if i % 3 else n))
    m.shape(x, (200, n // 200) if i % 3 else (n,), "shape")
    N = np.bincount(x.reshape(-1), minlength=S)
    m.ok(len(N) == S and not N[p == 0].any(), "only symbols of positive probability")
    m.ok(np.all(np.abs(N - n * p) <= 7 * np.sqrt(n * p * (1 - p)) + 4), "frequencies")
    k = logint(r, 15, 60)
    A = rand_graph(r, k)
    P = weights(r, A)
    c = komm.MarkovChain(P, rng=np.random.default_rng(seed))
    L = 6000
    s0 = int(r.integers(0, k))
    y = np.asarray(c.simulate(s0, L))
    m.eq((len(y), int(y[0])), (L, s0), "length and initial state")
    m.ok(np.all(P[y[:-1], y[1:]] > 0), "only positive-probability transitions")
    T = np.zeros((k, k), int)
    np.add.at(T, (y[:-1], y[1:]), 1)
    n1 = T.sum(axis=1, keepdims=True)
    m.ok(np.all(np.abs(T - n1 * P) <= 7 * np.sqrt(n1 * P * (1 - P)) + 4), "transition frequencies")


# ---------------------------------------------------------------- Q, S, U
@section("Q01", 100, 1000, scaled=False)
def quantize_large(m, r, i):
    L = logint(r, 20, 3000)
    v = np.sort(r.normal(size=2 * L - 1)) * 10.0 ** r.uniform(-3, 4)
    if i % 2:
        lev, th = v[0::2], v[1::2]
        q = komm.ScalarQuantizer(lev, th)
        m.note(levels=lev, thresholds=th)
    else:
        st = float(10.0 ** r.uniform(-3, 3))
        off = float(r.choice([0.0, 0.5, 3.25]))
        q = komm.UniformQuantizer(L, st, off)
        m.note(L=L, step=st, offset=off)
        lev = (np.arange(L) - (L - 1) / 2 + off) * st
        th = (lev[1:] + lev[:-1]) / 2
        m.close(q.levels, lev, "levels", 1e-12, 1e-12 * st * L)
        m.close(q.thresholds, th, "thresholds", 1e-12, 1e-12 * st * L)
        lev, th = np.asarray(q.levels), np.asarray(q.thresholds)
    sh = [(5000,), (50, 60), (10, 20, 15)][int(r.integers(0, 3))]
    w = lev[-1] - lev[0]
    x = r.uniform(lev[0] - w / 4, lev[-1] + w / 4, size=sh)
    x.flat[::7] = th[r.integers(0, len(th), size=x.flat[::7].size)]
    x.flat[3::11] = lev[r.integers(0, L, size=x.flat[3::11].size)]
    if r.integers(0, 2):
        x = np.sort(x, axis=None).reshape(sh)
    d = np.searchsorted(th, x, side="right")
    m.arr(np.asarray(q.digitize(x)), d, "digitize")
    m.arr(np.asarray(q.quantize(x)), lev[d], "quantize")


@section("S01", 12, 80, scaled=False)
def lfsr_large(m, r, i):
    n = int(r.integers(11, 17))
    p = 1 << n | 1 | int(r.integers(0, 1 << n)) & ~1
    start = int(r.integers(1, 1 << n))
    s = komm.LFSRSequence(p, start) if i % 2 else komm.LFSRSequence.maximum_length_sequence(n, start)
    p = int(s.feedback_polynomial)
    m.note(p=bin(p), start=start)
    b = np.asarray(s.bit_sequence, int)
    m.eq(len(b), (1 << n) - 1, "length")
    m.eq(b[:n], [(start >> (n - 1 - k)) & 1 for k in range(n)], "first bits are the start state")
    acc = np.zeros(len(b) - n, int)
    from .p_seq import taps_of
    for j in taps_of(p):
        acc ^= b[n - j:len(b) - j]
    m.arr(b[n:], acc, "recurrence")
    if i % 2 == 0:
        m.eq(int(b.sum()), 1 << (n - 1), "balanced")
        f = np.fft.ifft(np.abs(np.fft.fft(1 - 2.0 * b)) ** 2).real.round().astype(int)
        m.eq(sorted(set(f.tolist())), [-1, len(b)], "two-valued cyclic autocorrelation")


@section("S02", 40, 300, scaled=False)
def spread_large(m, r, i):
    L = 1 << int(r.integers(9, 13))
    o = "natural" if i % 2 else "sequency"
    j = int(r.integers(0, L))
    m.note(L=L, ordering=o, index=j)
    x = np.asarray(komm.WalshHadamardSequence(length=L, ordering=o, index=j).polar_sequence)
    k = np.arange(L)
    pc = np.array([bin(a & j).count("1") & 1 for a in k])
    if o == "natural":
        m.arr(x, 1 - 2 * pc, "Sylvester row")
    else:
        m.eq(int((np.diff(x) != 0).sum()), j, "sign changes")
        f = x.astype(int).copy()  # Walsh-Hadamard transform: a single non-zero coefficient
        h = 1
        while h < L:
            f = f.reshape(-1, 2, h)
            f = np.stack([f[:, 0] + f[:, 1], f[:, 0] - f[:, 1]], axis=1).reshape(-1)
            h *= 2
        m.eq(sorted(np.abs(f).tolist())[-2:], [0, L], "row of the Hadamard matrix")
    N = logint(r, 200, 5000) | 1
    u = int(r.integers(1, N))
    z = komm.ZadoffChuSequence(length=N, root_index=u) if math.gcd(u, N) == 1 else None
    if z is not None:
        m.note(N=N, root=u)
        s = np.asarray(z.sequence)
        k = np.arange(N).astype(object)
        ph = np.array([float(Fraction(int(u * a * (a + 1) % (2 * N)), 2 * N)) for a in k])
        m.close(s, np.exp(-2j * np.pi * ph), "samples", 0, 1e-7)
        R = np.fft.ifft(np.abs(np.fft.fft(s)) ** 2)
        m.close(np.abs(R[1:]), np.zeros(N - 1), "zero autocorrelation", 0, 1e-6 * N)


@section("S03", 60, 600, scaled=False)
def correlations_large(m, r, i):
    L = logint(r, 200, 3000)
    x = r.normal(size=L) + (1j * r.normal(size=L) if i % 2 else 0)
    if i % 4 == 2:
        x = r.integers(-3, 4, size=L)
    sh = np.concatenate([np.arange(-5, 6), r.integers(-L - 5, L + 6, size=20), [L - 1, L, 1 - L, -L]])
    m.note(L=L, x=x, shifts=sh)
    E = float((np.abs(x) ** 2).sum())

    def ac(k, cyc):
        if cyc:
            return (x * np.conj(np.roll(x, k))).sum()
        if abs(k) >= L:
            return 0
        return (x[k:] * np.conj(x[:L - k])).sum() if k >= 0 else (x[:L + k] * np.conj(x[-k:])).sum()
    for fn, cyc in ((komm.autocorrelation, False), (komm.cyclic_autocorrelation, True)):
        want = np.array([ac(int(k), cyc) for k in sh])
        m.close(np.asarray(fn(x, sh)), want, fn.__name__, 1e-9, 1e-9 * E)
        m.close(np.asarray(fn(x, sh, normalized=True)), want / E, f"{fn.__name__}, normalised", 1e-9, 1e-9)
        full = np.asarray(fn(x))
        m.close(full[:11], np.array([ac(k, cyc) for k in range(11)]), f"{fn.__name__}, default shifts", 1e-9, 1e-9 * E)


@section("U01", 80, 800, scaled=False)
def bits_large(m, r, i):
    n = logint(r, 200, 20000)
    w = int(r.integers(1, 63)) if n > 500 else logint(r, 64, 3000)
    n = min(n, 400) if w > 63 else n
    order = ["LSB-first", "MSB-first"][i % 2]
    vals = [int.from_bytes(r.bytes((w + 7) // 8), "little") & ((1 << w) - 1) for _ in range(n)]
    x = np.array(vals, dtype=object if w > 63 else int)
    m.note(w=w, n=n, order=order, head=vals[:5])
    b = np.asarray(komm.int_to_bits(x, w, order), int)
    m.shape(b, (n, w), "shape")
    want = np.array([list(map(int, bin(v)[2:].zfill(w))) for v in vals])
    m.arr(b if order == "MSB-first" else b[:, ::-1], want, "int_to_bits")
    m.eq([int(v) for v in komm.bits_to_int(b, order)], vals, "bits_to_int")


@section("U02", 80, 800, scaled=False)
def signals_large(m, r, i):
    sh = [(logint(r, 300, 5000),), (7, 400), (400, 7), (3, 5, 130)][i % 4]
    a = r.normal(size=sh) + (1j * r.normal(size=sh) if r.integers(0, 2) else 0)
    ax = int(r.integers(-a.ndim, a.ndim))
    h = r.normal(size=logint(r, 5, 500))
    mode = ["full", "same", "valid"][int(r.integers(0, 3))]
    m.note(shape=sh, axis=ax, taps=len(h), mode=mode)
    if mode != "valid" or len(h) <= a.shape[ax]:
        got = np.asarray(komm.convolve(a, h, axis=ax, mode=mode))
        want = np.apply_along_axis(lambda t: np.convolve(t, h, mode), ax, a)
        if (mode != "same" or len(h) <= a.shape[ax]):
            m.close(got, want, "convolution", 1e-8, 1e-8 * np.abs(h).sum())
    f, off = int(r.integers(2, 40)), 0
    off = int(r.integers(0, f))
    e = np.asarray(komm.sampling_rate_expand(a, f, off, axis=ax))
    z = np.moveaxis(e, ax, -1)
    m.arr(z[..., off::f], np.moveaxis(a, ax, -1), "expansion keeps the samples")
    m.eq(int(np.count_nonzero(z)), int(np.count_nonzero(a)), "zeros elsewhere")
    m.arr(np.asarray(komm.sampling_rate_compress(a, f, off, axis=ax)), np.moveaxis(np.moveaxis(a, ax, -1)[..., off::f], -1, ax), "compression")


# ---------------------------------------------------------------- X02: many blocks at once
@section("X02", 32, 320, scaled=False)
def many_blocks(m, r, i):
    """Thousands of blocks in one call equal block-by-block results on sampled blocks."""
    t = i % 6
    n = logint(r, 500, 4000)
    if t == 0:
        c = komm.HammingCode(int(r.integers(2, 5)))
        f, k, o = c.encode, c.dimension, c.length
    elif t == 1:
        c = komm.BCHCode(4, int(r.choice([3, 5, 7])))
        d = komm.BerlekampDecoder(c)
        n = min(n, 600)
        f, k, o = d.decode, c.length, c.dimension
    elif t == 2:
        c = komm.GolayCode()
        d = komm.SyndromeTableDecoder(c) if r.integers(0, 2) else komm.ExhaustiveSearchDecoder(c)
        n = min(n, 700)
        f, k, o = d.decode, c.length, c.dimension
    elif t == 3:
        c = komm.SystematicBlockCode(r.integers(0, 2, size=(4, 3)))
        f, k, o = c.check, c.length, c.redundancy
    elif t == 4:
        c = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o7, 0o5]]), 5)
        n = min(n, 500)
        f, k, o = c.encode, c.dimension, c.length
    else:
        c = komm.ReflectedLabeling(4)
        f, k, o = c.bits_to_indices, 4, 1
    x = r.integers(0, 2, size=(n, k))
    m.note(object=repr(c)[:80], n=n, x=x)
    y = np.asarray(f(x.reshape(-1)))
    m.shape(y, (n * o,), "shape")
    z = np.asarray(f(x))
    m.arr(z.reshape(-1), y, "rows equal the flat call")
    y = y.reshape(n, o)
    for j in list(r.integers(0, n, size=12)) + [0, n - 1]:
        m.arr(np.asarray(f(x[j])).reshape(-1), y[j], f"block {j}")


# ---------------------------------------------------------------- constellations in other units
def scaled_pair(r, s):
    """The same constellation in two units that differ by the factor s."""
    t = int(r.integers(0, 10))
    M, p = int(r.integers(2, 17)), float(r.choice([0.0, 0.125, 0.3]))
    a, b = float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2))
    o = (int(r.integers(2, 6)), int(r.integers(2, 6)))
    K = komm
    f = [lambda u: K.PAMConstellation(M, a * u), lambda u: K.ASKConstellation(M, a * u, p), lambda u: K.PSKConstellation(M, a * u, p),
         lambda u: K.APSKConstellation(o, (a * u, (a + b) * u), p), lambda u: K.QAMConstellation(o, (a * u, b * u), p),
         lambda u: K.CrossQAMConstellation(32, a * u, p), lambda u: K.OrthogonalConstellation(M, a * u),
         lambda u: K.BiorthogonalConstellation(2 * M, a * u), lambda u: K.SimplexConstellation(M, a * u)]
    if t == 9:
        X = r.normal(size=(M, o[0])) + (1j * r.normal(size=(M, o[0])) if r.integers(0, 2) else 0)
        return K.Constellation(X), K.Constellation(X * s)
    return f[t](1.0), f[t](s)


def unit(r):
    return float(10.0 ** r.uniform(*[(-14, -4), (-40, -14), (4, 14), (14, 40)][int(r.integers(0, 4))]))


@section("K02", 160, 1600, scaled=False)
def other_units(m, r, i):
    s = unit(r)
    C, D = scaled_pair(r, s)
    m.note(con=repr(D)[:200], scale=s)
    X = np.asarray(C.matrix)
    amp = float(np.abs(X).max())
    m.close(np.asarray(D.matrix) / s, X, "points scale", 1e-9, 1e-12 * amp)
    m.close(D.minimum_distance() / s, C.minimum_distance(), "minimum distance scales", 1e-9, 1e-12)
    p = big_pmf(r, len(X))
    for q in (None, p):
        a = () if q is None else (q,)
        m.close(np.asarray(D.mean(*a)) / s, C.mean(*a), "mean scales", 1e-9, 1e-11 * amp)
        m.close(D.mean_energy(*a) / s / s, C.mean_energy(*a), "mean energy scales", 1e-9)


@section("K01", 120, 1200, scaled=False)
def detect_other_units(m, r, i):
    s = unit(r)
    C, D = scaled_pair(r, s)
    X = np.asarray(C.matrix)
    M, N = X.shape
    m.note(con=repr(D)[:200], scale=s)
    idx = r.integers(0, M, size=int(r.integers(1, 40)))
    y = np.asarray(C.indices_to_symbols(idx))
    m.close(np.asarray(D.indices_to_symbols(idx)) / s, y, "mapping scales", 1e-9, 1e-12)
    m.arr(np.asarray(D.closest_indices(D.indices_to_symbols(idx))), idx, "noiseless detection")
    z = (y + r.normal(size=y.shape) * 0.7 + (1j * r.normal(size=y.shape) if np.iscomplexobj(y) else 0)).reshape(-1, N)
    dist = np.sort(np.linalg.norm(z[:, None, :] - X[None], axis=2), axis=1)
    z = z[dist[:, 1] - dist[:, 0] > 1e-7]
    if len(z):
        best = np.argmin(np.linalg.norm(z[:, None, :] - X[None], axis=2), axis=1)
        m.arr(np.asarray(D.closest_indices(s * z.reshape(-1))), best, "closest index")
        m.close(np.asarray(D.closest_symbols(s * z.reshape(-1))) / s, X[best].reshape(-1), "closest symbol", 1e-9, 1e-12)


@section("K03", 120, 1200, scaled=False)
def posteriors_other_units(m, r, i):
    s = unit(r)
    C, D = scaled_pair(r, s)
    X = np.asarray(C.matrix)
    M, N = X.shape
    p = big_pmf(r, M) if r.integers(0, 2) else None
    npow = float(10.0 ** r.uniform(-2, 1.5))
    m.note(con=repr(D)[:200], scale=s, noise=npow, priors=p)
    n = int(r.integers(1, 20))
    cx = np.iscomplexobj(X)
    z = X[r.integers(0, M, size=n)] + math.sqrt(npow) * (r.normal(size=(n, N)) + (1j * r.normal(size=(n, N)) if cx else 0))
    d2 = (np.abs(z[:, None, :] - X[None]) ** 2).sum(axis=2)
    with np.errstate(divide="ignore"):
        l = -d2 / (npow if cx else 2 * npow) + (np.log(p) if p is not None else 0)
    w = np.exp(l - l.max(axis=1, keepdims=True))
    a = (s * z.reshape(-1), npow * s * s) + (() if p is None else (p,))
    m.close(np.asarray(D.posteriors(*a)).reshape(n, M), w / w.sum(axis=1, keepdims=True), "posteriors", 1e-7, 1e-12)


# ---------------------------------------------------------------- closed forms beyond any enumeration
@section("B02", 40, 300, scaled=False)
def closed_forms_distance(m, r, i):
    n = int(r.integers(1, 20)) if i % 4 == 0 else int(r.integers(60, 72)) if i % 4 == 1 else logint(r, 20, 600)
    m.note(n=n)
    rep, spc = komm.RepetitionCode(n), komm.SingleParityCheckCode(n)
    m.eq([int(x) for x in rep.codeword_weight_distribution()], [1] + [0] * (n - 1) + [1], "repetition code: weight distribution")
    m.eq(rep.minimum_distance(), n, "repetition code: minimum distance")
    m.eq(rep.packing_radius(), (n - 1) // 2, "repetition code: packing radius")
    want = [math.comb(n, w) if w % 2 == 0 else 0 for w in range(n + 1)]
    m.eq([int(x) for x in spc.codeword_weight_distribution()], want, "single parity-check code: weight distribution")
    if n >= 2:
        m.eq(spc.minimum_distance(), 2, "single parity-check code: minimum distance")


@section("B03", 40, 300, scaled=False)
def closed_forms_cosets(m, r, i):
    n = int(r.integers(1, 20)) if i % 4 == 0 else int(r.integers(60, 72)) if i % 4 == 1 else logint(r, 20, 600)
    m.note(n=n)
    rep, spc = komm.RepetitionCode(n), komm.SingleParityCheckCode(n)
    want = [math.comb(n, w) if 2 * w < n else math.comb(n, w) // 2 if 2 * w == n else 0 for w in range(n + 1)]
    ask = [lambda: m.eq([int(x) for x in rep.coset_leader_weight_distribution()], want, "repetition code: coset leader weights"),
           lambda: m.eq(rep.covering_radius(), n // 2, "repetition code: covering radius")]
    for j in r.permutation(2):
        ask[int(j)]()
    m.eq([int(x) for x in spc.coset_leader_weight_distribution()], [1, 1] + [0] * (n - 1), "single parity-check code: coset leader weights")
    m.eq(spc.covering_radius(), 1, "single parity-check code: covering radius")
