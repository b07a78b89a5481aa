"""Independent reference models (no komm imports): GF(2)[X] on Python ints, GF(2) linear algebra on
row bitmasks, brute-force code enumerations."""
from __future__ import annotations

import functools
import itertools
import math

import numpy as np


# ---------------------------------------------------------------- GF(2)[X]; ints, bit i = coefficient of X^i
def deg(a):
    return a.bit_length() - 1


def pmul(a, b):
    r = 0
    for i in range(b.bit_length()):
        if (b >> i) & 1:
            r ^= a << i
    return r


def pdivmod(a, b):
    q, db = 0, deg(b)
    for s in range(deg(a) - db, -1, -1):
        if (a >> (s + db)) & 1:
            a ^= b << s
            q |= 1 << s
    return q, a


def pmod(a, b):
    return pdivmod(a, b)[1]


def pgcd(a, b):
    while b:
        a, b = b, pmod(a, b)
    return a


def plcm(a, b):
    if a == 0 or b == 0:
        return 0
    return pmul(pdivmod(a, pgcd(a, b))[0], b)


def ppow(a, e):
    r = 1
    for _ in range(e):
        r = pmul(r, a)
    return r


def pmulmod(a, b, m):
    return pmod(pmul(a, b), m)


def ppowmod(a, e, m):
    r, a = pmod(1, m), pmod(a, m)
    for bit in bin(e)[2:]:
        r = pmulmod(r, r, m)
        if bit == "1":
            r = pmulmod(r, a, m)
    return r


@functools.lru_cache(None)
def irreducibles(maxdeg):
    """All irreducible binary polynomials of degree 1..maxdeg, by sieving products."""
    top = 1 << (maxdeg + 1)
    comp = bytearray(top)
    out = []
    for a in range(2, top):
        if comp[a]:
            continue
        out.append(a)
        da = deg(a)
        if 2 * da > maxdeg:
            continue
        for b in range(2, 1 << (maxdeg - da + 1)):
            comp[pmul(a, b)] = 1
    return tuple(out)


def pfactor(a):
    """Factorisation by trial division: list of (irreducible, multiplicity)."""
    out = []
    d = 1
    while deg(a) > 0:
        found = False
        for f in irreducibles(min(14, max(1, deg(a) // 2))):
            if 2 * deg(f) > deg(a):
                break
            e = 0
            while True:
                q, r = pdivmod(a, f)
                if r:
                    break
                a, e = q, e + 1
            if e:
                out.append((f, e))
                found = True
                break
        if not found:
            if deg(a) > 0:
                out.append((a, 1))
            break
    return sorted(out)


def pirreducible(a):
    d = deg(a)
    if d < 1:
        return False
    if d > 20:  # no factor of degree up to d / 2: gcd with every X^(2^k) + X
        h = 2
        for _ in range(d // 2):
            h = pmulmod(h, h, a)
            if pgcd(a, h ^ 2) != 1:
                return False
        return True
    return all(pmod(a, f) for f in irreducibles(max(1, deg(a) // 2)) if 2 * deg(f) <= deg(a))


def factor_int(n):
    out, p = set(), 2
    while p * p <= n:
        while n % p == 0:
            out.add(p)
            n //= p
        p += 1
    if n > 1:
        out.add(n)
    return out


def pprimitive(a):
    if not pirreducible(a) or a == 2:
        return False
    n = (1 << deg(a)) - 1
    return all(ppowmod(2, n // q, a) != 1 for q in factor_int(n))


def divisors_xn1(n):
    """All divisors of X^n + 1."""
    ds = [1]
    for f, e in pfactor((1 << n) | 1):
        ds = [pmul(d, ppow(f, k)) for d in ds for k in range(e + 1)]
    return sorted(set(ds))


# ---------------------------------------------------------------- GF(2) vectors and matrices
def v2i(v):
    return sum(1 << i for i, x in enumerate(v) if int(x) & 1)


def i2v(x, n):
    return np.array([(x >> i) & 1 for i in range(n)], dtype=int)


def rows2i(M):
    return [v2i(r) for r in np.atleast_2d(np.asarray(M))]


def rank(M):
    """Rank over GF(2) (M: 2-D array or list of ints)."""
    rows = [r for r in (M if isinstance(M, list) else [v2i(r) for r in M])]
    rk = 0
    while rows:
        p = rows.pop()
        if p:
            rk += 1
            low = p & -p
            rows = [r ^ p if r & low else r for r in rows]
    return rk


def span(rows):
    """Set of all combinations (ints)."""
    s = {0}
    for r in rows:
        if r not in s:
            s |= {x ^ r for x in s}
    return s


def nullspace(M, n):
    """Basis (as 0/1 array) of {v : M v = 0}, M with n columns; own elimination on columns."""
    M = np.asarray(M, dtype=int).reshape(-1, n) % 2
    A = M.copy()
    piv, r = [], 0
    for c in range(n):
        rows = [i for i in range(r, A.shape[0]) if A[i, c]]
        if not rows:
            continue
        A[[r, rows[0]]] = A[[rows[0], r]]
        for i in range(A.shape[0]):
            if i != r and A[i, c]:
                A[i] ^= A[r]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    N = np.zeros((len(free), n), dtype=int)
    for k, c in enumerate(free):
        N[k, c] = 1
        for i, p in enumerate(piv):
            N[k, p] = A[i, c]
    return N


def all_words(n):
    """All binary n-tuples, LSB-first order (row i = bits of i)."""
    return ((np.arange(1 << n)[:, None] >> np.arange(n)[None, :]) & 1).astype(int)


def codebook(G):
    """All codewords in LSB-first message order."""
    G = np.asarray(G)
    return all_words(G.shape[0]) @ G % 2


def weight_distribution(words, n):
    d = [0] * (n + 1)
    for w in np.asarray(words).sum(axis=1):
        d[int(w)] += 1
    return d


def coset_min_weights(H):
    """Minimum weight per syndrome (index LSB-first), by enumerating all words in weight order."""
    H = np.asarray(H)
    m, n = H.shape
    cols = [v2i(H[:, j]) for j in range(n)]
    best = {0: 0}
    w = 0
    frontier = {0}
    # BFS on the Cayley graph of syndromes
    while len(best) < (1 << m):
        w += 1
        nxt = set()
        for s in frontier:
            for c in cols:
                t = s ^ c
                if t not in best:
                    best[t] = w
                    nxt.add(t)
        if not nxt:
            break
        frontier = nxt
    return best


def rand_full_rank(r, k, n):
    """Random k x n full-row-rank binary matrix."""
    while True:
        M = r.integers(0, 2, size=(k, n))
        if rank([v2i(x) for x in M]) == k:
            return M


def kron_pow(F, mu):
    M = np.array([[1]])
    for _ in range(mu):
        M = np.kron(M, F)
    return M


def logsumexp(xs):
    xs = [x for x in xs if x != -math.inf]
    if not xs:
        return -math.inf
    mx = max(xs)
    if mx == math.inf:
        return math.inf
    return mx + math.log(math.fsum(math.exp(x - mx) for x in xs))
