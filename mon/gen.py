"""Workload generators shared by the monitors (the specification data travels with each object)."""
from __future__ import annotations

import numpy as np

import komm

from . import ref

DTYPES = [int, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64, bool]


class Spec:
    """A komm block code plus what the constructor arguments say it must be."""

    def __init__(self, kind, code, n, k, G=None, H=None, desc="", dmin=None):
        self.kind, self.code, self.n, self.k, self.G, self.H, self.desc = kind, code, n, k, G, H, desc
        self.m = n - k

    def space(self):
        """Basis of the code as the specification defines it."""
        return self.G if self.G is not None else ref.nullspace(self.H, self.n)

    def __repr__(self):
        return f"{self.kind}({self.desc})"


def monomials(rho, mu):
    """Reed-Muller rows as evaluations: position j, variable x_i = bit i of j (v_i in LC04 order)."""
    import itertools
    out = []
    for l in range(rho, -1, -1):
        for S in itertools.combinations(range(mu), l):
            out.append([int(all((j >> i) & 1 for i in S)) for j in range(1 << mu)])
    return np.array(out)


def cyclic_params(r, nmax=15, kmax=10, mmax=12):
    while True:
        n = int(r.integers(1, nmax + 1))
        ds = [g for g in ref.divisors_xn1(n) if 1 <= n - ref.deg(g) <= kmax and ref.deg(g) <= mmax]
        if ds:
            return n, int(r.choice(ds))


def cyclic_G(n, g, systematic):
    m = ref.deg(g)
    k = n - m
    rows = []
    for i in range(k):
        if systematic:
            x = (1 << (m + i)) ^ ref.pmod(1 << (m + i), g)
        else:
            x = ref.pmul(1 << i, g)
        rows.append(ref.i2v(x, n))
    return np.array(rows)


KINDS = ["G", "H", "sys", "sysK", "cyc", "cycN", "named"]


def named(r, nmax):
    pool = []
    add = pool.append
    for mu in (2, 3, 4):
        for e in (False, True):
            add(("hamming", mu, e))
            add(("simplex", mu, e))
    for n in range(1, min(nmax, 12) + 1):
        add(("rep", n))
        if n >= 2:
            add(("spc", n))
            add(("cw", n))
    for mu in (1, 2, 3, 4):
        for rho in range(mu):
            add(("rm", rho, mu))
    for n in range(1, 9):
        for d in range(1, n + 1):
            add(("lexi", n, d))
    for mu, d in ((2, 3), (3, 3), (3, 7), (4, 3), (4, 5), (4, 7), (4, 15)):
        add(("bch", mu, d))
    for mu in (1, 2, 3, 4):
        add(("polar", mu))
    return pool[int(r.integers(0, len(pool)))]


def named_spec(t, r):
    k = t[0]
    if k == "hamming":
        c = komm.HammingCode(t[1], extended=t[2])
        n = 2 ** t[1] - 1
        kk = n - t[1]
        return Spec(k, c, n + t[2], kk, G=c.generator_matrix, desc=str(t))
    if k == "simplex":
        c = komm.SimplexCode(t[1], extended=t[2])
        return Spec(k, c, 2 ** t[1] - 1 + t[2], t[1] + t[2], G=c.generator_matrix, desc=str(t))
    if k == "rep":
        return Spec(k, komm.RepetitionCode(t[1]), t[1], 1, G=np.ones((1, t[1]), int), desc=str(t))
    if k == "spc":
        return Spec(k, komm.SingleParityCheckCode(t[1]), t[1], t[1] - 1, H=np.ones((1, t[1]), int), desc=str(t))
    if k == "cw":
        c = komm.CordaroWagnerCode(t[1])
        return Spec(k, c, t[1], 2, G=c.generator_matrix, desc=str(t))
    if k == "rm":
        G = monomials(t[1], t[2])
        return Spec(k, komm.ReedMullerCode(t[1], t[2]), 2 ** t[2], len(G), G=G, desc=str(t))
    if k == "lexi":
        c = komm.Lexicode(t[1], t[2])
        return Spec(k, c, t[1], c.dimension, G=c.generator_matrix, desc=str(t))
    if k == "bch":
        c = komm.BCHCode(t[1], t[2])
        g = int(c.generator_polynomial)
        return Spec(k, c, 2 ** t[1] - 1, 2 ** t[1] - 1 - ref.deg(g), G=cyclic_G(2 ** t[1] - 1, g, True), desc=str(t))
    if k == "polar":
        mu = t[1]
        n = 1 << mu
        kk = int(r.integers(1, min(n, 10) + 1))
        act = np.sort(r.choice(n, size=kk, replace=False))
        fro = np.setdiff1d(np.arange(n), act)
        G = ref.kron_pow(np.array([[1, 0], [1, 1]]), mu)[act]
        return Spec(k, komm.PolarCode(mu, r.permutation(fro)), n, kk, G=G, desc=f"mu={mu}, frozen={fro.tolist()}")
    raise AssertionError(k)


def rand_spec(r, kmax=8, mmax=8, nmax=15, kinds=KINDS):
    """A random block code of positive dimension with 2^k and 2^m enumerable."""
    while True:
        kind = kinds[int(r.integers(0, len(kinds)))]
        if kind in ("G", "H", "sys", "sysK"):
            k = int(r.integers(1, kmax + 1))
            m = int(r.integers(0, mmax + 1))
            n = k + m
            dt = DTYPES[int(r.integers(0, len(DTYPES)))] if r.integers(0, 3) == 0 else int
            if kind == "G":
                G = ref.rand_full_rank(r, k, n)
                if r.integers(0, 4) == 0 and n > 1:  # repeated / zero columns
                    G2 = G.copy()
                    G2[:, int(r.integers(0, n))] = G2[:, int(r.integers(0, n))] * int(r.integers(0, 2))
                    if ref.rank([ref.v2i(x) for x in G2]) == k:
                        G = G2
                return Spec(kind, komm.BlockCode(generator_matrix=G.astype(dt)), n, k, G=G, desc=f"G={G.tolist()} {np.dtype(dt)}")
            if kind == "H":
                if m == 0:
                    continue
                H = ref.rand_full_rank(r, m, n)
                return Spec(kind, komm.BlockCode(check_matrix=H.astype(dt)), n, k, H=H, desc=f"H={H.tolist()} {np.dtype(dt)}")
            P = r.integers(0, 2, size=(k, m))
            if kind == "sys":
                s = ["left", "right"][int(r.integers(0, 2))]
                K = np.arange(k) if s == "left" else np.arange(m, n)
                code = komm.SystematicBlockCode(P.astype(dt), s)
            else:
                K = r.choice(n, size=k, replace=False)
                s = K.tolist()
                code = komm.SystematicBlockCode(P.astype(dt), K)
            M = np.array([j for j in range(n) if j not in set(K.tolist())], dtype=int)
            G = np.zeros((k, n), int)
            G[:, K] = np.eye(k, dtype=int)
            G[:, M] = P
            sp = Spec(kind, code, n, k, G=G, desc=f"P={P.tolist()}, K={s} {np.dtype(dt)}")
            sp.K, sp.M, sp.P = K, M, P
            return sp
        if kind in ("cyc", "cycN"):
            n, g = cyclic_params(r, nmax, kmax, mmax)
            systematic = kind == "cyc"
            if r.integers(0, 2):
                code = komm.CyclicCode(n, generator_polynomial=g, systematic=systematic)
                how = "g"
            else:
                h = ref.pdivmod((1 << n) | 1, g)[0]
                code = komm.CyclicCode(n, check_polynomial=h, systematic=systematic)
                how = "h"
            sp = Spec(kind, code, n, n - ref.deg(g), G=cyclic_G(n, g, systematic), desc=f"n={n}, g={g:#b} via {how}")
            sp.g = g
            return sp
        t = named(r, nmax)
        if t[0] == "lexi" and t[1] - t[2] > kmax:
            continue
        sp = named_spec(t, r)
        if sp.k > kmax or sp.m > mmax or sp.k < 1:
            continue
        return sp


def cast(r, a):
    """The same non-negative integer array in another representation (dtype, list, memory order)."""
    a = np.asarray(a)
    how = int(r.integers(0, 5))
    if how == 0:
        return a.tolist()
    dts = [d for d in DTYPES if d is not bool or (a.size == 0 or a.max() <= 1)]
    b = a.astype(dts[int(r.integers(0, len(dts)))])
    if how == 1 and b.ndim >= 1:
        b = np.ascontiguousarray(b[..., ::-1])[..., ::-1]  # negative strides
    elif how == 2 and b.ndim >= 2:
        b = np.asfortranarray(b)
    return b


def batch_shape(r, maxblocks=3):
    """(leading dims, number of blocks in the last axis)."""
    nd = int(r.integers(0, 3))
    return tuple(int(x) for x in r.integers(1, 4, size=nd)), int(r.integers(1, maxblocks + 1))
