"""Convolutional-code specifications and their reference model (power series over GF(2))."""
from __future__ import annotations

import itertools

import numpy as np

import komm

from . import ref


class Conv:
    """P: k x n numerator polynomials (ints, bit i = D^i); q: k denominators with q_i(0) = 1."""

    def __init__(self, kind, code, P, q, desc):
        self.kind, self.code, self.P, self.q, self.desc = kind, code, P, q, desc
        self.k, self.n = len(P), len(P[0])
        self.nu = [max([ref.deg(p) for p in row] + [ref.deg(qi), 0]) for row, qi in zip(P, q)]

    def __repr__(self):
        return f"{self.kind}({self.desc})"

    def series(self, u):
        """w_i = u_i / q_i for u of shape (T, k)."""
        T = len(u)
        w = [[0] * T for _ in range(self.k)]
        for i in range(self.k):
            taps = [l for l in range(1, ref.deg(self.q[i]) + 1) if (self.q[i] >> l) & 1]
            for t in range(T):
                x = int(u[t][i]) & 1
                for l in taps:
                    if t >= l:
                        x ^= w[i][t - l]
                w[i][t] = x
        return w

    def encode(self, u):
        """Reference zero-state encoder: u (T*k,) -> (T*n,)."""
        u = np.asarray(u).reshape(-1, self.k)
        T = len(u)
        w = self.series(u)
        v = np.zeros((T, self.n), int)
        for i in range(self.k):
            for j in range(self.n):
                for l in range(self.P[i][j].bit_length()):
                    if (self.P[i][j] >> l) & 1:
                        for t in range(l, T):
                            v[t, j] ^= w[i][t - l]
        return v.reshape(-1)


def poly(r, nu):
    return int(r.integers(0, 1 << (nu + 1)))


def rand_conv(r, max_nu=5, kmax=3, nmax=4, kinds=("ff", "fb", "low", "high"), max_states=64, need_pos_k=True):
    while True:
        kind = kinds[int(r.integers(0, len(kinds)))]
        if kind == "low":
            n = int(r.integers(1, nmax + 1))
            nu = int(r.integers(0, max_nu + 1))
            g = [poly(r, nu) for _ in range(n)]
            c = Conv(kind, komm.LowRateConvolutionalCode(g), [g], [1], str([bin(x) for x in g])) if any(g) else None
        elif kind == "high":
            n = int(r.integers(2, nmax + 1))
            nu = int(r.integers(0, max_nu + 1))
            h = [poly(r, nu) for _ in range(n)]
            h[-1] |= 1
            P = [[h[-1] if j == i else (h[i] if j == n - 1 else 0) for j in range(n)] for i in range(n - 1)]
            c = Conv(kind, komm.HighRateConvolutionalCode(h), P, [h[-1]] * (n - 1), str([bin(x) for x in h]))
            c.h = h
        else:
            k = int(r.integers(1, kmax + 1))
            n = int(r.integers(1 if r.integers(0, 6) == 0 else k, nmax + 1)) if k <= nmax else nmax
            nus = [int(x) for x in r.integers(0, max_nu + 1, size=k)]
            if k == 1:
                nus = [int(r.integers(0, max_nu + 1))]
            P = [[poly(r, nu) for _ in range(n)] for nu in nus]
            q = [1] * k
            if kind == "fb":
                q = [poly(r, nu) | 1 for nu in nus]
            if not any(any(row) for row in P):
                continue
            form = int(r.integers(0, 3))
            Pa = np.array(P) if form == 0 else ([[komm.BinaryPolynomial(x) for x in row] for row in P] if form == 1 else P)
            code = komm.ConvolutionalCode(Pa) if kind == "ff" and r.integers(0, 2) else komm.ConvolutionalCode(
                feedforward_polynomials=Pa, feedback_polynomials=np.array(q) if form == 0 else q)
            c = Conv(kind, code, P, q, f"{[[bin(x) for x in row] for row in P]}, {[bin(x) for x in q]}")
        if c is None:
            continue
        sigma = max(ref.deg(x) for x in c.h) if kind == "high" else sum(c.nu)
        c.sigma = max(sigma, 0)
        if 1 << c.sigma > max_states:
            continue
        return c


def good_codes():
    """Well-known non-catastrophic codes, used where a meaningful code is needed."""
    return [("ff", [[0o7, 0o5]]), ("ff", [[0o17, 0o13]]), ("ff", [[0o7, 0o7, 0o5]]), ("ff", [[3, 2, 3], [2, 1, 1]]),
            ("ff", [[1, 0, 3], [0, 1, 2]]), ("fb", [[0o27, 0o31]], [0o27]), ("fb", [[7, 5]], [7]), ("low", [0o13, 0o17]),
            ("high", [7, 5, 1]), ("high", [0o11, 0o13, 0o15])]


def named_conv(t):
    kind = t[0]
    if kind == "low":
        c = Conv(kind, komm.LowRateConvolutionalCode(t[1]), [t[1]], [1], str(t[1]))
        c.sigma = c.nu[0]
    elif kind == "high":
        h = t[1]
        n = len(h)
        P = [[h[-1] if j == i else (h[i] if j == n - 1 else 0) for j in range(n)] for i in range(n - 1)]
        c = Conv(kind, komm.HighRateConvolutionalCode(h), P, [h[-1]] * (n - 1), str(h))
        c.h = h
        c.sigma = max(ref.deg(x) for x in h)
    else:
        q = t[2] if len(t) > 2 else [1] * len(t[1])
        c = Conv(kind, komm.ConvolutionalCode(t[1], q), t[1], q, f"{t[1]}, {q}")
        c.sigma = sum(c.nu)
    return c


def any_conv(r, **kw):
    if r.integers(0, 3) == 0:
        g = good_codes()
        return named_conv(g[int(r.integers(0, len(g)))])
    return rand_conv(r, **kw)


def smith_minors_gcd(P, n):
    """gcd of the k x k minors of a polynomial matrix."""
    k = len(P)

    def det(M):
        if len(M) == 1:
            return M[0][0]
        t = 0
        for j in range(len(M)):
            if M[0][j]:
                t ^= ref.pmul(M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]]))
        return t
    g = 0
    for J in itertools.combinations(range(n), k):
        g = ref.pgcd(g, det([[row[j] for j in J] for row in P]))
    return g
