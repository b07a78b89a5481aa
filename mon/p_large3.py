"""Alphabets and machines far wider than any test uses: indices past 16 bits, labelings of 13 to 17 bits."""
import math

import komm
import numpy as np

from .core import section
from .p_large2 import logint, rot


def wide_con(r):
    """A constellation of thousands to hundreds of thousands of points, and its point formula."""
    t = int(r.integers(0, 6))
    d, p = float(r.uniform(0.1, 3)), float(r.choice([0.0, 0.125, 0.3]))
    if t == 0:
        M = logint(r, 1000, 300000)
        return komm.PAMConstellation(M, d), M, lambda j: (j - (M - 1) / 2) * d, d, d * d * (M * M - 1) / 12
    if t == 1:
        M = logint(r, 1000, 300000)
        return komm.ASKConstellation(M, d, p), M, lambda j: d * j * np.exp(2j * np.pi * p), d, d * d * (M - 1) * (2 * M - 1) / 6
    if t == 2:
        M = logint(r, 1000, 300000)
        return komm.PSKConstellation(M, d, p), M, lambda j: d * np.exp(2j * np.pi * (j / M + p)), 2 * d * math.sin(math.pi / M), d * d
    if t == 3:
        s = int(r.choice([64, 128, 256, 512, 181]))
        return (komm.QAMConstellation(s * s, d, p), s * s, lambda j: ((j // s - (s - 1) / 2) + 1j * (j % s - (s - 1) / 2)) * d * np.exp(2j * np.pi * p), d,
                d * d * (s * s - 1) / 6)
    if t == 4:
        a, b = (logint(r, 30, 3000), logint(r, 30, 100)) if r.integers(0, 2) else (int(r.choice([2, 4])), logint(r, 20000, 80000))
        a, b = (a, b) if r.integers(0, 2) else (b, a)
        e = float(r.uniform(0.1, 3))
        return (komm.QAMConstellation((a, b), (d, e), p), a * b, lambda j: ((j // b - (a - 1) / 2) * d + 1j * (j % b - (b - 1) / 2) * e) * np.exp(2j * np.pi * p),
                min(d, e), (d * d * (a * a - 1) + e * e * (b * b - 1)) / 12)
    M = int(r.choice([2048, 8192, 32768]))
    return komm.CrossQAMConstellation(M, d, p), M, None, d, None


@section("K01", 60, 600, scaled=False)
def wide_alphabets(m, r, i):
    C, M, f, dmin, E = wide_con(r)
    m.note(con=repr(C)[:150])
    X = np.asarray(C.matrix).reshape(-1)
    few = isinstance(C, komm.CrossQAMConstellation)
    j = np.concatenate([r.integers(0, M, size=20 if few else 300), [0, M - 1, M // 2, min(M - 1, 32767), min(M - 1, 32768), min(M - 1, 65535), min(M - 1, 65536)]])
    y = np.asarray(C.indices_to_symbols(j))
    m.close(y, X[j] if f is None else f(j), "mapping", 1e-9, 1e-9 * abs(X).max())
    m.arr(np.asarray(C.closest_indices(y)), j, "noiseless detection")
    z = y + (r.uniform(-0.3, 0.3, size=y.shape) * (np.exp(2j * np.pi * r.random(y.shape)) if np.iscomplexobj(X) else 1)) * dmin
    m.arr(np.asarray(C.closest_indices(z)), j, "detection within a third of the minimum distance")
    m.close(np.asarray(C.closest_symbols(z)), y, "closest symbols", 1e-9, 1e-9 * abs(X).max())


@section("K02", 40, 400, scaled=False)
def wide_statistics(m, r, i):
    C, M, f, dmin, E = wide_con(r)
    m.note(con=repr(C)[:150])
    X = np.asarray(C.matrix)
    m.eq((X.shape, C.order, C.dimension), ((M, 1), M, 1), "sizes")
    amp = float(abs(X).max())
    if f is not None:
        m.close(X.reshape(-1), f(np.arange(M)), "points", 1e-9, 1e-9 * amp)
    m.close(C.mean(), X.mean(axis=0), "mean", 1e-9, 1e-9 * amp)
    e = float((abs(X) ** 2).mean())
    m.close(C.mean_energy(), e, "mean energy", 1e-9)
    if E is not None:
        m.close(C.mean_energy(), E, "mean energy formula", 1e-9)
    p = r.dirichlet(np.full(M, 0.5))
    m.close(C.mean(p), p @ X, "mean, priors", 1e-9, 1e-9 * amp)
    m.close(C.mean_energy(p), float(p @ (abs(X[:, 0]) ** 2)), "mean energy, priors", 1e-9)
    if f is not None and not isinstance(C, (komm.PSKConstellation,)):
        m.close(C.minimum_distance(), dmin, "minimum distance", 1e-9)


@section("G01", 8, 60, scaled=False)
def wide_words(m, r, i):
    nb = int(r.integers(13, 17))
    t = i % 4
    M = 1 << nb
    word = lambda v, n: (np.asarray(v)[..., None] >> np.arange(n - 1, -1, -1)) & 1
    gray = lambda v: np.asarray(v) ^ (np.asarray(v) >> 1)
    a = nb // 2
    if t == 0:
        L, f = komm.NaturalLabeling(nb), lambda j: word(j, nb)
    elif t == 1:
        L, f = komm.ReflectedLabeling(nb), lambda j: word(gray(j), nb)
    elif t == 2:
        c = nb - a
        L, f = komm.ReflectedRectangularLabeling((a, c)), lambda j: np.concatenate([word(gray(j >> c), a), word(gray(j & ((1 << c) - 1)), c)], axis=-1)
    else:
        perm = r.permutation(M)
        W = word(perm, nb).astype([np.int8, np.uint8, np.int64][int(r.integers(0, 3))])
        L, f = komm.Labeling(W), lambda j: W[j].astype(int)
    m.note(labeling=repr(L)[:100], kind=t, bits=nb)
    m.eq((L.num_bits, L.cardinality, np.asarray(L.matrix).shape), (nb, M, (M, nb)), "sizes")
    n = 60 if t < 2 else 8
    j = np.concatenate([r.integers(0, M, size=n), [0, M - 1, M // 2, min(M - 1, 32767), min(M - 1, 32768)]])
    b = np.asarray(L.indices_to_bits(j), int)
    m.arr(b, f(j).reshape(-1), "indices_to_bits")
    m.arr(np.asarray(L.bits_to_indices(b)), j, "bits_to_indices")
    m.arr(np.asarray(L.matrix)[j].astype(int), f(j), "matrix rows")
