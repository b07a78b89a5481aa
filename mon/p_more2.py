"""Further workloads added after planted bugs: wide chains, whole rows of large standard arrays, matrices of other kinds."""
import komm
import numpy as np

from .core import section


# ---------------------------------------------------------------- M01: more than 256 states
def classify(A):
    """Reachability, classes, index of primitivity of a graph, by matrix powers over the integers."""
    n = len(A)
    R = A | np.eye(n, dtype=bool)
    while True:
        S = (R.astype(np.float64) @ R.astype(np.float64)) > 0.5
        if (S == R).all():
            break
        R = S
    Q, index = A, None
    for k in range(1, 4 * n):
        if Q.all():
            index = k
            break
        N = (Q.astype(np.float64) @ A.astype(np.float64)) > 0.5
        if k > 40 and (N == Q).all():
            break
        Q = N
    return R, index


@section("M01", 16, 90, scaled=False)
def wide_chains(m, r, i):
    n = int(r.choice([250, 256, 257, 258, 260, 300, 512, 513]))
    t = i % 3
    if t == 0:  # nearly complete: two-step path counts around 256 and 512
        A = np.ones((n, n), dtype=bool)
        for _ in range(int(r.integers(1, 6))):
            A[int(r.integers(0, n)), int(r.integers(0, n))] = False
        if n > 256 and r.integers(0, 2):
            A[0] = False
            A[0, r.permutation(n)[:256]] = True
    elif t == 1:  # one source and one sink joined by exactly 256 or 512 parallel middle states
        w = 256 if n < 520 and n >= 258 and r.integers(0, 3) else (512 if n > 513 else min(n - 2, 255))
        A = np.zeros((n, n), dtype=bool)
        mid = np.arange(1, w + 1)
        A[0, mid] = True
        A[mid, n - 1] = True
        A[n - 1, 0] = A[n - 1, n - 1] = True
        A[w + 1:n - 1, 0] = True
        if w + 1 == n - 1 or r.integers(0, 2):
            A[0, w + 1:n - 1] = True
    else:
        A = r.random((n, n)) < float(r.choice([0.004, 0.01, 0.5]))
        A[np.arange(n), r.permutation(n)] = True
    m.note(n=n, t=t)
    m.tag(f"wide{t}")
    c = komm.MarkovChain(A / A.sum(axis=1, keepdims=True))
    R, index = classify(A)
    for s in r.integers(0, n, size=4).tolist():
        m.eq(sorted(c.accessible_states_from(s)), np.flatnonzero(R[s]).tolist(), "accessible states")
    if A.sum() > 20 * n:  # the reachability search of the library is cubic on dense graphs
        if index is not None:
            m.eq(c.index_of_primitivity(), index, "index of primitivity")
        return
    both = R & R.T
    m.eq(sorted(map(sorted, c.communicating_classes())), sorted(map(list, {tuple(np.flatnonzero(x).tolist()) for x in both})), "communicating classes")
    m.eq(c.is_irreducible(), bool(R.all()), "is_irreducible")
    if R.all():
        m.eq(c.is_regular(), index is not None, "is_regular")
        if index is not None:
            m.eq(c.index_of_primitivity(), index, "index of primitivity")
            m.eq(c.period(int(r.integers(0, n))), 1, "period")
    m.eq(sorted(c.transient_states()), np.flatnonzero((R & ~R.T).any(axis=1)).tolist(), "transient states")


# ---------------------------------------------------------------- B03: whole rows of a standard array with many columns
@section("B03", 3, 12, scaled=False)
def slepian_rows(m, r, i):
    k, mm = (int(r.integers(9, 13)), int(r.integers(1, 4))) if i % 3 else (17, 1)
    P = r.integers(0, 2, size=(k, mm))
    c = komm.SystematicBlockCode(P)
    s = komm.SlepianArray(c)
    m.note(k=k, m=mm, P=P)
    G, L = np.asarray(c.generator_matrix, int), np.asarray(c.coset_leaders())
    j = np.arange(1 << k)[:, None]
    row = int(r.integers(0, len(L)))
    m.arr(s.row(row), ((j >> np.arange(k) & 1) @ G + L[row]) % 2, "row of the standard array")


# ---------------------------------------------------------------- G01, X05: label matrices given as other kinds of numbers
@section("G01", 40, 400, scaled=False)
def matrix_kinds(m, r, i):
    nb = int(r.integers(1, 5))
    W = (np.arange(1 << nb)[:, None] >> np.arange(nb)) & 1
    W = W[r.permutation(1 << nb)]
    kind = [bool, float, np.uint8, np.int8, object, np.float32, list][i % 7]
    m.note(W=W, kind=str(kind))
    L = komm.Labeling(W.tolist() if kind is list else W.astype(kind))
    idx = r.integers(0, 1 << nb, size=int(r.integers(1, 9)))
    got = np.asarray(L.indices_to_bits(idx))
    m.arr(got, W[idx].ravel(), "bits of the indices")
    m.ok(got.dtype.kind in "iu", lambda: f"bits of a labeling given as {kind} have type {got.dtype}")
    m.arr(L.bits_to_indices(W[idx].ravel()), idx, "indices of the bits")
    M = r.random(1 << nb)
    want = [np.log(M[W[:, b] == 0].sum() / M[W[:, b] == 1].sum()) for b in range(nb)]
    m.close(L.marginalize(M), np.array(want), "marginals", 1e-9, 1e-9)
    m.eq(L.inverse_mapping, {tuple(w.tolist()): a for a, w in enumerate(W)}, "inverse mapping")
