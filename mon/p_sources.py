"""M01-M03: Markov chains and discrete memoryless sources."""
import itertools
import math

import numpy as np

import komm

from .core import rule, section
from .p_channels import H, lb, rand_base, rand_pmf, zscores

rule("M01", "Random transition graphs (sparse, reducible, periodic, absorbing, permuted block structures, up to 14 states) queried in random "
     "order and repeatedly; oracle: boolean matrix powers.")
rule("M02", "Random irreducible and absorbing chains with scattered state numbers; oracles: residuals of the defining equations and exact "
     "rational elimination; chains of the wrong kind must be refused.")
rule("M03", "Random sources and chains; oracles: support of every transition, exact behaviour of certain transitions, 6-sigma frequency and "
     "independence tests, mean absorption time against the first-step equations.")


def rand_graph(r, n):
    """Boolean adjacency with at least one successor per state."""
    t = int(r.integers(0, 7))
    if t == 0:
        A = r.random((n, n)) < r.uniform(0.05, 0.6)
    elif t == 1:  # cyclic classes
        d = int(r.integers(1, n + 1))
        c = r.integers(0, d, size=n)
        A = (c[None, :] == (c[:, None] + 1) % d) & (r.random((n, n)) < 0.7)
    elif t == 2:  # a cycle plus a chord
        A = np.roll(np.eye(n, dtype=bool), 1, axis=1)
        for _ in range(int(r.integers(0, 3))):
            A[int(r.integers(0, n)), int(r.integers(0, n))] = True
    elif t == 3:  # triangular: absorbing-like
        A = np.triu(r.random((n, n)) < 0.5)
    elif t == 4:  # blocks
        k = int(r.integers(1, n + 1))
        b = r.integers(0, k, size=n)
        A = (b[:, None] == b[None, :]) & (r.random((n, n)) < 0.8)
        if r.integers(0, 2):
            A |= (b[:, None] < b[None, :]) & (r.random((n, n)) < 0.15)
    elif t == 5:  # random walk on a path, with absorbing or reflecting ends
        A = np.zeros((n, n), bool)
        for i in range(n):
            for j in (i - 1, i + 1):
                if 0 <= j < n:
                    A[i, j] = True
        if r.integers(0, 2):
            A[0] = False
            A[0, 0] = True
    else:
        A = np.eye(n, dtype=bool)[r.integers(0, n, size=n)]
    if r.integers(0, 2):
        p = r.permutation(n)
        A = A[np.ix_(p, p)]
    for i in range(n):
        if not A[i].any():
            A[i, i if r.integers(0, 2) else int(r.integers(0, n))] = True
    return A


def weights(r, A):
    n = len(A)
    t = int(r.integers(0, 4))
    P = np.zeros((n, n))
    for i in range(n):
        J = np.flatnonzero(A[i])
        if len(J) == 1:
            P[i, J] = 1.0
            continue
        w = np.ones(len(J)) if t == 0 else (10.0 ** -r.uniform(0, 6, size=len(J)) if t == 1 else 0.02 + r.random(len(J)))
        P[i, J] = w / w.sum()
    return P


def closure(A):
    n = len(A)
    R = np.eye(n, dtype=bool) | A
    for _ in range(n.bit_length() + 1):
        R = (R.astype(int) @ R.astype(int)) > 0
    return R


def facts(A):
    n = len(A)
    R = closure(A)
    comm = R & R.T
    classes = {frozenset(np.flatnonzero(comm[i]).tolist()) for i in range(n)}
    trans = {i for i in range(n) if any(R[i, j] and not R[j, i] for j in range(n))}
    # periods: gcd of return times, from powers up to 3 n
    per = []
    powers = [A]
    for _ in range(3 * n):
        powers.append((powers[-1].astype(int) @ A.astype(int)) > 0)
    for i in range(n):
        g = 0
        for k, Q in enumerate(powers):
            if Q[i, i]:
                g = math.gcd(g, k + 1)
        per.append(g)
    prim = None
    Q = A
    for k in range(1, (n - 1) ** 2 + 2):
        if Q.all():
            prim = k
            break
        Q = (Q.astype(int) @ A.astype(int)) > 0
    return R, classes, trans, per, prim


def tiny(r, P):
    """The same graph with some transition probabilities far below the rounding unit."""
    P = np.array(P, float)
    for s in range(len(P)):
        nz = np.flatnonzero(P[s]).tolist()
        if len(nz) < 2 or r.integers(0, 3) == 0:
            continue
        keep = int(r.choice(nz))
        small = [k for k in nz if k != keep and r.integers(0, 2)]
        big = [k for k in nz if k not in small]
        P[s, big] /= P[s, big].sum()
        for k in small:
            P[s, k] = 10.0 ** -r.uniform(17, 300)
    return P


@section("M01", 700, 15000)
def classification(m, r, i):
    n = int(r.integers(1, 9)) if r.integers(0, 3) else int(r.integers(9, 15))
    A = rand_graph(r, n)
    P = weights(r, A)
    if i % 4 == 0:
        P = tiny(r, P)
    if i % 5 == 0:  # rows that sum to one only approximately
        P = np.array(P, float) * (1 + r.integers(-3, 4, (n, 1)) * 2.0**-52)
    c = komm.MarkovChain(P if r.integers(0, 2) else P.tolist())
    m.note(matrix=P)
    R, classes, trans, per, prim = facts(A)
    absorbing = {i for i in range(n) if A[i].sum() == 1 and A[i, i]}
    is_abs = bool(absorbing) and all(R[i, sorted(absorbing)].any() for i in range(n) if i not in absorbing)
    irr = len(classes) == 1

    def accessible():
        s = int(r.integers(0, n))
        m.eq(set(c.accessible_states_from(s)), set(np.flatnonzero(R[s]).tolist()), f"states accessible from {s}")

    def comm():
        got = c.communicating_classes()
        m.eq({frozenset(k) for k in got}, classes, "communicating classes")
        m.eq(len(got), len(classes), "classes listed once each")

    def period():
        s = int(r.integers(0, n))
        m.eq(c.period(s), per[s], f"period of state {s}")

    def primitivity():
        if prim is None:
            m.refuses(c.index_of_primitivity, "index of primitivity of a chain that is not regular")
        else:
            m.eq(c.index_of_primitivity(), prim, "index of primitivity")

    def mutate():  # what the caller does with a returned set must not change later answers
        for f in (c.transient_states, c.recurrent_states, c.absorbing_states, lambda: c.accessible_states_from(0)):
            f().add(-1)
        for k in c.communicating_classes():
            k.clear()
        c.communicating_classes().clear()

    ops = [accessible, accessible, comm, period, period, primitivity, mutate,
           lambda: m.eq(c.num_states, n, "num_states"),
           lambda: m.arr(c.transition_matrix, P, "transition_matrix"),
           lambda: m.eq(c.is_irreducible(), irr, "is_irreducible"),
           lambda: m.eq(set(c.transient_states()), trans, "transient states"),
           lambda: m.eq(set(c.recurrent_states()), set(range(n)) - trans, "recurrent states"),
           lambda: m.eq(set(c.absorbing_states()), absorbing, "absorbing states"),
           lambda: m.eq(c.is_absorbing(), is_abs, "is_absorbing"),
           lambda: m.eq(c.is_aperiodic(), all(p == 1 for p in per), "is_aperiodic"),
           lambda: m.eq(c.is_regular(), prim is not None, "is_regular")]
    for j in r.permutation(np.repeat(np.arange(len(ops)), 2)):
        ops[int(j)]()
    m.tag("regular", prim is not None)
    m.tag("irreducible", irr)
    m.tag("absorbing", is_abs)
    m.tag("some period above one", any(p > 1 for p in per))


@section("M01", lambda: 2 + 16 + 512, lambda: 2 + 16 + 512 + 20000, exhaustive=True)
def all_small_graphs(m, r, i):
    """Every graph on up to three states (then random four/five-state ones)."""
    n = 1 if i < 2 else 2 if i < 18 else 3 if i < 530 else int(r.integers(4, 6))
    k = i - {1: 0, 2: 2, 3: 18}.get(n, 0)
    A = np.array([(k >> b) & 1 for b in range(n * n)], bool).reshape(n, n) if n < 4 else r.random((n, n)) < 0.35
    m.note(graph=A.astype(int))
    if not A.any(axis=1).all():
        m.trivial()
        m.refuses(lambda: komm.MarkovChain(A.astype(float)), "a row without mass")
        return
    c = komm.MarkovChain(A / A.sum(axis=1, keepdims=True))
    R, classes, trans, per, prim = facts(A)
    m.eq([c.period(s) for s in range(n)], per, "periods")
    m.eq({frozenset(k) for k in c.communicating_classes()}, classes, "communicating classes")
    m.eq(c.transient_states(), trans, "transient states")
    m.eq((c.is_regular(), c.is_irreducible()), (prim is not None, len(classes) == 1), "regular, irreducible")
    if prim:
        m.eq(c.index_of_primitivity(), prim, "index of primitivity")


@section("M01", 60, 500)
def refusals(m, r, i):
    n = int(r.integers(2, 6))
    P = weights(r, rand_graph(r, n))
    m.note(matrix=P)
    B = P.copy()
    B[0] *= 0.9
    m.refuses(lambda: komm.MarkovChain(B), "row that does not sum to one")
    m.refuses(lambda: komm.MarkovChain(P[:-1]), "matrix that is not square")
    m.refuses(lambda: komm.MarkovChain(P[0]), "vector")
    B = P.copy()
    B[0, 0] -= 2
    B[0, 1] += 2
    B[0, 0] = min(B[0, 0], -0.1)
    B[0, 1] += 1 - B[0].sum()
    m.refuses(lambda: komm.MarkovChain(B), "negative probability")


# ---------------------------------------------------------------- equations
def cond_ok(M):
    return len(M) == 0 or np.linalg.cond(M) < 1e7


@section("M02", 800, 15000)
def stationary(m, r, i):
    n = int(r.integers(1, 13))
    A = rand_graph(r, n)
    if r.integers(0, 3):
        p = r.permutation(n)
        A[p, np.roll(p, 1)] = True  # make it irreducible
    P = weights(r, A)
    c = komm.MarkovChain(P)
    m.note(matrix=P)
    irr = bool(closure(A).all())
    if not irr:
        m.refuses(c.stationary_distribution, "stationary distribution of a reducible chain")
        m.tag("reducible refused")
        return
    M = np.hstack((P - np.eye(n), np.ones((n, 1))))
    if not cond_ok(M):
        m.trivial()
        return
    pi = np.asarray(c.stationary_distribution())
    m.shape(pi, (n,), "shape")
    m.close(pi.sum(), 1.0, "sums to one", rtol=1e-8)
    m.ok(bool(np.all(pi > -1e-9)), lambda: f"negative entry in {pi.tolist()}")
    m.close(pi @ P, pi, "pi P = pi", rtol=0, atol=1e-9)
    # independent solution: Grassmann-Taksar-Heyman elimination (no subtractions)
    Q = P.copy()
    for k in range(n - 1, 0, -1):
        s = Q[k, :k].sum()
        Q[:k, k] /= s
        Q[:k, :k] += np.outer(Q[:k, k], Q[k, :k])
    x = np.zeros(n)
    x[0] = 1
    for k in range(1, n):
        x[k] = x[:k] @ Q[:k, k]
    m.close(pi, x / x.sum(), "stationary distribution", rtol=0, atol=1e-8)
    pi2 = np.array(pi)
    if pi.flags.writeable:
        pi[:] = -1
        m.arr(komm.MarkovChain(P).stationary_distribution(), pi2, "another chain with the same matrix")


def rand_absorbing(r):
    n = int(r.integers(2, 8)) if r.integers(0, 2) else int(r.integers(9, 40))
    na = int(r.integers(1, max(2, n // 3) + 1))
    na = min(na, n)
    perm = r.permutation(n)
    ab, tr = sorted(perm[:na].tolist()), sorted(perm[na:].tolist())
    P = np.zeros((n, n))
    for a in ab:
        P[a, a] = 1.0
    order = [int(x) for x in r.permutation(tr)]
    for k, s in enumerate(order):
        w = r.random(n) * (r.random(n) < r.uniform(0.1, 0.9))
        w[s] *= r.integers(0, 2)
        w[ab if k == 0 else order[k - 1]] += 0.05 + r.random()  # guarantees absorption
        P[s] = w / w.sum()
        if P[s, s] == 1:
            P[s, s] = 0.5
            P[s, ab[0]] = 0.5
    return P, ab, tr


@section("M02", 700, 12000)
def absorption(m, r, i):
    P, ab, tr = rand_absorbing(r)
    n = len(P)
    c = komm.MarkovChain(P)
    m.note(matrix=P if n < 9 else f"{n} states seed case {i}", absorbing=ab)
    m.eq(set(c.absorbing_states()), set(ab), "absorbing states")
    m.eq(set(c.transient_states()), set(tr), "transient states")
    Q = P[np.ix_(tr, tr)]
    T = len(tr)
    if not cond_ok(np.eye(T) - Q):
        m.trivial()
        return
    res = {}
    for k in r.permutation(["N", "t", "B", "N", "t", "B"]):
        res[str(k)] = np.array({"N": c.mean_number_of_visits, "t": c.mean_time_to_absorption, "B": c.absorption_probabilities}[str(k)]())
    N, t, B = res["N"], res["t"], res["B"]
    m.shape(N, (T, T), "mean_number_of_visits shape")
    m.shape(t, (T,), "mean_time_to_absorption shape")
    m.shape(B, (T, len(ab)), "absorption_probabilities shape")
    if T == 0:
        return
    m.close(N, np.eye(T) + Q @ N, "visits: first-step equation in increasing state order", rtol=1e-8, atol=1e-9)
    m.close(t, 1 + Q @ t, "time to absorption: first-step equation", rtol=1e-8, atol=1e-9)
    m.close(B, P[np.ix_(tr, ab)] + Q @ B, "absorption probabilities: first-step equation", rtol=1e-8, atol=1e-9)
    m.close(B.sum(axis=1), np.ones(T), "absorbed somewhere", rtol=1e-8)
    m.ok(bool(np.all(N > -1e-9) and np.all(B > -1e-9) and np.all(t >= 1 - 1e-9)), "negative entries")
    if n > 8:
        m.tag("more than eight states")


@section("M02", 300, 4000)
def wrong_kind(m, r, i):
    n = int(r.integers(1, 8))
    A = rand_graph(r, n)
    P = weights(r, A)
    c = komm.MarkovChain(P)
    m.note(matrix=P)
    R = closure(A)
    ab = [i for i in range(n) if A[i].sum() == 1 and A[i, i]]
    good = bool(ab) and all(R[i, ab].any() for i in range(n) if i not in ab)
    if good:
        tr = [i for i in range(n) if i not in ab]
        if cond_ok(np.eye(len(tr)) - P[np.ix_(tr, tr)]):
            m.close(np.asarray(c.absorption_probabilities()).sum(axis=1), np.ones(len(tr)), "absorbed somewhere", rtol=1e-7)
        return
    m.tag("not absorbing: refused")
    for f in (c.mean_number_of_visits, c.mean_time_to_absorption, c.absorption_probabilities, lambda: c.simulate_until_absorption(0)):
        m.refuses(f, "absorption query on a chain that is not absorbing")


# ---------------------------------------------------------------- simulation
@section("M03", 400, 6000)
def source(m, r, i):
    n = int(r.integers(1, 9))
    uni = bool(r.integers(0, 4) == 0)
    p = np.ones(n) / n if uni else rand_pmf(r, n)
    s = komm.DiscreteMemorylessSource(n if uni else (p if r.integers(0, 2) else p.tolist()))
    base = rand_base(r)
    m.note(pmf=p, base=base)
    m.close(s.pmf, p, "pmf", rtol=1e-15)
    m.eq(s.cardinality, n, "cardinality")
    m.close(float(s.entropy_rate(base)), H(p.tolist()) / lb(base), "entropy rate", rtol=1e-9, atol=1e-13 / abs(lb(base)))
    m.close(float(s.entropy_rate()), H(p.tolist()) / math.log(2), "entropy rate in bits", rtol=1e-9, atol=1e-13)
    k = int(r.integers(0, 8))
    shape = [None, 5, (4,), (2, 3), (0,), 0, (), (2, 0, 3)][k]
    x = np.asarray(s.emit() if shape is None else s.emit(shape))
    m.shape(x, [(1,), (5,), (4,), (2, 3), (0,), (0,), (), (2, 0, 3)][k], "shape of the emission")
    m.ok(bool(np.all((x >= 0) & (x < n)) and np.all(p[x.astype(int)] > 0)), lambda: f"emitted {x.tolist()} under {p.tolist()}")
    if i % 8 == 0:
        N = 8000
        x = np.asarray(s.emit(N if r.integers(0, 2) else (40, N // 40))).ravel()
        zscores(m, np.bincount(x, minlength=n), N, p, "symbol frequencies")
        for lag in (1, 2):
            for a in range(n):
                sel = x[:-lag] == a
                if sel.sum() > 300:
                    zscores(m, np.bincount(x[lag:][sel], minlength=n), int(sel.sum()), p, f"law {lag} symbols after symbol {a}")
    if i % 10 == 0:
        for bad in (0, -1, [0.5, 0.6], [-0.5, 1.5], [[0.5, 0.5]], []):
            m.refuses(lambda: komm.DiscreteMemorylessSource(bad), f"pmf {bad}")


@section("M03", 200, 2500)
def chain(m, r, i):
    n = int(r.integers(1, 6))
    A = rand_graph(r, n)
    P = weights(r, A)
    c = komm.MarkovChain(P)
    s0 = int(r.integers(0, n))
    steps = int(r.integers(0, 40)) if i % 5 else 4000
    m.note(matrix=P, start=s0, steps=steps)
    x = np.asarray(c.simulate(s0, steps))
    m.shape(x, (steps,), "length")
    if steps == 0:
        return
    m.eq(int(x[0]), s0, "starts at the initial state")
    m.ok(bool(np.all((x >= 0) & (x < n))), "states in range")
    m.ok(bool(np.all(P[x[:-1], x[1:]] > 0)), lambda: f"impossible transition in {x.tolist()[:60]}")
    if steps == 4000:
        for s in range(n):
            sel = x[:-1] == s
            if sel.sum() >= 100:
                zscores(m, np.bincount(x[1:][sel], minlength=n), int(sel.sum()), P[s], f"transitions out of {s}")
        for s, a in itertools.product(range(n), range(n)):
            sel = (x[1:-1] == s) & (x[:-2] == a)
            if sel.sum() >= 300:
                zscores(m, np.bincount(x[2:][sel], minlength=n), int(sel.sum()), P[s], f"transitions out of {s} after {a}")


@section("M03", 200, 3000)
def absorbed(m, r, i):
    P, ab, tr = rand_absorbing(r)
    n = len(P)
    c = komm.MarkovChain(P)
    s0 = int(r.integers(0, n))
    m.note(matrix=P if n < 9 else n, start=s0)
    Q = np.eye(len(tr)) - P[np.ix_(tr, tr)]
    if not cond_ok(Q):
        m.trivial()
        return
    x = np.asarray(c.simulate_until_absorption(s0))
    m.eq(int(x[0]), s0, "starts at the initial state")
    m.ok(int(x[-1]) in ab and not (set(x[:-1].tolist()) & set(ab)), lambda: f"does not stop at the first absorbing state: {x.tolist()}")
    m.ok(bool(np.all(P[x[:-1], x[1:]] > 0)), "impossible transition")
    if i % 10 == 0 and tr:
        s = int(r.choice(tr))
        k = tr.index(s)
        N = np.linalg.inv(Q)
        t = N.sum(axis=1)
        if t[k] > 60:
            return
        var = (2 * N - np.eye(len(tr))) @ t - t ** 2
        runs = 300
        L, ends = [], []
        for _ in range(runs):
            y = c.simulate_until_absorption(s)
            L.append(len(y) - 1)
            ends.append(int(y[-1]))
        m.ok(abs(np.mean(L) - t[k]) < 6 * math.sqrt(max(var[k], 0) / runs) + 0.2,
             lambda: f"mean absorption time {np.mean(L)} expected {t[k]}")
        B = N @ P[np.ix_(tr, ab)]
        zscores(m, [ends.count(a) for a in ab], runs, np.clip(B[k], 0, 1), "absorbing state frequencies")
