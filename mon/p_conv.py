"""V01-V04: convolutional codes.  F01-F03: finite-state machines."""
import heapq
import itertools
import math

import numpy as np

import komm

from . import gconv, gen, ref
from .core import rule, section

rule("V01", "Random encoders of every form (feedforward, feedback, low-rate, high-rate; memoryless rows included) on random "
     "messages in every representation; oracle is power-series division/multiplication; random chunkings and initial states.")
rule("V02", "Random encoders; state-space, machine and generator matrix simulated from every state (small) or random states "
     "and compared; lengths recomputed from the polynomials.")
rule("V03", "Random full-rank encoders; oracle: zero-output cycles with non-zero input in an independent trellis, the gcd of "
     "minors, and Dijkstra over that trellis with silent states as targets.")
rule("V04", "Random encoders, block counts and modes; every message of small codes; termination checked by exhaustive search "
     "over tails or start states.")
rule("F01", "Random machines and inputs; table-walking model; random splits.")
rule("F02", "Random machines (parallel edges forced in a third), metric tables incl. ties and infinities; exhaustive paths; the "
     "streaming variant against the set of fixed-lag decisions over optimal paths.")
rule("F03", "Random machines (parallel edges forced in a third), priors, initial/final distributions and metrics of widely "
     "varying size; exhaustive summation over paths in the log domain.")


# ---------------------------------------------------------------- V01
@section("V01", 500, 6000)
def encode(m, r, i):
    c = gconv.any_conv(r, max_nu=7, kmax=3, nmax=4, max_states=1 << 14)
    T = int(r.integers(1, 30))
    u = r.integers(0, 2, size=T * c.k)
    m.note(code=c, u=u)
    v = np.asarray(c.code.encode(gen.cast(r, u)))
    m.arr(v.astype(int), c.encode(u), "encode = power-series multiplication by P/q")
    m.ok(set(np.unique(v).tolist()) <= {0, 1}, "output bits")
    zero = np.zeros(c.sigma, int)
    v2, s2 = c.code.encode_with_state(u, zero if r.integers(0, 2) else zero.tolist())
    m.arr(np.asarray(v2, int), v.astype(int), "encode_with_state from zero = encode")
    m.shape(s2, (c.sigma,), "final state")
    # impulse responses
    for a in range(c.k):
        e = np.zeros(T * c.k, int)
        e[a] = 1
        m.arr(np.asarray(c.code.encode(e), int), c.encode(e), f"impulse response of input {a}")
    # chunking from any state
    s = r.integers(0, 2, size=c.sigma)
    whole, end = c.code.encode_with_state(u, s)
    parts, st, p = [], s.copy(), 0
    while p < T:
        q = min(T, p + int(r.integers(1, 8)))
        o, st = c.code.encode_with_state(gen.cast(r, u[p * c.k:q * c.k]), st)
        parts.append(np.asarray(o, int))
        p = q
    m.arr(np.concatenate(parts), np.asarray(whole, int), "chunked encoding = encoding at once")
    m.arr(np.asarray(st, int), np.asarray(end, int), "state after the chunks")
    # superposition of zero-state and zero-input responses
    zi, ze = c.code.encode_with_state(np.zeros_like(u), s)
    m.arr(np.asarray(whole, int), (np.asarray(zi, int) + c.encode(u)) % 2, "response = zero-input + zero-state response")
    m.arr(np.asarray(end, int), (np.asarray(ze, int) + np.asarray(s2, int)) % 2, "final state is linear")
    if c.sigma:
        m.refuses(lambda: c.code.encode_with_state(u, np.zeros(c.sigma + 1, int)), "initial state of the wrong length")
    if c.k > 1:
        m.refuses(lambda: c.code.encode(np.ones(T * c.k + 1, int)), "length not a multiple of k")
    m.tag(c.kind)


# ---------------------------------------------------------------- V02
@section("V02", 350, 4000)
def representations(m, r, i):
    big = r.integers(0, 3) == 0
    c = gconv.any_conv(r, max_nu=6 if big else 3, kmax=3, nmax=4, max_states=1 << (8 if big else 5))
    m.note(code=c)
    k, n, sg = c.k, c.n, c.sigma
    code = c.code
    order = r.permutation(6)
    for o in order:
        [lambda: code.degree, lambda: code.memory_order, lambda: code.finite_state_machine(), lambda: code.generator_matrix,
         lambda: code.state_space_representation(), lambda: code.constraint_lengths][o]()
    m.eq((code.num_input_bits, code.num_output_bits), (k, n), "k and n")
    m.eq(code.degree, sg, "degree")
    m.eq(list(code.constraint_lengths), c.nu, "constraint lengths")
    m.eq(code.overall_constraint_length, sum(c.nu), "overall constraint length")
    m.eq(code.memory_order, max(c.nu), "memory order")
    Gm = code.generator_matrix
    m.shape(Gm, (k, n), "generator matrix")
    for a in range(k):
        for b in range(n):
            f = Gm[a, b]
            num, den = int(f.numerator), int(f.denominator)
            m.ok(ref.pmul(num, c.q[a]) == ref.pmul(c.P[a][b], den) and ref.pgcd(num, den) == 1, f"G[{a},{b}] = {num:#b}/{den:#b}")
    A, B, C, D = [np.asarray(x, int) for x in code.state_space_representation()]
    m.eq((A.shape, B.shape, C.shape, D.shape), ((sg, sg), (k, sg), (sg, n), (k, n)), "state-space shapes")
    fsm = code.finite_state_machine()
    m.eq((fsm.num_states, fsm.num_input_symbols), (1 << sg, 1 << k), "machine size")
    states = range(1 << sg) if (1 << sg) * (1 << k) <= 256 else r.integers(0, 1 << sg, size=40).tolist()
    for s in states:
        sv = ref.i2v(s, sg)
        for x in range(1 << k) if not big else r.integers(0, 1 << k, size=3).tolist():
            u = ref.i2v(x, k)
            v = (sv @ C + u @ D) % 2
            t = (sv @ A + u @ B) % 2
            m.eq((int(fsm.transitions[s][x]), int(fsm.outputs[s][x])), (ref.v2i(t), ref.v2i(v)), f"machine edge ({s}, {x}) vs state space")
            ov, ot = code.encode_with_state(u, sv)
            m.ok(np.array_equal(ov, v) and np.array_equal(ot, t), f"encode_with_state at ({s}, {x}) vs state space")
    # the machine run from zero gives the transfer function
    T = int(r.integers(2, 25))
    x = r.integers(0, 1 << k, size=T)
    y, end = fsm.process(x, 0)
    u = np.concatenate([ref.i2v(int(a), k) for a in x])
    m.note(u=u)
    m.arr(np.concatenate([ref.i2v(int(a), n) for a in y]), c.encode(u), "machine output from state zero = transfer function")
    s, out = np.zeros(sg, int), []
    for a in u.reshape(-1, k):
        out.append((s @ C + a @ D) % 2)
        s = (s @ A + a @ B) % 2
    m.arr(np.concatenate(out), c.encode(u), "state-space output from zero = transfer function")
    m.eq(int(end), ref.v2i(s), "final state")
    m.tag(c.kind)


# ---------------------------------------------------------------- V03
class Trellis:
    """Controller-form trellis built from the polynomials (histories of w_i), independent of komm."""

    def __init__(self, c):
        self.nu, self.k, self.n = c.nu, c.k, c.n
        self.S = 1 << sum(c.nu)
        self.edges = []
        for s in range(self.S):
            row = []
            hist, t = [], s
            for nu in c.nu:
                hist.append(t & ((1 << nu) - 1))  # bit l-1 = w_{t-l}
                t >>= nu
            for x in range(1 << c.k):
                v, ns, off = 0, 0, 0
                for a in range(c.k):
                    w = (x >> a) & 1
                    w ^= ((c.q[a] >> 1) & hist[a]).bit_count() & 1
                    full = (hist[a] << 1) | w
                    for b in range(c.n):
                        v ^= ((c.P[a][b] & full).bit_count() & 1) << b
                    ns |= (full & ((1 << c.nu[a]) - 1)) << off
                    off += c.nu[a]
                row.append((x, ns, v))
            self.edges.append(row)

    def silent(self):
        S = set(range(self.S))
        while True:
            T = {s for s in S if any(v == 0 and t in S for _, t, v in self.edges[s])}
            if T == S:
                return S
            S = T

    def free_distance(self):
        sil = self.silent()
        best = {(0, False): 0}
        heap = [(0, 0, False)]
        while heap:
            d, s, pos = heapq.heappop(heap)
            if d > best[(s, pos)]:
                continue
            if pos and s in sil:
                return d
            for _, t, v in self.edges[s]:
                key = (t, pos or v != 0)
                nd = d + v.bit_count()
                if nd < best.get(key, 1 << 30):
                    best[key] = nd
                    heapq.heappush(heap, (nd, t, key[1]))
        return None


def sccs(n, adj):
    """Strongly connected component index per node (Kosaraju, iterative)."""
    order, seen = [], [False] * n
    for root in range(n):
        if seen[root]:
            continue
        stack = [(root, iter(adj[root]))]
        seen[root] = True
        while stack:
            v, it = stack[-1]
            for w in it:
                if not seen[w]:
                    seen[w] = True
                    stack.append((w, iter(adj[w])))
                    break
            else:
                order.append(v)
                stack.pop()
    rev = [[] for _ in range(n)]
    for v in range(n):
        for w in adj[v]:
            rev[w].append(v)
    comp = [-1] * n
    c = 0
    for root in reversed(order):
        if comp[root] >= 0:
            continue
        st = [root]
        comp[root] = c
        while st:
            v = st.pop()
            for w in rev[v]:
                if comp[w] < 0:
                    comp[w] = c
                    st.append(w)
        c += 1
    return comp


def _catastrophic(tr):
    g = [[(x, t) for x, t, v in row if v == 0] for row in tr.edges]
    comp = sccs(tr.S, [[t for _, t in row] for row in g])
    return any(x and comp[s] == comp[t] for s, row in enumerate(g) for x, t in row)


def structured_conv(r):
    """Encoders whose generator has planted common factors, so that both verdicts are frequent."""
    k = int(r.integers(1, 4))
    n = int(r.integers(k, 5)) if k < 4 else k
    # unimodular mixing of a diagonal with planted factors
    f = [[1, 2, 3, 7, 6, 5, 4][int(r.integers(0, 7))] for _ in range(k)]
    P = [[f[a] if a == b else 0 for b in range(n)] for a in range(k)]
    for _ in range(4):
        b, b2 = r.choice(n, size=2, replace=False) if n > 1 else (0, 0)
        if b != b2:
            x = int(r.integers(0, 4))
            for row in P:
                row[b] ^= ref.pmul(row[b2], x)
        if k > 1:
            a, a2 = r.choice(k, size=2, replace=False)
            x = int(r.integers(0, 3))
            P[a] = [p ^ ref.pmul(q, x) for p, q in zip(P[a], P[a2])]
    return P


@section("V03", 450, 4500)
def catastrophic_and_free_distance(m, r, i):
    while True:
        if r.integers(0, 2):
            P = structured_conv(r)
            k = len(P)
            q = [1] * k if r.integers(0, 2) else [[1, 3, 7, 5][int(r.integers(0, 4))] for _ in range(k)]
            c = gconv.named_conv(("ff", P, q))
        else:
            c = gconv.any_conv(r, max_nu=4, kmax=3, nmax=4, max_states=1 << 9)
        if sum(c.nu) <= 9 and c.k <= c.n and max(c.nu) < 9:
            break
    g = gconv.smith_minors_gcd(c.P, c.n)
    m.note(code=c)
    if g == 0:
        m.tag("rank deficient")
        return m.trivial()
    tr = Trellis(c)
    cat = _catastrophic(tr)
    if all(x == 1 for x in c.q):
        m.ok(cat == (g & (g - 1) != 0), "oracle self-check: trellis verdict vs gcd of minors")
    m.eq(bool(c.code.is_catastrophic()), cat, "is_catastrophic")
    m.tag("catastrophic" if cat else "non-catastrophic")
    d = tr.free_distance()
    if not cat:
        m.eq(int(c.code.free_distance()), d, "free distance")
        m.tag(f"dfree={d}")
    m.eq(bool(c.code.is_catastrophic()), cat, "is_catastrophic asked again")


# ---------------------------------------------------------------- V04
@section("V04", 400, 4500)
def termination(m, r, i):
    mode = ["direct-truncation", "zero-termination", "tail-biting"][i % 3]
    c = gconv.any_conv(r, max_nu=4, kmax=2, nmax=3, max_states=64)
    h = int(r.integers(1, max(2, 8 // c.k + 1)))
    k, n, mu, sg = c.k, c.n, max(c.nu), c.sigma
    m.note(code=c, h=h, mode=mode)
    if mode == "tail-biting":
        # is there a start state returning to itself, for every message?
        A, B, _, _ = [np.asarray(x, int) for x in c.code.state_space_representation()]
        Ah = np.eye(sg, dtype=int)
        reach = []
        for _ in range(h):
            reach.insert(0, B @ Ah % 2)
            Ah = Ah @ A % 2
        img = ref.span([ref.v2i(x) for x in (Ah + np.eye(sg, dtype=int)) % 2])
        possible = all(ref.v2i(x) in img for blk in reach for x in blk)
        if not possible:
            m.tag("tail-biting impossible")

            def build():
                t = komm.TerminatedConvolutionalCode(c.code, h, mode)
                return [t.encode(x) for x in np.eye(h * k, dtype=int)]
            m.refuses(build, "tail-biting code that cannot tail-bite")
            return
    t = komm.TerminatedConvolutionalCode(c.code, h, mode) if mode != "zero-termination" or r.integers(0, 2) else komm.TerminatedConvolutionalCode(c.code, num_blocks=h)
    N = (h + (mu if mode == "zero-termination" else 0)) * n
    m.eq((t.length, t.dimension, t.redundancy), (N, h * k, N - h * k), "length, dimension, redundancy")
    m.close(t.rate, h * k / N, "rate")
    U = ref.all_words(h * k)
    V = np.asarray(t.encode(gen.cast(r, U)))
    m.shape(V, (1 << (h * k), N), "codewords")
    V = V.astype(int)
    m.ok(not V[0].any(), "the zero message gives the zero codeword")
    basis = V[[1 << j for j in range(h * k)]]
    m.arr(V, U @ basis % 2, "encoding is linear")
    m.arr(np.asarray(t.generator_matrix, int), basis, "generator matrix rows are the encoded unit messages")
    if mode == "direct-truncation":
        m.arr(V, np.array([c.encode(u) for u in U]), "outputs of the encoder for the message")
    elif mode == "zero-termination":
        m.arr(V[:, :h * n], np.array([c.encode(u) for u in U]), "codeword begins with the encoder's outputs for the message")
        if k * mu <= 10:
            z = np.zeros(sg, int)
            tails = ref.all_words(k * mu)
            for j in r.integers(0, len(U), size=4):
                u = U[j]
                good = False
                for tail in tails:
                    full = np.concatenate([u, tail])
                    v, s = c.code.encode_with_state(full, z)
                    if not np.any(s) and np.array_equal(v, V[j]):
                        good = True
                        # the model agrees that the encoder is at rest: nothing comes out any more
                        rest = c.encode(np.concatenate([full, np.zeros(k * (mu + 1), int)]))
                        m.ok(not rest[N:].any() and np.array_equal(rest[:N], V[j]), "after the tail the encoder is silent")
                        break
                m.ok(good, lambda: f"message {u.tolist()}: no tail of {mu} blocks yields {V[j].tolist()} and ends in the zero state")
        else:
            m.tag("tail search skipped")
    else:
        for j in r.integers(0, len(U), size=5):
            u = U[j]
            good = False
            for s in range(1 << sg):
                sv = ref.i2v(s, sg)
                v, e = c.code.encode_with_state(u, sv)
                if np.array_equal(e, sv) and np.array_equal(v, V[j]):
                    good = True
                    break
            m.ok(good, lambda: f"message {u.tolist()}: no state both starts and ends the output {V[j].tolist()}")
    # block-code services of the terminated code
    rk = ref.rank(ref.rows2i(basis))
    if rk == h * k:
        j = r.integers(0, len(U), size=(2, 3))
        m.arr(np.asarray(t.inverse_encode(V[j].reshape(2, -1)), int), U[j].reshape(2, -1), "inverse encoding")
        H = np.asarray(t.check_matrix, int)
        m.shape(H, (N - h * k, N), "check matrix")
        m.ok(not (basis @ H.T % 2).any() and (H.size == 0 or ref.rank(ref.rows2i(H)) == N - h * k), "check matrix is a dual basis")
        if h * k <= 7:
            wd = np.bincount(V.sum(axis=1), minlength=N + 1)
            m.arr(np.asarray(t.codeword_weight_distribution(), int), wd, "weight distribution")
            m.arr(np.asarray(t.codewords(), int), V, "codewords in message order")
            m.eq(int(t.minimum_distance()), int(np.flatnonzero(wd[1:])[0] + 1), "minimum distance")
        m.tag("full rank")
    lead, b = gen.batch_shape(r)
    uu = r.integers(0, 2, size=lead + (b * h * k,))
    m.arr(np.asarray(t.encode(uu), int), (uu.reshape(lead + (b, h * k)) @ basis % 2).reshape(lead + (b * N,)), "batched encoding")
    m.refuses(lambda: komm.TerminatedConvolutionalCode(c.code, h, "no-such-mode"), "unknown mode")
    m.tag(mode)


# ---------------------------------------------------------------- machines
def rand_machine(r, smax=4, xmax=3, ymax=4, moore=False):
    S, X, Y = int(r.integers(1, smax + 1)), int(r.integers(1, xmax + 1)), int(r.integers(1, ymax + 1))
    T = r.integers(0, S, size=(S, X))
    if X > 1 and r.integers(0, 3) == 0:
        s = int(r.integers(0, S))
        T[s, :2] = T[s, 0]
    O = r.integers(0, Y, size=(S,) if moore else (S, X))
    return S, X, Y, T, O


@section("F01", 500, 6000)
def process(m, r, i):
    moore = bool(i & 1)
    S, X, Y, T, O = rand_machine(r, 6, 4, 6, moore)
    m.note(T=T, O=O, moore=moore)
    f = (komm.MooreMachine if moore else komm.MealyMachine)(T.tolist() if r.integers(0, 2) else T, O.tolist() if r.integers(0, 2) else O)
    m.eq((f.num_states, f.num_input_symbols, f.num_output_symbols), (S, X, int(O.max()) + 1), "alphabet sizes")
    L = int(r.integers(0, 25))
    x = r.integers(0, X, size=L)
    s0 = int(r.integers(0, S))
    m.note(x=x, s0=s0)
    s, y = s0, []
    for a in x.tolist():
        if moore:
            s = int(T[s, a])
            y.append(int(O[s]))
        else:
            y.append(int(O[s, a]))
            s = int(T[s, a])
    got, end = f.process(x if r.integers(0, 2) else x.tolist(), s0)
    m.arr(np.asarray(got, int), np.array(y, int), "outputs")
    m.eq(int(end), s, "final state")
    cuts = sorted(r.integers(0, L + 1, size=int(r.integers(0, 4))).tolist())
    st, parts = s0, []
    for a, b in zip([0] + cuts, cuts + [L]):
        o, st = f.process(x[a:b], st)
        parts += np.asarray(o, int).tolist()
    m.eq(parts, y, "outputs when processed in parts")
    m.eq(int(st), s, "final state when processed in parts")
    if not moore:
        ie, oe = np.asarray(f.input_edges), np.asarray(f.output_edges)
        for a, b in itertools.product(range(S), repeat=2):
            edges = [(k_, int(O[a, k_])) for k_ in range(X) if T[a, k_] == b]
            if edges:
                m.ok((int(ie[a, b]), int(oe[a, b])) in edges, f"edge tables at ({a}, {b}): {ie[a, b]}, {oe[a, b]} vs {edges}")
            else:
                m.eq((int(ie[a, b]), int(oe[a, b])), (-1, -1), f"edge tables at ({a}, {b})")


def metric_table(r, Y, L):
    how = int(r.integers(0, 5))
    if how == 0:
        M = r.integers(0, 3, size=(Y, L)).astype(float)
    elif how == 1:
        M = r.normal(size=(Y, L))
    elif how == 2:
        M = r.normal(size=(Y, L)) * 10.0 ** r.integers(-3, 5)
    elif how == 3:
        M = -np.abs(r.normal(size=(Y, L)))
    else:
        M = r.normal(size=(Y, L))
        M[r.random(M.shape) < 0.15] = math.inf
    return M


def all_paths(S, X, T, O, M, L, init):
    """(final state, inputs, start, total metric) of every path."""
    for s0 in range(S):
        if init[s0] == math.inf:
            continue
        for x in itertools.product(range(X), repeat=L):
            s, c = s0, init[s0]
            for t, a in enumerate(x):
                c += M[O[s][a]][t]
                s = T[s][a]
            yield s, x, s0, c


@section("F02", 500, 6000)
def viterbi(m, r, i):
    S, X, Y, T, O = rand_machine(r)
    L = int(r.integers(1, 6 if X < 3 else 5))
    M = metric_table(r, Y, L)
    init = np.zeros(S)
    given = bool(r.integers(0, 2))
    if given:
        init = np.where(r.random(S) < 0.3, math.inf, r.normal(size=S))
        if np.isinf(init).all():
            init[int(r.integers(0, S))] = 0.0
    m.note(T=T, O=O, M=M, init=init)
    f = komm.MealyMachine(T, O)
    calls = []

    def metric(y, z):
        calls.append((int(y), int(z)))
        return float(M[int(y), int(z)])
    obs = np.arange(L)
    xs, fm = f.viterbi(obs, metric, init.tolist() if given else None) if given or r.integers(0, 2) else f.viterbi(obs, metric)
    xs, fm = np.asarray(xs), np.asarray(fm)
    m.shape(xs, (L, S), "input sequences")
    m.shape(fm, (S,), "final metrics")
    m.ok(all(0 <= y < Y and 0 <= z < L for y, z in calls), "metric function called on outputs and observations")
    Tl, Ol, Ml = T.tolist(), O.tolist(), M.tolist()
    best = [math.inf] * S
    seqs = [dict() for _ in range(S)]
    for s, x, s0, c in all_paths(S, X, Tl, Ol, Ml, L, init.tolist()):
        best[s] = min(best[s], c)
        if c < seqs[s].get(x, math.inf):
            seqs[s][x] = c
    sc = 1e-9 * (1 + float(np.abs(M[np.isfinite(M)]).sum()) + float(np.abs(init[np.isfinite(init)]).sum()))
    for s in range(S):
        if best[s] == math.inf:
            m.ok(fm[s] == math.inf, f"final state {s} unreachable: metric {fm[s]}")
        else:
            m.ok(abs(fm[s] - best[s]) <= sc, f"final state {s}: metric {fm[s]} best {best[s]}")
            c = seqs[s].get(tuple(xs[:, s].tolist()), math.inf)
            m.ok(abs(c - best[s]) <= sc, lambda: f"final state {s}: returned inputs {xs[:, s].tolist()} cost {c}, best {best[s]}")
    if (np.sort(T, axis=1)[:, 1:] == np.sort(T, axis=1)[:, :-1]).any():
        m.tag("parallel edges")


@section("F02", 400, 4500)
def streaming(m, r, i):
    from .p_decoders import fixed_lag_sets
    S, X, Y, T, O = rand_machine(r)
    tau = int(r.integers(1, 6))
    L = int(r.integers(tau + 1, tau + 12))
    M = r.normal(size=(Y, L)) if r.integers(0, 2) else r.integers(0, 3, size=(Y, L)).astype(float)
    s0 = int(r.integers(0, S))
    m.note(T=T, O=O, M=M, tau=tau, s0=s0)
    f = komm.MealyMachine(T, O)
    mem = {"paths": np.zeros((S, tau + 1), int), "metrics": np.full((S, tau + 1), np.inf)}
    mem["metrics"][s0, -1] = 0.0
    mem["paths"][s0, -1] = s0
    out, p = [], 0
    while p < L:
        q = min(L, p + int(r.integers(1, 6)))
        out += np.asarray(f.viterbi_streaming(np.arange(p, q), lambda y, z: float(M[int(y), int(z)]), mem), int).tolist()
        p = q
    fsm = [[(int(T[s, x]), int(O[s, x])) for x in range(X)] for s in range(S)]
    sets = fixed_lag_sets(fsm, M.T.tolist(), s0, tau)
    m.eq(len(out), L, "one decision per observation")
    for t in range(tau, L):
        m.ok(out[t] in sets[t], lambda: f"stage {t}: decision {out[t]} not among the fixed-lag decisions {sorted(sets[t])}")
    if (np.sort(T, axis=1)[:, 1:] == np.sort(T, axis=1)[:, :-1]).any():
        m.tag("parallel edges")


@section("F03", 450, 5000)
def forward_backward(m, r, i):
    S, X, Y, T, O = rand_machine(r)
    L = int(r.integers(1, 6 if X < 3 else 5))
    how = int(r.integers(0, 4))
    M = r.normal(size=(Y, L)) * [1.0, 5.0, 50.0, 400.0][how]
    f = komm.MealyMachine(T, O)
    tiny = i % 4 == 3
    kw, pri, ini, fin = {}, np.full((L, X), 1 / X), np.full(S, 1 / S), np.full(S, 1 / S)

    def pmf(shape):
        p = r.random(shape)
        if tiny:  # priors that are negligible until the observations overrule them
            p = 10.0 ** r.uniform(-300, 0, size=shape)
        p = np.where(r.random(shape) < 0.25, 0.0, p)
        tot = p.sum(axis=-1, keepdims=True)
        return np.where(tot > 0, p / np.where(tot > 0, tot, 1), 1 / shape[-1])
    if r.integers(0, 2):
        kw["input_priors"] = pri = pmf((L, X))
    if r.integers(0, 2):
        kw["initial_state_distribution"] = ini = pmf((S,)) if r.integers(0, 2) else np.eye(S)[int(r.integers(0, S))]
    if r.integers(0, 2):
        kw["final_state_distribution"] = fin = pmf((S,)) if r.integers(0, 2) else np.eye(S)[int(r.integers(0, S))]
    m.note(T=T, O=O, M=M, **kw)
    acc = [[[] for _ in range(X)] for _ in range(L)]
    with np.errstate(divide="ignore"):
        lp, li, lf = np.log(pri), np.log(ini), np.log(fin)
    tot = []
    for s0 in range(S):
        for x in itertools.product(range(X), repeat=L):
            s, c = s0, li[s0]
            for t, a in enumerate(x):
                c += lp[t, a] + M[O[s, a], t]
                s = T[s, a]
            c += lf[s]
            if c == -math.inf:
                continue
            tot.append(c)
            for t, a in enumerate(x):
                acc[t][a].append(c)
    if not tot:
        m.tag("impossible evidence")
        return m.trivial()
    Z = ref.logsumexp(tot)
    want = np.array([[math.exp(ref.logsumexp(acc[t][a]) - Z) for a in range(X)] for t in range(L)])
    args = {k_: (v.tolist() if r.integers(0, 3) == 0 else v) for k_, v in kw.items()}
    got = np.asarray(f.forward_backward(np.arange(L), lambda y, z: float(M[int(y), int(z)]), **args), float)
    m.close(got, want, "posteriors", rtol=1e-7, atol=1e-10)
    m.close(got.sum(axis=1), np.ones(L), "rows sum to one", rtol=1e-12)
    m.ok((got >= 0).all(), "posteriors are non-negative")
    if (np.sort(T, axis=1)[:, 1:] == np.sort(T, axis=1)[:, :-1]).any():
        m.tag("parallel edges")
