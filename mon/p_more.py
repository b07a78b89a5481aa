"""Further cross-cutting workloads: twin objects, shared generators, degenerate members of families, missing values, streams copied midway."""
import copy
import math
import pickle
from fractions import Fraction

import numpy as np

import komm

from . import catalog, gconv, p_channels, p_mapping
from .catalog import FAMILIES, entry, image, raised, same
from .core import section, short
from .p_cross import ask, det_ops, exact, play, rand_random, zygote
from .p_iface import CPX, FLT, INT, fits

# ---------------------------------------------------------------- X01: objects that look alike
NAMES = ("length", "dimension", "order", "cardinality", "num_states", "num_bits", "source_cardinality", "target_cardinality", "input_cardinality",
         "output_cardinality", "num_input_bits", "num_output_bits", "source_block_size", "target_block_size", "size", "mu", "rho")


def signature(o, depth=0):
    out = [type(o).__name__]
    for n in NAMES:
        try:
            v = getattr(o, n)
        except Exception:
            continue
        if isinstance(v, (int, np.integer)):
            out.append((n, int(v)))
    for n in ("code", "convolutional_code"):
        if depth < 2 and type(getattr(o, n, None)).__module__.startswith("komm"):
            out.append(signature(getattr(o, n), depth + 1))
    return tuple(out)


@section("X01", 500, 4000, scaled=False)
def twins(m, r, i):
    """Two different objects of one class and size, used one after the other; the second must act as it does in a fresh process."""
    zygote()
    fam = i % len(FAMILIES)
    groups, pair = {}, None
    for _ in range(30):
        sd = catalog.new_seed(r)
        e = entry(np.random.default_rng(sd), True, FAMILIES[fam])
        o = e.make()
        g = groups.setdefault(signature(o), [])
        if any(h[3] != repr(o) for h in g):
            pair = [next(h for h in g if h[3] != repr(o)), (sd, e, o, repr(o))]
            break
        g.append((sd, e, o, repr(o)))
    if pair is None:
        return m.trivial()
    (_, e1, o1, _), (sd, e2, o2, _) = pair
    m.note(first=e1.desc, second=e2.desc)
    for k in r.permutation(det_ops(e1))[:12]:
        raised(lambda: e1.ops[int(k)].apply(o1))
    got = {}
    for k in r.permutation(det_ops(e2)):
        got[int(k)] = (lambda t: (t[0], image(t[1])))(raised(lambda: e2.ops[int(k)].apply(o2)))
    for k in list(got)[:5]:
        want = ask((sd, True, fam, k))
        if want[0] == "broken":
            raise OSError(f"pristine process: {want[1]}")
        m.ok(same(got[k], want), lambda: f"{e2.desc}: {e2.ops[k]} gave {short(got[k], 200)} after the use of {e1.desc} but {short(want, 200)} in a fresh process")
    m.tag(type(o2).__name__)


# ---------------------------------------------------------------- X04: one library generator
@section("X04", 120, 1500, scaled=False)
def one_library_stream(m, r, i):
    """Components built without a generator draw, in call order, from the one library generator."""
    from . import p_cross
    p_cross.r0 = False
    mk, ops, desc = rand_random(r)
    things = [(mk, ops, desc)] * 2 + [rand_random(r)]
    p_cross.r0 = False
    s = int(r.integers(0, 2**60))
    seq = [(int(r.integers(0, 3)), int(r.integers(0, 2))) for _ in range(8)] + [(0, 0), (1, 0)]
    m.note(objects=[t[2] for t in things], calls=seq)
    lib, own = np.random.default_rng(s), np.random.default_rng(s)
    komm.global_rng.set(lib)
    a = [t[0]() for t in things]
    b = [t[0](rng=own) for t in things]
    outs = [[], []]
    for k, (objs, out) in enumerate(((a, outs[0]), (b, outs[1]))):
        for t, o in seq:
            out += play(objs[t], [things[t][1][o % len(things[t][1])]])
    m.ok(exact(outs[0], outs[1]), lambda: f"{[t[2] for t in things]} on the library generator do not act as on one shared generator")
    m.eq(repr(lib.bit_generator.state), repr(own.bit_generator.state), "state of the library generator after the calls")
    m.ok(not exact(outs[0][-2], outs[0][-1]), lambda: f"two components {desc} on the library generator gave the same output {short(outs[0][-1], 150)}")


# ---------------------------------------------------------------- X05: degenerate members keep the family's kinds
@section("X05", 120, 1200, scaled=False)
def family_kinds(m, r, i):
    k = komm
    a = float(r.choice([1.0, 2.0, 0.5]))
    half = float(r.choice([0.0, 0.5, 1.0, -0.5]))
    any_ = float(r.choice([0.0, 0.25, 0.125, 0.5, 0.3]))
    quarter = float(r.choice([0.0, 0.5, 0.25]))
    table = [
        (lambda: k.PSKConstellation(int(r.integers(1, 5)), a, half), CPX), (lambda: k.ASKConstellation(int(r.integers(1, 5)), a, any_), CPX),
        (lambda: k.APSKConstellation((2, 2), (a, 2 * a), half), CPX), (lambda: k.APSKConstellation((2,), (a,), half), CPX),
        (lambda: k.QAMConstellation((int(r.integers(1, 5)), int(r.integers(1, 3))), a, quarter), CPX), (lambda: k.CrossQAMConstellation(32, a, quarter), CPX),
        (lambda: k.PAMConstellation(int(r.integers(1, 6)), a), FLT), (lambda: k.OrthogonalConstellation(int(r.integers(1, 5)), a), FLT),
        (lambda: k.SimplexConstellation(int(r.integers(2, 5)), a), FLT), (lambda: k.BiorthogonalConstellation(2 * int(r.integers(1, 4)), a), FLT),
        (lambda: k.Constellation([[1.0 + 0j], [-1.0]]), CPX), (lambda: k.Constellation(np.array([1j * 0 + 1, -1])), CPX),
        (lambda: k.PAMConstellation(4, 2), FLT), (lambda: k.OrthogonalConstellation(3, 2), FLT), (lambda: k.PSKConstellation(2, 1), CPX),
        (lambda: k.BiorthogonalConstellation(4, 3), FLT), (lambda: k.SimplexConstellation(3, 1), FLT),
    ]
    f, kind = table[i % len(table)]
    c = f()
    m.note(obj=repr(c))
    M, N = c.order, c.dimension
    y = c.indices_to_symbols([0, M - 1])
    for what, v, kd in (("matrix", c.matrix, kind), ("symbols", y, kind), ("mean", c.mean(), kind), ("mean with priors", c.mean(np.full(M, 1 / M)), kind),
                        ("closest symbols", c.closest_symbols(y), kind), ("closest indices", c.closest_indices(y), INT), ("posteriors", c.posteriors(y, 1.0), FLT)):
        m.ok(fits(v, kd), lambda: f"{c!r}: {what} {short(v, 100)} is not a {kd}")
    for v in (0.0, 1.0):
        z = komm.GaussianChannel(v).transmit(y)
        m.ok(fits(z, kind), lambda: f"Gaussian channel of power {v} on the symbols of {c!r}: {short(z, 100)} is not a {kind}")
    z = komm.GaussianChannel(1.0).transmit(np.real(y))
    m.ok(fits(z, FLT), lambda: f"Gaussian channel on real symbols: {short(z, 100)}")


# ---------------------------------------------------------------- X06: missing and infinite values
@section("X06", 60, 600, scaled=False)
def non_numbers(m, r, i):
    n = int(r.integers(2, 6))
    p = r.dirichlet(np.ones(n))
    if r.integers(0, 2):
        p = np.append(p, 0.0)
    bad = p.copy()
    j = int(r.integers(0, len(p)))
    v = float(r.choice([math.nan, math.nan, math.inf, -math.inf]))
    bad[j] = v
    if r.integers(0, 2):  # the rest alone is a distribution
        rest = np.delete(p, j)
        bad = np.insert(rest / rest.sum(), j, v)
    n = len(bad)
    A = np.tile(np.full(n, 1 / n), (n, 1))
    A[int(r.integers(0, n))] = bad
    m.note(values=bad)
    k = komm
    D = k.DiscreteMemorylessChannel(np.eye(n))
    C = k.PAMConstellation(n)
    one = np.array([0.5])
    for what, f in (("DiscreteMemorylessSource", lambda: k.DiscreteMemorylessSource(bad)), ("HuffmanCode", lambda: k.HuffmanCode(bad)),
                    ("ShannonCode", lambda: k.ShannonCode(bad)), ("FanoCode", lambda: k.FanoCode(bad)), ("TunstallCode", lambda: k.TunstallCode(bad, 4)),
                    ("entropy", lambda: k.entropy(bad)), ("relative_entropy", lambda: k.relative_entropy(bad, np.full(n, 1 / n))),
                    ("relative_entropy", lambda: k.relative_entropy(np.full(n, 1 / n), bad)), ("DiscreteMemorylessChannel", lambda: k.DiscreteMemorylessChannel(A)),
                    ("MarkovChain", lambda: k.MarkovChain(A)), ("mutual_information", lambda: D.mutual_information(bad)), ("mean", lambda: C.mean(bad)),
                    ("mean_energy", lambda: C.mean_energy(bad)), ("posteriors", lambda: C.posteriors(one, 1.0, bad)),
                    ("rate", lambda: k.FixedToVariableCode.from_codewords([(0,) * x + (1,) for x in range(n)]).rate(bad)),
                    ("BinarySymmetricChannel", lambda: k.BinarySymmetricChannel(v)), ("BinaryErasureChannel", lambda: k.BinaryErasureChannel(v)),
                    ("ZChannel", lambda: k.ZChannel(v)), ("binary_entropy", lambda: k.binary_entropy(v)), ("binary_entropy_inv", lambda: k.binary_entropy_inv(v)),
                    ("gaussian_q_inv", lambda: k.gaussian_q_inv(v if v == v else 2.0)), ("RaisedCosinePulse", lambda: k.RaisedCosinePulse(v)), ("BeaulieuPulse", lambda: k.BeaulieuPulse(v))):
        m.refuses(f, f"{what} with {bad.tolist()}")
        m.tag(what)


# ---------------------------------------------------------------- X08: a stream decoder copied midway
@section("X08", 150, 1500, scaled=False)
def stream_copies(m, r, i):
    c = gconv.any_conv(r, max_nu=3, kmax=2, nmax=3, max_states=16)
    soft = bool(r.integers(0, 2))
    tau = int(r.integers(1, 12))
    how = i % 2
    d = komm.ViterbiStreamDecoder(c.code, tau, input_type="soft" if soft else "hard")
    one = komm.ViterbiStreamDecoder(c.code, tau, input_type="soft" if soft else "hard")
    part = lambda: (r.normal(size=c.n * int(r.integers(1, 30))) if soft else r.integers(0, 2, size=c.n * int(r.integers(1, 30))))
    a, b, w = part(), part(), part()
    m.note(code=repr(c), tau=tau, soft=soft, first=a, second=b)
    m.arr(np.asarray(d.decode(a)), np.asarray(one.decode(a)), "two decoders, same stream")
    e = copy.deepcopy(d) if how else pickle.loads(pickle.dumps(d))
    want = np.asarray(one.decode(b))
    d.decode(w)  # the original goes on with another stream
    m.arr(np.asarray(e.decode(b)), want, f"{'deep copy' if how else 'pickle'} taken midway continues the stream")
    want = np.asarray(one.decode(w))
    m.arr(np.asarray(e.decode(w)), want, "the copy and an undisturbed decoder stay together")


# ---------------------------------------------------------------- M02: rare events
@section("M02", 120, 1500, scaled=False)
def slow_absorption(m, r, i):
    """Chains left only with probabilities down to 2**-33, all dyadic so that the matrix is exact; exact rational solution."""
    n = int(r.integers(1, 5))
    T = n + 1
    P = [[Fraction(0)] * T for _ in range(T)]
    P[n][n] = Fraction(1)
    e = int(r.integers(8, 34))
    for s in range(n):
        w = r.multinomial(16, np.ones(n) / n)
        for t in range(n):
            P[s][t] = Fraction(int(w[t]), 16)
    rare = [0] if r.integers(0, 2) else list(range(n))
    for s in rare:
        t = max(range(n), key=lambda t: P[s][t])
        P[s][t] -= Fraction(1, 2**e)
        P[s][n] = Fraction(1, 2**e)
    perm = r.permutation(T)
    F = np.array([[float(x) for x in row] for row in P])[np.ix_(perm, perm)]
    m.note(matrix=F)
    c = komm.MarkovChain(F)
    if not c.is_absorbing():
        return m.trivial()
    tr = [int(np.flatnonzero(perm == s)[0]) for s in range(n)]
    order = sorted(range(n), key=lambda s: tr[s])
    m.eq(sorted(c.transient_states()), sorted(tr), "transient states")
    # exact inverse of I - Q by Gauss-Jordan over the rationals
    A = [[(Fraction(int(a == b)) - P[order[a]][order[b]]) for b in range(n)] + [Fraction(int(a == b)) for b in range(n)] for a in range(n)]
    for a in range(n):
        p = next(b for b in range(a, n) if A[b][a] != 0)
        A[a], A[p] = A[p], A[a]
        A[a] = [x / A[a][a] for x in A[a]]
        for b in range(n):
            if b != a and A[b][a] != 0:
                A[b] = [x - A[b][a] * y for x, y in zip(A[b], A[a])]
    N = np.array([[float(x) for x in row[n:]] for row in A])
    tol = 1e-14 * 2.0**e * 20 * n**2
    m.close(c.mean_number_of_visits(), N, "mean number of visits", tol, tol)
    m.close(c.mean_time_to_absorption(), N.sum(axis=1), "mean time to absorption", tol, tol)
    m.close(c.absorption_probabilities(), np.ones((n, 1)), "absorption is certain", tol, tol)
    m.tag("expected time above 1e6", bool(N.sum(axis=1).max() > 1e6))


# ---------------------------------------------------------------- M03: slow exits
class Enough(Exception):
    pass


class Limited(np.random.Generator):
    """A generator that stops the simulation after a number of draws."""
    left = 3000

    def choice(self, *a, **k):
        self.left -= 1
        if self.left < 0:
            raise Enough
        return super().choice(*a, **k)


@section("M03", 40, 400, scaled=False)
def slow_exit(m, r, i):
    """A state left with small probability is not absorbing: the run goes on until an absorbing state."""
    n = int(r.integers(1, 5))
    eps = 10.0 ** -r.uniform(1, 5)
    P = np.zeros((n + 2, n + 2))
    for s in range(n):
        P[s] = np.append(rand_weights(r, n), [0, 0]) * eps / 2
        P[s, s] += 1 - eps
        P[s, n:] = rand_weights(r, 2) * eps / 2
    P[:n] /= P[:n].sum(axis=1, keepdims=True)
    P[n, n] = P[n + 1, n + 1] = 1
    q = r.permutation(n + 2)
    ab = {int(np.flatnonzero(q == n)[0]), int(np.flatnonzero(q == n + 1)[0])}
    P = P[np.ix_(q, q)]
    c = komm.MarkovChain(P, rng=Limited(np.random.PCG64(int(r.integers(0, 2**31)))))
    s0 = int(r.choice([s for s in range(n + 2) if s not in ab]))
    m.note(matrix=P, start=s0)
    try:
        x = np.asarray(c.simulate_until_absorption(s0))
    except Enough:
        m.ok(True, "still running")
        m.tag("cut")
        return
    m.eq(int(x[0]), s0, "starts at the initial state")
    m.ok(int(x[-1]) in ab and not (set(x[:-1].tolist()) & ab), lambda: f"ends in {int(x[-1])}, absorbing states {sorted(ab)}")


@section("M03", 4, 40, scaled=False)
def very_slow_exit(m, r, i):
    """Walks of tens of thousands of steps before absorption, and long runs of `simulate`."""
    eps = 10.0 ** -r.uniform(4, 4.6)
    a, b, t = (int(x) for x in r.permutation(3))
    P = np.zeros((3, 3))
    P[t, t], P[t, a], P[t, b] = 1 - eps, eps / 2, eps / 2
    P[a, a] = P[b, b] = 1
    g = Limited(np.random.PCG64(int(r.integers(0, 2**31))))
    g.left = 150000
    c = komm.MarkovChain(P, rng=g)
    m.note(matrix=P)
    try:
        x = np.asarray(c.simulate_until_absorption(t))
    except Enough:
        m.ok(True, "still running")
        m.tag("cut")
        return
    m.ok(set(x[:-1].tolist()) == {t} and int(x[-1]) in (a, b), lambda: f"{x.size} states, ends in {int(x[-1])}, absorbing states {a}, {b}")
    m.tag("steps", x.size)


def rand_weights(r, n):
    w = r.random(n) + 0.05
    return w / w.sum()


# ---------------------------------------------------------------- probabilities rounded as people and single precision write them
def rounded(r, p):
    """A pmf given to few decimals or in single precision: it sums to one only approximately, and is accepted."""
    while True:
        q = p.astype(np.float32) if r.integers(0, 2) else np.round(p, int(r.integers(5, 8)))
        d = abs(float(np.asarray(q, float).sum()) - 1)
        if d < 0.99e-5 and (np.asarray(q, float) > 0).any():
            return q
        p = r.dirichlet(np.ones(len(p)))


@section("M03", 150, 2000, scaled=False)
def rounded_laws(m, r, i):
    n = int(r.integers(2, 12))
    P = [rounded(r, r.dirichlet(np.ones(n)) if r.integers(0, 2) else np.full(n, 1 / n)) for _ in range(n)]
    p = P[0]
    m.note(P=P)
    q = np.asarray(p, float)
    x = np.asarray(komm.DiscreteMemorylessSource(p if r.integers(0, 2) else p.tolist()).emit(3000))
    p_channels.zscores(m, np.bincount(x, minlength=n), 3000, q / q.sum(), "symbol frequencies")
    W = np.array([np.asarray(v, float) for v in P])
    c = komm.MarkovChain(W)
    s = int(r.integers(0, n))
    y = np.asarray(c.simulate(s, 500))
    m.shape(y, (500,), "length")
    m.eq(int(y[0]), s, "starts at the initial state")
    m.ok(bool(np.all(W[y[:-1], y[1:]] > 0)), "only possible transitions")
    A = W.copy()
    A[-1] = 0
    A[-1, -1] = 1
    if (A[:-1, -1] > 1e-3).any() and (W[:-1, :-1] > 0).all():
        z = np.asarray(komm.MarkovChain(A).simulate_until_absorption(s))
        m.eq((int(z[0]), int(z[-1])), (s, n - 1), "first and last state")
        m.ok(not (z[:-1] == n - 1).any(), "stops at absorption")


@section("C02", 150, 2000, scaled=False)
def rounded_transitions(m, r, i):
    n, k = int(r.integers(2, 8)), int(r.integers(2, 12))
    P = [rounded(r, r.dirichlet(np.ones(k)) if r.integers(0, 2) else np.full(k, 1 / k)) for _ in range(n)]
    W = np.array([np.asarray(v, float) for v in P])
    px = np.asarray(rounded(r, r.dirichlet(np.ones(n))), float)
    if i % 10 == 0:  # thirds to five decimals, everywhere
        n, k, W, px = 3, 3, np.full((3, 3), 0.33333), np.full(3, 0.33333)
    m.note(W=W, px=px)
    ch = komm.DiscreteMemorylessChannel(W.tolist() if r.integers(0, 2) else W)
    x = r.integers(0, n, size=2000)
    y = np.asarray(ch.transmit(x))
    m.shape(y, x.shape, "shape")
    for a in range(n):
        t = int((x == a).sum())
        if t >= 100:
            p_channels.zscores(m, np.bincount(y[x == a], minlength=k), t, W[a] / W[a].sum(), f"outputs for symbol {a}")
    lg = lambda a: np.log2(np.where(a > 0, a, 1))
    V = W / W.sum(axis=1, keepdims=True)
    qx = px / px.sum()
    I = float((qx[:, None] * V * (lg(V) - lg(qx @ V)[None])).sum())
    m.close(float(ch.mutual_information(px)), I, "mutual information", 1e-3, 1e-3)
    m.ok(float(ch.capacity()) >= I - 1e-3, "capacity")


# ---------------------------------------------------------------- received points of another kind than the constellation
def other_kind(r, i):
    """Received points given as reals or integers to a complex constellation, or integers/single precision to a real one."""
    C, X, desc = p_mapping.rand_con(r, p_mapping.FAMS[i % len(p_mapping.FAMS)], big=False)
    M, N = X.shape
    Y = r.normal(size=(int(r.integers(1, 6)), N)) * np.abs(X).max()
    k = int(r.integers(0, 3))
    if k == 1:
        Y = np.round(Y * 4).astype(r.choice([np.int64, np.int16, np.int8]) if np.abs(Y).max() < 30 else np.int64)
    elif k == 2:
        Y = Y.astype(np.float32)
    return C, X, Y, desc


@section("K01", 300, 4000)
def detect_other_kind(m, r, i):
    C, X, Y, desc = other_kind(r, i)
    m.note(con=desc, Y=Y)
    d2 = (np.abs(Y.astype(complex)[:, None, :] - X[None]) ** 2).sum(axis=2)
    flat = Y.reshape(-1)
    got = np.asarray(C.closest_indices(flat if i % 2 else flat.tolist())).astype(int)
    m.shape(got, (len(Y),), "indices")
    m.ok(np.all(d2[np.arange(len(Y)), got] <= d2.min(axis=1) * (1 + 1e-6) + 1e-12 * (np.abs(X).max() ** 2 + d2.max())), "a closest symbol")
    s = np.asarray(C.closest_symbols(flat)).reshape(-1, X.shape[1])
    m.close(s, X[got], "closest symbols", 1e-12, 1e-12)


@section("K03", 300, 4000)
def posteriors_other_kind(m, r, i):
    C, X, Y, desc = other_kind(r, i)
    cx = np.iscomplexobj(X)
    M = len(X)
    npow = float(10.0 ** r.uniform(-1, 1)) * float(np.abs(X).max() ** 2)
    pri = None if r.integers(0, 2) else r.dirichlet(np.ones(M))
    m.note(con=desc, Y=Y, noise=npow, priors=pri)
    d2 = (np.abs(Y.astype(complex)[:, None, :] - X[None]) ** 2).sum(axis=2)
    e = -d2 / (npow if cx else 2 * npow) + (0 if pri is None else np.log(pri))
    w = np.exp(e - e.max(axis=1, keepdims=True))
    w /= w.sum(axis=1, keepdims=True)
    flat = Y.reshape(-1)
    got = np.asarray(C.posteriors(flat if i % 2 else flat.tolist(), npow, pri)).reshape(-1, M)
    m.close(got, w, "posteriors", 1e-6, 1e-9)


@section("C01", 150, 2000, scaled=False)
def information_rounded(m, r, i):
    n, k = int(r.integers(2, 8)), int(r.integers(2, 12))
    W = np.array([np.asarray(rounded(r, r.dirichlet(np.ones(k))), float) for _ in range(n)])
    px = np.asarray(rounded(r, r.dirichlet(np.ones(n))), float)
    if i % 10 == 0:
        n, k, W, px = 3, 3, np.full((3, 3), 0.33333), np.full(3, 0.33333)
    m.note(W=W, px=px)
    lg = lambda a: np.log2(np.where(a > 0, a, 1))
    V, qx = W / W.sum(axis=1, keepdims=True), px / px.sum()
    I = float((qx[:, None] * V * (lg(V) - lg(qx @ V)[None])).sum())
    m.close(float(komm.DiscreteMemorylessChannel(W).mutual_information(px)), I, "mutual information", 1e-3, 1e-3)
    m.ok(float(komm.DiscreteMemorylessChannel(W).capacity()) >= I - 1e-3, "capacity is at least any mutual information")
    q2 = np.array([px[0], px[1:].sum()])
    e = float(r.random())
    if i % 4 == 0:  # a point mass that sums to one only approximately, through a channel that may be noiseless
        q2 = np.array([0.0, 1 + float(r.choice([2.0**-52, 1e-9, 3e-6, -2.0**-53, -3e-6]))])[:: 1 if i % 8 else -1]
        e = [0.0, 1.0, e][(i // 8) % 3]
    for C, T in ((komm.BinarySymmetricChannel, [[1 - e, e], [e, 1 - e]]), (komm.BinaryErasureChannel, [[1 - e, 0, e], [0, 1 - e, e]]),
                 (komm.ZChannel, [[1, 0], [e, 1 - e]])):
        T, q = np.array(T), q2 / q2.sum()
        I = float((q[:, None] * T * (lg(T) - lg(q @ T)[None])).sum())
        m.close(float(C(e).mutual_information(q2)), I, "mutual information", 1e-3, 1e-3)
