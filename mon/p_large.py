"""Large parameters for the D, V and F properties: sizes far beyond those whose codebooks or path sets can be listed.

The oracles here scale: coset minima from the columns of H, dynamic programming over the trellis in NumPy, a vectorised
log-domain forward-backward, a recursive successive-cancellation decoder, power series, direct simulation."""
import math

import numpy as np

import komm

from . import gconv, gen, ref
from .core import section
from .p_conv import Trellis, _catastrophic
from .p_decoders import fixed_lag_sets


def logint(r, lo, hi):
    """Random integer in lo..hi, uniform in the logarithm."""
    return int(min(hi, math.floor(math.exp(r.uniform(math.log(lo), math.log(hi + 1))))))


# ---------------------------------------------------------------- D01
def many_checks(r, mmax=15):
    """Codes with up to 15 check bits, lengths up to 64 and more, and their check columns."""
    t = int(r.integers(0, 7))
    if t == 0:
        c = komm.BCHCode(*[(5, 5), (5, 7), (4, 7), (6, 5)][int(r.integers(0, 4))])
    elif t == 1:
        c = komm.HammingCode(int(r.integers(5, 8)))
    elif t == 2:
        c = komm.GolayCode(extended=bool(r.integers(0, 2)))
    elif t == 3:
        c = komm.RepetitionCode(int(r.integers(9, 17)))
    elif t == 4:
        c = komm.ReedMullerCode(*[(2, 5), (3, 5), (4, 6)][int(r.integers(0, 3))])
    elif t == 5:
        c = komm.SingleParityCheckCode(int(r.integers(20, 300)))
    else:
        k, m = int(r.integers(1, 60)), int(r.integers(7, 13))
        c = komm.SystematicBlockCode(r.integers(0, 2, size=(k, m)))
    return c


@section("D01", 80, 800, scaled=False)
def table_large(m, r, i):
    c = many_checks(r)
    m.note(code=c)
    H = np.asarray(c.check_matrix, int)
    red, n = H.shape
    best = ref.coset_min_weights(H)
    dec = komm.SyndromeTableDecoder(c)
    G = np.asarray(c.generator_matrix, int)
    u = r.integers(0, 2, size=(60, c.dimension))
    v = u @ G % 2
    w = v.copy()
    for a, row in enumerate(w):
        row[r.choice(n, size=int(r.integers(0, 5)), replace=False)] ^= 1
    w[30:] = r.integers(0, 2, size=w[30:].shape)
    got = np.asarray(dec.decode(gen.cast(r, w)), int)
    cw = got @ G % 2
    syn = (w @ H.T % 2) @ (1 << np.arange(red))
    m.arr((cw != w).sum(axis=1), np.array([best[int(s)] for s in syn]), "distance to the decided codeword is the coset minimum")
    m.tag(f"checks={red}")


@section("D01", 60, 600, scaled=False)
def search_long(m, r, i):
    k = int(r.integers(1, 10))
    n = max(k, logint(r, 20, 700))
    c = komm.RepetitionCode(n) if i % 4 == 0 else komm.BlockCode(generator_matrix=np.hstack([np.eye(k, dtype=int), r.integers(0, 2, size=(k, n - k))]))
    m.note(k=c.dimension, n=n, code=c)
    G = np.asarray(c.generator_matrix, int)
    C = ref.codebook(G)
    w = r.integers(0, 2, size=(12, n))
    w[6:] = C[r.integers(0, len(C), size=6)]
    for row in w[6:]:
        row[r.choice(n, size=int(r.integers(0, n // 2 + 1)), replace=False)] ^= 1
    cw = np.asarray(komm.ExhaustiveSearchDecoder(c).decode(gen.cast(r, w)), int) @ G % 2
    m.arr((cw != w).sum(axis=1), np.array([(C != x).sum(axis=1).min() for x in w]), "distance to the decided codeword is the minimum")
    l = r.normal(size=(6, n)) * 10.0 ** r.uniform(-3, 4)
    if r.integers(0, 2):
        l = (1 - 2 * C[r.integers(0, len(C), size=6)]) * 100.0 * np.where(r.random((6, n)) < 0.3, -1, 1)
    m.note(l=l)
    soft_ok(m, c, C, G, l)


def soft_ok(m, c, C, G, l):
    cw = np.asarray(komm.ExhaustiveSearchDecoder(c, input_type="soft").decode(l), int) @ G % 2
    S = (1 - 2 * C) @ l.T
    got = ((1 - 2 * cw) * l).sum(axis=1)
    m.ok(np.all(got >= S.max(axis=0) - 1e-9 * np.abs(l).sum(axis=1)), lambda: f"soft: correlation {got.tolist()} best {S.max(axis=0).tolist()}")


@section("D03", 24, 240, scaled=False)
def soft_large(m, r, i):
    t = i % 4
    if t == 0:
        c = komm.GolayCode(extended=bool(r.integers(0, 2)))
    elif t == 1:
        c = komm.BCHCode(*[(4, 5), (5, 11), (6, 23)][int(r.integers(0, 3))]) if r.integers(0, 2) else komm.SimplexCode(int(r.integers(5, 9)))
    elif t == 2:
        k = int(r.integers(8, 12))
        c = komm.SystematicBlockCode(r.integers(0, 2, size=(k, int(r.integers(1, 30)))))
    else:
        c = komm.ReedMullerCode(1, int(r.integers(4, 9)))
    G = np.asarray(c.generator_matrix, int)
    C = ref.codebook(G)
    n = c.length
    a = 10.0 ** r.uniform(-3, 5)
    l = r.normal(size=(8, n)) * a
    tx = 1 - 2 * C[r.integers(0, len(C), size=8)]
    how = int(r.integers(0, 3))
    if how == 1:
        l = a * (tx + r.normal(size=tx.shape))
    elif how == 2:  # reliable but wrong values
        l = a * tx * np.where(r.random(tx.shape) < 0.15, -1, 1)
    m.note(code=c, l=l)
    soft_ok(m, c, C, G, l)
    # Wagner on long words: the best even-parity word flips nothing or the least reliable bit
    nn = logint(r, 13, 600)
    x = r.normal(size=(6, nn)) * a
    spc = komm.SingleParityCheckCode(nn)
    v = np.asarray(spc.encode(komm.WagnerDecoder(spc).decode(x)), int)
    h = (x < 0).astype(int)
    for row, hd, got in zip(x, h, v):
        loss = float(np.abs(row)[got != hd].sum())
        m.close(loss, 0.0 if hd.sum() % 2 == 0 else float(np.abs(row).min()), "Wagner: reliability given up", 1e-12)


# ---------------------------------------------------------------- D02
def coset_positions(r, n):
    """Error positions with algebraic structure: cyclotomic cosets, subgroups, progressions, bursts."""
    t = int(r.integers(0, 5))
    a = int(r.integers(0, n))
    if t == 0:
        out, x = [], a
        while x not in out:
            out.append(x)
            x = 2 * x % n
        return out
    if t == 1:
        ds = [d for d in range(1, n) if n % d == 0]
        d = int(r.choice(ds))
        return [(a + d * j) % n for j in range(n // d)]
    if t == 2:
        d = int(r.integers(1, n))
        return list(dict.fromkeys((a + d * j) % n for j in range(n)))
    if t == 3:
        return [(a + j) % n for j in range(n)]
    return r.permutation(n).tolist()


BIG_BCH = {}


def big_bch(m):
    if m.thorough not in BIG_BCH:
        out = []
        for mu, ds in ((5, None), (6, None), (7, (3, 9, 15, 21, 27, 31, 47, 55, 63)), (8, (5, 11, 17, 25, 31, 45, 63))):
            for d in range(3, 1 << mu) if ds is None else ds:
                try:
                    komm.BCHCode(mu, d)
                    out.append((mu, d))
                except ValueError:
                    pass
            if mu == 7 and not m.thorough:
                break
        BIG_BCH[m.thorough] = out
    return BIG_BCH[m.thorough]


@section("D02", 96, 800, scaled=False)
def berlekamp_structured(m, r, i):
    cases = big_bch(m)
    mu, delta = cases[i % len(cases)]
    c = komm.BCHCode(mu, delta)
    n, k, t = c.length, c.dimension, (delta - 1) // 2
    dec = komm.BerlekampDecoder(c)
    cnt = 24 if mu < 7 else 6
    u = r.integers(0, 2, size=(cnt, k))
    w = np.asarray(c.encode(u), int)
    pats = []
    for row in w:
        ps = coset_positions(r, n)
        if r.integers(0, 3) == 0:
            ps = list(dict.fromkeys(ps + coset_positions(r, n)))
        ps = ps[:t if r.integers(0, 2) else int(r.integers(0, t + 1))]
        row[ps] ^= 1
        pats.append(ps)
    m.note(mu=mu, delta=delta, positions=pats)
    m.arr(np.asarray(dec.decode(gen.cast(r, w)), int), u, f"structured patterns of at most {t} errors corrected")
    m.tag(f"t={t}")


@section("D02", 16, 120, scaled=False)
def reed_large(m, r, i):
    mu = 6 if i % 2 else 7
    rho = int(r.integers(0, mu))
    if mu == 7:
        rho = int(r.choice([0, 1, 2, 5, 6]))
    if i % 4 == 0:
        mu, rho = int(r.integers(8, 11)), int(r.integers(0, 3))
    c = komm.ReedMullerCode(rho, mu)
    n, k = c.length, c.dimension
    t = (2 ** (mu - rho) - 1) // 2
    u = r.integers(0, 2, size=(4, k))
    w = np.asarray(c.encode(u), int)
    for row in w:
        row[r.choice(n, size=int(r.integers(0, t + 1)), replace=False)] ^= 1
    m.note(rho=rho, mu=mu, word=w)
    m.arr(np.asarray(komm.ReedDecoder(c).decode(gen.cast(r, w)), int), u, f"hard: at most {t} errors corrected")
    a = 10.0 ** r.uniform(-4, 6)
    m.arr(np.asarray(komm.ReedDecoder(c, input_type="soft").decode(a * (1 - 2 * w)), int), u, f"soft: at most {t} errors corrected")


# ---------------------------------------------------------------- D04
def boxp(a, b):
    with np.errstate(invalid="ignore"):
        s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
        return s + np.log1p(np.exp(-np.abs(a + b))) - np.log1p(np.exp(-np.abs(a - b)))


def sc(l, frozen):
    """Recursive successive cancellation: (L-values of all bits, decisions, transmitted estimate)."""
    if len(l) == 1:
        b = 0 if frozen[0] else int(l[0] < 0)
        return [float(l[0])], [b], np.array([b])
    h = len(l) // 2
    L1, d1, x1 = sc(boxp(l[:h], l[h:]), frozen[:h])
    L2, d2, x2 = sc(l[h:] + (1 - 2 * x1) * l[:h], frozen[h:])
    return L1 + L2, d1 + d2, np.concatenate([x1 ^ x2, x2])


@section("D04", 100, 1000, scaled=False)
def sc_large(m, r, i):
    mu = int(r.integers(5, 10 if m.thorough else 9))
    n = 1 << mu
    nf = int(r.integers(0, n)) if r.integers(0, 2) else int(r.integers(n // 4, n - n // 8))
    frozen = r.choice(n, size=nf, replace=False)
    if r.integers(0, 2):  # the reliable half active
        z = np.array([0.5])
        for _ in range(mu):
            z = np.concatenate([2 * z - z * z, z * z])
        frozen = np.argsort(-z)[:nf]
    c = komm.PolarCode(mu, np.sort(frozen))
    u = r.integers(0, 2, size=c.dimension)
    s = float(r.choice([0.0, 0.5, 1.0, 3.0]))
    v = np.asarray(c.encode(u), int)
    l = ((1.0 - 2 * v) + s * r.normal(size=n)) * 10.0 ** (r.uniform(-1, 1.5) if r.integers(0, 3) else r.uniform(-6, 7))
    m.note(mu=mu, frozen=np.sort(frozen), l=l)
    fr = np.isin(np.arange(n), frozen)
    L, d, _ = sc(l, fr)
    L, d = np.array(L), np.array(d)
    act = np.flatnonzero(~fr)
    got = np.asarray(komm.SCDecoder(c).decode(l), float)
    tol = 1e-8 * np.abs(l).sum()
    amb = np.flatnonzero(np.abs(L[act]) <= tol)
    upto = len(act) if not len(amb) else int(amb[0])  # a decision that close to zero may go either way
    m.ok(np.all(np.abs(got[:upto] - L[act][:upto]) <= tol), lambda: f"L-values: observed {got[:upto].tolist()} expected {L[act][:upto].tolist()}")
    hard = np.asarray(komm.SCDecoder(c, output_type="hard").decode(l), int)
    m.arr(hard[:upto], d[act][:upto], "hard decisions")
    if s == 0:
        m.tag("noiseless")
        if upto == len(act):
            m.arr(hard, u, "noiseless message")


# ---------------------------------------------------------------- trellis dynamic programming
class Table:
    """Trellis of a convolutional code as arrays: nxt[s, x], out[s, x] (bits LSB first)."""

    def __init__(self, c):
        S, X = 1 << c.sigma, 1 << c.k
        self.nxt, self.out = np.zeros((S, X), int), np.zeros((S, X), int)
        A, B, C, D = [np.asarray(a, int) for a in c.code.state_space_representation()]
        sv, xv = ref.all_words(c.sigma), ref.all_words(c.k)
        for x in range(X):
            t = (sv @ A + xv[x] @ B) % 2
            y = (sv @ C + xv[x] @ D) % 2
            self.nxt[:, x] = t @ (1 << np.arange(c.sigma)) if c.sigma else 0
            self.out[:, x] = y @ (1 << np.arange(c.n))
        self.S, self.X = S, X

    def viterbi(self, cost):
        met = np.full(self.S, np.inf)
        met[0] = 0
        for z in cost:
            new = np.full(self.S, np.inf)
            np.minimum.at(new, self.nxt, met[:, None] + z[self.out])
            met = new
        return met

    def bcjr(self, logp, final):
        """log P of each input per stage; logp[t, y] log-likelihoods, final: log weights of the last state."""
        T = len(logp)
        al = np.full((T + 1, self.S), -np.inf)
        al[0, 0] = 0
        for t in range(T):
            np.logaddexp.at(al[t + 1], self.nxt, al[t][:, None] + logp[t][self.out])
        be = final
        post = np.zeros((T, self.X))
        for t in range(T - 1, -1, -1):
            e = logp[t][self.out] + be[self.nxt]
            post[t] = np.logaddexp.reduce(al[t][:, None] + e, axis=0)
            be = np.logaddexp.reduce(e, axis=1)
        return post


def costs(c, z, soft):
    B = ref.all_words(c.n)
    z = np.asarray(z).reshape(-1, c.n)
    return z.astype(float) @ B.T if soft else (B[None] != z[:, None, :]).sum(axis=2).astype(float)


def big_conv(r, max_sigma=7, nmax=7):
    """Codes with many states or many output bits; the tail of a zero-terminated frame is unique."""
    while True:
        t = int(r.integers(0, 6))
        if t == 0:
            n, nu = int(r.integers(3, nmax + 1)), int(r.integers(1, 5))
            c = gconv.named_conv(("low", [int(x) | 1 << nu for x in r.integers(0, 1 << nu, size=n)]))
        elif t == 1:
            c = gconv.named_conv(("ff", [[0o133, 0o171]] if r.integers(0, 2) else [[0o117, 0o155, 0o127]]))
        elif t == 2:
            nu = int(r.integers(4, max_sigma + 1))
            q = int(r.integers(0, 1 << nu)) | 1 | 1 << nu
            c = gconv.named_conv(("fb", [[q] + [int(x) for x in r.integers(1, 1 << (nu + 1), size=int(r.integers(1, 4)))]], [q]))
        elif t == 3:
            nu = int(r.integers(2, 4))
            n = int(r.integers(2, 6))
            P = [[int(x) for x in r.integers(0, 1 << (nu + 1), size=n)] for _ in range(2)]
            P[0][0] |= 1 << nu
            P[1][-1] |= 1 << nu
            c = gconv.named_conv(("ff", P))
        elif t == 4:
            h = [int(x) for x in r.integers(1, 1 << 5, size=int(r.integers(2, 4)))]
            h[-1] |= 1
            c = gconv.named_conv(("high", h))
        else:
            nu = int(r.integers(1, max_sigma + 1))
            c = gconv.named_conv(("ff", [[int(x) | 1 | 1 << nu for x in r.integers(0, 1 << nu, size=int(r.integers(1, 4)))]]))
        if 1 <= c.sigma <= max_sigma and c.k <= c.n:
            return c


def unique_tail(c):
    """Whether exactly one tail takes each state to zero: the decision is then the best codeword."""
    A, B = [np.asarray(a, int) for a in c.code.state_space_representation()[:2]]
    rows = [B]
    for _ in range(max(c.nu) - 1):
        rows.append(rows[-1] @ A % 2)
    W = np.vstack(rows)
    return len(W) == c.sigma and ref.rank(W) == c.sigma


def big_terminated(r, soft_len=None):
    while True:
        c = big_conv(r)
        mode = "zero-termination" if r.integers(0, 2) else "direct-truncation"
        if mode == "zero-termination" and not unique_tail(c):
            continue
        T = min(logint(r, 5, 200), max(5, 12000 // (1 << (c.sigma + c.k))))
        t = komm.TerminatedConvolutionalCode(c.code, T, mode)
        if not (np.asarray(t.encode(np.zeros(t.dimension, int))) == 0).all():
            continue
        return c, t, T, mode


@section("D05", 400, 4000, scaled=False)
def viterbi_large(m, r, i):
    c, t, h, mode = big_terminated(r)
    soft = bool(i & 1)
    u = r.integers(0, 2, size=t.dimension)
    v = np.asarray(t.encode(u), int)
    lev = int(r.integers(0, 4))
    if soft:
        z = (1.0 - 2 * v) + [0, 0.6, 1.2, 5.0][lev] * r.normal(size=v.shape)
        z *= 10.0 ** r.uniform(-4, 5)
    else:
        z = v ^ (r.random(v.shape) < [0, 0.06, 0.2, 0.5][lev])
    m.note(code=c, h=h, mode=mode, soft=soft, received=z)
    d = komm.ViterbiDecoder(t, input_type="soft") if soft else komm.ViterbiDecoder(t)
    got = np.asarray(d.decode(z if soft else gen.cast(r, z)), int)
    m.shape(got, (t.dimension,), "message length")
    w = np.asarray(t.encode(got), int)
    met = Table(c).viterbi(costs(c, z, soft))
    best = float(met[0] if mode == "zero-termination" else met.min())
    mine = float(w @ z) if soft else float((w != z).sum())
    m.ok(mine <= best + 1e-9 * (1 + np.abs(z).sum()) if soft else mine == best, lambda: f"metric of the decision {mine}, best path {best}")
    if lev == 0:
        # a code that is not one-to-one on its frames may return another message with the same codeword
        m.arr(w, v, "noiseless word")
    m.tag(f"{mode} sigma={c.sigma} n={c.n}")


@section("D06", 120, 1200, scaled=False)
def bcjr_large(m, r, i):
    c, t, h, mode = big_terminated(r)
    u = r.integers(0, 2, size=t.dimension)
    v = np.asarray(t.encode(u), int)
    a = 10.0 ** r.uniform(-2, 2.5)
    L = a * ((1 - 2 * v) + float(r.choice([0.0, 0.7, 2.0])) * r.normal(size=v.shape))
    m.note(code=c, h=h, mode=mode, L=L)
    got = np.asarray(komm.BCJRDecoder(t).decode(L), float)
    lp = -costs(c, L, True)
    fin = np.zeros(1 << c.sigma)
    if mode == "zero-termination":
        fin = np.full(1 << c.sigma, -np.inf)
        fin[0] = 0
    post = Table(c).bcjr(lp, fin)[:h]
    X = ref.all_words(c.k)
    want = np.stack([np.logaddexp.reduce(post[:, X[:, b] == 0], axis=1) - np.logaddexp.reduce(post[:, X[:, b] == 1], axis=1) for b in range(c.k)], axis=1).reshape(-1)
    good = np.abs(got - want) <= 1e-9 * (1 + np.abs(L).sum())
    big = (np.abs(want) > 600) & (got * want > 0)
    m.ok(np.all(good | big), lambda: f"L-values: observed {got.tolist()} expected {want.tolist()}")
    hard = np.asarray(komm.BCJRDecoder(t, output_type="hard").decode(L), int)
    m.arr(hard, (got < 0).astype(int), "hard output is the sign")
    m.tag(f"{mode} sigma={c.sigma} h={h}")


@section("D07", 100, 1000, scaled=False)
def stream_large(m, r, i):
    long = i % 3 == 0
    c = gconv.named_conv(("ff", [[7, 5]])) if long else big_conv(r, 6, 6)
    tau = int(r.integers(1, 8 * (c.sigma + 1)))
    T = tau + (int(r.integers(400, 1500)) if long else int(r.integers(20, 120)))
    tab = Table(c)
    fsm = [[(int(a), int(b)) for a, b in zip(x, y)] for x, y in zip(tab.nxt, tab.out)]
    soft = bool(r.integers(0, 2))
    s0 = int(r.integers(0, tab.S)) if r.integers(0, 2) else 0
    u = r.integers(0, 2, size=T * c.k)
    v = np.asarray(c.code.encode_with_state(u, ref.i2v(s0, c.sigma))[0], int)
    if soft:
        z = ((1.0 - 2 * v) + r.normal(size=v.shape) * float(r.choice([0.3, 1.0]))) * 10.0 ** r.uniform(-3, 4)
    else:
        z = v ^ (r.random(v.shape) < float(r.choice([0.02, 0.1, 0.5])))
    m.note(code=c, tau=tau, s0=s0, soft=soft, T=T, z=z)
    kw = dict(traceback_length=tau, state=s0, input_type="soft" if soft else "hard")
    whole = np.asarray(komm.ViterbiStreamDecoder(c.code, **kw).decode(z), int)
    d, parts, p = komm.ViterbiStreamDecoder(c.code, **kw), [], 0
    while p < T:
        q = min(T, p + logint(r, 1, 300))
        parts.append(np.asarray(d.decode(z[p * c.n:q * c.n]), int))
        p = q
    m.arr(np.concatenate(parts), whole, "chunked decoding = decoding at once")
    cost = costs(c, z, soft)
    sets = fixed_lag_sets(fsm, cost.tolist(), s0, tau)
    xs = whole.reshape(T, c.k) @ (1 << np.arange(c.k))
    for t in range(tau, T):
        m.ok(int(xs[t]) in sets[t], lambda: f"stage {t}: decision {xs[t]} not among the fixed-lag decisions {sorted(sets[t])}")


# ---------------------------------------------------------------- V
def wide_conv(r):
    """Long memories (up to 60), many inputs and outputs."""
    while True:
        t = int(r.integers(0, 4))
        if t == 0:
            n, nu = int(r.integers(1, 5)), logint(r, 8, 60)
            c = gconv.named_conv(("low", [int.from_bytes(r.bytes(8), "little") % (1 << (nu + 1)) | 1 << nu if a == 0 else int.from_bytes(r.bytes(8), "little") % (1 << (nu + 1)) for a in range(n)]))
        elif t == 1:
            n, nu = int(r.integers(2, 7)), logint(r, 5, 40)
            h = [int.from_bytes(r.bytes(8), "little") % (1 << (nu + 1)) for _ in range(n)]
            h[-1] |= 1
            h[0] |= 1 << nu
            c = gconv.named_conv(("high", h))
        else:
            k = int(r.integers(1, 6))
            n = int(r.integers(k, 13))
            P, q = [], []
            for _ in range(k):
                nu = logint(r, 1, 20)
                P.append([int(x) for x in r.integers(0, 1 << (nu + 1), size=n)])
                q.append((int(r.integers(0, 1 << (nu + 1))) | 1) if t == 3 else 1)
            if not all(any(row) for row in P):
                continue
            c = gconv.named_conv(("fb", P, q))
        if c.sigma > 0:
            return c


@section("V01", 240, 2400, scaled=False)
def encode_large(m, r, i):
    c = wide_conv(r)
    T = int(r.integers(1, 40)) + (max(c.nu) if r.integers(0, 2) else 0)
    u = r.integers(0, 2, size=T * c.k)
    m.note(code=c, u=u)
    v = np.asarray(c.code.encode(gen.cast(r, u)), int)
    m.arr(v, c.encode(u), "encode = power-series multiplication by P/q")
    p = int(r.integers(0, T + 1)) * c.k
    a, s = c.code.encode_with_state(u[:p], np.zeros(c.sigma, int))
    b, e = c.code.encode_with_state(u[p:], s)
    m.arr(np.concatenate([np.asarray(a, int), np.asarray(b, int)]), v, "two chunks = at once")
    m.tag(f"{c.kind}")


@section("V01", 10, 80, scaled=False)
def encode_long(m, r, i):
    c = big_conv(r)
    T = int(r.integers(2000, 6000))
    u = r.integers(0, 2, size=T * c.k)
    m.note(code=c, T=T)
    m.arr(np.asarray(c.code.encode(u), int), c.encode(u), "long message")


@section("V02", 200, 2000, scaled=False)
def representations_large(m, r, i):
    c = wide_conv(r)
    code = c.code
    m.note(code=c)
    m.eq((code.num_input_bits, code.num_output_bits, code.degree), (c.k, c.n, c.sigma), "sizes")
    m.eq([int(x) for x in code.constraint_lengths], c.nu, "constraint lengths")
    m.eq((code.overall_constraint_length, code.memory_order), (sum(c.nu), max(c.nu)), "overall constraint length and memory order")
    Gm = code.generator_matrix
    for a in range(c.k):
        for b in range(c.n):
            num, den = int(Gm[a, b].numerator), int(Gm[a, b].denominator)
            m.ok(ref.pmul(num, c.q[a]) == ref.pmul(c.P[a][b], den) and ref.pgcd(num, den) == 1, f"G[{a},{b}] = {num:#b}/{den:#b}")
    A, B, C, D = [np.asarray(x, int) for x in code.state_space_representation()]
    T = int(r.integers(2, 60))
    u = r.integers(0, 2, size=(T, c.k))
    s, out = np.zeros(c.sigma, int), []
    for a in u:
        out.append((s @ C + a @ D) % 2)
        s = (s @ A + a @ B) % 2
    m.arr(np.concatenate(out), c.encode(u.reshape(-1)), "state-space output from zero = transfer function")


@section("V02", 40, 400, scaled=False)
def machine_large(m, r, i):
    c = big_conv(r, 9, 12)
    if i % 2:
        n = int(r.integers(5, 13))
        c = gconv.named_conv(("low", [int(x) | 4 for x in r.integers(0, 4, size=n)]))
    m.note(code=c)
    f, t = c.code.finite_state_machine(), Table(c)
    m.arr(np.asarray(f.transitions, int), t.nxt, "transitions of the machine = state space")
    m.arr(np.asarray(f.outputs, int), t.out, "outputs of the machine = state space")
    x = r.integers(0, 1 << c.k, size=50)
    y, _ = f.process(x, 0)
    m.arr(ref.all_words(c.n)[np.asarray(y, int)].reshape(-1), c.encode(ref.all_words(c.k)[x].reshape(-1)), "machine output = transfer function")


@section("V03", 240, 2400, scaled=False)
def distance_large(m, r, i):
    t = i % 4
    if t == 0:  # many output bits
        n, nu = int(r.integers(5, 15)), int(r.integers(1, 5))
        c = gconv.named_conv(("low", [int(x) | 1 << nu for x in r.integers(0, 1 << nu, size=n)]))
    elif t == 1:
        c = big_conv(r, 9, 8)
    elif t == 2:
        nu = int(r.integers(6, 10))
        c = gconv.named_conv(("ff", [[int(x) | 1 | 1 << nu for x in r.integers(0, 1 << nu, size=int(r.integers(2, 5)))]]))
    else:  # planted common factors of higher degree, delays included
        g = ref.pmul(int(r.integers(1, 64)), 1 << int(r.integers(0, 3)))
        c = gconv.named_conv(("ff", [[ref.pmul(g, int(x)) for x in r.integers(1, 16, size=int(r.integers(2, 4)))]]))
    if sum(c.nu) > 10 or gconv.smith_minors_gcd(c.P, c.n) == 0:
        return m.trivial()
    m.note(code=c)
    tr = Trellis(c)
    cat = _catastrophic(tr)
    m.eq(bool(c.code.is_catastrophic()), cat, "is_catastrophic")
    if not cat:
        m.eq(int(c.code.free_distance()), tr.free_distance(), "free distance")
    m.tag("catastrophic" if cat else "non-catastrophic")


@section("V03", 240, 2400, scaled=False)
def catastrophic_large(m, r, i):
    """Degrees too large for a trellis: the verdict from the gcd of the minors (polynomial generators)."""
    k = int(r.integers(1, 4))
    n = int(r.integers(k, 6))
    g = [1, 2, 8, 3, 7, 0b1011, 0b100101, 0b110][int(r.integers(0, 8))]
    P = [[int.from_bytes(r.bytes(3), "little") >> int(r.integers(4, 20)) for _ in range(n)] for _ in range(k)]
    P[0] = [ref.pmul(g, p) for p in P[0]]
    d = gconv.smith_minors_gcd(P, n)
    if d == 0 or max(max(map(ref.deg, row)) for row in P) > 30:
        return m.trivial()
    m.note(P=P)
    m.eq(bool(komm.ConvolutionalCode(P).is_catastrophic()), d & (d - 1) != 0, "is_catastrophic")
    m.tag("catastrophic" if d & (d - 1) else "non-catastrophic")


@section("V04", 120, 1200, scaled=False)
def termination_large(m, r, i):
    mode = ["direct-truncation", "zero-termination", "tail-biting"][i % 3]
    c = big_conv(r, 8, 5)
    h = logint(r, 10, 400)
    m.note(code=c, h=h, mode=mode)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    A, B, C, D = [np.asarray(x, int) for x in c.code.state_space_representation()]
    mu = max(c.nu)
    u = r.integers(0, 2, size=(3, h * c.k))
    try:
        v = np.asarray(t.encode(u), int)
    except ValueError:
        m.ok(mode == "tail-biting", "only tail-biting may be impossible")
        m.tag("tail-biting impossible")
        return m.trivial()
    N = (h + (mu if mode == "zero-termination" else 0)) * c.n
    m.shape(v, (3, N), "codewords")
    m.eq((t.length, t.dimension), (N, h * c.k), "length and dimension")
    m.arr(np.asarray(t.encode(u[0] ^ u[1]), int), v[0] ^ v[1], "linear")
    if mode != "tail-biting":
        for x, y in zip(u, v):
            m.arr(y[:h * c.n], c.encode(x), "codeword begins with the encoder's outputs")
    tab = Table(c)
    if mode == "zero-termination":
        met = [tab.viterbi(costs(c, y, False))[0] for y in v]
        m.eq(met, [0, 0, 0], "the codeword is the output along a path from state zero to state zero")
    if mode == "tail-biting":
        for y in v:  # some state starts and ends an exactly matching path
            z = costs(c, y, False)
            ok = False
            for s0 in range(tab.S) if tab.S <= 64 else ():
                met = np.full(tab.S, np.inf)
                met[s0] = 0
                for q in z:
                    new = np.full(tab.S, np.inf)
                    np.minimum.at(new, tab.nxt, met[:, None] + q[tab.out])
                    met = new
                if met[s0] == 0:
                    ok = True
                    break
            m.ok(ok or tab.S > 64, "some state both starts and ends the codeword's path")
    m.tag(mode)


# ---------------------------------------------------------------- F
def big_machine(r, smax=600, xmax=40, ymax=3000, wide=0):
    S, X, Y = logint(r, 5, smax), logint(r, 1, xmax), logint(r, 2, ymax)
    if wide == 1:  # state numbers beyond one byte
        S, X = logint(r, 257, 700), logint(r, 1, 3)
    elif wide == 2:  # input symbols beyond one byte
        S, X = logint(r, 2, 8), logint(r, 257, 500)
    T = r.integers(0, S, size=(S, X))
    if r.integers(0, 3) == 0:
        T = (np.arange(S)[:, None] + np.arange(X)[None, :] + 1) % S
    return S, X, Y, T, r.integers(0, Y, size=(S, X))


@section("F01", 240, 2400, scaled=False)
def process_large(m, r, i):
    S, X, Y, T, O = big_machine(r)
    moore = bool(i & 1)
    O = O[:, 0] if moore else O
    L = logint(r, 50, 1500)
    x = r.integers(0, X, size=L)
    s0 = int(r.integers(0, S))
    m.note(S=S, X=X, Y=Y, moore=moore, L=L, s0=s0)
    f = (komm.MooreMachine if moore else komm.MealyMachine)(T, O)
    s, y = s0, []
    for a in x.tolist():
        if moore:
            s = int(T[s, a])
            y.append(int(O[s]))
        else:
            y.append(int(O[s, a]))
            s = int(T[s, a])
    dt = [d for d in (int, np.uint8, np.int16, np.uint16, np.int32) if X - 1 <= np.iinfo(d).max]
    got, end = f.process(x.astype(dt[int(r.integers(0, len(dt)))]), s0)
    m.arr(np.asarray(got, int), np.array(y, int), "outputs")
    m.eq(int(end), s, "final state")
    m.eq((f.num_states, f.num_input_symbols, f.num_output_symbols), (S, X, int(O.max()) + 1), "alphabet sizes")
    if not moore and S <= 200:
        ie, oe = np.asarray(f.input_edges), np.asarray(f.output_edges)
        have = np.zeros((S, S), bool)
        have[np.repeat(np.arange(S), X), T.reshape(-1)] = True
        m.arr(ie >= 0, have, "an input edge exactly where there is a transition")
        a, b = np.nonzero(have)
        m.ok(np.all(T[a, ie[a, b]] == b) and np.all(O[a, ie[a, b]] == oe[a, b]), "edge tables name a transition of the machine")


@section("F02", 120, 1200, scaled=False)
def viterbi_machine_large(m, r, i):
    S, X, Y, T, O = big_machine(r, 80, 8, 60, {3: 1, 5: 2}.get(i % 12, 0))
    L = max(6, min(logint(r, 5, 150), 25000 // (S * X)))
    M = r.normal(size=(L, Y)) * 10.0 ** r.uniform(-3, 5)
    if r.integers(0, 3) == 0:
        M[r.random(M.shape) < 0.1] = np.inf
    init = np.where(r.random(S) < 0.3, np.inf, r.normal(size=S) * 3)
    init[int(r.integers(0, S))] = 0.0
    m.note(T=T, O=O, M=M, init=init)
    f = komm.MealyMachine(T, O)
    xs, fm = f.viterbi(np.arange(L), lambda y, z: float(M[int(z), int(y)]), init)
    met = init.copy()
    for z in M:
        new = np.full(S, np.inf)
        np.minimum.at(new, T, met[:, None] + z[O])
        met = new
    sc = 1e-9 * (1 + np.abs(M[np.isfinite(M)]).sum() / Y + 10)
    fm = np.asarray(fm, float)
    m.ok(np.all((fm == met) | (np.abs(fm - met) <= sc)), lambda: f"final metrics {fm.tolist()} expected {met.tolist()}")
    # replay: the returned inputs lead to the state with that metric from the best start
    for s1 in r.choice(S, size=min(S, 6), replace=False):
        if not np.isfinite(met[s1]):
            continue
        s, c = np.arange(S), init.copy()
        for t in range(L):
            a = int(xs[t, s1])
            c = c + M[t][O[s, a]]
            s = T[s, a]
        c = np.where(s == s1, c, np.inf)
        m.ok(c.min() <= met[s1] + sc, lambda: f"final state {s1}: returned inputs cost {c.min()}, best {met[s1]}")


@section("F02", 60, 600, scaled=False)
def streaming_large(m, r, i):
    wide = {3: 1, 5: 2}.get(i % 12, 0)
    S, X, Y, T, O = big_machine(r, 30, 5, 20, wide)
    tau = int(r.integers(1, 8 if wide else 40))
    L = tau + max(10, min(logint(r, 10, 300), 20000 // (S * X)))
    M = r.normal(size=(L, Y)) * 10.0 ** r.uniform(-2, 4)
    s0 = int(r.integers(0, S))
    m.note(T=T, O=O, M=M, tau=tau, s0=s0)
    f = komm.MealyMachine(T, O)
    mem = {"paths": np.zeros((S, tau + 1), int), "metrics": np.full((S, tau + 1), np.inf)}
    mem["metrics"][s0, -1] = 0.0
    mem["paths"][s0, -1] = s0
    out, p = [], 0
    while p < L:
        q = min(L, p + logint(r, 1, 60))
        out += np.asarray(f.viterbi_streaming(np.arange(p, q), lambda y, z: float(M[int(z), int(y)]), mem), int).tolist()
        p = q
    fsm = [[(int(T[s, x]), int(O[s, x])) for x in range(X)] for s in range(S)]
    sets = fixed_lag_sets(fsm, M.tolist(), s0, tau)
    for t in range(tau, L):
        m.ok(out[t] in sets[t], lambda: f"stage {t}: decision {out[t]} not among the fixed-lag decisions {sorted(sets[t])}")


@section("F03", 120, 1200, scaled=False)
def posteriors_large(m, r, i):
    S, X, Y, T, O = big_machine(r, 40, 8, 40, {3: 1, 5: 2}.get(i % 24, 0))
    L = max(3, min(logint(r, 5, 120), 9000 // (S * X)))
    M = r.normal(size=(L, Y)) * 10.0 ** r.uniform(-2, 2.5)
    tiny = i % 3 == 2

    def pmf(shape):
        p = np.where(r.random(shape) < 0.2, 0.0, 10.0 ** r.uniform(-300, 0, size=shape) if tiny else r.random(shape) ** 3)
        tot = p.sum(axis=-1, keepdims=True)
        return np.where(tot > 0, p / np.where(tot > 0, tot, 1), 1 / shape[-1])
    kw, pri, ini, fin = {}, np.full((L, X), 1 / X), np.full(S, 1 / S), np.full(S, 1 / S)
    if r.integers(0, 2):
        kw["input_priors"] = pri = pmf((L, X))
    if r.integers(0, 2):
        kw["initial_state_distribution"] = ini = pmf((S,))
    if r.integers(0, 2):
        kw["final_state_distribution"] = fin = pmf((S,))
    m.note(T=T, O=O, M=M, **kw)
    with np.errstate(divide="ignore"):
        lp, al, be = np.log(pri), [np.log(ini)], np.log(fin)
    for t in range(L):
        a = np.full(S, -np.inf)
        np.logaddexp.at(a, T, al[t][:, None] + lp[t][None, :] + M[t][O])
        al.append(a)
    if not np.isfinite(np.logaddexp.reduce(al[L] + be)):
        return m.trivial()
    want = np.zeros((L, X))
    for t in range(L - 1, -1, -1):
        e = lp[t][None, :] + M[t][O] + be[T]
        w = np.logaddexp.reduce(al[t][:, None] + e, axis=0)
        w = np.exp(w - w.max())
        want[t] = w / w.sum()
        be = np.logaddexp.reduce(e, axis=1)
    got = np.asarray(komm.MealyMachine(T, O).forward_backward(np.arange(L), lambda y, z: float(M[int(z), int(y)]), **kw), float)
    m.close(got, want, "posteriors", rtol=1e-6, atol=1e-9 * (1 + np.abs(M).max() * L))
