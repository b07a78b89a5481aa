"""D01-D07: decoders."""
import math

import numpy as np

import komm

from . import gconv, gen, ref
from .core import rule, section

rule("D01", "Random block codes of every constructor; every word (short codes) or random words and random error patterns, in "
     "every integer/boolean representation and batch shape; the oracle is the exhaustive minimum distance to the codebook.")
rule("D02", "All (mu, delta) BCH codes and (rho, mu) Reed-Muller codes in range; random codewords with error patterns of every "
     "weight within the guarantee (all patterns for short codes); soft Reed rule re-computed from the check-sum partition.")
rule("D03", "Random codes and real vectors (scales, integers, ties, extreme dtypes); oracle is the largest correlation over the codebook.")
rule("D04", "Random polar codes and L-values (ties skipped); oracles: exact marginalisation over future bits (short codes), an "
     "independent recursion (longer), and noiseless words including infinite L-values.")
rule("D05", "Random terminated codes of every encoder form; oracle is exhaustive search over the codebook; error-free words.")
rule("D06", "Random terminated codes and finite L-values over six orders of magnitude; oracle is the log-sum over the codebook.")
rule("D07", "Random codes, chunkings, traceback lengths and initial states, hard and soft, noisy and clean; oracle is the set of "
     "fixed-lag decisions over all metric-optimal paths.")


def book(s):
    G = np.asarray(s.space())
    return ref.codebook(G)


def batched(r, words):
    """Arrange a list of words into a random batch shape; returns array (words repeated if needed)."""
    lead, b = gen.batch_shape(r)
    cnt = int(np.prod(lead, dtype=int)) * b
    idx = np.resize(np.arange(len(words)), cnt)
    W = np.asarray(words)[idx]
    return W.reshape(lead + (b * W.shape[1],)), W


# ---------------------------------------------------------------- D01
def _ml_check(m, s, C, W, U, what):
    """U: decoded messages for words W; each must be a nearest codeword."""
    G = np.asarray(s.code.generator_matrix).astype(int)
    V = U.astype(int) @ G % 2
    d = (V != W).sum(axis=1)
    W = np.asarray(W, dtype=int)
    best = np.array([np.min((C != w).sum(axis=1)) for w in W])
    m.arr(d, best, f"{what}: distance of the decoded codeword = minimum distance of the word from the code")


@section("D01", 700, 8000)
def hard_ml(m, r, i):
    s = gen.rand_spec(r, kmax=7, mmax=7, nmax=15)
    m.note(code=s)
    C = book(s)
    if s.n <= 8 and r.integers(0, 2):
        W = ref.all_words(s.n)
    else:
        W = r.integers(0, 2, size=(40, s.n))
    st, es = komm.SyndromeTableDecoder(s.code), komm.ExhaustiveSearchDecoder(s.code)
    for dec, what in ((st, "syndrome table"), (es, "exhaustive search")):
        U = np.asarray(dec.decode(gen.cast(r, W)))
        m.shape(U, (len(W), s.k), what)
        m.ok(set(np.unique(U).tolist()) <= {0, 1}, f"{what}: output bits")
        _ml_check(m, s, C, W, U, what)
    # errors within the packing radius are undone
    wts = C.sum(axis=1)
    dmin = int(wts[wts > 0].min()) if s.k else s.n
    t = (dmin - 1) // 2
    u = r.integers(0, 2, size=(12, s.k))
    v = np.asarray(s.code.encode(u), int)
    e = np.zeros_like(v)
    for row in e:
        row[r.choice(s.n, size=int(r.integers(0, t + 1)), replace=False)] = 1
    rx, flat = batched(r, (v + e) % 2)
    want = np.resize(np.arange(12), len(flat))
    for dec, what in ((st, "syndrome table"), (es, "exhaustive search")):
        got = np.asarray(dec.decode(gen.cast(r, rx)), int)
        m.shape(got, rx.shape[:-1] + (rx.shape[-1] // s.n * s.k,), what)
        m.arr(got.reshape(-1, s.k), u[want], f"{what}: errors of weight <= {t} corrected")
    m.tag(f"t={t}")


@section("D01", 60, 600)
def hard_ml_terminated(m, r, i):
    while True:
        c = gconv.rand_conv(r, max_nu=2, kmax=2, nmax=3, max_states=8)
        mode = ["direct-truncation", "zero-termination", "tail-biting"][int(r.integers(0, 3))]
        h = int(r.integers(1, 4))
        try:
            t = komm.TerminatedConvolutionalCode(c.code, h, mode)
            G = np.asarray(t.generator_matrix, int)
        except ValueError:
            continue  # tail-biting impossible (V04 decides when)
        if t.length <= 12 and t.dimension <= 6 and ref.rank(ref.rows2i(G)) == t.dimension:
            break
    m.note(code=c, mode=mode, h=h)
    s = gen.Spec("term", t, t.length, t.dimension, G=G)
    C = book(s)
    W = r.integers(0, 2, size=(20, t.length))
    U = np.asarray(komm.ExhaustiveSearchDecoder(t).decode(W))
    _ml_check(m, s, C, W, U, "exhaustive search")
    if t.length > t.dimension:
        U = np.asarray(komm.SyndromeTableDecoder(t).decode(W))
        _ml_check(m, s, C, W, U, "syndrome table")


# ---------------------------------------------------------------- D02
BCH = {}


def bch_cases(mus):
    out = []
    for mu in mus:
        deltas = []
        for d in range(2, 2 ** mu):
            try:
                komm.BCHCode(mu, d)
                deltas.append((mu, d))
            except ValueError:
                pass
        out += deltas
    return out


def _bch(m):
    key = m.thorough
    if key not in BCH:
        BCH[key] = bch_cases((2, 3, 4, 5, 6) if key else (2, 3, 4, 5))
    return BCH[key]


@section("D02", 160, 1500)
def berlekamp(m, r, i):
    cases = _bch(m)
    mu, delta = cases[i % len(cases)]
    m.note(mu=mu, delta=delta, case=i)
    c = komm.BCHCode(mu, delta)
    dec = komm.BerlekampDecoder(c)
    n, k, t = c.length, c.dimension, (delta - 1) // 2
    ws = list(range(t + 1)) if t <= 3 else sorted({0, 1, 2, t - 1, t, int(r.integers(0, t + 1))})
    rows, us = [], []
    for w in ws:
        u = r.integers(0, 2, size=k)
        v = np.asarray(c.encode(u), int)
        pos = r.choice(n, size=w, replace=False)
        if r.integers(0, 3) == 0:
            pos = (int(r.integers(0, n)) + np.arange(w)) % n  # burst, includes position 0 / n-1 often
        v[pos] ^= 1
        rows.append(v)
        us.append(u)
        m.tag(f"weight={w}")
    rx, _ = batched(r, rows)
    got = np.asarray(dec.decode(gen.cast(r, rx)), int)
    cnt = rx.size // n
    m.shape(got, rx.shape[:-1] + (rx.shape[-1] // n * k,), "output")
    m.arr(got.reshape(-1, k), np.array(us)[np.resize(np.arange(len(us)), cnt)], f"every pattern of weight <= {t} corrected")
    if cnt < len(rows):
        m.arr(np.asarray(dec.decode(np.array(rows)), int), np.array(us), f"every pattern of weight <= {t} corrected")
    # a word with more errors still decodes to k bits
    x = np.asarray(dec.decode(r.integers(0, 2, size=n)))
    m.shape(x, (k,), "decoding an arbitrary word")


@section("D02", 8, 14, exhaustive=True)
def berlekamp_all_patterns(m, r, i):
    import itertools
    cases = [(2, 3), (3, 3), (3, 7), (4, 3), (4, 5), (4, 7), (3, 3), (4, 3), (4, 15), (5, 3), (5, 5), (4, 5), (4, 7), (5, 3)]
    mu, delta = cases[i]
    m.note(mu=mu, delta=delta, case=i)
    c = komm.BCHCode(mu, delta)
    n, k, t = c.length, c.dimension, min((delta - 1) // 2, 3)
    u = r.integers(0, 2, size=k)
    v = np.asarray(c.encode(u), int)
    pats = [p for w in range(t + 1) for p in itertools.combinations(range(n), w)]
    W = np.repeat(v[None, :], len(pats), axis=0)
    for row, p in zip(W, pats):
        row[list(p)] ^= 1
    got = np.asarray(komm.BerlekampDecoder(c).decode(W), int)
    m.arr(got, np.repeat(u[None, :], len(pats), axis=0), f"all {len(pats)} patterns of weight <= {t} corrected")


def _reed_rule(G, parts, rx, soft):
    """Sequential majority rule; returns (message, reached) where decisions after a tie are undefined."""
    G = np.asarray(G).astype(int)
    bits = [int(x < 0) for x in rx] if soft else [int(x) for x in rx]
    out = []
    for j, P in enumerate(parts):
        score = 0.0
        for S in np.asarray(P).tolist():
            c = 0
            for p in S:
                c ^= bits[p]
            rel = min(abs(float(rx[p])) for p in S) if soft else 1.0
            score += (1 - 2 * c) * rel
        if abs(score) <= 1e-9 * (1 + max(abs(float(x)) for x in rx) * len(rx)):
            return out, False
        b = int(score < 0)
        out.append(b)
        if b:
            bits = [x ^ int(y) for x, y in zip(bits, G[j])]
    return out, True


@section("D02", 250, 3000)
def reed(m, r, i):
    pairs = [(rho, mu) for mu in range(1, 7 if m.thorough else 6) for rho in range(mu)]
    rho, mu = pairs[i % len(pairs)]
    m.note(rho=rho, mu=mu, case=i)
    c = komm.ReedMullerCode(rho, mu)
    n, k = c.length, c.dimension
    t = (2 ** (mu - rho) - 1) // 2
    hard = komm.ReedDecoder(c) if r.integers(0, 2) else komm.ReedDecoder(c, input_type="hard")
    soft = komm.ReedDecoder(c, input_type="soft")
    G = c.generator_matrix
    parts = c.reed_partitions()
    u = r.integers(0, 2, size=(6, k))
    v = np.asarray(c.encode(u), int)
    for row in v:
        row[r.choice(n, size=int(r.integers(0, t + 1)), replace=False)] ^= 1
    rx, flat = batched(r, v)
    idx = np.resize(np.arange(6), len(flat))
    m.note(rx=rx)
    m.arr(np.asarray(hard.decode(gen.cast(r, rx)), int).reshape(-1, k), u[idx], f"hard: weight <= {t} corrected")
    m.arr(np.asarray(hard.decode(v), int), u, f"hard: weight <= {t} corrected")
    amp = float(10.0 ** r.integers(-3, 4))
    m.arr(np.asarray(soft.decode(amp * (1 - 2 * rx)), int).reshape(-1, k), u[idx], f"soft with equal reliabilities: weight <= {t} corrected")
    # the decision rules on arbitrary input
    w = r.integers(0, 2, size=n)
    exp, full = _reed_rule(G, parts, w, False)
    m.arr(np.asarray(hard.decode(gen.cast(r, w)), int)[: len(exp)], np.array(exp, int), "hard majority rule on an arbitrary word")
    how = int(r.integers(0, 4))
    l = [lambda: r.normal(size=n), lambda: r.normal(1, 1, size=n) * 10.0 ** r.integers(-6, 6),
         lambda: r.integers(-128, 128, size=n).astype(np.int8), lambda: r.normal(size=n).astype(np.float32)][how]()
    m.note(soft=l)
    exp, full = _reed_rule(G, parts, l, True)
    m.arr(np.asarray(soft.decode(l), int)[: len(exp)], np.array(exp, int), "soft weighted majority rule")
    m.tag("complete" if full else "tie")


# ---------------------------------------------------------------- D03
def rand_soft(r, shape):
    how = int(r.integers(0, 9))
    if how == 0:
        return r.normal(size=shape)
    if how == 1:
        return r.normal(size=shape) * 10.0 ** float(r.integers(-8, 9))
    if how == 2:
        return r.integers(-3, 4, size=shape)
    if how == 3:
        return r.integers(-128, 128, size=shape).astype(np.int8)
    if how == 4:
        return r.integers(0, 200, size=shape).astype([np.uint8, np.uint16, np.uint32, np.uint64][int(r.integers(0, 4))])
    if how == 5:
        return r.normal(size=shape).astype(np.float32)
    if how == 6:
        return np.where(r.integers(0, 3, size=shape) == 0, 0.0, r.normal(size=shape))
    if how == 7:
        return np.abs(r.normal(size=shape)) * (1 - 2 * r.integers(0, 2, size=shape))
    return r.normal(size=shape) * 10.0 ** r.uniform(-6, 6, size=shape)


def _corr_check(m, V, C, L, what):
    L = np.asarray(L, dtype=float)
    S = (1 - 2 * C).astype(float)
    for v, l in zip(V, L):
        c = float((1 - 2 * v) @ l)
        best = float((S @ l).max())
        m.ok(c >= best - 1e-9 * (1e-300 + np.abs(l).sum()), lambda: f"{what}: correlation {c!r} of the decision, best {best!r}, input {l.tolist()}")


@section("D03", 500, 6000)
def soft_exhaustive(m, r, i):
    s = gen.rand_spec(r, kmax=7, mmax=8, nmax=15)
    C = book(s)
    cnt = 6
    L = rand_soft(r, (cnt, s.n))
    m.note(code=s, L=L)
    dec = komm.ExhaustiveSearchDecoder(s.code, input_type="soft")
    lead, b = gen.batch_shape(r)
    U = np.asarray(dec.decode(L if r.integers(0, 3) else L.tolist()), int)
    m.shape(U, (cnt, s.k), "output")
    _corr_check(m, U @ np.asarray(s.code.generator_matrix).astype(int) % 2, C, L, "soft exhaustive search")
    u2 = np.asarray(dec.decode(np.asarray(L).reshape(-1)), int)
    m.arr(u2, U.reshape(-1), "one flat sequence of blocks")
    v = np.asarray(s.code.encode(U), int)
    m.arr(np.asarray(dec.decode((1 - 2 * v) * np.abs(r.normal(1, 0.3, size=v.shape) + 0.01)), int), U, "noiseless soft word")


@section("D03", 400, 5000)
def wagner(m, r, i):
    n = int(r.integers(2, 13))
    cnt = 8
    L = rand_soft(r, (cnt, n))
    m.note(n=n, L=L)
    c = komm.SingleParityCheckCode(n)
    U = np.asarray(komm.WagnerDecoder(c).decode(L if r.integers(0, 3) else L.tolist()), int)
    m.shape(U, (cnt, n - 1), "output")
    W = ref.all_words(n)
    C = W[W.sum(axis=1) % 2 == 0]
    V = np.asarray(c.encode(U), int)
    _corr_check(m, V, C, L, "Wagner")
    m.arr(np.asarray(komm.WagnerDecoder(c).decode(L.reshape(2, -1)), int).reshape(-1), U.reshape(-1), "blockwise")


# ---------------------------------------------------------------- D04
def bp(a, b):
    """Box-plus from its definition, in a cancellation-free form."""
    if a == 0 or b == 0:
        return 0.0
    sg = math.copysign(1, a) * math.copysign(1, b)
    a, b = abs(a), abs(b)
    if math.isinf(a) and math.isinf(b):
        return sg * math.inf
    lo, hi = min(a, b), max(a, b)
    return sg * (lo + math.log1p(math.exp(-(lo + hi))) - math.log1p(math.exp(-(hi - lo))))


def sc_llr(l, prev, idx, cache):
    """L-value of bit idx given decisions prev[:idx] (polar transform u F^{(x)mu}, F = [[1,0],[1,1]])."""
    n = len(l)
    if n == 1:
        return l[0]
    h = n // 2
    if idx < h:
        return sc_llr([bp(x, y) for x, y in zip(l[:h], l[h:])], prev, idx, cache)
    left = list(prev[:h])
    K = cache[h]
    a = [int(x) for x in (np.array(left) @ K % 2)]
    return sc_llr([y + (-x if s else x) for x, y, s in zip(l[:h], l[h:], a)], prev[h:], idx - h, cache)


@section("D04", 350, 4000)
def sc_soft(m, r, i):
    mu = int(r.integers(1, 6 if m.thorough else 5))
    n = 1 << mu
    k = int(r.integers(1, n + 1))
    act = np.sort(r.choice(n, size=k, replace=False))
    fro = np.setdiff1d(np.arange(n), act)
    c = komm.PolarCode(mu, fro)
    K = ref.kron_pow(np.array([[1, 0], [1, 1]]), mu)
    kind = int(r.integers(0, 5))
    if kind == 0:
        l = r.normal(0, 2, size=n)
    elif kind == 1:
        full = np.zeros(n, int)
        full[act] = r.integers(0, 2, size=k)
        l = (1 - 2 * (full @ K % 2)) * 2.0 + r.normal(size=n)
    elif kind == 2:
        l = r.normal(size=n) * 10.0 ** r.uniform(-2, 2.5, size=n)
    elif kind == 3:  # very reliable (or hardly reliable) receptions
        l = r.normal(size=n) * 10.0 ** r.uniform(-8, 8)
    else:
        l = r.integers(-100, 100, size=n).astype([np.int8, np.int64, np.float32][int(r.integers(0, 3))])
    m.note(mu=mu, frozen=fro, l=l)
    dec = komm.SCDecoder(c)
    got = np.asarray(dec.decode(l), float)
    m.shape(got, (k,), "soft output")
    cache = {1 << j: ref.kron_pow(np.array([[1, 0], [1, 1]]), j) for j in range(mu + 1)}
    ll = [float(x) for x in l]
    prev, pos, clean = [], 0, True
    scale = sum(abs(x) for x in ll)
    for b in range(n):
        if b not in act:
            prev.append(0)
            continue
        L = sc_llr(ll, prev, b, cache)
        m.ok(abs(got[pos] - L) <= 1e-9 * (1 + scale), lambda: f"L-value of active bit {b}: observed {got[pos]!r} expected {L!r}")
        pos += 1
        if abs(L) < 1e-7 * (1 + scale):
            clean = False
            break
        prev.append(int(L < 0))
    hard = komm.SCDecoder(c, output_type="hard").decode(l)
    m.ok(np.asarray(hard).dtype.kind in "iub", "hard output is integer")
    m.arr(np.asarray(hard)[:pos - (not clean)], (got[:pos - (not clean)] < 0).astype(int), "hard output is the sign of the soft output")
    L2 = np.stack([np.asarray(l, float)] * 2)
    m.close(np.asarray(dec.decode(L2.reshape(1, -1)), float).reshape(2, k)[1], got, "blockwise", rtol=1e-9, atol=1e-9)
    m.tag("complete" if clean else "tie")


@section("D04", 200, 2500)
def sc_marginal(m, r, i):
    """First principles: L_i = log sum over future bits of the likelihoods."""
    mu = int(r.integers(1, 4))
    n = 1 << mu
    k = int(r.integers(1, n + 1))
    act = np.sort(r.choice(n, size=k, replace=False))
    fro = np.setdiff1d(np.arange(n), act)
    c = komm.PolarCode(mu, fro)
    K = ref.kron_pow(np.array([[1, 0], [1, 1]]), mu)
    l = r.normal(0, 3, size=n)
    m.note(mu=mu, frozen=fro, l=l)
    got = np.asarray(komm.SCDecoder(c, output_type="soft").decode(l), float)
    W = ref.all_words(n)
    met = (1 - 2 * (W @ K % 2)) @ l / 2
    prev, pos = [], 0
    for b in range(n):
        if b not in act:
            prev.append(0)
            continue
        sel = np.all(W[:, :b] == np.array(prev, int), axis=1) if b else np.ones(len(W), bool)
        L = np.logaddexp.reduce(met[sel & (W[:, b] == 0)]) - np.logaddexp.reduce(met[sel & (W[:, b] == 1)])
        m.ok(abs(got[pos] - L) <= 1e-8 * (1 + np.abs(l).sum()), lambda: f"L-value of active bit {b}: observed {got[pos]!r} expected {L!r}")
        pos += 1
        if abs(L) < 1e-6:
            break
        prev.append(int(L < 0))


@section("D04", 250, 3000)
def sc_noiseless(m, r, i):
    mu = int(r.integers(1, 7 if m.thorough else 6))
    n = 1 << mu
    k = int(r.integers(1, n + 1))
    act = np.sort(r.choice(n, size=k, replace=False))
    c = komm.PolarCode(mu, np.setdiff1d(np.arange(n), act))
    u = r.integers(0, 2, size=(2, k))
    v = np.asarray(c.encode(u), int)
    amp = [1.0, 20.0, 1e3, 1e6, np.inf, 1e-1][i % 6]
    # with amplitude A the weakest synthesised L-value is about A^n-like small; keep it decidable
    if amp < 10 and mu > 2:
        amp = 20.0
    l = (1 - 2 * v) * amp
    if amp != np.inf and r.integers(0, 2):
        l = l * r.uniform(1, 2, size=l.shape)
    m.note(mu=mu, active=act, u=u, amp=amp)
    got = np.asarray(komm.SCDecoder(c, output_type="hard").decode(l), int)
    m.arr(got, u, f"noiseless codeword with L-values {amp}")
    s = np.asarray(komm.SCDecoder(c).decode(l), float)
    m.ok(not np.isnan(s).any(), "no nan in the soft output")
    m.arr((s < 0).astype(int), u, "signs of the soft output")


# ---------------------------------------------------------------- D05, D06
# Zero termination appends k*mu tail bits as a fixed function of the message.  When k*mu exceeds the number of
# delay elements other tails also reach the zero state; the trellis decoders search those paths too and are then
# not maximum likelihood for the code itself (known finding "free-tail").  The oracle therefore also knows the
# set of all trellis paths from state zero to state zero, and a decision that is optimal there but not over the
# code is the known finding; anything else is a violation.
FREE_TAIL = "free-tail"


def terminated(r, kmax_msg=9, modes=("direct-truncation", "zero-termination")):
    while True:
        c = gconv.any_conv(r, max_nu=3, kmax=2, nmax=3, max_states=16)
        if c.k > 3:
            continue
        h = int(r.integers(1, max(2, kmax_msg // c.k + 1)))
        mode = modes[int(r.integers(0, len(modes)))]
        if h * c.k <= kmax_msg:
            return c, h, mode


def free_tails(c, h, mode):
    """Output words (length of a codeword) of the zero message with every tail that returns to state zero."""
    mu = max(c.nu)
    if mode != "zero-termination" or mu == 0:
        return np.zeros((1, 0), int)
    out = {}
    for x in range(1 << (c.k * mu)):
        v, s = c.code.encode_with_state(ref.i2v(x, c.k * mu), np.zeros(c.sigma, int))
        if not np.any(s):
            out[tuple(int(y) for y in v)] = None
    return np.array(list(out))


def all_paths(c, h, mode, C):
    """Array messages x tails x length of all trellis paths."""
    T = free_tails(c, h, mode)
    full = np.zeros((len(T), C.shape[1]), int)
    if T.shape[1]:
        full[:, h * c.n:] = T
    return C[:, None, :] ^ full[None, :, :]


@section("D05", 260, 3000)
def viterbi(m, r, i):
    c, h, mode = terminated(r)
    m.note(code=c, h=h, mode=mode)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode) if mode != "zero-termination" or r.integers(0, 2) else komm.TerminatedConvolutionalCode(c.code, h)
    n, k = t.length, t.dimension
    U = ref.all_words(k)
    C = np.asarray(t.encode(U), int)
    A = all_paths(c, h, mode, C)
    if A.size > 4e6:
        return m.trivial()
    W = r.integers(0, 2, size=(4, n))
    hard = komm.ViterbiDecoder(t)
    got = np.asarray(hard.decode(gen.cast(r, W)), int)
    m.shape(got, (4, k), "hard output")
    J = [ref.v2i(x) for x in got]
    D = np.array([(A != w).sum(axis=2).min(axis=1) for w in W])  # words x messages
    m.arr(D[np.arange(4), J], D.min(axis=1), "hard: distance of the decision = minimum distance")
    L = rand_soft(r, (4, n))
    m.note(L=L, W=W)
    soft = komm.ViterbiDecoder(t, input_type="soft")
    gs = np.asarray(soft.decode(L), int)
    Js = [ref.v2i(x) for x in gs]
    Lf = np.asarray(L, float)
    M = ((1 - 2 * A) @ Lf.T).max(axis=1).T  # words x messages
    tol = 1e-9 * (1e-300 + np.abs(Lf).sum(axis=1))
    m.ok(np.all(M[np.arange(4), Js] >= M.max(axis=1) - tol),
         lambda: f"soft: correlation of the decision {M[np.arange(4), Js].tolist()} below the best {M.max(axis=1).tolist()}")
    # no channel errors
    flat = A.reshape(-1, n)
    if len({x.tobytes() for x in flat}) == len(flat):
        j = r.integers(0, len(U), size=3)
        m.arr(np.asarray(hard.decode(gen.cast(r, C[j].reshape(-1))), int), U[j].reshape(-1), "hard: error-free words")
        m.arr(np.asarray(soft.decode((1 - 2 * C[j]) * r.uniform(0.5, 2, size=C[j].shape)), int), U[j], "soft: error-free words")
        d = int(A[1:].sum(axis=2).min())
        e = C[j].copy()
        for row in e:
            row[r.choice(n, size=int(r.integers(0, (d - 1) // 2 + 1)), replace=False)] ^= 1
        m.arr(np.asarray(hard.decode(e), int), U[j], f"hard: errors of weight <= {(d - 1) // 2} corrected")
        m.tag("injective")
    m.tag(mode)
    if A.shape[1] > 1:
        m.tag("several tails reach the zero state")
        dc = np.array([(C != w).sum(axis=1) for w in W])
        m.ok(np.all(dc[np.arange(4), J] == dc.min(axis=1)),
             "zero-terminated code whose tail is not unique: the decision is the best trellis path, not the best codeword", mech=FREE_TAIL)
        mc = ((1 - 2 * C) @ Lf.T).T
        m.ok(np.all(mc[np.arange(4), Js] >= mc.max(axis=1) - tol),
             "zero-terminated code whose tail is not unique: the decision is the best trellis path, not the best codeword", mech=FREE_TAIL)


@section("D05", 12, 200)
def viterbi_long(m, r, i):
    """Long frames: the decision against an error-free or lightly corrupted transmitted word."""
    g = gconv.good_codes()
    c = gconv.named_conv(g[i % len(g)])
    mode = ["direct-truncation", "zero-termination"][int(r.integers(0, 2))]
    h = int(r.integers(30, 120))
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    u = r.integers(0, 2, size=t.dimension)
    v = np.asarray(t.encode(u), int)
    m.note(code=c, h=h, mode=mode, u=u)
    m.arr(np.asarray(komm.ViterbiDecoder(t).decode(v), int), u, "error-free long word, hard")
    m.arr(np.asarray(komm.ViterbiDecoder(t, input_type="soft").decode((1 - 2 * v) * r.uniform(0.1, 3, size=v.shape)), int), u, "error-free long word, soft")
    e = v.copy()
    e[r.choice(len(v), size=len(v) // 20, replace=False)] ^= 1
    g_ = np.asarray(komm.ViterbiDecoder(t).decode(e), int)
    paths = all_paths(c, h, mode, np.asarray(t.encode(g_), int)[None, :])[0]
    m.ok((paths != e).sum(axis=1).min() <= (v != e).sum(), "some trellis path of the decision is at least as near as the transmitted codeword")
    m.ok((np.asarray(t.encode(g_)) != e).sum() <= (v != e).sum(),
         "zero-terminated code whose tail is not unique: the decision is the best trellis path, not the best codeword" if len(paths) > 1
         else "the decision is at least as near as the transmitted codeword", mech=FREE_TAIL if len(paths) > 1 else None)


@section("D06", 220, 2500)
def bcjr(m, r, i):
    c, h, mode = terminated(r)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    n, k = t.length, t.dimension
    U = ref.all_words(k)
    C = np.asarray(t.encode(U), int)
    kind = int(r.integers(0, 5))
    if kind == 0:
        L = r.normal(0, 2, size=(3, n))
    elif kind == 1:
        L = (1 - 2 * C[r.integers(0, len(C), size=3)]) * 2.0 + r.normal(size=(3, n))
    elif kind == 2:
        L = r.integers(-5, 6, size=(3, n))
    elif kind == 3:
        L = r.normal(size=(3, n)) * 10.0 ** float(r.integers(-3, 4))
    else:
        L = r.normal(size=(3, n)) * 10.0 ** r.uniform(-2, 5, size=(3, n))
    m.note(code=c, h=h, mode=mode, L=L)
    dec = komm.BCJRDecoder(t)
    got = np.asarray(dec.decode(L), float)
    m.shape(got, (3, k), "soft output")
    m.ok(not np.isnan(got).any(), lambda: f"nan in the output {got.tolist()}")
    A = all_paths(c, h, mode, C)
    if A.size > 4e6:
        return m.trivial()
    Lf = np.asarray(L, float)
    met = np.logaddexp.reduce(0.5 * (1 - 2 * A) @ Lf.T, axis=1)  # messages x words
    code_met = 0.5 * (1 - 2 * C) @ Lf.T
    pending = None

    def judge(w, b, g, mt):
        sc = 1 + float(np.abs(Lf[w]).sum())
        e = float(np.logaddexp.reduce(mt[U[:, b] == 0, w]) - np.logaddexp.reduce(mt[U[:, b] == 1, w]))
        if abs(e) > 600:
            return (g > 0) == (e > 0) and abs(g) > 500, e
        return abs(g - e) <= 1e-9 * (1 + sc), e
    for w in range(3):
        for b in range(k):
            g = got[w, b]
            good, e = judge(w, b, g, met)
            m.ok(good, lambda: f"word {w} bit {b}: observed {g!r} expected {e!r}")
            if A.shape[1] > 1 and not judge(w, b, g, code_met)[0]:
                pending = (w, b, g, e)
            m.tag("saturated" if abs(e) > 600 else "exact")
    hard = np.asarray(komm.BCJRDecoder(t, output_type="hard").decode(L))
    m.arr(hard, (got < 0).astype(int), "hard output is the sign of the soft output")
    m.arr(np.asarray(dec.decode(np.asarray(L).reshape(-1)), float), got.reshape(-1), "blockwise")
    m.tag(mode)
    m.ok(pending is None, lambda: f"zero-terminated code whose tail is not unique: posteriors over all trellis paths, not over the code: {pending}",
         mech=FREE_TAIL)


@section("D06", 6, 60)
def bcjr_long(m, r, i):
    """Long frames against an independent log-domain forward-backward over encoder histories."""
    g = gconv.good_codes()
    c = gconv.named_conv(g[i % len(g)])
    h = int(r.integers(30, 80))
    t = komm.TerminatedConvolutionalCode(c.code, h, ["direct-truncation", "zero-termination"][i % 2])
    u = r.integers(0, 2, size=t.dimension)
    v = np.asarray(t.encode(u), int)
    m.note(code=c, h=h, u=u)
    l = (1 - 2 * v) * float(r.choice([4.0, 100.0, 1e4]))
    got = np.asarray(komm.BCJRDecoder(t).decode(l), float)
    m.ok(not np.isnan(got).any(), "no nan")
    m.arr((got < 0).astype(int), u, "signs give the message back on a noiseless word")


# ---------------------------------------------------------------- bits known for certain (infinite L-values)
def certain(r, v, scale=1.0):
    """L-values of a transmitted word: some bits known for certain (infinite), the others noisy."""
    L = (1 - 2 * v) * 1.0 + r.normal(0, 1.5 * scale, size=v.shape)
    mask = r.random(v.shape) < r.choice([0.15, 0.5, 0.9, 1.0])
    return np.where(mask, np.where(v == 1, -np.inf, np.inf), L), mask


def conditional_best(C, L):
    """Rows of C that agree with the infinite entries of L, and their correlation with the finite ones."""
    inf = np.isinf(L)
    fit = np.all(C[:, inf] == (L[inf] < 0), axis=1)
    return fit, (1 - 2 * C[:, ~inf]) @ L[~inf]


def certain_check(m, C, v_hat, L, what):
    fit, cor = conditional_best(C, L)
    j = int(np.flatnonzero((C == v_hat).all(axis=1))[0])
    m.ok(fit[j], lambda: f"{what}: decision {v_hat.tolist()} contradicts a bit known for certain, L-values {L.tolist()}")
    best = cor[fit].max()
    m.ok(cor[j] >= best - 1e-9 * (1 + np.abs(L[np.isfinite(L)]).sum()), lambda: f"{what}: correlation {cor[j]} best {best}, L-values {L.tolist()}")


@section("D03", 200, 2500)
def soft_certain(m, r, i):
    if i % 2:
        n = int(r.integers(2, 12))
        c = komm.SingleParityCheckCode(n)
        W = ref.all_words(n)
        C, dec, G = W[W.sum(axis=1) % 2 == 0], komm.WagnerDecoder(c), None
        G = np.asarray(c.generator_matrix).astype(int)
    else:
        s = gen.rand_spec(r, kmax=7, mmax=8, nmax=15)
        c, C, G = s.code, book(s), np.asarray(s.code.generator_matrix).astype(int)
        dec = komm.ExhaustiveSearchDecoder(c, input_type="soft")
    v = C[r.integers(0, len(C), size=4)]
    L, mask = certain(r, v)
    m.note(code=c, L=L)
    U = np.asarray(dec.decode(L), int)
    for w in range(4):
        certain_check(m, C, U[w] @ G % 2, L[w], type(dec).__name__)
    m.tag("bits known for certain", int(mask.sum()))


@section("D05", 120, 1500)
def viterbi_certain(m, r, i):
    c, h, mode = terminated(r, 7)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    U = ref.all_words(t.dimension)
    C = np.asarray(t.encode(U), int)
    A = all_paths(c, h, mode, C)
    if A.shape[1] > 1:
        return m.trivial()
    v = C[r.integers(0, len(C), size=3)]
    L, mask = certain(r, v)
    m.note(code=c, h=h, mode=mode, L=L)
    got = np.asarray(komm.ViterbiDecoder(t, input_type="soft").decode(L), int)
    for w in range(3):
        certain_check(m, C, np.asarray(t.encode(got[w]), int), L[w], "Viterbi")
    m.tag("bits known for certain", int(mask.sum()))


@section("D06", 100, 1200)
def bcjr_certain(m, r, i):
    c, h, mode = terminated(r, 7)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    U = ref.all_words(t.dimension)
    C = np.asarray(t.encode(U), int)
    if all_paths(c, h, mode, C).shape[1] > 1:
        return m.trivial()
    v = C[r.integers(0, len(C), size=3)]
    L, mask = certain(r, v)
    m.note(code=c, h=h, mode=mode, L=L)
    got = np.asarray(komm.BCJRDecoder(t).decode(L), float)
    for w in range(3):
        fit, cor = conditional_best(C, L[w])
        for b in range(t.dimension):
            one, zero = cor[fit & (U[:, b] == 1)], cor[fit & (U[:, b] == 0)]
            e = np.inf if not len(one) else -np.inf if not len(zero) else float(np.logaddexp.reduce(zero / 2) - np.logaddexp.reduce(one / 2))
            g = got[w, b]
            m.ok(g == e if np.isinf(e) else abs(g - e) <= 1e-8 * (1 + np.abs(L[w][np.isfinite(L[w])]).sum()) or (abs(e) > 600 and g * e > 0),
                 lambda: f"bit {b}: observed {g!r} expected {e!r}, L-values {L[w].tolist()}")
    m.tag("bits known for certain", int(mask.sum()))


@section("D07", 60, 600)
def stream_certain(m, r, i):
    g = gconv.good_codes()
    c = gconv.named_conv(g[i % len(g)])
    tau = 6 * (c.sigma + 1)
    T = tau + int(r.integers(5, 25))
    u = r.integers(0, 2, size=T * c.k)
    v = np.asarray(c.code.encode(u), int)
    L = np.where(r.random(v.shape) < r.choice([0.3, 1.0]), np.inf, r.uniform(0.5, 2, size=v.shape)) * (1 - 2 * v)
    m.note(code=c, T=T, u=u)
    out = np.asarray(komm.ViterbiStreamDecoder(c.code, tau, input_type="soft").decode(L))
    m.arr(out, np.concatenate([np.zeros(tau * c.k, int), u[:(T - tau) * c.k]]), "noiseless stream with bits known for certain")


# ---------------------------------------------------------------- D07
def fixed_lag_sets(fsm, cost, s0, tau):
    """For every t the set of inputs at time t - tau over all metric-optimal paths ending in a best state at t+1."""
    T, S = len(cost), len(fsm)
    INF = math.inf
    met = [INF] * S
    met[s0] = 0.0
    preds = []
    out = []
    for t in range(T):
        new = [INF] * S
        for s in range(S):
            if met[s] < INF:
                for x, (s1, y) in enumerate(fsm[s]):
                    new[s1] = min(new[s1], met[s] + cost[t][y])
        tol = 1e-9 * (max(map(abs, cost[t])) + max(abs(x) for x in new if x < INF))
        pr = [[] for _ in range(S)]
        for s in range(S):
            if met[s] < INF:
                for x, (s1, y) in enumerate(fsm[s]):
                    if met[s] + cost[t][y] <= new[s1] + tol:
                        pr[s1].append((s, x))
        preds.append(pr)
        met = new
        if t < tau:
            out.append(None)
            continue
        best = min(met)
        states = {s for s in range(S) if met[s] <= best + tol}
        for tt in range(t, t - tau, -1):
            states = {p for s in states for p, _ in preds[tt][s]}
        out.append({x for s in states for _, x in preds[t - tau][s]})
    return out


@section("D07", 220, 2500)
def stream(m, r, i):
    c = gconv.any_conv(r, max_nu=3, kmax=2, nmax=3, max_states=16)
    fsm_obj = c.code.finite_state_machine()
    S = 1 << c.sigma
    # trellis from the encoder itself
    fsm = []
    for s in range(S):
        row = []
        for x in range(1 << c.k):
            v, s1 = c.code.encode_with_state(ref.i2v(x, c.k), ref.i2v(s, c.sigma))
            row.append((ref.v2i(s1), ref.v2i(v)))
        fsm.append(row)
    tau = int(r.integers(1, 5 * (max(c.nu) + 1) + 1))
    T = int(r.integers(tau + 1, tau + 14))
    soft = bool(r.integers(0, 2))
    s0 = int(r.integers(0, S)) if r.integers(0, 2) else 0
    u = r.integers(0, 2, size=T * c.k)
    v, _ = c.code.encode_with_state(u, ref.i2v(s0, c.sigma))
    v = np.asarray(v, int)
    noise = int(r.integers(0, 3))
    if soft:
        z = (1 - 2 * v) * 1.0 + (r.normal(0, 0.8, size=v.shape) if noise else 0.0)
        if noise == 2:
            z = r.normal(size=v.shape)
        z = z * 10.0 ** (r.uniform(-12, 8) if r.integers(0, 3) == 0 else 0.0)
    else:
        z = (v + (r.random(v.shape) < [0, 0.08, 0.5][noise])) % 2
    m.note(code=c, tau=tau, s0=s0, soft=soft, z=z)
    kw = {"input_type": "soft" if soft else "hard"}
    if not soft and r.integers(0, 2):
        kw = {}
    if s0 or r.integers(0, 2):
        kw["state"] = s0
    one = komm.ViterbiStreamDecoder(c.code, tau, **kw)
    arg = gen.cast(r, z) if not soft else z
    whole = np.asarray(one.decode(arg), int)
    m.shape(whole, (T * c.k,), "output length")
    two = komm.ViterbiStreamDecoder(c.code, traceback_length=tau, **kw)
    parts, p = [], 0
    while p < T:
        q = min(T, p + int(r.integers(0, 6)))
        parts.append(np.asarray(two.decode(z[p * c.n:q * c.n]), int))
        p = q
    m.arr(np.concatenate(parts).astype(int), whole, "chunked decoding = decoding at once")
    zz = z.reshape(T, c.n)
    B = ref.all_words(c.n)
    cost = (B @ zz.T).T if soft else (B[None, :, :] != zz[:, None, :]).sum(axis=2)
    sets = fixed_lag_sets(fsm, cost.tolist(), s0, tau)
    xs = [ref.v2i(w) for w in whole.reshape(T, c.k)]
    for t in range(T):
        if sets[t] is None:
            if len([1 for s1, _ in fsm[0] if s1 == 0]) == 1:
                m.eq(xs[t], 0, f"padding at stage {t}")
        else:
            m.ok(xs[t] in sets[t], lambda: f"stage {t}: decision {xs[t]} not among the fixed-lag decisions {sorted(sets[t])} (input {t - tau})")
            if noise == 0 and sets[t] == {ref.v2i(u.reshape(T, c.k)[t - tau])}:
                m.tag("noiseless decisions equal to the delayed message")


@section("D07", 30, 300)
def stream_clean(m, r, i):
    g = gconv.good_codes()
    c = gconv.named_conv(g[i % len(g)])
    tau = 7 * (c.sigma + 1)
    T = tau + int(r.integers(10, 40))
    u = r.integers(0, 2, size=T * c.k)
    v = np.asarray(c.code.encode(u), int)
    soft = bool(i & 1)
    m.note(code=c, T=T, u=u, soft=soft)
    d = komm.ViterbiStreamDecoder(c.code, tau, input_type="soft" if soft else "hard")
    out = []
    p = 0
    while p < T:
        q = min(T, p + int(r.integers(1, 30)))
        w = v[p * c.n:q * c.n]
        out.append(d.decode((1 - 2 * w) * r.uniform(0.5, 2, size=w.shape) if soft else w))
        p = q
    out = np.concatenate(out)
    m.arr(out, np.concatenate([np.zeros(tau * c.k, int), u[:(T - tau) * c.k]]), "noiseless stream is the message delayed by the traceback length")
