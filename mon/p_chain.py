"""X07: whole communication chains, from source symbols to source symbols."""
import numpy as np

import komm

from . import gconv, gen, ref
from .core import rule, section
from .p_decoders import all_paths, book, certain_check, terminated
from .p_lossless import rand_fv, rand_seq
from .p_mapping import rand_con

rule("X07", "Random chains source code -> channel code -> labeling -> constellation -> Gaussian channel -> posteriors -> bit L-values -> soft decoder (or "
     "hard decisions -> hard decoder), noise from none to heavy, L-values from tiny to infinite; oracle: the message, longdouble log-domain bit "
     "L-values, Euclidean distances over the whole codebook, pulse-shaped symbols over a Nyquist pulse.")


def mapper(r):
    """(labeling, words, constellation, points) of matching cardinality 2^m."""
    t = int(r.integers(0, 7))
    if t == 0:
        C, X, d = rand_con(r, "userc" if r.integers(0, 2) else "user", big=False)
        M = 1 << (len(X).bit_length() - 1)
        X = X[:M]
        C = komm.Constellation(X)
    else:
        M = int(r.choice([2, 4, 8, 16]))
        A = float(r.choice([1.0, 0.5, 3.0, 100.0]))
        if t == 1:
            C = komm.PAMConstellation(M, A)
        elif t == 2:
            C = komm.PSKConstellation(M, A, float(r.choice([0.0, 0.125, 0.3])))
        elif t == 3:
            M = 4 ** int(r.integers(1, 3))
            C = komm.QAMConstellation(M, A, float(r.choice([0.0, 0.125])))
        elif t == 4:
            C = komm.OrthogonalConstellation(M, A)
        elif t == 5:
            C = komm.ASKConstellation(M, A)
        else:
            C = komm.BiorthogonalConstellation(M, A)
        X = np.asarray(C.matrix)
    m = len(X).bit_length() - 1
    k = int(r.integers(0, 4))
    if k == 0:
        return komm.NaturalLabeling(m), C, X
    if k == 1:
        return komm.ReflectedLabeling(m), C, X
    if k == 2 and m % 2 == 0:
        return komm.ReflectedRectangularLabeling(m), C, X
    p = r.permutation(1 << m)
    return komm.Labeling(ref.all_words(m)[p]), C, X


def bit_lvalues(W, X, y, npow, cx):
    """Exact bit L-values of one received point, by log-sum-exp in extended precision (finite however sharp)."""
    ld = np.longdouble
    d2 = ((np.real(y).astype(ld) - np.real(X).astype(ld)) ** 2 + (np.imag(y).astype(ld) - np.imag(X).astype(ld)) ** 2).sum(axis=1)
    lp = -d2 / (ld(npow) if cx else 2 * ld(npow))

    def lse(v):
        k = v.max()
        return k + np.log(np.exp(v - k).sum())
    return np.array([lse(lp[W[:, b] == 0]) - lse(lp[W[:, b] == 1]) for b in range(W.shape[1])])


def pad(v, m):
    return np.concatenate([v, np.zeros((-len(v)) % m, int)])


def decoders(r, s, C):
    """Soft decoders that apply to the block code, with the soft/hard nature of their output."""
    out = [("exhaustive", komm.ExhaustiveSearchDecoder(s.code, input_type="soft"), True)]
    if isinstance(s.code, komm.SingleParityCheckCode):
        out.append(("wagner", komm.WagnerDecoder(s.code), True))
    if isinstance(s.code, komm.ReedMullerCode):
        out.append(("reed", komm.ReedDecoder(s.code, input_type="soft"), False))
    return out[int(r.integers(0, len(out)))]


@section("X07", 250, 4000)
def soft_block(m, r, i):
    s = gen.rand_spec(r, kmax=6, mmax=7, nmax=12)
    C = book(s)
    L, con, X = mapper(r)
    W = np.asarray(L.matrix, int)
    mb, N, cx = L.num_bits, con.dimension, np.iscomplexobj(X)
    D = min(float(np.linalg.norm(X[a] - X[b])) for a in range(len(X)) for b in range(a))
    mode = ["sharp", "clean", "noisy", "heavy"][i % 4]
    sig2 = D ** 2 * {"sharp": 10.0 ** r.uniform(-9, -4), "clean": 0.004, "noisy": float(r.uniform(0.01, 0.1)), "heavy": float(r.uniform(0.3, 4))}[mode]
    u = r.integers(0, 2, size=s.k * int(r.integers(1, 4)))
    v = np.asarray(s.code.encode(u), int)
    y0 = con.indices_to_symbols(L.bits_to_indices(pad(v, mb)))
    y = komm.GaussianChannel(0.0 if mode in ("clean", "sharp") else sig2, rng=r).transmit(y0)
    m.note(code=s, labeling=L, constellation=con, noise=sig2, mode=mode, u=u, received=y)
    lv = np.asarray(L.marginalize(con.posteriors(y, sig2)), float)
    m.ok(not np.isnan(lv).any(), "bit L-values are numbers")
    exact = np.concatenate([bit_lvalues(W, X, p, sig2, cx) for p in np.asarray(y).reshape(-1, N)]).astype(float)
    scale = float((np.abs(y).max() + np.abs(X).max()) ** 2 / sig2)
    near = np.abs(lv - exact) <= 1e-9 + 1e-9 * np.abs(exact) + 1e-13 * scale
    under = (np.abs(exact) > 650) & (lv * exact > 0)  # the posterior of every symbol with the other bit underflows
    m.ok(np.all(near | under), lambda: f"bit L-values: observed {lv.tolist()} expected {exact.tolist()}")
    lv = lv[:len(v)]
    fin = np.isfinite(lv)
    m.tag("infinite L-values", int((~fin).sum()))
    name, dec, ml = decoders(r, s, C)
    got = np.asarray(dec.decode(lv), int)
    m.tag(f"{mode} {name}")
    if mode in ("clean", "sharp"):
        m.arr(got, u, f"message through a noiseless chain ({name})")
    elif ml:
        blocks = lv.reshape(-1, s.n)
        for g, l in zip(np.asarray(s.code.encode(got), int).reshape(-1, s.n), blocks):
            if np.isfinite(l).all() or np.any([(C[:, np.isinf(l)] == (l[np.isinf(l)] < 0)).all(axis=1).any()]):
                certain_check(m, C, g, l, name)
    if mode == "noisy" and mb == 1 and len(v) == len(y) // N:
        # with antipodal signalling the decision is the closest transmitted sequence
        pts = X[[int(j) for j in np.argsort(W[:, 0])]]
        for g, yy in zip(np.asarray(s.code.encode(got), int).reshape(-1, s.n), np.asarray(y).reshape(-1, s.n, N)):
            dist = lambda w: float((np.abs(yy - pts[w]) ** 2).sum())
            best = min(dist(w) for w in C)
            if ml and fin.all():
                m.ok(dist(g) <= best * (1 + 1e-9) + 1e-9 * D * D, lambda: f"{name}: squared distance {dist(g)}, closest codeword {best}")


@section("X07", 120, 2000)
def soft_trellis(m, r, i):
    c, h, mode = terminated(r, 7)
    t = komm.TerminatedConvolutionalCode(c.code, h, mode)
    C = np.asarray(t.encode(ref.all_words(t.dimension)), int)
    if all_paths(c, h, mode, C).shape[1] > 1 or len({tuple(x) for x in C.tolist()}) < len(C):
        return m.trivial()
    L, con, X = mapper(r)
    D = min(float(np.linalg.norm(X[a] - X[b])) for a in range(len(X)) for b in range(a))
    u = r.integers(0, 2, size=t.dimension * int(r.integers(1, 3)))
    v = np.asarray(t.encode(u), int)
    sig2 = D * D * (0.004 if i % 2 else 10.0 ** r.uniform(-9, -4))
    y = con.indices_to_symbols(L.bits_to_indices(pad(v, L.num_bits)))
    m.note(code=c, h=h, termination=mode, labeling=L, constellation=con, noise=sig2, u=u)
    lv = np.asarray(L.marginalize(con.posteriors(y, sig2)), float)[:len(v)]
    m.arr((lv < 0).astype(int), v, "signs of the L-values are the transmitted bits")
    m.arr(np.asarray(komm.ViterbiDecoder(t, input_type="soft").decode(lv), int), u, "Viterbi on a noiseless chain")
    llr = np.asarray(komm.BCJRDecoder(t).decode(lv), float)
    m.ok(not np.isnan(llr).any(), "BCJR L-values are numbers")
    m.arr((llr < 0).astype(int), u, "signs of the BCJR L-values on a noiseless chain")
    m.tag("infinite L-values", int(np.isinf(lv).sum()))


@section("X07", 250, 4000)
def polar_chain(m, r, i):
    mu = int(r.integers(1, 7))
    n = 1 << mu
    frozen = np.sort(r.choice(n, size=int(r.integers(0, n)), replace=False))
    code = komm.PolarCode(mu, frozen)
    L, con, X = mapper(r)
    D = min(float(np.linalg.norm(X[a] - X[b])) for a in range(len(X)) for b in range(a))
    u = r.integers(0, 2, size=code.dimension * int(r.integers(1, 4)))
    v = np.asarray(code.encode(u), int)
    sig2 = D * D * (0.004 if i % 2 else 10.0 ** r.uniform(-9, -4))
    y = con.indices_to_symbols(L.bits_to_indices(pad(v, L.num_bits)))
    m.note(mu=mu, frozen=frozen, labeling=L, constellation=con, noise=sig2, u=u)
    lv = np.asarray(L.marginalize(con.posteriors(y, sig2)), float)[:len(v)]
    out_type = "hard" if r.integers(0, 2) else "soft"
    got = np.asarray(komm.SCDecoder(code, output_type=out_type).decode(lv))
    m.ok(not np.isnan(got).any(), "numbers")
    m.arr((got < 0).astype(int) if out_type == "soft" else got, u, "message of a noiseless polar chain")


@section("X07", 300, 5000)
def hard_chain(m, r, i):
    """Source symbols -> compressed bits -> code -> symbols -> bounded noise and correctable bit errors -> source symbols."""
    while True:
        sc, _, desc = rand_fv(r)
        if sc.target_cardinality == 2 and sc.is_prefix_free():
            break
    X0 = rand_seq(r, sc.source_cardinality, sc.source_block_size * int(r.integers(1, 30)))
    X0 = np.asarray(X0, int)[:len(X0) // sc.source_block_size * sc.source_block_size]
    bits = np.asarray(sc.encode(X0), int)
    s = gen.rand_spec(r, kmax=7, mmax=8, nmax=15)
    C = book(s)
    d = int(C[C.any(axis=1)].sum(axis=1).min())
    t = (d - 1) // 2
    v = np.asarray(s.code.encode(pad(bits, s.k)), int)
    L, con, X = mapper(r)
    y = np.asarray(con.indices_to_symbols(L.bits_to_indices(pad(v, L.num_bits))))
    D = min(float(np.linalg.norm(X[a] - X[b])) for a in range(len(X)) for b in range(a))
    z = r.normal(size=y.shape) + (1j * r.normal(size=y.shape) if np.iscomplexobj(X) else 0)
    z = z.reshape(-1, con.dimension)
    z = z / np.linalg.norm(z, axis=1, keepdims=True) * 0.49 * D * r.random((len(z), 1))
    m.note(source=desc, symbols=X0, code=s, labeling=L, constellation=con, noise=z)
    hat = np.asarray(L.indices_to_bits(con.closest_indices(y + z.reshape(-1))), int)
    m.arr(hat[:len(v)], v, "bits after noise shorter than half the minimum distance")
    e = np.zeros((len(v) // s.n, s.n), int)
    for row in e:
        row[r.choice(s.n, size=int(r.integers(0, t + 1)), replace=False)] = 1
    dec = komm.ExhaustiveSearchDecoder(s.code) if s.m > 8 or r.integers(0, 2) else komm.SyndromeTableDecoder(s.code)
    rx = hat[:len(v)] ^ e.reshape(-1)
    m.note(errors=e)
    b = np.asarray(dec.decode(rx), int)[:len(bits)]
    m.arr(b, bits, f"bits after at most {t} errors per block ({type(dec).__name__})")
    m.arr(sc.decode(b), X0, "source symbols")
    m.tag(f"t={t}")


@section("X07", 120, 2000)
def integer_chain(m, r, i):
    """Universal and dictionary codes through a convolutional code and its hard Viterbi decoder."""
    k = i % 6
    S = int(r.integers(2, 6))
    seq = np.asarray(rand_seq(r, S, int(r.integers(1, 120))), int)
    if k == 0:
        sc, seq = komm.FibonacciCode(), r.integers(1, 500, size=int(r.integers(1, 20)))
    elif k == 1:
        sc, seq = komm.UnaryCode(), r.integers(0, 12, size=int(r.integers(1, 20)))
    elif k == 2:
        sc = komm.LempelZiv78Code(S)
    elif k == 3:
        sc = komm.LempelZivWelchCode(S)
    elif k == 4:
        sc = komm.LempelZiv77Code(search_size=int(r.integers(4, 20)), lookahead_size=int(r.integers(2, 6)), source_cardinality=S)
    else:
        sc = komm.TunstallCode(r.dirichlet(np.ones(S)), int(r.integers(3, 6)))
    bits = np.asarray(sc.encode(seq), int)
    if len(bits) > 900:
        return m.trivial()
    g = gconv.good_codes()
    c = gconv.named_conv(g[int(r.integers(0, len(g)))])
    x = pad(bits, c.k)
    h = len(x) // c.k
    m.note(source=sc, seq=seq, code=c)
    t = komm.TerminatedConvolutionalCode(c.code, h, "zero-termination")
    v = np.asarray(t.encode(x), int)
    if i % 2:
        got = komm.ViterbiDecoder(t).decode(v)
    else:
        got = komm.ViterbiDecoder(t, input_type="soft").decode(1.0 - 2 * v)
    b = np.asarray(got, int)[:len(bits)]
    m.arr(b, bits, "bits through a noiseless terminated convolutional code")
    m.arr(np.asarray(sc.decode(b), int)[:len(seq)], seq, "source symbols")
    m.tag(type(sc).__name__)


@section("X07", 150, 2500)
def pulse_shaping(m, r, i):
    """Symbols over a Nyquist pulse: expansion, filtering and sampling return the symbols; a root pair does so to within truncation."""
    sps = int(r.integers(2, 9))
    L, con, X = mapper(r)
    if con.dimension != 1:
        con = komm.PAMConstellation(4)
    idx = r.integers(0, con.order, size=int(r.integers(1, 40)))
    a = np.asarray(con.indices_to_symbols(idx))
    k = i % 5
    span = int(r.integers(1, 9))
    if k == 0:
        p = komm.SincPulse()
    elif k == 1:
        p = komm.RaisedCosinePulse(float(r.choice([0.0, 0.25, 0.5, 1.0, r.random()])))
    elif k == 2:
        p = komm.BeaulieuPulse(float(r.choice([0.0, 0.3, 1.0, r.random()])))
    elif k == 3:
        p = komm.RectangularPulse()
    else:
        p = komm.ManchesterPulse()
    m.note(pulse=p, sps=sps, span=span, symbols=a)
    x = komm.sampling_rate_expand(a, factor=sps)
    if k < 3:
        h = p.taps(samples_per_symbol=sps, span=(-span, span))
        m.shape(h, (2 * span * sps + 1,), "taps")
        y = komm.convolve(x, h)
        got = komm.sampling_rate_compress(y[span * sps:], factor=sps)[:len(a)]
        m.close(got, a, "symbols at the sampling instants", 1e-9, 1e-11 * np.abs(a).max() * (1 + len(a)))
    else:
        # finite-support pulses on [0, 1): correlating each symbol interval with the pulse returns the symbol
        h = p.taps(samples_per_symbol=2 * sps)[:2 * sps]
        y = komm.convolve(komm.sampling_rate_expand(a, factor=2 * sps), h)[:2 * sps * len(a)]
        got = y.reshape(len(a), 2 * sps) @ h / (h @ h)
        m.close(got, a, "symbols by correlation", 1e-9, 1e-12 * np.abs(a).max())
    m.arr(np.asarray(con.closest_indices(got), int), idx, "indices after demodulation")
    m.tag(type(p).__name__)
