"""A catalog of komm objects with drawn operations: the subject of the cross-cutting monitors X01-X04.

entry(r, small) -> Entry whose make() builds a fresh, equal object from the same recorded draws."""
from __future__ import annotations

import copy
import math
import re

import numpy as np

import komm

from . import gconv, gen, p_channels, p_conv, p_lossless, p_mapping, p_pulses, p_sources, ref


class Op:
    """args None: attribute read.  random: result depends on the object's generator."""

    def __init__(self, name, args=None, kwargs=None, random=False):
        self.name, self.args, self.kwargs, self.random = name, args, kwargs or {}, random

    def __repr__(self):
        return self.name if self.args is None else f"{self.name}{self.args}"

    def apply(self, obj, mutated=None):
        a = getattr(obj, self.name)
        if self.args is None:
            return a
        args, kwargs = copy.deepcopy(self.args), copy.deepcopy(self.kwargs)
        before = fingerprint((args, kwargs)) if mutated is not None else None
        try:
            return a(*args, **kwargs)
        finally:
            if mutated is not None and fingerprint((args, kwargs)) != before:
                mutated.append((repr(self), repr(args)))


class Block:
    """A blockwise operation: last axis made of blocks of `inb`, mapped to blocks of `outb`."""

    def __init__(self, name, inb, outb, draw, integer=True, kwargs=None, fixed_tail=False):
        self.name, self.inb, self.outb, self.draw, self.integer = name, inb, outb, draw, integer
        self.kwargs = kwargs or {}


class Entry:
    def __init__(self, family, desc, make, ops, blocks=(), rebuild=True, pre=None):
        self.family, self.desc, self.make, self.ops, self.blocks, self.rebuild = family, desc, make, ops, list(blocks), rebuild


# ---------------------------------------------------------------- observable image of a result
def image(x):
    """A detached plain (picklable) image of a result: arrays are copied, komm values become tagged tuples."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["objarr", x.shape, [image(y) for y in x.reshape(-1).tolist()]]
        return np.array(x)
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return x
    if isinstance(x, (list, tuple)):
        return [image(y) for y in x]
    if isinstance(x, dict):
        return ["dict", sorted(([image(k), image(v)] for k, v in x.items()), key=lambda kv: repr(kv[0]))]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((image(y) for y in x), key=repr)]
    t = type(x).__name__
    if isinstance(x, (komm.MealyMachine, komm.MooreMachine)):
        return [t, image(x.transitions), image(x.outputs)]
    if isinstance(x, komm.BinaryPolynomial):
        return [t, int(x)]
    if isinstance(x, komm.BinaryPolynomialFraction):
        return [t, int(x.numerator), int(x.denominator)]
    if t == "FiniteBifieldElement":
        return [t, int(x.value), repr(x.ambient)]
    if type(x).__module__.startswith("komm"):
        return [t, re.sub(r" at 0x[0-9a-f]+", "", repr(x))]
    return [t]


def same(a, b):
    """Equality of images; floating-point values up to 1e-9."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                fin = np.isfinite(a) & np.isfinite(b)
                return bool(np.all(np.where(fin, np.abs(a - b) <= 1e-9 * np.maximum(1, np.abs(b)),
                                            (a == b) | (np.isnan(a) & np.isnan(b)))))
        return bool(np.array_equal(a, b))
    if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        if not all(isinstance(x, (int, float, complex)) for x in (a, b)):
            return False
        if a == b or (a != a and b != b):
            return True
        return bool(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-9 * max(1, abs(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (isinstance(a, int) and isinstance(b, int) and a == b)


def fingerprint(x):
    """Bit-exact content of an argument (arrays and containers of them)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, tuple(fingerprint(y) for y in x.reshape(-1).tolist()))
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fingerprint(y) for y in x))
    if isinstance(x, dict):
        return ("d", tuple((fingerprint(k), fingerprint(v)) for k, v in x.items()))
    if isinstance(x, (bool, int, float, complex, str, np.generic)) or x is None:
        return (type(x).__name__, repr(x))
    return (type(x).__name__,)


def raised(fn):
    """('ok', value) or ('raise', class name)."""
    try:
        return "ok", fn()
    except Exception as e:
        return "raise", type(e).__name__


def again(f, seed, pick=0):
    def make():
        x = f(np.random.default_rng(seed))
        return x[pick] if isinstance(x, tuple) else x
    return make


def new_seed(r):
    return int(r.integers(0, 2**62))


def bits(r, *shape):
    return r.integers(0, 2, size=shape)


def ilead(r):
    return tuple(int(x) for x in r.integers(1, 3, size=int(r.integers(0, 3))))


# ---------------------------------------------------------------- families
BLOCK_READS = ["length", "dimension", "redundancy", "rate", "generator_matrix", "check_matrix"]
BLOCK_CALLS = ["codewords", "codeword_weight_distribution", "minimum_distance", "packing_radius", "coset_leaders",
               "coset_leader_weight_distribution", "covering_radius"]


def block_ops(r, code, n, k, spec=None):
    ops = [Op(x) for x in BLOCK_READS] + [Op("generator_matrix_right_inverse")]
    if k <= 8:
        ops += [Op(x, ()) for x in BLOCK_CALLS[:4]]
    if n - k <= 8 and n <= 16:
        ops += [Op(x, ()) for x in BLOCK_CALLS[4:]]
    for _ in range(3):
        sh = ilead(r)
        b = int(r.integers(1, 4))
        ops.append(Op("encode", (gen.cast(r, bits(r, *sh, b * k)),)))
        ops.append(Op("check", (gen.cast(r, bits(r, *sh, b * n)),)))
    for _ in range(2):
        v = np.asarray(code.encode(bits(r, 2, k)))
        ops.append(Op("inverse_encode", (gen.cast(r, v),)))
    ops.append(Op("inverse_encode", (bits(r, n),)))
    ops.append(Op("encode", (bits(r, k + 1 if k > 1 else 0),)))
    return ops


def block_blocks(r, mk, n, k):
    def word(q, cnt):
        return bits(q, cnt, n)

    def msg(q, cnt):
        return bits(q, cnt, k)

    def cw(q, cnt):
        return np.asarray(mk().encode(bits(q, cnt, k)))
    return [Block("encode", k, n, msg), Block("check", n, n - k, word), Block("inverse_encode", n, k, cw)]


def e_block(r, small):
    s = new_seed(r)
    kw = dict(kmax=2, mmax=2, nmax=4) if small else dict(kmax=6, mmax=6)

    def f(q):
        return gen.rand_spec(q, **kw).code
    sp = gen.rand_spec(np.random.default_rng(s), **kw)
    mk = again(f, s)
    code = mk()
    ops = block_ops(r, code, sp.n, sp.k)
    if sp.kind == "bch":
        ops.append(Op("bch_syndrome", (komm.BinaryPolynomial(int(r.integers(0, 1 << sp.n))),)))
    if hasattr(code, "generator_polynomial"):
        ops += [Op("generator_polynomial"), Op("check_polynomial")]
    return Entry("block", repr(sp), mk, ops, block_blocks(r, mk, sp.n, sp.k))


def terminated(q, small):
    while True:
        if small:
            c = gconv.rand_conv(q, max_nu=2, kmax=1, nmax=2, kinds=("ff", "fb", "low"), max_states=4)
        else:
            c = gconv.any_conv(q, max_nu=3, kmax=2, nmax=3, max_states=8)
        h = int(q.integers(1, 4 if small else 5))
        mode = str(q.choice(["direct-truncation", "zero-termination", "tail-biting"]))
        try:
            t = komm.TerminatedConvolutionalCode(c.code, h, mode)
            t.generator_matrix
        except ValueError:
            continue
        if not 1 <= t.dimension <= 8 or t.length > 20:
            continue
        if ref.rank(ref.rows2i(t.generator_matrix)) < t.dimension:
            continue
        return t


def e_terminated(r, small):
    s = new_seed(r)
    mk = again(lambda q: terminated(q, small), s)
    t = mk()
    n, k = t.length, t.dimension
    return Entry("terminated", repr(t), mk, block_ops(r, t, n, k), block_blocks(r, mk, n, k))


def decoder(q, small):
    """(decoder, n, k, soft input?, clean input possible)"""
    t = int(q.integers(0, 9))
    lim = dict(kmax=2, mmax=2, nmax=4) if small else dict(kmax=6, mmax=6)
    if t == 0:
        c = gen.rand_spec(q, **lim).code
        return komm.SyndromeTableDecoder(c), c, False
    if t in (1, 2):
        c = gen.rand_spec(q, **lim).code
        return komm.ExhaustiveSearchDecoder(c, input_type="soft" if t == 2 else "hard"), c, t == 2
    if t == 3:
        mu, d = [(3, 3), (4, 5), (4, 7), (3, 7), (5, 7), (2, 3), (4, 3)][int(q.integers(0, 7))]
        c = komm.BCHCode(mu, d)
        return komm.BerlekampDecoder(c), c, False
    if t in (4, 5):
        mu = int(q.integers(1, 3 if small else 5))
        c = komm.ReedMullerCode(int(q.integers(0, mu)), mu)
        return komm.ReedDecoder(c, input_type="soft" if t == 5 else "hard"), c, t == 5
    if t == 6:
        c = komm.SingleParityCheckCode(int(q.integers(2, 9)))
        return komm.WagnerDecoder(c), c, True
    if t == 7:
        mu = int(q.integers(1, 3 if small else 5))
        k = int(q.integers(1, (1 << mu) + 1))
        c = komm.PolarCode(mu, np.sort(q.permutation(1 << mu)[k:]))
        return komm.SCDecoder(c, output_type=str(q.choice(["hard", "soft"]))), c, True
    while True:
        c = terminated(q, small)
        if c.mode != "tail-biting":
            break
    if q.integers(0, 2):
        soft = bool(q.integers(0, 2))
        return komm.ViterbiDecoder(c, input_type="soft" if soft else "hard"), c, soft
    return komm.BCJRDecoder(c, output_type=str(q.choice(["hard", "soft"]))), c, True


def e_decoder(r, small):
    s = new_seed(r)
    mk = again(lambda q: decoder(q, small)[0], s)
    d, code, soft = decoder(np.random.default_rng(s), small)
    n, k = code.length, code.dimension

    def draw(q, cnt):
        if not soft:
            return bits(q, cnt, n)
        return np.round(q.normal(size=(cnt, n)), 3)
    ops = [Op("code")]
    for _ in range(5):
        sh, b = ilead(r), int(r.integers(1, 4))
        x = draw(r, b * int(np.prod(sh))).reshape(*sh, b * n)
        ops.append(Op("decode", (x if soft else gen.cast(r, x),)))
    out_soft = getattr(d, "output_type", "hard") == "soft"
    return Entry("decoder", f"{type(d).__name__}({code!r})", mk, ops,
                 [Block("decode", n, k, draw, integer=not soft)], rebuild=True)


def e_conv(r, small):
    s = new_seed(r)
    kw = dict(max_nu=2, kmax=1, nmax=2, max_states=4) if small else dict(max_nu=3, kmax=2, nmax=3, max_states=16)
    c = gconv.any_conv(np.random.default_rng(s), **kw)
    mk = again(lambda q: gconv.any_conv(q, **kw).code, s)
    ops = [Op(x) for x in ("num_input_bits", "num_output_bits", "constraint_lengths", "overall_constraint_length",
                           "memory_order", "degree")]
    ops += [Op("generator_matrix", ()), Op("finite_state_machine", ()), Op("state_space_representation", ()),
            Op("is_catastrophic", ())]
    code = mk()
    if not callable(getattr(code, "generator_matrix", None)):
        ops = [o for o in ops if o.name != "generator_matrix"] + [Op("generator_matrix")]
    if c.sigma <= 4 and raised(code.is_catastrophic) == ("ok", False):
        ops.append(Op("free_distance", ()))
    sig = c.sigma
    for _ in range(4):
        L = int(r.integers(1, 7)) * c.k
        ops.append(Op("encode", (gen.cast(r, bits(r, L)),)))
        ops.append(Op("encode_with_state", (gen.cast(r, bits(r, L)), bits(r, int(code.degree)))))
    return Entry("conv", repr(c), mk, ops)


def rand_mach(q, small, moore):
    T, O = q.integers(0, 3 if small else 4, size=(1, 1)), None
    S, X, Y = (2, 2, 2) if small else (int(q.integers(1, 5)), int(q.integers(1, 4)), int(q.integers(1, 5)))
    T = q.integers(0, S, size=(S, X))
    O = q.integers(0, Y, size=(S,) if moore else (S, X))
    return (komm.MooreMachine if moore else komm.MealyMachine)(T.tolist() if q.integers(0, 2) else T, O), T, O


def e_machine(r, small):
    s = new_seed(r)
    moore = bool(r.integers(0, 3) == 0)
    mk = again(lambda q: rand_mach(q, small, moore)[0], s)
    _, T, O = rand_mach(np.random.default_rng(s), small, moore)
    S, X = T.shape
    ops = [Op(x) for x in ("num_states", "num_input_symbols", "num_output_symbols", "transitions", "outputs")]
    for _ in range(4):
        ops.append(Op("process", (gen.cast(r, r.integers(0, X, size=int(r.integers(0, 8)))), int(r.integers(0, S)))))
    if not moore:
        Y = int(O.max()) + 1
        ops += [Op("input_edges"), Op("output_edges")]
        tab = r.integers(0, 9, size=(4, Y)).astype(float)
        cost = Table(tab)
        z = [int(x) for x in r.integers(0, 4, size=int(r.integers(1, 5)))]
        init = r.integers(0, 5, size=S).astype(float)
        ops.append(Op("viterbi", (z, cost, init)))
        ops.append(Op("forward_backward", (z, Table(tab / 3.0), r.dirichlet(np.ones(X), size=len(z)),
                                           r.dirichlet(np.ones(S)), r.dirichlet(np.ones(S)))))
    return Entry("machine", f"{'Moore' if moore else 'Mealy'} T={T.tolist()} O={O.tolist()}", mk, ops)


class Table:
    def __init__(self, t):
        self.t = t

    def __call__(self, y, z):
        return float(self.t[z % 4][y])

    def __repr__(self):
        return f"table({self.t.tolist()})"

    def __eq__(self, o):
        return isinstance(o, Table) and np.array_equal(self.t, o.t)


def e_labeling(r, small):
    s = new_seed(r)
    kw = dict(mmax=2 if small else 5)
    L, W, desc = p_mapping.rand_labeling(np.random.default_rng(s), **kw)
    mk = again(lambda q: p_mapping.rand_labeling(q, **kw), s)
    m, M = len(W[0]), len(W)
    ops = [Op(x) for x in ("matrix", "num_bits", "cardinality", "inverse_mapping")]
    for _ in range(3):
        sh, b = ilead(r), int(r.integers(1, 4))
        ops.append(Op("indices_to_bits", (gen.cast(r, r.integers(0, M, size=(*sh, b))) if M <= 2 else r.integers(0, M, size=(*sh, b)),)))
        ops.append(Op("bits_to_indices", (gen.cast(r, bits(r, *sh, b * m)),)))
        ops.append(Op("marginalize", (r.random((*sh, b * M)) + 1e-3,)))
    blocks = [Block("indices_to_bits", 1, m, lambda q, c: q.integers(0, M, size=(c, 1))),
              Block("bits_to_indices", m, 1, lambda q, c: bits(q, c, m)),
              Block("marginalize", M, m, lambda q, c: q.random((c, M)) + 1e-3, integer=False)]
    return Entry("labeling", desc, mk, ops, blocks)


def e_constellation(r, small):
    s = new_seed(r)
    C = again(lambda q: p_mapping.rand_con(q, big=False), s)()
    mk = again(lambda q: p_mapping.rand_con(q, big=False), s)
    X = np.asarray(C.matrix)
    M, N = X.shape
    sc = math.sqrt(float(np.mean(np.abs(X) ** 2))) or 1.0

    def pts(q, *shape):
        x = q.normal(size=shape) * sc
        if np.iscomplexobj(X):
            x = x + 1j * q.normal(size=shape) * sc
        return x
    ops = [Op(x) for x in ("matrix", "order", "dimension")]
    pri = r.dirichlet(np.ones(M))
    ops += [Op("mean", ()), Op("mean", (pri,)), Op("mean_energy", ()), Op("mean_energy", (pri.tolist(),)), Op("minimum_distance", ())]
    N0 = float(sc ** 2 * 10 ** r.uniform(-1, 1))
    for _ in range(2):
        sh, b = ilead(r), int(r.integers(1, 4))
        ops.append(Op("indices_to_symbols", (r.integers(0, M, size=(*sh, b)),)))
        y = pts(r, *sh, b * N)
        ops += [Op("closest_indices", (y,)), Op("closest_symbols", (y,)), Op("posteriors", (y, N0)),
                Op("posteriors", (y, N0, pri))]
    blocks = [Block("indices_to_symbols", 1, N, lambda q, c: q.integers(0, M, size=(c, 1))),
              Block("closest_indices", N, 1, lambda q, c: pts(q, c, N), integer=False),
              Block("closest_symbols", N, N, lambda q, c: pts(q, c, N), integer=False),
              Block("posteriors", N, M, lambda q, c: pts(q, c, N), integer=False, kwargs={"snr_or_noise": N0}),
              Block("posteriors", N, M, lambda q, c: pts(q, c, N), integer=False, kwargs={"snr_or_noise": N0, "priors": pri})]
    for b in blocks[3:]:
        kw = dict(b.kwargs)
        b.kwargs = {}
        b.extra = (kw["snr_or_noise"],) + ((kw["priors"],) if "priors" in kw else ())
    return Entry("constellation", f"{C!r}"[:200], mk, ops, blocks)


def e_fv(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 5))
        S = int(q.integers(2, 4 if small else 6))
        k = int(q.integers(1, 3))
        p = q.dirichlet(np.ones(S))
        if t == 0:
            return komm.HuffmanCode(p, k, policy=str(q.choice(["high", "low"])), assignment=str(q.choice(["tree", "canonical"]))), S, k, 2
        if t == 1:
            return komm.ShannonCode(p, k), S, k, 2
        if t == 2:
            return komm.FanoCode(p, k), S, k, 2
        X = int(q.integers(2, 4))
        words = p_lossless.rand_tree(q, X, S, min_leaves=S)
        while len(words) < S:
            words = p_lossless.rand_tree(q, X, S + 3, min_leaves=S)
        words = [tuple(int(c) for c in w) for w in words][:S]
        if t == 3:
            if max(max(w) for w in words) == 0:
                words[0] = (1,) + words[0][1:]
            return komm.FixedToVariableCode.from_codewords(words), S, 1, X
        return komm.FixedToVariableCode(source_cardinality=S, target_cardinality=X, source_block_size=1,
                                        enc_mapping={(i,): w for i, w in enumerate(words)}), S, 1, X
    c, S, k, X = f(np.random.default_rng(s))
    ops = [Op(x) for x in ("source_cardinality", "target_cardinality", "source_block_size", "size", "enc_mapping", "codewords", "lengths")]
    ops = [o if not callable(getattr(type(c), o.name, None)) else Op(o.name, ()) for o in ops]
    ops += [Op("is_prefix_free", ()), Op("is_uniquely_decodable", ()), Op("kraft_parameter", ()), Op("rate", (r.dirichlet(np.ones(S)),))]
    for _ in range(3):
        x = r.integers(0, S, size=k * int(r.integers(0, 8)))
        ops.append(Op("encode", (x.tolist() if r.integers(0, 2) else x,)))
        ops.append(Op("decode", (np.asarray(c.encode(x)),)))
    return Entry("fv", repr(c)[:200], again(f, s), ops)


def e_vf(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 3))
        S = int(q.integers(2, 4))
        if t == 0:
            p = q.dirichlet(np.ones(S)) * 0.9 + 0.1 / S
            return komm.TunstallCode(p / p.sum(), int(q.integers(2, 5))), S
        words = p_lossless.rand_tree(q, S, 8, min_leaves=S)
        words = [tuple(int(c) for c in w) for w in words]
        if t == 1:
            X = int(q.integers(2, 4))
            m = 1
            while X ** m < len(words):
                m += 1
            import itertools
            dm = dict(zip(itertools.product(range(X), repeat=m), words))
            return komm.VariableToFixedCode(target_cardinality=X, source_cardinality=S, target_block_size=m, dec_mapping=dm), S
        return komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=2), S
    c, S = f(np.random.default_rng(s))
    ops = []
    for x in ("source_cardinality", "target_cardinality", "target_block_size", "size", "dec_mapping", "sourcewords", "lengths"):
        ops.append(Op(x, () if callable(getattr(type(c), x, None)) else None))
    ops += [Op("is_prefix_free", ()), Op("is_uniquely_encodable", ()), Op("is_fully_covering", ()), Op("rate", (r.dirichlet(np.ones(S)),))]
    for _ in range(3):
        x = r.integers(0, S, size=int(r.integers(0, 12)))
        ops.append(Op("encode", (x.tolist() if r.integers(0, 2) else x,)))
        ops.append(Op("decode", (np.asarray(c.encode(x)),)))
    return Entry("vf", repr(c)[:200], again(f, s), ops)


def e_lz(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 4))
        X, Y = int(q.integers(2, 4)), int(q.integers(2, 4))
        if t >= 2:
            return [komm.LempelZiv78Code, komm.LempelZivWelchCode][t - 2](X, Y), X, t
        S, L = int(q.integers(1, 9)), int(q.integers(1, 6))
        kw = {}
        if q.integers(0, 2):
            kw["search_buffer"] = q.integers(0, X, size=S).tolist()
        return ([komm.LempelZiv77Code, komm.LempelZivSSCode][t](search_size=S, lookahead_size=L, source_cardinality=X,
                                                                 target_cardinality=Y, **kw), X, t)
    c, X, t = f(np.random.default_rng(s))
    ops = []
    for _ in range(3):
        x = p_lossless.rand_seq(r, X, int(r.integers(0, 25)))
        x = np.asarray(x, dtype=int)
        ops.append(Op("encode", (x.tolist() if r.integers(0, 2) else x,)))
        ops.append(Op("decode", (np.asarray(c.encode(x)),)))
        if t != 3:
            tk = c.source_to_tokens(x)
            ops += [Op("source_to_tokens", (x,)), Op("tokens_to_source", (tk,)), Op("tokens_to_target", (tk,))]
    return Entry("lz", repr(c), again(f, s), ops)


def e_integer(r, small):
    cls = [komm.UnaryCode, komm.FibonacciCode][int(r.integers(0, 2))]
    ops = []
    lo = 0 if cls is komm.UnaryCode else 1
    c = cls()
    for _ in range(4):
        x = r.integers(lo, 12, size=int(r.integers(0, 6)))
        ops += [Op("encode", (x.tolist() if r.integers(0, 2) else x,)), Op("decode", (np.asarray(c.encode(x), dtype=int),))]
    return Entry("integer", cls.__name__, cls, ops, rebuild=False)


def e_channel(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 5))
        p = float(np.round(q.random(), 3))
        if t == 4:
            n, k = (2, 2) if small else (int(q.integers(1, 4)), int(q.integers(1, 4)))
            return komm.DiscreteMemorylessChannel(q.dirichlet(np.ones(k), size=n)), n
        if t == 3:
            return komm.GaussianChannel(p * 10), 0
        return [komm.BinarySymmetricChannel, komm.BinaryErasureChannel, komm.ZChannel][t](p), 2
    c, n = f(np.random.default_rng(s))
    if n == 0:
        x = r.normal(size=(2, 3))
        ops = [Op("noise_power"), Op("transmit", (x,), random=True), Op("transmit", ((x + 1j).tolist(),), random=True)]
        return Entry("channel", repr(c), again(f, s), ops)
    ops = [Op(x) for x in ("input_cardinality", "output_cardinality", "transition_matrix")]
    ops += [Op("capacity", ()), Op("capacity", (3.0,))]
    for _ in range(2):
        pm = r.dirichlet(np.ones(n))
        ops += [Op("mutual_information", (pm.tolist() if r.integers(0, 2) else pm,)), Op("mutual_information", (pm, "e"))]
        ops.append(Op("transmit", (r.integers(0, n, size=(2, 5)),), random=True))
    return Entry("channel", repr(c), again(f, s), ops)


def e_source(r, small):
    s = new_seed(r)

    def f(q):
        return komm.DiscreteMemorylessSource(int(q.integers(1, 5)) if q.integers(0, 2) else q.dirichlet(np.ones(int(q.integers(1, 5)))))
    ops = [Op("cardinality"), Op("pmf"), Op("entropy_rate", ()), Op("entropy_rate", ("e",)), Op("emit", ((2, 3),), random=True),
           Op("emit", (7,), random=True)]
    return Entry("source", repr(again(f, s)()), again(f, s), ops)


def e_chain(r, small):
    s = new_seed(r)

    def f(q):
        n = 2 if small else int(q.integers(1, 7))
        if q.integers(0, 3) == 0 and n >= 2:
            P = p_sources.rand_absorbing(q)
            P = P[0] if isinstance(P, tuple) else P
            return komm.MarkovChain(P)
        A = p_sources.rand_graph(q, n)
        return komm.MarkovChain(p_sources.weights(q, A))
    c = again(f, s)()
    n = c.num_states
    ops = [Op("num_states"), Op("transition_matrix")]
    names = ["communicating_classes", "is_irreducible", "transient_states", "recurrent_states", "absorbing_states",
             "is_aperiodic", "is_regular", "index_of_primitivity", "is_absorbing",
             "stationary_distribution", "mean_number_of_visits", "mean_time_to_absorption", "absorption_probabilities"]
    ops += [Op(x, ()) for x in names]
    ops += [Op("accessible_states_from", (int(r.integers(0, n)),)), Op("period", (int(r.integers(0, n)),))]
    ops.append(Op("simulate", (int(r.integers(0, n)), 9), random=True))
    return Entry("chain", repr(c)[:200], again(f, s), ops)


def e_quantizer(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 3))
        L = int(q.integers(2, 4 if small else 7))
        if t == 0:
            x = np.sort(q.choice(40, size=2 * L - 1, replace=False)) / 4.0 - 5
            return komm.ScalarQuantizer(x[0::2], x[1::2]), True
        if t == 1:
            return komm.UniformQuantizer(L, float(q.integers(1, 9)) / 4, float(q.integers(-4, 5)) / 8), False
        return komm.LloydMaxQuantizer(bump, (-2.0, 3.0), L), False
    c, reb = f(np.random.default_rng(s))
    x = np.round(r.normal(size=(2, 5)) * 2, 2)
    ops = [Op("levels"), Op("thresholds")]
    for y in (x, x.tolist(), 0.25, np.round(x).astype(int)):
        ops += [Op("digitize", (y,)), Op("quantize", (y,))]
    ops.append(Op("mean_squared_error", (bump, (-2.0, 3.0))))
    return Entry("quantizer", repr(c)[:200], again(f, s), ops, rebuild=reb)


def bump(x):
    return np.exp(-np.abs(np.asarray(x)) ** 2)


def e_sequence(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 7))
        if t == 0:
            return komm.BarkerSequence(int(q.choice([2, 3, 4, 5, 7, 11, 13])))
        if t == 1:
            n = int(q.integers(1, 6))
            return komm.LFSRSequence((1 << n) | int(q.integers(0, 1 << n)) | 1, int(q.integers(1, 1 << n)))
        if t == 2:
            return komm.LFSRSequence.maximum_length_sequence(int(q.integers(1, 7)))
        if t == 3:
            L = 1 << int(q.integers(0, 5))
            return komm.WalshHadamardSequence(L, str(q.choice(["natural", "sequency"])), int(q.integers(0, L)))
        if t == 4:
            L = int(q.integers(1, 12)) * 2 + 1
            return komm.ZadoffChuSequence(L, int(q.integers(1, L)))
        b = q.integers(0, 2, size=int(q.integers(1, 12)))
        if t == 5:
            return komm.BinarySequence(bit_sequence=b) if q.integers(0, 2) else komm.BinarySequence(polar_sequence=(1 - 2 * b).tolist())
        return komm.ComplexSequence(np.round(q.normal(size=5) + 1j * q.normal(size=5), 3))
    c = again(f, s)()
    ops = [Op("length")]
    ops += [Op(x) for x in ("bit_sequence", "polar_sequence", "sequence") if x in dir(c) or hasattr(c, x)]
    sh = r.integers(-8, 9, size=4)
    ops += [Op("autocorrelation", ()), Op("cyclic_autocorrelation", ()), Op("autocorrelation", (sh.tolist(),)),
            Op("cyclic_autocorrelation", (sh,), {"normalized": True})]
    return Entry("sequence", repr(c)[:200], again(f, s), ops)


def e_pulse(r, small):
    s = new_seed(r)

    def f(q):
        t = int(q.integers(0, 7))
        a = [0.0, 0.25, 0.5, 1.0][int(q.integers(0, 4))]
        p = [komm.RectangularPulse, komm.GaussianPulse][t](float(q.integers(1, 9)) / 4) if t < 2 else (
            komm.ManchesterPulse() if t == 2 else komm.SincPulse() if t == 3 else
            komm.RaisedCosinePulse(a) if t in (4, 5) else komm.BeaulieuPulse(a))
        if t in (3, 4, 6) and q.integers(0, 2):
            try:
                return p.root()
            except Exception:
                return p
        return p
    c = again(f, s)()
    t = np.round(r.normal(size=(2, 3)) * 2, 2)
    root = "root" in repr(c)
    beau = "Beaulieu" in repr(c)
    names = ["waveform", "spectrum"] + ([] if beau and root else ["energy_spectral_density"])
    ops = [Op("support", ()) if callable(getattr(c, "support", None)) else Op("support")]
    for nm in names:
        for y in (t, t.tolist(), 0.5):
            if beau and nm == "waveform" and y is not t:
                continue
            ops.append(Op(nm, (y,)))
    if not beau:
        ops += [Op("autocorrelation", (t,)), Op("energy", ())]
    ops.append(Op("taps", (4,), {"span": (-1, 2)}))
    return Entry("pulse", repr(c), again(f, s), ops)


def e_algebra(r, small):
    from . import p_algebra
    s = new_seed(r)
    t = int(r.integers(0, 3))
    if t == 0:
        mk = again(lambda q: komm.BinaryPolynomial(int(q.integers(0, 1 << 20))), s)
        y = komm.BinaryPolynomial(int(r.integers(1, 1 << 10)))
        c = mk()
        ops = [Op("degree"), Op("coefficients", (25,)), Op("exponents", ()), Op("is_irreducible", ()), Op("is_primitive", ()),
               Op("reciprocal", ()), Op("evaluate", (y,))]
        ops += [Op(d, (y,)) for d in ("__add__", "__sub__", "__mul__", "__floordiv__", "__mod__", "__divmod__")]
        return Entry("polynomial", repr(c), mk, ops)
    if t == 1:
        def f(q):
            return komm.BinaryPolynomialFraction(int(q.integers(0, 1 << 8)), int(q.integers(1, 1 << 8)))
        y = komm.BinaryPolynomialFraction(int(r.integers(1, 1 << 8)), int(r.integers(1, 1 << 8)))
        ops = [Op("numerator"), Op("denominator"), Op("__add__", (y,)), Op("__mul__", (y,)), Op("__truediv__", (y,)), Op("inverse", ())]
        return Entry("fraction", repr(again(f, s)()), again(f, s), ops)

    def g(q):
        d = int(q.integers(1, 28))
        if d > 24 or q.integers(0, 2):
            d = min(d, 28)
            while True:
                x = (1 << d) | int(q.integers(0, 1 << d)) | 1
                if ref.pirreducible(x):
                    return komm.FiniteBifield(d, modulus=x)
        return komm.FiniteBifield(d)
    c = again(g, s)()
    ops = [Op("degree"), Op("modulus"), Op("order"), Op("characteristic"), Op("zero"), Op("one"),
           Op("__call__", (int(r.integers(0, 1 << c.degree)),))]
    return Entry("field", repr(c), again(g, s), ops)


FAMILIES = [e_block, e_terminated, e_decoder, e_conv, e_machine, e_labeling, e_constellation, e_fv, e_vf, e_lz, e_integer,
            e_channel, e_source, e_chain, e_quantizer, e_sequence, e_pulse, e_algebra]


def entry(r, small=False, family=None):
    f = family or FAMILIES[int(r.integers(0, len(FAMILIES)))]
    return f(r, small)


def static_ops(r):
    """Operations that are plain functions: (name, function, args)."""
    p = r.dirichlet(np.ones(4))
    q = r.dirichlet(np.ones(4))
    x = np.round(r.normal(size=(3, 6)), 3)
    b = r.integers(0, 2, size=(2, 6))
    i = r.integers(0, 64, size=(3,))
    ax = int(r.integers(-2, 2))
    out = [("entropy", (p,)), ("entropy", (p.tolist(), "e")), ("relative_entropy", (p, q)), ("binary_entropy", (float(p[0]),)),
           ("binary_entropy_inv", (float(p[0]),)), ("gaussian_q", (x,)), ("gaussian_q_inv", (np.clip(np.abs(x), 0.01, 0.99),)),
           ("marcum_q", (2, np.abs(x), 1.5)), ("boxplus", (x, x[::-1])), ("boxplus", (x.tolist(), 0.5)),
           ("bits_to_int", (b,)), ("bits_to_int", (b.tolist(), "MSB-first")), ("int_to_bits", (i, 6)), ("int_to_bits", (i.tolist(), 7, "MSB-first")),
           ("sampling_rate_compress", (x, 2, 1, ax)), ("sampling_rate_expand", (x, 2, 1, ax)),
           ("convolve", (x, x[0, :3], 1)), ("convolve", (x[0].tolist(), x[1])), ("fourier_transform", (x, 0.25)),
           ("autocorrelation", (x[0],)), ("autocorrelation", (b[0].tolist(), [-1, 0, 9])), ("cyclic_autocorrelation", (x[1], [1, 2], True))]
    return [(n, getattr(komm, n), a) for n, a in out]
